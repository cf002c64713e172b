// Package drive searches seeds for violations, minimises what it finds,
// writes replay files and evidence.
package drive

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/teamlint/baron/zz_sim/k"
)

// Bad is a violation.
type Bad struct {
	Prop string   `json:"prop"`
	Sig  string   `json:"sig"` // what kind, without run-specific detail
	Msg  string   `json:"msg"`
	More []string `json:"more,omitempty"`
}

// Badf makes a violation.
func Badf(prop, sig, format string, a ...interface{}) *Bad {
	return &Bad{Prop: prop, Sig: sig, Msg: fmt.Sprintf(format, a...)}
}

// Exp decides one property.
type Exp struct {
	ID       string
	Quick    int // seeds
	Thorough int
	Search   func(seed uint64, tier string, try func(c interface{}) bool)
	New      func() interface{}
	Eval     func(c interface{}) *Bad
	Smaller  func(c interface{}) []interface{}
	Reset    func() // forget caches
	Crash    bool   // a crash of the whole simulator is a violation of this property
	Level    string
	Rule     string
	Real     string
	Stub     string
	Assume   []string
}

// Tot is measured over a search.
type Tot struct {
	Evals       int             `json:"evals"`
	Runs        int             `json:"runs"`
	Ops         int             `json:"ops"`
	SimSec      float64         `json:"sim"`
	Fired       map[string]int  `json:"fired"`
	Notes       map[string]int  `json:"notes"`
	Distinct    map[uint64]bool `json:"-"`
	Worlds      map[uint64]bool `json:"-"`
	DL          []uint64        `json:"dl"`
	WL          []uint64        `json:"wl"`
	Samples     []string        `json:"samples"`
	Seeds       int             `json:"seeds"`
	Recheck     int             `json:"recheck"`
	Mismatch    int             `json:"mismatch"`
	Known       map[string]int  `json:"known"`
	ch          uint64
	interesting bool
}

// T is this worker's total.
var T = NewTot()

func NewTot() *Tot {
	return &Tot{Fired: map[string]int{}, Notes: map[string]int{}, Distinct: map[uint64]bool{}, Worlds: map[uint64]bool{}, Known: map[string]int{}}
}

// KeepTrace makes Count remember the last trace.
var KeepTrace bool
var LastTrace []string

// Count adds a finished world.
func Count(w *k.World) {
	T.Runs++
	T.Ops += w.Steps
	T.SimSec += w.Elapsed().Seconds()
	for f, n := range w.Fired {
		T.Fired[f] += n
		T.interesting = true
	}
	T.Worlds[w.Hash] = true
	T.ch = T.ch*1099511628211 ^ w.Hash
	if KeepTrace {
		LastTrace = nil
		for _, o := range w.Trace {
			LastTrace = append(LastTrace, o.String())
		}
	}
}

// Aside runs something that is not part of the case (the making of cached
// inputs): it does not count in the fingerprint of the case.
func Aside(f func()) {
	ch, in := T.ch, T.interesting
	f()
	T.ch, T.interesting = ch, in
}

// Note counts something and marks the case as non-trivial.
func Note(what string) {
	T.Notes[what]++
	T.interesting = true
}

// Mix adds to the fingerprint of the case.
func Mix(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	T.ch = T.ch*1099511628211 ^ h.Sum64()
}

type known struct{ prop, sig, match, text string }

func loadKnown(verif string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var rv []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var kn known
		rest := strings.TrimPrefix(l, "known: ")
		parts := strings.SplitN(rest, " :: ", 2)
		if len(parts) == 2 {
			kn.text = parts[1]
		}
		for _, f := range strings.Split(parts[0], " | ") {
			switch {
			case strings.HasPrefix(f, "property="):
				kn.prop = f[9:]
			case strings.HasPrefix(f, "sig="):
				kn.sig = f[4:]
			case strings.HasPrefix(f, "match="):
				kn.match = f[6:]
			}
		}
		rv = append(rv, kn)
	}
	return rv
}

func (kn *known) is(b *Bad) bool {
	return kn.prop == b.Prop && kn.sig == b.Sig && strings.Contains(b.Msg, kn.match)
}

type msg struct {
	Seed  int             `json:"seed,omitempty"`
	Done  bool            `json:"done,omitempty"`
	Tot   *Tot            `json:"tot,omitempty"`
	Bad   *Bad            `json:"bad,omitempty"`
	Case  json.RawMessage `json:"case,omitempty"`
	Hash  string          `json:"hash,omitempty"`
	Trace []string        `json:"trace,omitempty"`
	Index int             `json:"index,omitempty"`
	Err   string          `json:"err,omitempty"`
}

// Replay is the file written for a violation.
type Replay struct {
	Property string          `json:"property"`
	Sig      string          `json:"sig"`
	Msg      string          `json:"message"`
	Seed     int             `json:"verif_seed"`
	Index    int             `json:"seed_index"`
	Hash     string          `json:"execution_fingerprint"`
	Case     json.RawMessage `json:"case"`
	Trace    []string        `json:"trace,omitempty"`
}

func (e *Exp) eval(c interface{}) (b *Bad, hash uint64, interesting bool) {
	T.ch, T.interesting = 14695981039346656037, false
	b = e.Eval(c)
	T.Evals++
	return b, T.ch, T.interesting
}

func seedOf(base, i int) uint64 { return uint64(base)*1000003 + uint64(i)*7919 + 12345 }

// Work is a worker process.
func Work(e *Exp, verif string, w, n, base, from int, tier string, deadline time.Time, casefile string) {
	debug.SetMaxStack(256 << 20)
	kn := loadKnown(verif)
	out := bufio.NewWriter(os.Stdout)
	send := func(m msg) {
		b, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	total := e.Quick
	if tier == "thorough" {
		total = e.Thorough
	}
	stop := false
	cf, _ := os.OpenFile(casefile, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0666)
	for i := from; i < total && !stop; i++ {
		if i%n != w {
			continue
		}
		if time.Now().After(deadline) {
			break
		}
		seed := seedOf(base, i)
		cnt := 0
		T.Seeds++
		e.Search(seed, tier, func(c interface{}) bool {
			if time.Now().After(deadline) {
				return false
			}
			js, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			if cf != nil {
				cf.Truncate(0)
				cf.WriteAt([]byte(fmt.Sprintf("%d\n%s", i, js)), 0)
			}
			b, h, in := e.eval(c)
			if in {
				if !T.Distinct[h] {
					T.Distinct[h] = true
					if len(T.Samples) < 2 && len(js) < 6000 {
						T.Samples = append(T.Samples, string(js))
					}
				}
			}
			if cnt == 0 && T.Seeds <= 3 && b == nil {
				// the same case again must be the same execution
				save := *T
				e.Reset()
				c2 := e.New()
				if err := json.Unmarshal(js, c2); err != nil {
					panic(err)
				}
				_, h1, _ := e.eval(c2)
				e.Reset()
				_, h2, _ := e.eval(c2)
				*T = save
				T.Recheck++
				if h1 != h2 {
					T.Mismatch++
				}
			}
			cnt++
			if b == nil {
				return true
			}
			for _, q := range kn {
				if q.is(b) {
					T.Known[q.text]++
					return true
				}
			}
			small, sb := minimise(e, c, b, kn)
			js, _ = json.Marshal(small)
			e.Reset()
			KeepTrace = true
			fb, h, _ := e.eval(small)
			if fb == nil {
				fb = sb
			}
			send(msg{Bad: fb, Case: js, Hash: fmt.Sprintf("%016x", h), Trace: LastTrace, Index: i})
			stop = true
			return false
		})
	}
	for h := range T.Distinct {
		T.DL = append(T.DL, h)
	}
	for h := range T.Worlds {
		T.WL = append(T.WL, h)
	}
	send(msg{Tot: T, Done: true})
}

func minimise(e *Exp, c interface{}, b *Bad, kn []known) (interface{}, *Bad) {
	end := time.Now().Add(45 * time.Second)
	evals := 0
	for {
		improved := false
		for _, s := range e.Smaller(c) {
			if time.Now().After(end) || evals > 600 {
				return c, b
			}
			evals++
			e.Reset()
			nb, _, _ := e.eval(s)
			if nb == nil || nb.Sig != b.Sig || nb.Prop != b.Prop {
				continue
			}
			isKnown := false
			for _, q := range kn {
				if q.is(nb) {
					isKnown = true
				}
			}
			if isKnown {
				continue
			}
			c, b = s, nb
			improved = true
			break
		}
		if !improved {
			return c, b
		}
	}
}

// ReplayFile reproduces a violation; it returns the exit code.
func ReplayFile(e *Exp, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	c := e.New()
	if err := json.Unmarshal(r.Case, c); err != nil {
		fmt.Println(err)
		return 2
	}
	KeepTrace = true
	v, h, _ := e.eval(c)
	for _, l := range LastTrace {
		fmt.Println(l)
	}
	if v == nil {
		fmt.Println("replay: no violation")
		return 0
	}
	fmt.Printf("%s %s: %s\n", v.Prop, v.Sig, v.Msg)
	for _, m := range v.More {
		fmt.Println(m)
	}
	fmt.Printf("execution %016x (recorded %s)\n", h, r.Hash)
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Prop, file)
	return 1
}

// Drive runs the workers for a property; it returns the exit code.
func Drive(e *Exp, verif, self string, extra []string, workdir string) int {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	base, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		base = 1
	}
	limit := 240 * time.Second
	if tier == "thorough" {
		limit = 3600 * time.Second
	}
	if s := os.Getenv("VERIF_LIMIT"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	start := time.Now()
	deadline := start.Add(limit)
	n := 8
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		if x, err := strconv.Atoi(s); err == nil && x > 0 {
			n = x
		}
	}
	type res struct {
		bad *msg
		tot []*Tot
		err string
	}
	results := make([]res, n)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var cmds []*exec.Cmd
	stopped := false
	crashes := 0
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			from := 0
			for attempt := 0; attempt < 6; attempt++ {
				cf := filepath.Join(workdir, fmt.Sprintf("case%d", i))
				args := append([]string{"work", e.ID, verif, strconv.Itoa(i), strconv.Itoa(n), strconv.Itoa(base), strconv.Itoa(from), tier,
					strconv.FormatInt(deadline.Unix(), 10), cf}, extra...)
				cmd := exec.Command(self, args...)
				var ob, eb bytes.Buffer
				cmd.Stdout, cmd.Stderr = &ob, &eb
				mu.Lock()
				if stopped {
					mu.Unlock()
					return
				}
				if err := cmd.Start(); err != nil {
					mu.Unlock()
					results[i].err = err.Error()
					return
				}
				cmds = append(cmds, cmd)
				mu.Unlock()
				// a worker that overruns its time is stuck in a single case
				timer := time.AfterFunc(time.Until(deadline)+150*time.Second, func() { cmd.Process.Kill() })
				werr := cmd.Wait()
				timer.Stop()
				done := false
				for _, l := range strings.Split(ob.String(), "\n") {
					if l == "" {
						continue
					}
					var m msg
					if json.Unmarshal([]byte(l), &m) != nil {
						continue
					}
					if m.Bad != nil {
						x := m
						results[i].bad = &x
						mu.Lock()
						stopped = true
						for _, c := range cmds {
							if c != cmd && c.Process != nil {
								c.Process.Kill()
							}
						}
						mu.Unlock()
					}
					if m.Done {
						done = true
						results[i].tot = append(results[i].tot, m.Tot)
					}
				}
				if done || results[i].bad != nil {
					return
				}
				mu.Lock()
				st := stopped
				mu.Unlock()
				if st {
					return
				}
				// the worker died: in which case?
				b, _ := os.ReadFile(cf)
				idx, js := 0, ""
				if j := bytes.IndexByte(b, '\n'); j > 0 {
					idx, _ = strconv.Atoi(string(b[:j]))
					js = string(b[j+1:])
				}
				text := eb.String()
				if len(text) > 3000 {
					text = text[:1500] + "\n...\n" + text[len(text)-1500:]
				}
				if strings.Contains(text, "harness: ") || js == "" {
					results[i].err = fmt.Sprintf("worker died: %v\n%s", werr, text)
					return
				}
				if e.Crash && (strings.Contains(text, "stack overflow") || strings.Contains(text, "stack exceeds") || strings.Contains(text, "all goroutines are asleep") || strings.Contains(text, "fatal error: ")) {
					results[i].bad = &msg{Bad: &Bad{Prop: e.ID, Sig: "process-crash", Msg: "the process dies: " + text}, Case: json.RawMessage(js), Index: idx}
					return
				}
				mu.Lock()
				crashes++
				mu.Unlock()
				results[i].err = fmt.Sprintf("worker died in seed %d: %v\n%s", idx, werr, text)
				from = idx + 1
			}
		}(i)
	}
	wg.Wait()
	var best *msg
	tot := NewTot()
	errs := ""
	finished := 0
	for _, r := range results {
		if r.bad != nil && (best == nil || r.bad.Index < best.Index) {
			best = r.bad
		}
		for _, t := range r.tot {
			finished++
			tot.add(t)
		}
		if r.err != "" {
			errs += r.err + "\n"
		}
	}
	wall := time.Since(start).Seconds()
	code := 0
	violations := 0
	if best != nil {
		violations = 1
		code = 1
	} else if finished == 0 || crashes > 4 {
		fmt.Printf("ERROR: the simulator did not finish:\n%s\n", errs)
		code = 2
	} else if errs != "" {
		fmt.Printf("note: %s\n", errs)
	} else if tot.Evals > 100 && len(tot.Distinct) == 0 {
		fmt.Println("ERROR: no case could be examined")
		code = 2
	}
	writeEvidence(e, verif, tier, base, tot, wall, violations, n)
	var names []string
	for t := range tot.Known {
		names = append(names, t)
	}
	// every listed finding of this property is announced, found again or not
	for _, q := range loadKnown(verif) {
		if q.prop == e.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s (met %d times in this run)\n", e.ID, q.text, tot.Known[q.text])
		}
	}
	fmt.Printf("%s %s: %d seeds, %d cases, %d simulated runs, %d operations, %d distinct non-trivial cases, %d faults injected, %.1f s\n",
		e.ID, tier, tot.Seeds, tot.Evals, tot.Runs, tot.Ops, len(tot.Distinct), sum(tot.Fired), wall)
	if best != nil {
		dir := filepath.Join(verif, "evidence", "replays")
		os.MkdirAll(dir, 0777)
		f := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", e.ID, base, best.Index))
		js, _ := json.MarshalIndent(Replay{Property: e.ID, Sig: best.Bad.Sig, Msg: best.Bad.Msg, Seed: base, Index: best.Index, Hash: best.Hash, Case: best.Case, Trace: best.Trace}, "", " ")
		os.WriteFile(f, append(js, '\n'), 0666)
		fmt.Printf("%s (%s)\n", best.Bad.Msg, best.Bad.Sig)
		for _, m := range best.Bad.More {
			fmt.Println(m)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", e.ID, f)
	}
	return code
}

func sum(m map[string]int) int {
	n := 0
	for _, x := range m {
		n += x
	}
	return n
}

func (t *Tot) add(o *Tot) {
	t.Evals += o.Evals
	t.Runs += o.Runs
	t.Ops += o.Ops
	t.SimSec += o.SimSec
	t.Seeds += o.Seeds
	t.Recheck += o.Recheck
	t.Mismatch += o.Mismatch
	for f, n := range o.Fired {
		t.Fired[f] += n
	}
	for f, n := range o.Notes {
		t.Notes[f] += n
	}
	for f, n := range o.Known {
		t.Known[f] += n
	}
	for _, h := range o.DL {
		t.Distinct[h] = true
	}
	for _, h := range o.WL {
		t.Worlds[h] = true
	}
	if len(t.Samples) < 4 {
		t.Samples = append(t.Samples, o.Samples...)
	}
}

func writeEvidence(e *Exp, verif, tier string, seed int, t *Tot, wall float64, violations, workers int) {
	if len(t.Samples) > 4 {
		t.Samples = t.Samples[:4]
	}
	var samples []interface{}
	for _, s := range t.Samples {
		var v interface{}
		json.Unmarshal([]byte(s), &v)
		samples = append(samples, v)
	}
	if samples == nil {
		samples = []interface{}{}
	}
	kinds := map[string]int{}
	for f, n := range t.Fired {
		kinds[f] = n
	}
	cov := map[string]interface{}{
		"evaluations":                    t.Evals,
		"distinct_nontrivial":            len(t.Distinct),
		"rule":                           e.Rule,
		"samples":                        samples,
		"simulated_runs":                 t.Runs,
		"operations":                     t.Ops,
		"seeds":                          t.Seeds,
		"seeds_per_hour":                 int(float64(t.Seeds) / wall * 3600),
		"simulated_runs_per_hour":        int(float64(t.Runs) / wall * 3600),
		"simulated_seconds":              t.SimSec,
		"distinct_executions":            len(t.Worlds),
		"faults_injected":                kinds,
		"circumstances":                  t.Notes,
		"same_seed_reruns":               t.Recheck,
		"same_seed_reruns_that_differed": t.Mismatch,
		"known_findings_met":             t.Known,
		"real_code":                      e.Real,
		"stubs":                          e.Stub,
		"workers":                        workers,
	}
	ev := map[string]interface{}{
		"property":    e.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       e.Level,
		"coverage":    cov,
		"assumptions": e.Assume,
		"wall_s":      wall,
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0777)
	os.WriteFile(filepath.Join(verif, "evidence", e.ID+".json"), append(b, '\n'), 0666)
}

// SortedKeys of a string map.
func SortedKeys(m map[string]string) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
