package cli

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/teamlint/baron/zz_sim/k"
)

func under(p, dir string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }

func isAncestor(p, of string) bool { return p == "/" || under(of, p) }

var mutating = map[string]bool{"create": true, "write": true, "mkdir": true, "unlink": true, "rmdir": true, "rename": true, "chmod": true, "truncate": true, "link": true}

// faultsFor lists the faults that can be placed at an operation.
func faultsFor(o k.Op, kinds []string) []k.Fault {
	var rv []k.Fault
	for _, f := range kinds {
		rv = append(rv, k.Fault{Proc: o.Proc, Op: o.Idx, Kind: f})
	}
	return rv
}

// candidates are the baron-written files.
func (b *Base) candidates() map[string]bool {
	m := map[string]bool{b.Outs.Baron: true, b.Outs.Server: true, b.Outs.Client: true}
	for _, p := range append(append([]string(nil), b.Outs.User...), b.Outs.PB...) {
		m[p] = true
	}
	return m
}

// logical maps the places behind the names of baron-written files to the
// names.
func (b *Base) logical() map[string]string {
	m := map[string]string{}
	for p := range b.candidates() {
		m[b.St.FS.Real(p)] = p
	}
	return m
}

// reals are the places of everything baron writes or removes, if they are
// not where their names say.
func (b *Base) reals() map[string]bool {
	if b.realOuts == nil {
		b.realOuts = map[string]bool{}
		for _, p := range append(append(append([]string(nil), b.Outs.All...), b.Outs.Editable()...), b.Outs.S) {
			if q := b.St.FS.Real(p); q != p {
				b.realOuts[q] = true
			}
		}
	}
	return b.realOuts
}

func (b *Base) isOut(p string) bool {
	for _, q := range b.Outs.All {
		if p == q {
			return true
		}
	}
	for _, q := range b.Outs.Editable() {
		if p == q {
			return true
		}
	}
	return false
}

// besideReal: p is beside the place of an output.
func (b *Base) besideReal(p string) bool {
	for q := range b.reals() {
		if path.Dir(p) == path.Dir(q) {
			return true
		}
	}
	return false
}

// okContent: complete old or complete new.
func (b *Base) okContent(p string, fs *k.FS) (string, bool) {
	s, ok := fs.Get(p)
	old, had := b.Old[p]
	nw, has := b.New[p]
	if !ok {
		if !had {
			return "", true
		}
		return "is missing", false
	}
	if had && s == old || has && s == nw {
		return "", true
	}
	if b.NewAlt != nil {
		for _, a := range b.NewAlt() {
			if s == a[p] {
				return "", true
			}
		}
	}
	what := "has neither its old nor its new content"
	switch {
	case s == "":
		what = "is empty"
	case has && strings.HasPrefix(nw, s):
		what = fmt.Sprintf("is truncated to %d of %d bytes of its new content", len(s), len(nw))
	case had && strings.HasPrefix(old, s):
		what = fmt.Sprintf("is truncated to %d of %d bytes of its old content", len(s), len(old))
	}
	return what, false
}

// EvalC01 checks the files at every operation of a run with a plan.
func (b *Base) EvalC01(plan []k.Fault) *Bad {
	var v *Bad
	cand := b.candidates()
	log := b.logical()
	check := func(w *k.World, p string, when string) {
		if q := log[p]; q != "" {
			p = q
		}
		if v != nil || !cand[p] {
			return
		}
		if what, ok := b.okContent(p, w.FS); !ok {
			v = bad("C01", "torn", "%s %s %s", p, what, when)
		}
	}
	res := b.Again(plan, func(r *Run) {
		r.After = func(w *k.World, o *k.Op) {
			if v != nil {
				return
			}
			check(w, o.Path, "after operation "+o.String())
			if o.Path2 != "" {
				check(w, o.Path2, "after operation "+o.String())
			}
			if o.Kind == "rmdir" || o.Kind == "rename" {
				for p := range cand {
					check(w, p, "after operation "+o.String())
				}
			}
		}
	})
	if v != nil {
		return v
	}
	for _, p := range sortedSet(cand) {
		if what, ok := b.okContent(p, res.W.FS); !ok {
			return bad("C01", "torn", "after a run disturbed by %s, %s %s", planString(plan), p, what)
		}
	}
	return nil
}

func sortedSet(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func planString(plan []k.Fault) string {
	if len(plan) == 0 {
		return "nothing"
	}
	var s []string
	for _, f := range plan {
		if f.Op == 0 {
			s = append(s, fmt.Sprintf("%s of every %s of %s", f.Kind, f.Class, f.Path))
			continue
		}
		x := fmt.Sprintf("%s at operation %d of %s", f.Kind, f.Op, f.Proc)
		if f.Sticky {
			x += " and later"
		}
		s = append(s, x)
	}
	return strings.Join(s, ", ")
}

func said(p *k.Proc) bool { return p.Stderr.Len() > 0 }

// crashed reports a panic or hang of the process.
func crashed(p *k.Proc) string {
	if p.Hang {
		return "does not end: " + p.Panic
	}
	if p.Panic != "" {
		return "panics: " + p.Panic + "\n" + shortStack(p.Stack)
	}
	return ""
}

func shortStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "zz_sim") && !strings.Contains(l, "/src/runtime") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) == 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// sameOutputs compares the outputs with those of the undisturbed run.
func (b *Base) sameOutputs(fs *k.FS) string {
	for _, p := range b.Outs.All {
		s, ok := fs.Get(p)
		w, has := b.New[p]
		if ok != has || s != w {
			switch {
			case !ok:
				return p + " does not exist"
			default:
				return p + " differs from what the undisturbed run writes:\n" + diff(w, s)
			}
		}
	}
	for _, p := range b.Outs.Editable() {
		s, ok := fs.Get(p)
		w, has := b.New[p]
		if ok != has || s != w {
			return p + " differs from what the undisturbed run leaves:\n" + diff(w, s)
		}
	}
	return ""
}

// diff is a short line difference.
func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	m, n := len(x), len(y)
	for m > i && n > i && x[m-1] == y[n-1] {
		m--
		n--
	}
	var s []string
	for j := i; j < m && j < i+12; j++ {
		s = append(s, "- "+x[j])
	}
	for j := i; j < n && j < i+12; j++ {
		s = append(s, "+ "+y[j])
	}
	return fmt.Sprintf("at line %d\n%s", i+1, strings.Join(s, "\n"))
}

// EvalC02: user code survives reads that fail.
func (b *Base) EvalC02(plan []k.Fault) *Bad {
	firstWrite := 0
	for _, o := range b.Trace {
		if mutating[o.Kind] && o.Kind != "mkdir" && (under(o.Path, b.Outs.S) || b.besideReal(o.Path)) {
			firstWrite = o.Seq
			break
		}
	}
	early := true
	for _, f := range plan {
		if f.Op == 0 {
			// a path that does not exist is not a part of the previous service:
			// looking at it may be a step of writing it
			if _, had := b.Old[f.Path]; !had {
				early = false
			}
			continue
		}
		for _, o := range b.Trace {
			if o.Proc == f.Proc && o.Idx == f.Op && firstWrite != 0 && o.Seq >= firstWrite {
				early = false
			}
		}
	}
	res := b.Again(plan, nil)
	p := res.P
	if !fired(res.W) {
		return nil
	}
	for _, f := range b.Outs.Editable() {
		old, had := b.Old[f]
		if !had {
			continue
		}
		s, ok := res.W.FS.Get(f)
		if !ok {
			return bad("C02", "user-code-lost", "%s is gone after a run disturbed by %s", f, planString(plan))
		}
		if s != old && s != b.New[f] {
			return bad("C02", "user-code-lost", "%s lost the user's code in a run disturbed by %s (exit code %d):\n%s", f, planString(plan), p.Code, diff(old, s))
		}
		if s != old && p.Code != 0 && early {
			return bad("C02", "changed-by-failed-run", "%s was changed by a run that could not read the previous service (%s) and failed", f, planString(plan))
		}
	}
	// other files of the user in the service directory
	for f, old := range b.Old {
		if under(f, b.Outs.S) && !b.owned(f) && old != "<dir>" {
			if s := res.W.FS.Files("/")[f]; s != old {
				return bad("C02", "user-file-lost", "%s changed or vanished in a run disturbed by %s", f, planString(plan))
			}
		}
	}
	if p.Code == 0 {
		if d := b.sameOutputs(res.W.FS); d != "" {
			return bad("C02", "exit0-different", "a run disturbed by %s exits 0 although it did not read the previous service as it is: %s", planString(plan), d)
		}
	}
	return nil
}

func fired(w *k.World) bool { return len(w.Fired) > 0 }

// owned: baron's own outputs and the directories it may remove.
func (b *Base) owned(p string) bool {
	if b.isOut(p) || b.legacy(p) {
		return true
	}
	r := b.St.FS.Real(p) // another name of an output
	if r == b.St.FS.Real(b.Outs.S) {
		return false
	}
	return b.reals()[r] || r != p && b.isOut(r)
}

// legacy: p is something baron may remove.
func (b *Base) legacy(p string) bool {
	for _, q := range b.Outs.Legacy {
		if under(p, q) || under(b.St.FS.Real(p), b.St.FS.Real(q)) {
			return true
		}
	}
	return false
}

func (b *Base) ancestorOfReal(p string) bool {
	for q := range b.reals() {
		if isAncestor(p, q) {
			return true
		}
	}
	return false
}

// EvalC07: no false success, no panic, no silent failure.
func (b *Base) EvalC07(plan []k.Fault) *Bad {
	res := b.Again(plan, nil)
	p := res.P
	if c := crashed(p); c != "" {
		return bad("C07", "crash", "a run disturbed by %s %s", planString(plan), c)
	}
	if p.Killed {
		return nil
	}
	if p.Code == 0 {
		if b.Ref.P.Code != 0 {
			return bad("C07", "false-success", "a run disturbed by %s exits 0, the undisturbed run fails", planString(plan))
		}
		if d := b.sameOutputs(res.W.FS); d != "" {
			return bad("C07", "false-success", "a run disturbed by %s exits 0 but %s", planString(plan), d)
		}
		return nil
	}
	if !said(p) {
		return bad("C07", "silent-failure", "a run disturbed by %s exits %d without a message on standard error", planString(plan), p.Code)
	}
	return nil
}

func tempLike(p string) bool {
	n := path.Base(p)
	return strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || !strings.HasSuffix(n, ".go")
}

// EvalC05: a run after a disturbed one leaves the tree of one undisturbed run.
func (b *Base) EvalC05(plan []k.Fault, seed2 uint64) *Bad {
	res := b.Again(plan, nil)
	return b.recover(res.W.FS, "a run disturbed by "+planString(plan), seed2)
}

func (b *Base) recover(fs *k.FS, what string, seed2 uint64) *Bad {
	fs = fs.Clone()
	fs.SyncAll()
	before := fs.Files("/")
	r := b.St.run(b.Step)
	r.Seed = seed2
	r2 := Do(fs, r)
	if c := crashed(r2.P); c != "" {
		return bad("C05", "rerun-crash", "after %s, the next run %s", what, c)
	}
	if r2.P.Code != b.Ref.P.Code {
		return bad("C05", "rerun-fails", "after %s, the next undisturbed run exits %d (an undisturbed run of the original tree exits %d): %s", what, r2.P.Code, b.Ref.P.Code, tail(r2.P.Stderr.String()))
	}
	if b.Ref.P.Code != 0 {
		return nil
	}
	got := r2.W.FS.Files("/")
	for _, p := range sortedStr(b.New) {
		s, ok := got[p]
		if !ok {
			return bad("C05", "rerun-differs", "after %s and an undisturbed run, %s does not exist", what, p)
		}
		if s != b.New[p] {
			return bad("C05", "rerun-differs", "after %s and an undisturbed run, %s differs:\n%s", what, p, diff(b.New[p], s))
		}
	}
	for _, p := range sortedStr(got) {
		if _, ok := b.New[p]; ok {
			continue
		}
		if got[p] == "<dir>" || under(p, Tmp) {
			continue
		}
		if tempLike(p) {
			if _, was := before[p]; was {
				continue // left by the disturbed run
			}
		}
		return bad("C05", "rerun-extra", "after %s and an undisturbed run, there is a file %s that one undisturbed run does not leave", what, p)
	}
	return nil
}

// EvalC08: only outputs and temporary files are touched, nothing is left.
func (b *Base) EvalC08(plan []k.Fault) *Bad {
	var v *Bad
	check := func(o *k.Op, p string) {
		if v != nil || p == "" {
			return
		}
		old, had := b.Old[p]
		if had && !b.owned(p) {
			if old == "<dir>" && (o.Kind == "mkdir" || o.Kind == "write" || o.Kind == "create") {
				return
			}
			v = bad("C08", "touched", "the run changes %s (%s), which is not an output of baron", p, o.String())
			return
		}
		if !had && !under(p, b.Outs.S) && path.Dir(p) != b.St.L.ProtoDir && !under(p, Tmp) && !isAncestor(p, b.Outs.S) && !b.ancestorOfReal(p) && !b.besideReal(p) {
			v = bad("C08", "outside", "the run writes outside its places: %s", o.String())
		}
	}
	if b.Ref.P.Code == 0 {
		for _, p := range b.Outs.Legacy {
			if b.Ref.W.FS.Exists(p) {
				return bad("C08", "stale-kept", "%s, which only older versions of baron made, is still there after an undisturbed successful run", p)
			}
		}
	}
	removalFailed := false
	res := b.Again(plan, func(r *Run) {
		r.After = func(w *k.World, o *k.Op) {
			check(o, o.Path)
			check(o, o.Path2)
		}
		r.OnOp = func(w *k.World, o *k.Op) {
			if o.Fault != "" && (o.Kind == "unlink" || o.Kind == "rmdir" || len(b.below(o, w)) > 0) {
				removalFailed = true
			}
		}
	})
	if v != nil {
		v.Msg += " (disturbed by " + planString(plan) + ")"
		return v
	}
	got := res.W.FS.Files("/")
	for _, p := range sortedStr(b.Old) {
		if _, ok := got[p]; !ok && !b.owned(p) {
			return bad("C08", "removed", "%s vanished in a run disturbed by %s", p, planString(plan))
		} else if ok && got[p] != b.Old[p] && !b.owned(p) {
			return bad("C08", "touched", "%s changed in a run disturbed by %s", p, planString(plan))
		}
	}
	links := res.W.FS.Links("/")
	was := b.St.FS.Links("/")
	for _, p := range sortedStr(was) {
		if t, ok := links[p]; (!ok || t != was[p]) && !b.legacy(p) {
			return bad("C08", "link-replaced", "the symbolic link %s -> %s is gone or another after a run disturbed by %s", p, was[p], planString(plan))
		}
	}
	if res.P.Killed || removalFailed || crashed(res.P) != "" {
		return nil
	}
	for _, p := range sortedStr(got) {
		if _, had := b.Old[p]; had || b.owned(p) || isAncestor(p, b.Outs.S) {
			continue
		}
		if got[p] == "<dir>" {
			// directories of outputs
			ok := false
			for _, q := range append(append([]string(nil), b.Outs.All...), b.Outs.Client) {
				if isAncestor(p, q) {
					ok = true
				}
			}
			if ok || b.ancestorOfReal(p) {
				continue
			}
		}
		return bad("C08", "leftover", "%s is left behind by a run (exit code %d) disturbed by %s", p, res.P.Code, planString(plan))
	}
	return nil
}

// below: a failing listing or lookup of a temporary directory can make its
// removal fail.
func (b *Base) below(o *k.Op, w *k.World) []string {
	if under(o.Path, Tmp) && o.Path != Tmp && (o.Kind == "open" || o.Kind == "readdir" || o.Kind == "stat") {
		return []string{o.Path}
	}
	return nil
}

// EvalC06: the same inputs under other circumstances.
func (b *Base) EvalC06(r *k.Rand) *Bad {
	kn := map[string]uint64{}
	for _, n := range []string{"maps", "names", "chunk", "clock", "env"} {
		if r.P(2, 3) {
			kn[n] = r.U64()
		}
	}
	env := Env()
	if r.P(1, 2) {
		env["LANG"] = r.Pick("de_DE.UTF-8", "C", "zh_CN.UTF-8")
		env["USER"] = "u" + fmt.Sprint(r.Intn(9))
		env["TZ"] = r.Pick("Asia/Shanghai", "UTC", "", "Etc/GMT+5")
		env["GOFLAGS"] = r.Pick("", "-mod=mod")
		env["TERM"] = r.Pick("dumb", "xterm")
	}
	short := r.P(1, 2)
	touch := r.P(1, 3)
	res := b.Again(nil, func(q *Run) {
		if touch { // the same files with other time stamps
			q.Prep = func(fs *k.FS) { fs.Touch(r) }
		}
		q.Knobs = kn
		q.Env = env
		q.Short = short
	})
	if c := crashed(res.P); c != "" {
		return bad("C06", "crash", "the same run under other circumstances (%v) %s", kn, c)
	}
	if res.P.Code != b.Ref.P.Code {
		return bad("C06", "exit-differs", "the same run exits %d or %d depending on circumstances (%v): %s", b.Ref.P.Code, res.P.Code, sortedKn(kn), tail(res.P.Stderr.String()))
	}
	got := res.W.FS.Files("/")
	for _, p := range sortedStr(got) {
		w, ok := b.New[p]
		if !ok {
			return bad("C06", "files-differ", "%s is written or not depending on circumstances (%v)", p, sortedKn(kn))
		}
		if w != got[p] {
			return bad("C06", "bytes-differ", "%s has different content depending on circumstances (%v):\n%s", p, sortedKn(kn), diff(w, got[p]))
		}
	}
	for _, p := range sortedStr(b.New) {
		if _, ok := got[p]; !ok {
			return bad("C06", "files-differ", "%s is written or not depending on circumstances (%v)", p, sortedKn(kn))
		}
	}
	return nil
}

func sortedKn(m map[string]uint64) []string {
	var s []string
	for k, v := range m {
		s = append(s, fmt.Sprintf("%s=%x", k, v))
	}
	sort.Strings(s)
	return s
}
