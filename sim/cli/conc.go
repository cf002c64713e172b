package cli

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"strings"

	"github.com/teamlint/baron/zz_sim/drive"
	"github.com/teamlint/baron/zz_sim/k"
)

// StartCase is one simulation of 'baron --start' with company.
type StartCase struct {
	Prop   string    `json:"prop"`
	Seed   uint64    `json:"seed"`
	Names  []string  `json:"names"` // one process each
	Dir    string    `json:"dir,omitempty"`
	Init   string    `json:"init,omitempty"`   // what is there before: "", file, empty, dir, link, dangling, outfile, outdir
	Editor string    `json:"editor,omitempty"` // "", excl, rename
	Wait   int       `json:"wait,omitempty"`   // what the editor does before
	Plan   []k.Fault `json:"plan,omitempty"`
	Burst  int       `json:"burst,omitempty"`
	Sched  []k.Sw    `json:"sched,omitempty"`
	Fixed  bool      `json:"fixed,omitempty"`
}

func (c *StartCase) clone() *StartCase {
	b, _ := json.Marshal(c)
	n := &StartCase{}
	json.Unmarshal(b, n)
	return n
}

func startArgs(name, dir string) []string {
	a := []string{"baron", "--start"}
	if name != "" || dir != "" {
		a = append(a, name)
	}
	if dir != "" {
		a = append(a, dir)
	}
	return a
}

type startRef struct {
	target, content string
	bad             *Bad
}

var startRefs = map[string]*startRef{}

// startSolo is what one undisturbed run on a clean disk does.
func startSolo(name, dir string) *startRef {
	key := name + "\x00" + dir
	if r := startRefs[key]; r != nil {
		return r
	}
	r := &startRef{}
	startRefs[key] = r
	fs := NewDisk()
	fs.SyncAll()
	old := fs.Files("/")
	res := Do(fs, Run{Args: startArgs(name, dir), Seed: 1})
	if v := crashed(res.P); v != "" {
		r.bad = bad("C09", "crash", "'baron --start %s %s' %s", name, dir, v)
		return r
	}
	if res.P.Code != 0 {
		r.bad = bad("C09", "solo-fails", "'baron --start %q %q' fails on a clean disk: %s", name, dir, tail(res.P.Stderr.String()))
		return r
	}
	nw := res.W.FS.Files("/")
	for _, p := range sortedStr(nw) {
		if _, had := old[p]; had || nw[p] == "<dir>" {
			continue
		}
		if r.target != "" {
			r.bad = bad("C09", "leftover", "'baron --start %q %q' leaves %s and %s", name, dir, r.target, p)
			return r
		}
		r.target, r.content = p, nw[p]
	}
	if !strings.HasSuffix(r.target, ".proto") {
		r.bad = bad("C09", "nothing", "'baron --start %q %q' exits 0 without a definition", name, dir)
		return r
	}
	said := res.P.Stderr.String() + res.P.Stdout.String()
	if !strings.Contains(said, path.Base(r.target)) {
		r.bad = bad("C09", "not-announced", "'baron --start %q %q' writes %s without saying so", name, dir, r.target)
		return r
	}
	// it is complete: baron itself accepts it
	f2 := res.W.FS.Clone()
	f2.SyncAll()
	res2 := Do(f2, Run{Args: []string{"baron", r.target}, Seed: 2})
	if res2.P.Code != 0 || len(res2.W.FS.Files("/")) == len(nw) {
		r.bad = bad("C09", "unusable", "the definition 'baron --start %q %q' writes is not accepted by baron: %s", name, dir, tail(res2.P.Stderr.String()))
	}
	return r
}

const startUser = "syntax = \"proto3\";\n// the user's own\npackage mine;\n"
const startEditor = "syntax = \"proto3\";\n// typed while baron was running\npackage theirs;\n"

// EvalStart decides C09.
func EvalStart(c *StartCase) *Bad {
	refs := make([]*startRef, len(c.Names))
	for i, n := range c.Names {
		refs[i] = startSolo(n, c.Dir)
		if refs[i].bad != nil {
			return refs[i].bad
		}
	}
	t := refs[0].target
	fs := NewDisk()
	switch c.Init {
	case "file":
		fs.Put(t, startUser)
	case "empty":
		fs.Put(t, "")
	case "dir":
		fs.Put(t+"/keep.txt", "x")
	case "link":
		fs.Put("/home/u/mine.proto", startUser)
		fs.MkdirAllRaw(path.Dir(t))
		fs.Symlink("/home/u/mine.proto", t)
	case "dangling":
		fs.MkdirAllRaw(path.Dir(t))
		fs.Symlink("/home/u/later.proto", t)
	case "outfile":
		if path.Dir(t) != App {
			fs.Put(path.Dir(t), "a file in the way\n")
		}
	case "outdir":
		fs.MkdirAllRaw(path.Dir(t))
	}
	fs.SyncAll()
	old := fs.Files("/")
	text0, ok0 := fs.Get(t)
	id0 := fs.IDOf(t)
	w := NewW(fs, c.Seed)
	w.Keep = drive.KeepTrace
	w.Plan = c.Plan
	w.Burst = c.Burst
	w.Fixed, w.Sched = c.Fixed, c.Sched
	var v *Bad
	type state struct {
		id   int
		text string
		ok   bool
	}
	look := func() state {
		s, ok := w.FS.Get(t)
		return state{w.FS.IDOf(t), s, ok}
	}
	owner := map[int]string{}
	targets := map[string]bool{}
	for _, r := range refs {
		targets[r.target] = true
	}
	complete := map[int]bool{} // processes whose definition was there complete
	var pre state
	ed := map[int]bool{}
	w.OnOp = func(w *k.World, o *k.Op) { pre = look() }
	w.After = func(w *k.World, o *k.Op) {
		if w.Powered {
			return
		}
		if o.Kind == "create" {
			if id := w.FS.IDOf(o.Path); id != 0 && owner[id] == "" {
				owner[id] = o.Proc
			}
		}
		if o.Proc == "ed" {
			if id := w.FS.IDOf(t); id != 0 && id != pre.id {
				ed[id] = true
			}
			return
		}
		now := look()
		if v == nil && pre.id != 0 && (now.id != pre.id || now.text != pre.text) {
			if owner[pre.id] != o.Proc || ed[pre.id] {
				v = bad("C09", "existing-changed", "%s existed and was changed by %s", t, o.String())
			}
		}
		for i, r := range refs {
			if s, ok := w.FS.Get(r.target); ok && s == r.content {
				complete[i] = true
			}
		}
		// nothing else that was there may change
		for _, p := range []string{o.Path, o.Path2} {
			if v != nil || p == "" || targets[p] {
				continue
			}
			if s, had := old[p]; had && s != "<dir>" {
				if n, ok := w.FS.Get(p); !ok || n != s {
					v = bad("C09", "existing-changed", "%s existed and was changed by %s", p, o.String())
				}
			}
		}
	}
	var ps []*k.Proc
	for i, n := range c.Names {
		ps = append(ps, w.Spawn(fmt.Sprintf("r%d", i+1), startArgs(n, c.Dir), Env(), App, true, func(p *k.Proc) { Main() }))
	}
	if c.Seed%4 == 0 {
		samePid(ps)
	}
	if c.Editor != "" {
		w.Spawn("ed", []string{"editor"}, Env(), App, true, func(p *k.Proc) {
			for i := 0; i < c.Wait; i++ {
				p.Stat(App, true)
			}
			mk := t
			flag := os.O_WRONLY | os.O_CREATE | os.O_EXCL
			if c.Editor == "rename" {
				mk, flag = "/home/u/.mine.swp", os.O_WRONLY|os.O_CREATE|os.O_TRUNC
			}
			p.W.FS.MkdirAllRaw(path.Dir(t))
			h, err := p.Open(mk, flag, 0644)
			if err != nil {
				return
			}
			p.Write(h, []byte(startEditor))
			p.Close(h)
			if c.Editor == "rename" {
				p.Rename(mk, t)
			}
		})
	}
	w.Run()
	drive.Count(w)
	if w.Harness != "" {
		panic("harness: " + w.Harness)
	}
	if !c.Fixed {
		lastSched = w.SwLog
	}
	if onWorld != nil {
		onWorld(w)
	}
	if w.Switch > len(w.SwLog)+2 || len(c.Names) > 1 || c.Editor != "" {
		drive.Note("concurrent runs of --start")
	}
	if c.Init != "" {
		drive.Note("name taken: " + c.Init)
	}
	if v != nil {
		return v
	}
	fin := look()
	okText := func(s string) bool {
		for _, r := range refs {
			if s == r.content {
				return true
			}
		}
		return s == startEditor && c.Editor != "" || s == text0 && ok0
	}
	edTorn := c.Editor != "" && w.Powered
	if fin.ok && !okText(fin.text) && !edTorn && !(c.Editor != "" && ed[fin.id]) {
		return bad("C09", "torn", "%s is left incomplete (%d of %d bytes) by runs disturbed by %s", t, len(fin.text), len(refs[0].content), planString(c.Plan))
	}
	if id0 != 0 && !ed[fin.id] && c.Editor == "" {
		if fin.id != id0 || fin.ok != ok0 && c.Init != "dangling" || fin.ok && ok0 && fin.text != text0 {
			return bad("C09", "existing-changed", "%s existed and is changed", t)
		}
	}
	for i, p := range ps {
		if s := crashed(p); s != "" {
			return bad("C09", "crash", "--start disturbed by %s %s", planString(c.Plan), s)
		}
		if p.Killed {
			continue
		}
		if p.Code == 0 && !complete[i] {
			return bad("C09", "false-success", "--start exits 0 although %s is not there (disturbed by %s)", refs[i].target, planString(c.Plan))
		}
		if p.Code == 0 && !w.Powered && !ed[w.FS.IDOf(refs[i].target)] {
			if s, _ := w.FS.Get(refs[i].target); !okText(s) || s != refs[i].content && len(c.Names) == 1 {
				return bad("C09", "false-success", "--start exits 0 although %s is not the starter definition (disturbed by %s)", refs[i].target, planString(c.Plan))
			}
		}
		if p.Code != 0 && !said(p) && p.Stdout.Len() == 0 {
			return bad("C09", "silent-failure", "--start fails without a message (disturbed by %s)", planString(c.Plan))
		}
		if c.Init != "" && c.Init != "outdir" && c.Init != "dangling" && p.Code == 0 && !(c.Init == "outfile" && path.Dir(t) == App) {
			return bad("C09", "false-success", "--start exits 0 although the name was taken (%s)", c.Init)
		}
	}
	if len(c.Plan) == 0 && c.Editor == "" && (c.Init == "" || c.Init == "outdir") {
		any := false
		for _, p := range ps {
			any = any || p.Code == 0
		}
		if !any {
			return bad("C09", "no-progress", "none of %d undisturbed --start runs succeeds", len(ps))
		}
	}
	// a retry works when the name is free
	if !fin.ok && w.FS.IDOf(t) == 0 && c.Init != "outfile" {
		f2 := w.FS.Clone()
		f2.SyncAll()
		res := Do(f2, Run{Args: startArgs(c.Names[0], c.Dir), Seed: c.Seed + 9})
		s, _ := res.W.FS.Get(t)
		if res.P.Code != 0 || s != refs[0].content {
			return bad("C09", "retry-fails", "after runs disturbed by %s there is no %s, but --start exits %d: %s", planString(c.Plan), t, res.P.Code, tail(res.P.Stderr.String()))
		}
	}
	return nil
}

var lastSched []k.Sw

// schedSmaller proposes simpler schedules.
func schedSmaller(fixed bool, s []k.Sw, f func(fixed bool, s []k.Sw)) {
	if !fixed {
		f(true, append([]k.Sw(nil), lastSched...))
		return
	}
	if len(s) == 0 {
		return
	}
	for n := len(s); n >= 1; n /= 2 {
		for i := 0; i+n <= len(s); i += n {
			f(true, append(append([]k.Sw(nil), s[:i]...), s[i+n:]...))
		}
		if n == 1 {
			break
		}
	}
}

// StartExp is the experiment on --start.
func StartExp() *drive.Exp {
	e := &drive.Exp{ID: "C09", Quick: 2000, Thorough: 40000, New: func() interface{} { return &StartCase{} }, Reset: func() {}}
	e.Level = "fault_enumeration"
	e.Rule = "one case = one to three 'baron --start' processes for one target name, on a disk where the name is free or taken in one of six ways, with an editor that creates or replaces the file meanwhile, interleaved by the seeded scheduler, and at most two faults (errors, short writes, kill, power loss) at operations of the runs; the target is compared before and after every operation; non-trivial = a fault, a second process or a taken name; distinct by the sequence of operations of all processes"
	e.Real = real
	e.Stub = stub + ", the editor"
	e.Assume = []string{"the disk model: metadata operations become durable in order, file content only by fsync; kill loses nothing that was written; open with O_EXCL, link and rename are atomic"}
	e.Eval = func(x interface{}) *Bad { return EvalStart(x.(*StartCase)) }
	e.Search = func(seed uint64, tier string, try func(c interface{}) bool) {
		r := k.NewRand(seed, "start")
		c := &StartCase{Prop: "C09", Seed: seed}
		fam := [][]string{{"", "start", "Start", "start.proto"}, {"my-app", "myapp", "My App", "myapp.proto"}, {"Shop"}, {"user_profile", "User_Profile"}}[r.Intn(4)]
		for i := 1 + r.Intn(3); i > 0; i-- {
			c.Names = append(c.Names, fam[r.Intn(len(fam))])
		}
		c.Dir = r.Pick("", "", "proto", "a/b/c", "./defs/", "/w/app/abs")
		if r.P(1, 3) {
			c.Init = r.Pick("file", "empty", "dir", "link", "dangling", "outfile", "outdir")
		}
		if r.P(1, 3) && c.Init == "" {
			c.Editor = r.Pick("excl", "rename")
			c.Wait = r.Intn(14)
		}
		c.Burst = []int{1, 1, 3, 8}[r.Intn(4)]
		if !try(c) {
			return
		}
		// operations of this execution
		d := c.clone()
		drive.KeepTrace = true
		tr := startTrace(d)
		drive.KeepTrace = false
		var mine []k.Op
		for _, o := range tr {
			if o.Proc != "ed" {
				mine = append(mine, o)
			}
		}
		for _, o := range mine {
			fs := []k.Fault{kindFault(o, r)}
			if mutating[o.Kind] || o.Kind == "sync" || o.Kind == "close" {
				fs = append(fs, k.Fault{Proc: o.Proc, Op: o.Idx, Kind: "kill", Arg: r.Intn(1001)}, k.Fault{Proc: o.Proc, Op: o.Idx, Kind: "power", Arg: r.Intn(1001)})
			}
			for _, f := range fs {
				d := c.clone()
				d.Plan = []k.Fault{f}
				if !try(d) {
					return
				}
			}
		}
		for i := 0; i < size(tier, 3, 30) && len(mine) > 0; i++ {
			d := c.clone()
			f := kindFault(mine[r.Intn(len(mine))], r)
			d.Plan = []k.Fault{f, {Proc: f.Proc, Op: f.Op + 1 + r.Intn(4), Kind: r.Pick("kill", "power", "EIO")}}
			if !try(d) {
				return
			}
		}
		// the same company under other schedules
		for i := 0; i < size(tier, 6, 60) && (len(c.Names) > 1 || c.Editor != ""); i++ {
			d := c.clone()
			d.Seed = r.U64()
			d.Wait = r.Intn(14)
			if len(mine) > 0 && r.P(1, 2) {
				d.Plan = []k.Fault{kindFault(mine[r.Intn(len(mine))], r)}
			}
			if !try(d) {
				return
			}
		}
	}
	e.Smaller = func(x interface{}) []interface{} {
		c := x.(*StartCase)
		var rv []interface{}
		for i := range c.Names {
			if len(c.Names) > 1 {
				d := c.clone()
				d.Names = append(d.Names[:i], d.Names[i+1:]...)
				rv = append(rv, d)
			}
		}
		if c.Editor != "" {
			d := c.clone()
			d.Editor = ""
			rv = append(rv, d)
		}
		if c.Init != "" {
			d := c.clone()
			d.Init = ""
			rv = append(rv, d)
		}
		if c.Dir != "" {
			d := c.clone()
			d.Dir = ""
			rv = append(rv, d)
		}
		for i := range c.Plan {
			d := c.clone()
			d.Plan = append(d.Plan[:i], d.Plan[i+1:]...)
			rv = append(rv, d)
		}
		if !c.Fixed {
			EvalStart(c)
		}
		schedSmaller(c.Fixed, c.Sched, func(f bool, s []k.Sw) {
			d := c.clone()
			d.Fixed, d.Sched = f, s
			rv = append(rv, d)
		})
		return rv
	}
	return e
}

// startTrace runs a case for its operations.
func startTrace(c *StartCase) []k.Op {
	var tr []k.Op
	onWorld = func(w *k.World) { tr = w.Trace }
	EvalStart(c)
	onWorld = nil
	return tr
}

var onWorld func(w *k.World)

// ConcCase: several runs of baron on one service at once.
type ConcCase struct {
	Case
	Procs int       `json:"procs"`
	Twin  uint64    `json:"twin,omitempty"` // one more run, in another module
	CSeed uint64    `json:"cseed"`
	CPlan []k.Fault `json:"cplan,omitempty"`
	Burst int       `json:"burst,omitempty"`
	Sched []k.Sw    `json:"sched,omitempty"`
	Fixed bool      `json:"fixed,omitempty"`
}

func (c *ConcCase) clone() *ConcCase {
	b, _ := json.Marshal(c)
	n := &ConcCase{}
	json.Unmarshal(b, n)
	return n
}

const twinDir = "/w/twin"

// twin is another module, much like the first: what is called alike there has
// other content.
type twin struct {
	files map[string]string
	args  []string
	code  int
	new   map[string]string // the tree that a run which is alone leaves
}

func (tw *twin) put(fs *k.FS) {
	for _, p := range sortedStr(tw.files) {
		if tw.files[p] == "<dir>" {
			fs.MkdirAllRaw(p)
		} else {
			fs.Put(p, tw.files[p])
		}
	}
	fs.SyncAll()
}

func twinEnv() map[string]string {
	e := Env()
	e["PWD"] = twinDir
	return e
}

func (b *Base) twin(seed uint64) *twin {
	if seed == 0 {
		return nil
	}
	if tw := b.twins[seed]; tw != nil {
		return tw
	}
	st := &State{FS: b.St.FS.Clone(), Def: b.St.Def.Clone(), L: b.St.L}
	r := k.NewRand(seed, "twin")
	for i := 0; i < 1+r.Intn(3); i++ {
		st.Def.Mutate(r.Pick("add", "add", "field", "message", "order"), r)
	}
	st.Def.Mutate("add", r)
	st.WriteProtos()
	tw := &twin{files: map[string]string{}}
	for p, t := range st.FS.Files(App) {
		if strings.HasPrefix(t, "->") {
			continue
		}
		tw.files[twinDir+strings.TrimPrefix(p, App)] = t
	}
	for _, a := range st.L.Args(st.Def) {
		tw.args = append(tw.args, strings.Replace(a, App, twinDir, 1))
	}
	fs := b.St.FS.Clone()
	tw.put(fs)
	res := Do(fs, Run{Args: tw.args, Seed: 1, Cwd: twinDir, Env: twinEnv()})
	tw.code = res.P.Code
	tw.new = res.W.FS.Files(twinDir)
	if b.twins == nil {
		b.twins = map[uint64]*twin{}
	}
	b.twins[seed] = tw
	return tw
}

// samePid makes the processes those of different containers which share a
// volume: each is the first of its own.
func samePid(ps []*k.Proc) {
	for _, p := range ps {
		if p != nil {
			p.Pid = 1
		}
	}
}

// concRun executes the runs.
func (b *Base) concRun(c *ConcCase, f func(w *k.World)) (*k.World, []*k.Proc, *k.Proc) {
	w := NewW(b.St.FS.Clone(), c.CSeed)
	w.Keep = drive.KeepTrace
	w.Plan = c.CPlan
	w.Burst = c.Burst
	w.Fixed, w.Sched = c.Fixed, c.Sched
	if f != nil {
		f(w)
	}
	var ps []*k.Proc
	for i := 0; i < c.Procs; i++ {
		ps = append(ps, w.Spawn(fmt.Sprintf("r%d", i+1), b.St.L.Args(b.St.Def), Env(), App, true, func(p *k.Proc) { Main() }))
	}
	var tp *k.Proc
	if tw := b.twin(c.Twin); tw != nil {
		tw.put(w.FS)
		tp = w.Spawn("t1", tw.args, twinEnv(), twinDir, true, func(p *k.Proc) { Main() })
	}
	if c.CSeed%2 == 0 {
		samePid(append(ps[:len(ps):len(ps)], tp))
	}
	w.Run()
	drive.Count(w)
	if w.Harness != "" {
		panic("harness: " + w.Harness)
	}
	if !c.Fixed {
		lastSched = w.SwLog
	}
	return w, ps, tp
}

// judgeTwin says whether a run had an effect on another one elsewhere.
func (b *Base) judgeTwin(c *ConcCase, w *k.World, ps []*k.Proc, tp *k.Proc) *Bad {
	tw := b.twin(c.Twin)
	if tw == nil || w.Powered {
		return nil
	}
	drive.Note("a run in another module at the same time")
	mine, its := 0, 0
	for _, f := range c.CPlan {
		if f.Proc == tp.Key {
			its++
		} else {
			mine++
		}
	}
	if s := crashed(tp); s != "" {
		return bad("C10", "twin-crash", "a run in another module, concurrent with %d here (disturbed by %s), %s", c.Procs, planString(c.CPlan), s)
	}
	if its == 0 {
		if tp.Code != tw.code {
			return bad("C10", "twin-code", "a run in another module, concurrent with %d here (disturbed by %s), exits %d instead of %d: %s", c.Procs, planString(c.CPlan), tp.Code, tw.code, tail(tp.Stderr.String()))
		}
		got := w.FS.Files(twinDir)
		for _, p := range sortedStr(tw.new) {
			if got[p] != tw.new[p] {
				return bad("C10", "twin-differs", "a run in another module, concurrent with %d here (disturbed by %s), does not leave in %s what it leaves when it is alone:\n%s", c.Procs, planString(c.CPlan), p, diff(tw.new[p], got[p]))
			}
		}
		for _, p := range sortedStr(got) {
			if _, ok := tw.new[p]; !ok {
				return bad("C10", "twin-extra", "a run in another module, concurrent with %d here (disturbed by %s), leaves %s, which it does not when it is alone", c.Procs, planString(c.CPlan), p)
			}
		}
	}
	if c.Procs == 1 && mine == 0 {
		if ps[0].Code != 0 {
			return bad("C10", "twin-fails", "a run fails because of one in another module (disturbed by %s): %s", planString(c.CPlan), tail(ps[0].Stderr.String()))
		}
		got := w.FS.Files(App)
		for _, p := range sortedStr(b.New) {
			if strings.HasPrefix(p, App+"/") && got[p] != b.New[p] {
				return bad("C10", "twin-differs", "because of a run in another module (disturbed by %s), a run does not leave in %s what it leaves when it is alone:\n%s", planString(c.CPlan), p, diff(b.New[p], got[p]))
			}
		}
	}
	return nil
}

// EvalConc decides C10.
func (b *Base) EvalConc(c *ConcCase) *Bad {
	if b.Ref.P.Code != 0 {
		return nil
	}
	var v *Bad
	edit := map[string]bool{}
	for _, p := range b.Outs.Editable() {
		edit[p] = true
	}
	log := b.logical()
	check := func(w *k.World, p, when string) {
		if q := log[p]; q != "" {
			p = q
		}
		if v != nil || !edit[p] {
			return
		}
		if what, ok := b.okContent(p, w.FS); !ok {
			v = bad("C10", "torn", "while %d runs are active, %s %s %s", c.Procs, p, what, when)
		}
	}
	w, ps, tp := b.concRun(c, func(w *k.World) {
		w.After = func(w *k.World, o *k.Op) {
			check(w, o.Path, "after operation "+o.String())
			check(w, o.Path2, "after operation "+o.String())
		}
	})
	drive.Note("concurrent runs")
	if v != nil {
		return v
	}
	if v := b.judgeTwin(c, w, ps, tp); v != nil {
		return v
	}
	okRuns := 0
	disturbed := w.Powered
	for _, p := range ps {
		if s := crashed(p); s != "" {
			return bad("C10", "crash", "one of %d concurrent runs (disturbed by %s) %s", c.Procs, planString(c.CPlan), s)
		}
		if p.Killed {
			disturbed = true
			continue
		}
		if p.Code == 0 {
			okRuns++
		}
	}
	for _, p := range sortedSet(edit) {
		if what, ok := b.okContent(p, w.FS); !ok {
			return bad("C10", "torn", "after %d concurrent runs (disturbed by %s), %s %s", c.Procs, planString(c.CPlan), p, what)
		}
	}
	if okRuns == 0 && len(c.CPlan) == 0 {
		msg := ""
		for _, p := range ps {
			msg += "\n" + tail(p.Stderr.String())
		}
		return bad("C10", "none-succeeds", "none of %d undisturbed concurrent runs succeeds:%s", c.Procs, msg)
	}
	if okRuns == 0 || w.Powered {
		return nil
	}
	drive.Note("at least one of several runs succeeded")
	got := w.FS.Files("/")
	for p := range got {
		if p == twinDir || strings.HasPrefix(p, twinDir+"/") {
			delete(got, p)
		}
	}
	if tp != nil && tp.Killed {
		disturbed = true
	}
	for _, p := range b.Outs.All {
		if s, ok := got[p]; !ok || s != b.New[p] {
			return bad("C10", "differs", "after %d concurrent runs with %d successes, %s is not what a single run leaves (disturbed by %s):\n%s", c.Procs, okRuns, p, planString(c.CPlan), diff(b.New[p], s))
		}
	}
	for _, p := range b.Outs.Editable() {
		if got[p] != b.New[p] {
			return bad("C10", "differs", "after %d concurrent runs with %d successes, %s is not what a single run leaves (disturbed by %s):\n%s", c.Procs, okRuns, p, planString(c.CPlan), diff(b.New[p], got[p]))
		}
	}
	for _, p := range sortedStr(b.Old) {
		if _, ok := got[p]; !ok && !b.owned(p) {
			return bad("C10", "removed", "%s vanished while %d runs were active", p, c.Procs)
		} else if ok && got[p] != b.Old[p] && !b.owned(p) {
			return bad("C10", "touched", "%s changed while %d runs were active", p, c.Procs)
		}
	}
	if !disturbed && len(c.CPlan) == 0 {
		for _, p := range sortedStr(got) {
			if _, ok := b.New[p]; !ok && got[p] != "<dir>" {
				return bad("C10", "leftover", "%s is left behind by %d concurrent runs", p, c.Procs)
			}
		}
	}
	return nil
}

// ConcExp is the experiment on concurrent runs.
func ConcExp() *drive.Exp {
	e := &drive.Exp{ID: "C10", Quick: 500, Thorough: 20000, New: func() interface{} { return &ConcCase{} }, Reset: reset}
	e.Level = "fault_enumeration"
	e.Rule = "one case = one history with user edits, then two or three runs of baron on the same service and definition, interleaved operation by operation by the seeded scheduler (from single steps to long bursts), undisturbed or with at most two faults (errors, kill, power loss) in any of them; every user-editable file is checked after every operation, the tree at the end; non-trivial = more than one run; distinct by the sequence of operations of all processes"
	e.Real, e.Stub = real, stub
	e.Assume = []string{"a run which finds the service tree changed while it reads it may fail, with an error, as long as another one succeeds",
		"a file system operation is atomic with respect to other processes"}
	e.Eval = func(x interface{}) *Bad {
		c := x.(*ConcCase)
		b := baseOf(&c.Case)
		if b.Bad != nil && b.Bad.Prop != "C03" && b.Bad.Prop != "C04" {
			return nil
		}
		return b.EvalConc(c)
	}
	e.Search = func(seed uint64, tier string, try func(c interface{}) bool) {
		r := k.NewRand(seed, "conc")
		c := &ConcCase{Case: *NewCase("C10", seed, 1+r.Intn(3))}
		c.Procs = 2 + r.Intn(2)
		if r.P(1, 3) {
			c.Procs = 1 + r.Intn(2)
			c.Twin = 1 + r.U64()>>1
		}
		l := c.last()
		if len(c.Steps) > 1 && len(l.Edits) == 0 {
			l.Edits = append(l.Edits, Edit{"body", r.U64()}, Edit{"main", r.U64()})
		}
		b := baseOf(&c.Case)
		if b.Ref.P.Code != 0 {
			return
		}
		for i := 0; i < size(tier, 12, 60); i++ {
			d := c.clone()
			d.CSeed = r.U64()
			d.Burst = []int{1, 2, 5, 20, 60}[r.Intn(5)]
			if r.P(1, 2) {
				for j := 1 + r.Intn(2); j > 0; j-- {
					o := b.Trace[r.Intn(len(b.Trace))]
					f := kindFault(o, r)
					switch r.Intn(4) {
					case 0:
						f = k.Fault{Proc: o.Proc, Op: o.Idx, Kind: "kill", Arg: r.Intn(1001)}
					case 1:
						if r.P(1, 3) {
							f = k.Fault{Proc: o.Proc, Op: o.Idx, Kind: "power", Arg: r.Intn(1001)}
						}
					}
					f.Proc = strings.Replace(f.Proc, "r1", fmt.Sprintf("r%d", 1+r.Intn(d.Procs)), 1)
					if d.Twin != 0 && r.P(1, 2) {
						f.Proc = "t1"
					}
					d.CPlan = append(d.CPlan, f)
				}
			}
			if !try(d) {
				return
			}
		}
	}
	e.Smaller = func(x interface{}) []interface{} {
		c := x.(*ConcCase)
		var rv []interface{}
		for i := range c.CPlan {
			d := c.clone()
			d.CPlan = append(d.CPlan[:i], d.CPlan[i+1:]...)
			rv = append(rv, d)
		}
		if c.Twin != 0 && c.Procs > 1 {
			d := c.clone()
			d.Twin = 0
			rv = append(rv, d)
		}
		if c.Procs > 2 || c.Twin != 0 && c.Procs > 1 {
			d := c.clone()
			d.Procs--
			rv = append(rv, d)
		}
		if !c.Fixed {
			// other schedules of a simpler history
			for _, s := range Smaller(&c.Case) {
				for i := uint64(0); i < 6; i++ {
					d := c.clone()
					d.Case = *s.(*Case)
					d.CSeed = c.CSeed + i*7777
					rv = append(rv, d)
				}
			}
			b := baseOf(&c.Case)
			b.EvalConc(c)
		}
		schedSmaller(c.Fixed, c.Sched, func(f bool, s []k.Sw) {
			d := c.clone()
			d.Fixed, d.Sched = f, s
			rv = append(rv, d)
		})
		return rv
	}
	return e
}
