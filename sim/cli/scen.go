package cli

import (
	"encoding/json"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"

	"github.com/teamlint/baron/zz_sim/drive"
	"github.com/teamlint/baron/zz_sim/k"
)

// Mut is one change of the definition.
type Mut struct {
	Kind string `json:"kind"`
	Seed uint64 `json:"seed"`
}

// Step is what happens up to and including one run of baron.
type Step struct {
	Seed   uint64    `json:"seed"`
	Muts   []Mut     `json:"muts,omitempty"`
	Edits  []Edit    `json:"edits,omitempty"`
	Client *bool     `json:"client,omitempty"`
	Broken bool      `json:"broken,omitempty"` // the definition is broken in this step only
	Plan   []k.Fault `json:"plan,omitempty"`
}

// Case is one simulated history.
type Case struct {
	Prop  string            `json:"prop"`
	Seed  uint64            `json:"seed"`
	L     Layout            `json:"layout"`
	Small bool              `json:"small,omitempty"`
	Steps []Step            `json:"steps"`
	Mode  string            `json:"mode,omitempty"`
	N     int               `json:"n,omitempty"`
	X     map[string]uint64 `json:"x,omitempty"`
}

// Bad is a violation.
type Bad = drive.Bad

func bad(prop, sig, format string, a ...interface{}) *Bad { return drive.Badf(prop, sig, format, a...) }

var mutKinds = []string{"add", "add", "remove", "rename", "retype", "retype", "message", "field", "order", "http"}

// NewCase makes a history of n steps without faults.
func NewCase(prop string, seed uint64, n int) *Case {
	r := k.NewRand(seed, "case")
	c := &Case{Prop: prop, Seed: seed}
	c.L.ProtoDir = App + "/proto"
	if r.P(1, 4) {
		c.L.ProtoDir = App
	}
	c.L.Out = []string{"", "", "./svc/", "./out"}[r.Intn(4)]
	c.L.AbsArgs = r.P(1, 3)
	c.L.Client = r.P(1, 2)
	c.L.Trans = []string{"all", "all", "grpc", "nats"}[r.Intn(4)]
	for i := 0; i < n; i++ {
		s := Step{Seed: r.U64()}
		if i > 0 {
			for j := r.Intn(3); j > 0; j-- {
				s.Muts = append(s.Muts, Mut{mutKinds[r.Intn(len(mutKinds))], r.U64()})
			}
			for j := r.Intn(6); j > 0; j-- {
				s.Edits = append(s.Edits, Edit{editKinds[r.Intn(len(editKinds))], r.U64()})
			}
			if r.P(1, 5) {
				b := r.P(1, 2)
				s.Client = &b
			}
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// State is the tree and what the user knows about it.
type State struct {
	FS  *k.FS
	Def *Def
	L   Layout
	n   int
}

// Start is the state before the first step.
func (c *Case) Start() *State {
	r := k.NewRand(c.Seed, "def")
	d := NewDef(r)
	if c.Small {
		d = &Def{Svc: d.Svc, Base: d.Base, Pkg: d.Pkg}
		d.Msgs = []*Msg{{Name: "Alpha", Flat: true, Fields: []*Field{{"id", "int64", false, 1}}}, {Name: "Beta"}}
		d.Methods = []*Method{{Name: "Read", Req: "Alpha", Resp: "Beta"}}
	}
	return &State{FS: NewDisk(), Def: d, L: c.L}
}

var rpcLine = regexp.MustCompile(`(?m)^(\s*)rpc `)

// Prepare does everything of a step before its run.
func (st *State) Prepare(s *Step) {
	for _, m := range s.Muts {
		st.Def.Mutate(m.Kind, k.NewRand(m.Seed, "mut"))
	}
	if s.Client != nil {
		st.L.Client = *s.Client
	}
	for _, e := range s.Edits {
		st.n++
		e.Apply(st.FS, &st.L, st.Def, st.n)
	}
	st.WriteProtos()
	if s.Broken {
		p := path.Join(st.L.ProtoDir, st.Def.ProtoNames()[0])
		t, _ := st.FS.Get(p)
		switch s.Seed % 3 {
		case 0:
			t = t[:len(t)*3/4] + "\nservice X {"
		case 1:
			n := rpcLine.ReplaceAllString(t, "${1}rcp ")
			if n == t {
				n += "\nmessage {\n"
			}
			t = n
		case 2:
			t += "\nmessage {\n"
		}
		st.FS.Put(p, t)
	}
	if s.Seed%5 == 1 { // a checkout, a restored backup, a clock that was wrong
		st.FS.Touch(k.NewRand(s.Seed, "touch"))
	}
	st.FS.SyncAll()
}

// WriteProtos puts the current definition on the disk.
func (st *State) WriteProtos() {
	for n, s := range st.Def.Files(st.L.GoPkg()) {
		st.FS.Put(path.Join(st.L.ProtoDir, n), s)
	}
}

func (st *State) run(s *Step) Run {
	return Run{Args: st.L.Args(st.Def), Seed: s.Seed, Short: s.Seed%3 == 0}
}

// Base is a history up to the run that is studied.
type Base struct {
	C        *Case
	St       *State // before the run (St.FS must be cloned to use it)
	Step     *Step
	Outs     *Outs
	Old      map[string]string // tree before
	New      map[string]string // tree after an undisturbed run
	NewFS    *k.FS
	Ref      *Result
	Trace    []k.Op
	Bad      *Bad // something wrong already in the history
	NewAlt   func() []map[string]string
	twins    map[uint64]*twin
	realOuts map[string]bool
}

// MakeBase replays all steps but the run of the last one.
func MakeBase(c *Case) *Base {
	st := c.Start()
	b := &Base{C: c}
	for i := range c.Steps {
		s := &c.Steps[i]
		st.Prepare(s)
		if i == len(c.Steps)-1 {
			b.St, b.Step = st, s
			break
		}
		old := st.FS.Files(App)
		r := st.run(s)
		r.Plan = s.Plan
		res := Do(st.FS, r)
		st.FS = res.W.FS
		if len(s.Plan) == 0 && res.P.Code != 0 && !s.Broken {
			if !st.expectFail(old) {
				b.Bad = bad("C07", "fails-without-cause", "an undisturbed run fails (step %d): %s", i, tail(res.P.Stderr.String()))
			}
		}
		if res.P.Code == 0 {
			if s.Broken && b.Bad == nil {
				b.Bad = bad("C07", "false-success", "step %d: a run with a broken definition exits 0", i)
			}
			if v := StepOracle(st, old, st.FS.Files(App)); v != nil && b.Bad == nil {
				v.Msg = fmt.Sprintf("step %d: %s", i, v.Msg)
				b.Bad = v
			}
		}
		st.FS.SyncAll()
	}
	b.Outs = b.St.L.Outputs(b.St.Def)
	b.Old = b.St.FS.Files("/")
	b.NewFS = b.St.FS.Clone()
	r := b.St.run(b.Step)
	r.Keep = true
	b.Ref = Do(b.NewFS, r)
	b.NewFS = b.Ref.W.FS
	b.New = b.NewFS.Files("/")
	b.Trace = b.Ref.W.Trace
	return b
}

func tail(s string) string {
	if len(s) > 600 {
		s = s[len(s)-600:]
	}
	return s
}

// expectFail says whether a run on this tree must fail: the previous service
// implementation is not Go.
func (st *State) expectFail(files map[string]string) bool {
	o := st.L.Outputs(st.Def)
	for p, s := range files {
		if p == path.Join(o.S, "service/service.go") {
			return View(s, st.Def.Svc).Err != nil
		}
	}
	return false
}

// Again runs the studied run once more with a plan and hooks.
func (b *Base) Again(plan []k.Fault, f func(r *Run)) *Result {
	r := b.St.run(b.Step)
	r.Plan = plan
	if f != nil {
		f(&r)
	}
	return Do(b.St.FS.Clone(), r)
}

// StepOracle relates the tree before and after a successful run (C03, C04).
func StepOracle(st *State, old, nw map[string]string) *Bad {
	o := st.L.Outputs(st.Def)
	svc := path.Join(o.S, "service/service.go")
	src, had := old[svc]
	v := View(nw[svc], st.Def.Svc)
	if v.Err != nil {
		return bad("C04", "invalid-go", "service.go is not valid Go after a successful run: %v", v.Err)
	}
	if had {
		u := View(src, st.Def.Svc)
		if u.Err != nil {
			return bad("C03", "unparsable-accepted", "the run succeeded although the previous service.go could not be parsed (%v)", u.Err)
		}
		for _, name := range sortedFn(u.Handlers) {
			h := u.Handlers[name]
			if st.Def.Method(name) == nil {
				continue
			}
			n := v.Handlers[name]
			if n == nil {
				return bad("C03", "handler-lost", "the handler %s of service.go is gone", name)
			}
			if n.Body != h.Body {
				return bad("C03", "handler-body", "the body of handler %s changed:\n--- before\n%s--- after\n%s", name, h.Body, n.Body)
			}
			if !strings.Contains(n.Doc, h.Doc) {
				return bad("C03", "handler-comment", "the comment of handler %s changed from %q to %q", name, h.Doc, n.Doc)
			}
		}
		for _, f := range sortedStr(u.Funcs) {
			t := u.Funcs[f]
			if v.Funcs[f] != t {
				return bad("C03", "function-lost", "the function %s of service.go changed or is gone:\n--- before\n%s\n--- after\n%s", f, t, v.Funcs[f])
			}
			if !strings.Contains(v.Docs[f], u.Docs[f]) {
				return bad("C03", "function-comment", "the comment of function %s changed from %q to %q", f, u.Docs[f], v.Docs[f])
			}
		}
		if m, ok := missing(u.Decls, v.Decls); ok {
			return bad("C03", "decl-lost", "a declaration of service.go changed or is gone:\n%s", m)
		}
		for _, t := range sortedDocs(u.DeclDoc) {
			for _, doc := range u.DeclDoc[t] {
				if !strings.Contains(strings.Join(v.DeclDoc[t], "\n"), doc) {
					return bad("C03", "decl-comment", "the comment %q of a declaration of service.go is gone:\n%s", doc, t)
				}
			}
		}
		if m, ok := missing(u.Imports, v.Imports); ok {
			return bad("C03", "import-lost", "the import %s of service.go is gone", m)
		}
	}
	for _, p := range o.Editable() {
		if p == svc {
			continue
		}
		a, ok := old[p]
		if !ok {
			continue
		}
		b, ok := nw[p]
		if !ok {
			return bad("C03", "file-lost", "%s is gone", p)
		}
		if a != b && canon(a) != canon(b) {
			return bad("C03", "file-changed", "%s was changed by the run:\n--- before\n%s\n--- after\n%s", p, a, b)
		}
	}
	// C04
	if len(v.Dup) > 0 {
		return bad("C04", "duplicate-handler", "service.go declares %v twice", v.Dup)
	}
	if len(v.Exported) > 0 {
		return bad("C04", "exported-extra", "service.go still declares the exported %v, which is no rpc", v.Exported)
	}
	for _, m := range st.Def.Methods {
		h := v.Handlers[m.Name]
		if h == nil {
			return bad("C04", "handler-missing", "service.go has no handler for rpc %s", m.Name)
		}
		same := func(want, have string) bool {
			if want == Empty { // see foreignOracle
				return strings.HasPrefix(have, "*") && strings.HasSuffix(have, "."+Empty)
			}
			return have == "*pb."+want
		}
		if !same(m.Req, h.Req) || !same(m.Resp, h.Resp) {
			return bad("C04", "handler-types", "the handler of rpc %s(%s) returns (%s) takes %s and returns %s", m.Name, m.Req, m.Resp, h.Req, h.Resp)
		}
	}
	for _, name := range sortedFn(v.Handlers) {
		if st.Def.Method(name) == nil {
			return bad("C04", "handler-extra", "service.go has a handler %s, which is no rpc", name)
		}
	}
	for _, p := range o.All {
		s, ok := nw[p]
		if !ok {
			return bad("C04", "file-missing", "%s does not exist after a successful run", p)
		}
		if old[p] != "" && goErr(old[p]) != nil && (s == old[p]) {
			continue // the user's own unfinished code
		}
		if e := goErr(s); e != nil {
			return bad("C04", "invalid-go", "%s is not valid Go after a successful run: %v", p, e)
		}
	}
	if !st.L.Client {
		if _, had := old[o.Client]; !had {
			if _, has := nw[o.Client]; has {
				return bad("C04", "client-extra", "%s was written although no client was requested", o.Client)
			}
		}
	}
	if v := endpointsOracle(st.Def, nw[o.Baron]); v != nil {
		return v
	}
	return nil
}

// foreignOracle: messages of other packages keep their package (C04).
func foreignOracle(st *State, nw map[string]string) *Bad {
	v := View(nw[path.Join(st.L.Outputs(st.Def).S, "service/service.go")], st.Def.Svc)
	for _, m := range st.Def.Methods {
		h := v.Handlers[m.Name]
		if h == nil {
			continue
		}
		if m.Req == Empty && h.Req == "*pb."+Empty || m.Resp == Empty && h.Resp == "*pb."+Empty {
			return bad("C04", "foreign-message", "the handler of rpc %s takes %s and returns %s, but google.protobuf.Empty is not in package pb", m.Name, h.Req, h.Resp)
		}
	}
	return nil
}

func sortedFn(m map[string]*Fn) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func sortedDocs(m map[string][]string) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func sortedStr(m map[string]string) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func (c *Case) clone() *Case {
	b, _ := json.Marshal(c)
	n := &Case{}
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}
