package cli

import (
	"encoding/json"
	"path"
	"strings"

	"github.com/teamlint/baron/zz_sim/drive"
	"github.com/teamlint/baron/zz_sim/k"
)

var baseKey string
var baseVal *Base

// baseOf replays the history of a case (the last history is remembered).
func baseOf(c *Case) *Base {
	d := c.clone()
	d.Steps[len(d.Steps)-1].Plan = nil
	d.Mode, d.N, d.X = "", 0, nil
	js, _ := json.Marshal(d)
	if baseVal != nil && baseKey == string(js) {
		baseVal.C = c
		return baseVal
	}
	baseVal = MakeBase(d)
	baseKey = string(js)
	baseVal.C = c
	return baseVal
}

func reset() { baseVal, baseKey = nil, "" }

const real = "cmd/baron main and every package of baron, pflag, logrus, kr/pretty, x/tools helpers: rewritten only at the seams (os, filepath, exec, fmt, time, rand, map iteration); protoc, protoc-gen-go and protoc-gen-go-grpc: the real programs, run as a pure function of their inputs"
const stub = "kernel (file system, processes, clock), the go command behind packages.Load (a model of 'go list' validated against the real one)"

// last returns the plan of the studied run.
func (c *Case) last() *Step { return &c.Steps[len(c.Steps)-1] }

func withPlan(c *Case, plan ...k.Fault) *Case {
	d := c.clone()
	d.last().Plan = plan
	return d
}

// pickOps chooses at most n indices out of the operations satisfying ok.
func pickOps(tr []k.Op, r *k.Rand, n int, ok func(o k.Op) bool) []k.Op {
	var c []k.Op
	for _, o := range tr {
		if ok(o) {
			c = append(c, o)
		}
	}
	if n <= 0 || len(c) <= n {
		return c
	}
	var rv []k.Op
	for _, i := range r.Perm(len(c))[:n] {
		rv = append(rv, c[i])
	}
	return rv
}

func kindFault(o k.Op, r *k.Rand) k.Fault {
	m := k.Menu[o.Kind]
	if len(m) == 0 {
		return k.Fault{Proc: o.Proc, Op: o.Idx, Kind: "EIO"}
	}
	f := k.Fault{Proc: o.Proc, Op: o.Idx, Kind: m[r.Intn(len(m))]}
	if o.Kind == "write" || o.Kind == "exec" {
		f.Arg = r.Intn(1001)
	}
	if f.Kind == "ENOSPC" || f.Kind == "EIO" || f.Kind == "EMFILE" || f.Kind == "EDQUOT" {
		f.Sticky = r.P(1, 3)
	}
	return f
}

func size(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

func isRead(o k.Op) bool {
	switch o.Kind {
	case "stat", "open", "read", "readdir", "readlink":
		return true
	}
	return false
}

func caseNew() interface{} { return &Case{} }

// Exps are the experiments on whole runs.
func Exps() []*drive.Exp {
	mk := func(id string, quick, thorough int, level, rule string, search func(c *Case, r *k.Rand, tier string, try func(c *Case) bool), eval func(b *Base, c *Case) *Bad) *drive.Exp {
		e := &drive.Exp{ID: id, Quick: quick, Thorough: thorough, New: caseNew, Reset: reset, Level: level, Rule: rule, Real: real, Stub: stub}
		e.Eval = func(x interface{}) *Bad {
			c := x.(*Case)
			b := baseOf(c)
			if b.Bad != nil && b.Bad.Prop == id {
				return b.Bad
			}
			if b.Bad != nil && b.Bad.Prop != "C03" && b.Bad.Prop != "C04" {
				return nil // the history itself is not usable
			}
			return eval(b, c)
		}
		e.Search = func(seed uint64, tier string, try func(c interface{}) bool) {
			r := k.NewRand(seed, "search"+id)
			n := 1 + r.Intn(3)
			if id == "C03" || id == "C04" {
				n = 2 + r.Intn(5)
			}
			c := NewCase(id, seed, n)
			if search != nil {
				search(c, r, tier, func(c *Case) bool { return try(c) })
				return
			}
		}
		e.Smaller = Smaller
		e.Assume = []string{
			"the disk model: metadata operations become durable in order, file content only by fsync; kill loses nothing that was written",
			"protoc writes its outputs in place, with one write each",
			"the go command is a function of the module file and the directory",
		}
		return e
	}
	var rv []*drive.Exp

	rv = append(rv, mk("C01", 480, 6000, "fault_enumeration",
		"one case = one history (definition changes, user edits, earlier runs) and one disturbed run; the files are checked after every operation of the run; non-trivial = a fault was injected at an operation of the run, distinct by the sequence of operations and outcomes",
		func(c *Case, r *k.Rand, tier string, try func(c *Case) bool) {
			if !try(c) {
				return
			}
			b := baseOf(c)
			if b.Ref.P.Code != 0 {
				return
			}
			mine := func(o k.Op) bool { return o.Proc == "r1" && mutating[o.Kind] }
			io := func(o k.Op) bool {
				return o.Proc == "r1" && (mutating[o.Kind] || o.Kind == "close" || o.Kind == "sync")
			}
			for _, o := range pickOps(b.Trace, r, size(tier, 14, 60), io) {
				if !try(withPlan(c, k.Fault{Proc: o.Proc, Op: o.Idx, Kind: "power", Arg: r.Intn(1001)})) {
					return
				}
			}
			for _, o := range pickOps(b.Trace, r, size(tier, 14, 0), io) {
				if !try(withPlan(c, kindFault(o, r))) {
					return
				}
			}
			for _, o := range pickOps(b.Trace, r, size(tier, 6, 0), mine) {
				if o.Kind == "write" {
					if !try(withPlan(c, k.Fault{Proc: o.Proc, Op: o.Idx, Kind: "kill", Arg: r.Intn(1001)})) {
						return
					}
				}
			}
			// two faults: a failing write and a crash during its clean-up
			for i := 0; i < size(tier, 2, 20); i++ {
				os := pickOps(b.Trace, r, 1, mine)
				if len(os) == 0 {
					break
				}
				f := kindFault(os[0], r)
				if !try(withPlan(c, f, k.Fault{Proc: f.Proc, Op: f.Op + 1 + r.Intn(4), Kind: r.Pick("power", "kill")})) {
					return
				}
			}
		},
		func(b *Base, c *Case) *Bad { return b.EvalC01(c.last().Plan) }))

	rv = append(rv, mk("C02", 400, 4000, "fault_enumeration",
		"one case = one history with user edits and one run in which looking up, listing, opening or reading something fails once, from then on, or for one file always; non-trivial = the fault happened",
		func(c *Case, r *k.Rand, tier string, try func(c *Case) bool) {
			if len(c.Steps) < 2 {
				c.Steps = append(c.Steps, Step{Seed: r.U64()})
			}
			l := c.last()
			if len(l.Edits) < 2 {
				for i := 0; i < 3; i++ {
					l.Edits = append(l.Edits, Edit{editKinds[r.Intn(len(editKinds))], r.U64()})
				}
			}
			b := baseOf(c)
			if !try(c) {
				return
			}
			inS := func(o k.Op) bool {
				return o.Proc == "r1" && isRead(o) && (under(o.Path, b.Outs.S) || isAncestor(o.Path, b.Outs.S))
			}
			for _, o := range pickOps(b.Trace, r, size(tier, 30, 0), inS) {
				f := kindFault(o, r)
				if !try(withPlan(c, f)) {
					return
				}
			}
			// a file that stays unreadable
			files := append(b.Outs.Editable(), b.Outs.S, path.Dir(b.Outs.User[0]), path.Dir(b.Outs.User[2]), path.Join(b.Outs.S, "cmd"))
			for i := 0; i < size(tier, 10, 60); i++ {
				f := k.Fault{Proc: "r1", Path: files[r.Intn(len(files))], Class: r.Pick("open", "read", "stat", "readdir", "open"), Kind: r.Pick("EACCES", "EIO", "EMFILE", "ELOOP", "ENOMEM", "ESTALE", "ETIMEDOUT")}
				if f.Class == "open" && r.P(1, 5) {
					f.Kind = "ENOENT" // it is listed, but what it stands for is not there at the moment
				}
				if !try(withPlan(c, f)) {
					return
				}
			}
			// fault kinds that only fail a lookup of something that is there
			for i := 0; i < size(tier, 4, 30); i++ {
				os := pickOps(b.Trace, r, 2, inS)
				if len(os) == 2 {
					if !try(withPlan(c, kindFault(os[0], r), kindFault(os[1], r))) {
						return
					}
				}
			}
		},
		func(b *Base, c *Case) *Bad { return b.EvalC02(c.last().Plan) }))

	hist := func(c *Case, r *k.Rand, tier string, try func(c *Case) bool) {
		// place faults in some runs of the history
		if r.P(1, 8) {
			c.Steps[1+r.Intn(len(c.Steps)-1)].Edits = append(c.Steps[len(c.Steps)-1].Edits, Edit{"broken", r.U64()})
		}
		for i := 0; i < len(c.Steps)-1; i++ {
			if r.P(1, 3) {
				c.Steps[i].Broken = r.P(1, 3)
				d := c.clone()
				d.Steps = d.Steps[:i+1]
				tr := MakeBase(d).Trace
				if len(tr) > 0 {
					o := tr[r.Intn(len(tr))]
					var f k.Fault
					switch r.Intn(3) {
					case 0:
						f = k.Fault{Proc: o.Proc, Op: o.Idx, Kind: "kill", Arg: r.Intn(1001)}
					case 1:
						f = k.Fault{Proc: o.Proc, Op: o.Idx, Kind: "power", Arg: r.Intn(1001)}
					case 2:
						f = kindFault(o, r)
					}
					if !(c.Steps[i].Broken && r.P(1, 2)) {
						c.Steps[i].Plan = []k.Fault{f}
					}
				}
			}
		}
		try(c)
	}
	evalHist := func(b *Base, c *Case) *Bad {
		if len(c.Steps) > 1 {
			drive.Note("histories with a regeneration")
		}
		for i := range c.Steps {
			if len(c.Steps[i].Plan) > 0 {
				drive.Note("disturbed runs in a history")
			}
		}
		if c := crashed(b.Ref.P); c != "" {
			return bad("C07", "crash", "an undisturbed run %s", c)
		}
		if b.Ref.P.Code != 0 {
			// the only reason not to run is an unparsable previous service
			svc := b.Outs.User[0]
			if s, ok := b.Old[svc]; ok && View(s, b.St.Def.Svc).Err != nil {
				for _, p := range b.Outs.Editable() {
					if b.New[p] != b.Old[p] {
						return bad("C03", "unparsable-changed", "%s was changed by a run that failed because service.go is not Go", p)
					}
				}
				return nil
			}
			return bad("C07", "fails-without-cause", "an undisturbed run fails: %s", tail(b.Ref.P.Stderr.String()))
		}
		old := map[string]string{}
		for p, s := range b.Old {
			old[p] = s
		}
		if v := StepOracle(b.St, old, b.New); v != nil {
			return v
		}
		return foreignOracle(b.St, b.New)
	}
	onlyProp := func(id string, f func(b *Base, c *Case) *Bad) func(b *Base, c *Case) *Bad {
		return func(b *Base, c *Case) *Bad {
			v := f(b, c)
			if v != nil && v.Prop != id {
				return nil
			}
			return v
		}
	}
	const histRule = "one case = a history of 2 to 6 steps, each a seeded set of definition changes, user edits and one run, a third of the earlier runs disturbed (kill, power loss, errors, a broken definition); the relation between the trees before and after each successful run is checked; non-trivial = at least one regeneration; distinct by the sequence of operations of all runs"
	rv = append(rv, mk("C03", 2400, 60000, "exploration", histRule, hist, onlyProp("C03", evalHist)))
	rv = append(rv, mk("C04", 2400, 60000, "exploration", histRule, hist, onlyProp("C04", evalHist)))

	rv = append(rv, mk("C05", 300, 3000, "fault_enumeration",
		"one case = one history, one run that is killed, loses power or meets an error at one operation, and the recovery run after it, whose tree is compared with that of one undisturbed run; the case without a fault checks the fixpoint; non-trivial = the fault happened",
		func(c *Case, r *k.Rand, tier string, try func(c *Case) bool) {
			b := baseOf(c)
			if !try(c) {
				return
			}
			any := func(o k.Op) bool { return mutating[o.Kind] || o.Kind == "sync" || o.Kind == "close" }
			for _, o := range pickOps(b.Trace, r, size(tier, 12, 0), any) {
				if !try(withPlan(c, k.Fault{Proc: o.Proc, Op: o.Idx, Kind: "kill", Arg: r.Intn(1001)})) {
					return
				}
			}
			for _, o := range pickOps(b.Trace, r, size(tier, 8, 60), any) {
				if !try(withPlan(c, k.Fault{Proc: o.Proc, Op: o.Idx, Kind: "power", Arg: r.Intn(1001)})) {
					return
				}
			}
			for _, o := range pickOps(b.Trace, r, size(tier, 10, 100), func(o k.Op) bool { return true }) {
				if !try(withPlan(c, kindFault(o, r))) {
					return
				}
			}
		},
		func(b *Base, c *Case) *Bad {
			if len(c.last().Plan) == 0 {
				if b.Ref.P.Code != 0 {
					return nil
				}
				return b.recover(b.NewFS, "an undisturbed run", c.Seed+7)
			}
			return b.EvalC05(c.last().Plan, c.Seed+7)
		}))

	rv = append(rv, mk("C06", 1200, 12000, "exploration",
		"one case = one history and one run repeated under another choice of map iteration orders, directory listing orders, temporary names, read sizes, clock and environment; non-trivial = at least one stream of choices differs; distinct by the sequence of operations",
		func(c *Case, r *k.Rand, tier string, try func(c *Case) bool) {
			for i := 0; i < size(tier, 6, 20); i++ {
				d := c.clone()
				d.X = map[string]uint64{"perturb": r.U64()}
				if !try(d) {
					return
				}
			}
		},
		func(b *Base, c *Case) *Bad {
			drive.Note("perturbed runs")
			return b.EvalC06(k.NewRand(c.X["perturb"], "perturb"))
		}))

	rv = append(rv, mk("C07", 480, 4000, "fault_enumeration",
		"one case = one history and one run with one fault (or one that persists) at any of its operations, including those of the protocol compiler and the go command; non-trivial = the fault happened",
		func(c *Case, r *k.Rand, tier string, try func(c *Case) bool) {
			b := baseOf(c)
			if r.P(1, 10) {
				d := c.clone()
				d.last().Broken = true
				d.Mode = "broken"
				if !try(d) {
					return
				}
			}
			for i := size(tier, 3, 12); i > 0; i-- {
				d := c.clone()
				d.Mode = "wip"
				d.X = map[string]uint64{"wip": r.U64()}
				if !try(d) {
					return
				}
			}
			if r.P(1, 6) {
				d := c.clone()
				d.Mode = r.Pick("noproto", "noprotoc", "noplugin", "nogrpc", "nomod", "twodirs", "noargs", "badflag", "nosvc", "notexec")
				if !try(d) {
					return
				}
			}
			if !try(c) {
				return
			}
			for _, o := range pickOps(b.Trace, r, size(tier, 36, 0), func(o k.Op) bool { return true }) {
				if !try(withPlan(c, kindFault(o, r))) {
					return
				}
			}
			for i := 0; i < size(tier, 4, 40); i++ {
				os := pickOps(b.Trace, r, 2, func(o k.Op) bool { return true })
				if !try(withPlan(c, kindFault(os[0], r), kindFault(os[1], r))) {
					return
				}
			}
		},
		func(b *Base, c *Case) *Bad {
			if c.Mode != "" {
				return b.EvalC07Bad(c)
			}
			if len(c.last().Plan) == 0 {
				if v := crashed(b.Ref.P); v != "" {
					return bad("C07", "crash", "an undisturbed run %s", v)
				}
				if b.Ref.P.Code != 0 && !said(b.Ref.P) {
					return bad("C07", "silent-failure", "an undisturbed run fails without a message")
				}
			}
			return b.EvalC07(c.last().Plan)
		}))

	rv = append(rv, mk("C08", 480, 4000, "fault_enumeration",
		"one case = one history and one run with at most two faults at any operation; every operation that changes the disk is checked, and the tree after the run; non-trivial = a fault happened",
		func(c *Case, r *k.Rand, tier string, try func(c *Case) bool) {
			b := baseOf(c)
			if !try(c) {
				return
			}
			for _, o := range pickOps(b.Trace, r, size(tier, 36, 0), func(o k.Op) bool { return true }) {
				if !try(withPlan(c, kindFault(o, r))) {
					return
				}
			}
			for i := 0; i < size(tier, 4, 40); i++ {
				os := pickOps(b.Trace, r, 2, func(o k.Op) bool { return true })
				if !try(withPlan(c, kindFault(os[0], r), kindFault(os[1], r))) {
					return
				}
			}
		},
		func(b *Base, c *Case) *Bad { return b.EvalC08(c.last().Plan) }))
	rv = append(rv, StartExp(), ConcExp())
	return rv
}

// EvalC07Bad: inputs that cannot be processed are refused.
func (b *Base) EvalC07Bad(c *Case) *Bad {
	fs := b.St.FS.Clone()
	args := b.St.L.Args(b.St.Def)
	cwd := ""
	switch c.Mode {
	case "broken":
	case "wip":
		if !(Edit{"wip", c.X["wip"]}).Apply(fs, &b.St.L, b.St.Def, 99) {
			return nil
		}
	case "noproto":
		fs.Delete(path.Join(b.St.L.ProtoDir, b.St.Def.ProtoNames()[0]))
	case "noprotoc":
		fs.Delete("/usr/bin/protoc")
	case "noplugin":
		fs.Delete("/usr/bin/protoc-gen-go")
	case "nogrpc":
		fs.Delete("/usr/bin/protoc-gen-go-grpc")
	case "notexec":
		fs.Chmod("/usr/bin/protoc", 0644)
	case "nomod":
		fs.Delete(App + "/go.mod")
	case "twodirs":
		fs.Put("/w/app/other/x.proto", "syntax = \"proto3\";\npackage x;\n")
		args = append(args, "/w/app/other/x.proto")
	case "noargs":
		args = []string{"baron"}
	case "badflag":
		args = append(args, "--no-such-flag")
	case "nosvc":
		// a definition without a service is reported, not processed
		return nil
	}
	fs.SyncAll()
	fs0 := fs.Clone()
	r := b.St.run(b.Step)
	r.Args = args
	r.Cwd = cwd
	drive.Note("input: " + c.Mode)
	res := Do(fs, r)
	if v := crashed(res.P); v != "" {
		return bad("C07", "crash", "with an input that cannot be processed (%s) the run %s", c.Mode, v)
	}
	if res.P.Code == 0 && c.Mode == "wip" {
		return nil
	}
	if res.P.Code == 0 {
		return bad("C07", "false-success", "with an input that cannot be processed (%s) the run exits 0: %s", c.Mode, tail(res.P.Stderr.String()))
	}
	if !said(res.P) {
		return bad("C07", "silent-failure", "with an input that cannot be processed (%s) the run exits %d without a message", c.Mode, res.P.Code)
	}
	for _, p := range b.Outs.Editable() {
		old, had := fs0.Get(p)
		if s, ok := res.W.FS.Get(p); ok != had || s != old {
			return bad("C07", "changed-by-refused-run", "with an input that cannot be processed (%s) the run changes %s", c.Mode, p)
		}
	}
	return nil
}

func has(m map[string]string, p string) bool { _, ok := m[p]; return ok }

// Smaller proposes simpler cases.
func Smaller(x interface{}) []interface{} {
	c := x.(*Case)
	var rv []interface{}
	plan := c.last().Plan
	var tr []k.Op
	if len(plan) > 0 {
		tr = baseOf(c).Trace
	}
	add := func(d *Case) {
		rv = append(rv, d)
		// the fault moves with its operation
		if len(plan) == 0 || len(plan) != len(d.last().Plan) {
			return
		}
		nt := MakeBase(d.noPlan()).Trace
		e := d.clone()
		moved := false
		for i, f := range e.last().Plan {
			if j, ok := locate(tr, nt, f); ok {
				if j != f.Op {
					moved = true
				}
				e.last().Plan[i].Op = j
			}
		}
		if moved {
			rv = append(rv, e)
		}
	}
	for i := len(c.Steps) - 2; i >= 0; i-- {
		d := c.clone()
		d.Steps = append(d.Steps[:i], d.Steps[i+1:]...)
		add(d)
	}
	if !c.Small {
		d := c.clone()
		d.Small = true
		add(d)
	}
	for i := range c.Steps {
		if len(c.Steps[i].Muts) > 0 {
			d := c.clone()
			d.Steps[i].Muts = nil
			add(d)
		}
		if len(c.Steps[i].Edits) > 0 {
			d := c.clone()
			d.Steps[i].Edits = nil
			add(d)
		}
		if i < len(c.Steps)-1 && len(c.Steps[i].Plan) > 0 {
			d := c.clone()
			d.Steps[i].Plan = nil
			add(d)
		}
		if c.Steps[i].Client != nil {
			d := c.clone()
			d.Steps[i].Client = nil
			add(d)
		}
	}
	for i := range c.Steps {
		if len(c.Steps[i].Edits) > 1 {
			for j := range c.Steps[i].Edits {
				d := c.clone()
				d.Steps[i].Edits = append(d.Steps[i].Edits[:j], d.Steps[i].Edits[j+1:]...)
				add(d)
			}
		}
		if len(c.Steps[i].Muts) > 1 {
			for j := range c.Steps[i].Muts {
				d := c.clone()
				d.Steps[i].Muts = append(d.Steps[i].Muts[:j], d.Steps[i].Muts[j+1:]...)
				add(d)
			}
		}
	}
	if len(plan) > 1 {
		for j := range plan {
			d := c.clone()
			p := d.last().Plan
			d.last().Plan = append(p[:j], p[j+1:]...)
			rv = append(rv, d)
		}
	}
	for j := range plan {
		if plan[j].Sticky {
			d := c.clone()
			d.last().Plan[j].Sticky = false
			rv = append(rv, d)
		}
	}
	l := Layout{ProtoDir: App + "/proto", Trans: "all"}
	if c.L != l {
		d := c.clone()
		d.L = l
		add(d)
		if c.L.Client {
			d := c.clone()
			d.L.Client = false
			add(d)
		}
	}
	return rv
}

func (c *Case) noPlan() *Case {
	d := c.clone()
	d.last().Plan = nil
	return d
}

// locate finds the operation of another trace that corresponds to a fault's.
func locate(a, b []k.Op, f k.Fault) (int, bool) {
	n := -1
	var o k.Op
	cnt := map[string]int{}
	key := func(o k.Op) string { return o.Proc + " " + o.Kind + " " + base(o.Path) }
	for _, x := range a {
		if x.Proc == f.Proc && x.Idx == f.Op {
			o = x
			n = cnt[key(x)]
			break
		}
		cnt[key(x)]++
	}
	if n < 0 {
		return 0, false
	}
	last := 0
	i := 0
	for _, x := range b {
		if key(x) == key(o) {
			last = x.Idx
			if i == n {
				return x.Idx, true
			}
			i++
		}
	}
	return last, last != 0
}

// base is a path with temporary parts removed.
func base(p string) string {
	b := path.Base(p)
	return strings.TrimRight(b, "0123456789")
}
