package lib

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"sort"
	"strings"

	"github.com/teamlint/baron/zz_sim/cli"
	"github.com/teamlint/baron/zz_sim/drive"
	"github.com/teamlint/baron/zz_sim/k"
)

// Case is one simulated program using the library.
type Case struct {
	Prop    string    `json:"prop"`
	Seed    uint64    `json:"seed"`
	Calls   []Call    `json:"calls"`             // the last one is the probe (C13: in order)
	Threads bool      `json:"threads,omitempty"` // all at once
	Preempt int       `json:"preempt,omitempty"`
	Fixed   bool      `json:"fixed,omitempty"`
	Sched   []k.Sw    `json:"sched,omitempty"`
	Plan    []k.Fault `json:"plan,omitempty"` // failing operations on the disk
}

func (c *Case) clone() *Case {
	b, _ := json.Marshal(c)
	n := &Case{}
	json.Unmarshal(b, n)
	return n
}

const budget = 60000000

func newWorld(seed uint64) *k.World {
	fs := cli.NewDisk()
	fs.MkdirAllRaw("/w/app/out")
	fs.SyncAll()
	w := cli.NewW(fs, seed)
	w.TickBudget = budget
	w.Keep = drive.KeepTrace
	return w
}

func args() []string { return []string{"program"} }

// alone does calls one after the other in one fresh process.
func alone(seed uint64, calls ...*Call) []*Outcome {
	outs, _ := planned(seed, nil, calls...)
	return outs
}

// planned also lets operations on the disk fail.
func planned(seed uint64, plan []k.Fault, calls ...*Call) ([]*Outcome, *k.World) {
	for _, c := range calls {
		GetInput(c.In, c.Small)
	}
	w := newWorld(seed)
	w.Plan = plan
	var outs []*Outcome
	p := w.Spawn("p", args(), cli.Env(), cli.App, true, func(p *k.Proc) {
		for _, c := range calls {
			p.Ticks = 0
			outs = append(outs, c.Do())
		}
	})
	w.Run()
	drive.Count(w)
	if w.Harness != "" {
		panic("harness: " + w.Harness)
	}
	for len(outs) < len(calls) {
		o := &Outcome{Panic: p.Panic, Hang: p.Hang}
		if o.Panic == "" {
			o.Panic = fmt.Sprintf("the process exits with code %d", p.Code)
		}
		outs = append(outs, o)
	}
	for _, o := range outs {
		drive.Mix(o.String())
	}
	return outs, w
}

// together does calls in threads of one process.
func together(c *Case) []*Outcome {
	for i := range c.Calls {
		GetInput(c.Calls[i].In, c.Calls[i].Small)
	}
	boot := newWorld(c.Seed)
	boot.Spawn("boot", args(), cli.Env(), cli.App, true, func(p *k.Proc) {})
	boot.Run()
	w := newWorld(c.Seed)
	w.Threads = true
	w.Preempt = c.Preempt
	w.Fixed, w.Sched = c.Fixed, c.Sched
	outs := make([]*Outcome, len(c.Calls))
	var ps []*k.Proc
	for i := range c.Calls {
		i := i
		p := w.Spawn(fmt.Sprintf("t%d", i+1), args(), cli.Env(), cli.App, true, func(p *k.Proc) { outs[i] = c.Calls[i].Do() })
		ps = append(ps, p)
	}
	w.Run()
	drive.Count(w)
	if !c.Fixed {
		lastSched = w.SwLog
	}
	if w.Harness != "" {
		panic("harness: " + w.Harness)
	}
	for i, o := range outs {
		if o == nil {
			outs[i] = &Outcome{Panic: "the thread ends without a result"}
			if ps[i].Panic != "" {
				outs[i].Panic = ps[i].Panic
			}
		}
		drive.Mix(outs[i].String())
	}
	return outs
}

var lastSched []k.Sw

var refs = map[string]*Outcome{}

// ref is what a call does alone in a fresh process, its bytes arriving at once.
func ref(c *Call) *Outcome {
	d := *c
	d.D = Delivery{File: c.D.File}
	b, _ := json.Marshal(d)
	if o := refs[string(b)]; o != nil {
		return o
	}
	if len(refs) > 500 {
		refs = map[string]*Outcome{}
	}
	var o *Outcome
	drive.Aside(func() { o = alone(1, &d)[0] })
	refs[string(b)] = o
	return o
}

func reset() {
	refs = map[string]*Outcome{}
	inputs = map[string]*Input{}
}

func bad(prop, sig, f string, a ...interface{}) *drive.Bad { return drive.Badf(prop, sig, f, a...) }

func short(s string) string {
	if len(s) > 500 {
		return s[:250] + " ... " + s[len(s)-250:]
	}
	return s
}

// same says whether two outcomes are the same for a caller.
func same(a, b *Outcome) bool {
	if (a.Err == nil) != (b.Err == nil) || (a.Panic == "") != (b.Panic == "") || a.Hang != b.Hang {
		return false
	}
	return a.Err != nil || a.Panic != "" || a.Hang || a.Text == b.Text
}

// firstDiff shows where two texts begin to differ.
func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %q instead of %q", i+1, y, x)
		}
	}
	return "nothing"
}

func what(want, got *Outcome) string {
	if want.Err == nil && want.Panic == "" && !want.Hang && got.Err == nil && got.Panic == "" && !got.Hang {
		return firstDiff(want.Text, got.Text)
	}
	return fmt.Sprintf("%q instead of %q", short(got.String()), short(want.String()))
}

func usable(c *Call) bool { return GetInput(c.In, c.Small).Err == "" }

// evalDelivery decides C11.
func evalDelivery(c *Case) *drive.Bad {
	call := &c.Calls[0]
	if !usable(call) {
		return nil
	}
	want := ref(call)
	if want.Panic != "" || want.Hang {
		return nil // C14
	}
	got := alone(c.Seed, call)[0]
	drive.Note("delivery " + call.D.Mode + " of " + call.Kind)
	if !same(want, got) {
		return bad("C11", "delivery", "%s gives %s when the same bytes arrive as %s", call.Kind, what(want, got), call.D.text())
	}
	return nil
}

func (d *Delivery) text() string {
	s := d.Mode + " reads"
	if d.Empty {
		s += ", some of them empty"
	}
	if d.EOF {
		s += ", the end announced with the last bytes"
	}
	if d.Err != "" {
		s += fmt.Sprintf(", stream %d failing with %s after %d/1000 of its bytes", d.File, d.Err, d.At)
	}
	return s
}

// evalFailing decides C12.
func evalFailing(c *Case) *drive.Bad {
	call := &c.Calls[0]
	if !usable(call) {
		return nil
	}
	want := ref(call)
	if want.Panic != "" || want.Hang || want.Err != nil {
		return nil
	}
	outs, w := planned(c.Seed, c.Plan, call)
	got := outs[0]
	if len(w.Fired) > 0 {
		got.Failed = true
	}
	if got.Hang {
		return bad("C12", "hang", "%s does not end with %s", call.Kind, call.D.text())
	}
	if got.Panic != "" {
		return bad("C12", "panic", "%s with %s: panic: %s", call.Kind, call.D.text(), got.Panic)
	}
	if !got.Failed {
		return nil
	}
	drive.Note("failing stream: " + call.Kind)
	if got.Err != nil {
		if got.Kept != "" && (len(c.Plan) == 0 || got.Kept == "/w/app/out/x.go") {
			return bad("C12", "half-file", "%s fails with %s and leaves %s", call.Kind, call.D.text(), got.Kept)
		}
		return nil
	}
	if len(c.Plan) > 0 {
		if got.Text == want.Text {
			return nil
		}
		return bad("C12", "shortened", "%s returns no error with %s and failing operations %v; result: %s", call.Kind, call.D.text(), w.Fired, what(want, got))
	}
	if got.Text == want.Text && (got.All || call.stopsEarly()) {
		return nil // everything was there, or nothing of what failed was needed
	}
	return bad("C12", "shortened", "%s returns no error with %s; result: %s", call.Kind, call.D.text(), what(want, got))
}

// stopsEarly: the failing stream is a definition, in which a reader may stop
// at the end of the service.
func (c *Call) stopsEarly() bool {
	switch c.Kind {
	case "parse":
		return true
	case "new":
		// definitions come before generated code in the numbering of streams
		return c.D.File < len(GetInput(c.In, c.Small).Protos)
	}
	return false
}

// evalInfluence decides C13.
func evalInfluence(c *Case) *drive.Bad {
	for i := range c.Calls {
		if !usable(&c.Calls[i]) {
			return nil
		}
	}
	if c.Threads {
		want := make([]*Outcome, len(c.Calls))
		for i := range c.Calls {
			drive.Aside(func() { want[i] = alone(c.Seed, &c.Calls[i])[0] })
			if want[i].Panic != "" || want[i].Hang {
				return nil
			}
		}
		got := together(c)
		drive.Note(fmt.Sprintf("%d callers at once", len(c.Calls)))
		for i := range got {
			if !same(want[i], got[i]) {
				return bad("C13", "threads", "%s gives %s when %d other callers are at work", c.Calls[i].Kind, what(want[i], got[i]), len(c.Calls)-1)
			}
		}
		return nil
	}
	n := len(c.Calls) - 1
	probe := &c.Calls[n]
	var want *Outcome
	drive.Aside(func() { want = alone(c.Seed, probe)[0] })
	if want.Panic != "" || want.Hang {
		return nil
	}
	var calls []*Call
	for i := range c.Calls {
		calls = append(calls, &c.Calls[i])
	}
	outs := alone(c.Seed, calls...)
	for _, o := range outs[:n] {
		if o.Err != nil {
			drive.Note("call after a failed call")
		} else {
			drive.Note("call after a call")
		}
		if o.Hang || o.Panic != "" {
			return nil // C14
		}
	}
	if !same(want, outs[n]) {
		return bad("C13", "history", "%s gives %s after %d other calls in the same process", probe.Kind, what(want, outs[n]), n)
	}
	return nil
}

// evalDamage decides C14.
func evalDamage(c *Case) *drive.Bad {
	call := &c.Calls[0]
	if !usable(call) {
		return nil
	}
	o := alone(c.Seed, call)[0]
	drive.Note("damaged definition: " + call.Kind)
	switch {
	case o.Hang:
		return bad("C14", "hang", "%s does not end on a definition of %d bytes", call.Kind, o.Len)
	case o.Panic != "":
		return bad("C14", "panic", "%s panics on a damaged definition: %s", call.Kind, o.Panic)
	case o.Nil:
		return bad("C14", "nothing", "%s returns neither a service nor an error on a damaged definition", call.Kind)
	}
	if call.Kind == "parse" {
		if m := float64(o.Ticks) / float64(o.Len+100); m > maxRatio {
			maxRatio = m
			if Debug || os.Getenv("SIM_DEBUG") != "" {
				drive.Note(fmt.Sprintf("ratio %d of %d bytes", int(m), o.Len))
			}
		}
		if o.Ticks > stepsPerByte*(o.Len+100) {
			return bad("C14", "steps", "parsing a definition of %d bytes takes %d steps", o.Len, o.Ticks)
		}
	}
	return nil
}

// Debug prints measurements.
var Debug bool
var maxRatio float64

// A parser that does constant work per character stays far below this.
const stepsPerByte = 150

var modes = []string{"byte", "rand", "lines", "big", "whole"}

func randDelivery(r *k.Rand) Delivery {
	return Delivery{Mode: modes[r.Intn(len(modes))], Seed: r.U64(), Empty: r.P(1, 3), EOF: r.P(1, 2)}
}

var toks = []string{"{", "}", "(", ")", ";", "\"", "'", "/*", "*/", "//", "\n", "rpc ", "service ", "returns ", "option ", "stream ", "\\", "\x00", "\xff", "é", "\ufeff", "=", "[", "]", "<", ">", ":", ",", "(google.api.http)", "additional_bindings", "get: \"/x\"", " ", "\t", "\r", "message ", "oneof ", "enum ", "import \"x\";", "0", "-", "\"\\\"\"", "\u2028", "body: \"*\"", "rpc X(A) returns (B) {", "service S {", "option (google.api.http) = {"}

func randDamage(r *k.Rand, big bool) []Damage {
	var ds []Damage
	for n := 1 + r.Intn(4); n > 0; n-- {
		d := Damage{At: r.Intn(100000)}
		switch r.Intn(8) {
		case 0, 1:
			d.Kind = "cut"
		case 2:
			d.Kind, d.N = "flip", r.Intn(8)
		case 3:
			d.Kind, d.N = "del", 1+r.Intn(30)
		case 4:
			d.Kind, d.N = "dup", 1+r.Intn(200)
		case 5, 6:
			d.Kind, d.N, d.Tok = "ins", 1, toks[r.Intn(len(toks))]
			if r.P(1, 6) {
				d.N = 1 + r.Intn(50)
			}
			if big && r.P(1, 10) {
				d.N = 1 + r.Intn(20000)
			}
		case 7:
			d.Kind = "tail"
			if r.P(1, 2) {
				d.Kind, d.N, d.Tok = "ins", 1, toks[r.Intn(len(toks))]
			}
		}
		ds = append(ds, d)
	}
	return ds
}

// soup is a definition made of tokens.
func soup(r *k.Rand) string {
	var b strings.Builder
	if r.P(1, 2) {
		b.WriteString("syntax = \"proto3\";\npackage p;\n")
	}
	if r.P(3, 4) {
		b.WriteString("service S {")
	}
	for n := 1 + r.Intn(40); n > 0; n-- {
		b.WriteString(toks[r.Intn(len(toks))])
		if r.P(1, 3) {
			b.WriteString(r.Pick("A", "B", "x", "GetThing", " ", "\n", "1"))
		}
	}
	return b.String()
}

// pieces are what a long definition may have many of, and where.
var pieces = map[string][3]string{
	"rpcs":      {"", "  // says it\n  rpc Say(Req) returns (Resp) {\n    option (google.api.http) = {\n      get: \"/say/{name}\"\n    };\n  }\n", ""},
	"plain":     {"", "  rpc Say(Req) returns (Resp);\n", ""},
	"empty":     {"", "  rpc Say(Req) returns (Resp) {}\n", ""},
	"bindings":  {"rpc", "      additional_bindings {\n        get: \"/x\"\n      }\n", ""},
	"fields":    {"rpc", "      body: \"*\"\n", ""},
	"sepfields": {"rpc", "      body: \"*\",\n", ""},
	"custom":    {"rpc", "      custom { kind: \"HEAD\" path: \"/x\" }\n", ""},
	"nested":    {"rpc", "custom {", ""},
	"morenest":  {"rpc", "additional_bindings {", ""},
	"svcopts":   {"", "  option deprecated = true;\n", ""},
	"rpcopts":   {"body", "    option deprecated = true;\n", ""},
	"lateopts":  {"late", "    option deprecated = true;\n", ""},
	"aggregate": {"body", "    option (acme.x) = { a: { b: \"c\" } };\n", ""},
	"lines":     {"", "  // a line\n", ""},
	"blocks":    {"", "/* a block */ ", ""},
	"starred":   {"", "/****/\n", ""},
	"stars":     {"", "*", "/* "},
	"fieldnote": {"rpc", "      // a line\n", ""},
	"semicolon": {"", ";", ""},
	"spaces":    {"", " \n", ""},
	"ident":     {"", "a", "rpc "},
	"string":    {"rpc", "\\\"", "get: \""},
	"dots":      {"type", "a.", ""},
	"braces":    {"", "{", ""},
	"closing":   {"", "}", ""},
	"messages":  {"before", "message M { message N { enum E { A = 0; } } string service = 1; }\n", ""},
	"keywords":  {"before", "service ", ""},
	"packages":  {"before", "package a.service.b;\n", ""},
	"imports":   {"before", "import \"x.proto\"; // service\n", ""},
	"services":  {"before", "service A {}\n", ""},
}

var pieceNames = func() []string {
	var names []string
	for n := range pieces {
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}()

// long is a definition with n of the pieces of one kind.
func long(kind string, n int) string {
	p := pieces[kind]
	at := func(where string) string {
		if p[0] != where {
			return ""
		}
		return p[2] + strings.Repeat(p[1], n)
	}
	return "syntax = \"proto3\";\npackage p;\n" + at("before") + "service S {\n" + at("") + "  rpc Say(" + at("type") + "Req) returns (" + at("type") + "Resp) {\n" + at("body") +
		"    option (google.api.http) = {\n      get: \"/say/{name}\"\n" + at("rpc") + "    };\n" + at("late") + "  }\n}\n"
}

const real = "svcdef (Go-code and HTTP-binding derivation), svcdef/svcparse (scanner, lexer, parser), gengokit, gengokit/generator, gengokit/service, gengokit/httptransport, gengokit/template, internal/parsesvcname, internal/execprotoc: all rewritten from the current tree"
const stub = "readers and their failures, the scheduler, protoc and its plugins (model), operating system and disk"

func pool(r *k.Rand) uint64 { return 1000 + uint64(r.Intn(160)) }

// Exps are the experiments on the library.
func Exps() []*drive.Exp {
	mk := func(id string, quick, thorough int) *drive.Exp {
		e := &drive.Exp{ID: id, Quick: quick, Thorough: thorough, New: func() interface{} { return &Case{} }, Reset: reset, Real: real, Stub: stub}
		e.Assume = []string{"generated Go code and definitions come from the definition generator and the model of the protocol compiler"}
		e.Smaller = smaller
		return e
	}
	c11 := mk("C11", 1800, 12000)
	c11.Level = "exploration"
	c11.Rule = "one case = one library call (lexer, service parser, service description from definitions and Go code, rendering of the service over a previous file, full generation, service name) on one generated or damaged input whose streams deliver their bytes one at a time, in lines, in random parts, with empty reads, with the end announced together with the last bytes; compared with the delivery in one piece; non-trivial = any delivery other than in one piece; distinct by call, outcome and schedule of reads"
	c11.Eval = func(x interface{}) *drive.Bad { return evalDelivery(x.(*Case)) }
	c11.Search = func(seed uint64, tier string, try func(c interface{}) bool) {
		r := k.NewRand(seed, "c11")
		for i := 0; i < 12; i++ {
			c := Call{Kind: r.Pick("lex", "parse", "parse", "new", "new", "svc", "gen", "name", "write"), In: pool(r), D: randDelivery(r)}
			if (c.Kind == "lex" || c.Kind == "parse") && r.P(1, 2) {
				c.Dmg = randDamage(r, false)
			}
			if c.Kind == "new" && r.P(1, 4) {
				c.Dmg = randDamage(r, false)
			}
			c.CRLF = r.P(1, 4)
			if (c.Kind == "lex" || c.Kind == "parse") && r.P(1, 12) {
				c.Long, c.N = pieceNames[r.Intn(len(pieceNames))], []int{3, 40, 300}[r.Intn(3)]
			}
			if !try(&Case{Prop: "C11", Seed: r.U64(), Calls: []Call{c}}) {
				return
			}
		}
	}
	c12 := mk("C12", 2000, 16000)
	c12.Level = "fault_enumeration"
	c12.Rule = "one case = one library call with one stream (definition, generated Go code, previous file of the service) failing at one position with one of ten errors, for good or once, alone or together with data, under one delivery; non-trivial = the call met the error; distinct by call, outcome and schedule of reads"
	c12.Eval = func(x interface{}) *drive.Bad { return evalFailing(x.(*Case)) }
	c12.Search = func(seed uint64, tier string, try func(c interface{}) bool) {
		r := k.NewRand(seed, "c12")
		for i := 0; i < 12; i++ {
			c := Call{Kind: r.Pick("parse", "parse", "new", "new", "new", "svc", "gen", "gen", "name", "write"), In: pool(r), D: randDelivery(r)}
			if !usable(&c) {
				continue
			}
			if n := c.Streams(); n > 0 {
				c.D.File = r.Intn(n)
			} else {
				continue
			}
			if (c.Kind == "name" || c.Kind == "write") && r.P(1, 2) {
				x := &Case{Prop: "C12", Seed: r.U64(), Calls: []Call{c}}
				var w *k.World
				drive.Aside(func() {
					old := drive.KeepTrace
					drive.KeepTrace = true
					_, w = planned(x.Seed, nil, &c)
					drive.KeepTrace = old
				})
				var fs []k.Fault
				for _, o := range w.Trace {
					for _, f := range k.Menu[o.Kind] {
						fs = append(fs, k.Fault{Proc: o.Proc, Op: o.Idx, Kind: f, Arg: r.Intn(1001), Sticky: r.P(1, 4)})
					}
				}
				for n := 0; n < 8 && len(fs) > 0; n++ {
					x := x.clone()
					x.Plan = []k.Fault{fs[r.Intn(len(fs))]}
					if !try(x) {
						return
					}
				}
				continue
			}
			c.D.Err = errKinds[r.Intn(len(errKinds))]
			c.D.At = r.Intn(1001)
			c.D.With = r.P(1, 3)
			switch r.Intn(4) {
			case 0:
				c.D.Once = true
			case 1:
				c.D.End = true
			}
			c.CRLF = r.P(1, 6)
			if !try(&Case{Prop: "C12", Seed: r.U64(), Calls: []Call{c}}) {
				return
			}
		}
	}
	c13 := mk("C13", 2000, 16000)
	c13.Level = "exploration"
	c13.Rule = "one case = up to six calls (intact, damaged or with failing streams) in one process and then a probe call, compared with the probe in a fresh process; or two to four calls in threads of one process, preempted between any two steps by the seeded scheduler, each compared with the call alone; non-trivial = at least one other call; distinct by outcomes and schedule"
	c13.Eval = func(x interface{}) *drive.Bad { return evalInfluence(x.(*Case)) }
	c13.Search = func(seed uint64, tier string, try func(c interface{}) bool) {
		r := k.NewRand(seed, "c13")
		mkCall := func(threads bool) Call {
			c := Call{Kind: r.Pick("parse", "parse", "new", "new", "svc", "gen", "lex"), In: pool(r), D: Delivery{Mode: "whole"}}
			if r.P(1, 4) {
				c.D = randDelivery(r)
			}
			c.CRLF = r.P(1, 8)
			return c
		}
		spoil := func(c *Call) {
			switch r.Intn(4) {
			case 0:
			case 1:
				if c.Kind != "svc" && c.Kind != "gen" && usable(c) {
					if n := c.Streams(); n > 0 {
						c.D.File = r.Intn(n)
						c.D.Err, c.D.At = errKinds[r.Intn(len(errKinds))], r.Intn(1001)
					}
				}
			case 2:
				if c.Kind == "parse" || c.Kind == "lex" {
					c.Raw = soup(r)
					break
				}
				fallthrough
			case 3:
				c.Dmg = randDamage(r, false)
			}
		}
		for i := 0; i < 10; i++ {
			c := &Case{Prop: "C13", Seed: r.U64()}
			if r.P(1, 2) {
				c.Threads = true
				c.Preempt = []int{3, 10, 50, 300, 2000}[r.Intn(5)]
				for n := 2 + r.Intn(3); n > 0; n-- {
					x := mkCall(true)
					if r.P(1, 4) {
						spoil(&x)
					}
					c.Calls = append(c.Calls, x)
				}
				if r.P(1, 3) {
					// the same service in another version: what is alike by name differs in content
					c.Calls[1].In = c.Calls[0].In
				}
			} else {
				for n := 1 + r.Intn(6); n > 0; n-- {
					x := mkCall(false)
					spoil(&x)
					c.Calls = append(c.Calls, x)
				}
				c.Calls = append(c.Calls, mkCall(false))
			}
			if !try(c) {
				return
			}
		}
	}
	c14 := mk("C14", 2000, 20000)
	c14.Level = "exploration"
	c14.Crash = true
	c14.Rule = "one case = one definition, generated and then cut, bit-flipped, partly deleted, duplicated or with tokens inserted (also many times) at up to four places, or a sequence of random tokens, under one delivery, given to the service parser or, with the intact Go code, to the derivation of the service description; every step of the parser is counted; non-trivial = damaged; distinct by outcome and delivery"
	c14.Assume = append(c14.Assume, fmt.Sprintf("'proportional to its length' is taken as at most %d loop iterations and calls per byte", stepsPerByte))
	c14.Eval = func(x interface{}) *drive.Bad { return evalDamage(x.(*Case)) }
	c14.Search = func(seed uint64, tier string, try func(c interface{}) bool) {
		r := k.NewRand(seed, "c14")
		for i := 0; i < 40; i++ {
			c := Call{Kind: r.Pick("parse", "parse", "parse", "new"), In: pool(r), D: Delivery{Mode: "whole"}}
			if r.P(1, 3) {
				c.D = randDelivery(r)
			}
			c.CRLF = r.P(1, 6)
			switch n := r.Intn(6); {
			case c.Kind == "parse" && n < 2:
				c.Raw = soup(r)
				if r.P(1, 4) {
					c.Dmg = randDamage(r, true)
				}
			case c.Kind == "parse" && n == 2:
				c.Long = pieceNames[r.Intn(len(pieceNames))]
				c.N = []int{3, 40, 300, 2500}[r.Intn(4)]
				if r.P(1, 3) {
					c.Dmg = randDamage(r, false)
				}
			default:
				c.Dmg = randDamage(r, true)
			}
			if !try(&Case{Prop: "C14", Seed: r.U64(), Calls: []Call{c}}) {
				return
			}
		}
	}
	return []*drive.Exp{c11, c12, c13, c14}
}

func smaller(x interface{}) []interface{} {
	c := x.(*Case)
	var rv []interface{}
	add := func(f func(d *Case) bool) {
		d := c.clone()
		if f(d) {
			rv = append(rv, d)
		}
	}
	for i := range c.Calls {
		if len(c.Calls) > 1 && (i < len(c.Calls)-1 || c.Threads && len(c.Calls) > 2) {
			i := i
			add(func(d *Case) bool { d.Calls = append(d.Calls[:i], d.Calls[i+1:]...); return true })
		}
	}
	for i := range c.Calls {
		i := i
		add(func(d *Case) bool {
			d.Calls[i].Small = true
			return !c.Calls[i].Small && c.Calls[i].Raw == "" && c.Calls[i].Long == ""
		})
		add(func(d *Case) bool { d.Calls[i].Kind = "parse"; return c.Calls[i].Kind != "parse" && c.Prop == "C13" })
		add(func(d *Case) bool { d.Calls[i].CRLF = false; return c.Calls[i].CRLF })
		add(func(d *Case) bool { d.Calls[i].N /= 2; return c.Calls[i].N > 1 })
		add(func(d *Case) bool { d.Calls[i].Long = ""; return c.Calls[i].Long != "" })
		add(func(d *Case) bool { d.Calls[i].D.Empty = false; return c.Calls[i].D.Empty })
		add(func(d *Case) bool { d.Calls[i].D.EOF = false; return c.Calls[i].D.EOF })
		add(func(d *Case) bool { d.Calls[i].D.With = false; return c.Calls[i].D.With })
		add(func(d *Case) bool { d.Calls[i].D.Mode = "whole"; return c.Calls[i].D.Mode != "whole" })
		add(func(d *Case) bool { d.Calls[i].D.Err = ""; return c.Calls[i].D.Err != "" && c.Prop != "C12" })
		for j := range c.Calls[i].Dmg {
			j := j
			add(func(d *Case) bool { d.Calls[i].Dmg = append(d.Calls[i].Dmg[:j], d.Calls[i].Dmg[j+1:]...); return true })
			add(func(d *Case) bool { d.Calls[i].Dmg[j].N /= 2; return c.Calls[i].Dmg[j].N > 1 })
		}
		if n := len(c.Calls[i].Raw); n > 1 {
			for w := n / 2; w >= 1; w /= 2 {
				for at := 0; at+w <= n; at += w {
					at, w := at, w
					add(func(d *Case) bool { d.Calls[i].Raw = d.Calls[i].Raw[:at] + d.Calls[i].Raw[at+w:]; return true })
				}
			}
		}
	}
	if c.Threads {
		if !c.Fixed {
			evalInfluence(c)
			d := c.clone()
			d.Fixed, d.Sched = true, append([]k.Sw(nil), lastSched...)
			rv = append(rv, d)
		} else {
			for n := len(c.Sched); n >= 1; n /= 2 {
				for i := 0; i+n <= len(c.Sched) && len(rv) < 400; i += n {
					d := c.clone()
					d.Sched = append(append([]k.Sw(nil), c.Sched[:i]...), c.Sched[i+n:]...)
					rv = append(rv, d)
				}
			}
		}
	}
	return rv
}

var _ = path.Join
