package rpc

import (
	"encoding/json"
	"sort"
	"strings"

	"github.com/teamlint/baron/zz_sim/drive"
	"github.com/teamlint/baron/zz_sim/k"
)

func evaluate(c *Case) *drive.Bad {
	s := find(c.Def.Name)
	if s == nil {
		panic("harness: no service " + c.Def.Name)
	}
	if s.def.Err != "" {
		prop := "C16"
		if strings.Contains(s.def.Proto, "google.api.http") {
			prop = "C15"
		}
		if c.Prop != prop {
			return nil
		}
		return drive.Badf(prop, "no-service", "no working service comes of the definition: %s\n%s", s.def.Err, s.def.Proto)
	}
	if prop, what := s.lacks(); prop != "" {
		switch {
		case prop == c.Prop || c.Prop == "C24" || c.Prop == "C25":
			return drive.Badf(c.Prop, "no-transport", "%s has no %s transport, although it was asked for (transport %s)\n%s", s.Service.Service, what, s.def.Transport, s.def.Proto)
		case c.Servers == 0:
			return nil
		}
	}
	if c.Prop == "C23" {
		seen := map[string]bool{}
		for _, cl := range c.Clients {
			for _, q := range cl.Calls {
				if seen[q.Method+q.Req] {
					return nil
				}
				seen[q.Method+q.Req] = true
			}
		}
	}
	if c.Cmd != nil {
		for _, client := range []bool{false, true} {
			if s.command(client) == nil {
				return drive.Badf(c.Prop, "no-command", "no command (client: %v) was generated for %s", client, s.Service.Service)
			}
		}
		if (&run{c: c, s: s}).clash() {
			return nil
		}
	}
	x := execute(c)
	if c.Burst > 1 || len(x.calls) > 1 {
		drive.Note("concurrent calls")
	}
	for _, cl := range c.Clients {
		drive.Note("client over " + cl.Via)
	}
	return x.judge()
}

// smaller cases.
func smaller(v interface{}) []interface{} {
	c := v.(*Case)
	var rv []interface{}
	add := func(f func(d *Case) bool) {
		d := c.clone()
		if f(d) {
			rv = append(rv, d)
		}
	}
	for i := range c.Clients {
		i := i
		add(func(d *Case) bool {
			d.Clients = append(d.Clients[:i], d.Clients[i+1:]...)
			return len(d.Clients) > 0 || d.Cmd != nil
		})
	}
	for i := range c.Clients {
		for j := range c.Clients[i].Calls {
			i, j := i, j
			add(func(d *Case) bool {
				cl := &d.Clients[i]
				cl.Calls = append(cl.Calls[:j], cl.Calls[j+1:]...)
				return len(cl.Calls) > 0
			})
		}
	}
	add(func(d *Case) bool { d.Net = nil; return c.Net != nil })
	add(func(d *Case) bool { d.NATS = nil; return c.NATS != nil })
	add(func(d *Case) bool { d.Events = nil; return c.Events != nil })
	for i := range c.Net {
		i := i
		add(func(d *Case) bool { d.Net = append(d.Net[:i], d.Net[i+1:]...); return true })
	}
	for i := range c.NATS {
		i := i
		add(func(d *Case) bool { d.NATS = append(d.NATS[:i], d.NATS[i+1:]...); return true })
	}
	for i := range c.Events {
		i := i
		add(func(d *Case) bool { d.Events = append(d.Events[:i], d.Events[i+1:]...); return true })
	}
	for i := range c.Wraps {
		i := i
		add(func(d *Case) bool { d.Wraps = append(d.Wraps[:i], d.Wraps[i+1:]...); return true })
		for j := range c.Wraps[i].Except {
			j := j
			add(func(d *Case) bool {
				w := &d.Wraps[i]
				w.Except = append(w.Except[:j], w.Except[j+1:]...)
				return true
			})
		}
	}
	add(func(d *Case) bool {
		d.Servers = 1
		for i := range d.Clients {
			d.Clients[i].Server = 0
		}
		for i := range d.Events {
			d.Events[i].Server = 0
		}
		return c.Servers > 1
	})
	if c.Cmd != nil {
		for _, n := range drive.SortedKeys(c.Cmd.Env) {
			n := n
			add(func(d *Case) bool { delete(d.Cmd.Env, n); return true })
		}
		for i, a := range c.Cmd.Args {
			i := i
			n := 1
			if strings.HasPrefix(a, "-") && !strings.Contains(a, "=") && !strings.HasSuffix(a, "debug") && i+1 < len(c.Cmd.Args) {
				n = 2
			}
			add(func(d *Case) bool {
				d.Cmd.Args = append(d.Cmd.Args[:i], d.Cmd.Args[i+n:]...)
				return strings.HasPrefix(a, "-") && !c.Cmd.Bad && c.Cmd.Call == nil
			})
		}
	}
	add(func(d *Case) bool { d.Preempt = 0; return c.Preempt > 0 })
	add(func(d *Case) bool { d.Other = nil; return c.Other != nil })
	add(func(d *Case) bool { d.Off = nil; return c.Off != nil })
	add(func(d *Case) bool { d.Debug = false; return c.Debug })
	s := find(c.Def.Name)
	if s == nil || s.def.Err != "" {
		return nil
	}
	for i := range c.Clients {
		i := i
		cl := c.Clients[i]
		add(func(d *Case) bool { d.Clients[i].Start = 0; return cl.Start > 0 })
		add(func(d *Case) bool { d.Clients[i].Host = ""; return cl.Host != "" })
		add(func(d *Case) bool { d.Clients[i].Join = false; return cl.Join })
		for j := range cl.Calls {
			j := j
			q := cl.Calls[j]
			at := func(d *Case) *Call { return &d.Clients[i].Calls[j] }
			add(func(d *Case) bool { at(d).At = 0; return q.At > 0 })
			add(func(d *Case) bool { at(d).Slow = 0; return q.Slow > 0 })
			add(func(d *Case) bool { at(d).Timeout = 0; return q.Timeout > 0 })
			add(func(d *Case) bool { at(d).Size = 0; return q.Size > 0 })
			add(func(d *Case) bool { at(d).Fail = ""; return q.Fail != "" })
			add(func(d *Case) bool { at(d).Bad = false; return q.Bad })
			add(func(d *Case) bool { at(d).Tamper = nil; return q.Tamper != nil })
			add(func(d *Case) bool { at(d).Ctx = nil; return len(q.Ctx) > 0 })
			add(func(d *Case) bool {
				if q.Raw == nil || !q.Raw.Decoy {
					return false
				}
				at(d).Raw.Decoy = false
				return true
			})
			var f map[string]json.RawMessage
			if s == nil || s.def.Err != "" || json.Unmarshal([]byte(q.Req), &f) != nil {
				continue
			}
			m := s.methods[q.Method]
			var names []string
			for n := range f {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				n := n
				if cl.Via == "http" && isPath(m, n) {
					continue
				}
				add(func(d *Case) bool {
					g := map[string]json.RawMessage{}
					for k, v := range f {
						if k != n {
							g[k] = v
						}
					}
					b, _ := json.Marshal(g)
					at(d).Req = string(b)
					return true
				})
			}
		}
	}
	if !c.Fixed {
		lastSched = nil
		execute(c)
		d := c.clone()
		d.Fixed, d.Sched = true, append([]k.Sw(nil), lastSched...)
		rv = append(rv, d)
	} else {
		for n := len(c.Sched); n >= 1; n /= 2 {
			for i := 0; i+n <= len(c.Sched) && len(rv) < 400; i += n {
				d := c.clone()
				d.Sched = append(append([]k.Sw(nil), c.Sched[:i]...), c.Sched[i+n:]...)
				rv = append(rv, d)
			}
		}
	}
	return rv
}

func isPath(m *method, n string) bool {
	for p := range m.path {
		if string(p) == n {
			return true
		}
	}
	return false
}

const real_ = "the code generated from the current tree by the baron built from it: endpoints, HTTP/gRPC/NATS servers and clients, server.Run, signal handling; the protocol buffer code of the Go plugins and the protobuf, JSON and net/http request/response libraries"
const stub = "network, HTTP connection handling, gRPC channel, NATS broker and client, clock, signals, scheduler (simulated); go-kit and gorilla/mux (stand-ins written for this with the same behaviour, as the modules are not available offline); the service implementation (scripted)"

// Exps are the experiments.
func Exps() []*drive.Exp {
	mk := func(id string, quick, thorough, per int, level, rule string) *drive.Exp {
		e := &drive.Exp{ID: id, Quick: quick, Thorough: thorough, Level: level, Rule: rule, Real: real_, Stub: stub, Reset: func() {}, Smaller: smaller,
			New:  func() interface{} { return &Case{} },
			Eval: func(c interface{}) *drive.Bad { return evaluate(c.(*Case)) },
			Assume: []string{
				"the stand-ins for go-kit, gorilla/mux, gRPC and NATS behave like the libraries as far as the generated code uses them",
				"definitions are drawn from a generator that covers the documented features; requests and responses from one that covers all field kinds",
			}}
		e.Search = func(seed uint64, tier string, try func(c interface{}) bool) {
			r := k.NewRand(seed, id)
			if seed%16 == 0 || r.P(1, 16) {
				for _, s := range services {
					if s.broken() && !try(&Case{Prop: id, Def: s.def}) {
						return
					}
				}
			}
			ss := suitable(id)
			if len(ss) == 0 {
				for _, s := range services {
					if s.broken() && !try(&Case{Prop: id, Def: s.def}) {
						return
					}
				}
				return
			}
			for i := 0; i < per; i++ {
				s := ss[r.Intn(len(ss))]
				c := generate(r, id, s)
				n := 0
				for _, cl := range c.Clients {
					n += len(cl.Calls)
				}
				if n == 0 && c.Cmd == nil {
					continue
				}
				if !try(c) {
					return
				}
			}
		}
		return e
	}
	return []*drive.Exp{
		mk("C15", 2000, 100000, 30, "exploration", "one case = one generated service, one or two servers, up to three clients making up to five concurrent HTTP calls each with seeded requests and responses under a seeded schedule, with connections refused, cut at a byte, stalled, slowed or replayed and servers killed or restarted; non-trivial = a fault fired or calls were concurrent; distinct by events and results"),
		mk("C16", 2000, 100000, 30, "exploration", "as C15 over gRPC and NATS, with NATS messages lost, duplicated, delayed and connections cut"),
		mk("C17", 2000, 100000, 30, "fault_enumeration", "one case = one generated service whose handlers fail in thirteen ways, or whose requests or responses are truncated or replaced, called concurrently over all transports; distinct by events and results"),
		mk("C18", 2000, 100000, 30, "fault_enumeration", "one case = one generated server with some of its transports, whose listeners fail at the start or later, whose NATS connection or subscription fails, and which gets signals, in any order, while clients call it; distinct by events and results"),
		mk("C19", 2000, 100000, 20, "exploration", "one case = up to four wrappings with exclusion sets around one generated service, every method called; map iteration order and schedule seeded; distinct by events and results"),
		mk("C20", 2000, 100000, 30, "exploration", "one case = requests put together from the annotation for every binding of a generated service, with misleading values where a field does not belong and verbs that are not annotated; distinct by events and results"),
		mk("C24", 2000, 100000, 30, "exploration", "one case = the generated server command with a seeded mix of flags and environment variables, up to three clients calling it over the transports it is told to serve, the debug listener asked, servers killed, restarted and signalled and connections disturbed; distinct by events and results"),
		mk("C25", 2000, 100000, 30, "fault_enumeration", "one case = the generated client command against the generated server command, a handler failing at a seeded call, a transport nobody serves, or connections disturbed; distinct by events and results"),
		mk("C23", 2000, 100000, 30, "exploration", "one case = concurrent calls over HTTP and gRPC carrying seeded context values under seeded schedules and network faults; distinct by events and results"),
	}
}
