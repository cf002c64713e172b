package rpc

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/teamlint/baron/zz_sim/k"
	"github.com/teamlint/baron/zz_sim/nats"
	"github.com/teamlint/baron/zz_sim/net"
)

// request makes a request of a method which a transport can carry. There are no
// negative zeros in it: they are equal to zeros, but not written like them.
func request(r *k.Rand, m *method, via string, oneofs bool) proto.Message {
	req := m.newReq()
	st := &style{r: r, size: []int{0, 1, 1, 1, 2}[r.Intn(5)], oneof: oneofs}
	switch via {
	case "http":
		st.nan, st.nilb, st.huge = r.P(1, 3), true, true
		st.path, st.query = m.path, m.query
		if len(m.path) > 0 && st.size == 2 {
			st.size = 1
		}
	case "grpc":
		st.nan, st.nilb = true, true
	}
	st.make(req)
	if r.P(1, 60) {
		st.large(req)
	}
	return req
}

var gens int

func (s *service) vias(want ...string) []string {
	var rv []string
	for _, v := range want {
		if s.has(v) {
			rv = append(rv, v)
		}
	}
	return rv
}

// suitable services for a property.
func suitable(prop string) []*service {
	want := []string{"http", "grpc", "nats"}
	switch prop {
	case "C15", "C20":
		want = []string{"http"}
	case "C16":
		want = []string{"grpc", "nats"}
	case "C23":
		want = []string{"http", "grpc"}
	}
	var rv []*service
	for _, s := range services {
		if prop == "C25" && (s.def.Err != "" || !s.plainPaths()) {
			continue
		}
		if s.def.Err == "" && len(s.vias(want...)) > 0 {
			rv = append(rv, s)
		}
	}
	return rv
}

func generate(r *k.Rand, prop string, s *service) *Case {
	c := &Case{Prop: prop, Def: s.def, Seed: r.U64(), Servers: 1, Burst: []int{1, 1, 3, 10}[r.Intn(4)]}
	if r.P(1, 3) {
		c.Preempt = 20 + r.Intn(300)
	}
	c.Odd = prop == "C16" && r.P(1, 50)
	var vias []string
	switch prop {
	case "C15", "C20":
		vias = s.vias("http")
	case "C16":
		vias = s.vias("grpc", "nats")
	case "C23":
		vias = s.vias("http", "grpc")
	default:
		vias = s.vias("http", "grpc", "nats")
	}
	if prop != "C18" && prop != "C24" && r.P(1, 4) {
		c.Servers = 2
	}
	if prop == "C16" && s.has("nats") && r.P(1, 3) {
		c.Other = other(r, s)
	}
	total := 0
	for n := 1 + r.Intn(3); n > 0; n-- {
		cl := Client{Via: vias[r.Intn(len(vias))], Server: r.Intn(c.Servers)}
		cl.Join = r.P(1, 3)
		if cl.Via == "http" && r.P(1, 3) {
			cl.Host = hostPool[r.Intn(len(hostPool))]
		}
		if r.P(1, 3) {
			cl.Start = r.Intn(100)
		}
		names := s.order
		if cl.Via == "http" {
			names = s.bound()
		}
		if prop == "C23" {
			for _, key := range keyPool {
				if r.P(1, 2) {
					cl.Keys = append(cl.Keys, key)
				}
			}
		}
		oneofs := cl.Via != "nats" || prop == "C16" && r.P(1, 30)
		for n := 1 + r.Intn(5); n > 0; n-- {
			m := s.methods[names[r.Intn(len(names))]]
			call := Call{Method: m.name, Resp: r.U64(), Size: []int{0, 1, 1, 2}[r.Intn(4)], Oneof: oneofs}
			req := request(r, m, cl.Via, oneofs)
			call.Req = toText(req)
			if r.P(1, 2) {
				call.At = r.Intn(60)
			}
			if r.P(1, 3) {
				call.Slow = 1 + r.Intn(80)
			}
			// equal requests are answered equally
			for _, o := range append(c.Clients, cl) {
				for _, q := range o.Calls {
					if q.Method == call.Method && q.Req == call.Req {
						call.Resp, call.Size, call.Slow, call.Oneof = q.Resp, q.Size, q.Slow, q.Oneof
					}
				}
			}
			cl.Calls = append(cl.Calls, call)
			total++
		}
		c.Clients = append(c.Clients, cl)
	}
	switch prop {
	case "C15":
		if r.P(1, 2) {
			c.netFaults(r, total)
		}
		c.crashes(r)
		c.badText(r)
	case "C16":
		if r.P(1, 2) {
			c.netFaults(r, total)
			c.natsFaults(r, total)
		}
		c.crashes(r)
		c.badText(r)
	case "C17":
		c.failures(r, s)
	case "C18":
		c.stops(r, s)
	case "C19":
		c.wraps(r, s)
	case "C20":
		c.raws(r, s)
	case "C23":
		c.metadata(r)
	case "C24":
		c.commands(r, s)
		c.crashes(r)
		if r.P(1, 4) {
			c.netFaults(r, total)
		}
	case "C25":
		c.dials(r, s)
	}
	return c
}

// other is a service of another name, if possible with methods of the same name.
func other(r *k.Rand, s *service) *Def {
	var rv, all []*Def
	for _, o := range services {
		if o.def.Err != "" || !o.HasNATS || o.Service.Service == s.Service.Service {
			continue
		}
		all = append(all, o.def)
		for n := range o.methods {
			if s.methods[n] != nil {
				rv = append(rv, o.def)
				break
			}
		}
	}
	if len(rv) == 0 {
		rv = all
	}
	if len(rv) == 0 {
		return nil
	}
	return rv[r.Intn(len(rv))]
}

func (c *Case) each(f func(cl *Client, q *Call)) {
	for i := range c.Clients {
		for j := range c.Clients[i].Calls {
			f(&c.Clients[i], &c.Clients[i].Calls[j])
		}
	}
}

func (c *Case) netFaults(r *k.Rand, total int) {
	http := false
	for _, cl := range c.Clients {
		http = http || cl.Via == "http"
	}
	for n := 1 + r.Intn(4); n > 0; n-- {
		f := net.Fault{N: 1 + r.Intn(total+2), Dir: r.Intn(2)}
		f.At = []int{r.Intn(20), r.Intn(120), r.Intn(400), r.Intn(3000)}[r.Intn(4)]
		switch r.Intn(8) {
		case 0:
			f.Kind = "refuse"
		case 1, 2, 3:
			f.Kind, f.End = "cut", r.Pick("reset", "fin")
			if r.P(1, 4) {
				// what follows the headers does not arrive
				f.Body, f.At = true, r.Intn(2)*r.Intn(3)
			}
		case 4:
			f.Kind = "stall"
			// who is stalled has to give up some time
			c.each(func(cl *Client, q *Call) { q.Timeout = 2000 + r.Intn(3000) })
		case 5, 6:
			f.Kind, f.Ms = "slow", 10+r.Intn(3000)
		default:
			f.Kind, f.Ms = "dup", r.Intn(500)
			if !http {
				continue
			}
		}
		c.Net = append(c.Net, f)
	}
	if r.P(1, 6) {
		c.each(func(cl *Client, q *Call) {
			if r.P(1, 3) {
				q.Timeout = 1 + r.Intn(100)
			}
		})
	}
}

func (c *Case) natsFaults(r *k.Rand, total int) {
	for n := 1 + r.Intn(4); n > 0; n-- {
		f := nats.Fault{N: 1 + r.Intn(2*total+1)}
		switch r.Intn(7) {
		case 0, 1:
			f.Kind = "drop"
		case 2, 3:
			f.Kind, f.Ms = "dup", r.Intn(800)
		case 4, 5:
			f.Kind, f.Ms = "delay", r.Intn(5000)
			if r.P(1, 3) {
				// later than the client waits
				f.Ms = 9000 + r.Intn(4000)
				c.each(func(cl *Client, q *Call) { q.Timeout = 15000 })
			}
		default:
			f.Kind, f.N, f.Ms, f.Len = "cut", 1+r.Intn(4), r.Intn(300), r.Intn(2000)
		}
		c.NATS = append(c.NATS, f)
	}
}

func (c *Case) crashes(r *k.Rand) {
	if !r.P(1, 8) {
		return
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		e := Event{Ms: r.Intn(250), Kind: r.Pick("kill", "restart", "restart", "TERM"), Len: 1 + r.Intn(500), Server: r.Intn(c.Servers)}
		if r.P(1, 4) {
			e.Ms, e.Turn = 0, 1+r.Intn(400)
		}
		c.Events = append(c.Events, e)
	}
}

var failCodes = []int{0, 100, 103, 199, 200, 201, 204, 304, 307, 400, 404, 409, 418, 429, 500, 503, 599}

func (c *Case) failures(r *k.Rand, s *service) {
	c.each(func(cl *Client, q *Call) {
		if r.P(1, 4) {
			return
		}
		if cl.Via == "http" && r.P(1, 3) {
			q.Raw = &Raw{Rule: r.Intn(len(s.methods[q.Method].rules)), Brief: r.P(1, 2), Bad: 1 + r.Intn(10000)}
			return
		}
		if cl.Via != "grpc" && r.P(2, 5) {
			t := &Tamper{What: r.Pick("req", "resp"), Mode: "cut", At: r.Intn(4000)}
			if cl.Via == "http" && r.P(1, 4) {
				t.What, t.At = "status", []int{500, 404, 301, 204, 202, 400, 503}[r.Intn(7)]
			} else if r.P(1, 2) {
				t.Mode = r.Pick("<html>", "[]", "\"x\"", "12", "{\"", "\x00", " ", "\n", "{}{}", "tail", "tail", "tail")
			}
			q.Tamper = t
			return
		}
		kinds := []string{"plain", "wrapped", "code", "headers", "json", "badjson", "status", "canceled", "deadline", "empty", "both", "eof", "long"}
		if cl.Via == "http" {
			kinds = append(kinds, "panic")
		}
		if cl.Via != "nats" {
			kinds = append(kinds, "unencodable")
		}
		q.Fail = kinds[r.Intn(len(kinds))]
		q.Code = failCodes[r.Intn(len(failCodes))]
	})
	// equal requests fail equally; nothing of a failing request is damaged
	seen := map[string]*Call{}
	via := map[string]string{}
	for i := range c.Clients {
		for j := range c.Clients[i].Calls {
			q := &c.Clients[i].Calls[j]
			key := q.Method + " " + q.Req
			if o := seen[key]; o != nil {
				q.Fail, q.Code = o.Fail, o.Code
				if via[key] != c.Clients[i].Via && (q.Fail == "panic" || q.Fail == "unencodable") {
					o.Fail, q.Fail = "plain", "plain"
				}
				if q.Fail != "" {
					q.Tamper, q.Raw = nil, nil
				}
				continue
			}
			seen[key], via[key] = q, c.Clients[i].Via
		}
	}
}

func (c *Case) stops(r *k.Rand, s *service) {
	for _, t := range []string{"http", "grpc", "nats"} {
		if s.has(t) && r.P(1, 5) {
			c.Off = append(c.Off, t)
		}
	}
	c.Debug = s.HasDebug && r.P(1, 3)
	// clients use what there is
	for i := range c.Clients {
		cl := &c.Clients[i]
		if c.off(cl.Via) {
			cl.Early = true
		}
	}
	port := []string{":5050", ":5040", ":5060"}
	for n := r.Intn(4); n > 0; n-- {
		at := []int{r.Intn(5), r.Intn(40), r.Intn(400)}[r.Intn(3)]
		switch r.Intn(6) {
		case 0:
			c.Net = append(c.Net, net.Fault{Kind: "listen", N: 1, Err: r.Pick("EADDRINUSE", "EACCES", "EADDRNOTAVAIL"), Addr: port[r.Intn(3)]})
		case 1, 2:
			c.Net = append(c.Net, net.Fault{Kind: "accept", Ms: 1 + at, Err: r.Pick("EINVAL", "ENOBUFS"), Addr: port[r.Intn(3)]})
		case 3:
			if s.has("nats") {
				c.NATS = append(c.NATS, nats.Fault{Kind: r.Pick("connect", "sub", "close"), N: 1 + r.Intn(3), Ms: 1 + at})
			}
		default:
			e := Event{Ms: at, Kind: r.Pick("INT", "TERM")}
			if r.P(1, 3) {
				e.Ms, e.Turn = 0, 1+r.Intn([]int{10, 30, 300}[r.Intn(3)])
			}
			c.Events = append(c.Events, e)
		}
	}
}

func (c *Case) wraps(r *k.Rand, s *service) {
	for n := 1 + r.Intn(4); n > 0; n-- {
		w := Wrap{Name: fmt.Sprintf("w%d", n), Label: r.P(1, 2)}
		for _, i := range r.Perm(len(s.order)) {
			if r.P(1, 3) {
				w.Except = append(w.Except, s.order[i])
			}
		}
		c.Wraps = append(c.Wraps, w)
	}
	// every method is called
	for i := range c.Clients {
		cl := &c.Clients[i]
		names := s.order
		if cl.Via == "http" {
			names = s.bound()
		}
		cl.Calls = nil
		for _, n := range names {
			q := Call{Method: n, Resp: r.U64(), Size: r.Intn(2), At: r.Intn(10)}
			q.Req = toText(request(r, s.methods[n], cl.Via, false))
			for _, o := range c.Clients {
				for _, p := range o.Calls {
					if p.Method == q.Method && p.Req == q.Req {
						q.Resp, q.Size = p.Resp, p.Size
					}
				}
			}
			cl.Calls = append(cl.Calls, q)
		}
	}
}

// badText makes few requests some with a string which is not UTF-8: what
// cannot be encoded is an error or arrives as it is, but nothing else does.
func (c *Case) badText(r *k.Rand) {
	c.each(func(cl *Client, q *Call) {
		if cl.Via != "nats" && r.P(1, 40) {
			q.Bad = true
		}
	})
}

func (c *Case) raws(r *k.Rand, s *service) {
	used := map[string]bool{}
	for _, n := range s.order {
		for _, ru := range s.methods[n].rules {
			used[ru.verb] = true
		}
	}
	var free []string
	for _, v := range []string{"GET", "PUT", "POST", "DELETE", "PATCH", "OPTIONS", "FROB", "HEAD"} {
		if !used[v] {
			free = append(free, v)
		}
	}
	c.each(func(cl *Client, q *Call) {
		q.Raw = &Raw{Rule: r.Intn(len(s.methods[q.Method].rules)), Decoy: r.P(1, 2), Brief: r.P(1, 2)}
		if len(free) > 0 && r.P(1, 8) {
			q.Raw.Verb = free[r.Intn(len(free))]
		}
		if r.P(1, 4) {
			q.Raw.Type = r.Pick("none", "application/x-www-form-urlencoded", "text/plain", "application/json; charset=utf-8")
		}
		if r.P(1, 8) {
			q.Raw.Path = r.Pick("extra", "case", "slash", "less", "front")
		}
	})
}

// how the address of a server is given
var hostPool = []string{"localhost", "http.example.org", "https-gateway", "httpd", "[::1]", "http://127.0.0.1", "http://http-1.internal"}

var keyPool = []string{"X-Trace-Id", "tenant", "Request_Id", "x-user-name", "AUTH-TOKEN"}

func (c *Case) metadata(r *k.Rand) {
	seen := map[string]bool{}
	c.each(func(cl *Client, q *Call) {
		key := q.Method + " " + q.Req
		if seen[key] {
			q.Method = ""
			return
		}
		seen[key] = true
		q.Ctx = map[string]string{}
		for _, key := range keyPool {
			if r.P(1, 2) {
				v := ""
				if !r.P(1, 12) { // else empty
					for n := 1 + r.Intn(20); n > 0; n-- {
						v += string(rune('!' + r.Intn(94)))
						if r.P(1, 6) {
							v += " "
						}
					}
				}
				q.Ctx[key] = strings.TrimSpace(v)
			}
		}
	})
	for i := range c.Clients {
		var live []Call
		for _, q := range c.Clients[i].Calls {
			if q.Method != "" {
				live = append(live, q)
			}
		}
		c.Clients[i].Calls = live
	}
	if r.P(1, 4) {
		n := 0
		c.each(func(cl *Client, q *Call) { n++ })
		c.netFaults(r, n)
	}
}

var _ protoreflect.Name
