package rpc

import (
	rctx "context"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/teamlint/baron/zz_sim/cli"
	"github.com/teamlint/baron/zz_sim/drive"
	simhttp "github.com/teamlint/baron/zz_sim/http"
	"github.com/teamlint/baron/zz_sim/k"
	"github.com/teamlint/baron/zz_sim/svcreg"
)

// Mains are the generated commands by their path below zz_svc.
var Mains map[string]func()

// Cmd is how the generated server command is called.
type Cmd struct {
	Args []string          `json:"args,omitempty"`
	Env  map[string]string `json:"env,omitempty"`
	Bad  bool              `json:"bad,omitempty"` // with a flag there is not
	Call *Dial             `json:"call,omitempty"`
}

// Dial is how the generated client command is called.
type Dial struct {
	Args []string `json:"args,omitempty"`
	Fail int      `json:"fail,omitempty"` // the handler fails at this call
	Kind string   `json:"kind,omitempty"` // how
	Down string   `json:"down,omitempty"` // a transport nobody serves
}

// command is the generated command of a service, or nil.
func (s *service) command(client bool) func() {
	best := ""
	for p := range Mains {
		if !strings.HasPrefix(p, s.def.Name+"/") || strings.HasSuffix(p, "-client") != client {
			continue
		}
		if best == "" || len(p) < len(best) || len(p) == len(best) && p < best {
			best = p
		}
	}
	return Mains[best]
}

// config is what the command line and the environment say: flags have priority
// over the environment, which has priority over the defaults.
func (m *Cmd) config() svcreg.Config {
	c := svcreg.Config{DebugAddr: ":5060"}
	env := func(name string, v *string) {
		if e := m.Env[name]; e != "" {
			*v = e
		}
	}
	if p := m.Env["PORT"]; p != "" {
		c.HTTPAddr = ":" + p
	}
	env("HTTP_ADDR", &c.HTTPAddr)
	env("GRPC_ADDR", &c.GRPCAddr)
	env("NATS_ADDR", &c.NATSAddr)
	env("DEBUG_ADDR", &c.DebugAddr)
	c.Debug = strings.EqualFold(m.Env["DEBUG"], "true")
	for i := 0; i < len(m.Args); i++ {
		n, v, has := strings.Cut(strings.TrimLeft(m.Args[i], "-"), "=")
		if n == "debug" {
			c.Debug = !has || v == "true"
			continue
		}
		if !has && i+1 < len(m.Args) {
			i++
			v = m.Args[i]
		}
		switch n {
		case "http.addr":
			c.HTTPAddr = v
		case "grpc.addr":
			c.GRPCAddr = v
		case "nats.addr":
			c.NATSAddr = v
		case "debug.addr":
			c.DebugAddr = v
		}
	}
	return c
}

// at is where a client finds what listens on an address.
func at(addr string) string {
	if i := strings.LastIndex(addr, ":"); i >= 0 {
		addr = addr[i:]
	}
	return "127.0.0.1" + addr
}

func flagForm(r *k.Rand, name, v string) []string {
	dash := r.Pick("-", "--")
	if r.P(1, 2) {
		return []string{dash + name, v}
	}
	return []string{dash + name + "=" + v}
}

// commands chooses how the server command is called.
func (c *Case) commands(r *k.Rand, s *service) {
	m := &Cmd{Env: map[string]string{}}
	ports := r.Perm(9)
	n := 0
	addr := func() string {
		p := 5050 + 1111*ports[n%len(ports)]
		n++
		return fmt.Sprintf("%s:%d", r.Pick("", "", "", "127.0.0.1", "0.0.0.0", "localhost"), p)
	}
	url := func() string {
		n++
		u := fmt.Sprintf("%snats%d:%d", r.Pick("nats://", "nats://", "", "", "tls://", "nats://user:pa55@", "nats://t0ken@"), n, 4222+r.Intn(2))
		if r.P(1, 6) {
			u += fmt.Sprintf(",nats://other%d:4222", n)
		}
		return u
	}
	for _, t := range []struct {
		flag, env string
		make      func() string
	}{{"http.addr", "HTTP_ADDR", addr}, {"grpc.addr", "GRPC_ADDR", addr}, {"nats.addr", "NATS_ADDR", url}, {"debug.addr", "DEBUG_ADDR", addr}} {
		if r.P(1, 2) {
			v := t.make()
			if r.P(1, 8) {
				v = ""
			}
			m.Env[t.env] = v
		}
		if t.env == "HTTP_ADDR" && r.P(1, 3) {
			m.Env["PORT"] = strings.TrimPrefix(at(addr()), "127.0.0.1:")
		}
		for r.P(1, 2) && n < 8 {
			v := t.make()
			if r.P(1, 8) && t.flag != "debug.addr" {
				v = ""
			}
			m.Args = append(m.Args, flagForm(r, t.flag, v)...)
		}
	}
	if r.P(1, 3) {
		m.Env["DEBUG"] = r.Pick("true", "TRUE", "True", "false", "", "tRuE", "1", "t", "yes", "on", "0", "no", "off", "untrue", "true!")
	}
	if r.P(1, 3) {
		m.Args = append(m.Args, r.Pick("-debug", "--debug", "-debug=true", "-debug=false"))
	}
	if r.P(1, 25) {
		m.Bad = true
		m.Args = append(m.Args, r.Pick("-http", "-http.address=:1", "--nope", "-debug=perhaps", "-grpc.addr"))
	}
	c.Cmd = m
	cfg := m.config()
	for _, t := range []struct{ via, addr string }{{"http", cfg.HTTPAddr}, {"grpc", cfg.GRPCAddr}, {"nats", cfg.NATSAddr}} {
		if t.addr == "" {
			c.Off = append(c.Off, t.via)
		}
	}
	for i := range c.Clients {
		cl := &c.Clients[i]
		if c.off(cl.Via) || m.Bad {
			cl.Early = true
		}
	}
}

// listeners are the addresses a server has to listen on, and the NATS servers
// it has to connect to.
func (x *run) listeners() (addrs, urls []string) {
	cfg := x.c.Cmd.config()
	if cfg.HTTPAddr != "" && x.s.has("http") {
		addrs = append(addrs, cfg.HTTPAddr)
	}
	if cfg.GRPCAddr != "" && x.s.has("grpc") {
		addrs = append(addrs, cfg.GRPCAddr)
	}
	if cfg.Debug && x.s.HasDebug {
		addrs = append(addrs, cfg.DebugAddr)
	}
	if cfg.NATSAddr != "" && x.s.has("nats") {
		urls = append(urls, cfg.NATSAddr)
	}
	sort.Strings(addrs)
	return
}

// clash says whether two listeners would need the same port.
func (x *run) clash() bool {
	seen := map[string]bool{}
	a, _ := x.listeners()
	for _, s := range a {
		if seen[at(s)] {
			return true
		}
		seen[at(s)] = true
	}
	return false
}

// debugClient looks whether the debug listener answers.
func (x *run) debugClient(p *k.Proc) {
	cfg := x.c.Cmd.config()
	if !cfg.Debug || !x.s.HasDebug {
		return
	}
	end := x.now() + 20*time.Second
	x.w.In(20*time.Second, func() {})
	k.Wait(func() bool { return !x.net.Listening(cfg.DebugAddr) && x.now() < end && x.anyServer() })
	r, err := http.NewRequest("GET", "http://"+at(cfg.DebugAddr)+"/debug/pprof/symbol", nil)
	if err != nil {
		panic("harness: " + err.Error())
	}
	resp, err := (&simhttp.Transport{}).RoundTrip(r)
	if err != nil {
		x.dbg = err.Error()
		return
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		x.dbg = err.Error()
	} else if resp.StatusCode != 200 || !strings.Contains(string(b), "num_symbols") {
		x.dbg = fmt.Sprintf("status %d: %s", resp.StatusCode, short(string(b)))
	}
}

func diff(got, want []string) (more, less []string) {
	n := map[string]int{}
	for _, s := range got {
		n[s]++
	}
	for _, s := range want {
		if n[s]--; n[s] < 0 {
			less = append(less, s)
		}
	}
	for _, s := range got {
		if n[s] > 0 {
			more = append(more, s)
			n[s] = 0
		}
	}
	return
}

func (x *run) how() string {
	var env []string
	for _, n := range sortedKeys(x.c.Cmd.Env) {
		env = append(env, n+"="+x.c.Cmd.Env[n])
	}
	return fmt.Sprintf("the server command of %s (transport %s), called with arguments %q and environment %q,", x.s.Service.Service, x.s.def.Transport, x.c.Cmd.Args, env)
}

// judgeCmd looks at what the server command served.
func (x *run) judgeCmd() *drive.Bad {
	prop := x.c.Prop
	wantA, wantU := x.listeners()
	for i, sv := range x.srvs {
		var gotA, gotU []string
		for _, o := range x.net.Log {
			if o.Owner == sv.p {
				gotA = append(gotA, o.Addr)
			}
		}
		for _, o := range x.brk.Log {
			if o.Owner == sv.p {
				gotU = append(gotU, o.URL)
			}
		}
		log := strings.TrimSpace(sv.p.Stderr.String() + sv.p.Stdout.String())
		if x.c.Cmd.Bad {
			if len(gotA)+len(gotU) > 0 {
				return drive.Badf(prop, "bad-flag-served", "%s serves %v %v; its output:\n%s", x.how(), gotA, gotU, log)
			}
			if !sv.ended || sv.p.Code == 0 {
				return drive.Badf(prop, "bad-flag-accepted", "%s does not fail; its output:\n%s", x.how(), log)
			}
			continue
		}
		ev := false
		for _, e := range x.evs {
			ev = ev || e.srv == i
		}
		moreA, lessA := diff(gotA, wantA)
		moreU, lessU := diff(gotU, wantU)
		if len(moreA)+len(moreU) > 0 {
			return drive.Badf(prop, "serves-too-much", "%s listens on %q, connects to NATS at %q, not just %q and %q; its output:\n%s", x.how(), gotA, gotU, wantA, wantU, log)
		}
		if ev {
			continue
		}
		if sv.ended {
			return drive.Badf(prop, "command-ends", "%s ends although nothing happened; its output:\n%s", x.how(), log)
		}
		if x.caps-sv.start < time.Second {
			continue
		}
		if len(lessA)+len(lessU) > 0 {
			return drive.Badf(prop, "serves-too-little", "%s listens on %q, connects to NATS at %q, not %q and %q; its output:\n%s", x.how(), gotA, gotU, wantA, wantU, log)
		}
	}
	if x.dbg != "" && !x.c.Cmd.Bad && len(x.evs) == 0 && len(x.hurt) == 0 {
		return drive.Badf(prop, "no-debug", "%s does not serve debugging: %s", x.how(), x.dbg)
	}
	return nil
}

// The client command calls all methods over all transports, in order.

func (s *service) plainPaths() bool {
	for _, m := range s.methods {
		fds := m.md.Input().Fields()
		for n := range m.path {
			fd := fds.ByName(n)
			if fd == nil || fd.Kind() == protoreflect.StringKind || fd.Kind() == protoreflect.BytesKind {
				return false
			}
		}
	}
	return true
}

// tour is what the client command calls.
func (x *run) tour() (vias, names []string) {
	for _, via := range []string{"grpc", "http", "nats"} {
		if !x.s.has(via) {
			continue
		}
		ns := x.s.order
		if via == "http" {
			ns = x.s.bound()
		}
		for _, n := range ns {
			vias, names = append(vias, via), append(names, n)
		}
	}
	return
}

func (c *Case) dials(r *k.Rand, s *service) {
	c.Clients, c.Servers = nil, 1
	m := &Cmd{Env: map[string]string{}, Call: &Dial{}}
	c.Cmd = m
	for _, t := range []struct {
		via, flag string
		def       string
	}{{"http", "http.addr", ":5050"}, {"grpc", "grpc.addr", ":5040"}, {"nats", "nats.addr", ":4222"}} {
		if !s.has(t.via) {
			continue
		}
		a, served := t.def, true
		if r.P(1, 10) && m.Call.Down == "" && t.via != "nats" {
			m.Call.Down, served = t.via, false
		}
		if r.P(1, 2) {
			a = fmt.Sprintf(":%d", map[string]int{"http": 8080, "grpc": 8081, "nats": 4333}[t.via])
			host := r.Pick("", "127.0.0.1", "localhost", "svc.example.org")
			if t.via == "http" && r.P(1, 2) {
				host = hostPool[r.Intn(len(hostPool))]
			}
			if t.via == "nats" {
				host = r.Pick("", "nats://", "nats://user:pa55@") + host
			}
			m.Call.Args = append(m.Call.Args, flagForm(r, t.flag, host+a)...)
		}
		if served {
			m.Args = append(m.Args, "-"+t.flag+"="+a)
		}
	}
	x := &run{c: c, s: s}
	_, names := x.tour()
	if r.P(1, 3) {
		m.Call.Fail = 1 + r.Intn(len(names))
		m.Call.Kind = r.Pick("plain", "code", "status", "slow", "deadline", "canceled", "eof", "empty", "long")
	}
	if r.P(1, 4) {
		c.netFaults(r, len(names))
		var keep = c.Net[:0]
		for _, f := range c.Net {
			if f.Kind != "stall" && f.Kind != "dup" {
				keep = append(keep, f)
			}
		}
		c.Net = keep
	}
}

// handleTour answers the client command.
func (x *run) handleTour(iv *invocation) (interface{}, error) {
	n := len(x.inv)
	k.Yield()
	if d := x.c.Cmd.Call; d.Fail == n {
		x.w.Fired["handler fails: "+d.Kind]++
		switch d.Kind {
		case "code":
			return nil, coder{"failure on the way", 409}
		case "slow": // NATS requests give up after ten seconds, the others wait
			k.PauseMs(15000)
			return x.s.methods[iv.method].newResp(), nil
		case "deadline", "canceled", "eof", "empty", "long", "status":
			return x.failure(&flat{Call: &Call{Method: iv.method, Fail: d.Kind}, m: x.s.methods[iv.method]})
		}
		return nil, fmt.Errorf("failure on the way")
	}
	return x.s.methods[iv.method].newResp(), nil
}

func (x *run) startTour() {
	d := x.c.Cmd.Call
	x.cls = append(x.cls, x.w.Spawn("tour", append([]string{"client"}, d.Args...), cli.Env(), cli.App, true, func(p *k.Proc) {
		// when the server is ready
		a, _ := x.listeners()
		end := x.now() + 30*time.Second
		x.w.In(30*time.Second, func() {})
		k.Wait(func() bool {
			if x.now() >= end {
				return false
			}
			for _, s := range a {
				if !x.net.Listening(s) {
					return true
				}
			}
			return x.s.has("nats") && !x.ready(&Client{Via: "nats"})
		})
		x.s.command(true)()
	}))
}

func (x *run) judgeTour() *drive.Bad {
	prop := x.c.Prop
	d := x.c.Cmd.Call
	vias, names := x.tour()
	p := x.cls[0]
	log := strings.TrimSpace(p.Stderr.String() + p.Stdout.String())
	what := fmt.Sprintf("the client command of %s (transport %s), called with arguments %q,", x.s.Service.Service, x.s.def.Transport, d.Args)
	if p.Panic != "" {
		return drive.Badf(prop, "client-crash", "%s crashes: %s\n%s", what, p.Panic, short(p.Stack))
	}
	end := len(names) // calls that reach a handler
	fails := false
	for i, v := range vias {
		if v == d.Down {
			end, fails = i, true
			break
		}
	}
	if d.Fail > 0 && d.Fail <= end && (d.Kind != "slow" || vias[d.Fail-1] == "nats") {
		end, fails = d.Fail, true
	}
	var got []string
	for _, iv := range x.inv {
		got = append(got, iv.method)
		if iv.req != nil && !proto.Equal(iv.req, x.s.methods[iv.method].newReq()) {
			// an empty request may arrive with defaults written out
			drive.Note("request of the client command not empty")
		}
	}
	hurt := len(x.hurt) > 0
	if x.hung || !p.Exited {
		if hurt {
			return nil
		}
		return drive.Badf(prop, "client-hangs", "%s does not end; its output:\n%s", what, short(log))
	}
	for i, g := range got {
		if i >= end || g != names[i] {
			return drive.Badf(prop, "wrong-call", "%s calls %v, expected %v; its output:\n%s", what, got, names[:end], short(log))
		}
	}
	switch {
	case hurt:
		if p.Code == 0 && len(got) < len(names) {
			return drive.Badf(prop, "failure-hidden", "%s exits with 0 after %v of %v; its output:\n%s", what, got, names, short(log))
		}
	case fails && p.Code == 0:
		return drive.Badf(prop, "failure-hidden", "%s exits with 0 although call %d fails; its output:\n%s", what, end, short(log))
	case !fails && p.Code != 0:
		return drive.Badf(prop, "client-fails", "%s exits with %d; its output:\n%s", what, p.Code, short(log))
	case len(got) < end:
		return drive.Badf(prop, "calls-missing", "%s calls %v, expected %v; its output:\n%s", what, got, names[:end], short(log))
	}
	return nil
}

var _ rctx.Context
