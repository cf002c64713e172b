// Package rpc simulates deployments of generated services.
package rpc

import (
	"bytes"
	rctx "context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/teamlint/baron/zz_sim/cli"
	"github.com/teamlint/baron/zz_sim/context"
	"github.com/teamlint/baron/zz_sim/drive"
	"github.com/teamlint/baron/zz_sim/grpc/codes"
	"github.com/teamlint/baron/zz_sim/grpc/status"
	simhttp "github.com/teamlint/baron/zz_sim/http"
	"github.com/teamlint/baron/zz_sim/k"
	"github.com/teamlint/baron/zz_sim/nats"
	"github.com/teamlint/baron/zz_sim/net"
	"github.com/teamlint/baron/zz_sim/svcreg"
	"github.com/teamlint/baron/zz_third/kit/endpoint"
)

type invocation struct {
	server string
	method string
	req    proto.Message
	match  int // the first call with this method and request, or -1
	trace  []string
	ctx    map[string]string
	at     time.Duration
	in     proto.Message // what the handler was given, and may keep
	out    proto.Message // what it answered, and may keep
	ans    proto.Message // a copy of it
}

type result struct {
	started, done bool
	err           string
	failed        bool
	resp          proto.Message
	msg           proto.Message // the message of the response, which the caller may keep
	req           proto.Message // the message of the request, which the caller may use again
	status        int           // raw
	panic         string
	stack         string
	tampered      bool
	sent          string
	conns         []int
	inbox         []string
	start, end    time.Duration
}

type server struct {
	p     *k.Proc
	n     int
	start time.Duration
	end   time.Duration
	ended bool
}

type happening struct {
	at   time.Duration
	what string // signal, listen, accept, nats, kill
	text string // how the cause reads
	srv  int    // index of the server
	kill bool
}

type flat struct {
	client, call int
	*Call
	m   *method
	req proto.Message
	via string
}

type run struct {
	c     *Case
	s     *service
	w     *k.World
	net   *net.Net
	brk   *nats.Broker
	calls []*flat
	res   []*result
	inv   []*invocation
	stray []string // calls which reached the other service
	srvs  []*server
	cls   []*k.Proc
	other *k.Proc
	evs   []happening
	hung  bool
	pend  int // restarts to come
	lost  map[string]bool
	dupd  int
	hurt  map[int]bool // connections a fault has hit
	caps  time.Duration
	dbg   string // what is wrong with the debug listener
}

var cur *run

type callKey struct{}
type traceKey struct{}

func (x *run) now() time.Duration { return x.w.Elapsed() }

const horizon = 120 * time.Second

// usable says whether a service has a transport.
func (s *service) has(via string) bool {
	switch via {
	case "http":
		return s.HasHTTP && len(s.bound()) > 0
	case "grpc":
		return s.HasGRPC
	}
	return s.HasNATS
}

func (x *run) httpAddr(i int) string {
	if x.c.Cmd != nil {
		return x.c.Cmd.config().HTTPAddr
	}
	if x.c.off("http") {
		return ""
	}
	return fmt.Sprintf(":%d", 5050+1000*i)
}
func (x *run) grpcAddr(i int) string {
	if x.c.Cmd != nil {
		return x.c.Cmd.config().GRPCAddr
	}
	if x.c.off("grpc") {
		return ""
	}
	return fmt.Sprintf(":%d", 5040+1000*i)
}
func (x *run) debugAddr(i int) string { return fmt.Sprintf(":%d", 5060+1000*i) }

// start starts server n.
func (x *run) start(n int) {
	i := len(x.srvs)
	sv := &server{n: n, start: x.now()}
	cfg := svcreg.Config{HTTPAddr: x.httpAddr(n), GRPCAddr: x.grpcAddr(n), NATSAddr: "nats://127.0.0.1:4222", DebugAddr: x.debugAddr(n), Debug: x.c.Debug}
	if x.c.off("nats") {
		cfg.NATSAddr = ""
	}
	args, env := []string{"server"}, cli.Env()
	if x.c.Cmd != nil {
		args = append(args, x.c.Cmd.Args...)
		for n, v := range x.c.Cmd.Env {
			env[n] = v
		}
	}
	sv.p = x.w.Spawn(fmt.Sprintf("s%d", i), args, env, cli.App, true, func(p *k.Proc) {
		defer func() {
			if !p.Killed {
				sv.end, sv.ended = x.now(), true
			}
		}()
		if x.c.Cmd != nil {
			x.s.command(false)()
			return
		}
		x.s.Run(cfg)
	})
	x.srvs = append(x.srvs, sv)
}

// live is the running incarnation of server n.
func (x *run) live(n int) (int, *server) {
	for i := len(x.srvs) - 1; i >= 0; i-- {
		if x.srvs[i].n == n && !x.srvs[i].p.Gone() {
			return i, x.srvs[i]
		}
	}
	return -1, nil
}

func (x *run) happen(h happening) {
	h.at = x.now()
	x.evs = append(x.evs, h)
}

func (x *run) event(e Event) {
	i, sv := x.live(e.Server)
	if sv == nil {
		return
	}
	x.w.Fired["server "+e.Kind]++
	x.w.Mark("world", "event", e.Kind, sv.p.Key)
	switch e.Kind {
	case "INT", "TERM":
		sig := syscall.SIGINT
		if e.Kind == "TERM" {
			sig = syscall.SIGTERM
		}
		killed := sv.p.Signal(sig)
		x.happen(happening{what: "signal", text: sig.String(), srv: i, kill: killed})
		if killed {
			sv.end, sv.ended = x.now(), true
		}
	default:
		x.happen(happening{what: "kill", srv: i, kill: true})
		sv.p.Kill()
		sv.end, sv.ended = x.now(), true
		if e.Kind == "restart" {
			x.pend++
			x.w.In(time.Duration(e.Len)*time.Millisecond, func() { x.pend--; x.start(e.Server) })
		}
	}
}

func (x *run) ready(cl *Client) bool {
	switch cl.Via {
	case "http":
		return x.net.Listening(x.httpAddr(cl.Server))
	case "grpc":
		return x.net.Listening(x.grpcAddr(cl.Server))
	}
	return x.brk.Live(func(p *k.Proc) bool {
		for _, s := range x.srvs {
			if s.p == p {
				return true
			}
		}
		return false
	}) >= len(x.s.order)
}

func (x *run) anyServer() bool {
	for i := 0; i < x.c.Servers; i++ {
		if _, s := x.live(i); s != nil {
			return true
		}
	}
	return x.pend > 0
}

func (x *run) client(i int, ids []int) {
	cl := &x.c.Clients[i]
	k.PauseMs(int64(cl.Start))
	if !cl.Early {
		end := x.now() + 30*time.Second
		x.w.In(30*time.Second, func() {})
		k.Wait(func() bool { return !x.ready(cl) && x.now() < end && x.anyServer() })
	}
	var conn interface{}
	var err error
	func() {
		defer x.caught(ids)
		switch cl.Via {
		case "http":
			addr := at(x.httpAddr(cl.Server))
			if i := strings.LastIndexByte(addr, ':'); cl.Host != "" && i >= 0 {
				addr = cl.Host + addr[i:]
			}
			conn, err = x.s.HTTPClient(addr, cl.Keys)
		case "grpc":
			conn, err = x.s.GRPCClient(at(x.grpcAddr(cl.Server)), cl.Keys)
		default:
			conn, err = x.s.NATSClient("nats://127.0.0.1:4222")
		}
	}()
	if conn == nil && err == nil {
		return
	}
	left := len(ids)
	for _, id := range ids {
		id := id
		k.Go(func() {
			defer func() { left-- }()
			k.PauseMs(int64(x.calls[id].At))
			r := x.res[id]
			r.started, r.start = true, x.now()
			if err != nil {
				r.failed, r.err = true, err.Error()
			} else {
				func() {
					defer x.caught([]int{id})
					x.do(id, conn)
				}()
			}
			r.done, r.end = true, x.now()
		})
	}
	k.Wait(func() bool { return left > 0 })
}

func (x *run) caught(ids []int) {
	if v := recover(); v != nil {
		if k.Control(v) {
			panic(v)
		}
		for _, id := range ids {
			x.res[id].failed = true
			x.res[id].panic = fmt.Sprint(v)
			x.res[id].stack = string(debug.Stack())
		}
	}
}

func (x *run) do(id int, conn interface{}) {
	f, r := x.calls[id], x.res[id]
	ctx := rctx.WithValue(rctx.Background(), callKey{}, id)
	for _, key := range sortedKeys(f.Ctx) {
		ctx = rctx.WithValue(ctx, key, f.Ctx[key])
	}
	if f.Timeout > 0 {
		c2, cancel := context.WithTimeout(ctx, time.Duration(f.Timeout)*time.Millisecond)
		defer cancel()
		ctx = c2
	}
	if f.Raw != nil {
		x.raw(ctx, id)
		return
	}
	req := clone(f.req)
	r.req = req
	out := reflect.ValueOf(conn).MethodByName(f.Method).Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(req)})
	if e := out[1].Interface(); e != nil {
		r.failed, r.err = true, e.(error).Error()
	} else {
		m, ok := out[0].Interface().(proto.Message)
		if ok && m.ProtoReflect().IsValid() {
			r.resp, r.msg = clone(m), m
		}
	}
	x.w.Mark(fmt.Sprintf("call%d", id), "result", fmt.Sprint(r.failed), r.err)
}

func (x *run) raw(ctx rctx.Context, id int) {
	f, r := x.calls[id], x.res[id]
	hr, wrong, err := f.Raw.build(x.s, f.m, at(x.httpAddr(x.c.Clients[f.client].Server)), f.req)
	if err != nil {
		panic("harness: " + err.Error())
	}
	r.sent = hr.Method + " " + hr.URL.RequestURI()
	if wrong {
		r.tampered = true
		x.w.Fired["wrong request"]++
	}
	resp, err := (&simhttp.Transport{}).RoundTrip(hr.WithContext(ctx))
	if err != nil {
		r.failed, r.err = true, err.Error()
		return
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	r.status = resp.StatusCode
	if err != nil {
		r.failed, r.err = true, err.Error()
		return
	}
	if resp.StatusCode != 200 {
		r.failed, r.err = true, fmt.Sprintf("status %d: %s", resp.StatusCode, b)
		return
	}
	m := f.m.newResp()
	if err := fromText(string(b), m); err != nil {
		r.failed, r.err = true, fmt.Sprintf("not a response: %v: %s", err, b)
		return
	}
	r.resp = m
}

func id(ctx rctx.Context) int {
	if n, ok := ctx.Value(callKey{}).(int); ok {
		return n
	}
	return -1
}

// tamper damages what a call sends or receives.
func (x *run) tamper(ctx rctx.Context, what string, b []byte, min int) []byte {
	n := id(ctx)
	if n < 0 || x.calls[n].Tamper == nil || x.calls[n].Tamper.What != what {
		return b
	}
	t := x.calls[n].Tamper
	switch t.Mode {
	case "cut":
		if len(b) <= min {
			return b
		}
		b = b[:min+t.At%(len(b)-min)]
	case "tail":
		if len(b) == 0 {
			return b
		}
		b = append(append([]byte{}, b...), []string{"}", " {}", ",", "\x00", "1", " null"}[t.At%6]...)
	default:
		if min > 0 && len(b) == 0 {
			return b
		}
		b = []byte(t.Mode)
	}
	x.res[n].tampered = true
	x.w.Fired["tampered "+what]++
	return b
}

func (x *run) hooks() {
	svcreg.Handle = x.handle
	svcreg.Wrap = x.wrap
	svcreg.HTTPRequest = func(ctx rctx.Context, r *http.Request) rctx.Context {
		if r.Body != nil {
			b, err := io.ReadAll(r.Body)
			if err != nil {
				panic("harness: " + err.Error())
			}
			b = x.tamper(ctx, "req", b, 1)
			r.Body = io.NopCloser(bytes.NewReader(b))
		}
		return ctx
	}
	svcreg.HTTPResponse = func(ctx rctx.Context, r *http.Response) rctx.Context {
		n := id(ctx)
		if n < 0 || x.calls[n].Tamper == nil {
			return ctx
		}
		t := x.calls[n].Tamper
		switch t.What {
		case "status":
			if r.StatusCode == 200 {
				r.StatusCode = t.At
				r.Status = fmt.Sprintf("%d %s", t.At, http.StatusText(t.At))
				x.res[n].tampered = true
				x.w.Fired["tampered status"]++
			}
		case "resp":
			b, err := io.ReadAll(r.Body)
			if err != nil {
				return ctx
			}
			r.Body.Close()
			r.Body = io.NopCloser(bytes.NewReader(x.tamper(ctx, "resp", b, 0)))
		}
		return ctx
	}
	svcreg.NATSRequest = func(ctx rctx.Context, b []byte) []byte { return x.tamper(ctx, "req", b, 0) }
	svcreg.NATSResponse = func(ctx rctx.Context, b []byte) []byte { return x.tamper(ctx, "resp", b, 0) }
}

// match is the first call of a method with a request.
func (x *run) match(name string, req proto.Message) int {
	for i, f := range x.calls {
		if f.Method == name && proto.Equal(f.req, req) {
			return i
		}
	}
	return -1
}

// response is what the handler answers.
func (x *run) response(i int) proto.Message {
	f := x.calls[i]
	m := f.m.newResp()
	// NATS carries less
	nats, oneof := false, f.Oneof
	for _, g := range x.calls {
		if g.Method == f.Method && proto.Equal(f.req, g.req) && g.via == "nats" {
			nats, oneof = true, f.Oneof && f.via == "nats"
		}
	}
	st := &style{r: k.NewRand(f.Resp, "resp"), size: f.Size, nan: !nats || x.c.Odd, negz: !nats, nilb: !nats, oneof: oneof}
	st.make(m)
	if st.r.P(1, 60) {
		st.huge = !nats && x.c.Prop == "C15"
		st.large(m)
	}
	return m
}

type coder struct {
	msg  string
	code int
}

func (e coder) Error() string   { return e.msg }
func (e coder) StatusCode() int { return e.code }

type headerer struct{ coder }

func (e headerer) Headers() http.Header {
	return http.Header{"X-Problem": {"yes"}, "Retry-After": {"1"}}
}

type marshaler struct {
	coder
	bad bool
}

func (e marshaler) MarshalJSON() ([]byte, error) {
	if e.bad {
		return nil, errors.New("cannot be marshaled")
	}
	return json.Marshal(map[string]interface{}{"code": e.code, "reason": e.msg})
}

func (x *run) handle(ctx rctx.Context, svc, name string, in interface{}) (interface{}, error) {
	p := k.Self()
	req, ok := in.(proto.Message)
	if svc != x.s.Name {
		x.stray = append(x.stray, svc+"."+name+" with "+show(req))
		return find(svc).methods[name].newResp(), nil
	}
	iv := &invocation{server: p.Key, method: name, match: -1, at: x.now(), ctx: map[string]string{}}
	x.inv = append(x.inv, iv)
	x.w.Mark(p.Key, "handle", name, "")
	if t, ok := ctx.Value(traceKey{}).([]string); ok {
		iv.trace = t
	}
	if ok && req.ProtoReflect().IsValid() {
		iv.req, iv.in = clone(req), req
		iv.match = x.match(name, req)
	}
	if x.c.Cmd != nil && x.c.Cmd.Call != nil {
		return x.handleTour(iv)
	}
	for _, c := range x.c.Clients {
		for _, key := range c.Keys {
			for _, form := range []string{http.CanonicalHeaderKey(key), strings.ToLower(key)} {
				if v, ok := ctx.Value(form).(string); ok {
					iv.ctx[form] = v
				}
			}
		}
	}
	if iv.match < 0 {
		return x.s.methods[name].newResp(), nil
	}
	f := x.calls[iv.match]
	if f.Slow > 0 {
		k.PauseMs(int64(x.w.Net().Intn(f.Slow + 1)))
	} else {
		k.Yield()
	}
	if f.Fail != "" {
		x.w.Fired["handler fails: "+f.Fail]++
		return x.failure(f)
	}
	iv.out = x.response(iv.match)
	iv.ans = clone(iv.out)
	return iv.out, nil
}

func (x *run) failure(f *flat) (interface{}, error) {
	msg := fmt.Sprintf("failure of %s %d", f.Method, f.Resp%1000)
	switch f.Fail {
	case "wrapped":
		return nil, fmt.Errorf("wrapped: %w", errors.New(msg))
	case "code":
		return nil, coder{msg, f.Code}
	case "headers":
		return nil, headerer{coder{msg, f.Code}}
	case "json":
		return nil, marshaler{coder{msg, f.Code}, false}
	case "badjson":
		return nil, marshaler{coder{msg, f.Code}, true}
	case "status":
		return nil, status.Error(codes.Code(1+f.Resp%16), msg)
	case "canceled":
		return nil, rctx.Canceled
	case "deadline":
		return nil, rctx.DeadlineExceeded
	case "empty":
		return nil, errors.New("")
	case "both": // an error and a response
		return x.response(x.match(f.Method, f.req)), errors.New(msg)
	case "eof":
		return nil, io.EOF
	case "long":
		return nil, errors.New(strings.Repeat(msg+" ", 100+int(f.Resp%3000)))
	case "panic":
		panic(msg)
	case "unencodable":
		m := f.m.newResp()
		if !poison(m.ProtoReflect(), 0) {
			return nil, errors.New(msg)
		}
		return m, nil
	}
	return nil, errors.New(msg)
}

// poison sets a string which cannot be encoded.
func poison(m protoreflect.Message, from int) bool {
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get((i + from) % fds.Len())
		if fd.Kind() == protoreflect.StringKind && !fd.IsList() && !fd.IsMap() {
			m.Set(fd, protoreflect.ValueOfString("a\xffb"))
			return true
		}
	}
	return false
}

// wrap puts middlewares around the endpoints.
func (x *run) wrap(svc string, eps interface{}) {
	v := reflect.ValueOf(eps)
	for _, wr := range x.c.Wraps {
		wr := wr
		mw := func(label string, next endpoint.Endpoint) endpoint.Endpoint {
			what := wr.Name
			if wr.Label {
				what += "=" + label
			}
			return func(ctx rctx.Context, req interface{}) (interface{}, error) {
				t, _ := ctx.Value(traceKey{}).([]string)
				return next(rctx.WithValue(ctx, traceKey{}, append(append([]string(nil), t...), what)), req)
			}
		}
		name := "WrapAllExcept"
		if wr.Label {
			name = "WrapAllLabeledExcept"
		}
		f := v.MethodByName(name)
		if !f.IsValid() {
			panic("harness: no " + name)
		}
		args := []reflect.Value{}
		if wr.Label {
			args = append(args, reflect.ValueOf(mw).Convert(f.Type().In(0)))
		} else {
			plain := func(next endpoint.Endpoint) endpoint.Endpoint { return mw("", next) }
			args = append(args, reflect.ValueOf(plain).Convert(f.Type().In(0)))
		}
		for _, e := range wr.Except {
			args = append(args, reflect.ValueOf(e))
		}
		f.Call(args)
	}
}

var lastSched []k.Sw

// execute runs a case.
func execute(c *Case) *run {
	s := find(c.Def.Name)
	x := &run{c: c, s: s, lost: map[string]bool{}, hurt: map[int]bool{}}
	cur = x
	ids := make([][]int, len(c.Clients))
	bad := 0
	for i := range c.Clients {
		for j := range c.Clients[i].Calls {
			cl := &c.Clients[i].Calls[j]
			m := s.methods[cl.Method]
			if m == nil {
				panic("harness: no method " + cl.Method)
			}
			req := m.newReq()
			if err := fromText(cl.Req, req); err != nil {
				panic("harness: " + err.Error())
			}
			if cl.Bad && poison(req.ProtoReflect(), int(cl.Resp%7)) {
				bad++
			}
			ids[i] = append(ids[i], len(x.calls))
			x.calls = append(x.calls, &flat{i, j, cl, m, req, c.Clients[i].Via})
			x.res = append(x.res, &result{})
		}
	}
	fs := cli.NewDisk()
	fs.SyncAll()
	w := cli.NewW(fs, c.Seed)
	w.TickBudget = 200000000
	w.Keep = drive.KeepTrace
	w.Burst, w.Preempt, w.Fixed, w.Sched = c.Burst, c.Preempt, c.Fixed, c.Sched
	x.w = w
	if bad > 0 {
		w.Fired["unencodable request"] += bad
	}
	x.net, x.brk = net.Of(w), nats.Of(w)
	x.net.Plan, x.brk.Plan = c.Net, c.NATS
	x.net.OnFail = func(owner *k.Proc, addr string, err error) {
		for i, sv := range x.srvs {
			if sv.p == owner {
				x.happen(happening{what: "listen", text: err.Error(), srv: i})
			}
		}
	}
	x.net.OnDial = func(id_ int, ctx rctx.Context) {
		if n := id(ctx); n >= 0 {
			x.res[n].conns = append(x.res[n].conns, id_)
		}
	}
	x.net.OnHurt = func(conn int) { x.hurt[conn] = true }
	x.brk.OnFail = func(owner *k.Proc, what string, err error) {
		for i, sv := range x.srvs {
			if sv.p == owner {
				x.happen(happening{what: "nats", text: err.Error(), srv: i})
			}
		}
	}
	x.brk.OnRequest = func(ctx rctx.Context, inbox string) {
		if n := id(ctx); n >= 0 {
			x.res[n].inbox = append(x.res[n].inbox, inbox)
		}
	}
	x.brk.OnHurt = func(kind, inbox string) {
		if kind == "dup" {
			x.dupd++
			return
		}
		x.lost[inbox] = true
	}
	x.hooks()
	for i := 0; i < c.Servers; i++ {
		x.start(i)
	}
	if c.Other != nil {
		if o := find(c.Other.Name); o != nil && o.def.Err == "" {
			x.other = w.Spawn("other", []string{"server"}, cli.Env(), cli.App, true, func(p *k.Proc) {
				o.Run(svcreg.Config{NATSAddr: "nats://127.0.0.1:4222"})
			})
		}
	}
	for i := 0; i < len(c.Clients); {
		first, n := i, 1
		for i++; i < len(c.Clients) && c.Clients[i].Join; i++ {
			n++
		}
		x.cls = append(x.cls, w.Spawn(fmt.Sprintf("c%d", first), []string{"client"}, cli.Env(), cli.App, true, func(p *k.Proc) {
			left := n
			for j := first + 1; j < first+n; j++ {
				j := j
				k.Go(func() {
					defer func() { left-- }()
					x.client(j, ids[j])
				})
			}
			x.client(first, ids[first])
			left--
			k.Wait(func() bool { return left > 0 })
		}))
	}
	if c.Cmd != nil && c.Cmd.Call != nil {
		x.startTour()
	} else if c.Cmd != nil {
		x.cls = append(x.cls, w.Spawn("debug", []string{"client"}, cli.Env(), cli.App, true, func(p *k.Proc) { x.debugClient(p) }))
	}
	last := 0
	for i, e := range c.Events {
		e := e
		if e.Turn > 0 {
			w.Spawn(fmt.Sprintf("e%d", i), []string{"event"}, cli.Env(), cli.App, true, func(p *k.Proc) {
				for n := 0; n < e.Turn; n++ {
					k.Yield()
				}
				x.event(e)
			})
			continue
		}
		if e.Ms > last {
			last = e.Ms
		}
		w.In(time.Duration(e.Ms)*time.Millisecond, func() { x.event(e) })
	}
	for _, f := range c.Net {
		if f.Kind == "accept" && f.Ms > last {
			last = f.Ms
		}
	}
	for _, f := range c.NATS {
		if f.Kind == "close" && f.Ms > last {
			last = f.Ms + 10 // after the connection was made
		}
	}
	w.Spawn("ctl", []string{"ctl"}, cli.Env(), cli.App, true, func(p *k.Proc) {
		busy := func() bool {
			for _, q := range x.cls {
				if !q.Gone() {
					return true
				}
			}
			return false
		}
		w.In(horizon, func() {})
		k.Wait(func() bool { return busy() && x.now() < horizon })
		if busy() {
			x.hung = true
			for _, q := range x.cls {
				if !q.Gone() {
					q.Kill()
				}
			}
		}
		if c.Prop == "C18" {
			if d := time.Duration(last)*time.Millisecond - x.now(); d > 0 {
				k.Pause(d)
			}
			k.Pause(8 * time.Second)
		} else {
			k.Pause(time.Second)
		}
		for x.pend > 0 {
			k.Pause(time.Second)
		}
		x.caps = x.now()
		if x.other != nil && !x.other.Gone() {
			x.other.Kill()
		}
		for _, sv := range x.srvs {
			if !sv.p.Gone() {
				sv.p.Kill()
			}
		}
	})
	w.Run()
	drive.Count(w)
	if !c.Fixed {
		lastSched = w.SwLog
	}
	if w.Harness != "" {
		panic("harness: " + w.Harness)
	}
	for i, r := range x.res {
		drive.Mix(fmt.Sprint(i, r.done, r.failed, r.err, r.start, r.end, show(r.resp)))
	}
	for _, iv := range x.inv {
		drive.Mix(fmt.Sprint(iv.server, iv.method, iv.match, iv.trace))
	}
	return x
}

func sortedKeys(m map[string]string) []string { return drive.SortedKeys(m) }
