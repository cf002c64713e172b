// Package net is the simulated network: listeners and stream connections
// between simulated processes, with delays and planned faults.
package net

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	rnet "net"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/teamlint/baron/zz_sim/k"
)

// Fault is one planned disturbance.
//
//	refuse   connection N is refused
//	cut      connection N breaks after At bytes in direction Dir (0: to the
//	         server), with End "reset" or "fin"
//	stall    ... delivers nothing more after At bytes
//	slow     connection N takes Ms milliseconds longer in direction Dir
//	dup      what connection N carries to the server arrives a second time on
//	         another connection, whose answers nobody sees
//	listen   the N-th attempt to listen fails with Err
//	accept   the N-th accept fails with Err (temporary or not)
type Fault struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	Dir  int    `json:"dir,omitempty"`
	At   int    `json:"at,omitempty"`
	Body bool   `json:"body,omitempty"` // At counts from the end of the HTTP headers
	Ms   int    `json:"ms,omitempty"`
	End  string `json:"end,omitempty"`
	Err  string `json:"err,omitempty"`
	Addr string `json:"addr,omitempty"` // listen, accept: on this address
}

// Net is the network of one world.
type Net struct {
	w       *k.World
	Plan    []Fault
	ls      map[string]*Listener
	Dials   int
	Listens map[string]int
	Accepts map[string]int
	Conns   []*Conn
	Log     []Opened
	OnFail  func(owner *k.Proc, addr string, err error) // a listener failed for good
	OnDial  func(conn int, ctx context.Context)
	OnHurt  func(conn int) // a fault has hit a connection
}

// Opened is a listener somebody opened, or tried to.
type Opened struct {
	Owner *k.Proc
	Addr  string
}

// Of is the network of a world.
func Of(w *k.World) *Net {
	n, _ := w.Ext["net"].(*Net)
	if n == nil {
		n = &Net{w: w, ls: map[string]*Listener{}, Listens: map[string]int{}, Accepts: map[string]int{}}
		w.Ext["net"] = n
	}
	return n
}

func cur() (*Net, *k.Proc) {
	p := k.Self()
	if p == nil {
		return nil, nil
	}
	return Of(p.W), p
}

var errs = map[string]error{
	"EADDRINUSE": syscall.EADDRINUSE, "EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE, "ECONNABORTED": syscall.ECONNABORTED,
	"EINVAL": syscall.EINVAL, "EADDRNOTAVAIL": syscall.EADDRNOTAVAIL, "ENOBUFS": syscall.ENOBUFS, "ECONNREFUSED": syscall.ECONNREFUSED,
}

func (n *Net) fault(kind string, num int, addr string) *Fault {
	for i := range n.Plan {
		f := &n.Plan[i]
		if f.Kind == kind && f.N == num && (f.Addr == "" || addr == "" || f.Addr == addr) {
			return f
		}
	}
	return nil
}

func (n *Net) fired(f *Fault) {
	what := f.Kind
	if f.End != "" {
		what += " " + f.End
	}
	if f.Err != "" {
		what += " " + f.Err
	}
	n.w.Fired["net: "+what]++
	n.w.Mark("net", "fault", what, fmt.Sprint(f.N))
	switch f.Kind {
	case "refuse", "cut", "stall":
		if n.OnHurt != nil {
			n.OnHurt(f.N)
		}
	}
}

func port(addr string) string {
	if i := strings.LastIndex(addr, ":"); i >= 0 {
		return addr[i:]
	}
	return addr
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func opErr(op, a string, err error) error {
	if _, ok := err.(syscall.Errno); ok {
		name := map[string]string{"listen": "bind", "accept": "accept", "dial": "connect", "read": "read", "write": "write"}[op]
		err = os.NewSyscallError(name, err)
	}
	return &rnet.OpError{Op: op, Net: "tcp", Addr: addr(a), Err: err}
}

// Listener is a listening socket.
type Listener struct {
	n       *Net
	addr    string
	owner   *k.Proc
	backlog []*Conn
	closed  bool
	broken  error // it failed while nobody was looking
	ready   bool
}

// Listen opens a listening socket.
func Listen(network, address string) (rnet.Listener, error) {
	n, p := cur()
	if n == nil {
		return nil, errors.New("simnet: no world")
	}
	k.Yield()
	a := port(address)
	n.Listens[a]++
	n.Log = append(n.Log, Opened{p, address})
	if f := n.fault("listen", n.Listens[a], a); f != nil {
		n.fired(f)
		err := opErr("listen", address, errs[f.Err])
		if n.OnFail != nil {
			n.OnFail(p, a, err)
		}
		return nil, err
	}
	if l := n.ls[a]; l != nil && !l.closed && !l.owner.Gone() {
		err := opErr("listen", address, syscall.EADDRINUSE)
		if n.OnFail != nil {
			n.OnFail(p, a, err)
		}
		return nil, err
	}
	l := &Listener{n: n, addr: a, owner: p}
	n.ls[a] = l
	n.w.Mark(p.Key, "listen", a, "")
	for i := range n.Plan {
		f := &n.Plan[i]
		if f.Kind == "accept" && f.Ms > 0 && (f.Addr == "" || f.Addr == a) {
			// fails at a time, whoever connects
			n.w.In(time.Duration(f.Ms)*time.Millisecond, func() {
				if !l.closed && !l.owner.Gone() && l.broken == nil {
					n.fired(f)
					l.broken = opErr("accept", address, errs[f.Err])
					if n.OnFail != nil {
						n.OnFail(p, a, l.broken)
					}
				}
			})
		}
	}
	return l, nil
}

// Listening says whether somebody listens on an address.
func (n *Net) Listening(address string) bool {
	l := n.ls[port(address)]
	return l != nil && !l.closed && !l.owner.Gone() && l.broken == nil
}

// Accept waits for a connection.
func (l *Listener) Accept() (rnet.Conn, error) {
	k.Wait(func() bool { return len(l.backlog) == 0 && !l.closed && l.broken == nil })
	if l.broken != nil {
		return nil, l.broken
	}
	if l.closed {
		return nil, opErr("accept", l.addr, rnet.ErrClosed)
	}
	l.n.Accepts[l.addr]++
	if f := l.n.fault("accept", l.n.Accepts[l.addr], l.addr); f != nil && f.Ms == 0 {
		l.n.fired(f)
		err := opErr("accept", l.addr, errs[f.Err])
		if ne, ok := err.(rnet.Error); !ok || !ne.Temporary() {
			l.broken = err
			if l.n.OnFail != nil {
				l.n.OnFail(l.owner, l.addr, err)
			}
		}
		return nil, err
	}
	c := l.backlog[0]
	l.backlog = l.backlog[1:]
	c.owner = l.owner
	l.n.w.Mark(l.owner.Key, "accept", l.addr, fmt.Sprint(c.id))
	return c, nil
}

// Close closes the socket.
func (l *Listener) Close() error {
	if l.closed {
		return opErr("close", l.addr, rnet.ErrClosed)
	}
	l.closed = true
	for _, c := range l.backlog {
		c.out.reset()
	}
	return nil
}

func (l *Listener) Addr() rnet.Addr { return addr("127.0.0.1" + l.addr) }

type chunk struct {
	at   time.Time
	data []byte
	end  error
}

// pipe is one direction of a connection.
type pipe struct {
	n      *Net
	name   string
	q      []chunk
	last   time.Time
	sent   int
	cut    int // break after so many bytes (-1: never)
	body   bool
	tail   []byte // the last bytes, while the end of the headers is looked for
	end    string
	stall  bool
	f      *Fault
	extra  time.Duration
	dead   error // nothing can be sent any more
	copyTo *pipe
	writer *k.Proc
	shut   bool
}

func (p *pipe) push(b []byte, end error) {
	r := p.n.w.Net()
	d := time.Duration(r.Intn(4000))*time.Microsecond + p.extra
	if r.P(1, 12) {
		d += time.Duration(r.Intn(200)) * time.Millisecond
	}
	at := p.n.w.Peek().Add(d)
	if at.Before(p.last) {
		at = p.last
	}
	p.last = at
	p.q = append(p.q, chunk{at, append([]byte(nil), b...), end})
	// someone may be waiting for it
	p.n.w.In(at.Sub(p.n.w.Peek()), func() {})
}

// write takes what a process sends.
func (p *pipe) write(b []byte) (int, error) {
	if p.dead != nil {
		return 0, p.dead
	}
	if p.shut {
		return 0, opErr("write", p.name, rnet.ErrClosed)
	}
	p.n.w.Mark(p.name, "send", fmt.Sprintf("%d at %d", len(b), p.sent), "")
	if p.copyTo != nil {
		p.copyTo.write(b)
	}
	if p.body {
		if i := bytes.Index(append(p.tail, b...), []byte("\r\n\r\n")); i >= 0 {
			p.body, p.cut = false, p.sent-len(p.tail)+i+4+p.f.At
		} else {
			p.tail = append(p.tail, b...)
			if n := len(p.tail); n > 3 {
				p.tail = append([]byte(nil), p.tail[n-3:]...)
			}
		}
	}
	left := b
	for len(left) > 0 {
		m := len(left)
		if m > 1 && p.n.w.Net().P(1, 6) {
			m = 1 + p.n.w.Net().Intn(m-1)
		}
		if p.cut >= 0 && p.sent+m >= p.cut {
			m = p.cut - p.sent
			if m > 0 {
				p.push(left[:m], nil)
				p.sent += m
			}
			p.n.fired(p.f)
			switch {
			case p.stall:
			case p.end == "fin":
				p.push(nil, io.EOF)
			default:
				p.push(nil, syscall.ECONNRESET)
			}
			p.cut = -1
			if p.stall || p.end == "fin" {
				p.dead = io.ErrClosedPipe // swallowed, see below
			} else {
				p.dead = opErr("write", p.name, syscall.ECONNRESET)
			}
			if p.stall {
				p.dead = nil
				p.cut = -2
			}
			return len(b), nil
		}
		if p.cut == -2 {
			return len(b), nil // into the void
		}
		p.push(left[:m], nil)
		p.sent += m
		left = left[m:]
	}
	return len(b), nil
}

func (p *pipe) close() {
	if p.shut {
		return
	}
	p.shut = true
	if p.copyTo != nil {
		p.copyTo.close()
	}
	if p.dead == nil && p.cut != -2 {
		p.push(nil, io.EOF)
	}
}

func (p *pipe) reset() {
	if !p.shut && p.dead == nil && p.cut != -2 {
		p.push(nil, syscall.ECONNRESET)
		p.shut = true
	}
}

func (p *pipe) ready() bool {
	if len(p.q) > 0 && !p.q[0].at.After(p.n.w.Peek()) {
		return true
	}
	return len(p.q) == 0 && !p.shut && p.writer != nil && p.writer.Gone()
}

// Conn is one end of a connection.
type Conn struct {
	n       *Net
	id      int
	in, out *pipe
	owner   *k.Proc
	closed  bool
	Ctx     context.Context // reading and writing end when it does
	local   string
	remote  string
	rdl     time.Time
	wdl     time.Time
}

// DialTimeout and Dial open a connection.
func Dial(network, address string) (rnet.Conn, error) {
	return DialContext(context.Background(), network, address)
}

func DialTimeout(network, address string, d time.Duration) (rnet.Conn, error) {
	return Dial(network, address)
}

// ListenConfig opens listeners.
type ListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (rnet.Listener, error) {
	if ctx.Err() != nil {
		return nil, opErr("listen", address, ctx.Err())
	}
	return Listen(network, address)
}

// Dialer opens connections.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	LocalAddr rnet.Addr
	KeepAlive time.Duration
}

func (d *Dialer) Dial(network, address string) (rnet.Conn, error) { return Dial(network, address) }
func (d *Dialer) DialContext(ctx context.Context, network, address string) (rnet.Conn, error) {
	return DialContext(ctx, network, address)
}

// DialContext opens a connection.
func DialContext(ctx context.Context, network, address string) (rnet.Conn, error) {
	n, p := cur()
	if n == nil {
		return nil, errors.New("simnet: no world")
	}
	k.Pause(time.Duration(100+n.w.Net().Intn(3000)) * time.Microsecond)
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	n.Dials++
	id := n.Dials
	a := port(address)
	n.w.Mark(p.Key, "dial", a, fmt.Sprint(id))
	if n.OnDial != nil {
		n.OnDial(id, ctx)
	}
	if f := n.fault("refuse", id, ""); f != nil {
		n.fired(f)
		return nil, opErr("dial", address, syscall.ECONNREFUSED)
	}
	if !n.Listening(a) {
		return nil, opErr("dial", address, syscall.ECONNREFUSED)
	}
	c := n.connect(id, a, p)
	c.Ctx = ctx
	up, down := c.out, c.in
	for i := range n.Plan {
		f := &n.Plan[i]
		if f.N != id {
			continue
		}
		pp := up
		if f.Dir == 1 {
			pp = down
		}
		switch f.Kind {
		case "cut", "stall":
			pp.cut, pp.end, pp.stall, pp.f = f.At, f.End, f.Kind == "stall", f
			if f.Body {
				pp.cut, pp.body = -1, true
			}
		case "slow":
			n.fired(f)
			pp.extra = time.Duration(f.Ms) * time.Millisecond
		case "dup":
			n.fired(f)
			s := n.connect(-id, a, p)
			up.copyTo = s.out
			s.out.extra = time.Duration(f.Ms) * time.Millisecond
			s.in.cut = -2 // whatever is answered
		}
	}
	return c, nil
}

func (n *Net) connect(id int, a string, p *k.Proc) *Conn {
	l := n.ls[a]
	up := &pipe{n: n, name: fmt.Sprintf("conn%d>", id), cut: -1, writer: p}
	down := &pipe{n: n, name: fmt.Sprintf("conn%d<", id), cut: -1, writer: l.owner}
	me := fmt.Sprintf("127.0.0.1:%d", 40000+id)
	c := &Conn{n: n, id: id, in: down, out: up, owner: p, local: me, remote: "127.0.0.1" + a}
	s := &Conn{n: n, id: id, in: up, out: down, owner: l.owner, local: "127.0.0.1" + a, remote: me}
	l.backlog = append(l.backlog, s)
	return c
}

func (c *Conn) done() bool { return c.Ctx != nil && c.Ctx.Err() != nil }

func (c *Conn) late(d time.Time) bool { return !d.IsZero() && !c.n.w.Peek().Before(d) }

// Read takes what has arrived.
func (c *Conn) Read(b []byte) (int, error) {
	if c.closed {
		return 0, opErr("read", c.remote, rnet.ErrClosed)
	}
	if len(b) == 0 {
		return 0, nil
	}
	k.Wait(func() bool { return !c.in.ready() && !c.done() && !c.closed && !c.late(c.rdl) })
	if c.closed {
		return 0, opErr("read", c.remote, rnet.ErrClosed)
	}
	if c.done() {
		return 0, c.Ctx.Err()
	}
	if !c.in.ready() {
		return 0, opErr("read", c.remote, os.ErrDeadlineExceeded)
	}
	if len(c.in.q) == 0 {
		return 0, opErr("read", c.remote, syscall.ECONNRESET) // the other process is gone
	}
	h := &c.in.q[0]
	if h.end != nil {
		if h.end == io.EOF {
			return 0, io.EOF
		}
		return 0, opErr("read", c.remote, h.end)
	}
	m := copy(b, h.data)
	if m > 1 && c.n.w.Net().P(1, 8) {
		m = 1 + c.n.w.Net().Intn(m-1)
	}
	h.data = h.data[m:]
	if len(h.data) == 0 {
		c.in.q = c.in.q[1:]
	}
	c.n.w.Mark(c.in.name, "recv", fmt.Sprint(m), "")
	return m, nil
}

// Write sends.
func (c *Conn) Write(b []byte) (int, error) {
	if c.closed {
		return 0, opErr("write", c.remote, rnet.ErrClosed)
	}
	k.Yield()
	if c.done() {
		return 0, c.Ctx.Err()
	}
	if c.late(c.wdl) {
		return 0, opErr("write", c.remote, os.ErrDeadlineExceeded)
	}
	n, err := c.out.write(b)
	if err == io.ErrClosedPipe {
		return len(b), nil
	}
	return n, err
}

// Close ends the connection.
func (c *Conn) Close() error {
	if c.closed {
		return opErr("close", c.remote, rnet.ErrClosed)
	}
	c.closed = true
	c.out.close()
	return nil
}

func (c *Conn) LocalAddr() rnet.Addr  { return addr(c.local) }
func (c *Conn) RemoteAddr() rnet.Addr { return addr(c.remote) }
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.rdl = t
	if !t.IsZero() {
		c.n.w.In(t.Sub(c.n.w.Peek()), func() {})
	}
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error { c.wdl = t; return nil }
