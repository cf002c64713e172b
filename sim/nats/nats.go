// Package nats is a simulated NATS broker and its client.
package nats

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	simctx "github.com/teamlint/baron/zz_sim/context"
	"github.com/teamlint/baron/zz_sim/k"
)

const (
	DefaultURL  = "nats://127.0.0.1:4222"
	DefaultPort = 4222
	Version     = "1.10.0"
)

var (
	ErrConnectionClosed   = errors.New("nats: connection closed")
	ErrAuthorization      = errors.New("nats: authorization violation")
	ErrNoServers          = errors.New("nats: no servers available for connection")
	ErrTimeout            = errors.New("nats: timeout")
	ErrBadSubject         = errors.New("nats: invalid subject")
	ErrBadSubscription    = errors.New("nats: invalid subscription")
	ErrMaxPayload         = errors.New("nats: maximum payload exceeded")
	ErrInvalidContext     = errors.New("nats: invalid context")
	ErrInvalidConnection  = errors.New("nats: invalid connection")
	ErrInvalidMsg         = errors.New("nats: invalid message or message nil")
	ErrSlowConsumer       = errors.New("nats: slow consumer, messages dropped")
	ErrReconnectBufExceed = errors.New("nats: outbound buffer limit exceeded")
)

// Fault is one planned disturbance.
//
//	connect  the N-th connection attempt fails
//	sub      the N-th subscription fails
//	drop     the N-th message is lost
//	dup      the N-th message is delivered twice, the second time Ms later
//	delay    the N-th message takes Ms milliseconds longer
//	cut      connection N is cut off after Ms milliseconds for Len ones
//	close    connection N is lost for good after Ms milliseconds, for example
//	         because its credentials were revoked
type Fault struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	Ms   int    `json:"ms,omitempty"`
	Len  int    `json:"len,omitempty"`
}

// Broker is the NATS server of one world.
type Broker struct {
	w         *k.World
	Plan      []Fault
	conns     []*Conn
	subs      []*Subscription
	Msgs      int
	nsub      int
	ntry      int
	inbox     int
	OnFail    func(owner *k.Proc, what string, err error)
	OnHurt    func(kind, inbox string) // a fault has hit a request or its answer
	OnRequest func(ctx context.Context, inbox string)
	Sent      map[string]int // by subject
	Log       []Opened
}

// Opened is a connection somebody made, or tried to.
type Opened struct {
	Owner *k.Proc
	URL   string
}

// Of is the broker of a world.
func Of(w *k.World) *Broker {
	b, _ := w.Ext["nats"].(*Broker)
	if b == nil {
		b = &Broker{w: w, Sent: map[string]int{}}
		w.Ext["nats"] = b
	}
	return b
}

func (b *Broker) fault(kind string, n int) *Fault {
	for i := range b.Plan {
		if b.Plan[i].Kind == kind && b.Plan[i].N == n {
			b.w.Fired["nats: "+kind]++
			b.w.Mark("nats", "fault", kind, fmt.Sprint(n))
			return &b.Plan[i]
		}
	}
	return nil
}

// Msg is a message.
type Msg struct {
	Subject string
	Reply   string
	Header  Header
	Data    []byte
	Sub     *Subscription
}

// Header has the headers of a message.
type Header map[string][]string

func (h Header) Get(key string) string {
	if v := h[key]; len(v) > 0 {
		return v[0]
	}
	return ""
}
func (h Header) Set(key, v string)        { h[key] = []string{v} }
func (h Header) Add(key, v string)        { h[key] = append(h[key], v) }
func (h Header) Del(key string)           { delete(h, key) }
func (h Header) Values(k string) []string { return h[k] }

func NewMsg(subject string) *Msg { return &Msg{Subject: subject, Header: Header{}} }

// Respond answers the message.
func (m *Msg) Respond(data []byte) error {
	if m == nil || m.Sub == nil {
		return errors.New("nats: message is not bound to subscription/connection")
	}
	if m.Reply == "" {
		return errors.New("nats: message does not have a reply")
	}
	return m.Sub.conn.Publish(m.Reply, data)
}

// RespondMsg answers the message.
func (m *Msg) RespondMsg(r *Msg) error {
	r.Subject = m.Reply
	return m.Sub.conn.PublishMsg(r)
}

// MsgHandler is called for each message.
type MsgHandler func(msg *Msg)

// Subscription is a subscription.
type Subscription struct {
	Subject string
	Queue   string
	conn    *Conn
	cb      MsgHandler
	pending []*Msg
	max     int
	seen    int
	limit   int
	closed  bool
}

// AutoUnsubscribe ends the subscription after so many messages.
func (s *Subscription) AutoUnsubscribe(max int) error {
	if s.closed {
		return ErrBadSubscription
	}
	s.max = max
	return nil
}

// SetPendingLimits limits the messages which wait; the bytes do not count here.
func (s *Subscription) SetPendingLimits(msgs, bytes int) error {
	s.limit = msgs
	return nil
}
func (s *Subscription) Pending() (int, int, error) { return len(s.pending), 0, nil }
func (s *Subscription) Delivered() (int64, error)  { return int64(s.seen), nil }
func (s *Subscription) Dropped() (int, error)      { return 0, nil }
func (s *Subscription) QueuedMsgs() (int, error)   { return len(s.pending), nil }

func (s *Subscription) IsValid() bool { return s != nil && !s.closed && !s.conn.closed }
func (s *Subscription) Unsubscribe() error {
	if s.closed {
		return ErrBadSubscription
	}
	s.closed = true
	return nil
}
func (s *Subscription) Drain() error { return s.Unsubscribe() }
func (s *Subscription) NextMsg(d time.Duration) (*Msg, error) {
	ctx, cancel := simctx.WithTimeout(context.Background(), d)
	defer cancel()
	m, err := s.NextMsgWithContext(ctx)
	if err == context.DeadlineExceeded {
		err = ErrTimeout
	}
	return m, err
}
func (s *Subscription) NextMsgWithContext(ctx context.Context) (*Msg, error) {
	k.Wait(func() bool { return len(s.pending) == 0 && ctx.Err() == nil && !s.closed && !s.conn.closed })
	if len(s.pending) > 0 {
		m := s.pending[0]
		s.pending = s.pending[1:]
		return m, nil
	}
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return nil, ErrBadSubscription
}

// Conn is a connection to the broker.
type Conn struct {
	b      *Broker
	id     int
	owner  *k.Proc
	closed bool
	off    bool
	held   []*Msg
	err    error
	Opts   Options
}

// Options are the options of a connection.
type Options struct {
	Url               string
	Name              string
	Timeout           time.Duration
	MaxReconnect      int
	ReconnectWait     time.Duration
	AllowReconnect    bool
	RetryOnFailed     bool
	BufSize           int
	DisconnectedErrCB func(*Conn, error)
	ClosedCB          func(*Conn)
	ReconnectedCB     func(*Conn)
}

// Option changes options.
type Option func(*Options) error

func Name(n string) Option { return func(o *Options) error { o.Name = n; return nil } }
func Timeout(d time.Duration) Option {
	return func(o *Options) error { o.Timeout = d; return nil }
}
func MaxReconnects(n int) Option { return func(o *Options) error { o.MaxReconnect = n; return nil } }
func ReconnectWait(d time.Duration) Option {
	return func(o *Options) error { o.ReconnectWait = d; return nil }
}
func ClosedHandler(f func(*Conn)) Option {
	return func(o *Options) error { o.ClosedCB = f; return nil }
}
func ReconnectHandler(f func(*Conn)) Option {
	return func(o *Options) error { o.ReconnectedCB = f; return nil }
}
func DisconnectErrHandler(f func(*Conn, error)) Option {
	return func(o *Options) error { o.DisconnectedErrCB = f; return nil }
}

func DisconnectHandler(f func(*Conn)) Option {
	return DisconnectErrHandler(func(c *Conn, _ error) { f(c) })
}
func NoReconnect() Option { return func(o *Options) error { o.AllowReconnect = false; return nil } }
func RetryOnFailedConnect(b bool) Option {
	return func(o *Options) error { o.RetryOnFailed = b; return nil }
}
func ReconnectBufSize(n int) Option { return func(o *Options) error { o.BufSize = n; return nil } }

func noOption(*Options) error { return nil }

// ErrHandler is told about errors nobody waits for.
type ErrHandler func(*Conn, *Subscription, error)

// These have no effect here.
func ErrorHandler(ErrHandler) Option                      { return noOption }
func DiscoveredServersHandler(func(*Conn)) Option         { return noOption }
func LameDuckModeHandler(func(*Conn)) Option              { return noOption }
func ReconnectJitter(time.Duration, time.Duration) Option { return noOption }
func CustomReconnectDelay(func(int) time.Duration) Option { return noOption }
func PingInterval(time.Duration) Option                   { return noOption }
func MaxPingsOutstanding(int) Option                      { return noOption }
func FlusherTimeout(time.Duration) Option                 { return noOption }
func DrainTimeout(time.Duration) Option                   { return noOption }
func DontRandomize() Option                               { return noOption }
func NoEcho() Option                                      { return noOption }
func UseOldRequestStyle() Option                          { return noOption }
func NoCallbacksAfterClientClose() Option                 { return noOption }
func SyncQueueLen(int) Option                             { return noOption }
func UserInfo(user, password string) Option               { return noOption }
func Token(string) Option                                 { return noOption }
func UserCredentials(string, ...string) Option            { return noOption }
func InboxPrefix(string) Option                           { return noOption }

const (
	DefaultMaxReconnect     = 60
	DefaultReconnectWait    = 2 * time.Second
	DefaultTimeout          = 2 * time.Second
	DefaultReconnectBufSize = 8 << 20
)

// GetDefaultOptions are the options of a connection without any.
func GetDefaultOptions() Options {
	return Options{AllowReconnect: true, MaxReconnect: DefaultMaxReconnect, ReconnectWait: DefaultReconnectWait, Timeout: DefaultTimeout, BufSize: DefaultReconnectBufSize}
}

// Connect connects with these options.
func (o Options) Connect() (*Conn, error) {
	return Connect(o.Url, func(x *Options) error { *x = o; return nil })
}

// Connect connects to the broker.
func Connect(url string, opts ...Option) (*Conn, error) {
	p := k.Self()
	if p == nil {
		return nil, ErrNoServers
	}
	b := Of(p.W)
	c := &Conn{b: b, owner: p, Opts: GetDefaultOptions()}
	c.Opts.Url = url
	for _, o := range opts {
		if err := o(&c.Opts); err != nil {
			return nil, err
		}
	}
	k.Pause(time.Duration(200+b.w.Net().Intn(3000)) * time.Microsecond)
	b.ntry++
	b.Log = append(b.Log, Opened{p, url})
	b.w.Mark(p.Key, "nats connect", url, fmt.Sprint(b.ntry))
	if b.fault("connect", b.ntry) != nil {
		if b.OnFail != nil {
			b.OnFail(p, "connect", ErrNoServers)
		}
		return nil, ErrNoServers
	}
	c.id = b.ntry
	b.conns = append(b.conns, c)
	for i := range b.Plan {
		f := b.Plan[i]
		if f.Kind == "close" && f.N == c.id {
			b.w.In(time.Duration(f.Ms)*time.Millisecond, func() {
				if c.closed || c.owner.Gone() {
					return
				}
				b.fault("close", c.id)
				c.err = ErrAuthorization
				if b.OnFail != nil {
					b.OnFail(c.owner, "close", c.err)
				}
				c.closed = true
			})
		}
		if f.Kind == "cut" && f.N == c.id {
			b.w.In(time.Duration(f.Ms)*time.Millisecond, func() {
				if c.closed || c.owner.Gone() {
					return
				}
				b.fault("cut", c.id)
				o := &c.Opts
				down := time.Duration(f.Len) * time.Millisecond
				if !o.AllowReconnect || o.MaxReconnect >= 0 && time.Duration(o.MaxReconnect)*o.ReconnectWait < down {
					c.err = ErrNoServers // gives up
					c.closed = true
					return
				}
				c.off = true
				if o.DisconnectedErrCB != nil {
					c.owner.Go(func() { o.DisconnectedErrCB(c, io.EOF) })
				}
				b.w.In(down, func() {
					c.off = false
					if o.ReconnectedCB != nil && !c.owner.Gone() {
						c.owner.Go(func() { o.ReconnectedCB(c) })
					}
					held := c.held
					c.held = nil
					for _, m := range held {
						b.send(m)
					}
				})
			})
		}
	}
	if c.Opts.ClosedCB != nil {
		k.Go(func() {
			k.Wait(func() bool { return !c.closed })
			c.Opts.ClosedCB(c)
		})
	}
	return c, nil
}

func (c *Conn) Close() {
	c.closed = true
}
func (c *Conn) Drain() error                       { c.Close(); return nil }
func (c *Conn) IsClosed() bool                     { return c.closed }
func (c *Conn) IsConnected() bool                  { return !c.closed && !c.off }
func (c *Conn) IsReconnecting() bool               { return c.off }
func (c *Conn) Flush() error                       { k.Yield(); return nil }
func (c *Conn) FlushTimeout(d time.Duration) error { k.Yield(); return nil }
func (c *Conn) LastError() error                   { return c.err }
func (c *Conn) ConnectedUrl() string               { return c.Opts.Url }
func (c *Conn) IsDraining() bool                   { return false }
func (c *Conn) MaxPayload() int64                  { return 1 << 20 }

func badSubject(s string) bool {
	if s == "" || strings.ContainsAny(s, " \t\r\n") {
		return true
	}
	for _, t := range strings.Split(s, ".") {
		if t == "" {
			return true
		}
	}
	return false
}

func (c *Conn) Subscribe(subj string, cb MsgHandler) (*Subscription, error) {
	return c.subscribe(subj, "", cb)
}
func (c *Conn) SubscribeSync(subj string) (*Subscription, error) { return c.subscribe(subj, "", nil) }
func (c *Conn) QueueSubscribeSync(subj, q string) (*Subscription, error) {
	return c.subscribe(subj, q, nil)
}
func (c *Conn) QueueSubscribe(subj, queue string, cb MsgHandler) (*Subscription, error) {
	return c.subscribe(subj, queue, cb)
}

func (c *Conn) subscribe(subj, queue string, cb MsgHandler) (*Subscription, error) {
	if c == nil {
		return nil, ErrInvalidConnection
	}
	k.Yield()
	if badSubject(subj) {
		return nil, ErrBadSubject
	}
	if c.closed {
		return nil, ErrConnectionClosed
	}
	b := c.b
	b.nsub++
	if b.fault("sub", b.nsub) != nil {
		if b.OnFail != nil {
			b.OnFail(c.owner, "sub", ErrConnectionClosed)
		}
		return nil, ErrConnectionClosed
	}
	s := &Subscription{Subject: subj, Queue: queue, conn: c, cb: cb}
	b.w.Mark(c.owner.Key, "nats subscribe", subj, queue)
	b.subs = append(b.subs, s)
	if cb != nil {
		k.Go(func() {
			for {
				k.Wait(func() bool { return len(s.pending) == 0 && !s.closed && !c.closed })
				if len(s.pending) == 0 {
					return
				}
				m := s.pending[0]
				s.pending = s.pending[1:]
				b.w.Mark(c.owner.Key, "nats deliver", m.Subject, "")
				cb(m)
			}
		})
	}
	return s, nil
}

// Subscribed says whether somebody has a subscription on a subject.
func (b *Broker) Subscribed(subj string) bool {
	for _, s := range b.subs {
		if match(s.Subject, subj) && !s.closed && !s.conn.closed && !s.conn.owner.Gone() {
			return true
		}
	}
	return false
}

func match(pat, subj string) bool {
	p, s := strings.Split(pat, "."), strings.Split(subj, ".")
	for i, t := range p {
		if t == ">" {
			return i < len(s)
		}
		if i >= len(s) || t != "*" && t != s[i] {
			return false
		}
	}
	return len(p) == len(s)
}

func (c *Conn) Publish(subj string, data []byte) error {
	return c.PublishMsg(&Msg{Subject: subj, Data: data})
}
func (c *Conn) PublishRequest(subj, reply string, data []byte) error {
	return c.PublishMsg(&Msg{Subject: subj, Reply: reply, Data: data})
}

// PublishMsg sends a message.
func (c *Conn) PublishMsg(m *Msg) error {
	if c == nil {
		return ErrInvalidConnection
	}
	if m == nil {
		return ErrInvalidMsg
	}
	k.Yield()
	if m.Subject == "" {
		return ErrBadSubject
	}
	if c.closed {
		return ErrConnectionClosed
	}
	if len(m.Data) > 1<<20 {
		return ErrMaxPayload
	}
	n := &Msg{Subject: m.Subject, Reply: m.Reply, Data: append([]byte(nil), m.Data...)}
	for kk, v := range m.Header {
		if n.Header == nil {
			n.Header = Header{}
		}
		n.Header[kk] = append([]string(nil), v...)
	}
	if c.off {
		if c.Opts.BufSize < 0 {
			return ErrReconnectBufExceed
		}
		c.held = append(c.held, n)
		return nil
	}
	c.b.send(n)
	return nil
}

func (b *Broker) send(m *Msg) {
	b.Msgs++
	n := b.Msgs
	b.Sent[m.Subject]++
	b.w.Mark("nats", "publish", m.Subject, fmt.Sprint(n, " ", len(m.Data)))
	if b.fault("drop", n) != nil {
		b.hurt("drop", m)
		return
	}
	d := time.Duration(b.w.Net().Intn(5000)) * time.Microsecond
	if b.w.Net().P(1, 12) {
		d += time.Duration(b.w.Net().Intn(200)) * time.Millisecond
	}
	if f := b.fault("delay", n); f != nil {
		d += time.Duration(f.Ms) * time.Millisecond
	}
	b.w.In(d, func() { b.route(m) })
	if f := b.fault("dup", n); f != nil {
		b.hurt("dup", m)
		b.w.In(d+time.Duration(f.Ms)*time.Millisecond, func() { b.route(m) })
	}
}

func (b *Broker) hurt(kind string, m *Msg) {
	if b.OnHurt == nil {
		return
	}
	if m.Reply != "" {
		b.OnHurt(kind, m.Reply)
	}
	b.OnHurt(kind, m.Subject)
}

// Live counts the subscriptions of some processes.
func (b *Broker) Live(of func(p *k.Proc) bool) int {
	n := 0
	for _, s := range b.subs {
		if !s.closed && !s.conn.closed && !s.conn.owner.Gone() && of(s.conn.owner) {
			n++
		}
	}
	return n
}

func (b *Broker) route(m *Msg) {
	delivered := false
	defer func() {
		if !delivered {
			b.hurt("undelivered", m)
		}
	}()
	groups := map[string][]*Subscription{}
	var order []string
	give := func(s *Subscription) {
		c := &Msg{Subject: m.Subject, Reply: m.Reply, Data: append([]byte(nil), m.Data...), Header: m.Header, Sub: s}
		if s.limit > 0 && len(s.pending) >= s.limit {
			return
		}
		s.pending = append(s.pending, c)
		delivered = true
		if s.seen++; s.max > 0 && s.seen >= s.max {
			s.closed = true
		}
	}
	for _, s := range b.subs {
		if s.closed || s.conn.closed || s.conn.off || s.conn.owner.Gone() || !match(s.Subject, m.Subject) {
			continue
		}
		if s.Queue == "" {
			give(s)
			continue
		}
		if groups[s.Queue] == nil {
			order = append(order, s.Queue)
		}
		groups[s.Queue] = append(groups[s.Queue], s)
	}
	for _, q := range order {
		g := groups[q]
		give(g[b.w.Net().Intn(len(g))])
	}
}

func (c *Conn) Request(subj string, data []byte, timeout time.Duration) (*Msg, error) {
	ctx, cancel := simctx.WithTimeout(context.Background(), timeout)
	defer cancel()
	m, err := c.RequestWithContext(ctx, subj, data)
	if err == context.DeadlineExceeded {
		err = ErrTimeout
	}
	return m, err
}

func (c *Conn) RequestWithContext(ctx context.Context, subj string, data []byte) (*Msg, error) {
	return c.RequestMsgWithContext(ctx, &Msg{Subject: subj, Data: data})
}

func (c *Conn) RequestMsg(m *Msg, timeout time.Duration) (*Msg, error) {
	ctx, cancel := simctx.WithTimeout(context.Background(), timeout)
	defer cancel()
	r, err := c.RequestMsgWithContext(ctx, m)
	if err == context.DeadlineExceeded {
		err = ErrTimeout
	}
	return r, err
}

// RequestMsgWithContext sends a request and waits for the first answer.
func (c *Conn) RequestMsgWithContext(ctx context.Context, m *Msg) (*Msg, error) {
	if ctx == nil {
		return nil, ErrInvalidContext
	}
	if c == nil {
		return nil, ErrInvalidConnection
	}
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	b := c.b
	b.inbox++
	in := fmt.Sprintf("_INBOX.%d.%d", c.id, b.inbox)
	if b.OnRequest != nil {
		b.OnRequest(ctx, in)
	}
	s := &Subscription{Subject: in, conn: c}
	b.subs = append(b.subs, s)
	defer func() {
		s.closed = true
		for i, x := range b.subs {
			if x == s {
				b.subs = append(b.subs[:i:i], b.subs[i+1:]...)
				break
			}
		}
	}()
	if err := c.PublishMsg(&Msg{Subject: m.Subject, Reply: in, Data: m.Data, Header: m.Header}); err != nil {
		return nil, err
	}
	return s.NextMsgWithContext(ctx)
}

// NewInbox is a fresh subject for answers.
func NewInbox() string {
	if k.Cur == nil {
		return "_INBOX.x"
	}
	b := Of(k.Cur)
	b.inbox++
	return fmt.Sprintf("_INBOX.n.%d", b.inbox)
}
