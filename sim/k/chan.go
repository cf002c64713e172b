package k

import "reflect"

// Channels of simulated programs: the channel value is only a name, what is
// in it and who waits for it is kept here, so that the scheduler decides
// everything. A channel that other code (not under simulation) uses is also
// looked at for real.

type channel struct {
	keep   interface{} // the real one: its address must not be reused
	cap    int
	buf    []interface{}
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	sel *selection
	idx int
	val interface{}
}

type selection struct {
	done  bool
	idx   int
	val   interface{}
	ok    bool
	panic bool
	got   bool // the case has its value already
}

func (w *World) channel(p uintptr, c interface{}, n int) *channel {
	ch := w.chans[p]
	if ch == nil {
		if w.chans == nil {
			w.chans = map[uintptr]*channel{}
		}
		ch = &channel{keep: c, cap: n}
		w.chans[p] = ch
	}
	return ch
}

func live(q []*waiter) []*waiter {
	for len(q) > 0 && q[0].sel.done {
		q = q[1:]
	}
	return q
}

// Case is one case of a select statement.
type Case interface {
	chanOf(w *World) *channel // nil: never ready
	send() (interface{}, bool)
	set(v interface{}, ok bool)
	real() bool // try the real channel
}

// Recving is a receive case.
type Recving[T any] struct {
	C  <-chan T
	V  T
	OK bool
}

// RecvCase makes a receive case.
func RecvCase[T any](c <-chan T) *Recving[T] { return &Recving[T]{C: c} }

// Get is what was received.
func (r *Recving[T]) Get() T { return r.V }

// Get2 is what was received and whether the channel was open.
func (r *Recving[T]) Get2() (T, bool) { return r.V, r.OK }

func (r *Recving[T]) chanOf(w *World) *channel {
	if r.C == nil {
		return nil
	}
	return w.channel(reflect.ValueOf(r.C).Pointer(), r.C, cap(r.C))
}
func (r *Recving[T]) send() (interface{}, bool) { return nil, false }
func (r *Recving[T]) set(v interface{}, ok bool) {
	if v != nil {
		r.V = v.(T)
	}
	r.OK = ok
}
func (r *Recving[T]) real() bool {
	select {
	case v, ok := <-r.C:
		r.V, r.OK = v, ok
		return true
	default:
		return false
	}
}

// Sending is a send case.
type Sending[T any] struct {
	C chan<- T
	V T
}

// SendCase makes a send case.
func SendCase[T any](c chan<- T, v T) *Sending[T] { return &Sending[T]{C: c, V: v} }

func (s *Sending[T]) chanOf(w *World) *channel {
	if s.C == nil {
		return nil
	}
	return w.channel(reflect.ValueOf(s.C).Pointer(), s.C, cap(s.C))
}
func (s *Sending[T]) send() (interface{}, bool) { return s.V, true }
func (s *Sending[T]) set(interface{}, bool)     {}
func (s *Sending[T]) real() bool                { return false }

// Select chooses a case; -1 is the default.
func Select(def bool, cases ...Case) int {
	e := entity()
	if e == nil {
		return realSelect(def, cases)
	}
	w := e.W
	if !e.head().dead {
		e.yield()
	}
	var ready []int
	chs := make([]*channel, len(cases))
	for i, c := range cases {
		ch := c.chanOf(w)
		chs[i] = ch
		if ch == nil {
			continue
		}
		ch.recvq, ch.sendq = live(ch.recvq), live(ch.sendq)
		if _, sending := c.send(); sending {
			if ch.closed || len(ch.recvq) > 0 || len(ch.buf) < ch.cap {
				ready = append(ready, i)
			}
		} else if len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed {
			ready = append(ready, i)
		} else if c.real() {
			return i
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			i = ready[w.sched.Intn(len(ready))]
		}
		c, ch := cases[i], chs[i]
		if v, sending := c.send(); sending {
			ch.put(v)
		} else {
			c.set(ch.take())
		}
		return i
	}
	if def {
		return -1
	}
	sel := &selection{idx: -1}
	for i, c := range cases {
		ch := chs[i]
		if ch == nil {
			continue
		}
		v, sending := c.send()
		wt := &waiter{sel: sel, idx: i, val: v}
		if sending {
			ch.sendq = append(ch.sendq, wt)
		} else {
			ch.recvq = append(ch.recvq, wt)
		}
	}
	e.head().Block(func() bool {
		if sel.done {
			return false
		}
		for i, c := range cases {
			if chs[i] != nil && c.real() {
				sel.done, sel.idx, sel.got = true, i, true
				return false
			}
		}
		return true
	})
	c := cases[sel.idx]
	if sel.panic {
		panic("send on closed channel")
	}
	if !sel.got {
		c.set(sel.val, sel.ok)
	}
	return sel.idx
}

// put sends to a channel that is ready for it.
func (ch *channel) put(v interface{}) {
	if ch.closed {
		panic("send on closed channel")
	}
	ch.recvq = live(ch.recvq)
	if len(ch.recvq) > 0 {
		wt := ch.recvq[0]
		ch.recvq = ch.recvq[1:]
		wt.sel.done, wt.sel.idx, wt.sel.val, wt.sel.ok = true, wt.idx, v, true
		return
	}
	ch.buf = append(ch.buf, v)
}

// take receives from a channel that is ready for it.
func (ch *channel) take() (interface{}, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		ch.sendq = live(ch.sendq)
		if len(ch.sendq) > 0 {
			wt := ch.sendq[0]
			ch.sendq = ch.sendq[1:]
			ch.buf = append(ch.buf, wt.val)
			wt.sel.done, wt.sel.idx = true, wt.idx
		}
		return v, true
	}
	ch.sendq = live(ch.sendq)
	if len(ch.sendq) > 0 {
		wt := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		wt.sel.done, wt.sel.idx = true, wt.idx
		return wt.val, true
	}
	return nil, false
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	r := RecvCase(c)
	Select(false, r)
	return r.V
}

// Recv2 is v, ok := <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	r := RecvCase(c)
	Select(false, r)
	return r.V, r.OK
}

// Send is c <- v.
func Send[T any](c chan<- T, v T) { Select(false, SendCase(c, v)) }

// TrySend sends if that is possible at once; for the harness and timers.
func TrySend[T any](w *World, c chan<- T, v T) bool {
	ch := w.channel(reflect.ValueOf(c).Pointer(), c, cap(c))
	ch.recvq = live(ch.recvq)
	if ch.closed || len(ch.recvq) == 0 && len(ch.buf) >= ch.cap {
		return false
	}
	ch.put(v)
	return true
}

// Close is close(c).
func Close[T any](c chan<- T) {
	e := entity()
	if e == nil {
		close(c)
		return
	}
	CloseNow(e.W, c)
	if !e.head().dead {
		e.yield()
	}
}

// CloseNow closes a channel without giving the processor away; for the harness
// and timers.
func CloseNow[T any](w *World, c chan<- T) {
	ch := w.channel(reflect.ValueOf(c).Pointer(), c, cap(c))
	if ch.closed {
		panic("close of closed channel")
	}
	ch.closed = true
	for _, wt := range ch.recvq {
		if !wt.sel.done {
			wt.sel.done, wt.sel.idx, wt.sel.val, wt.sel.ok = true, wt.idx, nil, false
		}
	}
	for _, wt := range ch.sendq {
		if !wt.sel.done {
			wt.sel.done, wt.sel.idx, wt.sel.panic = true, wt.idx, true
		}
	}
	ch.recvq, ch.sendq = nil, nil
}

// Len is len(c).
func Len(c interface{}) int {
	v := reflect.ValueOf(c)
	e := entity()
	if e == nil || v.IsNil() {
		return v.Len()
	}
	if ch := e.W.chans[v.Pointer()]; ch != nil {
		return len(ch.buf)
	}
	return v.Len()
}

func realSelect(def bool, cases []Case) int {
	var rc []reflect.SelectCase
	for _, c := range cases {
		v := reflect.ValueOf(c).Elem()
		s := reflect.SelectCase{Dir: reflect.SelectRecv, Chan: v.FieldByName("C")}
		if _, sending := c.send(); sending {
			s.Dir, s.Send = reflect.SelectSend, v.FieldByName("V")
		}
		rc = append(rc, s)
	}
	if def {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if i == len(cases) {
		return -1
	}
	if _, sending := cases[i].send(); !sending {
		if v.IsValid() && ok {
			cases[i].set(v.Interface(), ok)
		} else {
			cases[i].set(nil, ok)
		}
	}
	return i
}
