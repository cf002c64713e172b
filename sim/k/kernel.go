// Package k is the simulator kernel: simulated processes, their scheduler,
// system calls with faults, and the clock.
package k

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Fault is one planned disturbance: at operation Op of process Proc.
type Fault struct {
	Proc   string `json:"proc"`
	Op     int    `json:"op"`
	Kind   string `json:"kind"` // errno name, "short", "kill", "power", "exit1", "sigkill"
	Arg    int    `json:"arg,omitempty"`
	Sticky bool   `json:"sticky,omitempty"` // also fails all later operations of this class in this process
	Path   string `json:"path,omitempty"`   // every operation of class Class on this path (Op is 0)
	Class  string `json:"class,omitempty"`
}

// Op is one recorded operation.
type Op struct {
	Seq   int
	Proc  string
	Idx   int
	Kind  string
	Path  string
	Path2 string
	Fault string
}

func (o Op) String() string {
	s := fmt.Sprintf("%d %s#%d %s %s", o.Seq, o.Proc, o.Idx, o.Kind, o.Path)
	if o.Path2 != "" {
		s += " -> " + o.Path2
	}
	if o.Fault != "" {
		s += " !" + o.Fault
	}
	return s
}

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE,
	"ENFILE": syscall.ENFILE, "EDQUOT": syscall.EDQUOT, "EROFS": syscall.EROFS, "ENOMEM": syscall.ENOMEM,
	"ELOOP": syscall.ELOOP, "ETIMEDOUT": syscall.ETIMEDOUT, "ESTALE": syscall.ESTALE, "EPERM": syscall.EPERM, "ENOENT": syscall.ENOENT, "EAGAIN": syscall.EAGAIN,
}

// Menu lists the faults that can happen to an operation of a class.
var Menu = map[string][]string{
	"stat":     {"EIO", "EACCES", "ENOMEM", "ETIMEDOUT"},
	"open":     {"EIO", "EMFILE", "EACCES", "ENFILE", "ETIMEDOUT", "ESTALE"},
	"create":   {"ENOSPC", "EMFILE", "EACCES", "EIO", "EROFS", "EDQUOT"},
	"read":     {"EIO", "EIO", "ETIMEDOUT", "ESTALE"},
	"write":    {"ENOSPC", "EIO", "EDQUOT"},
	"close":    {"EIO", "ENOSPC"},
	"sync":     {"EIO", "ENOSPC"},
	"readdir":  {"EIO", "ENOMEM", "ESTALE"},
	"mkdir":    {"ENOSPC", "EACCES", "EIO"},
	"unlink":   {"EACCES", "EIO"},
	"rmdir":    {"EACCES", "EIO"},
	"rename":   {"ENOSPC", "EACCES", "EIO"},
	"chmod":    {"EPERM", "EIO"},
	"truncate": {"EIO", "EPERM"},
	"link":     {"EACCES", "ENOSPC"},
	"readlink": {"EIO"},
	"getcwd":   {"EACCES"},
	"exec":     {"EAGAIN", "ENOMEM", "exit1", "exit1", "exitlate", "sigkill"},
	"pkgload":  {"exit1", "none"},
}

// World is one simulation.
type World struct {
	FS   *FS
	Seed uint64
	// EnvKnob makes settings of the machine (unset environment variables, the
	// host's name, ids) others if it is not 0.
	EnvKnob uint64
	sched   *Rand // who runs next
	maps    *Rand // map iteration order
	names   *Rand // temporary names, readdir order, clock jumps
	chunk   *Rand // read chunking
	power   *Rand // what survives a power loss
	net     *Rand // the network

	Ext map[string]interface{} // state of simulated services (network, broker)

	ShortReads bool // reads deliver arbitrary parts
	mapOps     map[uintptr][]mapOp
	Preempt    int  // 1/Preempt of ticks preempt (0: never)
	Threads    bool // processes share package-level variables (they are threads)

	Plan   []Fault
	Trace  []Op
	Keep   bool // keep the trace
	Hash   uint64
	Fired  map[string]int // faults that really happened
	Steps  int
	Switch int
	now    time.Time
	start  time.Time

	OnOp  func(w *World, o *Op) // after each operation
	After func(w *World, o *Op) // after each operation that changes the disk
	Exec  func(p *Proc, c *ExecReq) ExecRes
	Load  func(p *Proc, dir string) LoadRes

	procs   []*Proc
	cur     *Proc
	done    chan struct{}
	serial  int
	Powered bool   // power was lost
	Harness string // a problem of the simulator itself

	TickBudget int

	Burst  int  // a process goes on for about this many points before another one may run (0: 1)
	Fixed  bool // the schedule is Sched, not a random one
	Sched  []Sw
	SwLog  []Sw // what the scheduler did
	Points int  // points at which another process could have run

	timers []*timer
	chans  map[uintptr]*channel
}

// Sw is one decision of the scheduler: at its point At, process To went on.
type Sw struct {
	At int    `json:"at"`
	To string `json:"to"`
}

// Cur is the running process's world.
var Cur *World

type Proc struct {
	W       *World
	Key     string
	Args    []string
	Env     map[string]string
	Cwd     string
	Stdin   string
	Stdout  bytes.Buffer
	Stderr  bytes.Buffer
	Code    int
	Exited  bool
	Killed  bool
	Panic   string
	Stack   string
	Hang    bool
	Ticks   int
	Ops     int
	Kids    int
	NFD     int
	sticky  []Fault
	wake    chan struct{}
	dead    bool
	parent  *Proc
	globs   []reflect.Value
	loaded  bool
	depth   int
	rnd     *Rand
	Pid     int
	blocked func() bool // not runnable while true
	lead    *Proc       // the process this thread belongs to (nil: it is the first thread)
	nthr    int
	until   time.Time // sleeping
	asleep  bool
	sigs    []sigReg
}

// head is the process a thread belongs to.
func (p *Proc) head() *Proc {
	if p.lead != nil {
		return p.lead
	}
	return p
}

func (p *Proc) runnable() bool {
	if p.Exited {
		return false
	}
	if p.head().dead {
		return true // to end
	}
	if p.asleep && p.W.now.Before(p.until) {
		return false
	}
	return p.blocked == nil || !p.blocked()
}

// Go starts a thread of the running process.
func Go(f func()) {
	e := entity()
	if e == nil {
		go f()
		return
	}
	h := e.head()
	h.thread(f)
	e.yield()
	if h.dead {
		runtime.Goexit()
	}
}

// Go starts a thread of a process that need not be the running one.
func (h *Proc) Go(f func()) { h.head().thread(f) }

// thread adds a thread to the process.
func (h *Proc) thread(f func()) {
	w := h.W
	h.nthr++
	t := &Proc{W: w, Key: fmt.Sprintf("%s/t%d", h.Key, h.nthr), lead: h, wake: make(chan struct{}), Pid: h.Pid}
	w.procs = append(w.procs, t)
	go func() {
		<-t.wake
		defer func() {
			if r := recover(); r != nil && !h.dead {
				if b, ok := r.(tickBudget); ok {
					h.Hang = true
					h.Panic = string(b)
				} else {
					h.Panic = fmt.Sprint(r)
					h.W.blame(h.Panic)
					h.Stack = string(debug.Stack())
				}
				h.Code = 2
				h.dead = true
			}
			t.Exited = true
			t.finish()
		}()
		if h.dead {
			runtime.Goexit()
		}
		f()
	}()
}

// entity is the running thread.
func entity() *Proc {
	if Cur == nil {
		return nil
	}
	return Cur.cur
}

// Pause lets simulated time pass for the running thread.
func Pause(d time.Duration) {
	e := entity()
	if e == nil || d <= 0 {
		return
	}
	w := e.W
	if len(w.procs) == 1 && len(w.timers) == 0 {
		w.now = w.now.Add(d)
		return
	}
	e.until, e.asleep = w.now.Add(d), true
	e.park()
	e.asleep = false
}

// park gives the processor away until the thread is runnable.
func (p *Proc) park() {
	for !p.runnable() {
		n := p.W.pick(p)
		if n == nil {
			p.W.stuck(p)
			runtime.Goexit()
		}
		if n == p {
			break
		}
		p.W.switchTo(p, n)
		<-p.wake
	}
	if p.head().dead {
		runtime.Goexit()
	}
}

// stuck: nothing can ever run again.
func (w *World) stuck(p *Proc) {
	h := p.head()
	h.Panic = "all goroutines are asleep - deadlock!"
	h.Hang = true
	h.Code = 2
	h.dead = true
}

type timer struct {
	at   time.Time
	seq  int
	fire func()
	off  bool
}

// AddTimer has f called when d of simulated time has passed; stop prevents it.
func (w *World) AddTimer(d time.Duration, f func()) (stop func() bool) {
	if d < 0 {
		d = 0
	}
	w.serial++
	t := &timer{at: w.now.Add(d), seq: w.serial, fire: f}
	w.timers = append(w.timers, t)
	return func() bool {
		was := !t.off
		t.off = true
		return was
	}
}

// due fires timers that are due; with jump, time goes to the next event.
func (w *World) due(jump bool) bool {
	var next *timer
	for _, t := range w.timers {
		if !t.off && (next == nil || t.at.Before(next.at) || t.at.Equal(next.at) && t.seq < next.seq) {
			next = t
		}
	}
	var sl *Proc
	for _, q := range w.procs {
		if !q.Exited && q.asleep && w.now.Before(q.until) && (sl == nil || q.until.Before(sl.until)) {
			sl = q
		}
	}
	if sl != nil && (next == nil || sl.until.Before(next.at)) {
		if jump {
			w.now = sl.until
		}
		return jump
	}
	if next == nil || !jump && next.at.After(w.now) {
		return false
	}
	if next.at.After(w.now) {
		w.now = next.at
	}
	next.off = true
	live := w.timers[:0]
	for _, t := range w.timers {
		if !t.off {
			live = append(live, t)
		}
	}
	w.timers = live
	next.fire()
	return true
}

// NewWorld makes a simulation on a disk.
func NewWorld(fs *FS, seed uint64) *World {
	w := &World{FS: fs, Seed: seed, Fired: map[string]int{}, TickBudget: 50000000}
	w.sched = NewRand(seed, "sched")
	w.maps = NewRand(seed, "maps")
	w.names = NewRand(seed, "names")
	w.chunk = NewRand(seed, "chunk")
	w.power = NewRand(seed, "power")
	w.Hash = 14695981039346656037
	w.Ext = map[string]interface{}{}
	w.now = time.Unix(1700000000+int64(seed%1000)*86400, int64(seed%999999999)).UTC()
	w.start = w.now
	fs.clock = func() time.Time { return w.now }
	return w
}

// Elapsed is the simulated time that has passed.
func (w *World) Elapsed() time.Duration { return w.now.Sub(w.start) }

// Knob re-seeds one stream of choices, leaving the others.
func (w *World) Knob(name string, seed uint64) {
	switch name {
	case "maps":
		w.maps = NewRand(seed, "maps")
	case "names":
		w.names = NewRand(seed, "names")
	case "chunk":
		w.chunk = NewRand(seed, "chunk")
	case "sched":
		w.sched = NewRand(seed, "sched")
	case "power":
		w.power = NewRand(seed, "power")
	case "env":
		w.EnvKnob = seed
	case "clock":
		w.now = time.Unix(1000000000+int64(seed%900000)*1000, 0).UTC()
		w.start = w.now
	default:
		panic("knob " + name)
	}
}

// Setting is the value of an environment variable that was not set explicitly.
func (w *World) Setting(key string) (string, bool) {
	if w.EnvKnob == 0 {
		return "", false
	}
	for _, s := range []string{"GO", "PATH", "HOME", "TMPDIR", "PWD", "XDG_"} {
		if strings.HasPrefix(key, s) {
			return "", false
		}
	}
	r := NewRand(w.EnvKnob, "env "+key)
	if r.P(1, 3) {
		return "", false
	}
	return r.Pick("", "0", "1", "true", "u7", "/home/u/x", "2001-01-01"), true
}

// Now is the simulated time; every look at the clock advances it a little.
func (w *World) Now() time.Time {
	w.now = w.now.Add(137 * time.Microsecond)
	return w.now
}

// Sleep advances the clock.
func (w *World) Sleep(d time.Duration) {
	if d > 0 {
		w.now = w.now.Add(d)
	}
}

func (w *World) mix(s string) {
	h := w.Hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	w.Hash = (h ^ 0xfe) * 1099511628211
}

// ---- package-level variables of simulated programs ----

var globPtrs []reflect.Value
var globInit func()

// Register tells the kernel the variables that belong to a process and how a
// fresh process initialises them.
func Register(ptrs []interface{}, init func()) {
	for _, p := range ptrs {
		globPtrs = append(globPtrs, reflect.ValueOf(p).Elem())
	}
	globInit = init
}

func zeroGlobals() {
	for _, g := range globPtrs {
		g.Set(reflect.Zero(g.Type()))
	}
}

func saveGlobals() []reflect.Value {
	s := make([]reflect.Value, len(globPtrs))
	for i, g := range globPtrs {
		v := reflect.New(g.Type()).Elem()
		v.Set(g)
		s[i] = v
	}
	return s
}

func loadGlobals(s []reflect.Value) {
	for i, g := range globPtrs {
		g.Set(s[i])
	}
}

// InitGlobals gives the calling (non-simulated) code freshly initialised variables.
func InitGlobals() {
	zeroGlobals()
	globInit()
}

// ---- processes ----

// Spawn adds a process; main runs when the world runs. With fresh, it starts
// with newly initialised package-level variables.
func (w *World) Spawn(key string, args []string, env map[string]string, cwd string, fresh bool, main func(p *Proc)) *Proc {
	w.serial++
	p := &Proc{W: w, Key: key, Args: args, Env: env, Cwd: cwd, wake: make(chan struct{}), Pid: 4000 + w.serial + int(w.EnvKnob%20000)}
	p.rnd = NewRand(w.Seed, "proc"+key)
	w.procs = append(w.procs, p)
	go func() {
		<-p.wake
		defer func() {
			if r := recover(); r != nil && !p.dead {
				if b, ok := r.(tickBudget); ok {
					p.Hang = true
					p.Panic = string(b)
				} else {
					p.Panic = fmt.Sprint(r)
					p.W.blame(p.Panic)
					p.Stack = string(debug.Stack())
				}
				p.Code = 2
			}
			p.dead = true
			p.Exited = true
			p.finish()
		}()
		if fresh && !w.Threads {
			zeroGlobals()
			p.loaded = true
			setStd(p)
			globInit()
		}
		main(p)
	}()
	return p
}

// setStd is installed by the os replacement: it sets its per-process variables.
var SetStd func(p *Proc)

func setStd(p *Proc) {
	if SetStd != nil {
		SetStd(p)
	}
}

func (p *Proc) finish() {
	w := p.W
	for {
		if n := w.pick(p); n != nil {
			w.switchTo(p, n)
			return
		}
		// whoever is left waits for something that cannot happen any more
		left := false
		for _, q := range w.procs {
			if !q.Exited && !q.head().dead {
				w.stuck(q)
				left = true
			}
		}
		if !left {
			break
		}
	}
	w.cur = nil
	close(w.done)
}

// pick chooses the next process among the runnable ones.
func (w *World) pick(cur *Proc) *Proc {
	var r []*Proc
	here := false
	for len(w.timers) > 0 && w.due(false) {
	}
	for {
		for _, q := range w.procs {
			if q.runnable() {
				r = append(r, q)
				if q == cur {
					here = true
				}
			}
		}
		if len(r) > 0 {
			break
		}
		if !w.due(true) {
			return nil
		}
	}
	if len(r) == 1 {
		return r[0]
	}
	w.Points++
	if w.Fixed {
		for _, s := range w.Sched {
			if s.At == w.Points {
				for _, q := range r {
					if q.Key == s.To {
						return q
					}
				}
			}
		}
		if here {
			return cur
		}
		return r[0]
	}
	if here && w.Burst > 1 && w.sched.Intn(w.Burst) != 0 {
		return cur
	}
	n := r[w.sched.Intn(len(r))]
	if n != cur {
		w.SwLog = append(w.SwLog, Sw{w.Points, n.Key})
	}
	return n
}

func (w *World) switchTo(from, to *Proc) {
	w.Switch++
	if !w.Threads {
		a, b := from, to.head()
		if from != nil {
			a = from.head()
		}
		if a != b {
			if a != nil && !a.dead && a.loaded {
				a.globs = saveGlobals()
			}
			if b.loaded && b.globs != nil {
				loadGlobals(b.globs)
				b.globs = nil
			}
		}
	}
	w.cur = to
	to.wake <- struct{}{}
}

// Run runs all processes to their end.
func (w *World) Run() {
	Cur = w
	w.done = make(chan struct{})
	n := w.pick(nil)
	if n == nil {
		return
	}
	w.switchTo(nil, n)
	<-w.done
	var live []*Proc
	for _, p := range w.procs {
		if !p.Exited {
			live = append(live, p)
		}
	}
	w.procs = live
	if len(live) > 0 {
		w.Harness = "deadlock of simulated processes"
	}
}

// yield lets the scheduler decide who continues.
func (p *Proc) yield() {
	w := p.W
	if len(w.procs) == 1 && len(w.timers) == 0 {
		return
	}
	p = w.cur // the running thread
	n := w.pick(p)
	if n == nil || n == p {
		return
	}
	w.switchTo(p, n)
	<-p.wake
	if p.lead != nil && p.lead.dead {
		runtime.Goexit()
	}
}

// Block parks the running thread until cond is false.
func (p *Proc) Block(cond func() bool) {
	e := p.W.cur
	if cond() {
		e.blocked = cond
		e.park()
		e.blocked = nil
	}
	if e.head().dead {
		runtime.Goexit()
	}
}

// Die ends the running process with a code; deferred functions have no effects.
func (p *Proc) Die(code int) {
	if !p.dead {
		p.Code = code
		p.dead = true
	}
	runtime.Goexit()
}

func (p *Proc) kill() {
	p.Killed = true
	p.Code = 137
	p.dead = true
}

type childKilled struct{}
type tickBudget string

// Self returns the running process.
func Self() *Proc {
	if Cur == nil || Cur.cur == nil {
		return nil
	}
	return Cur.cur.head()
}

// Tick counts a step of the running process.
func Tick() {
	w := Cur
	if w == nil || w.cur == nil {
		return
	}
	p := w.cur.head()
	p.Ticks++
	if p.Ticks > w.TickBudget {
		if p.dead {
			runtime.Goexit()
		}
		panic(tickBudget(fmt.Sprintf("no end after %d steps", w.TickBudget)))
	}
	if w.Preempt > 0 && !p.dead && w.sched.Intn(w.Preempt) == 0 {
		p.yield()
		if p.dead {
			runtime.Goexit()
		}
	}
}

// Yield is a point at which another process may run.
func Yield() {
	p := Self()
	if p == nil {
		return
	}
	p.yield()
	if p.dead {
		runtime.Goexit()
	}
}

func className(kind string) string { return kind }

func sameClass(a, b string) bool {
	space := map[string]bool{"create": true, "write": true, "mkdir": true, "rename": true, "sync": true, "link": true}
	fd := map[string]bool{"open": true, "create": true}
	_ = fd
	return a == b || space[a] && space[b]
}

// enter is called at the start of every operation. It returns the fault to
// apply, if any.
func (p *Proc) enter(kind, path1, path2 string) *Fault {
	w := p.W
	top := p
	for top.parent != nil {
		top = top.parent
	}
	if top.dead {
		runtime.Goexit()
	}
	top.yield()
	if top.dead {
		runtime.Goexit()
	}
	p.Ops++
	w.Steps++
	w.now = w.now.Add(11 * time.Microsecond)
	var f *Fault
	for i := range w.Plan {
		g := &w.Plan[i]
		if g.Op == 0 && g.Path != "" {
			if g.Class == kind && (g.Path == path1 || g.Path == path2) && (g.Proc == p.Key || g.Proc == "*") {
				f = g
				break
			}
			continue
		}
		if g.Proc == p.Key && g.Op == p.Ops {
			f = g
			break
		}
	}
	if f != nil && f.Sticky {
		g := *f
		g.Proc = kind
		p.sticky = append(p.sticky, g)
	}
	if f == nil {
		for i := range p.sticky {
			if sameClass(p.sticky[i].Proc, kind) {
				f = &p.sticky[i]
			}
		}
	}
	o := Op{Seq: w.Steps, Proc: p.Key, Idx: p.Ops, Kind: kind, Path: path1, Path2: path2}
	if f != nil {
		o.Fault = f.Kind
		w.Fired[kind+"/"+f.Kind]++
	}
	w.mix(o.String())
	if w.Keep {
		w.Trace = append(w.Trace, o)
	}
	if w.OnOp != nil {
		w.OnOp(w, &o)
	}
	if f != nil {
		switch f.Kind {
		case "kill":
			if kind == "write" {
				return f // the caller writes a part, then dies
			}
			p.killAll(top)
		case "power":
			if kind == "write" {
				return f
			}
			w.powerLoss()
			runtime.Goexit()
		case "sigkill":
			if p.parent != nil {
				panic(childKilled{})
			}
		}
	}
	return f
}

func (p *Proc) killAll(top *Proc) {
	top.kill()
	runtime.Goexit()
}

func (w *World) powerLoss() {
	w.Powered = true
	w.FS = w.FS.PowerLoss(w.power)
	w.FS.clock = func() time.Time { return w.now }
	for _, q := range w.procs {
		if !q.Exited {
			q.kill()
		}
	}
}

func (f *Fault) err() error {
	if f == nil {
		return nil
	}
	if e, ok := errnos[f.Kind]; ok {
		return e
	}
	return nil
}

func (p *Proc) changed(kind, a, b string) {
	if p.W.After != nil {
		o := Op{Seq: p.W.Steps, Proc: p.Key, Idx: p.Ops, Kind: kind, Path: a, Path2: b}
		p.W.After(p.W, &o)
	}
}

// Abs makes a path absolute for the disk.
func (p *Proc) Abs(name string) string {
	if strings.HasPrefix(name, "/") {
		return name
	}
	return p.Cwd + "/" + name
}

func (p *Proc) clean(name string) string { return path.Clean(p.Abs(name)) }

// ---- system calls ----

// Handle is an open file description.
type Handle struct {
	N      *Inode
	Name   string
	Abs    string
	Flag   int
	Off    int64
	Closed bool
	dirpos int
	names  []string
}

func (p *Proc) Open(name string, flag int, mode os.FileMode) (*Handle, error) {
	kind := "open"
	if flag&(os.O_CREATE|os.O_TRUNC|os.O_WRONLY|os.O_RDWR) != 0 {
		kind = "create"
	}
	abs := p.clean(name)
	f := p.enter(kind, abs, "")
	if e := f.err(); e != nil {
		return nil, e
	}
	if name == "" {
		return nil, syscall.ENOENT
	}
	n0, _ := p.W.FS.stat(p.Abs(name), true)
	trunc := n0 != nil && len(n0.Data) > 0 && flag&os.O_TRUNC != 0
	n, created, err := p.W.FS.open(p.Abs(name), flag, mode)
	if err != nil {
		return nil, err
	}
	p.NFD++
	if created || trunc {
		p.changed("create", abs, "")
	}
	return &Handle{N: n, Name: name, Abs: abs, Flag: flag}, nil
}

func (p *Proc) Close(h *Handle) error {
	f := p.enter("close", h.Abs, "")
	if h.Closed {
		return os.ErrClosed
	}
	h.Closed = true
	p.NFD--
	return f.err()
}

func (p *Proc) Read(h *Handle, b []byte) (int, error) { return p.readAt(h, b, &h.Off) }

func (p *Proc) ReadAt(h *Handle, b []byte, off int64) (int, error) { return p.readAt(h, b, &off) }

// readAt returns n==0, nil error at end of file like read(2).
func (p *Proc) readAt(h *Handle, b []byte, off *int64) (int, error) {
	f := p.enter("read", h.Abs, "")
	if h.Closed {
		return 0, os.ErrClosed
	}
	if e := f.err(); e != nil {
		return 0, e
	}
	if h.N.IsDir() {
		return 0, syscall.EISDIR
	}
	if h.Flag&os.O_WRONLY != 0 {
		return 0, syscall.EBADF
	}
	if *off >= int64(len(h.N.Data)) {
		return 0, nil
	}
	n := copy(b, h.N.Data[*off:])
	if p.W.ShortReads && n > 1 && p.W.chunk.P(2, 3) {
		n = 1 + p.W.chunk.Intn(n)
	}
	*off += int64(n)
	return n, nil
}

func (p *Proc) Write(h *Handle, b []byte) (int, error) {
	if h.Flag&os.O_APPEND != 0 {
		h.Off = int64(len(h.N.Data))
	}
	return p.writeAt(h, b, &h.Off)
}

func (p *Proc) WriteAt(h *Handle, b []byte, off int64) (int, error) { return p.writeAt(h, b, &off) }

func (p *Proc) writeAt(h *Handle, b []byte, off *int64) (int, error) {
	f := p.enter("write", h.Abs, "")
	if h.Closed {
		return 0, os.ErrClosed
	}
	if h.Flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, syscall.EBADF
	}
	n := len(b)
	if f != nil {
		n = int(int64(n) * int64(f.Arg) / 1000)
		if n > len(b) {
			n = len(b)
		}
	}
	if n > 0 {
		h.N.writeAt(b[:n], *off)
		h.N.Mtime = p.W.now
		*off += int64(n)
		p.changed("write", h.Abs, "")
	}
	if f != nil {
		switch f.Kind {
		case "kill":
			top := p
			for top.parent != nil {
				top = top.parent
			}
			p.killAll(top)
		case "power":
			p.W.powerLoss()
			runtime.Goexit()
		}
		if e := f.err(); e != nil {
			return n, e
		}
	}
	return n, nil
}

func (p *Proc) Sync(h *Handle) error {
	f := p.enter("sync", h.Abs, "")
	if h.Closed {
		return os.ErrClosed
	}
	if e := f.err(); e != nil {
		return e
	}
	p.W.FS.fsync(h.N)
	return nil
}

func (p *Proc) Truncate(name string, h *Handle, size int64) error {
	abs := ""
	if h != nil {
		abs = h.Abs
	} else {
		abs = p.clean(name)
	}
	f := p.enter("truncate", abs, "")
	if e := f.err(); e != nil {
		return e
	}
	var n *Inode
	if h != nil {
		if h.Closed {
			return os.ErrClosed
		}
		n = h.N
	} else {
		var err error
		if n, err = p.W.FS.stat(p.Abs(name), true); err != nil {
			return err
		}
	}
	if n.IsDir() {
		return syscall.EISDIR
	}
	d := make([]byte, size)
	copy(d, n.Data)
	n.Data = d
	p.changed("truncate", abs, "")
	return nil
}

func (p *Proc) Stat(name string, follow bool) (*Info, error) {
	abs := p.clean(name)
	f := p.enter("stat", abs, "")
	if e := f.err(); e != nil {
		return nil, e
	}
	if name == "" {
		return nil, syscall.ENOENT
	}
	n, err := p.W.FS.stat(p.Abs(name), follow)
	if err != nil {
		return nil, err
	}
	return info(path.Base(abs), n), nil
}

func (p *Proc) Fstat(h *Handle) (*Info, error) {
	f := p.enter("stat", h.Abs, "")
	if h.Closed {
		return nil, os.ErrClosed
	}
	if e := f.err(); e != nil {
		return nil, e
	}
	return info(path.Base(h.Abs), h.N), nil
}

// ReadDirNames returns the names in directory order (arbitrary).
func (p *Proc) ReadDirNames(h *Handle) ([]string, error) {
	f := p.enter("readdir", h.Abs, "")
	if h.Closed {
		return nil, os.ErrClosed
	}
	if e := f.err(); e != nil {
		return nil, e
	}
	if !h.N.IsDir() {
		return nil, syscall.ENOTDIR
	}
	if h.names == nil {
		var names []string
		for n := range h.N.Ents {
			names = append(names, n)
		}
		sort.Strings(names)
		perm := p.W.names.Perm(len(names))
		h.names = make([]string, len(names))
		for i, j := range perm {
			h.names[i] = names[j]
		}
		if h.names == nil {
			h.names = []string{}
		}
	}
	return h.names, nil
}

// DirPos is the position of a directory handle.
func (h *Handle) DirPos() *int { return &h.dirpos }

func (p *Proc) Mkdir(name string, mode os.FileMode) error {
	abs := p.clean(name)
	f := p.enter("mkdir", abs, "")
	if e := f.err(); e != nil {
		return e
	}
	if name == "" {
		return syscall.ENOENT
	}
	if err := p.W.FS.mkdir(p.Abs(strings.TrimRight(name, "/")), mode); err != nil {
		return err
	}
	p.changed("mkdir", abs, "")
	return nil
}

func (p *Proc) Unlink(name string) error {
	abs := p.clean(name)
	f := p.enter("unlink", abs, "")
	if e := f.err(); e != nil {
		return e
	}
	if err := p.W.FS.rmfile(p.Abs(name)); err != nil {
		return err
	}
	p.changed("unlink", abs, "")
	return nil
}

func (p *Proc) Rmdir(name string) error {
	abs := p.clean(name)
	f := p.enter("rmdir", abs, "")
	if e := f.err(); e != nil {
		return e
	}
	if err := p.W.FS.rmdir(p.Abs(name)); err != nil {
		return err
	}
	p.changed("rmdir", abs, "")
	return nil
}

func (p *Proc) Rename(a, b string) error {
	aa, bb := p.clean(a), p.clean(b)
	f := p.enter("rename", aa, bb)
	if e := f.err(); e != nil {
		return e
	}
	if err := p.W.FS.rename(p.Abs(a), p.Abs(b)); err != nil {
		return err
	}
	p.changed("rename", aa, bb)
	return nil
}

func (p *Proc) Chmod(name string, h *Handle, mode os.FileMode) error {
	abs := ""
	if h != nil {
		abs = h.Abs
	} else {
		abs = p.clean(name)
	}
	f := p.enter("chmod", abs, "")
	if e := f.err(); e != nil {
		return e
	}
	var n *Inode
	var err error
	if h != nil {
		n = h.N
	} else if n, err = p.W.FS.stat(p.Abs(name), true); err != nil {
		return err
	}
	n.Mode = n.Mode&^0777 | mode&0777
	p.changed("chmod", abs, "")
	return nil
}

// Touch is a metadata change without effect on the properties (chown, chtimes).
func (p *Proc) Touch(name string, h *Handle) error {
	abs := ""
	if h != nil {
		abs = h.Abs
	} else {
		abs = p.clean(name)
	}
	f := p.enter("chmod", abs, "")
	if e := f.err(); e != nil {
		return e
	}
	if h == nil {
		_, err := p.W.FS.stat(p.Abs(name), true)
		return err
	}
	return nil
}

func (p *Proc) Symlink(target, name string) error {
	abs := p.clean(name)
	f := p.enter("link", abs, "")
	if e := f.err(); e != nil {
		return e
	}
	dir, base, n, err := p.W.FS.walk(p.Abs(name), false)
	if err != nil {
		return err
	}
	if n != nil {
		return syscall.EEXIST
	}
	l := p.W.FS.alloc(os.ModeSymlink | 0777)
	l.Link = target
	p.W.FS.link(dir, base, l)
	p.changed("link", abs, "")
	return nil
}

func (p *Proc) Link(a, b string) error {
	abs := p.clean(b)
	f := p.enter("link", abs, "")
	if e := f.err(); e != nil {
		return e
	}
	src, err := p.W.FS.stat(p.Abs(a), false)
	if err != nil {
		return err
	}
	if src.IsDir() {
		return syscall.EPERM
	}
	dir, base, n, err := p.W.FS.walk(p.Abs(b), false)
	if err != nil {
		return err
	}
	if n != nil {
		return syscall.EEXIST
	}
	p.W.FS.link(dir, base, src)
	p.changed("link", abs, "")
	return nil
}

func (p *Proc) Readlink(name string) (string, error) {
	abs := p.clean(name)
	f := p.enter("readlink", abs, "")
	if e := f.err(); e != nil {
		return "", e
	}
	n, err := p.W.FS.stat(p.Abs(name), false)
	if err != nil {
		return "", err
	}
	if n.Mode&os.ModeSymlink == 0 {
		return "", syscall.EINVAL
	}
	return n.Link, nil
}

func (p *Proc) Getwd() (string, error) {
	f := p.enter("getcwd", p.Cwd, "")
	if e := f.err(); e != nil {
		return "", e
	}
	return p.Cwd, nil
}

func (p *Proc) Chdir(name string) error {
	n, err := p.W.FS.stat(p.Abs(name), true)
	if err != nil {
		return err
	}
	if !n.IsDir() {
		return syscall.ENOTDIR
	}
	p.Cwd = p.clean(name)
	return nil
}

// TempSuffix is a random part of a temporary file's name.
func (p *Proc) TempSuffix() string {
	return fmt.Sprintf("%d", 100000+p.W.names.Intn(899999999))
}

// RandInt is the process's own randomness (math/rand).
func (p *Proc) Rand() *Rand { return p.W.names }

// Info is a FileInfo.
type Info struct {
	name string
	size int64
	mode os.FileMode
	mt   time.Time
	id   int
}

func info(name string, n *Inode) *Info {
	return &Info{name: name, size: int64(len(n.Data)), mode: n.Mode, mt: n.Mtime, id: n.ID}
}

func (i *Info) Name() string       { return i.name }
func (i *Info) Size() int64        { return i.size }
func (i *Info) Mode() os.FileMode  { return i.mode }
func (i *Info) ModTime() time.Time { return i.mt.Local() }
func (i *Info) IsDir() bool        { return i.mode.IsDir() }
func (i *Info) Sys() interface{}   { return nil }
func (i *Info) ID() int            { return i.id }

// ---- other programs ----

type ExecReq struct {
	Path  string
	Args  []string
	Dir   string
	Env   []string
	Stdin []byte
}

type ExecRes struct {
	Out, Err []byte
	Code     int
	Killed   bool
	StartErr error
}

type LoadRes struct {
	None          bool
	PkgPath, Name string
	Errs          []string
	Err           error
}

var (
	failCodes = []int{1, 1, 2, 127, 255}
	failTexts = []string{"simulated failure\n", "", "x.proto:5:1: warning: Import google/protobuf/any.proto is unused.\n", "--go_out: protoc-gen-go: Plugin failed with status code 1.\n"}
)

// RunChild executes another program as a child of the process.
func (p *Proc) RunChild(c *ExecReq) (res ExecRes) {
	f := p.enter("exec", c.Path, "")
	if f != nil {
		if e := f.err(); e != nil {
			return ExecRes{StartErr: e}
		}
		switch f.Kind {
		case "exit1":
			return ExecRes{Code: failCodes[f.Arg%len(failCodes)], Err: []byte(failTexts[f.Arg/8%len(failTexts)])}
		case "sigkill":
			return ExecRes{Killed: true, Code: -1}
		}
	}
	p.Kids++
	ch := &Proc{W: p.W, Key: fmt.Sprintf("%s.%d", p.Key, p.Kids), Args: c.Args, Env: p.Env, Cwd: p.Cwd, parent: p, Pid: p.Pid + p.Kids}
	if c.Dir != "" {
		ch.Cwd = p.clean(c.Dir)
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(childKilled); ok {
				res = ExecRes{Killed: true, Code: -1}
				return
			}
			panic(r)
		}
	}()
	if p.W.Exec == nil {
		return ExecRes{StartErr: syscall.ENOENT}
	}
	res = p.W.Exec(ch, c)
	if f != nil && f.Kind == "exitlate" && res.Code == 0 && !res.Killed && res.StartErr == nil {
		// it did all its work and fails all the same
		res.Code, res.Err = failCodes[f.Arg%len(failCodes)], []byte(failTexts[f.Arg/8%len(failTexts)])
	}
	return res
}

// LoadPackage is the go command answering which package a directory is.
func (p *Proc) LoadPackage(dir string) LoadRes {
	f := p.enter("pkgload", dir, "")
	if f != nil && f.Kind == "none" { // packages.Load may find no package without an error
		return LoadRes{None: true}
	}
	if f != nil && f.Kind != "" {
		return LoadRes{Err: fmt.Errorf("err: exit status 1: stderr: go: simulated failure")}
	}
	return p.W.Load(p, dir)
}

// YieldLive is a point at which another thread may run, unless this process
// is already ending.
func YieldLive() {
	p := Self()
	if p == nil || p.dead {
		return
	}
	Yield()
}

// Shuffle puts things in an order the simulator chooses.
func Shuffle(n int, swap func(i, j int)) {
	if Cur == nil {
		return
	}
	for i := n - 1; i > 0; i-- {
		swap(i, Cur.maps.Intn(i+1))
	}
}

// Owned makes f run as a thread of the process that is running now.
func Owned(f func()) func() {
	e := entity()
	if e == nil {
		return f
	}
	h := e.head()
	return func() { h.thread(f) }
}

// Spawn runs f, made by Owned.
func Spawn(f func()) { f() }

// blame: the simulation itself is at fault.
func (w *World) blame(s string) {
	if strings.HasPrefix(s, "harness: ") && w.Harness == "" {
		w.Harness = s[len("harness: "):]
	}
}
