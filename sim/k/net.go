package k

import (
	"runtime"
	"time"
)

// Mark records something that happened outside the disk (a message, a
// connection) in the trace and the fingerprint of the execution.
func (w *World) Mark(proc, kind, a, b string) {
	w.Steps++
	w.mix(proc)
	w.mix(kind)
	w.mix(a)
	w.mix(b)
	if w.Keep {
		w.Trace = append(w.Trace, Op{Seq: w.Steps, Proc: proc, Kind: kind, Path: a, Path2: b})
	}
}

// Net is the stream of choices of the simulated network.
func (w *World) Net() *Rand {
	if w.net == nil {
		w.net = NewRand(w.Seed, "net")
	}
	return w.net
}

// Gone says whether the process has ended.
func (p *Proc) Gone() bool { return p.Exited || p.dead }

// Kill ends the process at once.
func (p *Proc) Kill() { p.kill() }

// Control says whether a recovered value belongs to the simulator and has to
// be passed on.
func Control(r interface{}) bool {
	_, a := r.(tickBudget)
	_, b := r.(childKilled)
	return a || b
}

// Wait parks the running thread while cond holds.
func Wait(cond func() bool) {
	p := Self()
	if p == nil {
		if cond() {
			panic("harness: nothing to wait for outside the simulation")
		}
		return
	}
	p.Block(cond)
}

// In has f called by the simulator when d has passed.
func (w *World) In(d time.Duration, f func()) { w.AddTimer(d, f) }

// Exit ends the running thread.
func Exit() { runtime.Goexit() }

// Peek is the simulated time; looking does not advance it.
func (w *World) Peek() time.Time { return w.now }

// PauseMs lets milliseconds pass.
func PauseMs(ms int64) { Pause(time.Duration(ms) * time.Millisecond) }

// SetFinalizer is runtime.SetFinalizer of a program whose memory is never collected.
func SetFinalizer(obj, finalizer interface{}) {}
