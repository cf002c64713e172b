package k

import "os"

type sigReg struct {
	c   chan<- os.Signal
	sig []os.Signal
	key interface{} // with f instead of c
	f   func()
	ign bool
}

// IgnoreSignals lets signals have no effect.
func IgnoreSignals(sig []os.Signal) {
	if p := Self(); p != nil {
		ResetSignals(sig)
		p.sigs = append(p.sigs, sigReg{sig: append([]os.Signal(nil), sig...), ign: true})
	}
}

// IgnoredSignal says whether a signal has no effect.
func IgnoredSignal(sig os.Signal) bool {
	if p := Self(); p != nil {
		for _, s := range p.sigs {
			if s.ign && s.has(sig) {
				return true
			}
		}
	}
	return false
}

// ResetSignals gives signals their usual effect back.
func ResetSignals(sig []os.Signal) {
	p := Self()
	if p == nil {
		return
	}
	var live []sigReg
	for _, s := range p.sigs {
		if len(sig) == 0 {
			continue
		}
		if len(s.sig) == 0 {
			live = append(live, s)
			continue
		}
		var left []os.Signal
		for _, x := range s.sig {
			if !(sigReg{sig: sig}).has(x) {
				left = append(left, x)
			}
		}
		if len(left) > 0 {
			s.sig = left
			live = append(live, s)
		}
	}
	p.sigs = live
}

// OnSignal calls f when a signal arrives.
func OnSignal(key interface{}, sig []os.Signal, f func()) {
	if p := Self(); p != nil {
		p.sigs = append(p.sigs, sigReg{sig: append([]os.Signal(nil), sig...), key: key, f: f})
		Yield()
	}
}

// OffSignal ends what OnSignal began.
func OffSignal(key interface{}) {
	if p := Self(); p != nil {
		live := p.sigs[:0:0]
		for _, s := range p.sigs {
			if s.key != key {
				live = append(live, s)
			}
		}
		p.sigs = live
	}
}

func (s sigReg) has(sig os.Signal) bool {
	for _, q := range s.sig {
		if q == sig {
			return true
		}
	}
	return len(s.sig) == 0
}

// NotifySignals registers a channel of the running process.
func NotifySignals(c chan<- os.Signal, sig []os.Signal) {
	p := Self()
	if p == nil {
		return
	}
	p.sigs = append(p.sigs, sigReg{c: c, sig: append([]os.Signal(nil), sig...)})
	Yield()
}

// StopSignals removes a registration.
func StopSignals(c chan<- os.Signal) {
	p := Self()
	if p == nil {
		return
	}
	live := p.sigs[:0]
	for _, s := range p.sigs {
		if s.c != c || s.c == nil {
			live = append(live, s)
		}
	}
	p.sigs = live
}

// Signal delivers a signal; it says whether the process was killed by it.
func (p *Proc) Signal(sig os.Signal) bool {
	caught := false
	for _, s := range p.sigs {
		if !s.has(sig) {
			continue
		}
		caught = true
		if s.f != nil {
			s.f()
		} else if s.c != nil {
			TrySend(p.W, s.c, sig)
		}
	}
	if !caught {
		p.kill()
	}
	return !caught
}
