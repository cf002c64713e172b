// Package signal delivers the signals the simulation sends.
package signal

import (
	rctx "context"
	rt "os"

	"github.com/teamlint/baron/zz_sim/context"
	"github.com/teamlint/baron/zz_sim/k"
)

func Notify(c chan<- rt.Signal, sig ...rt.Signal) { k.NotifySignals(c, sig) }
func Stop(c chan<- rt.Signal)                     { k.StopSignals(c) }
func Ignore(sig ...rt.Signal)                     { k.IgnoreSignals(sig) }
func Ignored(sig rt.Signal) bool                  { return k.IgnoredSignal(sig) }
func Reset(sig ...rt.Signal)                      { k.ResetSignals(sig) }

// NotifyContext makes a context which ends when one of the signals arrives.
func NotifyContext(parent rctx.Context, sig ...rt.Signal) (rctx.Context, rctx.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	k.OnSignal(&ctx, sig, cancel)
	return ctx, func() {
		cancel()
		k.OffSignal(&ctx)
	}
}
