// Package flag parses the command line of a simulated process.
package flag

import (
	"errors"
	rflag "flag"
	"time"

	"github.com/teamlint/baron/zz_sim/os"
)

type (
	Flag          = rflag.Flag
	Value         = rflag.Value
	Getter        = rflag.Getter
	ErrorHandling = rflag.ErrorHandling
)

const (
	ContinueOnError = rflag.ContinueOnError
	ExitOnError     = rflag.ExitOnError
	PanicOnError    = rflag.PanicOnError
)

var ErrHelp = rflag.ErrHelp

// FlagSet is a set of flags.
type FlagSet struct {
	*rflag.FlagSet
	eh ErrorHandling
}

type stderr struct{}

func (stderr) Write(b []byte) (int, error) { return os.Stderr.Write(b) }

// NewFlagSet makes a set.
func NewFlagSet(name string, eh ErrorHandling) *FlagSet {
	f := &FlagSet{rflag.NewFlagSet(name, rflag.ContinueOnError), eh}
	f.SetOutput(stderr{})
	return f
}

// Parse parses arguments.
func (f *FlagSet) Parse(args []string) error {
	err := f.FlagSet.Parse(args)
	if err == nil {
		return nil
	}
	switch f.eh {
	case ExitOnError:
		if errors.Is(err, ErrHelp) {
			os.Exit(0)
		}
		os.Exit(2)
	case PanicOnError:
		panic(err)
	}
	return err
}

// CommandLine belongs to a process.
var CommandLine *FlagSet

// Usage can be set; it belongs to a process, too.
var Usage func()

// SimGlobals returns pointers to the per-process variables.
func SimGlobals() []interface{} { return []interface{}{&CommandLine, &Usage} }

// SimStart is called in a fresh process.
func SimStart() {
	CommandLine = NewFlagSet("command", ExitOnError)
	Usage = func() { CommandLine.PrintDefaults() }
}

func Parse() {
	CommandLine.Usage = func() { Usage() }
	CommandLine.Parse(os.Args[1:])
}
func Parsed() bool                       { return CommandLine.Parsed() }
func Args() []string                     { return CommandLine.Args() }
func Arg(i int) string                   { return CommandLine.Arg(i) }
func NArg() int                          { return CommandLine.NArg() }
func NFlag() int                         { return CommandLine.NFlag() }
func Lookup(n string) *Flag              { return CommandLine.Lookup(n) }
func Set(n, v string) error              { return CommandLine.Set(n, v) }
func Visit(f func(*Flag))                { CommandLine.Visit(f) }
func VisitAll(f func(*Flag))             { CommandLine.VisitAll(f) }
func PrintDefaults()                     { CommandLine.PrintDefaults() }
func Var(v Value, n, u string)           { CommandLine.Var(v, n, u) }
func UnquoteUsage(f *Flag) (n, u string) { return rflag.UnquoteUsage(f) }

func Bool(n string, v bool, u string) *bool          { return CommandLine.Bool(n, v, u) }
func Int(n string, v int, u string) *int             { return CommandLine.Int(n, v, u) }
func Int64(n string, v int64, u string) *int64       { return CommandLine.Int64(n, v, u) }
func Uint(n string, v uint, u string) *uint          { return CommandLine.Uint(n, v, u) }
func Uint64(n string, v uint64, u string) *uint64    { return CommandLine.Uint64(n, v, u) }
func Float64(n string, v float64, u string) *float64 { return CommandLine.Float64(n, v, u) }
func String(n string, v string, u string) *string    { return CommandLine.String(n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration {
	return CommandLine.Duration(n, v, u)
}
func BoolVar(p *bool, n string, v bool, u string)          { CommandLine.BoolVar(p, n, v, u) }
func IntVar(p *int, n string, v int, u string)             { CommandLine.IntVar(p, n, v, u) }
func Int64Var(p *int64, n string, v int64, u string)       { CommandLine.Int64Var(p, n, v, u) }
func UintVar(p *uint, n string, v uint, u string)          { CommandLine.UintVar(p, n, v, u) }
func Uint64Var(p *uint64, n string, v uint64, u string)    { CommandLine.Uint64Var(p, n, v, u) }
func Float64Var(p *float64, n string, v float64, u string) { CommandLine.Float64Var(p, n, v, u) }
func StringVar(p *string, n string, v string, u string)    { CommandLine.StringVar(p, n, v, u) }
func DurationVar(p *time.Duration, n string, v time.Duration, u string) {
	CommandLine.DurationVar(p, n, v, u)
}
func Func(n, u string, fn func(string) error)     { CommandLine.Func(n, u, fn) }
func BoolFunc(n, u string, fn func(string) error) { CommandLine.BoolFunc(n, u, fn) }
