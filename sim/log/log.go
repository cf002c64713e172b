package log

import (
	rfmt "fmt"
	"io"
	rlog "log"

	"github.com/teamlint/baron/zz_sim/os"
)

const (
	Ldate         = rlog.Ldate
	Ltime         = rlog.Ltime
	Lmicroseconds = rlog.Lmicroseconds
	Llongfile     = rlog.Llongfile
	Lshortfile    = rlog.Lshortfile
	LUTC          = rlog.LUTC
	Lmsgprefix    = rlog.Lmsgprefix
	LstdFlags     = rlog.LstdFlags
)

// Logger is a logger without time stamps.
type Logger struct {
	l *rlog.Logger
}

type stderr struct{}

func (stderr) Write(b []byte) (int, error) { return os.Stderr.Write(b) }

var std = &Logger{rlog.New(stderr{}, "", 0)}

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{rlog.New(w, prefix, 0)} }
func Default() *Logger                                 { return std }

func (l *Logger) SetOutput(w io.Writer)             { l.l.SetOutput(w) }
func (l *Logger) SetFlags(int)                      {}
func (l *Logger) Flags() int                        { return 0 }
func (l *Logger) SetPrefix(p string)                { l.l.SetPrefix(p) }
func (l *Logger) Prefix() string                    { return l.l.Prefix() }
func (l *Logger) Print(v ...interface{})            { l.l.Print(v...) }
func (l *Logger) Printf(f string, v ...interface{}) { l.l.Printf(f, v...) }
func (l *Logger) Println(v ...interface{})          { l.l.Println(v...) }
func (l *Logger) Fatal(v ...interface{})            { l.l.Print(v...); os.Exit(1) }
func (l *Logger) Fatalf(f string, v ...interface{}) { l.l.Printf(f, v...); os.Exit(1) }
func (l *Logger) Fatalln(v ...interface{})          { l.l.Println(v...); os.Exit(1) }
func (l *Logger) Panic(v ...interface{})            { s := rfmt.Sprint(v...); l.l.Print(s); panic(s) }
func (l *Logger) Panicf(f string, v ...interface{}) {
	s := rfmt.Sprintf(f, v...)
	l.l.Print(s)
	panic(s)
}
func (l *Logger) Output(c int, s string) error { l.l.Print(s); return nil }

func SetOutput(w io.Writer)             { std.SetOutput(w) }
func SetFlags(int)                      {}
func SetPrefix(p string)                { std.SetPrefix(p) }
func Print(v ...interface{})            { std.Print(v...) }
func Printf(f string, v ...interface{}) { std.Printf(f, v...) }
func Println(v ...interface{})          { std.Println(v...) }
func Fatal(v ...interface{})            { std.Fatal(v...) }
func Fatalf(f string, v ...interface{}) { std.Fatalf(f, v...) }
func Fatalln(v ...interface{})          { std.Fatalln(v...) }
func Panic(v ...interface{})            { std.Panic(v...) }
func Panicf(f string, v ...interface{}) { std.Panicf(f, v...) }

func (l *Logger) Panicln(v ...interface{}) { s := rfmt.Sprintln(v...); l.l.Print(s); panic(s) }
func (l *Logger) Writer() io.Writer        { return l.l.Writer() }
func Panicln(v ...interface{})             { std.Panicln(v...) }
func Writer() io.Writer                    { return std.Writer() }
func Flags() int                           { return 0 }
func Prefix() string                       { return std.Prefix() }
func Output(c int, s string) error         { return std.Output(c, s) }
