// Package log stands for go-kit's.
package log

type Logger interface {
	Log(keyvals ...interface{}) error
}

type nopLogger struct{}

func NewNopLogger() Logger { return nopLogger{} }

func (nopLogger) Log(...interface{}) error { return nil }

type LoggerFunc func(...interface{}) error

func (f LoggerFunc) Log(keyvals ...interface{}) error { return f(keyvals...) }
