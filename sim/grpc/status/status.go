// Package status has gRPC statuses.
package status

import (
	"context"
	"errors"
	"fmt"

	"github.com/teamlint/baron/zz_sim/grpc/codes"
)

// Status is a status.
type Status struct {
	c codes.Code
	m string
}

func New(c codes.Code, msg string) *Status { return &Status{c, msg} }
func Newf(c codes.Code, f string, a ...interface{}) *Status {
	return New(c, fmt.Sprintf(f, a...))
}
func Error(c codes.Code, msg string) error                  { return New(c, msg).Err() }
func Errorf(c codes.Code, f string, a ...interface{}) error { return Error(c, fmt.Sprintf(f, a...)) }

func (s *Status) Code() codes.Code {
	if s == nil {
		return codes.OK
	}
	return s.c
}
func (s *Status) Message() string {
	if s == nil {
		return ""
	}
	return s.m
}
func (s *Status) Err() error {
	if s.Code() == codes.OK {
		return nil
	}
	return &statusErr{s}
}

type statusErr struct{ s *Status }

func (e *statusErr) Error() string {
	return fmt.Sprintf("rpc error: code = %s desc = %s", e.s.c, e.s.m)
}
func (e *statusErr) GRPCStatus() *Status { return e.s }
func (e *statusErr) Is(t error) bool {
	x, ok := t.(*statusErr)
	return ok && *x.s == *e.s
}

func FromError(err error) (*Status, bool) {
	if err == nil {
		return nil, true
	}
	if g, ok := err.(interface{ GRPCStatus() *Status }); ok {
		return g.GRPCStatus(), true
	}
	return New(codes.Unknown, err.Error()), false
}

func Convert(err error) *Status {
	s, _ := FromError(err)
	return s
}

func Code(err error) codes.Code {
	if err == nil {
		return codes.OK
	}
	if g, ok := err.(interface{ GRPCStatus() *Status }); ok {
		return g.GRPCStatus().Code()
	}
	return codes.Unknown
}

func FromContextError(err error) *Status {
	switch {
	case err == nil:
		return nil
	case errors.Is(err, context.DeadlineExceeded):
		return New(codes.DeadlineExceeded, err.Error())
	case errors.Is(err, context.Canceled):
		return New(codes.Canceled, err.Error())
	}
	return New(codes.Unknown, err.Error())
}
