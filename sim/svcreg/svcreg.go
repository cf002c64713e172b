// Package svcreg is where generated services and the simulator meet.
package svcreg

import (
	"context"
	"net/http"
)

// Config is what server.Config may have.
type Config struct {
	HTTPAddr, GRPCAddr, NATSAddr, DebugAddr string
	Debug                                   bool
}

// Service is a generated service.
type Service struct {
	Name       string
	File       interface{} // its protoreflect.FileDescriptor
	Service    string
	Methods    []string    // Go names, in the order of the definition
	Iface      interface{} // (*pb.FooServer)(nil)
	Run        func(Config)
	HTTPClient func(addr string, keys []string) (interface{}, error)
	GRPCClient func(addr string, keys []string) (interface{}, error)
	NATSClient func(addr string) (interface{}, error)
	HasHTTP    bool
	HasGRPC    bool
	HasNATS    bool
	HasDebug   bool
}

// Services by name.
var Services = map[string]*Service{}

// Register is called by the services.
func Register(s *Service) { Services[s.Name] = s }

// Hooks of the simulator.
var (
	Handle       = func(ctx context.Context, svc, method string, in interface{}) (interface{}, error) { return nil, nil }
	Wrap         = func(svc string, endpoints interface{}) {}
	HTTPRequest  = func(ctx context.Context, r *http.Request) context.Context { return ctx }
	HTTPResponse = func(ctx context.Context, r *http.Response) context.Context { return ctx }
	NATSRequest  = func(ctx context.Context, data []byte) []byte { return data }
	NATSResponse = func(ctx context.Context, data []byte) []byte { return data }
)
