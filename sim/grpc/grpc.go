// Package grpc is a small gRPC over the simulated network: unary calls only,
// one frame each way, the semantics of the real one at the level of calls.
package grpc

import (
	"bufio"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"

	simctx "github.com/teamlint/baron/zz_sim/context"
	"github.com/teamlint/baron/zz_sim/grpc/codes"
	"github.com/teamlint/baron/zz_sim/grpc/keepalive"
	"github.com/teamlint/baron/zz_sim/grpc/metadata"
	"github.com/teamlint/baron/zz_sim/grpc/status"
	"github.com/teamlint/baron/zz_sim/k"
	simnet "github.com/teamlint/baron/zz_sim/net"
)

const (
	SupportPackageIsVersion3 = true
	SupportPackageIsVersion4 = true
	SupportPackageIsVersion5 = true
	SupportPackageIsVersion6 = true
	SupportPackageIsVersion7 = true
)

const Version = "1.38.0"

var (
	ErrServerStopped     = errors.New("grpc: the server has been stopped")
	ErrClientConnClosing = status.Error(codes.Canceled, "grpc: the client connection is closing")
)

// Code is an alias of older programs.
func Code(err error) codes.Code { return status.Code(err) }

type UnaryServerInfo struct {
	Server     interface{}
	FullMethod string
}

type UnaryHandler func(ctx context.Context, req interface{}) (interface{}, error)

type UnaryServerInterceptor func(ctx context.Context, req interface{}, info *UnaryServerInfo, handler UnaryHandler) (resp interface{}, err error)

type UnaryInvoker func(ctx context.Context, method string, req, reply interface{}, cc *ClientConn, opts ...CallOption) error

type UnaryClientInterceptor func(ctx context.Context, method string, req, reply interface{}, cc *ClientConn, invoker UnaryInvoker, opts ...CallOption) error

type MethodDesc struct {
	MethodName string
	Handler    func(srv interface{}, ctx context.Context, dec func(interface{}) error, interceptor UnaryServerInterceptor) (interface{}, error)
}

type StreamHandler func(srv interface{}, stream ServerStream) error

type StreamDesc struct {
	StreamName    string
	Handler       StreamHandler
	ServerStreams bool
	ClientStreams bool
}

type ServiceDesc struct {
	ServiceName string
	HandlerType interface{}
	Methods     []MethodDesc
	Streams     []StreamDesc
	Metadata    interface{}
}

type ServiceRegistrar interface {
	RegisterService(desc *ServiceDesc, impl interface{})
}

type Stream interface {
	Context() context.Context
	SendMsg(m interface{}) error
	RecvMsg(m interface{}) error
}

type ClientStream interface {
	Header() (metadata.MD, error)
	Trailer() metadata.MD
	CloseSend() error
	Context() context.Context
	SendMsg(m interface{}) error
	RecvMsg(m interface{}) error
}

type ServerStream interface {
	SetHeader(metadata.MD) error
	SendHeader(metadata.MD) error
	SetTrailer(metadata.MD)
	Context() context.Context
	SendMsg(m interface{}) error
	RecvMsg(m interface{}) error
}

type ClientConnInterface interface {
	Invoke(ctx context.Context, method string, args interface{}, reply interface{}, opts ...CallOption) error
	NewStream(ctx context.Context, desc *StreamDesc, method string, opts ...CallOption) (ClientStream, error)
}

// ---- messages ----

type reqHead struct {
	Method string
	MD     metadata.MD
}

type respHead struct {
	Code    uint32
	Msg     string
	Header  metadata.MD
	Trailer metadata.MD
}

func frame(head interface{}, body []byte) []byte {
	h, err := json.Marshal(head)
	if err != nil {
		panic("harness: " + err.Error())
	}
	b := make([]byte, 8, 8+len(h)+len(body))
	binary.BigEndian.PutUint32(b, uint32(len(h)))
	binary.BigEndian.PutUint32(b[4:], uint32(len(body)))
	return append(append(b, h...), body...)
}

func unframe(r io.Reader, head interface{}) ([]byte, error) {
	var l [8]byte
	if _, err := io.ReadFull(r, l[:]); err != nil {
		return nil, err
	}
	h := make([]byte, binary.BigEndian.Uint32(l[:4]))
	if _, err := io.ReadFull(r, h); err != nil {
		return nil, err
	}
	b := make([]byte, binary.BigEndian.Uint32(l[4:]))
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	if err := json.Unmarshal(h, head); err != nil {
		panic("harness: damaged frame")
	}
	return b, nil
}

func marshal(m interface{}) ([]byte, error) {
	pm, ok := m.(proto.Message)
	if !ok {
		return nil, fmt.Errorf("proto: failed to marshal, message is %T (missing vtprotobuf helpers)", m)
	}
	if v := reflect.ValueOf(m); v.Kind() == reflect.Ptr && v.IsNil() {
		return nil, errors.New("proto: Marshal called with nil")
	}
	return proto.MarshalOptions{Deterministic: true}.Marshal(pm)
}

func unmarshal(b []byte, m interface{}) error {
	pm, ok := m.(proto.Message)
	if !ok {
		return fmt.Errorf("failed to unmarshal, message is %T", m)
	}
	return proto.Unmarshal(b, pm)
}

// ---- client ----

// ClientConn is a connection to a server.
type ClientConn struct {
	target string
	closed bool
	o      dialOptions
}

type dialOptions struct {
	unary UnaryClientInterceptor
	chain []UnaryClientInterceptor
	calls []CallOption
}

// DialOption is an option of Dial.
type DialOption func(*dialOptions)

func noDial(*dialOptions) {}

// How a connection is made has no effect here: one is opened for each call.
func WithInsecure() DialOption                                  { return noDial }
func WithBlock() DialOption                                     { return noDial }
func WithTransportCredentials(interface{}) DialOption           { return noDial }
func WithPerRPCCredentials(interface{}) DialOption              { return noDial }
func WithTimeout(time.Duration) DialOption                      { return noDial }
func WithUserAgent(string) DialOption                           { return noDial }
func WithAuthority(string) DialOption                           { return noDial }
func FailOnNonTempDialError(bool) DialOption                    { return noDial }
func WithReturnConnectionError() DialOption                     { return noDial }
func WithDisableRetry() DialOption                              { return noDial }
func WithDisableServiceConfig() DialOption                      { return noDial }
func WithDefaultServiceConfig(string) DialOption                { return noDial }
func WithKeepaliveParams(keepalive.ClientParameters) DialOption { return noDial }
func WithReadBufferSize(int) DialOption                         { return noDial }
func WithWriteBufferSize(int) DialOption                        { return noDial }
func WithInitialWindowSize(int32) DialOption                    { return noDial }
func WithInitialConnWindowSize(int32) DialOption                { return noDial }
func WithStreamInterceptor(interface{}) DialOption              { return noDial }
func WithChainStreamInterceptor(...interface{}) DialOption      { return noDial }
func WithBackoffMaxDelay(time.Duration) DialOption              { return noDial }
func WithContextDialer(func(context.Context, string) (net.Conn, error)) DialOption {
	return noDial
}
func WithChainUnaryInterceptor(f ...UnaryClientInterceptor) DialOption {
	return func(o *dialOptions) { o.chain = append(o.chain, f...) }
}
func WithDefaultCallOptions(c ...CallOption) DialOption {
	return func(o *dialOptions) { o.calls = append(o.calls, c...) }
}
func WithMaxMsgSize(n int) DialOption { return WithDefaultCallOptions(MaxCallRecvMsgSize(n)) }
func WithUnaryInterceptor(f UnaryClientInterceptor) DialOption {
	return func(o *dialOptions) { o.unary = f }
}

func Dial(target string, opts ...DialOption) (*ClientConn, error) {
	return DialContext(context.Background(), target, opts...)
}

func DialContext(ctx context.Context, target string, opts ...DialOption) (*ClientConn, error) {
	cc := &ClientConn{target: target}
	for _, o := range opts {
		o(&cc.o)
	}
	return cc, nil
}

func (cc *ClientConn) Close() error {
	if cc.closed {
		return ErrClientConnClosing
	}
	cc.closed = true
	return nil
}

func (cc *ClientConn) Target() string { return cc.target }

// CallOption is an option of a call.
type CallOption interface{ after(h, t metadata.MD) }

type HeaderCallOption struct{ HeaderAddr *metadata.MD }
type TrailerCallOption struct{ TrailerAddr *metadata.MD }
type EmptyCallOption struct{}

func (o HeaderCallOption) after(h, t metadata.MD)  { *o.HeaderAddr = h }
func (o TrailerCallOption) after(h, t metadata.MD) { *o.TrailerAddr = t }
func (EmptyCallOption) after(h, t metadata.MD)     {}

func Header(md *metadata.MD) CallOption  { return HeaderCallOption{md} }
func Trailer(md *metadata.MD) CallOption { return TrailerCallOption{md} }
func WaitForReady(bool) CallOption       { return EmptyCallOption{} }
func FailFast(bool) CallOption           { return EmptyCallOption{} }
func UseCompressor(string) CallOption    { return EmptyCallOption{} }

type MaxRecvMsgSizeCallOption struct {
	EmptyCallOption
	MaxRecvMsgSize int
}
type MaxSendMsgSizeCallOption struct {
	EmptyCallOption
	MaxSendMsgSize int
}

func MaxCallRecvMsgSize(n int) CallOption { return MaxRecvMsgSizeCallOption{MaxRecvMsgSize: n} }
func MaxCallSendMsgSize(n int) CallOption { return MaxSendMsgSizeCallOption{MaxSendMsgSize: n} }

const maxMsg = 4 << 20 // what is received by default

func (cc *ClientConn) NewStream(ctx context.Context, desc *StreamDesc, method string, opts ...CallOption) (ClientStream, error) {
	return nil, status.Error(codes.Unimplemented, "simgrpc: no streams")
}

// Invoke makes a unary call.
func (cc *ClientConn) Invoke(ctx context.Context, method string, args, reply interface{}, opts ...CallOption) error {
	opts = append(append([]CallOption(nil), cc.o.calls...), opts...)
	chain := cc.o.chain
	if cc.o.unary != nil {
		chain = append([]UnaryClientInterceptor{cc.o.unary}, chain...)
	}
	return through(chain)(ctx, method, args, reply, cc, opts...)
}

func through(chain []UnaryClientInterceptor) UnaryInvoker {
	if len(chain) == 0 {
		return invoke
	}
	return func(ctx context.Context, method string, req, reply interface{}, cc *ClientConn, opts ...CallOption) error {
		return chain[0](ctx, method, req, reply, cc, through(chain[1:]), opts...)
	}
}

func invoke(ctx context.Context, method string, args, reply interface{}, cc *ClientConn, opts ...CallOption) error {
	if cc.closed {
		return ErrClientConnClosing
	}
	if !strings.HasPrefix(method, "/") {
		method = "/" + method
	}
	data, err := marshal(args)
	if err != nil {
		return status.Error(codes.Internal, "grpc: error while marshaling: "+err.Error())
	}
	recv := maxMsg
	for _, o := range opts {
		switch o := o.(type) {
		case MaxRecvMsgSizeCallOption:
			recv = o.MaxRecvMsgSize
		case MaxSendMsgSizeCallOption:
			if len(data) > o.MaxSendMsgSize {
				return status.Error(codes.ResourceExhausted, fmt.Sprintf("trying to send message larger than max (%d vs. %d)", len(data), o.MaxSendMsgSize))
			}
		}
	}
	fail := func(err error) error {
		if ctx.Err() != nil {
			return status.FromContextError(ctx.Err()).Err()
		}
		return status.Error(codes.Unavailable, "transport: "+err.Error())
	}
	c, err := simnet.DialContext(ctx, "tcp", cc.target)
	if err != nil {
		return fail(err)
	}
	defer c.Close()
	md, _ := metadata.FromOutgoingContext(ctx)
	if _, err := c.Write(frame(reqHead{method, md}, data)); err != nil {
		return fail(err)
	}
	var h respHead
	body, err := unframe(c, &h)
	if err != nil {
		return fail(err)
	}
	for _, o := range opts {
		o.after(h.Header, h.Trailer)
	}
	if h.Code != 0 {
		return status.Error(codes.Code(h.Code), h.Msg)
	}
	if len(body) > recv {
		return status.Error(codes.ResourceExhausted, fmt.Sprintf("grpc: received message larger than max (%d vs. %d)", len(body), recv))
	}
	if err := unmarshal(body, reply); err != nil {
		return status.Error(codes.Internal, "grpc: failed to unmarshal the received message "+err.Error())
	}
	return nil
}

// ---- server ----

// Server is a gRPC server.
type Server struct {
	o        serverOptions
	svc      map[string]*service
	ls       []net.Listener
	stopped  bool
	draining bool
	active   int
	started  bool
}

type service struct {
	impl interface{}
	m    map[string]*MethodDesc
}

type serverOptions struct {
	unary UnaryServerInterceptor
	chain []UnaryServerInterceptor
	recv  int
	send  int
}

// ServerOption is an option of NewServer.
type ServerOption func(*serverOptions)

func UnaryInterceptor(f UnaryServerInterceptor) ServerOption {
	return func(o *serverOptions) { o.unary = f }
}

func ChainUnaryInterceptor(f ...UnaryServerInterceptor) ServerOption {
	return func(o *serverOptions) { o.chain = append(o.chain, f...) }
}
func MaxRecvMsgSize(n int) ServerOption { return func(o *serverOptions) { o.recv = n } }
func MaxMsgSize(n int) ServerOption     { return MaxRecvMsgSize(n) }
func MaxSendMsgSize(n int) ServerOption { return func(o *serverOptions) { o.send = n } }

func noServer(*serverOptions) {}

// These have no effect here.
func Creds(interface{}) ServerOption                                      { return noServer }
func ConnectionTimeout(time.Duration) ServerOption                        { return noServer }
func KeepaliveParams(keepalive.ServerParameters) ServerOption             { return noServer }
func KeepaliveEnforcementPolicy(keepalive.EnforcementPolicy) ServerOption { return noServer }
func MaxConcurrentStreams(uint32) ServerOption                            { return noServer }
func MaxHeaderListSize(uint32) ServerOption                               { return noServer }
func NumStreamWorkers(uint32) ServerOption                                { return noServer }
func ReadBufferSize(int) ServerOption                                     { return noServer }
func WriteBufferSize(int) ServerOption                                    { return noServer }
func InitialWindowSize(int32) ServerOption                                { return noServer }
func InitialConnWindowSize(int32) ServerOption                            { return noServer }
func StreamInterceptor(interface{}) ServerOption                          { return noServer }
func ChainStreamInterceptor(...interface{}) ServerOption                  { return noServer }

func NewServer(opts ...ServerOption) *Server {
	s := &Server{svc: map[string]*service{}}
	s.o.recv, s.o.send = maxMsg, 1<<31-1
	for _, o := range opts {
		o(&s.o)
	}
	chain := s.o.chain
	if s.o.unary != nil {
		chain = append([]UnaryServerInterceptor{s.o.unary}, chain...)
	}
	switch len(chain) {
	case 0:
	case 1:
		s.o.unary = chain[0]
	default:
		s.o.unary = func(ctx context.Context, req interface{}, info *UnaryServerInfo, handler UnaryHandler) (interface{}, error) {
			h := handler
			for i := len(chain) - 1; i >= 0; i-- {
				f, next := chain[i], h
				h = func(ctx context.Context, req interface{}) (interface{}, error) { return f(ctx, req, info, next) }
			}
			return h(ctx, req)
		}
	}
	return s
}

// MethodInfo and ServiceInfo tell what a server offers.
type MethodInfo struct {
	Name           string
	IsClientStream bool
	IsServerStream bool
}
type ServiceInfo struct {
	Methods  []MethodInfo
	Metadata interface{}
}

func (s *Server) GetServiceInfo() map[string]ServiceInfo {
	r := map[string]ServiceInfo{}
	for n, v := range s.svc {
		var i ServiceInfo
		for m := range v.m {
			i.Methods = append(i.Methods, MethodInfo{Name: m})
		}
		r[n] = i
	}
	return r
}

func (s *Server) RegisterService(sd *ServiceDesc, impl interface{}) {
	if impl != nil {
		ht := reflect.TypeOf(sd.HandlerType).Elem()
		if !reflect.TypeOf(impl).Implements(ht) {
			panic(fmt.Sprintf("grpc: Server.RegisterService found the handler of type %T that does not satisfy %v", impl, ht))
		}
	}
	if s.started {
		panic("grpc: Server.RegisterService after Server.Serve")
	}
	if s.svc[sd.ServiceName] != nil {
		panic("grpc: Server.RegisterService found duplicate service registration for " + sd.ServiceName)
	}
	v := &service{impl, map[string]*MethodDesc{}}
	for i := range sd.Methods {
		v.m[sd.Methods[i].MethodName] = &sd.Methods[i]
	}
	s.svc[sd.ServiceName] = v
}

func (s *Server) Serve(l net.Listener) error {
	s.started = true
	if s.stopped {
		l.Close()
		return ErrServerStopped
	}
	s.ls = append(s.ls, l)
	var delay int64
	for {
		c, err := l.Accept()
		if err != nil {
			if s.stopped || s.draining {
				return nil
			}
			if ne, ok := err.(interface{ Temporary() bool }); ok && ne.Temporary() {
				if delay == 0 {
					delay = 5
				} else if delay *= 2; delay > 1000 {
					delay = 1000
				}
				k.PauseMs(delay)
				continue
			}
			return err
		}
		delay = 0
		k.Go(func() { s.conn(c) })
	}
}

// Stop closes everything.
func (s *Server) Stop() {
	s.stopped = true
	for _, l := range s.ls {
		l.Close()
	}
}

// GracefulStop lets calls finish.
func (s *Server) GracefulStop() {
	s.draining = true
	for _, l := range s.ls {
		l.Close()
	}
	k.Wait(func() bool { return s.active > 0 && !s.stopped })
}

func (s *Server) conn(c net.Conn) {
	defer c.Close()
	var h reqHead
	body, err := unframe(bufio.NewReader(c), &h)
	if err != nil {
		return
	}
	s.active++
	defer func() { s.active-- }()
	hd := &hdr{}
	var reply interface{}
	if len(body) > s.o.recv {
		err = status.Error(codes.ResourceExhausted, fmt.Sprintf("grpc: received message larger than max (%d vs. %d)", len(body), s.o.recv))
	} else {
		reply, err = s.call(&h, body, hd)
	}
	r := respHead{Header: hd.h, Trailer: hd.t}
	var data []byte
	if err == nil {
		if data, err = marshal(reply); err != nil {
			err = status.Error(codes.Internal, "grpc: error while marshaling: "+err.Error())
		} else if len(data) > s.o.send {
			err = status.Error(codes.ResourceExhausted, fmt.Sprintf("trying to send message larger than max (%d vs. %d)", len(data), s.o.send))
		}
	}
	if err != nil {
		st, ok := status.FromError(err)
		if !ok {
			st = status.New(codes.Unknown, err.Error())
		}
		r.Code, r.Msg = uint32(st.Code()), st.Message()
		data = nil
	}
	c.Write(frame(r, data))
}

type hdr struct{ h, t metadata.MD }
type hdrKey struct{}

func SetHeader(ctx context.Context, md metadata.MD) error {
	if h, ok := ctx.Value(hdrKey{}).(*hdr); ok {
		h.h = metadata.Join(h.h, md)
		return nil
	}
	return status.Error(codes.Internal, "grpc: failed to fetch the stream from the context")
}

func SendHeader(ctx context.Context, md metadata.MD) error { return SetHeader(ctx, md) }

func SetTrailer(ctx context.Context, md metadata.MD) error {
	if h, ok := ctx.Value(hdrKey{}).(*hdr); ok {
		h.t = metadata.Join(h.t, md)
		return nil
	}
	return status.Error(codes.Internal, "grpc: failed to fetch the stream from the context")
}

func (s *Server) call(h *reqHead, body []byte, hd *hdr) (interface{}, error) {
	i := strings.LastIndex(h.Method, "/")
	if i < 1 {
		return nil, status.Errorf(codes.Unimplemented, "malformed method name: %q", h.Method)
	}
	sn, mn := h.Method[1:i], h.Method[i+1:]
	v := s.svc[sn]
	if v == nil {
		return nil, status.Errorf(codes.Unimplemented, "unknown service %v", sn)
	}
	m := v.m[mn]
	if m == nil {
		return nil, status.Errorf(codes.Unimplemented, "unknown method %v for service %v", mn, sn)
	}
	md := metadata.MD{}
	for kk, vv := range h.MD {
		md[strings.ToLower(kk)] = vv
	}
	ctx := metadata.NewIncomingContext(context.Background(), md)
	ctx = context.WithValue(ctx, hdrKey{}, hd)
	ctx, cancel := simctx.WithCancel(ctx)
	defer cancel()
	dec := func(x interface{}) error {
		if err := unmarshal(body, x); err != nil {
			return status.Error(codes.Internal, "grpc: error unmarshalling request: "+err.Error())
		}
		return nil
	}
	return m.Handler(v.impl, ctx, dec, s.o.unary)
}
