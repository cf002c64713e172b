// Package http is the network side of net/http over the simulated network:
// servers and the transport of clients. Requests and responses are read and
// written by the real net/http.
package http

import (
	"bufio"
	"bytes"
	rctx "context"
	"crypto/tls"
	"fmt"
	"io"
	"log"
	rnet "net"
	rt "net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/teamlint/baron/zz_sim/context"
	"github.com/teamlint/baron/zz_sim/k"
	"github.com/teamlint/baron/zz_sim/net"
	"github.com/teamlint/baron/zz_sim/os"
)

// Server is an HTTP server.
type Server struct {
	Addr                         string
	Handler                      rt.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	TLSNextProto                 map[string]func(*rt.Server, *tls.Conn, rt.Handler)
	ConnState                    func(rnet.Conn, rt.ConnState)
	ErrorLog                     *log.Logger
	BaseContext                  func(rnet.Listener) rctx.Context
	ConnContext                  func(ctx rctx.Context, c rnet.Conn) rctx.Context

	mu     sync.Mutex
	ls     []rnet.Listener
	down   bool
	active int
	onDown []func()
}

func ListenAndServe(addr string, h rt.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}

func ListenAndServeTLS(addr, cert, key string, h rt.Handler) error {
	return fmt.Errorf("simhttp: no TLS")
}

func Serve(l rnet.Listener, h rt.Handler) error { return (&Server{Handler: h}).Serve(l) }

func (s *Server) ListenAndServe() error {
	if s.down {
		return rt.ErrServerClosed
	}
	a := s.Addr
	if a == "" {
		a = ":http"
	}
	l, err := net.Listen("tcp", a)
	if err != nil {
		return err
	}
	return s.Serve(l)
}

func (s *Server) ListenAndServeTLS(cert, key string) error { return fmt.Errorf("simhttp: no TLS") }

func (s *Server) RegisterOnShutdown(f func()) { s.onDown = append(s.onDown, f) }

func (s *Server) SetKeepAlivesEnabled(bool) {}

// Close closes the listeners.
func (s *Server) Close() error {
	s.down = true
	for _, l := range s.ls {
		l.Close()
	}
	return nil
}

// Shutdown closes the listeners and waits for the requests being served.
func (s *Server) Shutdown(ctx rctx.Context) error {
	s.Close()
	for _, f := range s.onDown {
		k.Go(f)
	}
	k.Wait(func() bool { return s.active > 0 && ctx.Err() == nil })
	if s.active > 0 {
		return ctx.Err()
	}
	return nil
}

func (s *Server) Serve(l rnet.Listener) error {
	s.ls = append(s.ls, l)
	base := rctx.Background()
	if s.BaseContext != nil {
		base = s.BaseContext(l)
	}
	defer l.Close()
	var delay time.Duration
	for {
		c, err := l.Accept()
		if err != nil {
			if s.down {
				return rt.ErrServerClosed
			}
			if ne, ok := err.(rnet.Error); ok && ne.Temporary() {
				if delay == 0 {
					delay = 5 * time.Millisecond
				} else if delay *= 2; delay > time.Second {
					delay = time.Second
				}
				s.logf("http: Accept error: %v; retrying in %v", err, delay)
				k.Pause(delay)
				continue
			}
			return err
		}
		delay = 0
		k.Go(func() { s.conn(base, c) })
	}
}

func (s *Server) logf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
}

func (s *Server) conn(base rctx.Context, c rnet.Conn) {
	defer c.Close()
	limit := &io.LimitedReader{R: c}
	br := bufio.NewReader(limit)
	headers := int64(s.MaxHeaderBytes)
	if headers <= 0 {
		headers = rt.DefaultMaxHeaderBytes
	}
	for first := true; ; first = false {
		if !first && s.IdleTimeout != 0 {
			deadline(c.SetReadDeadline, s.IdleTimeout)
			if _, err := br.Peek(1); err != nil {
				return
			}
		}
		wait := s.ReadHeaderTimeout
		if wait == 0 {
			wait = s.ReadTimeout
		}
		deadline(c.SetReadDeadline, wait)
		begin := time.Time{}
		if k.Cur != nil {
			begin = k.Cur.Peek()
		}
		limit.N = headers + 4096
		req, err := rt.ReadRequest(br)
		if err != nil && limit.N <= 0 {
			io.WriteString(c, "HTTP/1.1 431 Request Header Fields Too Large\r\nContent-Type: text/plain; charset=utf-8\r\nConnection: close\r\n\r\n431 Request Header Fields Too Large")
			return
		}
		limit.N = 1 << 62
		if err != nil {
			if err != io.EOF && !isNet(err) {
				io.WriteString(c, "HTTP/1.1 400 Bad Request\r\nContent-Type: text/plain; charset=utf-8\r\nConnection: close\r\n\r\n400 Bad Request")
			}
			return
		}
		if s.ReadTimeout > 0 {
			c.SetReadDeadline(begin.Add(s.ReadTimeout))
		} else {
			c.SetReadDeadline(time.Time{})
		}
		deadline(c.SetWriteDeadline, s.WriteTimeout)
		req.RemoteAddr = c.RemoteAddr().String()
		ctx, cancel := context.WithCancel(base)
		ctx = rctx.WithValue(ctx, rt.LocalAddrContextKey, c.LocalAddr())
		req = req.WithContext(ctx)
		h := s.Handler
		if h == nil {
			h = rt.DefaultServeMux
		}
		w := &response{c: c, req: req, h: rt.Header{}}
		s.active++
		ok := s.serve(h, w, req)
		s.active--
		if !ok {
			cancel()
			return
		}
		if w.finish() != nil {
			cancel()
			return
		}
		cancel()
		if req.Close || req.Header.Get("Connection") == "close" || w.h.Get("Connection") == "close" || req.ProtoMajor == 1 && req.ProtoMinor == 0 {
			return
		}
		if _, err := io.Copy(io.Discard, req.Body); err != nil {
			return
		}
	}
}

func deadline(set func(time.Time) error, d time.Duration) {
	if d > 0 && k.Cur != nil {
		set(k.Cur.Peek().Add(d))
	} else {
		set(time.Time{})
	}
}

func isNet(err error) bool {
	_, ok := err.(rnet.Error)
	return ok || err == io.ErrUnexpectedEOF
}

func (s *Server) serve(h rt.Handler, w *response, req *rt.Request) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if k.Control(r) {
				panic(r)
			}
			if r != rt.ErrAbortHandler {
				s.logf("http: panic serving %v: %v", req.RemoteAddr, r)
			}
			ok = false
		}
	}()
	h.ServeHTTP(w, req)
	return true
}

// response is what a handler writes to.
type response struct {
	c       rnet.Conn
	req     *rt.Request
	h       rt.Header
	sentH   rt.Header
	code    int
	buf     bytes.Buffer
	started bool
	chunked bool
	err     error
	left    int64
}

func (w *response) Header() rt.Header { return w.h }

func (w *response) WriteHeader(code int) {
	if code < 100 || code > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", code))
	}
	if code < 200 && code != 101 && w.code == 0 {
		// not the final status; clients skip it
		return
	}
	if w.code != 0 {
		fmt.Fprintf(os.Stderr, "http: superfluous response.WriteHeader call\n")
		return
	}
	w.code = code
	w.sentH = w.h.Clone()
}

func (w *response) noBody() bool {
	return w.req.Method == "HEAD" || w.code == 204 || w.code == 304 || w.code >= 100 && w.code < 200
}

func (w *response) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.WriteHeader(200)
	}
	if w.code == 204 || w.code == 304 || w.code >= 100 && w.code < 200 {
		return 0, rt.ErrBodyNotAllowed
	}
	if cl := w.sentH.Get("Content-Length"); cl != "" {
		n, err := strconv.ParseInt(cl, 10, 64)
		if err == nil {
			w.left += int64(len(b))
			if w.left > n {
				return 0, rt.ErrContentLength
			}
		}
	}
	w.buf.Write(b)
	if w.buf.Len() > 2048 {
		w.flush(false)
	}
	if w.err != nil {
		return 0, w.err
	}
	return len(b), nil
}

func (w *response) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w *response) Flush() {
	if w.code == 0 {
		w.WriteHeader(200)
	}
	w.flush(false)
}

func (w *response) out(s string) {
	if w.err != nil {
		return
	}
	_, w.err = io.WriteString(w.c, s)
}

func (w *response) flush(last bool) {
	if !w.started {
		w.started = true
		h := w.sentH
		if h.Get("Content-Length") == "" && !w.noBody() {
			if last {
				h.Set("Content-Length", strconv.Itoa(w.buf.Len()))
			} else {
				h.Set("Transfer-Encoding", "chunked")
				w.chunked = true
			}
		} else if w.req.Method == "HEAD" && last && h.Get("Content-Length") == "" && w.buf.Len() > 0 {
			h.Set("Content-Length", strconv.Itoa(w.buf.Len()))
		}
		if h.Get("Content-Type") == "" && !w.noBody() && w.buf.Len() > 0 {
			h.Set("Content-Type", rt.DetectContentType(w.buf.Bytes()))
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "HTTP/1.1 %03d %s\r\n", w.code, rt.StatusText(w.code))
		h.Write(&b)
		b.WriteString("\r\n")
		w.out(b.String())
	}
	if w.noBody() {
		w.buf.Reset()
		return
	}
	if w.buf.Len() > 0 {
		if w.chunked {
			w.out(fmt.Sprintf("%x\r\n%s\r\n", w.buf.Len(), w.buf.String()))
		} else {
			w.out(w.buf.String())
		}
		w.buf.Reset()
	}
	if last && w.chunked {
		w.out("0\r\n\r\n")
	}
}

func (w *response) finish() error {
	if w.code == 0 {
		w.WriteHeader(200)
	}
	w.flush(true)
	return w.err
}

// TimeoutHandler answers with 503 what takes longer than dt.
func TimeoutHandler(h rt.Handler, dt time.Duration, msg string) rt.Handler {
	return rt.HandlerFunc(func(w rt.ResponseWriter, r *rt.Request) {
		ctx, cancel := context.WithTimeout(r.Context(), dt)
		defer cancel()
		tw := &held{h: rt.Header{}}
		done := false
		var bad interface{}
		k.Go(func() {
			defer func() {
				if bad = recover(); bad != nil && k.Control(bad) {
					panic(bad)
				}
				done = true
			}()
			h.ServeHTTP(tw, r.WithContext(ctx))
		})
		k.Wait(func() bool { return !done && ctx.Err() == nil })
		switch {
		case done && bad != nil:
			panic(bad)
		case done:
			for key, v := range tw.h {
				w.Header()[key] = v
			}
			if tw.code == 0 {
				tw.code = 200
			}
			w.WriteHeader(tw.code)
			w.Write(tw.b.Bytes())
		default:
			tw.late = true
			if msg == "" {
				msg = "<html><head><title>Timeout</title></head><body><h1>Timeout</h1></body></html>"
			}
			w.WriteHeader(503)
			io.WriteString(w, msg)
		}
	})
}

type held struct {
	h    rt.Header
	code int
	b    bytes.Buffer
	late bool
}

func (w *held) Header() rt.Header { return w.h }
func (w *held) WriteHeader(c int) {
	if w.code == 0 && c >= 200 {
		w.code = c
	}
}
func (w *held) Write(b []byte) (int, error) {
	if w.late {
		return 0, rt.ErrHandlerTimeout
	}
	w.WriteHeader(200)
	return w.b.Write(b)
}

// Client is a client whose timeout is simulated.
type Client struct {
	Transport     rt.RoundTripper
	CheckRedirect func(req *rt.Request, via []*rt.Request) error
	Jar           rt.CookieJar
	Timeout       time.Duration
}

func (c *Client) real() *rt.Client {
	return &rt.Client{Transport: c.Transport, CheckRedirect: c.CheckRedirect, Jar: c.Jar}
}

func (c *Client) Do(req *rt.Request) (*rt.Response, error) {
	if c.Timeout <= 0 {
		return c.real().Do(req)
	}
	ctx, cancel := context.WithTimeout(req.Context(), c.Timeout)
	resp, err := c.real().Do(req.WithContext(ctx))
	if err != nil {
		cancel()
		return nil, err
	}
	resp.Body = &timed{resp.Body, cancel}
	return resp, nil
}

type timed struct {
	io.ReadCloser
	cancel func()
}

func (t *timed) Close() error {
	err := t.ReadCloser.Close()
	t.cancel()
	return err
}

func (c *Client) Get(u string) (*rt.Response, error) {
	req, err := rt.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func (c *Client) Head(u string) (*rt.Response, error) {
	req, err := rt.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func (c *Client) Post(u, kind string, body io.Reader) (*rt.Response, error) {
	req, err := rt.NewRequest("POST", u, body)
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", kind)
	return c.Do(req)
}

func (c *Client) CloseIdleConnections() {}

// Transport carries requests over the simulated network.
type Transport struct{}

// Tamper may change what a proxy on the way makes of a response; it is given
// the number of the request in this world.
type Tamper func(n int, resp *rt.Response) *rt.Response

var closing sync.Mutex

func (t *Transport) RoundTrip(req *rt.Request) (*rt.Response, error) {
	ctx := req.Context()
	host := req.URL.Host
	if !strings.Contains(host, ":") {
		host += ":80"
	}
	var body []byte
	if req.Body != nil {
		var err error
		body, err = io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return nil, err
		}
	}
	r2 := req.Clone(rctx.Background())
	r2.Close = true
	r2.Body, r2.ContentLength = nil, 0
	if len(body) > 0 {
		r2.Body, r2.ContentLength = io.NopCloser(bytes.NewReader(body)), int64(len(body))
		if k.Cur != nil && k.Cur.Net().P(1, 3) {
			r2.ContentLength = -1
			r2.TransferEncoding = []string{"chunked"}
		}
	}
	var wire bytes.Buffer
	if err := r2.Write(&wire); err != nil {
		return nil, err
	}
	c, err := net.DialContext(ctx, "tcp", host)
	if err != nil {
		return nil, err
	}
	if _, err := c.Write(wire.Bytes()); err != nil {
		c.Close()
		return nil, err
	}
	br := bufio.NewReader(c)
	resp, err := rt.ReadResponse(br, req)
	if err != nil {
		c.Close()
		if ctx.Err() != nil {
			return nil, ctx.Err()
		}
		if err == io.ErrUnexpectedEOF {
			err = io.EOF
		}
		return nil, err
	}
	resp.Body = &body_{resp.Body, c}
	if k.Cur != nil {
		if f, ok := k.Cur.Ext["http.tamper"].(Tamper); ok {
			return f(0, resp), nil
		}
	}
	return resp, nil
}

type body_ struct {
	io.ReadCloser
	c rnet.Conn
}

func (b *body_) Close() error {
	// the real transport reads the rest or gives the connection up
	return b.c.Close()
}

func init() { rt.DefaultTransport = &Transport{} }
