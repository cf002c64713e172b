// Package mux stands for gorilla/mux: routing by method and path template.
package mux

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"path"
	"regexp"
	"strings"
)

var (
	ErrMethodMismatch = errors.New("method is not allowed")
	ErrNotFound       = errors.New("no matching route was found")
)

// MiddlewareFunc wraps handlers.
type MiddlewareFunc func(http.Handler) http.Handler

type RouteMatch struct {
	Route    *Route
	Handler  http.Handler
	Vars     map[string]string
	MatchErr error
}

// Router routes requests.
type Router struct {
	NotFoundHandler         http.Handler
	MethodNotAllowedHandler http.Handler
	routes                  []*Route
	strictSlash             bool
	skipClean               bool
	useEncodedPath          bool
	middlewares             []MiddlewareFunc
}

func NewRouter() *Router { return &Router{} }

func (r *Router) StrictSlash(v bool) *Router { r.strictSlash = v; return r }
func (r *Router) SkipClean(v bool) *Router   { r.skipClean = v; return r }
func (r *Router) UseEncodedPath() *Router    { r.useEncodedPath = true; return r }
func (r *Router) Use(m ...MiddlewareFunc)    { r.middlewares = append(r.middlewares, m...) }
func (r *Router) NewRoute() *Route {
	rt := &Route{r: r}
	r.routes = append(r.routes, rt)
	return rt
}
func (r *Router) Methods(m ...string) *Route { return r.NewRoute().Methods(m...) }
func (r *Router) Path(t string) *Route       { return r.NewRoute().Path(t) }
func (r *Router) PathPrefix(t string) *Route { return r.NewRoute().PathPrefix(t) }
func (r *Router) Name(n string) *Route       { return r.NewRoute().Name(n) }
func (r *Router) Headers(p ...string) *Route { return r.NewRoute().Headers(p...) }
func (r *Router) Queries(p ...string) *Route { return r.NewRoute().Queries(p...) }
func (r *Router) Handle(p string, h http.Handler) *Route {
	return r.NewRoute().Path(p).Handler(h)
}
func (r *Router) HandleFunc(p string, f func(http.ResponseWriter, *http.Request)) *Route {
	return r.NewRoute().Path(p).HandlerFunc(f)
}

func (r *Router) Match(req *http.Request, m *RouteMatch) bool {
	for _, rt := range r.routes {
		if rt.Match(req, m) {
			if m.MatchErr == nil {
				for i := len(r.middlewares) - 1; i >= 0; i-- {
					m.Handler = r.middlewares[i](m.Handler)
				}
			}
			return true
		}
	}
	if m.MatchErr == ErrMethodMismatch {
		if r.MethodNotAllowedHandler != nil {
			m.Handler = r.MethodNotAllowedHandler
			return true
		}
		return false
	}
	if r.NotFoundHandler != nil {
		m.Handler = r.NotFoundHandler
		m.MatchErr = ErrNotFound
		return true
	}
	m.MatchErr = ErrNotFound
	return false
}

func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	if !r.skipClean {
		p := req.URL.Path
		if r.useEncodedPath {
			p = req.URL.EscapedPath()
		}
		if c := cleanPath(p); c != p {
			url := *req.URL
			url.Path = c
			c = url.String()
			w.Header().Set("Location", c)
			w.WriteHeader(http.StatusMovedPermanently)
			return
		}
	}
	var m RouteMatch
	var h http.Handler
	if r.Match(req, &m) {
		h = m.Handler
		ctx := context.WithValue(req.Context(), varsKey, m.Vars)
		ctx = context.WithValue(ctx, routeKey, m.Route)
		req = req.WithContext(ctx)
	}
	if h == nil && m.MatchErr == ErrMethodMismatch {
		h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(http.StatusMethodNotAllowed) })
	}
	if h == nil {
		h = http.NotFoundHandler()
	}
	h.ServeHTTP(w, req)
}

func cleanPath(p string) string {
	if p == "" {
		return "/"
	}
	if p[0] != '/' {
		p = "/" + p
	}
	np := path.Clean(p)
	if p[len(p)-1] == '/' && np != "/" {
		np += "/"
	}
	return np
}

type key int

const (
	varsKey key = iota
	routeKey
)

// Vars are the path variables of a request.
func Vars(r *http.Request) map[string]string {
	if v, ok := r.Context().Value(varsKey).(map[string]string); ok {
		return v
	}
	return nil
}

func CurrentRoute(r *http.Request) *Route {
	rt, _ := r.Context().Value(routeKey).(*Route)
	return rt
}

func SetURLVars(r *http.Request, val map[string]string) *http.Request {
	return r.WithContext(context.WithValue(r.Context(), varsKey, val))
}

// Route is one route.
type Route struct {
	r       *Router
	methods []string
	re      *regexp.Regexp
	tpl     string
	names   []string
	h       http.Handler
	name    string
	err     error
	headers []string
	queries []string
}

func (t *Route) Methods(m ...string) *Route {
	for i := range m {
		m[i] = strings.ToUpper(m[i])
	}
	t.methods = append([]string{}, m...)
	return t
}
func (t *Route) Name(n string) *Route          { t.name = n; return t }
func (t *Route) GetName() string               { return t.name }
func (t *Route) GetError() error               { return t.err }
func (t *Route) Headers(p ...string) *Route    { t.headers = append(t.headers, p...); return t }
func (t *Route) Queries(p ...string) *Route    { t.queries = append(t.queries, p...); return t }
func (t *Route) Handler(h http.Handler) *Route { t.h = h; return t }
func (t *Route) HandlerFunc(f func(http.ResponseWriter, *http.Request)) *Route {
	return t.Handler(http.HandlerFunc(f))
}
func (t *Route) GetPathTemplate() (string, error) { return t.tpl, t.err }
func (t *Route) GetMethods() ([]string, error)    { return t.methods, t.err }
func (t *Route) Path(tpl string) *Route           { return t.path(tpl, false) }
func (t *Route) PathPrefix(tpl string) *Route     { return t.path(tpl, true) }

func (t *Route) path(tpl string, prefix bool) *Route {
	t.tpl = tpl
	if len(tpl) > 0 && tpl[0] != '/' {
		t.err = fmt.Errorf("mux: path must start with a slash, got %q", tpl)
		return t
	}
	var pat strings.Builder
	pat.WriteString("^")
	rest := tpl
	for rest != "" {
		i := strings.IndexByte(rest, '{')
		if i < 0 {
			if strings.IndexByte(rest, '}') >= 0 {
				t.err = fmt.Errorf("mux: unbalanced braces in %q", tpl)
				return t
			}
			pat.WriteString(regexp.QuoteMeta(rest))
			break
		}
		pat.WriteString(regexp.QuoteMeta(rest[:i]))
		depth, j := 0, i
		for ; j < len(rest); j++ {
			if rest[j] == '{' {
				depth++
			}
			if rest[j] == '}' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		if depth != 0 {
			t.err = fmt.Errorf("mux: unbalanced braces in %q", tpl)
			return t
		}
		parts := strings.SplitN(rest[i+1:j], ":", 2)
		re := "[^/]+"
		if len(parts) == 2 {
			re = parts[1]
		}
		if parts[0] == "" || re == "" {
			t.err = fmt.Errorf("mux: missing name or pattern in %q", rest[i:j+1])
			return t
		}
		fmt.Fprintf(&pat, "(?P<v%d>%s)", len(t.names), re)
		for _, n := range t.names {
			if n == parts[0] {
				t.err = fmt.Errorf("mux: duplicated route variable %q", n)
				return t
			}
		}
		t.names = append(t.names, parts[0])
		rest = rest[j+1:]
	}
	if !prefix {
		pat.WriteString("$")
	}
	re, err := regexp.Compile(pat.String())
	if err != nil {
		t.err = err
		return t
	}
	t.re = re
	return t
}

func (t *Route) Match(req *http.Request, m *RouteMatch) bool {
	if t.err != nil {
		return false
	}
	p := req.URL.Path
	if t.r.useEncodedPath {
		p = req.URL.EscapedPath()
	}
	var vars []int
	if t.re != nil {
		vars = t.re.FindStringSubmatchIndex(p)
		if vars == nil {
			return false
		}
	}
	for i := 0; i+1 < len(t.headers); i += 2 {
		if req.Header.Get(t.headers[i]) != t.headers[i+1] {
			return false
		}
	}
	for i := 0; i+1 < len(t.queries); i += 2 {
		if req.URL.Query().Get(t.queries[i]) != t.queries[i+1] {
			return false
		}
	}
	if t.methods != nil {
		ok := false
		for _, x := range t.methods {
			ok = ok || x == req.Method
		}
		if !ok {
			m.MatchErr = ErrMethodMismatch
			return false
		}
	}
	m.MatchErr = nil
	m.Route = t
	m.Handler = t.h
	m.Vars = map[string]string{}
	for i, n := range t.names {
		// group v<i>
		for gi, gn := range t.re.SubexpNames() {
			if gn == fmt.Sprintf("v%d", i) && vars[2*gi] >= 0 {
				m.Vars[n] = p[vars[2*gi]:vars[2*gi+1]]
			}
		}
	}
	return true
}
