package rpc

import (
	"encoding/json"
	"os"
	"reflect"
	"regexp"
	"strings"

	"google.golang.org/genproto/googleapis/api/annotations"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/teamlint/baron/zz_sim/svcreg"
)

// Def is a definition and what became of it.
type Def struct {
	Name      string            `json:"name"`
	Base      string            `json:"base"`
	Proto     string            `json:"proto"`
	Extra     map[string]string `json:"extra,omitempty"`
	Transport string            `json:"transport"`
	Err       string            `json:"err,omitempty"`
	Methods   []string          `json:"methods,omitempty"`
}

type rule struct{ verb, path, body string }

type method struct {
	name      string
	md        protoreflect.MethodDescriptor
	req, resp reflect.Type
	rules     []rule
	path      map[protoreflect.Name]bool // in the path of some binding
	query     map[protoreflect.Name]bool // in the query string of some binding
}

type service struct {
	*svcreg.Service
	def     *Def
	methods map[string]*method
	order   []string
}

var services []*service // all, usable or not

var braces = regexp.MustCompile(`\{([^}=]*)(=[^}]*)?\}`)

// Load reads what svcgen made.
func Load(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic("harness: " + err.Error())
	}
	var defs []*Def
	if err := json.Unmarshal(b, &defs); err != nil {
		panic("harness: " + err.Error())
	}
	for _, d := range defs {
		s := &service{def: d, methods: map[string]*method{}}
		services = append(services, s)
		if d.Err != "" {
			continue
		}
		s.Service = svcreg.Services[d.Name]
		if s.Service == nil {
			panic("harness: service " + d.Name + " is not there")
		}
		fd := s.File.(protoreflect.FileDescriptor)
		sd := fd.Services().Get(0)
		it := reflect.TypeOf(s.Iface).Elem()
		for at, n := range s.Methods {
			f, ok := it.MethodByName(n)
			if !ok {
				panic("harness: no method " + n)
			}
			m := &method{name: n, req: f.Type.In(1).Elem(), resp: f.Type.Out(0).Elem(), path: map[protoreflect.Name]bool{}, query: map[protoreflect.Name]bool{}}
			// in the order of the definition
			if at < sd.Methods().Len() {
				m.md = sd.Methods().Get(at)
			}
			if m.md == nil || canon(string(m.md.Name())) != canon(n) {
				panic("harness: method " + n + " is not in the definition")
			}
			if hr, ok := proto.GetExtension(m.md.Options(), annotations.E_Http).(*annotations.HttpRule); ok && hr != nil {
				m.addRule(hr)
				for _, a := range hr.AdditionalBindings {
					m.addRule(a)
				}
			}
			s.methods[n] = m
			s.order = append(s.order, n)
		}
	}
}

func canon(s string) string { return strings.ToLower(strings.Replace(s, "_", "", -1)) }

func (m *method) addRule(h *annotations.HttpRule) {
	r := rule{body: h.Body}
	switch p := h.Pattern.(type) {
	case *annotations.HttpRule_Get:
		r.verb, r.path = "GET", p.Get
	case *annotations.HttpRule_Put:
		r.verb, r.path = "PUT", p.Put
	case *annotations.HttpRule_Post:
		r.verb, r.path = "POST", p.Post
	case *annotations.HttpRule_Delete:
		r.verb, r.path = "DELETE", p.Delete
	case *annotations.HttpRule_Patch:
		r.verb, r.path = "PATCH", p.Patch
	case *annotations.HttpRule_Custom:
		r.verb, r.path = strings.ToUpper(p.Custom.Kind), p.Custom.Path
	default:
		return
	}
	m.rules = append(m.rules, r)
	inPath := r.pathFields()
	for n := range inPath {
		m.path[n] = true
	}
	fds := m.md.Input().Fields()
	for i := 0; i < fds.Len(); i++ {
		n := fds.Get(i).Name()
		if !inPath[n] && r.body != "*" && r.body != string(n) {
			m.query[n] = true
		}
	}
}

func (r *rule) pathFields() map[protoreflect.Name]bool {
	f := map[protoreflect.Name]bool{}
	for _, x := range braces.FindAllStringSubmatch(r.path, -1) {
		f[protoreflect.Name(x[1])] = true
	}
	return f
}

func (m *method) newReq() proto.Message  { return reflect.New(m.req).Interface().(proto.Message) }
func (m *method) newResp() proto.Message { return reflect.New(m.resp).Interface().(proto.Message) }

func find(name string) *service {
	for _, s := range services {
		if s.def.Name == name {
			return s
		}
	}
	return nil
}

func (s *service) bound() []string {
	var rv []string
	for _, n := range s.order {
		if len(s.methods[n].rules) > 0 {
			rv = append(rv, n)
		}
	}
	return rv
}

// lacks says which transport the definition and the flags ask for is not there.
func (s *service) lacks() (prop, what string) {
	t := s.def.Transport
	switch {
	case len(s.bound()) > 0 && !s.HasHTTP:
		return "C15", "HTTP"
	case (t == "all" || t == "grpc") && !s.HasGRPC:
		return "C16", "gRPC"
	case (t == "all" || t == "nats") && !s.HasNATS:
		return "C16", "NATS"
	}
	return "", ""
}

func (s *service) broken() bool {
	if s.def.Err != "" {
		return true
	}
	prop, _ := s.lacks()
	return prop != ""
}
