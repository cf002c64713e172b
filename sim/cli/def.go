package cli

import (
	"fmt"
	"sort"
	"strings"

	"github.com/teamlint/baron/zz_sim/k"
)

// Def is a service definition.
type Def struct {
	Svc     string
	Base    string // file name of the service's definition without .proto
	Pkg     string
	Msgs    []*Msg
	Enums   []string
	Methods []*Method
	Types   bool // messages marked Far live in a second file
	Lead    string
	Style   uint64 // how the text is decorated
	SvcRaw  string // the service's name in the definition, if not Svc
	Proto   string // the definition's package, if not Pkg
}

type Msg struct {
	Name   string
	Fields []*Field
	Flat   bool // only scalar fields (usable for path and query parameters)
	Far    bool
	Oneof  []*Field
	In     string // the message this one is declared in
	Raw    string // the name in the definition, if not Name
}

type Field struct {
	Name string
	Type string
	Rep  bool
	Num  int
}

type Method struct {
	Name, Req, Resp string
	HTTP            []Bind
	Raw             string // the name in the definition, if not Name
}

// Empty is the message of another package.
const Empty = "Empty"

func or(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

type Bind struct {
	Verb, Path, Body string
}

var comments = []string{"// plain", "/* block */", "/** doc **/", "/***/", "/**/", "/* many\n * lines { with\n * braces */", "// a \"quote and a { brace",
	"// says: service Other {", "/* rpc Gone (A) returns (B) { } */", "// \u4e16\u754c", "//", "/* a */ /* b */", "// one\n// two"}
var msgNames = []string{"Alpha", "Beta", "Gamma", "Delta", "Epsilon", "Zeta", "Eta", "Theta", "Iota", "Kappa", "Lambda", "Omicron"}
var methNames = []string{"Create", "Read", "Update", "Delete", "List", "Search", "Count", "Merge", "Split", "Watch", "Publish", "Archive", "Restore", "Ping", "Login", "GetByID", "Sum2", "HTTPThing", "NewService", "Service", "Rpc",
	"FindOne:find_one", "ListV2:listV2", "Do_It:do_It", "XHidden:_hidden", "GetUrl", "A", "Foo2Bar:foo2bar", "Returns:returns", "Message", "Import", "Select:select", "Type", "Func:func", "MockUser", "TestMe", "Init:init", "Main:main", "Context", "Request", "Response", "Client", "Encode", "Http", "GRPC", "Nats", "MakeThing", "UnsafeGet", "UnimplementedOne"}
var fieldNames = []string{"id", "name", "count", "user_id", "is_ok", "ratio", "tags", "page_size", "note", "kind", "value_two", "last", "service", "option", "message", "rpc", "returns", "oneof_kind", "stream", "camelCase", "with2digits", "X_y"}
var scalars = []string{"string", "int32", "int64", "uint32", "uint64", "bool", "double", "float"}
var svcNames = []string{"Foo", "Echo", "Catalog", "TodoList", "Billing", "TodoItems:todo_items", "Echo:echo", "Service", "HTTPApi", "A1:a1", "UnsafeOps", "ThingServer", "ClientServer"}

// NewDef makes a definition.
func NewDef(r *k.Rand) *Def {
	d := &Def{Svc: svcNames[r.Intn(len(svcNames))]}
	if i := strings.IndexByte(d.Svc, ':'); i > 0 {
		d.Svc, d.SvcRaw = d.Svc[:i], d.Svc[i+1:]
	}
	d.Base = strings.ToLower(d.Svc)
	if r.P(1, 4) {
		d.Base = "api"
	}
	d.Pkg = strings.ToLower(d.Svc)
	if r.P(1, 3) {
		d.Proto = r.Pick("acme."+d.Pkg+".v1", d.Pkg+".service", "service", "rpc.service.v1", "acme.message")
	}
	d.Types = r.P(1, 3)
	if r.P(1, 2) {
		d.Enums = append(d.Enums, "Color")
	}
	n := 2 + r.Intn(4)
	for i := 0; i < n; i++ {
		d.addMsg(r)
	}
	d.flat()
	m := 1 + r.Intn(4)
	for i := 0; i < m; i++ {
		d.AddMethod(r)
	}
	if r.P(1, 2) {
		d.Style = 1 + r.U64()>>1
	}
	if r.P(1, 3) {
		d.Lead = "// Definition of " + d.Svc + ".\n/* block\n comment { */\n"
	}
	return d
}

func (d *Def) msg(name string) *Msg {
	for _, m := range d.Msgs {
		if m.Name == name {
			return m
		}
	}
	return nil
}

func (d *Def) flat() *Msg {
	for _, m := range d.Msgs {
		if m.Flat {
			return m
		}
	}
	m := &Msg{Name: "FlatReq", Flat: true, Fields: []*Field{{"id", "int64", false, 1}, {"name", "string", false, 2}}}
	d.Msgs = append(d.Msgs, m)
	return m
}

func (d *Def) addMsg(r *k.Rand) *Msg {
	for _, i := range r.Perm(len(msgNames)) {
		if d.msg(msgNames[i]) == nil {
			m := &Msg{Name: msgNames[i], Flat: r.P(1, 2), Far: r.P(1, 2)}
			nf := r.Intn(5)
			if m.Flat {
				nf++
			}
			for j := 0; j < nf; j++ {
				d.addField(m, r)
			}
			if len(d.Msgs) > 0 && r.P(1, 5) {
				in := d.Msgs[r.Intn(len(d.Msgs))]
				if in.In == "" && in.Name != "FlatReq" {
					m.In, m.Raw, m.Far = in.Name, in.Name+"."+m.Name, in.Far
					m.Name = in.Name + "_" + m.Name
					if d.msg(m.Name) != nil {
						continue
					}
					m.Fields, m.Oneof = nil, nil
					if m.Flat || r.P(1, 2) {
						d.addField(m, r)
					}
					d.Msgs = append(d.Msgs, m)
					return m
				}
			}
			if !m.Flat && r.P(1, 4) {
				m.Oneof = []*Field{{"one_a", "string", false, 21}, {"one_b", "int32", false, 22}}
			}
			d.Msgs = append(d.Msgs, m)
			return m
		}
	}
	return nil
}

func (d *Def) addField(m *Msg, r *k.Rand) {
	used := map[string]bool{}
	max := 0
	for _, f := range m.Fields {
		used[f.Name] = true
		if f.Num > max {
			max = f.Num
		}
	}
	if max >= 18 {
		return
	}
	for _, i := range r.Perm(len(fieldNames)) {
		if used[fieldNames[i]] {
			continue
		}
		f := &Field{Name: fieldNames[i], Num: max + 1, Type: scalars[r.Intn(len(scalars))]}
		if !m.Flat {
			switch r.Intn(8) {
			case 0:
				f.Type = "bytes"
			case 1:
				if len(d.Enums) > 0 && !(m.Far && d.Types) {
					f.Type = d.Enums[0]
				}
			case 2:
				f.Type = "map<string, " + scalars[r.Intn(len(scalars))] + ">"
			case 3, 4:
				var c []string
				for _, o := range d.Msgs {
					// the second file does not import the first
					if !(m.Far && d.Types) || o.Far {
						c = append(c, o.Name)
					}
				}
				if len(c) > 0 {
					f.Type = c[r.Intn(len(c))]
				}
			}
		}
		if !strings.HasPrefix(f.Type, "map") && r.P(1, 6) {
			f.Rep = true
		}
		m.Fields = append(m.Fields, f)
		return
	}
}

// AddMethod adds an rpc.
func (d *Def) AddMethod(r *k.Rand) *Method {
	for _, i := range r.Perm(len(methNames)) {
		m := &Method{Name: methNames[i]}
		if j := strings.IndexByte(m.Name, ':'); j > 0 {
			m.Name, m.Raw = m.Name[:j], m.Name[j+1:]
		}
		if d.fold(m.Name) != nil {
			continue
		}
		d.retype(m, r)
		at := r.Intn(len(d.Methods) + 1)
		d.Methods = append(d.Methods, nil)
		copy(d.Methods[at+1:], d.Methods[at:])
		d.Methods[at] = m
		return m
	}
	return nil
}

func (d *Def) retype(m *Method, r *k.Rand) {
	m.Req = d.Msgs[r.Intn(len(d.Msgs))].Name
	m.Resp = d.Msgs[r.Intn(len(d.Msgs))].Name
	if r.P(1, 40) {
		m.Req = Empty
	}
	if r.P(1, 40) {
		m.Resp = Empty
	}
	d.bind(m, r)
}

func (d *Def) bind(m *Method, r *k.Rand) {
	m.HTTP = nil
	if r.P(1, 4) {
		return
	}
	n := 1
	if r.P(1, 4) {
		n = 2
	}
	for i := 0; i < n; i++ {
		req := d.msg(m.Req)
		p := fmt.Sprintf("/%s/%s", strings.ToLower(d.Svc), strings.ToLower(m.Name))
		if i > 0 {
			p = "/alt" + p
		}
		if req == nil && r.P(1, 2) {
			m.HTTP = append(m.HTTP, Bind{Verb: r.Pick("get", "delete"), Path: p})
		} else if req != nil && req.Flat && r.P(2, 3) {
			var scal []*Field
			for _, f := range req.Fields {
				if !f.Rep && f.Type != "bool" && f.Type != "float" && f.Type != "double" {
					scal = append(scal, f)
				}
			}
			if len(scal) > 0 && r.P(2, 3) {
				p += "/{" + scal[r.Intn(len(scal))].Name + "}"
			}
			m.HTTP = append(m.HTTP, Bind{Verb: r.Pick("get", "delete", "put", "post"), Path: p})
			if r.P(1, 3) {
				b := &m.HTTP[len(m.HTTP)-1]
				if b.Verb == "put" || b.Verb == "post" {
					b.Body = "*"
				}
			}
		} else {
			m.HTTP = append(m.HTTP, Bind{Verb: r.Pick("post", "put", "patch"), Path: p, Body: "*"})
		}
	}
}

// Method finds an rpc.
func (d *Def) Method(name string) *Method {
	for _, m := range d.Methods {
		if m.Name == name {
			return m
		}
	}
	return nil
}

// fold finds an rpc, whatever the case of its name's letters.
func (d *Def) fold(name string) *Method {
	for _, m := range d.Methods {
		if strings.EqualFold(m.Name, name) {
			return m
		}
	}
	return nil
}

// flipCase changes the case of a letter of a name which is not the first.
func flipCase(n string, r *k.Rand) string {
	b := []byte(n)
	for _, i := range r.Perm(len(b)) {
		// the Go name must be the same: no lower case letter after an underscore
		if i == 0 || b[i-1] == '_' {
			continue
		}
		if c := b[i] | 0x20; c >= 'a' && c <= 'z' && (i == 0 || b[i-1] < '0' || b[i-1] > '9') {
			b[i] ^= 0x20
			break
		}
	}
	return string(b)
}

// Clone copies a definition.
func (d *Def) Clone() *Def {
	c := *d
	c.Msgs = nil
	for _, m := range d.Msgs {
		x := *m
		x.Fields = nil
		for _, f := range m.Fields {
			g := *f
			x.Fields = append(x.Fields, &g)
		}
		c.Msgs = append(c.Msgs, &x)
	}
	c.Methods = nil
	for _, m := range d.Methods {
		x := *m
		x.HTTP = append([]Bind(nil), m.HTTP...)
		c.Methods = append(c.Methods, &x)
	}
	c.Enums = append([]string(nil), d.Enums...)
	return &c
}

// Mutate changes the definition.
func (d *Def) Mutate(kind string, r *k.Rand) {
	switch kind {
	case "add":
		for i := 0; i <= r.Intn(3); i++ {
			d.AddMethod(r)
		}
	case "remove":
		if len(d.Methods) > 1 {
			i := r.Intn(len(d.Methods))
			d.Methods = append(append([]*Method(nil), d.Methods[:i]...), d.Methods[i+1:]...)
		}
	case "rename":
		i := r.Intn(len(d.Methods))
		if r.P(1, 3) {
			if m := d.Methods[i]; m.Raw == "" {
				m.Name = flipCase(m.Name, r)
				return
			}
		}
		for _, j := range r.Perm(len(methNames)) {
			if !strings.Contains(methNames[j], ":") && d.fold(methNames[j]) == nil {
				d.Methods[i].Name, d.Methods[i].Raw = methNames[j], ""
				d.bind(d.Methods[i], r)
				break
			}
		}
	case "retype":
		d.retype(d.Methods[r.Intn(len(d.Methods))], r)
	case "message":
		if m := d.addMsg(r); m != nil && r.P(1, 2) {
			d.retype(d.Methods[r.Intn(len(d.Methods))], r)
		}
	case "field":
		m := d.Msgs[r.Intn(len(d.Msgs))]
		d.addField(m, r)
	case "order":
		p := r.Perm(len(d.Methods))
		ms := make([]*Method, len(p))
		for i, j := range p {
			ms[i] = d.Methods[j]
		}
		d.Methods = ms
	case "http":
		d.bind(d.Methods[r.Intn(len(d.Methods))], r)
	}
}

// hides reports whether a name that starts with the package means something
// else where the methods' types are looked up.
func (d *Def) hides(pkg string) bool {
	p, rest, _ := strings.Cut(pkg, ".")
	if or(d.SvcRaw, d.Svc) == p || strings.Contains("."+rest+".", "."+p+".") {
		return true
	}
	for _, m := range d.Methods {
		if or(m.Raw, m.Name) == p {
			return true
		}
	}
	for _, m := range d.Msgs {
		if or(m.Raw, m.Name) == p {
			return true
		}
	}
	return false
}

// Files renders the definition files by base name.
func (d *Def) Files(gopkg string) map[string]string {
	head := func(b *strings.Builder) {
		fmt.Fprintf(b, "syntax = \"proto3\";\n\npackage %s;\n\noption go_package = \"%s;%s\";\n\n", or(d.Proto, d.Pkg), gopkg, d.Pkg)
	}
	var a, t strings.Builder
	sr := k.NewRand(d.Style, "style")
	// note puts a comment (or nothing) where one is allowed
	note := func(b *strings.Builder, ind string) {
		if d.Style == 0 || !sr.P(1, 3) {
			return
		}
		b.WriteString(ind + comments[sr.Intn(len(comments))] + "\n")
	}
	a.WriteString(d.Lead)
	note(&a, "")
	head(&a)
	head(&t)
	a.WriteString("import \"google/api/annotations.proto\";\n")
	if d.Types {
		a.WriteString("import \"common_types.proto\";\n")
	}
	for _, m := range d.Methods {
		if m.Req == Empty || m.Resp == Empty {
			a.WriteString("import \"google/protobuf/empty.proto\";\n")
			break
		}
	}
	a.WriteString("\n")
	for _, e := range d.Enums {
		fmt.Fprintf(&a, "enum %s {\n  %s_NONE = 0;\n  %s_RED = 1;\n}\n\n", e, strings.ToUpper(e), strings.ToUpper(e))
	}
	raw := func(t string) string {
		if t == Empty {
			return "google.protobuf.Empty"
		}
		if m := d.msg(t); m != nil {
			return or(m.Raw, m.Name)
		}
		return t
	}
	var put func(b *strings.Builder, m *Msg, ind string)
	put = func(b *strings.Builder, m *Msg, ind string) {
		note(b, ind)
		n := or(m.Raw, m.Name)
		fmt.Fprintf(b, "%smessage %s {\n", ind, n[strings.LastIndexByte(n, '.')+1:])
		for _, x := range d.Msgs {
			if x.In == m.Name && m.In == "" {
				put(b, x, ind+"  ")
			}
		}
		for _, f := range m.Fields {
			rep := ""
			if f.Rep {
				rep = "repeated "
			}
			note(b, ind+"  ")
			fmt.Fprintf(b, "%s  %s%s %s = %d;\n", ind, rep, raw(f.Type), f.Name, f.Num)
		}
		if len(m.Oneof) > 0 {
			one := "choice_" + strings.ToLower(m.Name)
			if i := int(d.Style%5) + len(m.Oneof); d.Style > 0 && i < 4 {
				name := []string{"server", "client", "service", "is_it"}[i]
				for _, f := range m.Fields {
					if f.Name == name {
						name = one
					}
				}
				one = name
			}
			fmt.Fprintf(b, "  oneof %s {\n", one)
			for _, f := range m.Oneof {
				fmt.Fprintf(b, "    %s %s = %d;\n", f.Type, f.Name, f.Num)
			}
			fmt.Fprintf(b, "  }\n")
		}
		fmt.Fprintf(b, "%s}\n\n", ind)
	}
	for _, m := range d.Msgs {
		b := &a
		if m.Far && d.Types {
			b = &t
		}
		if m.In == "" {
			put(b, m, "")
		}
	}
	note(&a, "")
	odd := func(n int) bool { return d.Style != 0 && sr.P(1, n) }
	one := func(s ...string) string { // the first is the plain one
		if !odd(5) {
			return s[0]
		}
		return sr.Pick(s...)
	}
	gap := func() string { return one(" ", "  ", "\n      ", " /* a; } */ ", " // b { \"\n      ") }
	q := func(s string) string { // a string literal
		if odd(8) && len(s) > 3 {
			n := 1 + sr.Intn(len(s)-1)
			return "\"" + s[:n] + "\"" + gap() + "'" + s[n:] + "'"
		}
		if odd(4) {
			return "'" + s + "'"
		}
		return "\"" + s + "\""
	}
	sep := func() string {
		if odd(6) {
			return sr.Pick(",", ";", " // one", ", /* two */")
		}
		return ""
	}
	typ := func(t string) string {
		n := raw(t)
		if t != Empty && odd(6) {
			if p := or(d.Proto, d.Pkg); d.hides(p) || odd(2) {
				return "." + p + "." + n
			} else {
				return p + "." + n
			}
		}
		if t == Empty && odd(3) {
			return "." + n
		}
		return n
	}
	rule := func(h Bind, ind string) []string {
		f := []string{h.Verb + one(":", " :", ":"+gap()) + one(" ", "") + q(h.Path) + sep()}
		if h.Body != "" {
			f = append(f, "body: "+q(h.Body)+sep())
			if odd(4) {
				f[0], f[1] = f[1], f[0]
			}
		}
		return f
	}
	fmt.Fprintf(&a, "// The service.\nservice%s%s%s{\n", gap(), or(d.SvcRaw, d.Svc), gap())
	if odd(4) {
		a.WriteString("  option deprecated = true;\n")
	}
	for _, m := range d.Methods {
		note(&a, "  ")
		if odd(10) {
			a.WriteString("  ;\n")
		}
		sig := "rpc" + gap() + or(m.Raw, m.Name) + one(" ", "", " /* c */ ") + "(" + one("", " ", "/*d*/") + typ(m.Req) + one("", " ", "/*e*/") + ")" + gap() + "returns" + one(" ", "") + "(" + typ(m.Resp) + ")" + one(" ", "", " /* f */ ")
		if d.Style != 0 && len(m.HTTP) == 0 && sr.P(1, 2) {
			fmt.Fprintf(&a, "  %s;\n", sig)
			continue
		}
		fmt.Fprintf(&a, "  // %s does something.\n  %s{\n", m.Name, sig)
		note(&a, "    ")
		if odd(6) {
			a.WriteString(sr.Pick("    option idempotency_level = IDEMPOTENT;\n", "    option idempotency_level = NO_SIDE_EFFECTS; // fine\n", "    option idempotency_level = /* { */ IDEMPOTENT; /* } */\n", "    ;\n"))
		}
		name := func() string {
			return one("(google.api.http)", "(.google.api.http)", "( google.api . http )", "(google.api.http) /* j */ ")
		}
		switch {
		case len(m.HTTP) > 0 && odd(8):
			// field by field
			var o []string
			for i, h := range m.HTTP {
				if i > 0 {
					o = append(o, name()+".additional_bindings = {\n      "+strings.Join(rule(h, "      "), "\n      ")+"\n    }")
					continue
				}
				o = append(o, name()+"."+h.Verb+" = "+q(h.Path))
				if h.Body != "" {
					o = append(o, name()+".body = "+q(h.Body))
				}
			}
			for _, x := range o {
				a.WriteString("    option" + gap() + x + one("", " ", " /* k */ ") + ";" + one("", " // l", " ;") + "\n")
				note(&a, "    ")
			}
		case len(m.HTTP) > 0:
			f := rule(m.HTTP[0], "      ")
			var more []string
			list := len(m.HTTP) > 1 && odd(5)
			for _, h := range m.HTTP[1:] {
				o, c := " {", "}"
				if !list {
					switch sr.Intn(12) {
					case 0:
						o = ": {"
					case 1:
						o, c = " <", ">"
					}
				}
				more = append(more, o+"\n        "+strings.Join(rule(h, "        "), "\n        ")+"\n      "+c)
			}
			if list {
				f = append(f, "additional_bindings"+one(":", ": /* m */ ", "")+" ["+strings.Join(more, ",")+gap()+"]")
			} else {
				for _, x := range more {
					f = append(f, "additional_bindings"+x+one("", ",", ";"))
				}
			}
			if odd(6) {
				i, j := sr.Intn(len(f)), sr.Intn(len(f))
				f[i], f[j] = f[j], f[i]
			}
			a.WriteString("    option" + gap() + name() + gap() + "=" + gap() + "{\n")
			for _, x := range f {
				note(&a, "      ")
				a.WriteString("      " + x + "\n")
			}
			a.WriteString("    }" + one("", " ", " /* n */ ") + ";\n")
		}
		if odd(6) {
			a.WriteString(sr.Pick("    option deprecated = false;\n", "    ;\n", "    /* o */\n"))
		}
		a.WriteString("  }" + one("", ";", " // p") + "\n")
	}
	note(&a, "  ")
	fmt.Fprintf(&a, "}\n")
	note(&a, "")
	rv := map[string]string{d.Base + ".proto": a.String()}
	if d.Types {
		rv["common_types.proto"] = t.String()
	}
	return rv
}

// ProtoNames lists the definition files, the one with the service first.
func (d *Def) ProtoNames() []string {
	n := []string{d.Base + ".proto"}
	if d.Types {
		n = append(n, "common_types.proto")
	}
	return n
}

func (d *Def) String() string {
	var s []string
	for _, m := range d.Methods {
		s = append(s, fmt.Sprintf("%s(%s)%s", m.Name, m.Req, m.Resp))
	}
	sort.Strings(s)
	return d.Svc + "{" + strings.Join(s, " ") + "}"
}
