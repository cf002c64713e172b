package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
)

// A definition is made of what the documentation offers: messages with fields
// of all kinds, rpcs with no, one or several HTTP bindings.

type field struct {
	name, typ string
	num       int
	rep, opt  bool
	oneof     string
}

type message struct {
	name   string
	fields []*field
}

type binding struct{ verb, path, body, custom string }

type rpc struct {
	name, req, resp string
	binds           []binding
}

type def struct {
	name      string // gN
	pkg       string // proto package
	gopkg     string
	base      string // file name
	svc       string
	msgs      []*message
	rpcs      []*rpc
	transport string
	imports   map[string]bool
	style     *rand.Rand        // how the service is written; nil is plainly
	names     map[string]string // names of messages and enums in the definition
	in        map[string]string // the message another, or an enum, is declared in
	far       map[string]bool   // what is declared in another file
	farBase   string            // its name
}

var numeric = []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double"}
var scalars = append([]string{"string", "bool", "string"}, numeric...)
var wrappers = []string{"DoubleValue", "FloatValue", "Int64Value", "UInt64Value", "Int32Value", "UInt32Value", "BoolValue", "StringValue", "BytesValue"}
var names = []string{"id", "name", "user_id", "pageSize", "value", "is_ok", "ratio", "tags", "note_text", "kind", "X", "field_2", "err", "req", "path", "values", "type", "data", "createdAt", "ok", "ctx",
	"strval", "tmp", "alpha", "beta_gamma", "q", "limit", "offset", "order_by", "a1", "http_url", "json",
	"string", "reset", "descriptor", "get_name", "get_id", "func", "range", "server", "client", "error", "map", "nil", "r", "body", "path_params", "query_params", "to_ret", "headers", "raw", "buf", "proto"}
var rpcNames = []string{"Create", "Get", "List", "Update", "Delete", "Search", "Count", "Merge", "GetByID", "Sum2", "HTTPThing", "Ping", "Find_one", "echo", "DoIt", "Status",
	"Import", "Select", "Type", "Return", "range", "Default", "Map", "Func", "Go", "Error", "String", "New", "GetById", "getId", "DOIT", "Handler", "Server", "Close", "MockUser", "TestMe", "init", "main", "Context", "Request", "Response", "Client", "Encode", "Decode", "Http", "GRPC", "Nats", "MakeThing", "UnsafeGet"}
var svcNames = []string{"Foo", "EchoService", "Catalog", "TodoList", "Billing", "API", "X", "UnsafeOps", "foo_bar", "Server", "ThingServer", "ThingClient"}
var oneofNames = []string{"which", "choice", "server", "client", "value", "type_of", "kind_of"}

func pick(r *rand.Rand, s []string) string { return s[r.Intn(len(s))] }

func (d *def) use(imp string) { d.imports[imp] = true }

// wk is a well-known message type.
func (d *def) wk(r *rand.Rand, simple bool) string {
	n := 5
	if simple {
		n = 3
	}
	switch r.Intn(n) {
	case 0:
		d.use("google/protobuf/timestamp.proto")
		return "google.protobuf.Timestamp"
	case 1:
		d.use("google/protobuf/duration.proto")
		return "google.protobuf.Duration"
	case 2:
		d.use("google/protobuf/wrappers.proto")
		return "google.protobuf." + pick(r, wrappers)
	case 3:
		d.use("google/protobuf/struct.proto")
		return "google.protobuf.Struct"
	default:
		d.use("google/protobuf/any.proto")
		return "google.protobuf.Any"
	}
}

// any kind of field (for bodies, responses and other transports)
func (d *def) bodyField(r *rand.Rand, f *field) {
	switch r.Intn(14) {
	case 0:
		f.typ = "bytes"
	case 1:
		f.typ = "Color"
	case 2:
		f.typ = "Sub"
	case 3:
		f.typ, f.rep = "Sub", true
	case 4:
		f.typ = fmt.Sprintf("map<%s, %s>", pick(r, []string{"string", "int32", "int64", "uint64", "string"}), pick(r, []string{"string", "int64", "Sub", "Color", "bytes", "double"}))
	case 5:
		f.typ = d.wk(r, false)
	case 6:
		f.typ = "Deep"
	case 7:
		f.typ, f.rep = pick(r, []string{"bytes", "Color", "Deep"}), true
	case 8:
		f.typ, f.opt = pick(r, append([]string{"bytes", "Color"}, scalars...)), true
	case 9, 10:
		f.typ, f.rep = pick(r, scalars), true
	default:
		f.typ = pick(r, scalars)
	}
}

// a field which can be in the query string
func (d *def) queryField(r *rand.Rand, f *field) {
	switch r.Intn(13) {
	case 0:
		f.typ = "bytes"
	case 1, 2:
		f.typ = "Color"
	case 3:
		f.typ = "Sub"
	case 4, 5, 6:
		f.typ, f.rep = pick(r, scalars), true
	case 7, 8:
		f.typ, f.opt = pick(r, append([]string{"Color"}, scalars...)), true
	case 9:
		f.typ = d.wk(r, true)
	default:
		f.typ = pick(r, scalars)
	}
}

func newMessage(r *rand.Rand, name string, n int, kind func(r *rand.Rand, f *field)) *message {
	m := &message{name: name}
	used := map[string]bool{}
	num := 0
	for i := 0; i < n; i++ {
		nm := pick(r, names)
		if r.Intn(5) == 0 && len(m.fields) > 0 {
			// the beginning of the name of another
			nm = m.fields[r.Intn(len(m.fields))].name + pick(r, []string{"s", "2", "_id", "X"})
		}
		key := strings.ToLower(strings.Replace(nm, "_", "", -1))
		if used[key] {
			continue
		}
		used[key] = true
		num += 1 + r.Intn(3)
		f := &field{name: nm, num: num}
		kind(r, f)
		m.fields = append(m.fields, f)
	}
	return m
}

func (m *message) free(name string) string {
	for {
		ok := true
		for _, f := range m.fields {
			if strings.EqualFold(strings.Replace(f.name, "_", "", -1), strings.Replace(name, "_", "", -1)) || strings.EqualFold(f.oneof, name) {
				ok = false
			}
		}
		if ok {
			return name
		}
		name += "x"
	}
}

func (m *message) next() int {
	n := 0
	for _, f := range m.fields {
		if f.num > n {
			n = f.num
		}
	}
	return n + 1
}

func (m *message) addOneof(r *rand.Rand, name string, types func() string) {
	name = m.free(name)
	for i := 0; i < 2+r.Intn(2); i++ {
		m.fields = append(m.fields, &field{name: m.free(fmt.Sprintf("%s_%c", name, 'a'+i)), num: m.next(), typ: types(), oneof: name})
	}
}

func newDef(r *rand.Rand, i int) *def {
	d := &def{name: fmt.Sprintf("g%d", i), imports: map[string]bool{}}
	d.svc = pick(r, svcNames)
	if r.Intn(4) > 0 {
		d.style = rand.New(rand.NewSource(r.Int63()))
	}
	d.base = d.name + pick(r, []string{"", "api", "svc"})
	d.gopkg = d.name
	d.pkg = d.name
	if r.Intn(3) == 0 {
		d.pkg = pick(r, []string{"acme.", "a.b.", "x_y."}) + d.name
	}
	d.transport = pick(r, []string{"all", "all", "all", "grpc", "nats"})
	sub := newMessage(r, "Sub", 4, func(r *rand.Rand, f *field) { f.typ = pick(r, scalars) })
	if len(sub.fields) == 0 {
		sub.fields = append(sub.fields, &field{name: "a", num: 1, typ: "string"})
	}
	deep := newMessage(r, "Deep", 5, func(r *rand.Rand, f *field) {
		d.bodyField(r, f)
		if f.typ == "Deep" && !f.rep && r.Intn(2) == 0 {
			f.typ = "Sub"
		}
	})
	d.msgs = append(d.msgs, sub, deep)
	nr := 2 + r.Intn(3)
	usedRPC := map[string]bool{}
	for j := 0; j < nr; j++ {
		n := pick(r, rpcNames)
		if r.Intn(3) == 0 && len(d.rpcs) > 0 {
			n = d.rpcs[r.Intn(len(d.rpcs))].name + pick(r, []string{"All", "2", "s", "_one"})
		}
		if usedRPC[goName(n)] {
			continue
		}
		usedRPC[goName(n)] = true
		d.newRPC(r, n, j)
	}
	d.arrange(r)
	return d
}

func (d *def) newRPC(r *rand.Rand, name string, j int) {
	q := &rpc{name: name}
	resp := newMessage(r, fmt.Sprintf("Resp%d", j), 1+r.Intn(5), d.bodyField)
	if r.Intn(3) == 0 {
		resp.addOneof(r, pick(r, oneofNames), func() string { return pick(r, append([]string{"Sub", "Color", "bytes"}, scalars...)) })
	}
	q.resp = resp.name
	nb := r.Intn(4)
	if d.transport != "all" && r.Intn(2) == 0 {
		nb = 0
	}
	if nb == 0 {
		req := newMessage(r, fmt.Sprintf("Req%d", j), r.Intn(6), d.bodyField)
		if r.Intn(3) == 0 {
			req.addOneof(r, pick(r, oneofNames), func() string { return pick(r, append([]string{"Sub", "Color", "bytes"}, scalars...)) })
		}
		q.req = req.name
		d.msgs = append(d.msgs, req, resp)
		if j > 1 && r.Intn(4) == 0 {
			q.resp = d.rpcs[0].req
		}
		d.rpcs = append(d.rpcs, q)
		return
	}
	// a bound rpc: all bindings are made for the same request type
	bodyOnly := r.Intn(4) == 0 // every binding has the whole request in the body, but for the path
	kind := d.queryField
	if bodyOnly {
		kind = d.bodyField
	}
	req := newMessage(r, fmt.Sprintf("Req%d", j), 2+r.Intn(6), kind)
	if r.Intn(3) == 0 {
		req.addOneof(r, pick(r, oneofNames), func() string {
			if r.Intn(6) == 0 && !bodyOnly {
				return d.wk(r, true)
			}
			return pick(r, append([]string{"Sub", "Color", "bytes"}, scalars...))
		})
	}
	var bodyField string
	if !bodyOnly && r.Intn(2) == 0 {
		nm := "payload"
		if r.Intn(2) == 0 && len(req.fields) > 0 {
			nm = req.fields[r.Intn(len(req.fields))].name + pick(r, []string{"s", "2", "_id", "X"})
		}
		f := &field{name: req.free(nm), num: req.next()}
		for f.typ == "" || strings.HasPrefix(f.typ, "map") && r.Intn(2) == 0 {
			*f = field{name: f.name, num: f.num}
			d.bodyField(r, f)
		}
		bodyField = f.name
		req.fields = append(req.fields, f)
	}
	q.req = req.name
	verbs := []string{"get", "put", "post", "delete", "patch"}
	for b := 0; b < nb; b++ {
		bd := binding{verb: pick(r, verbs)}
		if r.Intn(8) == 0 {
			bd.custom = pick(r, []string{"OPTIONS", "LIST", "PURGE"})
		}
		switch {
		case bodyOnly:
			bd.body = "*"
			if bd.verb == "get" {
				bd.verb = "post"
			}
		case bodyField != "":
			bd.body = bodyField
			if r.Intn(3) == 0 {
				bd.body = "*"
			}
			if bd.verb == "get" {
				bd.verb = "post"
			}
		case bd.verb != "get" && r.Intn(2) == 0:
			bd.body = "*"
		}
		path := fmt.Sprintf("/%s/m%d/b%d", d.name, j, b)
		if r.Intn(4) == 0 {
			path = fmt.Sprintf("/b%d/%s-m%d", b, d.name, j)
		}
		for _, f := range req.fields {
			if f.rep || f.opt || f.oneof != "" || f.name == bd.body {
				continue
			}
			simple := f.typ == "Color"
			for _, s := range scalars {
				simple = simple || f.typ == s
			}
			if simple && r.Intn(3) == 0 {
				part := "{" + f.name + "}"
				if r.Intn(8) == 0 {
					part = pick(r, []string{part + ":run", "x-" + part, part + ".json", "v" + part + "-y"})
				}
				path += "/" + part
				if r.Intn(3) == 0 {
					path += "/" + pick(r, []string{"items", "x.y", "v1"})
				}
			}
		}
		bd.path = path
		q.binds = append(q.binds, bd)
	}
	d.msgs = append(d.msgs, req, resp)
	d.rpcs = append(d.rpcs, q)
}

// arrange chooses names and places for the messages.
func (d *def) arrange(r *rand.Rand) {
	d.names, d.in, d.far = map[string]string{}, map[string]string{}, map[string]bool{}
	all := []string{"Color"}
	for _, m := range d.msgs {
		all = append(all, m.name)
	}
	if r.Intn(3) == 0 {
		for i, n := range all {
			switch r.Intn(6) {
			case 0:
				d.names[n] = strings.ToLower(n) + "_msg"
			case 1:
				d.names[n] = strings.ToLower(n[:1]) + n[1:] + "Msg"
			case 2:
				d.names[n] = fmt.Sprintf("%sServer", n)
			case 3:
				d.names[n] = fmt.Sprintf("T%d_%s", i, n)
			}
		}
	}
	if r.Intn(3) == 0 {
		d.far["Sub"], d.far["Color"], d.far["Deep"] = true, true, true
		for _, m := range d.msgs {
			if r.Intn(3) == 0 {
				d.far[m.name] = true
			}
		}
		d.farBase = pick(r, []string{"a_", "z_", ""}) + d.name + "types"
	}
	if r.Intn(3) == 0 {
		for _, n := range all {
			in := all[r.Intn(len(all))]
			if in == "Color" || in == n || r.Intn(2) == 0 || d.in[in] != "" || d.far[in] != d.far[n] {
				continue
			}
			has := false
			for _, x := range d.in {
				has = has || x == n
			}
			if !has {
				d.in[n] = in
			}
		}
	}
}

func (d *def) leaf(n string) string {
	if x := d.names[n]; x != "" {
		return x
	}
	return n
}

// ref is how a message or enum is written where it is used.
func (d *def) ref(n string) string {
	if in := d.in[n]; in != "" {
		return d.leaf(in) + "." + d.leaf(n)
	}
	return d.leaf(n)
}

var ours = regexp.MustCompile(`\b(Color|Sub|Deep|Req[0-9]+|Resp[0-9]+)\b`)

func (d *def) typ(t string) string {
	if strings.HasPrefix(t, "google.") {
		return t
	}
	return ours.ReplaceAllStringFunc(t, d.ref)
}

// texts are the files of the definition, by name without .proto.
func (d *def) texts() map[string]string {
	rv := map[string]string{d.base: d.text(false)}
	if len(d.far) > 0 {
		rv[d.farBase] = d.text(true)
	}
	return rv
}

func (d *def) text(far bool) string {
	var b strings.Builder
	b.WriteString("syntax = \"proto3\";\n\npackage " + d.pkg + ";\n\noption go_package = \".;" + d.gopkg + "\";\n\n")
	http := false
	for _, q := range d.rpcs {
		if len(q.binds) > 0 {
			http = true
		}
	}
	if http && !far {
		b.WriteString("import \"google/api/annotations.proto\";\n")
	}
	if len(d.far) > 0 && !far {
		b.WriteString("import \"" + d.farBase + ".proto\";\n")
	}
	used := ""
	for _, m := range d.msgs {
		for _, f := range m.fields {
			if d.far[m.name] == far {
				used += f.typ + "\n"
			}
		}
	}
	for _, i := range []string{"any", "duration", "struct", "timestamp", "wrappers"} {
		p := "google/protobuf/" + i + ".proto"
		types := map[string]string{"any": "Any", "duration": "Duration", "struct": "Struct", "timestamp": "Timestamp", "wrappers": "Value"}[i]
		if d.imports[p] && strings.Contains(used, types+"\n") {
			b.WriteString("import \"" + p + "\";\n")
		}
	}
	enum := func(ind string) {
		b.WriteString("\n" + ind + "enum " + d.leaf("Color") + " {\n" + ind + "  COLOR_NONE = 0;\n" + ind + "  RED = 1;\n" + ind + "  BLUE = 5;\n" + ind + "  NEGATIVE = -3;\n" + ind + "}\n")
	}
	if d.far["Color"] == far && d.in["Color"] == "" {
		enum("")
	}
	var put func(m *message, ind string)
	put = func(m *message, ind string) {
		b.WriteString("\n" + ind + "message " + d.leaf(m.name) + " {\n")
		if d.in["Color"] == m.name {
			enum(ind + "  ")
		}
		for _, x := range d.msgs {
			if d.in[x.name] == m.name {
				put(x, ind+"  ")
			}
		}
		one := ""
		for _, f := range m.fields {
			if f.oneof != one {
				if one != "" {
					b.WriteString(ind + "  }\n")
				}
				if f.oneof != "" {
					b.WriteString(ind + "  oneof " + f.oneof + " {\n")
				}
				one = f.oneof
			}
			mod := ""
			if f.rep {
				mod = "repeated "
			}
			if f.opt {
				mod = "optional "
			}
			b.WriteString(fmt.Sprintf("%s  %s%s %s = %d;\n", ind, mod, d.typ(f.typ), f.name, f.num))
		}
		if one != "" {
			b.WriteString(ind + "  }\n")
		}
		b.WriteString(ind + "}\n")
	}
	for _, m := range d.msgs {
		if d.far[m.name] == far && d.in[m.name] == "" {
			put(m, "")
		}
	}
	if !far {
		b.WriteString("\n" + d.service())
	}
	return b.String()
}

// goName is a name's Go form.
func goName(n string) string {
	var b []byte
	for i := 0; i < len(n); i++ {
		switch {
		case n[i] == '_' && i+1 < len(n) && n[i+1] >= 'a' && n[i+1] <= 'z':
		case i == 0 || n[i-1] == '_':
			b = append(b, strings.ToUpper(n[i:i+1])...)
		default:
			b = append(b, n[i])
		}
	}
	return string(b)
}

// service writes the service in one of the many ways the same can be written.
func (d *def) service() string {
	odd := func(n int) bool { return d.style != nil && d.style.Intn(n) == 0 }
	one := func(s ...string) string { // the first is the plain one
		if !odd(3) {
			return s[0]
		}
		return pick(d.style, s)
	}
	gap := func() string { return one(" ", "  ", "\n      ", " /* a; } */ ", " // b { \"\n      ") }
	lit := func(v string) string {
		if odd(6) && len(v) > 3 {
			n := 1 + d.style.Intn(len(v)-1)
			for v[n]&0xc0 == 0x80 {
				n--
			}
			if n > 0 {
				return "\"" + v[:n] + "\"" + gap() + "'" + v[n:] + "'"
			}
		}
		if odd(8) {
			return strings.Replace("\""+v+"\"", "/", pick(d.style, []string{"\\x2f", "\\057"}), 1)
		}
		return one("\""+v+"\"", "'"+v+"'")
	}
	typ := func(n string) string {
		n = d.ref(n)
		if odd(5) {
			return pick(d.style, []string{"." + d.pkg + "." + n, d.pkg + "." + n})
		}
		return n
	}
	var b strings.Builder
	b.WriteString("service" + gap() + d.svc + gap() + "{\n")
	if odd(5) {
		b.WriteString("  option deprecated = true;\n")
	}
	for _, q := range d.rpcs {
		b.WriteString("  rpc" + gap() + q.name + one(" ", "", " /* c */ ") + "(" + one("", " ", "/*d*/") + typ(q.req) + one("", " ", "/*e*/") + ")" + gap() + "returns" + one(" ", "") + "(" + typ(q.resp) + ")" + one(" ", "", " /* f */ "))
		if len(q.binds) == 0 && odd(3) {
			b.WriteString(";\n")
			continue
		}
		b.WriteString("{\n")
		if odd(6) {
			b.WriteString("    " + pick(d.style, []string{";", "/* g */", "option idempotency_level = IDEMPOTENT; // g"}) + "\n")
		}
		rule := func(x binding, ind string) []string {
			sep := func() string { return one("", ",", ";", " // i") }
			var f []string
			if x.custom != "" {
				k, p := "kind"+one(":", " : ", ":"+gap())+lit(x.custom), "path: "+lit(x.path)
				if odd(3) {
					k, p = p, k
				}
				o := one("{ }", ": { }", "< >", "{}")
				f = append(f, "custom "+strings.Replace(strings.Replace(o, "}", "\n"+ind+"}", 1), ">", "\n"+ind+">", 1))
				n := strings.IndexAny(f[0], "{<") + 1
				f[0] = f[0][:n] + "\n" + ind + "  " + k + sep() + "\n" + ind + "  " + p + sep() + f[0][n:] + sep()
			} else {
				f = append(f, x.verb+one(":", " :", ":"+gap())+one(" ", "")+lit(x.path)+sep())
			}
			if x.body != "" {
				f = append(f, "body: "+lit(x.body)+sep())
				if odd(3) {
					f[0], f[1] = f[1], f[0]
				}
			}
			return f
		}
		n := len(q.binds)
		switch {
		case n > 0 && odd(5):
			// field by field
			var o []string
			for i, x := range q.binds {
				name := one("(google.api.http)", "(.google.api.http)", "( google.api . http )", "(google.api.http) /* j */ ")
				switch {
				case i > 0:
					o = append(o, name+".additional_bindings = {\n      "+strings.Join(rule(x, "      "), "\n      ")+"\n    }")
				case x.custom != "" && odd(2):
					o = append(o, name+".custom.kind = "+lit(x.custom), name+".custom.path = "+lit(x.path))
				case x.custom != "":
					o = append(o, name+".custom = { kind: "+lit(x.custom)+" path: "+lit(x.path)+" }")
				default:
					o = append(o, name+"."+x.verb+" = "+lit(x.path))
				}
				if i == 0 && x.body != "" {
					o = append(o, name+".body = "+lit(x.body))
				}
			}
			if odd(2) {
				d.style.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
			}
			for _, x := range o {
				b.WriteString("    option" + gap() + x + one("", " ", " /* k */ ") + ";" + one("", " // l", " ;") + "\n")
			}
		case n > 0:
			b.WriteString("    option" + gap() + one("(google.api.http)", "(.google.api.http)", "( google.api . http )") + gap() + "=" + gap() + "{\n")
			f := rule(q.binds[0], "      ")
			var more []string
			for _, x := range q.binds[1:] {
				o := one("{ }", ": { }", "< >", "{}")
				c := strings.TrimSpace(o[len(o)-1:])
				more = append(more, strings.TrimSpace(o[:len(o)-1])+"\n        "+strings.Join(rule(x, "        "), "\n        ")+"\n      "+c)
			}
			if len(more) > 0 && odd(4) {
				for i := range more {
					more[i] = strings.TrimPrefix(more[i], ": ")
					more[i] = strings.TrimPrefix(more[i], ":")
				}
				f = append(f, "additional_bindings"+one(":", ": /* m */ ", "")+" [ "+strings.Join(more, ", ")+gap()+"]")
			} else {
				for _, m := range more {
					f = append(f, "additional_bindings "+m+one("", ",", ";"))
				}
			}
			if odd(4) {
				// the order of the fields does not matter
				d.style.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
			}
			for _, x := range f {
				b.WriteString("      " + x + "\n")
			}
			b.WriteString("    }" + one("", " ", " /* n */ ") + ";\n")
		}
		if odd(6) {
			b.WriteString("    " + pick(d.style, []string{";", "option deprecated = false;", "/* o */"}) + "\n")
		}
		b.WriteString("  }" + one("", ";", " // p") + "\n")
	}
	b.WriteString("}\n")
	return b.String()
}

// kitchen is a definition with every kind of field in every place it can be.
func kitchen(i int) *def {
	d := &def{name: fmt.Sprintf("g%d", i), svc: "Kitchen", transport: "all", imports: map[string]bool{}}
	d.pkg, d.gopkg, d.base = d.name, d.name, d.name
	sub := &message{name: "Sub"}
	all := append([]string{}, scalars[1:]...)
	for n, t := range all {
		sub.fields = append(sub.fields, &field{name: "f_" + t, typ: t, num: n + 1})
	}
	one := &message{name: "PathReq"}
	rep := &message{name: "RepReq"}
	opt := &message{name: "OptReq"}
	wkt := &message{name: "WktReq"}
	orq := &message{name: "OneofReq"}
	whole := &message{name: "WholeReq"}
	path := ""
	for n, t := range append(append([]string{}, all...), "Color") {
		one.fields = append(one.fields, &field{name: "p_" + t, typ: t, num: n + 1})
		path += "/{p_" + t + "}"
		rep.fields = append(rep.fields, &field{name: "r_" + t, typ: t, num: n + 1, rep: true})
		opt.fields = append(opt.fields, &field{name: "o_" + t, typ: t, num: n + 1, opt: true})
		whole.fields = append(whole.fields, &field{name: "w_" + t, typ: t, num: n + 1})
		orq.fields = append(orq.fields, &field{name: "c_" + t, typ: t, num: n + 1, oneof: "server"})
	}
	for n, t := range []string{"Sub", "bytes", "google.protobuf.Timestamp", "google.protobuf.StringValue"} {
		orq.fields = append(orq.fields, &field{name: fmt.Sprintf("x_%d", n), typ: t, num: n + 40, oneof: "server"})
	}
	n := 1
	for _, w := range wrappers {
		wkt.fields = append(wkt.fields, &field{name: "w_" + w, typ: "google.protobuf." + w, num: n})
		n++
	}
	for _, t := range []string{"google.protobuf.Timestamp", "google.protobuf.Duration", "Sub", "bytes"} {
		wkt.fields = append(wkt.fields, &field{name: fmt.Sprintf("m_%d", n), typ: t, num: n})
		n++
	}
	whole.fields = append(whole.fields, &field{name: "st", typ: "google.protobuf.Struct", num: 40}, &field{name: "an", typ: "google.protobuf.Any", num: 41},
		&field{name: "mp", typ: "map<string, Sub>", num: 42}, &field{name: "mi", typ: "map<int64, Color>", num: 43}, &field{name: "by", typ: "bytes", num: 44},
		&field{name: "sub", typ: "Sub", num: 45}, &field{name: "subs", typ: "Sub", num: 46, rep: true}, &field{name: "lv", typ: "google.protobuf.Timestamp", num: 47, rep: true})
	for _, x := range []string{"any", "duration", "struct", "timestamp", "wrappers"} {
		d.use("google/protobuf/" + x + ".proto")
	}
	d.msgs = []*message{sub, one, rep, opt, wkt, orq, whole}
	d.rpcs = []*rpc{
		{"Paths", "PathReq", "PathReq", []binding{{verb: "get", path: "/k" + path}, {verb: "post", path: "/kb" + path, body: "*"}}},
		{"Queries", "PathReq", "Sub", []binding{{verb: "get", path: "/q"}}},
		{"Repeats", "RepReq", "RepReq", []binding{{verb: "get", path: "/r"}, {verb: "put", path: "/r"}}},
		{"Opts", "OptReq", "OptReq", []binding{{verb: "get", path: "/o"}, {verb: "patch", path: "/o", body: "*"}}},
		{"OptsGet", "OptReq", "OptReq", []binding{{verb: "get", path: "/o/g"}}},
		{"ChooseGet", "OneofReq", "OneofReq", []binding{{verb: "delete", path: "/c/g"}}},
		{"PathsGet", "PathReq", "PathReq", []binding{{verb: "get", path: "/kg" + path}}},
		{"Messages", "WktReq", "WktReq", []binding{{verb: "get", path: "/m"}, {verb: "delete", path: "/m/b", body: "m_10"}}},
		{"Choose", "OneofReq", "OneofReq", []binding{{verb: "get", path: "/c"}, {verb: "post", path: "/c", body: "*"}}},
		{"Whole", "WholeReq", "WholeReq", []binding{{verb: "post", path: "/w", body: "*"}}},
		{"Unbound", "Sub", "WholeReq", nil},
		{"Import", "Sub", "Sub", []binding{{verb: "get", path: "/i"}}},
		{"IMport", "Sub", "Sub", []binding{{verb: "get", path: "/i2"}}},
	}
	return d
}
