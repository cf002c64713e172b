package rpc

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Raw is a call made without the generated client: an HTTP request put together
// from the annotation.
type Raw struct {
	Rule  int    `json:"rule"`
	Type  string `json:"type,omitempty"`  // the content type, if it is not JSON's
	Verb  string `json:"verb,omitempty"`  // a verb that is not annotated
	Decoy bool   `json:"decoy,omitempty"` // misleading values where the field does not belong
	Brief bool   `json:"brief,omitempty"` // unpopulated fields are left out of the body
	Bad   int    `json:"bad,omitempty"`   // which of the values that can be malformed is
	Path  string `json:"path,omitempty"`  // how the path differs: extra, case, slash, less, front
}

// text is a scalar in a path or a query string.
func text(fd protoreflect.FieldDescriptor, v protoreflect.Value) string {
	switch fd.Kind() {
	case protoreflect.EnumKind:
		return strconv.Itoa(int(v.Enum()))
	case protoreflect.FloatKind:
		return strconv.FormatFloat(v.Float(), 'g', -1, 32)
	case protoreflect.DoubleKind:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case protoreflect.BytesKind:
		return strconv.Quote(base64.StdEncoding.EncodeToString(v.Bytes()))
	}
	return fmt.Sprint(v.Interface())
}

// goField is the JSON of a field's Go value.
func goJSON(v protoreflect.Value, fd protoreflect.FieldDescriptor) string {
	var x interface{}
	switch {
	case fd.IsList() && fd.Message() != nil:
		var l []interface{}
		for i := 0; i < v.List().Len(); i++ {
			l = append(l, v.List().Get(i).Message().Interface())
		}
		x = l
	case fd.IsList() && fd.Kind() == protoreflect.BytesKind:
		var l [][]byte
		for i := 0; i < v.List().Len(); i++ {
			l = append(l, v.List().Get(i).Bytes())
		}
		x = l
	case fd.IsList() && fd.Kind() == protoreflect.EnumKind:
		var l []int32
		for i := 0; i < v.List().Len(); i++ {
			l = append(l, int32(v.List().Get(i).Enum()))
		}
		x = l
	case fd.Message() != nil:
		x = v.Message().Interface()
	}
	b, err := json.Marshal(x)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

// malform makes a text which no value of a field is written like.
func malform(fd protoreflect.FieldDescriptor, n int) string {
	bad := []string{"12x", "x", "1.5.1", "--3", "true1"}
	switch fd.Kind() {
	case protoreflect.BoolKind:
		bad = append(bad, "maybe", "7")
	case protoreflect.FloatKind:
		bad = append(bad, "1e999", "1.2e", "1e39", "-3.5e38", "1e300")
	case protoreflect.DoubleKind:
		bad = append(bad, "1e999", "1.2e", "-1e309")
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind, protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		bad = append(bad, "-1", "99999999999999999999999")
		if k := fd.Kind(); k == protoreflect.Uint32Kind || k == protoreflect.Fixed32Kind {
			bad = append(bad, "4294967296", "18446744073709551615")
		} else {
			bad = append(bad, "18446744073709551616")
		}
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		bad = append(bad, "99999999999999999999999", "1.5", "9223372036854775808", "-9223372036854775809")
	default:
		bad = append(bad, "99999999999", "-99999999999", "1.5", "2147483648", "-2147483649")
	}
	switch fd.Kind() {
	case protoreflect.BoolKind, protoreflect.FloatKind, protoreflect.DoubleKind:
	default:
		bad = append(bad, "0x1f", "1_000", "0b11", "1e3")
	}
	return bad[n%len(bad)]
}

// canMalform says whether there are texts which no value of a field is written like.
func canMalform(fd protoreflect.FieldDescriptor) bool {
	if fd.IsMap() || fd.Message() != nil {
		return false
	}
	return fd.Kind() != protoreflect.StringKind && fd.Kind() != protoreflect.BytesKind
}

var segment = regexp.MustCompile(`[^/]+`)

// otherPath changes a path so that no rule of the service has it.
func otherPath(how, path, verb string, s *service) string {
	p := path
	switch how {
	case "extra":
		p += "/zz"
	case "slash":
		p += "/"
	case "front":
		p = "/zz" + p
	case "less":
		if i := strings.LastIndexByte(p, '/'); i > 0 {
			p = p[:i]
		}
	case "case":
		if l := segment.FindString(p); l != "" && strings.ToUpper(l) != l {
			p = "/" + strings.ToUpper(l) + p[1+len(l):]
		}
	}
	if p == path {
		return p
	}
	for _, m := range s.methods {
		for _, ru := range m.rules {
			x := ""
			last := 0
			for _, at := range braces.FindAllStringIndex(ru.path, -1) {
				x += regexp.QuoteMeta(ru.path[last:at[0]]) + "[^/]*"
				last = at[1]
			}
			x += regexp.QuoteMeta(ru.path[last:])
			if ru.verb == verb && regexp.MustCompile("^"+x+"/?$").MatchString(strings.TrimSuffix(p, "/")) && how != "slash" || ru.verb == verb && ru.path == p {
				return path
			}
		}
	}
	return p
}

// build makes the request a binding asks for. It says whether the request is
// not one that the server may accept.
func (r *Raw) build(s *service, m *method, addr string, req proto.Message) (*http.Request, bool, error) {
	wrong := false
	ru := m.rules[r.Rule%len(m.rules)]
	pm := clone(req).ProtoReflect()
	fds := pm.Descriptor().Fields()
	inPath := ru.pathFields()
	decoy := url.Values{}
	// what can be malformed
	var can []protoreflect.FieldDescriptor
	var bad protoreflect.FieldDescriptor
	badBody := false
	var both protoreflect.OneofDescriptor
	if r.Bad > 0 {
		for i := 0; i < fds.Len(); i++ {
			fd := fds.Get(i)
			if canMalform(fd) && (inPath[fd.Name()] || ru.body != "*" && ru.body != string(fd.Name()) && (fd.ContainingOneof() == nil || fd.ContainingOneof().IsSynthetic() || pm.Has(fd))) {
				can = append(can, fd)
			}
		}
		// two members of a oneof at once
		var ones []protoreflect.OneofDescriptor
		for i := 0; ru.body != "*" && i < pm.Descriptor().Oneofs().Len(); i++ {
			if o := pm.Descriptor().Oneofs().Get(i); !o.IsSynthetic() && o.Fields().Len() > 1 {
				ones = append(ones, o)
			}
		}
		if n := len(ones); n > 0 && r.Bad%3 == 0 {
			both = ones[r.Bad/4%n]
			wrong = true
		} else if n := len(can); n > 0 && (ru.body == "" || r.Bad%4 > 0) {
			bad = can[r.Bad/4%n]
			wrong = true
		} else if ru.body != "" {
			badBody, wrong = true, true
		}
	}
	path := braces.ReplaceAllStringFunc(ru.path, func(s string) string {
		fd := fds.ByName(protoreflect.Name(braces.FindStringSubmatch(s)[1]))
		if fd == bad {
			return malform(fd, r.Bad/4)
		}
		return url.PathEscape(text(fd, pm.Get(fd)))
	})
	verb := ru.verb
	if r.Verb != "" {
		verb = r.Verb
		wrong = true
	}
	if r.Path != "" {
		// a value may be empty or have slashes: only where values cannot matter
		if p := otherPath(r.Path, path, verb, s); p != path {
			path, wrong = p, true
		}
	}
	q := url.Values{}
	var body []byte
	opt := protojson.MarshalOptions{UseProtoNames: true, UseEnumNumbers: true, EmitUnpopulated: !r.Brief, AllowPartial: true}
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		n := string(fd.Name())
		v := pm.Get(fd)
		switch {
		case inPath[fd.Name()]:
			decoy[n] = []string{"1"}
		case fd == bad && fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				q.Add(n, text(fd, v.List().Get(i)))
			}
			q.Add(n, malform(fd, r.Bad/4))
		case fd == bad:
			q.Add(n, malform(fd, r.Bad/4))
		case ru.body == "*" || ru.body == n:
			if !fd.IsList() && !fd.IsMap() && fd.Message() == nil && fd.Kind() != protoreflect.BytesKind && fd.ContainingOneof() == nil {
				decoy[n] = []string{"1"}
			}
		case !pm.Has(fd):
			if fd.Kind() != protoreflect.StringKind && !fd.IsList() && !fd.IsMap() && fd.Message() == nil && fd.Kind() != protoreflect.BytesKind && fd.ContainingOneof() == nil && len(n)%2 == 0 {
				q.Add(n, text(fd, v)) // the zero value
			}
		case fd.IsList() && (fd.Message() != nil || fd.Kind() == protoreflect.BytesKind || fd.Kind() == protoreflect.EnumKind):
			q.Add(n, goJSON(v, fd))
		case fd.IsList() && fd.Kind() == protoreflect.StringKind && v.List().Len() == 1 && likeJSON(v.List().Get(0).String()):
			// what could be taken for JSON is written as JSON
			b, _ := json.Marshal([]string{v.List().Get(0).String()})
			q.Add(n, string(b))
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				q.Add(n, text(fd, v.List().Get(i)))
			}
		case fd.IsMap():
			panic("harness: a map in the query string")
		case fd.Message() != nil:
			q.Add(n, goJSON(v, fd))
		default:
			q.Add(n, text(fd, v))
		}
	}
	if both != nil {
		for k, i := 0, r.Bad; k < 2; k, i = k+1, i+1 {
			fd := both.Fields().Get(i % both.Fields().Len())
			if n := string(fd.Name()); q[n] == nil {
				if fd.Message() != nil {
					q.Add(n, "{}")
				} else {
					q.Add(n, text(fd, fd.Default()))
				}
			}
		}
	}
	switch {
	case ru.body == "*":
		for n := range inPath {
			fd := fds.ByName(n)
			if r.Decoy && fd.Kind() == protoreflect.StringKind {
				pm.Set(fd, protoreflect.ValueOfString("decoy"))
			} else {
				pm.Clear(fd)
			}
		}
		b, err := opt.Marshal(pm.Interface())
		if err != nil {
			return nil, false, err
		}
		body = b
	case ru.body != "":
		only := m.newReq().ProtoReflect()
		if fd := fds.ByName(protoreflect.Name(ru.body)); fd != nil && pm.Has(fd) {
			only.Set(fd, pm.Get(fd))
		}
		opt.EmitUnpopulated = false
		b, err := opt.Marshal(only.Interface())
		if err != nil {
			return nil, false, err
		}
		body = b
	}
	if badBody {
		switch r.Bad / 4 % 8 {
		case 0:
			body = body[:len(body)-1]
		case 3:
			body = body[:1+r.Bad/32%(len(body)-1)]
		case 4:
			body = []byte([]string{" ", "\n", "\t\r\n"}[r.Bad/32%3])
		case 5:
			body = append(body, []string{"}", "{}", ",", "\x00", "null"}[r.Bad/32%5]...)
		case 6:
			body = append(append([]byte{}, body...), body...)
		case 1:
			body = []byte("[1]")
		case 2:
			body = []byte("<html>")
		default:
			body = append([]byte("{\"zz_unknown\": nonsense, "), body[1:]...)
		}
	}
	if r.Decoy {
		for n, v := range decoy {
			q[n] = v
		}
	}
	u := "http://" + addr + path
	if len(q) > 0 {
		var keys []string
		for n := range q {
			keys = append(keys, n)
		}
		sort.Strings(keys)
		var parts []string
		for _, n := range keys {
			for _, v := range q[n] {
				parts = append(parts, url.QueryEscape(n)+"="+url.QueryEscape(v))
			}
		}
		u += "?" + strings.Join(parts, "&")
	}
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}
	hr, err := http.NewRequest(verb, u, rd)
	if err != nil {
		return nil, false, err
	}
	if body != nil {
		hr.Header.Set("Content-Type", "application/json")
		if r.Type != "" {
			hr.Header.Set("Content-Type", r.Type)
		}
		if r.Type == "none" {
			hr.Header.Del("Content-Type")
		}
	}
	return hr, wrong, nil
}

// likeJSON says whether a string could be taken for an array of strings.
func likeJSON(s string) bool {
	var l []string
	return s == "" || json.Unmarshal([]byte(s), &l) == nil || json.Unmarshal([]byte("["+s+"]"), &l) == nil
}
