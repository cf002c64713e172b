package rpc

import (
	"math"
	"strings"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/teamlint/baron/zz_sim/k"
)

// how messages are filled
type style struct {
	r     *k.Rand
	size  int                                     // 0 sparse, 1 normal, 2 with long strings and many elements
	nan   bool                                    // not-a-number and infinities
	negz  bool                                    // negative zero
	oneof bool                                    // members of oneofs (and what is made of them)
	nilb  bool                                    // empty but present bytes
	path  map[protoreflect.Name]bool              // representable in a path
	query map[protoreflect.Name]bool              // travels in the query string
	skip  func(protoreflect.FieldDescriptor) bool // left alone
	depth int
	huge  bool // large may be more than a megabyte
}

var strPool = []string{"", "a", "hello world", "日本語 ü", "a/b", "a?b=c&d=e", "%41%zz", "1+1 = 2", `"quoted" \ back`, "{}", "[1,2]", `["x"]`, "null", "line\nbreak\ttab", "\u2028<script>&amp;", "#frag;x", "a,b,c", " lead", "trail ", "..", ".", "true", "0", "-17", "3.5e2", "\x01\x7f", "{id}", "%2F", "é/../x", "\U0001F600"}

func (s *style) str(path bool) string {
	for {
		v := strPool[s.r.Intn(len(strPool))]
		switch {
		case s.size == 2 && s.r.P(1, 6):
			v = strings.Repeat(string(rune('a'+s.r.Intn(26))), 500+s.r.Intn(6000))
		case s.r.P(1, 3):
			v = ""
			for n := 1 + s.r.Intn(8); n > 0; n-- {
				v += string(rune(' ' + s.r.Intn(95)))
			}
		}
		if path {
			v = strings.Replace(v, "/", "", -1)
			if v == "" || v == "." || v == ".." {
				continue
			}
		}
		return v
	}
}

func (s *style) i64(bits uint) int64 {
	max := int64(1)<<(bits-1) - 1
	switch s.r.Intn(6) {
	case 0:
		return max
	case 1:
		return -max - 1
	case 2:
		return int64(s.r.Intn(3)) - 1
	case 3:
		return int64(s.r.Intn(1000)) - 500
	}
	return int64(s.r.U64()) >> (64 - bits)
}

func (s *style) u64(bits uint) uint64 {
	switch s.r.Intn(4) {
	case 0:
		return math.MaxUint64 >> (64 - bits)
	case 1:
		return uint64(s.r.Intn(300))
	}
	return s.r.U64() >> (64 - bits)
}

func (s *style) f64(odd bool) float64 {
	switch s.r.Intn(9) {
	case 0:
		if odd && s.nan {
			return []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[s.r.Intn(3)]
		}
		return math.MaxFloat64
	case 1:
		return math.SmallestNonzeroFloat64
	case 2:
		if s.negz {
			return math.Copysign(0, -1)
		}
		return 0
	case 3:
		return 1e21 + float64(s.r.Intn(3))
	case 4:
		return -1.0 / 3
	case 5:
		return float64(s.r.Intn(100))
	}
	return (float64(s.r.U64()>>11)/float64(1<<53) - 0.5) * math.Pow(10, float64(s.r.Intn(40)-15))
}

func (s *style) f32(odd bool) float32 {
	switch s.r.Intn(8) {
	case 0:
		if odd && s.nan {
			return []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))}[s.r.Intn(3)]
		}
		return math.MaxFloat32
	case 1:
		return math.SmallestNonzeroFloat32
	case 2:
		return 16777217
	case 3:
		return 0.1
	}
	f := float32(s.f64(false))
	if math.IsInf(float64(f), 0) {
		return -math.MaxFloat32
	}
	if f == 0 && !s.negz {
		return 0
	}
	return f
}

// scalar makes a value of a field that is not a message.
func (s *style) scalar(fd protoreflect.FieldDescriptor, path, odd bool) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(s.r.P(1, 2))
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		if s.r.P(1, 5) {
			return protoreflect.ValueOfEnum(protoreflect.EnumNumber(s.r.Intn(200) - 100))
		}
		return protoreflect.ValueOfEnum(vs.Get(s.r.Intn(vs.Len())).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(s.i64(32)))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(s.i64(64))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(s.u64(32)))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(s.u64(64))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(s.f32(odd))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(s.f64(odd))
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(s.str(path))
	}
	n := []int{0, 1, 3, 17}[s.r.Intn(4)]
	if s.size == 2 && s.r.P(1, 4) {
		n = 3000
	}
	if n == 0 && !s.nilb {
		n = 2
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(s.r.U64())
	}
	return protoreflect.ValueOfBytes(b)
}

// make fills a message, which is not made bigger than transports carry.
func (s *style) make(m proto.Message) {
	for s.fill(m.ProtoReflect()); proto.Size(m) > 100<<10; s.fill(m.ProtoReflect()) {
		proto.Reset(m)
		if s.size > 0 {
			s.size--
		}
	}
}

// large makes one of the fields of a message large.
func (s *style) large(m proto.Message) {
	var can []protoreflect.FieldDescriptor
	fds := m.ProtoReflect().Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if oo := fd.ContainingOneof(); oo != nil && !oo.IsSynthetic() || fd.IsList() || s.path[fd.Name()] || s.skip != nil && s.skip(fd) {
			continue
		}
		if fd.Kind() == protoreflect.StringKind || fd.Kind() == protoreflect.BytesKind {
			can = append(can, fd)
		}
	}
	if len(can) == 0 {
		return
	}
	fd := can[s.r.Intn(len(can))]
	v := strings.Repeat(string(rune('a'+s.r.Intn(26))), 66000+s.r.Intn(30000))
	if !s.query[fd.Name()] && s.huge && s.r.P(1, 10) {
		v += strings.Repeat("-", 1<<20)
	}
	if fd.Kind() == protoreflect.BytesKind {
		m.ProtoReflect().Set(fd, protoreflect.ValueOfBytes([]byte(v)))
		return
	}
	m.ProtoReflect().Set(fd, protoreflect.ValueOfString(v))
}

func (s *style) fill(m protoreflect.Message) {
	switch m.Descriptor().FullName() {
	case "google.protobuf.Timestamp":
		sec := []int64{0, 1, -62135596800, 253402300799, 1605000000, -1}[s.r.Intn(6)]
		nano := []int32{0, 1, 999999999, 500000000}[s.r.Intn(4)]
		s.setWK(m, sec, nano)
		return
	case "google.protobuf.Duration":
		sec := []int64{0, 1, 315576000000, 3600}[s.r.Intn(4)]
		nano := []int32{0, 1, 999999999}[s.r.Intn(3)]
		if s.r.P(1, 2) {
			sec, nano = -sec, -nano
		}
		s.setWK(m, sec, nano)
		return
	case "google.protobuf.Any":
		if s.r.P(1, 5) {
			return
		}
		var x proto.Message = wrapperspb.Int32(int32(s.i64(32)))
		if s.r.P(1, 2) {
			x = wrapperspb.String(s.str(false))
		}
		a, err := anypb.New(x)
		if err != nil {
			panic("harness: " + err.Error())
		}
		proto.Merge(m.Interface(), a)
		return
	case "google.protobuf.Struct":
		if !s.oneof {
			return
		}
		fs := m.Mutable(m.Descriptor().Fields().ByName("fields")).Map()
		for n := s.r.Intn(4); n > 0; n-- {
			v := fs.NewValue()
			s.value(v.Message(), 0)
			fs.Set(protoreflect.ValueOfString(s.str(false)).MapKey(), v)
		}
		return
	}
	fds := m.Descriptor().Fields()
	p := []int{2, 4, 5}[s.size]
	chosen := map[protoreflect.Name]int{}
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if s.skip != nil && s.depth == 0 && s.skip(fd) {
			continue
		}
		path := s.depth == 0 && s.path[fd.Name()]
		query := s.depth == 0 && s.query[fd.Name()]
		if oo := fd.ContainingOneof(); oo != nil && !oo.IsSynthetic() {
			if !s.oneof {
				continue
			}
			if _, ok := chosen[oo.Name()]; !ok {
				chosen[oo.Name()] = s.r.Intn(oo.Fields().Len() + 1)
			}
			if n := chosen[oo.Name()]; n == oo.Fields().Len() || oo.Fields().Get(n) != fd {
				continue
			}
		} else if !path && !s.r.P(p, 6) {
			continue
		}
		sub := *s
		sub.depth++
		if query {
			sub.nan = false
		}
		one := func(nv protoreflect.Value) protoreflect.Value {
			if fd.Message() != nil && !fd.IsMap() {
				sub.fill(nv.Message())
				return nv
			}
			return sub.scalar(fd, path, true)
		}
		switch {
		case fd.IsMap():
			mp := m.Mutable(fd).Map()
			for n := s.r.Intn(4); n > 0; n-- {
				key := sub.scalar(fd.MapKey(), false, false).MapKey()
				v := mp.NewValue()
				if fd.MapValue().Message() != nil {
					if s.depth < 3 {
						sub.fill(v.Message())
					}
				} else {
					v = sub.scalar(fd.MapValue(), false, true)
				}
				mp.Set(key, v)
			}
		case fd.IsList():
			l := m.Mutable(fd).List()
			n := s.r.Intn(4)
			if s.size == 2 && s.r.P(1, 4) {
				n = 30
			}
			if fd.Message() != nil && s.depth >= 3 {
				n = 0
			}
			for ; n > 0; n-- {
				l.Append(one(l.NewElement()))
			}
		case fd.Message() != nil:
			if s.depth < 3 {
				one(m.Mutable(fd))
			}
		default:
			v := sub.scalar(fd, path, true)
			if query {
				v = s.scalar(fd, path, true)
			}
			if fd.HasOptionalKeyword() && !path && s.r.P(1, 5) && (s.nilb || fd.Kind() != protoreflect.BytesKind) {
				v = fd.Default() // there, but the zero value
				if fd.Kind() == protoreflect.BytesKind {
					v = protoreflect.ValueOfBytes([]byte{})
				}
			}
			m.Set(fd, v)
		}
	}
}

func (s *style) setWK(m protoreflect.Message, sec int64, nano int32) {
	m.Set(m.Descriptor().Fields().ByName("seconds"), protoreflect.ValueOfInt64(sec))
	m.Set(m.Descriptor().Fields().ByName("nanos"), protoreflect.ValueOfInt32(nano))
}

// value fills a google.protobuf.Value.
func (s *style) value(m protoreflect.Message, depth int) {
	f := m.Descriptor().Fields()
	n := 6
	if depth > 1 {
		n = 4
	}
	switch s.r.Intn(n) {
	case 0:
		m.Set(f.ByName("null_value"), protoreflect.ValueOfEnum(0))
	case 1:
		m.Set(f.ByName("number_value"), protoreflect.ValueOfFloat64(s.f64(false)))
	case 2:
		m.Set(f.ByName("string_value"), protoreflect.ValueOfString(s.str(false)))
	case 3:
		m.Set(f.ByName("bool_value"), protoreflect.ValueOfBool(s.r.P(1, 2)))
	case 4:
		l := m.Mutable(f.ByName("list_value")).Message()
		vs := l.Mutable(l.Descriptor().Fields().ByName("values")).List()
		for n := s.r.Intn(3); n > 0; n-- {
			e := vs.NewElement()
			s.value(e.Message(), depth+1)
			vs.Append(e)
		}
	case 5:
		st := m.Mutable(f.ByName("struct_value")).Message()
		fs := st.Mutable(st.Descriptor().Fields().ByName("fields")).Map()
		for n := s.r.Intn(3); n > 0; n-- {
			v := fs.NewValue()
			s.value(v.Message(), depth+1)
			fs.Set(protoreflect.ValueOfString(s.str(false)).MapKey(), v)
		}
	}
}

// hasOneof says whether a member of a oneof is set anywhere inside.
func hasOneof(m protoreflect.Message) bool {
	found := false
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if oo := fd.ContainingOneof(); oo != nil && !oo.IsSynthetic() {
			found = true
			return false
		}
		switch {
		case fd.IsMap():
			if fd.MapValue().Message() != nil {
				v.Map().Range(func(_ protoreflect.MapKey, v protoreflect.Value) bool {
					found = found || hasOneof(v.Message())
					return !found
				})
			}
		case fd.IsList():
			if fd.Message() != nil {
				for i := 0; i < v.List().Len(); i++ {
					found = found || hasOneof(v.List().Get(i).Message())
				}
			}
		case fd.Message() != nil:
			found = found || hasOneof(v.Message())
		}
		return !found
	})
	return found
}

func toText(m proto.Message) string {
	b, err := protojson.MarshalOptions{UseProtoNames: true, UseEnumNumbers: true, AllowPartial: true}.Marshal(m)
	if err != nil {
		panic("harness: a message cannot be written down: " + err.Error())
	}
	return string(b)
}

func fromText(s string, m proto.Message) error {
	return protojson.UnmarshalOptions{AllowPartial: true}.Unmarshal([]byte(s), m)
}

// show is a short form of a message.
func show(x interface{}) string {
	m, ok := x.(proto.Message)
	if !ok || m == nil || !m.ProtoReflect().IsValid() {
		return "none"
	}
	b, err := protojson.MarshalOptions{UseProtoNames: true, UseEnumNumbers: true, AllowPartial: true}.Marshal(m)
	s := string(b)
	if err != nil {
		s = "unprintable: " + err.Error()
	}
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}
