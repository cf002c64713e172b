// Package lib simulates programs that use baron's packages as a library:
// streams that deliver their bytes in any way and fail at any point, calls
// after aborted calls, and calls of many threads at once.
package lib

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path"
	"reflect"
	"sort"
	"strings"
	"syscall"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/gengokit/generator"
	"github.com/teamlint/baron/gengokit/service"
	"github.com/teamlint/baron/svcdef"
	"github.com/teamlint/baron/svcdef/svcparse"
	"github.com/teamlint/baron/zz_sim/cli"
	"github.com/teamlint/baron/zz_sim/drive"
	"github.com/teamlint/baron/zz_sim/k"
)

// Input is what a program has of one service.
type Input struct {
	Def    *cli.Def
	Protos map[string]string
	Gos    map[string]string
	Prev   map[string]string
	Conf   gengokit.Config
	Err    string
}

// entry points that are not part of what the repository's tests use
var (
	WriteGenFile func(r io.Reader, path string) error
	FromReaders  func(gopath []string, rs []io.Reader) (string, error)
)

var inputs = map[string]*Input{}

// GetInput makes the input of a seed.
func GetInput(seed uint64, small bool) *Input {
	key := fmt.Sprint(seed, small)
	if in := inputs[key]; in != nil {
		return in
	}
	if len(inputs) > 300 {
		inputs = map[string]*Input{}
	}
	r := k.NewRand(seed, "input")
	c := cli.NewCase("lib", seed, 1+r.Intn(3))
	c.Small = small
	in := &Input{}
	inputs[key] = in
	var b *cli.Base
	drive.Aside(func() { b = cli.MakeBase(c) })
	if b.Ref.P.Code != 0 {
		in.Err = "no reference"
		return in
	}
	in.Def = b.St.Def.Clone()
	in.Protos, in.Gos, in.Prev = map[string]string{}, map[string]string{}, map[string]string{}
	for _, n := range b.St.Def.ProtoNames() {
		p := path.Join(b.St.L.ProtoDir, n)
		in.Protos[p] = b.New[p]
	}
	for _, p := range b.Outs.PB {
		in.Gos[p] = b.New[p]
	}
	for _, p := range b.Outs.Editable() {
		if s, ok := b.Old[p]; ok {
			in.Prev[strings.TrimPrefix(p, b.Outs.S+"/")] = s
		}
	}
	in.Conf = gengokit.Config{GoPackage: "example.com/app" + strings.TrimPrefix(b.Outs.S, cli.App), ServicePath: b.Outs.S, PBPackage: b.St.L.GoPkg(), PBPath: b.St.L.ProtoDir,
		Version: "v1.2.3", VersionDate: "20200101", Transport: "all", GenClient: b.St.L.Client}
	if b.St.L.Trans != "" {
		in.Conf.Transport = b.St.L.Trans
	}
	return in
}

// Damage is one change to a stream's bytes.
type Damage struct {
	Kind string `json:"kind"`
	At   int    `json:"at"`
	N    int    `json:"n,omitempty"`
	Tok  string `json:"tok,omitempty"`
}

// Delivery says how a stream arrives.
type Delivery struct {
	Mode  string `json:"mode,omitempty"` // whole, byte, rand, lines, big
	Seed  uint64 `json:"seed,omitempty"`
	Empty bool   `json:"empty,omitempty"` // reads of nothing in between
	EOF   bool   `json:"eof,omitempty"`   // the last bytes come with io.EOF
	File  int    `json:"file,omitempty"`  // which stream fails
	At    int    `json:"at,omitempty"`    // per mille of its length
	Err   string `json:"err,omitempty"`
	With  bool   `json:"with,omitempty"` // the error comes with data
	Once  bool   `json:"once,omitempty"` // only once; then the rest arrives
	End   bool   `json:"end,omitempty"`  // only once; then io.EOF
}

// Call is one call into the library.
type Call struct {
	Kind  string   `json:"kind"` // lex, parse, new, svc, gen, name, write
	In    uint64   `json:"in"`
	Small bool     `json:"small,omitempty"`
	D     Delivery `json:"d"`
	Dmg   []Damage `json:"dmg,omitempty"`  // of the stream D.File
	Raw   string   `json:"raw,omitempty"`  // use this text as the definition
	Long  string   `json:"long,omitempty"` // use a definition with many of this
	N     int      `json:"n,omitempty"`    // how many
	CRLF  bool     `json:"crlf,omitempty"` // streams have CRLF line ends
}

// Stream is a simulated reader.
type Stream struct {
	data    string
	off     int
	fail    int // -1: never
	err     error
	d       Delivery
	r       *k.Rand
	empties int
	failed  int // errors returned
	after   bool
	Reads   int
}

var errKinds = []string{"EIO", "unexpected", "closed", "timeout", "custom", "canceled", "path", "shortbuf", "temporary", "EINTR"}

type tempErr struct{}

func (tempErr) Error() string   { return "simulated temporary failure" }
func (tempErr) Timeout() bool   { return true }
func (tempErr) Temporary() bool { return true }

func mkErr(kind string) error {
	switch kind {
	case "EIO":
		return syscall.EIO
	case "unexpected":
		return io.ErrUnexpectedEOF
	case "closed":
		return io.ErrClosedPipe
	case "timeout":
		return os.ErrDeadlineExceeded
	case "canceled":
		return context.Canceled
	case "path":
		return &os.PathError{Op: "read", Path: "x", Err: syscall.EIO}
	case "shortbuf":
		return io.ErrShortBuffer
	case "temporary":
		return &net.OpError{Op: "read", Net: "tcp", Err: tempErr{}}
	case "EINTR":
		return syscall.EINTR
	}
	return errors.New("simulated failure")
}

func (s *Stream) Read(b []byte) (int, error) {
	k.Yield()
	s.Reads++
	if len(b) == 0 {
		return 0, nil
	}
	if s.d.Empty && s.empties < 3 && s.r.P(1, 3) {
		s.empties++
		return 0, nil
	}
	s.empties = 0
	end := len(s.data)
	failing := s.fail >= 0 && (s.failed == 0 || !s.d.Once && !s.d.End)
	if failing && s.fail < end {
		end = s.fail
	}
	if s.d.End && s.failed > 0 {
		return 0, io.EOF
	}
	left := end - s.off
	if left == 0 {
		if failing {
			s.failed++
			return 0, s.err
		}
		return 0, io.EOF
	}
	n := left
	switch s.d.Mode {
	case "byte":
		n = 1
	case "rand":
		n = 1 + s.r.Intn(40)
	case "big":
		n = 1 + s.r.Intn(700)
	case "lines":
		if i := strings.IndexByte(s.data[s.off:end], '\n'); i >= 0 {
			n = i + 1
		}
	}
	if n > left {
		n = left
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, s.data[s.off:s.off+n])
	s.off += n
	if s.off == end {
		if failing && s.d.With {
			s.failed++
			return n, s.err
		}
		if !failing && s.d.EOF {
			return n, io.EOF
		}
	}
	return n, nil
}

// Outcome of a call.
type Outcome struct {
	Text   string
	Err    error
	Nil    bool // neither a result nor an error
	Panic  string
	Hang   bool
	Ticks  int
	Len    int
	Failed bool // a stream returned its error
	All    bool // all bytes of all streams were delivered
	Reads  int
	Kept   string // what a failed write left behind
}

func (o *Outcome) String() string {
	switch {
	case o.Hang:
		return "no end"
	case o.Panic != "":
		return "panic: " + o.Panic
	case o.Err != nil:
		return "error: " + o.Err.Error()
	}
	return o.Text
}

func apply(s string, dmg []Damage) string {
	for _, d := range dmg {
		at := 0
		if len(s) > 0 {
			at = d.At % (len(s) + 1)
		}
		n := d.N
		if n > len(s)-at {
			n = len(s) - at
		}
		switch d.Kind {
		case "cut":
			s = s[:at]
		case "flip":
			if at < len(s) {
				b := []byte(s)
				b[at] ^= byte(1 << uint(d.N%8))
				s = string(b)
			}
		case "del":
			s = s[:at] + s[at+n:]
		case "dup":
			s = s[:at+n] + s[at:at+n] + s[at+n:]
		case "ins":
			rep := d.N
			if rep < 1 {
				rep = 1
			}
			s = s[:at] + strings.Repeat(d.Tok, rep) + s[at:]
		case "tail":
			s = s[at:]
		}
	}
	return s
}

func sorted(m map[string]string) []string {
	var s []string
	for n := range m {
		s = append(s, n)
	}
	sort.Strings(s)
	return s
}

// Do performs a call; it must run in a simulated process.
func (c *Call) Do() (o *Outcome) {
	o = &Outcome{}
	in := GetInput(c.In, c.Small)
	p := k.Self()
	t0 := p.Ticks
	var streams []*Stream
	open := func(files map[string]string) map[string]io.Reader {
		m := map[string]io.Reader{}
		for _, n := range sorted(files) {
			text := files[n]
			i := len(streams)
			target := i == c.D.File
			if c.CRLF {
				text = strings.Replace(text, "\n", "\r\n", -1)
			}
			if target {
				text = apply(text, c.Dmg)
			}
			s := &Stream{data: text, fail: -1, d: c.D, r: k.NewRand(c.D.Seed+uint64(i), "stream")}
			if target && c.D.Err != "" {
				s.fail = len(text) * c.D.At / 1000
				s.err = mkErr(c.D.Err)
			}
			o.Len += len(text)
			streams = append(streams, s)
			m[n] = s
		}
		return m
	}
	plain := func(files map[string]string) map[string]io.Reader {
		m := map[string]io.Reader{}
		for n, s := range files {
			m[n] = strings.NewReader(s)
		}
		return m
	}
	first := func(files map[string]string) string {
		base := in.Def.ProtoNames()[0]
		for n := range files {
			if path.Base(n) == base {
				return n
			}
		}
		return ""
	}
	finish := func() {
		o.All = true
		for _, s := range streams {
			if s.failed > 0 {
				o.Failed = true
			}
			if s.off < len(s.data) {
				o.All = false
			}
			o.Reads += s.Reads
		}
		o.Ticks = p.Ticks - t0
	}
	defer func() {
		if r := recover(); r != nil {
			if s := fmt.Sprint(r); strings.HasPrefix(s, "no end after") {
				o.Hang = true
			} else {
				o.Panic = s
			}
		}
		finish()
	}()
	one := map[string]string{}
	switch c.Kind {
	case "lex", "parse":
		n := first(in.Protos)
		one[n] = in.Protos[n]
		if c.Raw != "" {
			one[n] = c.Raw
		} else if c.Long != "" {
			one[n] = long(c.Long, c.N)
		}
		lex := svcparse.NewSvcLexer(open(one)[n])
		if c.Kind == "lex" {
			var b strings.Builder
			for {
				tk, val := lex.GetToken()
				if tk == svcparse.EOF || tk == svcparse.ILLEGAL {
					break
				}
				fmt.Fprintf(&b, "%v %q %d\n", tk, val, lex.GetLineNumber())
			}
			o.Text = b.String()
			return o
		}
		svc, err := svcparse.ParseService(lex)
		o.Err = err
		o.Nil = svc == nil && err == nil
		o.Text = Dump(svc)
	case "new":
		fs := open(in.Protos)
		gs := open(in.Gos) // numbered after the definitions
		sd, err := svcdef.New(gs, fs)
		o.Err = err
		o.Nil = sd == nil && err == nil
		o.Text = Dump(sd)
	case "svc":
		sd, err := svcdef.New(plain(in.Gos), plain(in.Protos))
		if err != nil {
			o.Err = err
			return o
		}
		data, err := gengokit.NewData(sd, in.Conf)
		if err != nil {
			o.Err = err
			return o
		}
		var prev io.Reader
		if s, ok := in.Prev["service/service.go"]; ok {
			one["service/service.go"] = s
			prev = open(one)["service/service.go"]
		}
		h, err := service.NewService(sd.Service, prev)
		if err != nil {
			o.Err = err
			return o
		}
		rd, err := h.Render(service.ServicePath, data)
		if err != nil {
			o.Err = err
			return o
		}
		b, err := io.ReadAll(rd)
		o.Err = err
		o.Text = string(b)
	case "gen":
		sd, err := svcdef.New(plain(in.Gos), plain(in.Protos))
		if err != nil {
			o.Err = err
			return o
		}
		conf := in.Conf
		conf.PreviousFiles = open(in.Prev)
		out, err := generator.GenerateGokit(sd, conf)
		if err != nil {
			o.Err = err
			return o
		}
		o.Text, o.Err = readAll(out)
	case "name":
		if FromReaders == nil {
			o.Text = "skipped"
			return o
		}
		var rs []io.Reader
		m := open(in.Protos)
		// the file with the service first
		var names []string
		for n := range m {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			rs = append(rs, m[n])
		}
		if len(rs) > 1 {
			// definitions that import each other have no names as streams
			o.Text = "skipped"
			return o
		}
		o.Text, o.Err = FromReaders([]string{"/home/u/go"}, rs)
	case "write":
		if WriteGenFile == nil {
			o.Text = "skipped"
			return o
		}
		one["x"] = "package x\n" + in.Protos[first(in.Protos)]
		o.Err = WriteGenFile(open(one)["x"], "/w/app/out/x.go")
		fs := p.W.FS
		for _, n := range sorted(fs.Files("/w/app/out")) {
			s, ok := fs.Get(n)
			if !ok {
				continue
			}
			o.Text += n + "\n" + s + "\n"
			if o.Err != nil {
				o.Kept = n
			}
		}
	default:
		panic("harness: call " + c.Kind)
	}
	return o
}

func readAll(m map[string]io.Reader) (string, error) {
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		s, err := io.ReadAll(m[n])
		if err != nil {
			return "", err
		}
		fmt.Fprintf(&b, "=== %s\n%s\n", n, s)
	}
	return b.String(), nil
}

// Streams is the number of streams a call reads.
func (c *Call) Streams() int {
	in := GetInput(c.In, c.Small)
	switch c.Kind {
	case "new":
		return len(in.Protos) + len(in.Gos)
	case "gen":
		return len(in.Prev)
	}
	return 1
}

// Dump writes a value with everything reachable from it.
func Dump(v interface{}) string {
	var b strings.Builder
	seen := map[uintptr]int{}
	var rec func(v reflect.Value, ind string)
	rec = func(v reflect.Value, ind string) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				b.WriteString("nil\n")
				return
			}
			if n, ok := seen[v.Pointer()]; ok {
				fmt.Fprintf(&b, "#%d\n", n)
				return
			}
			seen[v.Pointer()] = len(seen) + 1
			fmt.Fprintf(&b, "&%d ", len(seen))
			rec(v.Elem(), ind)
		case reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil\n")
				return
			}
			rec(v.Elem(), ind)
		case reflect.Struct:
			fmt.Fprintf(&b, "%s\n", v.Type().Name())
			for i := 0; i < v.NumField(); i++ {
				fmt.Fprintf(&b, "%s %s: ", ind, v.Type().Field(i).Name)
				rec(v.Field(i), ind+" ")
			}
		case reflect.Slice, reflect.Array:
			fmt.Fprintf(&b, "[%d]\n", v.Len())
			for i := 0; i < v.Len(); i++ {
				fmt.Fprintf(&b, "%s - ", ind)
				rec(v.Index(i), ind+"   ")
			}
		case reflect.Map:
			var ks []string
			m := map[string]reflect.Value{}
			for _, key := range v.MapKeys() {
				s := fmt.Sprint(key)
				ks = append(ks, s)
				m[s] = v.MapIndex(key)
			}
			sort.Strings(ks)
			fmt.Fprintf(&b, "map[%d]\n", len(ks))
			for _, s := range ks {
				fmt.Fprintf(&b, "%s %q = ", ind, s)
				rec(m[s], ind+"   ")
			}
		case reflect.String:
			fmt.Fprintf(&b, "%q\n", v.String())
		case reflect.Func, reflect.Chan:
			b.WriteString("-\n")
		default:
			switch {
			case v.CanInt():
				fmt.Fprintf(&b, "%d\n", v.Int())
			case v.CanUint():
				fmt.Fprintf(&b, "%d\n", v.Uint())
			case v.Kind() == reflect.Bool:
				fmt.Fprintf(&b, "%v\n", v.Bool())
			default:
				fmt.Fprintf(&b, "%v\n", v)
			}
		}
	}
	rec(reflect.ValueOf(v), "")
	return b.String()
}

func cloneJSON(a, b interface{}) {
	js, err := json.Marshal(a)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(js, b); err != nil {
		panic(err)
	}
}
