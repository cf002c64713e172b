// Command svcgen makes services for the simulation of generated code.
//
//	svcgen PRE BARON SEED N      N definitions made from SEED
//	svcgen PRE BARON --from FILE the definition in a replay file
//
// For each definition it runs baron in PRE/zz_svc/gN, gives the service an
// implementation that hands every call to package svcreg, and writes how to
// start and to reach the service for the simulator (package zzh). What does not
// generate or compile is set aside and reported in PRE/svc.json.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Svc describes a generated service.
type Svc struct {
	Name      string            `json:"name"`
	Base      string            `json:"base"`
	Proto     string            `json:"proto"`
	Extra     map[string]string `json:"extra,omitempty"` // more files of the definition, by name
	Transport string            `json:"transport"`
	Err       string            `json:"err,omitempty"` // it did not generate or compile
	Methods   []string          `json:"methods"`
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "svcgen: "+f+"\n", a...)
	os.Exit(3)
}

const mod = "github.com/teamlint/baron/zz_svc/"

func main() {
	if len(os.Args) != 5 {
		die("usage")
	}
	pre, baron := os.Args[1], os.Args[2]
	var svcs []*Svc
	if os.Args[3] == "--from" {
		b, err := os.ReadFile(os.Args[4])
		if err != nil {
			die("%v", err)
		}
		var r struct {
			Case struct {
				Def   *Svc `json:"def"`
				Other *Svc `json:"other"`
			} `json:"case"`
		}
		if err := json.Unmarshal(b, &r); err != nil || r.Case.Def == nil {
			die("no definition in %s: %v", os.Args[4], err)
		}
		r.Case.Def.Err, r.Case.Def.Methods = "", nil
		svcs = append(svcs, r.Case.Def)
		if o := r.Case.Other; o != nil {
			o.Err, o.Methods = "", nil
			svcs = append(svcs, o)
		}
	} else {
		seed, _ := strconv.Atoi(os.Args[3])
		n, err := strconv.Atoi(os.Args[4])
		if err != nil {
			die("%v", err)
		}
		k := kitchen(0)
		svcs = append(svcs, &Svc{Name: k.name, Base: k.base, Proto: k.text(false), Transport: k.transport})
		for i := 1; i < n; i++ {
			d := newDef(rand.New(rand.NewSource(int64(seed)*1000+int64(i))), i)
			t := d.texts()
			x := &Svc{Name: d.name, Base: d.base, Proto: t[d.base], Transport: d.transport}
			delete(t, d.base)
			if len(t) > 0 {
				x.Extra = t
			}
			svcs = append(svcs, x)
		}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, s := range svcs {
		wg.Add(1)
		go func(s *Svc) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			s.Err = generate(s, pre, baron)
			if s.Err != "" {
				drop(s, pre)
			}
		}(s)
	}
	wg.Wait()
	build(svcs, pre)
	var all []string
	live := 0
	for _, s := range svcs {
		if s.Err == "" {
			live++
			all = append(all, "\t_ \""+mod+s.Name+"/zzh\"")
		}
	}
	js, _ := json.MarshalIndent(svcs, "", " ")
	if err := os.WriteFile(filepath.Join(pre, "svc.json"), js, 0666); err != nil {
		die("%v", err)
	}
	dir := filepath.Join(pre, "zz_svc", "zzall")
	os.MkdirAll(dir, 0777)
	src := "// Package zzall holds all services.\npackage zzall\n\nimport (\n" + strings.Join(all, "\n") + "\n)\n"
	if len(all) == 0 {
		src = "package zzall\n"
	}
	if err := os.WriteFile(filepath.Join(dir, "zz_plain.go"), []byte(src), 0666); err != nil {
		die("%v", err)
	}
}

func drop(s *Svc, pre string) {
	to := filepath.Join(pre, "zz_bad")
	os.MkdirAll(to, 0777)
	os.Rename(filepath.Join(pre, "zz_svc", s.Name), filepath.Join(to, s.Name))
}

func generate(s *Svc, pre, baron string) string {
	dir := filepath.Join(pre, "zz_svc", s.Name)
	if err := os.MkdirAll(dir, 0777); err != nil {
		die("%v", err)
	}
	pf := filepath.Join(dir, s.Base+".proto")
	if err := os.WriteFile(pf, []byte(s.Proto), 0666); err != nil {
		die("%v", err)
	}
	args := []string{"-c", "-t", s.Transport, s.Base + ".proto"}
	for n, t := range s.Extra {
		if err := os.WriteFile(filepath.Join(dir, n+".proto"), []byte(t), 0666); err != nil {
			die("%v", err)
		}
		args = append(args, n+".proto")
	}
	sort.Strings(args[4:])
	cmd := exec.Command(baron, args...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Sprintf("baron: %v: %s", err, tail(out))
	}
	// parse what was generated
	fset := token.NewFileSet()
	gp, err := parser.ParseFile(fset, filepath.Join(dir, s.Base+"_grpc.pb.go"), nil, 0)
	if err != nil {
		return "baron: no gRPC code: " + err.Error()
	}
	bp, err := filepath.Glob(filepath.Join(dir, "*.pb.baron.go"))
	if err != nil || len(bp) != 1 {
		return fmt.Sprintf("baron: generated %d transport files: %s", len(bp), tail(out))
	}
	ba, err := parser.ParseFile(fset, bp[0], nil, 0)
	if err != nil {
		return "baron: " + err.Error()
	}
	funcs := map[string]bool{}
	for _, d := range ba.Decls {
		if f, ok := d.(*ast.FuncDecl); ok && f.Recv == nil {
			funcs[f.Name.Name] = true
		}
	}
	pp, err := parser.ParseFile(fset, filepath.Join(dir, s.Base+".pb.go"), nil, 0)
	if err != nil {
		return "baron: " + err.Error()
	}
	fileVar := ""
	for _, d := range pp.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				for _, id := range sp.(*ast.ValueSpec).Names {
					if strings.HasPrefix(id.Name, "File_") {
						fileVar = id.Name
					}
				}
			}
		}
	}
	// the server interface
	var iface *ast.InterfaceType
	ifname := ""
	for _, d := range gp.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.TYPE {
			continue
		}
		for _, sp := range g.Specs {
			ts := sp.(*ast.TypeSpec)
			if it, ok := ts.Type.(*ast.InterfaceType); ok && strings.HasSuffix(ts.Name.Name, "Server") && it.Methods.NumFields() > 1 {
				iface, ifname = it, ts.Name.Name
			}
		}
	}
	if iface == nil || fileVar == "" {
		return "baron: no server interface"
	}
	svcName := strings.TrimSuffix(ifname, "Server")
	roots, _ := filepath.Glob(filepath.Join(dir, "*-service"))
	if len(roots) != 1 {
		return fmt.Sprintf("baron: %d service directories: %s", len(roots), tail(out))
	}
	root := filepath.Base(roots[0])
	imports := map[string]string{}
	for _, im := range gp.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		imports[n] = p
	}
	used := map[string]bool{}
	expr := func(e ast.Expr) string {
		ast.Inspect(e, func(n ast.Node) bool {
			if se, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := se.X.(*ast.Ident); ok {
					used[id.Name] = true
				}
				return false
			}
			return true
		})
		var b bytes.Buffer
		printer.Fprint(&b, fset, qualify(e))
		return b.String()
	}
	var impl, list strings.Builder
	for _, m := range iface.Methods.List {
		ft, ok := m.Type.(*ast.FuncType)
		if !ok || len(m.Names) != 1 || !m.Names[0].IsExported() || ft.Params.NumFields() != 2 || ft.Results.NumFields() != 2 {
			continue
		}
		n := m.Names[0].Name
		s.Methods = append(s.Methods, n)
		fmt.Fprintf(&impl, `
func (s zzimpl) %s(ctx context.Context, in %s) (%s, error) {
	out, err := svcreg.Handle(ctx, %q, %q, in)
	if out == nil {
		return nil, err
	}
	return out.(%s), err
}
`, n, expr(ft.Params.List[1].Type), expr(ft.Results.List[0].Type), s.Name, n, expr(ft.Results.List[0].Type))
		fmt.Fprintf(&list, "%q, ", n)
	}
	imp := ""
	var ns []string
	for n := range used {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if n != "context" {
			imp += fmt.Sprintf("\t%s %q\n", n, imports[n])
		}
	}
	wrapper := fmt.Sprintf(`package service

import (
	"context"

	"github.com/teamlint/baron/zz_sim/svcreg"
	pb %q
%s)

func WrapEndpoints(in pb.Endpoints) pb.Endpoints {
	svcreg.Wrap(%q, &in)
	return in
}

func WrapService(in pb.%s) pb.%s {
	return zzimpl{in}
}

type zzimpl struct{ pb.%s }

var _ context.Context
%s`, mod+s.Name, imp, s.Name, ifname, ifname, ifname, impl.String())
	if err := os.WriteFile(filepath.Join(dir, root, "service", "wrapper.go"), []byte(wrapper), 0666); err != nil {
		return "baron: " + err.Error()
	}
	// the fields of server.Config
	conf := map[string]bool{}
	ms, _ := filepath.Glob(filepath.Join(dir, root, "server", "*.go"))
	for _, f := range ms {
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			return "baron: " + err.Error()
		}
		ast.Inspect(af, func(n ast.Node) bool {
			if ts, ok := n.(*ast.TypeSpec); ok && ts.Name.Name == "Config" {
				if st, ok := ts.Type.(*ast.StructType); ok {
					for _, fl := range st.Fields.List {
						for _, id := range fl.Names {
							conf[id.Name] = true
						}
					}
				}
			}
			return true
		})
	}
	var h strings.Builder
	fmt.Fprintf(&h, `// Package zzh tells the simulator how to use the service.
package zzh

import (
	"context"

	"github.com/teamlint/baron/zz_sim/svcreg"
	pb %q
	"%s/server"
`, mod+s.Name, mod+s.Name+"/"+root)
	if funcs["NewHTTPClient"] {
		h.WriteString("\t\"net/http\"\n\thttptransport \"github.com/go-kit/kit/transport/http\"\n")
	}
	if funcs["NewGRPCClient"] {
		h.WriteString("\tgrpctransport \"github.com/go-kit/kit/transport/grpc\"\n\t\"google.golang.org/grpc\"\n")
	}
	if funcs["NewNATSClient"] {
		h.WriteString("\tnatstransport \"github.com/go-kit/kit/transport/nats\"\n\t\"github.com/nats-io/nats.go\"\n")
	}
	fmt.Fprintf(&h, `)

var _ context.Context

func init() {
	s := &svcreg.Service{
		Name: %q, File: pb.%s, Service: %q,
		Methods: []string{%s},
		Iface: (*pb.%s)(nil),
	}
	s.Run = func(c svcreg.Config) {
		var cfg server.Config
`, s.Name, fileVar, svcName, list.String(), ifname)
	for _, f := range []string{"HTTPAddr", "GRPCAddr", "NATSAddr", "DebugAddr", "Debug"} {
		if conf[f] {
			fmt.Fprintf(&h, "\t\tcfg.%s = c.%s\n", f, f)
		}
	}
	h.WriteString("\t\tserver.Run(cfg)\n\t}\n")
	for _, f := range []string{"HTTP", "GRPC", "NATS"} {
		fmt.Fprintf(&h, "\ts.Has%s = %v\n", f, conf[f+"Addr"] && funcs["New"+f+"Client"])
	}
	fmt.Fprintf(&h, "\ts.HasDebug = %v\n", conf["DebugAddr"] && conf["Debug"])
	if funcs["NewHTTPClient"] {
		fmt.Fprintf(&h, `	s.HTTPClient = func(addr string, keys []string) (interface{}, error) {
		opts := []httptransport.ClientOption{
			httptransport.ClientBefore(func(ctx context.Context, r *http.Request) context.Context { return svcreg.HTTPRequest(ctx, r) }),
			httptransport.ClientAfter(func(ctx context.Context, r *http.Response) context.Context { return svcreg.HTTPResponse(ctx, r) }),
		}
`)
		if funcs["CtxValuesToSend"] {
			// some clients are told with more than one option, or twice about one of the keys
			h.WriteString("\t\tif n := len(keys); n > 1 && n%2 == 0 {\n\t\t\topts = append(opts, pb.CtxValuesToSend(keys[:1+n%4/2]...))\n\t\t\tkeys = keys[1:]\n\t\t}\n")
			h.WriteString("\t\tif len(keys) > 0 {\n\t\t\topts = append(opts, pb.CtxValuesToSend(keys...))\n\t\t}\n")
		}
		h.WriteString("\t\treturn pb.NewHTTPClient(addr, opts...)\n\t}\n")
	}
	if funcs["NewGRPCClient"] {
		h.WriteString(`	s.GRPCClient = func(addr string, keys []string) (interface{}, error) {
		conn, err := grpc.Dial(addr, grpc.WithInsecure())
		if err != nil {
			return nil, err
		}
		var opts []grpctransport.ClientOption
`)
		if funcs["ContextValuesToGRPCMetadata"] {
			h.WriteString("\t\tif n := len(keys); n > 1 && n%2 == 0 {\n\t\t\topts = append(opts, grpctransport.ClientBefore(pb.ContextValuesToGRPCMetadata(keys[:1+n%4/2])))\n\t\t\tkeys = keys[1:]\n\t\t}\n")
			h.WriteString("\t\tif len(keys) > 0 {\n\t\t\topts = append(opts, grpctransport.ClientBefore(pb.ContextValuesToGRPCMetadata(keys)))\n\t\t}\n")
		}
		h.WriteString("\t\treturn pb.NewGRPCClient(conn, opts...)\n\t}\n")
	}
	if funcs["NewNATSClient"] {
		h.WriteString(`	s.NATSClient = func(addr string) (interface{}, error) {
		conn, err := nats.Connect(addr)
		if err != nil {
			return nil, err
		}
		before := natstransport.PublisherBefore(func(ctx context.Context, m *nats.Msg) context.Context {
			m.Data = svcreg.NATSRequest(ctx, m.Data)
			return ctx
		})
		after := natstransport.PublisherAfter(func(ctx context.Context, m *nats.Msg) context.Context {
			m.Data = svcreg.NATSResponse(ctx, m.Data)
			return ctx
		})
		return pb.NewNATSClient(conn, before, after)
	}
`)
	}
	h.WriteString("\tsvcreg.Register(s)\n}\n")
	hd := filepath.Join(dir, "zzh")
	os.MkdirAll(hd, 0777)
	if err := os.WriteFile(filepath.Join(hd, "zz_plain.go"), []byte(h.String()), 0666); err != nil {
		return "baron: " + err.Error()
	}
	return ""
}

// qualify puts pb. before the names of the package.
func qualify(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.StarExpr:
		return &ast.StarExpr{X: qualify(x.X)}
	case *ast.Ident:
		if x.IsExported() {
			return &ast.SelectorExpr{X: ast.NewIdent("pb"), Sel: x}
		}
	}
	return e
}

var pkgLine = regexp.MustCompile(`^# github.com/teamlint/baron/zz_svc/([A-Za-z0-9_]+)(/|$)`)

// build compiles everything; services that do not compile are set aside.
func build(svcs []*Svc, pre string) {
	for round := 0; round < 3; round++ {
		live := false
		for _, s := range svcs {
			live = live || s.Err == ""
		}
		if !live {
			return
		}
		cmd := exec.Command("go", "build", "./zz_svc/...")
		cmd.Dir = pre
		out, err := cmd.CombinedOutput()
		if err == nil {
			return
		}
		errs := map[string]string{}
		at := ""
		for _, l := range strings.Split(string(out), "\n") {
			if m := pkgLine.FindStringSubmatch(l); m != nil {
				at = m[1]
			} else if strings.HasPrefix(l, "# ") {
				at = ""
				die("does not build:\n%s", tail(out))
			} else if l != "" {
				if at == "" {
					die("does not build:\n%s", tail(out))
				}
				// what the stand-ins for the libraries lack says nothing about the service
				for _, p := range []string{"httptransport.", "grpctransport.", "natstransport.", "mux.", "nats.", "grpc.", "endpoint.", "metadata.", "status.", "codes."} {
					if strings.Contains(l, "undefined: "+p) {
						die("the stand-in lacks something:\n%s", tail(out))
					}
				}
				errs[at] += l + "\n"
			}
		}
		for _, s := range svcs {
			if e, ok := errs[s.Name]; ok && s.Err == "" {
				s.Err = "compile: " + tail([]byte(e))
				drop(s, pre)
			}
		}
	}
}

func tail(b []byte) string {
	s := strings.TrimSpace(string(b))
	if len(s) > 1500 {
		s = s[:700] + "\n...\n" + s[len(s)-700:]
	}
	return s
}
