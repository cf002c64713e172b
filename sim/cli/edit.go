package cli

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"path"
	"sort"
	"strings"

	"github.com/teamlint/baron/zz_sim/k"
)

// Edit is one thing the user does to the tree between runs.
type Edit struct {
	Kind string `json:"kind"`
	Seed uint64 `json:"seed"`
}

// EditKinds with weights.
var editKinds = []string{"body", "body", "body", "helper", "hmethod", "type", "const", "var", "import", "newsvc", "struct", "param",
	"reorder", "doc", "ugly", "odd", "odd", "sig", "sig", "note", "wrapper", "endpoints", "interrupt", "swrapper", "main", "client", "extra", "extra", "legacy", "delfile", "export", "tail",
	"link", "link", "commented", "beside", "touch", "big"}

// Apply performs the edit on the disk; it reports whether anything changed.
func (e Edit) Apply(fs *k.FS, l *Layout, d *Def, serial int) bool {
	r := k.NewRand(e.Seed, "edit"+e.Kind)
	o := l.Outputs(d)
	svc := path.Join(o.S, "service/service.go")
	mark := fmt.Sprintf("mark%d_%d", serial, r.Intn(1000))
	switch e.Kind {
	case "wrapper", "endpoints", "interrupt", "swrapper", "main", "client":
		f := map[string]string{"wrapper": "service/wrapper.go", "endpoints": "server/endpoints.go", "interrupt": "server/interrupt.go",
			"swrapper": "server/wrapper.go", "main": "cmd/" + strings.ToLower(d.Svc) + "/main.go", "client": "cmd/" + strings.ToLower(d.Svc) + "-client/main.go"}[e.Kind]
		p := path.Join(o.S, f)
		old, ok := fs.Get(p)
		if !ok {
			return false
		}
		switch r.Intn(5) {
		case 4: // much
			old += big(r, mark)
		case 0: // not formatted
			old += fmt.Sprintf("\n// %s says\nfunc   %s( ) int   {\n  return 1 // why\n}\n", mark, mark)
		case 1: // inside an existing function
			if i := strings.LastIndex(old, ") {\n"); i >= 0 {
				old = old[:i+4] + fmt.Sprintf("\t// %s\n\tprintln(%q)\n", mark, mark) + old[i+4:]
			} else {
				old += "\n// " + mark + "\n"
			}
		case 2: // not Go (yet)
			if r.P(1, 3) {
				old += fmt.Sprintf("\nfunc %s( {{ unfinished\n", mark)
			} else {
				old += fmt.Sprintf("\nvar %s = `raw\n   text`\n", mark)
			}
		case 3:
			old = "// " + mark + "\n\n" + old
		}
		fs.Put(p, old)
		return true
	case "extra":
		low := strings.ToLower(d.Svc)
		fs0 := []string{"README.md", "service/extra.go", "server/more.go", "cmd/tool/main.go", "docs/design.md", "service/.swp", "service/data/x.json", "server/zz.txt",
			"cmd/" + low + "-serverless/main.go", "cmd/" + low + "-server2/main.go", "cmd/" + low + "-clients/main.go", "cmd/" + low + "/flags.go", "cmd/" + low + "-client/x.go",
			"cmd/my" + low + "-server/main.go", "svc/server/mine.go", "svc/client/mine.go", "svc/server/client/mine.go", "svc/cli/main.go", "svc/server/clients/x.go",
			"cmd/server/main.go", "service/service_test.go", "service/service.go.orig", "service/service.go.tmp", "service/.service.go", "service/service2.go", "server/server_test.go",
			low + ".proto", "service.go", "cli/main.go", "gokit/x.go", "cmd/" + strings.ToUpper(low) + "-server.bak/x.go", "Makefile", "service/mock/service.go",
			"service/.service.go.tmp", "service/service.go~", "server/server.go.tmp", "tmp/x", "service/_service.go", "cmd/" + low + "-server.go", "server/cli/main.go"}
		f := fs0[r.Intn(len(fs0))]
		if fs.Exists(path.Join(o.S, f)) || !parentsAreDirs(fs, path.Join(o.S, f)) {
			return false
		}
		fs.Put(path.Join(o.S, f), "package extra // "+mark+"\n")
		return true
	case "beside":
		// files beside the definition and other services beside this one
		b := d.Base
		low := strings.ToLower(d.Svc)
		fs0 := []string{"zother.proto", "zother.pb.go", "zother_grpc.pb.go", "zother.pb.baron.go", "a.pb.baron.go", b + "2.pb.baron.go", b + "_test.go",
			b + ".pb.gw.go", b + ".swagger.json", b + ".proto.bak", "." + b + ".proto.swp", b + ".pb.baron.go.orig", "doc.go", "buf.yaml", "Makefile",
			b + ".pb.validate.go", "my" + b + ".pb.go", b + ".pb.baron_test.go", "google/api/x.proto", "." + b + ".pb.baron.go.1-0.tmp", "baron.go", b + "/x.go", b + ".pb"}
		p := path.Join(l.ProtoDir, fs0[r.Intn(len(fs0))])
		if r.P(1, 3) {
			fs1 := []string{"other-service/service/service.go", "other-service/cmd/other-server/main.go", "other-service/svc/server/cli/x.go", low + "-service2/service/service.go",
				"my" + low + "-service/server/server.go", "service/service.go", "cmd/" + low + "-server/main.go", "svc/client/cli/x.go", "server/server.go", "svc/server/cli/x.go",
				low + "-service.bak/cmd/" + low + "/main.go", "cmd/" + low + "/main.go"}
			p = path.Join(path.Dir(o.S), fs1[r.Intn(len(fs1))])
		}
		if fs.Exists(p) || !parentsAreDirs(fs, p) || under(p, o.S) || under(o.S, p) {
			return false
		}
		fs.Put(p, "package mine // "+mark+"\n")
		return true
	case "touch":
		fs.Touch(r)
		return true
	case "link":
		// the user keeps something elsewhere and has a symbolic link to it
		low := strings.ToLower(d.Svc)
		p := path.Join(o.S, r.Pick("service", "server", "cmd", "cmd/"+low, "cmd/"+low+"-client"))
		switch r.Intn(8) {
		case 0, 1, 2:
			p = o.User[r.Intn(len(o.User))]
		case 3:
			p = r.Pick(o.Server, o.Client, o.Baron, path.Join(l.ProtoDir, d.ProtoNames()[0]))
		case 4:
			p = o.S
		}
		if !fs.Exists(p) || fs.Real(p) != p {
			return false // is, or is below, a link already
		}
		to := path.Join(r.Pick(App+"/real", "/w/other", path.Dir(o.S)+"/kept"), fmt.Sprintf("%s-%s", path.Base(p), mark))
		if p == o.S {
			to = path.Join(App, "kept", path.Base(p)+"-"+mark)
		} else if r.P(1, 4) && strings.HasSuffix(p, ".go") {
			to = path.Join(path.Dir(p), "."+path.Base(p)+"-"+mark)
		}
		if under(to, p) || fs.Exists(to) || !parentsAreDirs(fs, to) || under(to, o.S) && path.Dir(to) != path.Dir(p) {
			return false
		}
		if len(fs.Links(p)) > 0 {
			return false // relative ones would break
		}
		fs.Move(p, to)
		tgt := to
		if r.P(1, 2) {
			tgt = relTo(path.Dir(p), to)
		}
		fs.Symlink(tgt, p)
		if r.P(1, 4) { // a link to a link
			mid := p + "-l" + mark
			if _, file := fs.Get(to); !file {
				// not in a directory baron reads: a link there is a stray entry
				// no guarantee is about
				mid = to + "-l"
				fs.Symlink(path.Base(to), mid)
				tgt = mid
				if r.P(1, 2) {
					tgt = relTo(path.Dir(p), mid)
				}
				fs.Delete(p)
				fs.Symlink(tgt, p)
				return true
			}
			fs.Move(p, mid)
			fs.Symlink(path.Base(mid), p)
		}
		return true
	case "legacy":
		fs.Put(path.Join(o.Legacy[r.Intn(3)], "old.go"), "package old // "+mark+"\n")
		return true
	case "delfile":
		p := o.User[r.Intn(len(o.User))]
		if !fs.Exists(p) || p == svc && r.P(1, 2) {
			return false
		}
		fs.Delete(p)
		return true
	}
	old, ok := fs.Get(svc)
	if !ok {
		return false
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", old, parser.ParseComments)
	if err != nil {
		return false
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var meths []*ast.FuncDecl
	var newsvc *ast.FuncDecl
	var st *ast.StructType
	for _, dd := range f.Decls {
		switch x := dd.(type) {
		case *ast.FuncDecl:
			if x.Recv != nil && x.Body != nil {
				meths = append(meths, x)
			}
			if x.Name.Name == "NewService" && x.Recv == nil && x.Body != nil {
				newsvc = x
			}
		case *ast.GenDecl:
			for _, s := range x.Specs {
				if ts, ok := s.(*ast.TypeSpec); ok {
					if t, ok := ts.Type.(*ast.StructType); ok && strings.HasSuffix(ts.Name.Name, "Service") {
						st = t
					}
				}
			}
		}
	}
	recv := strings.ToLower(d.Svc) + "Service"
	nw := old
	ins := func(at int, s string) { nw = nw[:at] + s + nw[at:] }
	switch e.Kind {
	case "body", "ugly", "param", "doc", "reorder":
		if len(meths) == 0 {
			return false
		}
		m := meths[r.Intn(len(meths))]
		switch e.Kind {
		case "body":
			at := off(m.Body.Lbrace) + 1
			switch r.Intn(4) {
			case 0:
				ins(at, fmt.Sprintf("\n\t// %s: important\n\tif ctx == nil {\n\t\treturn nil, context.Canceled // %s-2\n\t}\n", mark, mark))
			case 1: // replace everything
				nw = nw[:at] + fmt.Sprintf("\n\tx := `%s\n  raw { ` + \"}\" // not a brace: }\n\t_ = x\n\n\t/* block %s */\n\tfor i := 0; i < 3; i++ {\n\t\tprintln(i)\n\t}\n\treturn nil, nil\n", mark, mark) + nw[off(m.Body.Rbrace):]
			case 2:
				ins(off(m.Body.Rbrace), fmt.Sprintf("\n\t// unreachable %s\n", mark))
			case 3:
				ins(at, fmt.Sprintf("\n\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\tprintln(%q) // %s\n\t\t}\n\t}()\n", mark, mark))
			}
		case "ugly":
			at := off(m.Body.Lbrace) + 1
			ins(at, fmt.Sprintf("\n    if   in==nil{println( %q )}  // %s\n\n\n\n", mark, mark))
		case "param":
			if m.Type.Params != nil && len(m.Type.Params.List) == 2 && len(m.Type.Params.List[0].Names) == 1 && m.Type.Params.List[0].Names[0].Name == "ctx" {
				n := m.Type.Params.List[1].Names
				if len(n) == 1 {
					nw = nw[:off(n[0].Pos())] + "request" + nw[off(n[0].End()):]
				}
				// uses of the old name do not matter: the file only has to parse
			}
		case "doc":
			at := off(m.Pos())
			if m.Doc == nil {
				at = off(m.Type.Func)
			}
			ins(at, fmt.Sprintf("// %s explains %s.\n", m.Name.Name, mark))
		case "reorder":
			a, b := off(m.Pos()), off(m.End())
			if m.Doc != nil {
				a = off(m.Doc.Pos())
			}
			txt := nw[a:b]
			nw = nw[:a] + nw[b:] + "\n" + txt + "\n"
		}
	case "big":
		if len(old) > 200000 {
			return false
		}
		if s := big(r, mark); len(meths) > 0 && r.P(1, 2) {
			at := off(meths[0].Pos())
			if meths[0].Doc != nil {
				at = off(meths[0].Doc.Pos())
			}
			ins(at, strings.TrimPrefix(s, "\n")+"\n")
		} else {
			nw += s
		}
	case "helper":
		nw += fmt.Sprintf("\n// %s helps.\nfunc %s(a, b int) (int, error) {\n\t// inside\n\treturn a + b, nil\n}\n", mark, mark)
	case "hmethod":
		nw += fmt.Sprintf("\nfunc (s *%s) %s() string { return %q }\n", recv, mark, mark)
	case "type":
		nw += fmt.Sprintf("\n// %sT is a type.\ntype %sT struct {\n\tA int // first\n\tB string\n}\n\nfunc (x *%sT) get() int { return x.A }\n", mark, mark, mark)
	case "const":
		nw += fmt.Sprintf("\nconst (\n\t%sA = iota // zero\n\t%sB\n)\n", mark, mark)
	case "var":
		nw += fmt.Sprintf("\n// %s is a variable.\nvar %s = map[string]int{\n\t\"a\": 1, // one\n}\n", mark, mark)
	case "import":
		p := r.Pick("strings", "errors", "sync", "os")
		for _, i := range f.Imports {
			if i.Path.Value == `"`+p+`"` {
				return false
			}
		}
		for _, dd := range f.Decls {
			if g, ok := dd.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				if g.Lparen.IsValid() && r.P(1, 2) {
					ins(off(g.Lparen)+1, fmt.Sprintf("\n\t%s \"%s\" // %s", r.Pick("", "my"+p), p, mark))
				} else {
					ins(off(g.End()), fmt.Sprintf("\n\nimport %q\n", p))
				}
				break
			}
		}
	case "newsvc":
		if newsvc == nil {
			return false
		}
		ins(off(newsvc.Body.Lbrace)+1, fmt.Sprintf("\n\t// %s\n\tprintln(%q)\n", mark, mark))
	case "struct":
		if st == nil {
			return false
		}
		ins(off(st.Fields.Closing), fmt.Sprintf("\t%s int // state\n", mark))
	case "commented":
		// code that is commented out
		n := mark
		if len(d.Methods) > 0 && r.P(1, 2) {
			n = d.Methods[r.Intn(len(d.Methods))].Name
		} else {
			n = methNames[r.Intn(len(methNames))]
		}
		head := fmt.Sprintf("func (s *%s) %s(ctx context.Context, in *pb.%s) (*pb.%s, error) {", recv, n, d.Msgs[0].Name, d.Msgs[0].Name)
		switch r.Intn(4) {
		case 0:
			nw += fmt.Sprintf("\n// %s\n//\treturn nil, nil // %s\n// }\n", head, mark)
		case 1:
			nw += fmt.Sprintf("\n/*\n%s\n\treturn nil, nil // %s\n}\n*/\n", head, mark)
		case 2:
			nw += fmt.Sprintf("\nvar %s = `%s return nil, nil }`\n", mark, head)
		case 3:
			if len(meths) == 0 {
				return false
			}
			ins(off(meths[r.Intn(len(meths))].Body.Lbrace)+1, fmt.Sprintf("\n\t// %s // %s\n", head, mark))
		}
	case "export":
		if r.P(1, 2) {
			nw += fmt.Sprintf("\n// Exported %s.\nfunc X%s() {\n\t// gone soon\n}\n", mark, mark)
			break
		}
		// something with the name of an rpc, now or later, which is no handler
		n := methNames[r.Intn(len(methNames))]
		if len(d.Methods) > 0 && r.P(2, 3) {
			n = d.Methods[r.Intn(len(d.Methods))].Name
		}
		if !ast.IsExported(n) {
			return false
		}
		sig := r.Pick("()", "(ctx context.Context, in *pb."+d.Msgs[0].Name+") (*pb."+d.Msgs[0].Name+", error)", "(a, b int) (c int)")
		txt := ""
		switch r.Intn(5) {
		case 0, 1:
			for _, dd := range f.Decls {
				if x, ok := dd.(*ast.FuncDecl); ok && x.Recv == nil && x.Name.Name == n {
					return false
				}
			}
			txt = fmt.Sprintf("func %s%s {\n\tpanic(%q)\n}\n", n, sig, mark)
		case 2:
			txt = fmt.Sprintf("func (x *%sR) %s%s {\n\tpanic(%q)\n}\n", mark, n, sig, mark)
			nw += fmt.Sprintf("\ntype %sR struct{}\n", mark)
		case 3: // the name of the type begins or ends like the one of the service
			t := r.Pick(recv[:len(recv)-1], "my"+recv, recv+mark, strings.ToLower(d.Svc), recv+"s")
			if strings.Contains(old, "type "+t+" ") || token.Lookup(t) != token.IDENT {
				return false
			}
			txt = fmt.Sprintf("func (%s) %s%s {\n\tpanic(%q)\n}\n", r.Pick("x *", "x ", "*", "")+t, n, sig, mark)
			nw += fmt.Sprintf("\ntype %s struct{}\n", t)
		case 4:
			txt = fmt.Sprintf("func (%s) %s%s {\n\tpanic(%q)\n}\n", r.Pick("x *", "")+"_"+mark, n, sig, mark)
			nw += fmt.Sprintf("\ntype _%s int\n", mark)
		}
		if len(meths) > 0 && r.P(1, 2) {
			at := off(meths[0].Pos())
			if meths[0].Doc != nil {
				at = off(meths[0].Doc.Pos())
			}
			ins(at, txt+"\n")
		} else {
			nw += "\n" + txt
		}
	case "odd":
		// declarations that are legal but unusual
		switch r.Intn(26) {
		case 0:
			nw += fmt.Sprintf("\nfunc _() {\n\t// %s\n\tprintln(%q)\n}\n", mark, mark)
		case 1:
			nw += fmt.Sprintf("\n// _%s is mine.\nfunc _%s(a int) int { return a }\n", mark, mark)
		case 2:
			nw += fmt.Sprintf("\nfunc \u00e9t\u00e9%s() (x string) {\n\treturn %q\n}\n", mark, mark)
		case 3:
			nw += fmt.Sprintf("\nfunc \u4e16\u754c%s() { /* %s */ }\n", mark, mark)
		case 4:
			nw += fmt.Sprintf("\nfunc init() {\n\tprintln(%q) // %s\n}\n", mark, mark)
		case 5:
			nw += fmt.Sprintf("\nfunc %s[T any, U ~int](x T, y U) (T, U) {\n\treturn x, y\n}\n", mark)
		case 6:
			nw += fmt.Sprintf("\ntype (\n\t// %sI is asked.\n\t%sI interface {\n\t\tGet(a int) (string, error) // get\n\t}\n\t%sA = %sI\n)\n", mark, mark, mark, mark)
		case 7:
			nw += fmt.Sprintf("\ntype %sV struct{}\n\n// get gets.\nfunc (%sV) get() {}\n\nfunc (v %sV) set(x ...int) { _ = x }\n", mark, mark, mark)
		case 8:
			nw += fmt.Sprintf("\n//go:generate echo %s\n\nvar _ %sService\n", mark, recv[:len(recv)-len("Service")])
		case 9:
			nw += fmt.Sprintf("\nfunc new%s() interface{} { return NewService() }\n\nfunc newService%s() {}\n", mark, mark)
		case 10: // a helper with the name of an rpc, unexported
			if len(d.Methods) > 0 {
				n := d.Methods[r.Intn(len(d.Methods))].Name
				n = strings.ToLower(n[:1]) + n[1:]
				if token.Lookup(n) == token.IDENT && !strings.Contains(old, ") "+n+"(") {
					nw += fmt.Sprintf("\n// %s does the work.\nfunc (s *%s) %s() error {\n\treturn nil // %s\n}\n", n, recv, n, mark)
				}
			}
		case 11:
			nw += fmt.Sprintf("\nvar %sA, %sB = 1, func() int {\n\t// closure\n\treturn 2\n}()\n", mark, mark)
		case 12:
			nw += fmt.Sprintf("\nconst %sC, %sD = \"// no comment\", `/* nor this */`\n", mark, mark)
		case 13:
			nw += fmt.Sprintf("\nfunc (s %s) %s() {}\n\nfunc (*%s) _() {}\n", recv, mark, recv)
		case 14:
			nw += fmt.Sprintf("\nfunc %s() {\nloop:\n\tfor {\n\t\tselect {\n\t\tcase <-make(chan int): // %s\n\t\t\tbreak loop\n\t\tdefault:\n\t\t\tgoto end\n\t\t}\n\t}\nend:\n}\n", mark, mark)
		case 15:
			nw += fmt.Sprintf("\nfunc %s()\n", mark) // implemented in assembly
		case 16:
			nw = "//go:build linux\n\n// Package service " + mark + ".\n" + nw
		case 17:
			nw += fmt.Sprintf("\nvar %s = struct {\n\tA int `json:\"a\"` // tagged\n\tB []byte\n}{A: 0x1F, B: []byte(\"x\\ty\\u00e9\")}\n", mark)
		case 18:
			nw += fmt.Sprintf("\ntype %sG[T any] struct{ v T }\n\nfunc (g *%sG[T]) get() T { return g.v }\n", mark, mark)
		case 19:
			nw += fmt.Sprintf("\nvar (\n\t// %s first\n\t%sA int\n\n\t%sB string // second\n\t// dangling\n)\n", mark, mark, mark)
		case 20:
			nw += fmt.Sprintf("\nfunc %s(ctx context.Context, in *pb.%s) (out *pb.%s, err error) {\n\treturn\n}\n", mark, d.Msgs[0].Name, d.Msgs[len(d.Msgs)-1].Name)
		case 22:
			nw += fmt.Sprintf("\nfunc init() {\n\tprintln(%q) // %s\n}\n\nfunc init() {\n\tprintln(%q + \"2\")\n}\n", mark, mark, mark)
		case 23:
			nw += fmt.Sprintf("\ntype %sA int\n\ntype %sB int\n\nfunc (x %sA) val() int { return int(x) + 1 }\n\nfunc (x %sB) val() int { return int(x) + 2 }\n\nfunc val%s() int { return 3 }\n", mark, mark, mark, mark, mark)
		case 24:
			nw += fmt.Sprintf("\nfunc _() { println(%q) }\n\nfunc _() { println(%q, 2) }\n\nvar _ = 1 // %s\n\nvar _ = 2\n", mark, mark, mark)
		case 25:
			nw += fmt.Sprintf("\ntype %sE struct {\n\t*%s // embedded\n\tn int\n}\n\nfunc (e *%sE) close() error {\n\treturn nil\n}\n\nfunc (s *%s) close%s() error { return nil }\n", mark, recv, mark, recv, mark)
		case 21:
			nw += fmt.Sprintf("\ntype %sFn func(ctx context.Context, in *pb.%s) (*pb.%s, error)\n\nvar %sX %sFn = nil\n", mark, d.Msgs[0].Name, d.Msgs[0].Name, mark, mark)
		}
	case "sig":
		// the same handler, written differently
		if len(meths) == 0 {
			return false
		}
		m := meths[r.Intn(len(meths))]
		if !ast.IsExported(m.Name.Name) || m.Type.Params == nil || m.Type.Results == nil || len(m.Type.Params.List) != 2 || len(m.Type.Results.List) != 2 {
			return false
		}
		p, q, rv := m.Type.Params.List, m.Type.Results.List, m.Recv.List[0]
		txt := func(e ast.Expr) string { return old[off(e.Pos()):off(e.End())] }
		type cut struct {
			a, b int
			s    string
		}
		var cuts []cut // from the back
		switch r.Intn(4) {
		case 0:
			cuts = append(cuts, cut{off(m.Type.Results.Pos()), off(m.Type.Results.End()), fmt.Sprintf("(out %s, err error)", txt(q[0].Type))})
		case 1:
			cuts = append(cuts, cut{off(m.Type.Results.Pos()), off(m.Type.Results.End()), fmt.Sprintf("(%s, error)", txt(q[0].Type))})
		case 2:
			cuts = append(cuts, cut{off(m.Type.Results.Pos()), off(m.Type.Results.End()), fmt.Sprintf("(\n\t_ %s, // %s\n\terr error,\n)", txt(q[0].Type), mark)})
		}
		switch r.Intn(5) {
		case 0:
			cuts = append(cuts, cut{off(m.Type.Params.Pos()), off(m.Type.Params.End()), fmt.Sprintf("(%s, %s)", txt(p[0].Type), txt(p[1].Type))})
		case 1:
			cuts = append(cuts, cut{off(m.Type.Params.Pos()), off(m.Type.Params.End()), fmt.Sprintf("(_ %s, _ %s)", txt(p[0].Type), txt(p[1].Type))})
		case 2:
			cuts = append(cuts, cut{off(m.Type.Params.Pos()), off(m.Type.Params.End()), fmt.Sprintf("(\n\tctx %s,\n\tin %s, // %s\n)", txt(p[0].Type), txt(p[1].Type), mark)})
		}
		switch r.Intn(5) {
		case 4:
			cuts = append(cuts, cut{off(m.Recv.Pos()), off(m.Recv.End()), "(s " + strings.TrimPrefix(txt(rv.Type), "*") + ")"})
		case 0:
			cuts = append(cuts, cut{off(m.Recv.Pos()), off(m.Recv.End()), "(" + txt(rv.Type) + ")"})
		case 1:
			cuts = append(cuts, cut{off(m.Recv.Pos()), off(m.Recv.End()), "(_ " + txt(rv.Type) + ")"})
		case 2:
			cuts = append(cuts, cut{off(m.Recv.Pos()), off(m.Recv.End()), "(this " + txt(rv.Type) + ")"})
		}
		for _, c := range cuts {
			nw = nw[:c.a] + c.s + nw[c.b:]
		}
	case "wip":
		// what the user is in the middle of: it need not compile, and handlers
		// need not be what the rpc asks for
		for i := 1 + r.Intn(3); i > 0; i-- {
			f, err := parser.ParseFile(fset, "", nw, parser.ParseComments)
			if err != nil {
				break
			}
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			var ms []*ast.FuncDecl
			for _, dd := range f.Decls {
				if x, ok := dd.(*ast.FuncDecl); ok && x.Recv != nil && len(x.Recv.List) > 0 && ast.IsExported(x.Name.Name) {
					ms = append(ms, x)
				}
			}
			if len(ms) == 0 {
				break
			}
			m := ms[r.Intn(len(ms))]
			any := "pb." + d.Msgs[r.Intn(len(d.Msgs))].Name
			types := func() string {
				return r.Pick("int", "*"+any, any, "[]*"+any, "map[string]*"+any, "func(a, b int) (c, d error)", "interface{ A() }", "struct{ x, y int }", "chan "+any, "**"+any, "*"+d.Msgs[0].Name,
					"(*"+any+")", "[2]int", "T[int, "+any+"]", "*T["+any+"]", "a.B[c.D]", "<-chan error", "error", "context.Context", "*struct{}", "*[]int", "*a.b", "_")
			}
			list := func() string {
				switch r.Intn(8) {
				case 0:
					return ""
				case 1:
					return "a, b " + types()
				case 2:
					return "a, b, c " + types()
				case 3:
					return "a " + types() + ", b, c " + types()
				case 4:
					return types() + ", " + types() + ", " + types()
				case 5:
					return "_ " + types() + ",\n\t_ " + types() + ",\n"
				}
				return types() + ", " + types()
			}
			was := nw
			switch r.Intn(9) {
			case 0, 1, 2:
				l := list()
				if r.P(1, 5) {
					l = "ctx context.Context, in ..." + types()
				}
				nw = nw[:off(m.Type.Params.Pos())] + "(" + l + ")" + nw[off(m.Type.Params.End()):]
			case 3, 4:
				if m.Type.Results != nil {
					nw = nw[:off(m.Type.Results.Pos())] + r.Pick("("+list()+")", "("+list()+")", "", "error") + nw[off(m.Type.Results.End()):]
				}
			case 5:
				nw = nw[:off(m.Recv.Pos())] + r.Pick("()", "(s, t *"+recv+")", "(s **"+recv+")", "(s *"+recv+"[T])", "(s "+types()+")", "", "(*"+recv+", *"+recv+")") + nw[off(m.Recv.End()):]
			case 6:
				nw += "\n" + nw[off(m.Type.Func):off(m.End())] + "\n"
			case 7:
				nw = nw[:off(m.Name.End())] + r.Pick("[T any]", "[A, B interface{ ~int | ~string }]") + nw[off(m.Name.End()):]
			case 8:
				if len(f.Decls) > 0 {
					x := f.Decls[r.Intn(len(f.Decls))]
					nw = nw[:off(x.Pos())] + nw[off(x.End()):]
				}
				if r.P(1, 6) {
					nw = "package service // " + mark + "\n"
				}
			}
			if _, err := parser.ParseFile(token.NewFileSet(), "", nw, parser.ParseComments); err != nil {
				nw = was
			}
		}
	case "note":
		// a comment at the start of a body, before the end of a body, or on a declaration
		if len(f.Decls) == 0 {
			return false
		}
		dd := f.Decls[r.Intn(len(f.Decls))]
		switch x := dd.(type) {
		case *ast.FuncDecl:
			if x.Body == nil {
				return false
			}
			switch r.Intn(3) {
			case 0:
				ins(off(x.Body.Lbrace)+1, " // "+mark+"\n")
			case 1:
				ins(off(x.Body.Rbrace), "/* "+mark+" */\n")
			case 2:
				ins(off(x.Body.Lbrace)+1, "\n\n/*\n * "+mark+"\n   * more\n */\n\n")
			}
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
			at := off(x.Pos())
			if x.Doc != nil {
				at = off(x.TokPos)
			}
			ins(at, "// "+mark+" declares.\n")
		}
	case "tail":
		nw += fmt.Sprintf("\n// the end %s\n", mark)
	case "broken":
		switch r.Intn(3) {
		case 0:
			nw += fmt.Sprintf("\nfunc (s *%s) %s( {\n", recv, mark)
		case 1:
			nw = nw[:len(nw)/2] + "\n<<<<<<< " + mark + "\n" + nw[len(nw)/2:]
		case 2:
			nw = nw[:len(nw)*2/3]
			if i := strings.LastIndex(nw, "{"); i >= 0 {
				nw = nw[:i+1] + " // " + mark + "\n"
			}
		}
		fs.Put(svc, nw)
		return true
	default:
		panic("edit " + e.Kind)
	}
	if _, err := parser.ParseFile(token.NewFileSet(), "", nw, 0); err != nil {
		return false
	}
	if nw == old {
		return false
	}
	fs.Put(svc, nw)
	return true
}

// ---- reading Go files ----

// GoView is what the oracles look at in service.go.
type GoView struct {
	Err      error
	Handlers map[string]*Fn // exported methods of the service type
	Dup      []string
	Exported []string          // exported functions that are not handlers ("NewService" excluded)
	Funcs    map[string]string // unexported functions and NewService: receiver.name -> text
	Docs     map[string]string
	Decls    []string // types, constants, variables
	DeclDoc  map[string][]string
	Imports  []string
}

type Fn struct {
	Req, Resp string
	Body      string
	Doc       string
	Recv      string
}

// parentsAreDirs: nothing above p is a file.
func parentsAreDirs(fs *k.FS, p string) bool {
	for d := path.Dir(p); d != "/"; d = path.Dir(d) {
		if _, ok := fs.Get(d); ok {
			return false
		}
	}
	return true
}

// relTo is a relative path from directory dir to p.
func relTo(dir, p string) string {
	up := ""
	for !under(p, dir) && dir != "/" {
		dir = path.Dir(dir)
		up += "../"
	}
	return up + strings.TrimPrefix(strings.TrimPrefix(p, dir), "/")
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

// canon is Go source as its tokens and comments, one per line: formatting
// (white space, also at the start of a comment's lines) does not matter.
func canon(src string) string {
	fset := token.NewFileSet()
	var sc scanner.Scanner
	bad := false
	sc.Init(fset.AddFile("", fset.Base(), len(src)), []byte(src), func(token.Position, string) { bad = true }, scanner.ScanComments)
	var out []string
	semi := false
	for {
		_, t, lit := sc.Scan()
		if t == token.EOF {
			break
		}
		switch {
		case t == token.SEMICOLON:
			semi = true
			continue
		case t == token.COMMENT:
			for _, l := range strings.Split(lit, "\n") {
				if l = strings.TrimSpace(l); l != "" {
					out = append(out, l)
				}
			}
			continue
		case t == token.COMMA: // may be added before a closing bracket
			semi = true
			out = append(out, ",")
			continue
		}
		if semi && len(out) > 0 && out[len(out)-1] == "," && (t == token.RPAREN || t == token.RBRACE || t == token.RBRACK) {
			out = out[:len(out)-1]
		} else if semi && len(out) > 0 && out[len(out)-1] != "," && t != token.RPAREN && t != token.RBRACE {
			out = append(out, ";")
		}
		semi = false
		if lit == "" || t.IsOperator() {
			lit = t.String()
		}
		out = append(out, lit)
	}
	if bad {
		return src
	}
	return strings.Join(out, "\n")
}

func normFunc(body string) string { return canon(body) }

func normDecl(s string) string { return canon(s) }

func typeName(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.StarExpr:
		return "*" + typeName(x.X)
	case *ast.SelectorExpr:
		return typeName(x.X) + "." + x.Sel.Name
	case *ast.Ident:
		return x.Name
	}
	return fmt.Sprintf("%T", e)
}

// View parses service.go.
func View(src, svc string) *GoView {
	v := &GoView{Handlers: map[string]*Fn{}, Funcs: map[string]string{}, Docs: map[string]string{}, DeclDoc: map[string][]string{}}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", src, parser.ParseComments)
	if err != nil {
		v.Err = err
		return v
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	recv := "*" + strings.ToLower(svc) + "Service"
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			name := x.Name.Name
			rv := ""
			if x.Recv != nil && len(x.Recv.List) > 0 {
				rv = typeName(x.Recv.List[0].Type)
			}
			body := ""
			if x.Body != nil {
				body = normFunc(src[off(x.Body.Lbrace) : off(x.Body.Rbrace)+1])
			}
			doc := ""
			if x.Doc != nil {
				doc = squeeze(x.Doc.Text())
			}
			if ast.IsExported(name) && (name != "NewService" || x.Recv != nil) {
				if rv != recv && "*"+rv != recv {
					v.Exported = append(v.Exported, rv+"."+name)
					continue
				}
				fn := &Fn{Body: body, Doc: doc, Recv: rv}
				if n := x.Type.Params; n != nil && n.NumFields() == 2 {
					fn.Req = typeName(n.List[len(n.List)-1].Type)
				}
				if n := x.Type.Results; n != nil && n.NumFields() == 2 {
					fn.Resp = typeName(n.List[0].Type)
				}
				if v.Handlers[name] != nil {
					v.Dup = append(v.Dup, name)
				}
				v.Handlers[name] = fn
				continue
			}
			a := off(x.Type.Func)
			key := rv + "." + name
			for i := 2; ; i++ { // functions named _ or init
				if _, dup := v.Funcs[key]; !dup {
					break
				}
				key = fmt.Sprintf("%s.%s (%d)", rv, name, i)
			}
			v.Funcs[key] = normDecl(src[a:off(x.End())])
			v.Docs[key] = doc
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				for _, s := range x.Specs {
					is := s.(*ast.ImportSpec)
					n := ""
					if is.Name != nil {
						n = is.Name.Name + " "
					}
					v.Imports = append(v.Imports, n+is.Path.Value)
				}
				continue
			}
			t := normDecl(src[off(x.TokPos):off(x.End())])
			v.Decls = append(v.Decls, t)
			if x.Doc != nil {
				v.DeclDoc[t] = append(v.DeclDoc[t], squeeze(x.Doc.Text()))
			}
		}
	}
	sort.Strings(v.Decls)
	sort.Strings(v.Imports)
	return v
}

// missing returns an element of a that b lacks (as multisets).
func missing(a, b []string) (string, bool) {
	n := map[string]int{}
	for _, s := range b {
		n[s]++
	}
	for _, s := range a {
		if n[s]--; n[s] < 0 {
			return s, true
		}
	}
	return "", false
}

func longLine(r *k.Rand) int {
	if r.P(1, 8) {
		return 80000 // more than a megabyte
	}
	return 100 + r.Intn(6000)
}

// big makes many declarations or long ones.
func big(r *k.Rand, mark string) string {
	var b strings.Builder
	switch r.Intn(5) {
	case 0: // many functions
		for i := 0; i < 60+r.Intn(200); i++ {
			fmt.Fprintf(&b, "\n// %s_%d counts.\nfunc %s_%d(n int) int {\n\treturn n + %d // %d\n}\n", mark, i, mark, i, i, i)
		}
	case 1: // a long line
		fmt.Fprintf(&b, "\nvar %s = %q\n", mark, strings.Repeat("0123456789abcdef", longLine(r)))
	case 2: // a long comment
		b.WriteString("\n")
		for i := 0; i < 100+r.Intn(1500); i++ {
			fmt.Fprintf(&b, "// %s line %d of the explanation\n", mark, i)
		}
	case 3: // many loose comments
		for i := 0; i < 30+r.Intn(100); i++ {
			fmt.Fprintf(&b, "\n// %s remark %d\n", mark, i)
		}
	case 4: // a table
		fmt.Fprintf(&b, "\nvar %s = []string{\n", mark)
		for i := 0; i < 200+r.Intn(2000); i++ {
			fmt.Fprintf(&b, "\t\"%d\", // %d\n", i*i, i)
		}
		b.WriteString("}\n")
	}
	return b.String()
}
