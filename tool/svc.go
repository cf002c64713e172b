package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// Generated services are rewritten like baron, together with go-kit's and mux's
// stand-ins. Of net/http, net, context and runtime only what listens, connects,
// waits or runs by itself is replaced; the rest is the real thing.

var svcMode bool

var prefixes = [][2]string{
	{"github.com/go-kit/kit", mod + "/zz_third/kit"},
	{"github.com/gorilla/mux", mod + "/zz_third/mux"},
	{"google.golang.org/grpc", simPath + "/grpc"},
	{"github.com/nats-io/nats.go", simPath + "/nats"},
}

func mapped(path string) string {
	if r, ok := shim[path]; ok {
		return r
	}
	if svcMode {
		for _, p := range prefixes {
			if path == p[0] || strings.HasPrefix(path, p[0]+"/") {
				return p[1] + strings.TrimPrefix(path, p[0])
			}
		}
	}
	return path
}

// plain files keep their code; only their imports change.
func plain(name string) bool {
	return svcMode && (strings.HasSuffix(name, ".pb.go") && !strings.HasSuffix(name, ".baron.go") || name == "zz_plain.go")
}

var selMap = map[string]map[string]string{
	"net/http": {"ListenAndServe": "http", "ListenAndServeTLS": "http", "Serve": "http", "Server": "http", "Client": "http", "TimeoutHandler": "http"},
	"net":      {"Listen": "net", "Dial": "net", "DialTimeout": "net", "Dialer": "net", "ListenConfig": "net"},
	"context": {"WithCancel": "context", "WithCancelCause": "context", "WithTimeout": "context", "WithDeadline": "context", "Cause": "context",
		"WithTimeoutCause": "context", "WithDeadlineCause": "context", "AfterFunc": "context"},
	"runtime": {"SetFinalizer": "k"},
}

// selectors replaces single functions and types of packages.
func (w *rewriter) selectors(f *ast.File) {
	if !svcMode {
		return
	}
	rest := map[*types.PkgName]bool{}
	gone := map[*types.PkgName]bool{}
	used := map[string]bool{}
	var sels []*ast.Ident
	inSel := map[*ast.Ident]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := w.info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		if to, ok := selMap[pn.Imported().Path()][se.Sel.Name]; ok {
			gone[pn] = true
			used[to] = true
			sels = append(sels, id)
			inSel[id] = true
			id.Name = "zzs" + to
		} else {
			rest[pn] = true
		}
		return true
	})
	if len(sels) == 0 {
		return
	}
	for _, s := range f.Imports {
		var o types.Object
		if s.Name != nil {
			o = w.info.Defs[s.Name]
		} else {
			o = w.info.Implicits[s]
		}
		if pn, ok := o.(*types.PkgName); ok && gone[pn] && !rest[pn] {
			s.Name = ast.NewIdent("_")
		}
	}
	for _, to := range []string{"http", "net", "context", "k"} {
		if used[to] {
			spec := &ast.ImportSpec{Name: ast.NewIdent("zzs" + to), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simPath + "/" + to)}}
			f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
		}
	}
}

func services(pre, simdir, out string) {
	svcMode = true
	shim["flag"] = simPath + "/flag" // for the generated commands
	pkgs := list(pre, "./zz_svc/...")
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	var reg []*outPkg
	for _, p := range pkgs {
		in := strings.HasPrefix(p.ImportPath, mod+"/zz_svc/")
		th := strings.HasPrefix(p.ImportPath, "github.com/go-kit/kit/") || p.ImportPath == "github.com/gorilla/mux"
		if !in && !th || p.Name == "main" && !strings.Contains(p.ImportPath, "/cmd/") || len(p.GoFiles) == 0 {
			continue
		}
		reg = append(reg, rewrite(p, exports, out, true))
	}
	writeReg(reg, out)
	copyTree(simdir, filepath.Join(out, "zz_sim"))
	b, err := os.ReadFile(filepath.Join(pre, "go.mod"))
	must(err)
	var lines []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "=>") || strings.HasPrefix(l, "replace") || strings.Contains(l, "go-kit") || strings.Contains(l, "mux") || strings.Contains(l, "nats") || strings.Contains(l, "org/grpc ") {
			continue
		}
		lines = append(lines, l)
	}
	src := strings.TrimRight(strings.Join(lines, "\n"), ")\n\t ") + "\n)\n"
	must(os.WriteFile(filepath.Join(out, "go.mod"), []byte(src), 0666))
	gs, err := os.ReadFile(filepath.Join(pre, "go.sum"))
	must(err)
	must(os.WriteFile(filepath.Join(out, "go.sum"), gs, 0666))
}
