// Command simtool prepares the simulated build of baron.
//
//	simtool REPO SIMDIR OUT
//
// It copies the non-test Go packages of REPO (and the two third-party packages
// that hold process state: pflag and logrus) to OUT and rewrites them so that
// every source of nondeterminism goes through the simulator in SIMDIR:
//
//   - imports of os, io/ioutil, path/filepath, os/exec, fmt, time, log, math/rand
//     and golang.org/x/tools/go/packages become imports of the simulated versions;
//   - go statements, channel operations, select and package sync become threads
//     and channels of the simulator's scheduler;
//   - 'range' over a map becomes an iteration in an order the simulator decides;
//   - loops and functions of baron count steps (and are preemption points);
//   - package-level variables can be reset, saved and restored, so that one OS
//     process can host many simulated baron processes;
//   - package main becomes an importable package; its main and all init functions
//     are called by the simulator.
//
// It works on the syntax tree and type information only and knows no file,
// function or variable name of baron.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"simtool/astutil"
)

const mod = "github.com/teamlint/baron"
const simPath = mod + "/zz_sim"

// simulated replacements of packages
var shim = map[string]string{
	"os":                             simPath + "/os",
	"io/ioutil":                      simPath + "/ioutil",
	"path/filepath":                  simPath + "/filepath",
	"os/exec":                        simPath + "/exec",
	"os/signal":                      simPath + "/signal",
	"sync":                           simPath + "/sync",
	"fmt":                            simPath + "/fmt",
	"time":                           simPath + "/time",
	"log":                            simPath + "/log",
	"math/rand":                      simPath + "/rand",
	"golang.org/x/tools/go/packages": simPath + "/packages",
	"github.com/spf13/pflag":         mod + "/zz_third/pflag",
	"github.com/sirupsen/logrus":     mod + "/zz_third/logrus",
}

var third = map[string]bool{"github.com/spf13/pflag": true, "github.com/sirupsen/logrus": true}

type Pkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simtool: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	if len(os.Args) == 5 && os.Args[1] == "svc" {
		services(os.Args[2], os.Args[3], os.Args[4])
		return
	}
	if len(os.Args) != 4 {
		die("usage: simtool REPO SIMDIR OUT | simtool svc PRE SIMDIR OUT")
	}
	repo, simdir, out := os.Args[1], os.Args[2], os.Args[3]
	pkgs := list(repo, "./...")
	// baron packages reachable from the command and from the library entry points
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	var reg []*outPkg
	for _, p := range pkgs { // dependency order
		isBaron := p.ImportPath == mod || strings.HasPrefix(p.ImportPath, mod+"/")
		if !isBaron && !third[p.ImportPath] {
			continue
		}
		if isBaron && (len(p.GoFiles) == 0 || strings.HasPrefix(p.ImportPath, mod+"/_")) {
			continue
		}
		reg = append(reg, rewrite(p, exports, out, isBaron))
	}
	writeReg(reg, out)
	copyTree(simdir, filepath.Join(out, "zz_sim"))
	// module files
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	lines := strings.Split(string(gm), "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "go 1") {
			lines[i] = "go 1.20"
		}
	}
	must(os.WriteFile(filepath.Join(out, "go.mod"), []byte(strings.Join(lines, "\n")), 0666))
	gs, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		die("%v", err)
	}
	must(os.WriteFile(filepath.Join(out, "go.sum"), gs, 0666))
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func list(repo, what string) []*Pkg {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,CgoFiles,Imports,Standard,Module,Error", what)
	cmd.Dir = repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	var rv []*Pkg
	for {
		var p Pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		rv = append(rv, &p)
	}
	return rv
}

type outPkg struct {
	path  string // import path of the rewritten package
	isCmd bool
	main  string // path of a generated command in zz_svc
}

func outPath(p *Pkg) string {
	return mapped(p.ImportPath)
}

func rewrite(p *Pkg, exports map[string]string, out string, isBaron bool) *outPkg {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	tpkg, _ := conf.Check(p.ImportPath, fset, files, info)
	if tpkg == nil {
		die("cannot type-check %s", p.ImportPath)
	}

	w := &rewriter{fset: fset, info: info, tpkg: tpkg, baron: isBaron}
	op := outPath(p)
	rel := strings.TrimPrefix(strings.TrimPrefix(op, mod), "/")
	dir := filepath.Join(out, rel)
	must(os.MkdirAll(dir, 0777))

	name := p.Name
	isCmd := p.Name == "main"
	if isCmd {
		name = "maincmd"
	}

	// initialisers
	owner := map[*ast.ValueSpec]int{}
	initFn := map[ast.Expr]string{} // rhs -> function
	n := 0
	perFile := map[*ast.File]*bytes.Buffer{}
	var globals []string
	var strVars []string
	var inits []string
	for i, f := range files {
		perFile[f] = &bytes.Buffer{}
		if plain(p.GoFiles[i]) {
			continue
		}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.GenDecl:
				if x.Tok != token.VAR {
					continue
				}
				for _, s := range x.Specs {
					vs := s.(*ast.ValueSpec)
					owner[vs] = 1
					for _, id := range vs.Names {
						if id.Name != "_" {
							globals = append(globals, id.Name)
							if o := info.Defs[id]; o != nil && types.Identical(o.Type(), types.Typ[types.String]) {
								strVars = append(strVars, id.Name)
							}
						}
					}
				}
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "init" {
					x.Name.Name = fmt.Sprintf("simUserInit%d", len(inits))
					inits = append(inits, x.Name.Name)
				}
				if isCmd && x.Recv == nil && x.Name.Name == "main" {
					x.Name.Name = "SimMain"
				}
			}
		}
	}
	if isBaron {
		w.findShared(files)
	}
	// rewrite bodies first, so that initialisers are printed rewritten
	for i, f := range files {
		if plain(p.GoFiles[i]) {
			w.imports(f)
			continue
		}
		w.file(f)
	}
	rhsOwner := map[ast.Expr]*ast.File{}
	for i, f := range files {
		if plain(p.GoFiles[i]) {
			continue
		}
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) == 0 {
					continue
				}
				emit := func(lhs []*ast.Ident, rhs ast.Expr) {
					fn := fmt.Sprintf("simVarInit%d", n)
					n++
					var names []string
					for _, id := range lhs {
						names = append(names, id.Name)
					}
					var b bytes.Buffer
					// a typed declaration needs the declared type for the conversion of
					// the value; assignment to the variable does just that
					must(printer.Fprint(&b, fset, rhs))
					fmt.Fprintf(perFile[f], "\nfunc %s() {\n\t%s = %s\n}\n", fn, strings.Join(names, ", "), b.String())
					if len(names) == 1 && names[0] == "_" && vs.Type == nil {
						// fine: _ = value
					}
					initFn[rhs] = fn
					rhsOwner[rhs] = f
				}
				if len(vs.Values) == len(vs.Names) {
					for i := range vs.Values {
						emit([]*ast.Ident{vs.Names[i]}, vs.Values[i])
					}
				} else {
					emit(vs.Names, vs.Values[0])
				}
			}
		}
	}
	order := initOrder(files, info, tpkg, initFn)

	for i, f := range files {
		f.Name.Name = name
		var b bytes.Buffer
		must(printer.Fprint(&b, fset, f))
		b.WriteString("\n")
		b.Write(perFile[f].Bytes())
		src := b.Bytes()
		if fm, err := format.Source(src); err == nil {
			src = fm
		}
		must(os.WriteFile(filepath.Join(dir, p.GoFiles[i]), src, 0666))
	}
	sort.Strings(globals)
	var g bytes.Buffer
	fmt.Fprintf(&g, "package %s\n\n", name)
	fmt.Fprintf(&g, "// SimGlobals returns pointers to all package-level variables.\nfunc SimGlobals() []interface{} {\n\treturn []interface{}{\n")
	for _, v := range globals {
		fmt.Fprintf(&g, "\t\t&%s,\n", v)
	}
	fmt.Fprintf(&g, "\t}\n}\n\n// SimVarInit runs the initialisers of the package-level variables.\nfunc SimVarInit() {\n")
	for _, o := range order {
		fmt.Fprintf(&g, "\t%s()\n", o)
	}
	fmt.Fprintf(&g, "}\n\n// SimInit runs the init functions.\nfunc SimInit() {\n")
	for _, o := range inits {
		fmt.Fprintf(&g, "\t%s()\n", o)
	}
	fmt.Fprintf(&g, "}\n")
	if isCmd {
		fmt.Fprintf(&g, "\n// SimSetX is the linker's -X.\nfunc SimSetX(name, value string) {\n\tswitch name {\n")
		for _, v := range strVars {
			fmt.Fprintf(&g, "\tcase %q:\n\t\t%s = value\n", v, v)
		}
		fmt.Fprintf(&g, "\t}\n}\n")
	}
	must(os.WriteFile(filepath.Join(dir, "zz_sim_globals.go"), g.Bytes(), 0666))
	o := &outPkg{path: op, isCmd: isCmd && p.ImportPath == mod+"/cmd/baron"}
	if isCmd && svcMode {
		o.main = strings.TrimPrefix(p.ImportPath, mod+"/zz_svc/")
	}
	return o
}

// initOrder returns the initialiser functions in Go's initialisation order.
func initOrder(files []*ast.File, info *types.Info, tpkg *types.Package, fn map[ast.Expr]string) []string {
	// types.Info.InitOrder refers to the original expressions; bodies were
	// rewritten in place, so expression identity may have changed only below the
	// top level. Recompute dependencies on the syntax: simple and complete.
	type node struct {
		fn   string
		lhs  []types.Object
		deps map[types.Object]bool
	}
	objDeps := map[types.Object]map[types.Object]bool{} // function -> package-level objects used
	pkgObj := func(o types.Object) bool {
		return o != nil && o.Pkg() == tpkg && (o.Parent() == tpkg.Scope() || isMethod(o))
	}
	uses := func(n ast.Node) map[types.Object]bool {
		m := map[types.Object]bool{}
		ast.Inspect(n, func(x ast.Node) bool {
			if id, ok := x.(*ast.Ident); ok {
				if o := info.Uses[id]; pkgObj(o) {
					m[o] = true
				}
			}
			return true
		})
		return m
	}
	var nodes []*node
	byVar := map[types.Object]*node{}
	for _, f := range files {
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if o := info.Defs[x.Name]; o != nil && x.Body != nil {
					objDeps[o] = uses(x.Body)
				}
			case *ast.GenDecl:
				if x.Tok != token.VAR {
					continue
				}
				for _, s := range x.Specs {
					vs := s.(*ast.ValueSpec)
					add := func(ids []*ast.Ident, rhs ast.Expr) {
						nd := &node{fn: fn[rhs], deps: uses(rhs)}
						for _, id := range ids {
							if o := info.Defs[id]; o != nil {
								nd.lhs = append(nd.lhs, o)
								byVar[o] = nd
							}
						}
						nodes = append(nodes, nd)
					}
					if len(vs.Values) == 0 {
						continue
					}
					if len(vs.Values) == len(vs.Names) {
						for i := range vs.Values {
							add([]*ast.Ident{vs.Names[i]}, vs.Values[i])
						}
					} else {
						add(vs.Names, vs.Values[0])
					}
				}
			}
		}
	}
	var out []string
	state := map[*node]int{}
	var visitObj func(o types.Object, seen map[types.Object]bool)
	var visit func(nd *node)
	visitObj = func(o types.Object, seen map[types.Object]bool) {
		if seen[o] {
			return
		}
		seen[o] = true
		if nd := byVar[o]; nd != nil {
			visit(nd)
			return
		}
		for d := range objDeps[o] {
			visitObj(d, seen)
		}
	}
	visit = func(nd *node) {
		if state[nd] != 0 {
			return
		}
		state[nd] = 1
		// deterministic order of dependencies: by position
		var ds []types.Object
		for d := range nd.deps {
			ds = append(ds, d)
		}
		sort.Slice(ds, func(i, j int) bool { return ds[i].Pos() < ds[j].Pos() })
		seen := map[types.Object]bool{}
		for _, d := range ds {
			visitObj(d, seen)
		}
		state[nd] = 2
		if nd.fn != "" {
			out = append(out, nd.fn)
		}
	}
	for _, nd := range nodes {
		visit(nd)
	}
	return out
}

func isMethod(o types.Object) bool {
	f, ok := o.(*types.Func)
	return ok && f.Type().(*types.Signature).Recv() != nil
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	tpkg  *types.Package
	baron bool
	used  bool
	n     int
	// package-level variables that functions change
	shared map[types.Object]bool
}

const kname = "zzk"

func (w *rewriter) file(f *ast.File) {
	w.used = false
	w.selectors(f)
	w.imports(f)
	for _, d := range f.Decls {
		w.decl(d)
	}
	w.threads(f)
	if w.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent(kname), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simPath + "/k")}}
		gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{gd}, f.Decls...)
		f.Imports = append(f.Imports, spec)
	}
	// Comments confuse the printer once nodes without positions are mixed in;
	// keep only build constraints and compiler directives (above the package clause).
	var keep []*ast.CommentGroup
	for _, c := range f.Comments {
		if c.End() < f.Package {
			keep = append(keep, c)
		}
	}
	f.Comments = keep
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

func (w *rewriter) imports(f *ast.File) {
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		if r := mapped(path); r != path {
			s.Path.Value = strconv.Quote(r)
			s.EndPos = 0
		}
	}
}

func (w *rewriter) decl(d ast.Decl) {
	switch x := d.(type) {
	case *ast.FuncDecl:
		if x.Body != nil {
			w.walk(x.Body)
			if w.baron {
				w.tick(x.Body)
			}
		}
	case *ast.GenDecl:
		w.walk(x)
	}
}

func (w *rewriter) tick(b *ast.BlockStmt) {
	w.used = true
	call := &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(kname), Sel: ast.NewIdent("Tick")}}}
	b.List = append([]ast.Stmt{call}, b.List...)
}

// walk rewrites all statements below n. Statement lists are walked so that a
// range statement can be replaced in place (also under a label).
func (w *rewriter) walk(n ast.Node) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch s := x.(type) {
		case *ast.BlockStmt:
			w.list(s.List)
		case *ast.CaseClause:
			w.list(s.Body)
		case *ast.CommClause:
			w.list(s.Body)
		case *ast.LabeledStmt:
			s.Stmt = w.stmt(s.Stmt)
		case *ast.IfStmt:
			// init and else are statements; a range statement cannot be there
		case *ast.FuncLit:
			if w.baron {
				w.tick(s.Body)
			}
		}
		switch s := x.(type) {
		case *ast.ForStmt:
			if w.baron {
				w.tick(s.Body)
			}
		case *ast.RangeStmt:
			if w.baron {
				w.tick(s.Body)
			}
		}
		return true
	})
}

func (w *rewriter) list(l []ast.Stmt) {
	for i := range l {
		l[i] = w.stmt(l[i])
	}
}

func (w *rewriter) stmt(s ast.Stmt) ast.Stmt {
	r, ok := s.(*ast.RangeStmt)
	if !ok {
		return s
	}
	tv, ok := w.info.Types[r.X]
	if !ok || tv.Type == nil {
		return s
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return s
	}
	w.used = true
	w.n++
	it := ast.NewIdent(fmt.Sprintf("zzit%d", w.n))
	kfun := func(name string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(kname), Sel: ast.NewIdent(name)} }
	isBlank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	addr := func(e ast.Expr) ast.Expr {
		if isBlank(e) {
			return ast.NewIdent("nil")
		}
		return &ast.UnaryExpr{Op: token.AND, X: e}
	}
	f := &ast.ForStmt{Body: r.Body}
	if r.Tok == token.DEFINE {
		kv := func(e ast.Expr) ast.Expr {
			if isBlank(e) {
				return ast.NewIdent("_")
			}
			return ast.NewIdent(e.(*ast.Ident).Name)
		}
		f.Init = &ast.AssignStmt{Lhs: []ast.Expr{it, kv(r.Key), kv(r.Value)}, Tok: token.DEFINE,
			Rhs: []ast.Expr{&ast.CallExpr{Fun: kfun("MapIter"), Args: []ast.Expr{r.X}}}}
		f.Cond = &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, Args: []ast.Expr{addr(r.Key), addr(r.Value)}}
		return f
	}
	// for range m, for k = range m, for k, v = range m
	f.Init = &ast.AssignStmt{Lhs: []ast.Expr{it, ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.DEFINE,
		Rhs: []ast.Expr{&ast.CallExpr{Fun: kfun("MapIter"), Args: []ast.Expr{r.X}}}}
	f.Cond = &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, Args: []ast.Expr{addr(r.Key), addr(r.Value)}}
	return f
}

func (w *rewriter) k(name string) ast.Expr {
	w.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(kname), Sel: ast.NewIdent(name)}
}

func (w *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: w.k(name), Args: args}
}

func (w *rewriter) fresh(p string) *ast.Ident {
	w.n++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", p, w.n))
}

func recvOf(e ast.Expr) (ast.Expr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u.X, true
	}
	return nil, false
}

// rootVar is the package-level variable an operand starts with.
func (w *rewriter) rootVar(e ast.Expr) types.Object {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if _, ok := w.info.Uses[id].(*types.PkgName); ok {
					return nil
				}
			}
			e = x.X
		case *ast.Ident:
			v, ok := w.info.Uses[x].(*types.Var)
			if ok && v.Parent() == w.tpkg.Scope() {
				return v
			}
			return nil
		default:
			return nil
		}
	}
}

// findShared finds the package-level variables that functions may change.
func (w *rewriter) findShared(files []*ast.File) {
	w.shared = map[types.Object]bool{}
	mark := func(e ast.Expr) {
		if o := w.rootVar(e); o != nil {
			w.shared[o] = true
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						for _, l := range x.Lhs {
							mark(l)
						}
					}
				case *ast.IncDecStmt:
					mark(x.X)
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						mark(x.X)
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear" || id.Name == "copy") && len(x.Args) > 0 {
						mark(x.Args[0])
					}
					// a method of a variable that holds something itself
					if se, ok := x.Fun.(*ast.SelectorExpr); ok {
						if o := w.rootVar(se.X); o != nil {
							t := o.Type()
							if p, ok := t.(*types.Pointer); ok {
								t = p.Elem()
							}
							if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
								switch n.Obj().Pkg().Path() {
								case "bytes", "strings", "bufio", "container/list", "container/ring", "container/heap", "math/big", w.tpkg.Path():
									w.shared[o] = true
								}
							}
						}
					}
				}
				return true
			})
		}
	}
}

// touches tells whether a statement, but not the statements within it, uses a
// shared variable.
func (w *rewriter) touches(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.Ident:
			if w.shared[w.info.Uses[x]] {
				found = true
			}
		}
		return !found
	})
	return found
}

// threads rewrites go statements, channel operations and accesses to maps.
func (w *rewriter) threads(f *ast.File) {
	isChan := func(e ast.Expr) bool {
		tv, ok := w.info.Types[e]
		if !ok || tv.Type == nil {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Chan)
		return ok
	}
	touch := map[ast.Stmt]bool{}
	builtin := func(e ast.Expr, name string) bool {
		id, ok := e.(*ast.Ident)
		if !ok || id.Name != name {
			return false
		}
		_, ok = w.info.Uses[id].(*types.Builtin)
		return ok
	}
	isMap := func(e ast.Expr) bool {
		tv, ok := w.info.Types[e]
		if !ok || tv.Type == nil || !tv.IsValue() {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Map)
		return ok
	}
	post := func(c *astutil.Cursor) bool {
		if s, ok := c.Node().(ast.Stmt); ok && w.baron && c.Index() >= 0 {
			switch s.(type) {
			case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			default:
				if touch[s] {
					c.InsertBefore(&ast.ExprStmt{X: w.call("Shared")})
				}
			}
		}
		switch x := c.Node().(type) {
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				c.Replace(w.call("Recv", x.X))
			}
		case *ast.SendStmt:
			if _, ok := c.Parent().(*ast.CommClause); ok && c.Name() == "Comm" {
				return true
			}
			c.Replace(&ast.ExprStmt{X: w.call("Send", x.Chan, x.Value)})
		case *ast.GoStmt:
			c.Replace(w.goStmt(x))
		case *ast.CallExpr:
			if len(x.Args) == 1 && isChan(x.Args[0]) {
				if builtin(x.Fun, "close") {
					x.Fun = w.k("Close")
				} else if builtin(x.Fun, "len") {
					x.Fun = w.k("Len")
				}
			}
		case *ast.RangeStmt:
			if !isChan(x.X) {
				return true
			}
			ch, ok := w.fresh("c"), w.fresh("ok")
			var get []ast.Stmt
			blank := x.Key == nil
			if id, is := x.Key.(*ast.Ident); is && id.Name == "_" {
				blank = true
			}
			switch {
			case blank:
				get = append(get, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ok}, Tok: token.DEFINE, Rhs: []ast.Expr{w.call("Recv2", ch)}})
			case x.Tok == token.DEFINE:
				get = append(get, &ast.AssignStmt{Lhs: []ast.Expr{x.Key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{w.call("Recv2", ch)}})
			default:
				get = append(get, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}},
					&ast.AssignStmt{Lhs: []ast.Expr{x.Key, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{w.call("Recv2", ch)}})
			}
			get = append(get, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}, x.Body)
			c.Replace(&ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{x.X}}, Body: &ast.BlockStmt{List: get}})
		case *ast.SelectStmt:
			c.Replace(w.selectStmt(x))
		}
		return true
	}
	pre := func(c *astutil.Cursor) bool {
		if s, ok := c.Node().(ast.Stmt); ok && w.baron && c.Index() >= 0 && w.touches(s) {
			touch[s] = true
		}
		switch x := c.Node().(type) {
		case *ast.IndexExpr:
			if w.baron && isMap(x.X) {
				f := "MapR"
				switch c.Parent().(type) {
				case *ast.AssignStmt:
					if c.Name() == "Lhs" {
						f = "MapW"
					}
				case *ast.IncDecStmt:
					f = "MapW"
				}
				x.X = w.call(f, x.X)
			}
		case *ast.CallExpr:
			if w.baron && len(x.Args) > 0 && isMap(x.Args[0]) && (builtin(x.Fun, "delete") || builtin(x.Fun, "clear")) {
				x.Args[0] = w.call("MapW", x.Args[0])
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if _, ok := c.Parent().(*ast.CommClause); ok && c.Name() == "Comm" {
					return true
				}
				if ch, ok := recvOf(x.Rhs[0]); ok {
					x.Rhs[0] = w.call("Recv2", ch)
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if ch, ok := recvOf(x.Values[0]); ok {
					x.Values[0] = w.call("Recv2", ch)
				}
			}
		case *ast.CommClause:
			// the receive itself is part of the select statement
			switch y := x.Comm.(type) {
			case *ast.ExprStmt:
				if ch, ok := recvOf(y.X); ok {
					y.X = w.call("RecvCase", ch)
				}
			case *ast.AssignStmt:
				if ch, ok := recvOf(y.Rhs[0]); ok {
					y.Rhs[0] = w.call("RecvCase", ch)
				}
			}
		}
		return true
	}
	astutil.Apply(f, pre, post)
}

func (w *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	init := &ast.AssignStmt{Tok: token.DEFINE}
	def := "false"
	var cases []ast.Expr
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		cl := &ast.CaseClause{Body: cc.Body}
		n := len(cases)
		switch y := cc.Comm.(type) {
		case nil:
			def = "true"
			cl.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}
			sw.Body.List = append(sw.Body.List, cl)
			continue
		case *ast.SendStmt:
			id := w.fresh("s")
			init.Lhs = append(init.Lhs, id)
			init.Rhs = append(init.Rhs, w.call("SendCase", y.Chan, y.Value))
			cases = append(cases, id)
		case *ast.ExprStmt:
			id := w.fresh("r")
			init.Lhs = append(init.Lhs, id)
			init.Rhs = append(init.Rhs, y.X)
			cases = append(cases, id)
		case *ast.AssignStmt:
			id := w.fresh("r")
			init.Lhs = append(init.Lhs, id)
			init.Rhs = append(init.Rhs, y.Rhs[0])
			cases = append(cases, id)
			get := "Get"
			if len(y.Lhs) == 2 {
				get = "Get2"
			}
			as := &ast.AssignStmt{Lhs: y.Lhs, Tok: y.Tok, Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: id, Sel: ast.NewIdent(get)}}}}
			cl.Body = append([]ast.Stmt{as}, cc.Body...)
		}
		cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}
		sw.Body.List = append(sw.Body.List, cl)
	}
	if len(cases) > 0 {
		sw.Init = init
	}
	sw.Tag = w.call("Select", append([]ast.Expr{ast.NewIdent(def)}, cases...)...)
	return sw
}

func (w *rewriter) goStmt(g *ast.GoStmt) ast.Stmt {
	call := g.Call
	if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && lit.Type.Results == nil {
		return &ast.ExprStmt{X: w.call("Go", lit)}
	}
	// function value and arguments are evaluated now
	as := &ast.AssignStmt{Tok: token.DEFINE}
	hoist := func(e ast.Expr) ast.Expr {
		tv, ok := w.info.Types[e]
		if ok && (tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin()) {
			return e
		}
		if ok {
			if _, tuple := tv.Type.(*types.Tuple); tuple {
				return e
			}
		}
		id := w.fresh("a")
		as.Lhs = append(as.Lhs, id)
		as.Rhs = append(as.Rhs, e)
		return id
	}
	fun := call.Fun
	if tv, ok := w.info.Types[fun]; !ok || !tv.IsBuiltin() {
		if id, is := fun.(*ast.Ident); !is || w.info.Uses[id] == nil || w.info.Uses[id].Parent() != w.tpkg.Scope() {
			fun = hoist(fun)
		}
	}
	var args []ast.Expr
	for _, a := range call.Args {
		args = append(args, hoist(a))
	}
	inner := &ast.CallExpr{Fun: fun, Args: args}
	if call.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	st := &ast.ExprStmt{X: w.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})}
	if len(as.Lhs) == 0 {
		return st
	}
	return &ast.BlockStmt{List: []ast.Stmt{as, st}}
}

func writeReg(ps []*outPkg, out string) {
	var b bytes.Buffer
	b.WriteString("// Package reg lists the rewritten packages in initialisation order.\npackage reg\n\nimport (\n")
	for i, p := range ps {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p.path)
	}
	b.WriteString(")\n\nvar Globals [][]interface{}\n\nfunc init() {\n")
	for i := range ps {
		fmt.Fprintf(&b, "\tGlobals = append(Globals, p%d.SimGlobals())\n", i)
	}
	b.WriteString("}\n\n// Start initialises all packages like a fresh process does.\nfunc Start(x map[string]string) {\n\t_ = x\n")
	for i, p := range ps {
		fmt.Fprintf(&b, "\tp%d.SimVarInit()\n", i)
		if p.isCmd {
			fmt.Fprintf(&b, "\tfor n, v := range x {\n\t\tp%d.SimSetX(n, v)\n\t}\n", i)
			fmt.Fprintf(&b, "\tif len(x) == 0 {\n\t\treturn\n\t}\n")
		}
		if p.main == "" {
			fmt.Fprintf(&b, "\tp%d.SimInit()\n", i)
		}
	}
	b.WriteString("}\n\n// Mains are the generated commands.\nvar Mains = map[string]func(){\n")
	for i, p := range ps {
		if p.main != "" {
			fmt.Fprintf(&b, "\t%q: func() { p%d.SimInit(); p%d.SimMain() },\n", p.main, i, i)
		}
	}
	b.WriteString("}\n\n// Main is baron's main function.\nfunc Main() {\n")
	ok := false
	for i, p := range ps {
		if p.isCmd {
			fmt.Fprintf(&b, "\tp%d.SimMain()\n", i)
			ok = true
		}
	}
	b.WriteString("}\n")
	if !ok && !svcMode {
		die("no command package cmd/baron found")
	}
	must(os.MkdirAll(filepath.Join(out, "zz_reg"), 0777))
	must(os.WriteFile(filepath.Join(out, "zz_reg", "reg.go"), b.Bytes(), 0666))
}

func copyTree(src, dst string) {
	must(filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0777)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0666)
	}))
}
