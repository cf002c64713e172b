package cli

import (
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"sort"
	"strings"
)

func gofmt(s string) string {
	b, err := format.Source([]byte(s))
	if err != nil {
		return s
	}
	return string(b)
}

var goErrCache = map[string]error{}

func goErr(s string) error {
	if e, ok := goErrCache[s]; ok {
		return e
	}
	_, err := parser.ParseFile(token.NewFileSet(), "", s, 0)
	if len(goErrCache) > 5000 {
		goErrCache = map[string]error{}
	}
	goErrCache[s] = err
	return err
}

// endpointsOracle: the transport file has one endpoint per rpc and no other.
func endpointsOracle(d *Def, src string) *Bad {
	f, err := parser.ParseFile(token.NewFileSet(), "", src, 0)
	if err != nil {
		return bad("C04", "invalid-go", "the transport file is not valid Go: %v", err)
	}
	have := map[string]bool{}
	impl := map[string]bool{}
	found := false
	for _, dd := range f.Decls {
		switch x := dd.(type) {
		case *ast.GenDecl:
			for _, s := range x.Specs {
				ts, ok := s.(*ast.TypeSpec)
				if !ok || ts.Name.Name != "Endpoints" {
					continue
				}
				st, ok := ts.Type.(*ast.StructType)
				if !ok {
					continue
				}
				found = true
				for _, fl := range st.Fields.List {
					for _, n := range fl.Names {
						have[n.Name] = true
					}
				}
			}
		case *ast.FuncDecl:
			if x.Recv != nil && len(x.Recv.List) > 0 && strings.TrimPrefix(typeName(x.Recv.List[0].Type), "*") == "Endpoints" {
				impl[x.Name.Name] = true
			}
		}
	}
	if !found {
		return bad("C04", "no-endpoints", "the transport file declares no Endpoints")
	}
	want := map[string]bool{}
	for _, m := range d.Methods {
		want[m.Name+"Endpoint"] = true
		if !impl[m.Name] {
			return bad("C04", "endpoint-missing", "the transport file's Endpoints do not implement rpc %s", m.Name)
		}
		if !have[m.Name+"Endpoint"] {
			return bad("C04", "endpoint-missing", "the transport file has no endpoint for rpc %s", m.Name)
		}
	}
	var names []string
	for n := range have {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if !want[n] && strings.HasSuffix(n, "Endpoint") {
			return bad("C04", "endpoint-extra", "the transport file has an endpoint %s, which is no rpc", n)
		}
	}
	return nil
}
