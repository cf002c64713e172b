// Package packages answers package queries from the simulated disk.
package packages

import (
	"context"
	"errors"
	"go/ast"
	"go/token"
	"go/types"

	"github.com/teamlint/baron/zz_sim/k"
)

type LoadMode int

const (
	NeedName LoadMode = 1 << iota
	NeedFiles
	NeedCompiledGoFiles
	NeedImports
	NeedDeps
	NeedExportsFile
	NeedTypes
	NeedSyntax
	NeedTypesInfo
	NeedTypesSizes
	NeedModule

	LoadFiles     = NeedName | NeedFiles | NeedCompiledGoFiles
	LoadImports   = LoadFiles | NeedImports
	LoadTypes     = LoadImports | NeedTypes | NeedTypesSizes
	LoadSyntax    = LoadTypes | NeedSyntax | NeedTypesInfo
	LoadAllSyntax = LoadSyntax | NeedDeps
)

type Config struct {
	Mode       LoadMode
	Context    context.Context
	Logf       func(format string, args ...interface{})
	Dir        string
	Env        []string
	BuildFlags []string
	Fset       *token.FileSet
	ParseFile  func(fset *token.FileSet, filename string, src []byte) (*ast.File, error)
	Tests      bool
	Overlay    map[string][]byte
}

type ErrorKind int

type Error struct {
	Pos  string
	Msg  string
	Kind ErrorKind
}

func (e Error) Error() string { return e.Pos + ": " + e.Msg }

type Module struct {
	Path, Version, Dir, GoMod, GoVersion string
	Main                                 bool
}

type Package struct {
	ID              string
	Name            string
	PkgPath         string
	Errors          []Error
	GoFiles         []string
	CompiledGoFiles []string
	OtherFiles      []string
	ExportFile      string
	Imports         map[string]*Package
	Types           *types.Package
	Fset            *token.FileSet
	IllTyped        bool
	Syntax          []*ast.File
	TypesInfo       *types.Info
	Module          *Module
}

func (p *Package) String() string { return p.ID }

func Load(cfg *Config, patterns ...string) ([]*Package, error) {
	if len(patterns) == 0 {
		patterns = []string{"."}
	}
	var rv []*Package
	for _, pat := range patterns {
		dir := pat
		if cfg != nil && cfg.Dir != "" && len(pat) > 0 && pat[0] != '/' {
			dir = cfg.Dir + "/" + pat
		}
		r := k.Self().LoadPackage(dir)
		if r.Err != nil {
			return nil, r.Err
		}
		if r.None {
			continue
		}
		if r.PkgPath == "" && len(r.Errs) > 0 {
			return nil, errors.New(r.Errs[0])
		}
		p := &Package{ID: r.PkgPath, PkgPath: r.PkgPath, Name: r.Name}
		for _, e := range r.Errs {
			p.Errors = append(p.Errors, Error{Msg: e})
		}
		rv = append(rv, p)
	}
	return rv, nil
}

func PrintErrors(pkgs []*Package) int {
	n := 0
	for _, p := range pkgs {
		n += len(p.Errors)
	}
	return n
}
