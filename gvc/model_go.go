package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Library functions that call back into the code under verification, as Go source: the verifier executes these bodies
// (with their loops) in place of the originals. more and visit are arbitrary; see contracts/00_std.gvc.
const modelSource = `package gvcmodel

import (
	"os"
	"path/filepath"
)

func more() bool
func visit(root string) (string, os.FileInfo, error)
func visited(root, path string, f os.FileInfo, err error, result error)
func walk(root string)

func Walk(root string, fn filepath.WalkFunc) error {
	walk(root)
	for more() {
		path, f, err := visit(root)
		result := fn(path, f, err)
		visited(root, path, f, err, result)
		if result != nil && result != filepath.SkipDir {
			return result
		}
	}
	return nil
}
`

// modelled functions: the original and the name of its body in modelSource
var modelBodies = map[string]string{"path/filepath.Walk": "Walk"}

type modelImporter map[string]*types.Package

func (m modelImporter) Import(path string) (*types.Package, error) {
	if p := m[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("the repository does not use package %s", path)
}

// loadModels compiles modelSource against the repository's own view of the standard library.
func (e *Engine) loadModels() {
	f, err := parser.ParseFile(e.fset, "gvcmodel.go", modelSource, 0)
	if err != nil {
		panic(err)
	}
	imp := modelImporter(e.allPkgs)
	for _, is := range f.Imports {
		if _, err := imp.Import(is.Path.Value[1 : len(is.Path.Value)-1]); err != nil {
			return
		}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}}
	cfg := types.Config{Importer: imp, Error: func(error) {}}
	p, err := cfg.Check("gvcmodel", e.fset, []*ast.File{f}, info)
	if err != nil {
		panic("model library: " + err.Error())
	}
	for _, q := range p.Imports() {
		if e.prog.ImportedPackage(q.Path()) == nil {
			e.prog.CreatePackage(q, nil, nil, true)
		}
	}
	sp := e.prog.CreatePackage(p, []*ast.File{f}, info, false)
	sp.Build()
	e.models = sp
}

// modelBody: the body that stands for a library function.
func (e *Engine) modelBody(name string) *ssa.Function {
	if e.models == nil || modelBodies[name] == "" {
		return nil
	}
	return e.models.Func(modelBodies[name])
}

var _ = token.NoPos
