package main

// Loading the repository under verification: its packages are type-checked from source and translated to go/ssa.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func repoDir() string {
	if d := os.Getenv("GVC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("GVC_VERIF"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		d := filepath.Dir(filepath.Dir(exe))
		if _, err := os.Stat(filepath.Join(d, "contracts")); err == nil {
			return d
		}
	}
	return "/verif"
}

func loadRepo() (*Engine, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile | packages.NeedDeps,
		Dir: repoDir(),
	}
	// dependencies come from export data
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("loading %s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	// With export data only, packages importing each other see different type objects unless the repository's own
	// packages are resolved from source; ssautil.Packages does so for the listed roots.
	prog.Build()
	e := &Engine{prog: prog, fset: prog.Fset, repo: map[string]*ssa.Package{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{},
		timeout: 20000, unmodelled: map[string]bool{}, usedExterns: map[string]bool{}, inlined: map[string]bool{}, usedContracts: map[string]bool{},
		allPkgs: map[string]*types.Package{}}
	for _, p := range spkgs {
		if p != nil {
			e.repo[p.Pkg.Name()] = p
		}
	}
	var addPkg func(p *types.Package)
	addPkg = func(p *types.Package) {
		if e.allPkgs[p.Path()] != nil {
			return
		}
		e.allPkgs[p.Path()] = p
		for _, q := range p.Imports() {
			addPkg(q)
		}
	}
	for _, p := range spkgs {
		addPkg(p.Pkg)
	}
	e.loadModels()
	e.indexTypes()
	return e, nil
}

// indexTypes registers every type of the repository's functions by name (for values whose dynamic type is known).
func (e *Engine) indexTypes() {
	add := func(T types.Type) {
		n := tname(T)
		if typeByName[n] == nil {
			typeByName[n] = T
		}
	}
	for path, p := range e.allPkgs {
		_ = path
		for _, n := range p.Scope().Names() {
			if o, ok := p.Scope().Lookup(n).(*types.TypeName); ok && !o.IsAlias() {
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				add(o.Type())
				add(types.NewPointer(o.Type()))
			}
		}
	}
	for _, t := range types.Typ {
		add(t)
	}
	for fn := range ssautil.AllFunctions(e.prog) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					add(mi.X.Type())
				}
			}
		}
	}
}

// allRepoFunctions lists the repository's functions, closures included.
func (e *Engine) allRepoFunctions() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(e.prog) {
		if isRepoPkg(fnPkg(fn)) && fn.Synthetic == "" {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// listExternals prints every function outside the repository that its code calls.
func (e *Engine) listExternals(filter string) {
	m := map[string]map[string]bool{}
	for _, fn := range e.allRepoFunctions() {
		if filter != "" && !strings.Contains(fn.String(), filter) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				n := ""
				if cc.IsInvoke() {
					n = "(" + ifaceOwner(cc.Value.Type(), cc.Method) + ")." + cc.Method.Name()
				} else if f := cc.StaticCallee(); f != nil {
					if isRepoPkg(fnPkg(f)) {
						continue
					}
					n = f.String()
				} else if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				} else {
					n = "call " + tname(cc.Value.Type())
				}
				if m[n] == nil {
					m[n] = map[string]bool{}
				}
				m[n][shortName(fn.String())] = true
			}
		}
	}
	for _, n := range sortedKeys(m) {
		fmt.Println(n, "<-", strings.Join(sortedKeys(m[n]), ", "))
	}
	fmt.Println("-- globals")
	for _, p := range e.repo {
		for _, mem := range p.Members {
			if g, ok := mem.(*ssa.Global); ok {
				fmt.Println(g.String(), g.Type())
			}
		}
	}
}

// findFunc resolves "pkg.F", "pkg.(*T).M" or "pkg.(T).M".
func (e *Engine) findFunc(name string) *ssa.Function {
	i := strings.IndexByte(name, '.')
	p := e.repo[name[:i]]
	if p == nil {
		return nil
	}
	rest := name[i+1:]
	if !strings.HasPrefix(rest, "(") {
		return p.Func(rest)
	}
	j := strings.IndexByte(rest, ')')
	tn, mn := strings.TrimPrefix(rest[1:j], "*"), rest[j+2:]
	o, ok := p.Pkg.Scope().Lookup(tn).(*types.TypeName)
	if !ok {
		return nil
	}
	var T types.Type = o.Type()
	if strings.HasPrefix(rest, "(*") {
		T = types.NewPointer(T)
	}
	ms := e.prog.MethodSets.MethodSet(T)
	s := ms.Lookup(p.Pkg, mn)
	if s == nil {
		return nil
	}
	return e.prog.MethodValue(s)
}
