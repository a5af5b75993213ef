package main

// Evaluation of specification expressions over symbolic states.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is a specification value.
type SV struct {
	t    *Term
	typ  types.Type
	addr *Term // struct stored at this address, read lazily through h
	h    heapView
	gk   types.Type // ghost map key / value types
	gv   types.Type
	nilv bool
}

type evalCtx struct {
	e      *Engine
	st     *State
	h      heapView
	old    heapView
	loop   heapView
	snaps  map[string]snapshot
	env    map[string]SV
	init   map[string]SV
	lets   map[string]*Expr
	sc     *Scope
	bound  int
	iter   int
	depth  int
	resIdx int
	born   *Term
}

type specErr struct{ msg string }

func (c *evalCtx) fail(x *Expr, f string, a ...interface{}) {
	pos := ""
	if x != nil {
		pos = x.pos
	}
	panic(specErr{pos + ": " + fmt.Sprintf(f, a...)})
}

func (c *evalCtx) with(h heapView) *evalCtx { n := *c; n.h = h; return &n }

func (c *evalCtx) bind(m map[string]SV) *evalCtx {
	n := *c
	n.env = map[string]SV{}
	for k, v := range c.env {
		n.env[k] = v
	}
	for k, v := range m {
		n.env[k] = v
	}
	return &n
}

// term forces a specification value.
func (v SV) term() *Term {
	if v.addr != nil {
		return loadAt(v.h, v.typ, v.addr)
	}
	return v.t
}

var universeTypes = map[string]types.Type{}

func init() {
	for _, t := range types.Typ {
		universeTypes[t.Name()] = t
	}
	universeTypes["byte"] = types.Typ[types.Uint8]
	universeTypes["rune"] = types.Typ[types.Int32]
	universeTypes["any"] = types.NewInterfaceType(nil, nil)
	universeTypes["error"] = types.Universe.Lookup("error").Type()
}

var typeCache = map[string]types.Type{}

func (e *Engine) resolveType(s string, sc *Scope) (types.Type, error) {
	key := sc.pkg + "|" + s
	if t, ok := typeCache[key]; ok {
		return t, nil
	}
	x, err := parser.ParseExpr(s)
	if err != nil {
		return nil, fmt.Errorf("bad type %q: %v", s, err)
	}
	t, err := e.resolveTypeExpr(x, sc)
	if err == nil {
		typeCache[key] = t
	}
	return t, err
}

func (e *Engine) pkgByAlias(a string, sc *Scope) *types.Package {
	if p, ok := e.repo[a]; ok {
		if sc.imports[a] == "" {
			return p.Pkg
		}
	}
	if path, ok := sc.imports[a]; ok {
		return e.allPkgs[path]
	}
	return nil
}

func (e *Engine) resolveTypeExpr(x ast.Expr, sc *Scope) (types.Type, error) {
	switch x := x.(type) {
	case *ast.Ident:
		if t, ok := universeTypes[x.Name]; ok {
			return t, nil
		}
		if p := e.repo[sc.pkg]; p != nil {
			if o, ok := p.Pkg.Scope().Lookup(x.Name).(*types.TypeName); ok {
				return o.Type(), nil
			}
		}
		return nil, fmt.Errorf("unknown type %s", x.Name)
	case *ast.SelectorExpr:
		id, ok := x.X.(*ast.Ident)
		if !ok {
			return nil, fmt.Errorf("bad qualified type")
		}
		p := e.pkgByAlias(id.Name, sc)
		if p == nil {
			return nil, fmt.Errorf("unknown package %s", id.Name)
		}
		if o, ok := p.Scope().Lookup(x.Sel.Name).(*types.TypeName); ok {
			return o.Type(), nil
		}
		return nil, fmt.Errorf("unknown type %s.%s", id.Name, x.Sel.Name)
	case *ast.StarExpr:
		t, err := e.resolveTypeExpr(x.X, sc)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case *ast.ParenExpr:
		return e.resolveTypeExpr(x.X, sc)
	case *ast.ArrayType:
		t, err := e.resolveTypeExpr(x.Elt, sc)
		if err != nil {
			return nil, err
		}
		if x.Len != nil {
			lit, ok := x.Len.(*ast.BasicLit)
			if !ok {
				return nil, fmt.Errorf("bad array length")
			}
			v := constant.MakeFromLiteral(lit.Value, token.INT, 0)
			n, _ := constant.Int64Val(v)
			return types.NewArray(t, n), nil
		}
		return types.NewSlice(t), nil
	case *ast.MapType:
		k, err := e.resolveTypeExpr(x.Key, sc)
		if err != nil {
			return nil, err
		}
		v, err := e.resolveTypeExpr(x.Value, sc)
		if err != nil {
			return nil, err
		}
		return types.NewMap(k, v), nil
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil), nil
	case *ast.FuncType:
		var ps, rs []*types.Var
		add := func(fl *ast.FieldList, out *[]*types.Var) error {
			if fl == nil {
				return nil
			}
			for _, f := range fl.List {
				t, err := e.resolveTypeExpr(f.Type, sc)
				if err != nil {
					return err
				}
				*out = append(*out, types.NewVar(token.NoPos, nil, "", t))
			}
			return nil
		}
		if err := add(x.Params, &ps); err != nil {
			return nil, err
		}
		if err := add(x.Results, &rs); err != nil {
			return nil, err
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), types.NewTuple(rs...), false), nil
	}
	return nil, fmt.Errorf("unsupported type expression")
}

// specType is a Go type or a ghost map.
type specType struct {
	typ    types.Type
	gk, gv types.Type
}

func (t specType) sort() *Sort {
	if t.gk != nil {
		return arraySort(sortOf(t.gk), sortOf(t.gv))
	}
	return sortOf(t.typ)
}

func (e *Engine) specType(s string, sc *Scope) (specType, error) {
	if strings.HasPrefix(s, "gmap[") {
		depth, i := 0, 4
		for ; i < len(s); i++ {
			if s[i] == '[' {
				depth++
			}
			if s[i] == ']' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		k, err := e.resolveType(s[5:i], sc)
		if err != nil {
			return specType{}, err
		}
		v, err := e.resolveType(s[i+1:], sc)
		return specType{gk: k, gv: v}, err
	}
	t, err := e.resolveType(s, sc)
	return specType{typ: t}, err
}

func (c *evalCtx) stype(x *Expr, s string, sc *Scope) specType {
	t, err := c.e.specType(s, sc)
	if err != nil {
		c.fail(x, "%v", err)
	}
	return t
}

func mkSV(t *Term, st specType) SV { return SV{t: t, typ: st.typ, gk: st.gk, gv: st.gv} }

var tBoolT = types.Typ[types.Bool]
var tIntT = types.Typ[types.Int]
var tStrT = types.Typ[types.String]

func boolSV(t *Term) SV { return SV{t: t, typ: tBoolT} }
func intSV(t *Term) SV  { return SV{t: t, typ: tIntT} }
func strSV(t *Term) SV  { return SV{t: t, typ: tStrT} }

func (c *evalCtx) note(v SV) SV {
	if c.bound == 0 && c.st != nil && v.t != nil && v.typ != nil {
		c.st.note(v.t, v.typ)
	}
	return v
}

func (c *evalCtx) boolean(x *Expr) *Term {
	v := c.eval(x)
	t := v.term()
	if t == nil || t.sort != sBool {
		c.fail(x, "boolean expected")
	}
	return t
}

func (c *evalCtx) eval(x *Expr) SV {
	switch x.op {
	case "int":
		b, _ := new(big.Int).SetString(x.name, 10)
		return SV{t: BigC(b), typ: tIntT}
	case "str":
		return strSV(StrC(x.name))
	case "meta":
		if v, ok := c.env[x.name]; ok {
			return v
		}
		c.fail(x, "unbound %s", x.name)
	case "ident":
		return c.ident(x)
	case "sel":
		return c.sel(x)
	case "index":
		return c.index(c.eval(x.args[0]), c.eval(x.args[1]), x)
	case "slice":
		s := c.eval(x.args[0]).term()
		if s.sort == sString {
			lo, hi := IntC(0), StrLen(s)
			if x.args[1] != nil {
				lo = c.eval(x.args[1]).term()
			}
			if x.args[2] != nil {
				hi = c.eval(x.args[2]).term()
			}
			return strSV(Substr(s, lo, hi))
		}
		c.fail(x, "slice of a non-string")
	case "unary":
		v := c.eval(x.args[0])
		if x.name == "!" {
			return boolSV(Not(v.term()))
		}
		return SV{t: neg(v.term()), typ: v.typ}
	case "binary":
		return c.binary(x)
	case "forall", "exists":
		m := map[string]SV{}
		var bs []*Term
		for _, b := range x.binders {
			st := c.stype(x, b.typ, x.sc)
			c.e.qcount++
			v := Var(fmt.Sprintf("%s?%d", b.name, c.e.qcount%4096+c.depth*4096), st.sort())
			bs = append(bs, v)
			m[b.name] = mkSV(v, st)
		}
		n := c.bind(m)
		n.bound++
		body := n.boolean(x.args[0])
		var pats [][]*Term
		for _, tr := range x.trig {
			var p []*Term
			for _, t := range tr {
				p = append(p, n.eval(t).term())
			}
			pats = append(pats, p)
		}
		if x.op == "forall" {
			return boolSV(Forall(bs, pats, body))
		}
		return boolSV(Exists(bs, pats, body))
	case "is", "as":
		v := c.eval(x.args[0]).term()
		T := c.stype(x, x.typ, x.sc).typ
		if v.sort != sAny {
			c.fail(x, "interface value expected")
		}
		if x.op == "as" && isIface(T) {
			return SV{t: v, typ: T}
		}
		n := tname(T)
		if x.op == "is" {
			if isIface(T) {
				return boolSV(c.e.implements(v, T))
			}
			registerBox(n, sortOf(T))
			return boolSV(Eq(DynType(v), typeIDTerm(n)))
		}
		registerBox(n, sortOf(T))
		return c.note(SV{t: Unbox(n, v, sortOf(T)), typ: T})
	case "call":
		return c.call(x)
	}
	c.fail(x, "cannot evaluate %s", x.op)
	return SV{}
}

func (c *evalCtx) ident(x *Expr) SV {
	switch x.name {
	case "true":
		return boolSV(tTrue)
	case "false":
		return boolSV(tFalse)
	case "nil":
		return SV{nilv: true}
	}
	if v, ok := c.env[x.name]; ok {
		return v
	}
	if l, ok := c.lets[x.name]; ok {
		return c.eval(l)
	}
	if c.e.run != nil {
		if g, ok := c.e.run.ghosts[x.name]; ok {
			return mkSV(c.h.comp("G|v|"+x.name, g.sort()), g)
		}
	}
	if p := c.e.repo[x.sc.pkg]; p != nil {
		if v, ok := c.pkgMember(p.Pkg, x.name); ok {
			return v
		}
	}
	c.fail(x, "unknown name %s", x.name)
	return SV{}
}

func (c *evalCtx) pkgMember(p *types.Package, name string) (SV, bool) {
	switch o := p.Scope().Lookup(name).(type) {
	case *types.Const:
		T := o.Type()
		if b, ok := T.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			T = types.Default(T)
		}
		return SV{t: constVal(o.Val(), T), typ: T}, true
	case *types.Var:
		T := o.Type()
		op := "sub|global|" + p.Path() + "." + name
		registerAddrOp(op, 1)
		a := App(op, sInt, IntC(0))
		if isStruct(T) {
			return SV{addr: a, typ: T, h: c.h}, true
		}
		return SV{t: Select(c.h.comp(cellComp(T), arraySort(sInt, sortOf(T))), a), typ: T}, true
	}
	return SV{}, false
}

func (c *evalCtx) isPkg(x *Expr) *types.Package {
	if x.op != "ident" {
		return nil
	}
	if _, ok := c.env[x.name]; ok {
		return nil
	}
	if _, ok := c.lets[x.name]; ok {
		return nil
	}
	return c.e.pkgByAlias(x.name, x.sc)
}

func (c *evalCtx) sel(x *Expr) SV {
	if p := c.isPkg(x.args[0]); p != nil {
		if v, ok := c.pkgMember(p, x.name); ok {
			return v
		}
		c.fail(x, "unknown %s.%s", p.Path(), x.name)
	}
	v := c.eval(x.args[0])
	if v.typ == nil {
		c.fail(x, "field of an untyped value")
	}
	return c.field(v, x.name, x)
}

func pkgOfType(T types.Type) *types.Package {
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	if n, ok := types.Unalias(T).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (c *evalCtx) field(v SV, name string, x *Expr) SV {
	T := v.typ
	obj, path, _ := types.LookupFieldOrMethod(T, true, pkgOfType(T), name)
	f, ok := obj.(*types.Var)
	if !ok {
		c.fail(x, "no field %s in %s", name, tname(T))
	}
	_ = f
	for _, i := range path {
		v = c.field1(v, i, x)
	}
	return v
}

func (c *evalCtx) field1(v SV, i int, x *Expr) SV {
	T := v.typ
	if p, ok := under(T).(*types.Pointer); ok {
		v = SV{addr: v.term(), typ: p.Elem(), h: c.h}
		T = p.Elem()
	}
	u, ok := under(T).(*types.Struct)
	if !ok {
		c.fail(x, "struct expected, found %s", tname(T))
	}
	ft := u.Field(i).Type()
	if v.addr != nil {
		if isStruct(ft) || isArray(ft) {
			return SV{addr: subAddr(T, i, v.addr), typ: ft, h: v.h}
		}
		return c.note(SV{t: fieldLoad(v.h, T, i, v.addr), typ: ft})
	}
	return c.note(SV{t: Sel(v.t, i), typ: ft})
}

func (c *evalCtx) index(v, i SV, x *Expr) SV {
	if v.gk != nil {
		return SV{t: Select(v.t, c.coerce(i, v.gk)), typ: v.gv}
	}
	switch u := under(v.typ).(type) {
	case *types.Map:
		return c.note(SV{t: mapGet(c.h, v.typ, v.term(), c.coerce(i, u.Key())), typ: u.Elem()})
	case *types.Slice:
		s := v.term()
		idx := Add(SOff(s), i.term())
		if isStruct(u.Elem()) {
			return SV{addr: elemAddr(u.Elem(), SRef(s), idx), typ: u.Elem(), h: c.h}
		}
		return c.note(SV{t: elemLoad(c.h, u.Elem(), SRef(s), idx), typ: u.Elem()})
	case *types.Array:
		if v.addr != nil {
			if isStruct(u.Elem()) {
				return SV{addr: elemAddr(u.Elem(), v.addr, i.term()), typ: u.Elem(), h: v.h}
			}
			return c.note(SV{t: elemLoad(v.h, u.Elem(), v.addr, i.term()), typ: u.Elem()})
		}
		return SV{t: Select(v.t, i.term()), typ: u.Elem()}
	case *types.Pointer:
		return c.index(SV{addr: v.term(), typ: u.Elem(), h: c.h}, i, x)
	case *types.Basic:
		return SV{t: StrByte(v.term(), i.term()), typ: types.Typ[types.Uint8]}
	}
	c.fail(x, "cannot index %s", tname(v.typ))
	return SV{}
}

// coerce converts v to Go type T (boxing into interfaces, nil, numeric literals).
func (c *evalCtx) coerce(v SV, T types.Type) *Term {
	if v.nilv {
		return zeroTerm(T)
	}
	if isIface(T) && v.typ != nil && !isIface(v.typ) && v.gk == nil {
		return boxIface(v.typ, v.term())
	}
	t := v.term()
	want := sortOf(T)
	if t.sort == sInt && want == sReal {
		if t.op == "int" {
			return RealC(t.num.String() + ".0")
		}
		return App("to_real", sReal, t)
	}
	if t.sort != want && t.sort.dt != nil && want.dt != nil {
		return c.e.restruct(t, T)
	}
	if t.sort != want {
		panic(specErr{fmt.Sprintf("cannot use a %s as %s", t.sort.name, tname(T))})
	}
	return t
}

func (c *evalCtx) equal(a, b SV, x *Expr) *Term {
	if a.nilv && b.nilv {
		return tTrue
	}
	if a.nilv {
		a, b = b, a
	}
	if b.nilv {
		t := a.term()
		if t.sort == sSlice {
			return Eq(SRef(t), IntC(0))
		}
		return Eq(t, zeroOfSort(t.sort))
	}
	if a.typ != nil && b.typ != nil {
		if isIface(a.typ) && !isIface(b.typ) {
			return Eq(a.term(), boxIface(b.typ, b.term()))
		}
		if isIface(b.typ) && !isIface(a.typ) {
			return Eq(boxIface(a.typ, a.term()), b.term())
		}
	}
	ta, tb := a.term(), b.term()
	if ta.sort == sReal && tb.sort == sInt {
		tb = c.coerce(b, a.typ)
	}
	if tb.sort == sReal && ta.sort == sInt {
		ta = c.coerce(a, b.typ)
	}
	if ta.sort != tb.sort && ta.sort.dt != nil && tb.sort.dt != nil {
		tb = c.e.restruct(tb, a.typ)
	}
	if ta.sort != tb.sort {
		c.fail(x, "comparison of %s and %s", ta.sort.name, tb.sort.name)
	}
	return Eq(ta, tb)
}

func (c *evalCtx) binary(x *Expr) SV {
	switch x.name {
	case "&&":
		a := c.boolean(x.args[0])
		if a == tFalse {
			return boolSV(tFalse)
		}
		return boolSV(And(a, c.boolean(x.args[1])))
	case "||":
		a := c.boolean(x.args[0])
		if a == tTrue {
			return boolSV(tTrue)
		}
		return boolSV(Or(a, c.boolean(x.args[1])))
	case "==>":
		a := c.boolean(x.args[0])
		if a == tFalse {
			return boolSV(tTrue)
		}
		return boolSV(Imp(a, c.boolean(x.args[1])))
	case "<==>":
		return boolSV(Eq(c.boolean(x.args[0]), c.boolean(x.args[1])))
	case "in":
		m := c.eval(x.args[1])
		k := c.eval(x.args[0])
		if m.gk != nil {
			return boolSV(Select(m.t, c.coerce(k, m.gk)))
		}
		u, ok := under(m.typ).(*types.Map)
		if !ok {
			c.fail(x, "map expected")
		}
		return boolSV(mapDom(c.h, m.typ, m.term(), c.coerce(k, u.Key())))
	}
	a, b := c.eval(x.args[0]), c.eval(x.args[1])
	switch x.name {
	case "==":
		return boolSV(c.equal(a, b, x))
	case "!=":
		return boolSV(Not(c.equal(a, b, x)))
	}
	ta, tb := a.term(), b.term()
	typ := a.typ
	if ta.op == "int" && b.typ != nil {
		typ = b.typ
	}
	if ta.sort == sReal && tb.sort == sInt {
		tb = c.coerce(b, a.typ)
	} else if tb.sort == sReal && ta.sort == sInt {
		ta = c.coerce(a, b.typ)
	}
	switch x.name {
	case "<":
		return boolSV(Lt(ta, tb))
	case "<=":
		return boolSV(Le(ta, tb))
	case ">":
		return boolSV(Lt(tb, ta))
	case ">=":
		return boolSV(Le(tb, ta))
	case "+":
		if ta.sort == sString {
			return SV{t: Concat(ta, tb), typ: typ}
		}
		if ta.sort == sReal {
			return SV{t: App("r+", sReal, ta, tb), typ: typ}
		}
		return SV{t: Add(ta, tb), typ: typ}
	case "-":
		if ta.sort == sReal {
			return SV{t: App("r-", sReal, ta, tb), typ: typ}
		}
		return SV{t: Sub(ta, tb), typ: typ}
	case "*":
		if ta.sort == sReal {
			return SV{t: App("r*", sReal, ta, tb), typ: typ}
		}
		return SV{t: Mul(ta, tb), typ: typ}
	case "/":
		if ta.sort == sReal {
			return SV{t: App("/", sReal, ta, tb), typ: typ}
		}
		return SV{t: goDivMod(true, ta, tb, true), typ: typ}
	case "%":
		return SV{t: goDivMod(false, ta, tb, true), typ: typ}
	}
	c.fail(x, "operator %s", x.name)
	return SV{}
}

func (c *evalCtx) call(x *Expr) SV {
	f := x.args0()
	args := x.args[1:]
	if f.op == "ident" {
		if _, shadow := c.env[f.name]; !shadow {
			if v, ok := c.builtin(f.name, args, x); ok {
				return v
			}
			if sf := c.e.specs.funcs[f.name]; sf != nil {
				return c.specFunc(sf, args, x)
			}
			// conversion to a named type of the current package or a basic type
			if T, err := c.e.resolveType(f.name, x.sc); err == nil && len(args) == 1 {
				return c.convert(c.eval(args[0]), T, x)
			}
		}
	}
	if f.op == "sel" {
		if p := c.isPkg(f.args[0]); p != nil {
			switch o := p.Scope().Lookup(f.name).(type) {
			case *types.TypeName:
				return c.convert(c.eval(args[0]), o.Type(), x)
			case *types.Func:
				return c.pureCall(p.Path()+"."+f.name, o.Type().(*types.Signature), nil, args, x)
			}
			c.fail(x, "unknown function %s.%s", p.Path(), f.name)
		}
		recv := c.eval(f.args[0])
		obj, _, _ := types.LookupFieldOrMethod(recv.typ, true, pkgOfType(recv.typ), f.name)
		if m, ok := obj.(*types.Func); ok {
			return c.pureCall(m.FullName(), m.Type().(*types.Signature), &recv, args, x)
		}
	}
	c.fail(x, "cannot call this expression")
	return SV{}
}

func (x *Expr) args0() *Expr { return x.args[0] }

func (c *evalCtx) convert(v SV, T types.Type, x *Expr) SV {
	if isIface(T) || v.nilv {
		return SV{t: c.coerce(v, T), typ: T}
	}
	t := v.term()
	if t.sort == sortOf(T) {
		return SV{t: t, typ: T}
	}
	if t.sort == sInt && sortOf(T) == sReal {
		return SV{t: c.coerce(v, T), typ: T}
	}
	c.fail(x, "conversion to %s", tname(T))
	return SV{}
}

// pureTerms are the result terms of an extern declared pure.
func (e *Engine) pureTerms(name string, sig *types.Signature, args []*Term) []*Term {
	e.pureAxioms(name, sig)
	var out []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		T := sig.Results().At(i).Type()
		s := sortOf(T)
		if isByteSlice(T) {
			s = sString
		}
		out = append(out, App(fmt.Sprintf("pf|%s|%d", name, i), s, args...))
	}
	return out
}

var pureRegistered = map[string]bool{}

// pureAxioms makes the postconditions of a pure trusted function available for every application of it.
func (e *Engine) pureAxioms(name string, sig *types.Signature) {
	if pureRegistered[name] {
		return
	}
	pureRegistered[name] = true
	ex := e.specs.externs[name]
	if ex == nil || len(ex.byKind("ensures")) == 0 {
		return
	}
	ts := paramTypes(sig, nil)
	if len(ts) < len(ex.params) {
		ts = append([]types.Type{sig}, ts...)
	}
	fix := func(T types.Type) types.Type {
		if isByteSlice(T) {
			return tStrT
		}
		return T
	}
	for i := 0; i < sig.Results().Len(); i++ {
		addGroundAxiom(&GroundAxiom{name: "trusted contract of " + name, op: fmt.Sprintf("pf|%s|%d", name, i), gen: 3, facts: func(t *Term) []*Term {
			c := &evalCtx{e: e, h: snapshot{}, old: snapshot{}, env: map[string]SV{}, lets: ex.lets, bound: 1}
			for j, p := range ex.params {
				if j < len(t.args) {
					c.env[p] = SV{t: t.args[j], typ: fix(ts[j])}
				}
			}
			rs := e.pureTerms(name, sig, t.args)
			for j, r := range ex.results {
				c.env[r] = SV{t: rs[j], typ: fix(sig.Results().At(j).Type())}
			}
			var fs []*Term
			for _, cl := range ex.byKind("ensures") {
				fs = append(fs, c.boolean(cl.expr))
			}
			return fs
		}})
	}
}

func (c *evalCtx) pureCall(name string, sig *types.Signature, recv *SV, args []*Expr, x *Expr) SV {
	want := c.resIdx
	c.resIdx = 0
	ex := c.e.specs.externs[name]
	if ex == nil || len(ex.byKind("pure")) == 0 {
		c.fail(x, "%s is not a pure extern", name)
	}
	var ts []*Term
	if recv != nil {
		ts = append(ts, recv.term())
	}
	for i, a := range args {
		v := c.eval(a)
		if i < sig.Params().Len() {
			T := sig.Params().At(i).Type()
			if isByteSlice(T) && v.typ != nil && sortOf(v.typ) == sString {
				ts = append(ts, v.term())
				continue
			}
			if isByteSlice(T) {
				ts = append(ts, bytesToStr(c.h, v.term()))
				continue
			}
			ts = append(ts, c.coerce(v, T))
		} else {
			ts = append(ts, v.term())
		}
	}
	rs := c.e.pureTerms(name, sig, ts)
	T := sig.Results().At(want).Type()
	if isByteSlice(T) {
		T = tStrT
	}
	return c.note(SV{t: rs[want], typ: T})
}

func (c *evalCtx) specFunc(f *SpecFunc, args []*Expr, x *Expr) SV {
	if len(args) != len(f.params) {
		c.fail(x, "%s: wrong number of arguments", f.name)
	}
	var vs []SV
	for i, a := range args {
		st := c.stype(x, f.params[i].typ, f.sc)
		v := c.eval(a)
		if st.gk != nil {
			vs = append(vs, v)
			continue
		}
		if !f.rec && v.addr != nil && types.Identical(under(v.typ), under(st.typ)) {
			vs = append(vs, v) // keep lazily addressed structs
			continue
		}
		vs = append(vs, SV{t: c.coerce(v, st.typ), typ: st.typ})
	}
	return c.applySpecFunc(f, vs, x)
}

func (c *evalCtx) applySpecFunc(f *SpecFunc, vs []SV, x *Expr) SV {
	ret := c.stype(x, f.ret, f.sc)
	if f.body == nil {
		var ts []*Term
		for _, v := range vs {
			ts = append(ts, v.term())
		}
		return mkSV(App("sf|"+f.name, ret.sort(), ts...), ret)
	}
	if !f.rec {
		if c.depth > 60 {
			c.fail(x, "specification functions nested too deeply")
		}
		n := *c
		n.env = map[string]SV{}
		n.lets = nil
		n.depth++
		for i, p := range f.params {
			n.env[p.name] = vs[i]
		}
		v := n.eval(f.body)
		if ret.gk == nil && !(v.addr != nil) {
			v = SV{t: n.coerce(v, ret.typ), typ: ret.typ}
		}
		return v
	}
	c.prepareRec(f, x)
	if f.busy {
		return mkSV(Fresh("rec", ret.sort()), ret)
	}
	var ts []*Term
	for _, v := range vs {
		ts = append(ts, v.term())
	}
	for i, n := range f.comps {
		ts = append(ts, c.h.comp(n, f.csorts[i]))
	}
	return mkSV(App("rec|"+f.name, ret.sort(), ts...), ret)
}

type recView struct {
	f *SpecFunc
}

func (r *recView) comp(name string, s *Sort) *Term {
	for _, n := range r.f.comps {
		if n == name {
			return Var("recc|"+name, s)
		}
	}
	r.f.comps = append(r.f.comps, name)
	r.f.csorts = append(r.f.csorts, s)
	return Var("recc|"+name, s)
}

type argView struct {
	names []string
	terms []*Term
}

func (v *argView) comp(name string, s *Sort) *Term {
	for i, n := range v.names {
		if n == name {
			return v.terms[i]
		}
	}
	panic(specErr{"recursive specification function reads " + name + " unexpectedly"})
}

func (c *evalCtx) prepareRec(f *SpecFunc, x *Expr) {
	if f.ready || f.busy {
		return
	}
	f.busy = true
	ret := c.stype(x, f.ret, f.sc)
	n := &evalCtx{e: c.e, h: &recView{f}, env: map[string]SV{}, bound: 1, depth: c.depth + 1}
	n.old = n.h
	for _, p := range f.params {
		st := c.stype(x, p.typ, f.sc)
		n.env[p.name] = mkSV(Var("recp|"+p.name, st.sort()), st)
	}
	n.eval(f.body)
	f.busy = false
	f.ready = true
	e := c.e
	addGroundAxiom(&GroundAxiom{name: "definition of " + f.name, op: "rec|" + f.name, gen: 1, facts: func(t *Term) []*Term {
		m := &evalCtx{e: e, h: &argView{f.comps, t.args[len(f.params):]}, env: map[string]SV{}, bound: 1, depth: 1}
		m.old = m.h
		for i, p := range f.params {
			st, err := e.specType(p.typ, f.sc)
			if err != nil {
				panic(err)
			}
			m.env[p.name] = mkSV(t.args[i], st)
		}
		v := m.eval(f.body)
		b := v.term()
		if ret.gk == nil {
			b = m.coerce(v, ret.typ)
		}
		return []*Term{App("=", b.sort, t, b).asBool()}
	}})
}

func (t *Term) asBool() *Term { return Eq(t.args[0], t.args[1]) }

func (c *evalCtx) view(name string, x *Expr) heapView {
	var src map[string]snapshot
	if c.snaps != nil {
		src = c.snaps
	} else if c.st != nil {
		src = c.st.snaps
	}
	if s, ok := src[name]; ok {
		return s
	}
	panic(specErr{x.pos + ": no snapshot " + name})
}

func (c *evalCtx) builtin(name string, args []*Expr, x *Expr) (SV, bool) {
	n := len(args)
	str := func(i int) *Term {
		t := c.eval(args[i]).term()
		if t == nil || t.sort != sString {
			c.fail(x, "string expected")
		}
		return t
	}
	switch name {
	case "old":
		return c.with(c.old).eval(args[0]), true
	case "res":
		// res(f(args), i): the i-th result of a pure trusted function
		i, _ := new(big.Int).SetString(args[1].name, 10)
		n := *c
		n.resIdx = int(i.Int64())
		return n.eval(args[0]), true
	case "splitN":
		a, _ := splitTerms(str(0), str(1))
		return intSV(a), true
	case "splitAt":
		_, at := splitTerms(str(0), str(1))
		return strSV(at(c.eval(args[2]).term())), true
	case "header":
		return strSV(headerGet(c.e, c.h, c.eval(args[0]).term(), str(1))), true
	case "loopold":
		if c.loop == nil {
			c.fail(x, "loopold outside a loop candidate")
		}
		return c.with(c.loop).eval(args[0]), true
	case "locked", "unlocked", "relocked":
		return c.with(c.view(name, x)).eval(args[0]), true
	case "init":
		if v, ok := c.init[args[0].name]; ok {
			return v, true
		}
		c.fail(x, "init of an unknown loop variable")
	case "len":
		v := c.eval(args[0])
		switch under(v.typ).(type) {
		case *types.Basic:
			return intSV(StrLen(v.term())), true
		case *types.Slice:
			return intSV(SLen(v.term())), true
		case *types.Map:
			if c.st != nil && c.bound == 0 && c.h == heapView(c.st) {
				return intSV(c.e.mapLenFacts(c.st, v.typ, v.term())), true
			}
			return intSV(mapLen(c.h, v.typ, v.term())), true
		}
		c.fail(x, "len")
	case "cap":
		return intSV(SCap(c.eval(args[0]).term())), true
	case "backing":
		return intSV(SRef(c.eval(args[0]).term())), true
	case "offset":
		return intSV(SOff(c.eval(args[0]).term())), true
	case "ref":
		return intSV(c.eval(args[0]).term()), true
	case "ite":
		b := c.boolean(args[0])
		if b == tTrue {
			return c.eval(args[1]), true
		}
		if b == tFalse {
			return c.eval(args[2]), true
		}
		a, d := c.eval(args[1]), c.eval(args[2])
		if a.nilv {
			a = SV{t: zeroOfSort(d.term().sort), typ: d.typ}
		}
		if d.nilv {
			d = SV{t: zeroOfSort(a.term().sort), typ: a.typ}
		}
		return SV{t: Ite(b, a.term(), d.term()), typ: a.typ, gk: a.gk, gv: a.gv}, true
	case "ufs", "ufb", "ufi":
		// ufs(name, args...): an uninterpreted function used by the models
		var ts []*Term
		for _, a := range args[1:] {
			ts = append(ts, c.eval(a).term())
		}
		switch name {
		case "ufs":
			return strSV(App(args[0].name, sString, ts...)), true
		case "ufb":
			return boolSV(App(args[0].name, sBool, ts...)), true
		}
		return intSV(App(args[0].name, sInt, ts...)), true
	case "past":
		// past(s, c): what follows c in a text that is written as c followed by something, else s itself
		if t := str(0); t.op == "str.++" && t.args[0].op == "str" && str(1).op == "str" && strings.HasPrefix(t.args[0].str, str(1).str) {
			return strSV(Concat(append([]*Term{StrC(t.args[0].str[len(str(1).str):])}, t.args[1:]...)...)), true
		}
		return strSV(str(0)), true
	case "hasPrefix":
		return boolSV(StrPrefix(str(0), str(1))), true
	case "hasSuffix":
		return boolSV(StrSuffix(str(0), str(1))), true
	case "contains":
		return boolSV(StrContains(str(0), str(1))), true
	case "indexOf":
		return intSV(StrIndex(str(0), str(1))), true
	case "calls":
		return intSV(c.h.comp(ghostCount(args[0].name), sInt)), true
	case "arg", "first":
		ev := c.e.specs.events[args[0].name]
		if ev == nil {
			c.fail(x, "unknown event %s", args[0].name)
		}
		for i, p := range ev.params {
			if p.name == args[1].name {
				st := c.stype(x, p.typ, ev.sc)
				g := ghostArg(ev.name, i)
				if x.args[0].name == "first" {
					g = ghostFirst(ev.name, i)
				}
				v := mkSV(c.h.comp(g, st.sort()), st)
				return v, true
			}
		}
		c.fail(x, "event %s has no argument %s", ev.name, args[1].name)
	case "born":
		// nil or allocated by the call the contract describes
		t := c.eval(args[0]).term()
		if c.born == nil {
			c.fail(x, "only in the contract of a trusted function")
		}
		return boolSV(Or(Eq(t, IntC(0)), And(Le(c.born, t), Lt(t, c.st.next())))), true
	case "fresh":
		t := c.eval(args[0]).term()
		if t.sort == sSlice {
			t = SRef(t)
		}
		if c.e.run == nil || c.e.run.next0 == nil {
			return boolSV(tTrue), true
		}
		return boolSV(Le(c.e.run.next0, t)), true
	case "allocated":
		// the object exists by now
		t := c.eval(args[0]).term()
		if t.sort == sSlice {
			t = SRef(t)
		}
		if c.st == nil {
			c.fail(x, "allocated() has no state here")
		}
		return boolSV(Lt(t, c.st.next())), true
	case "visited":
		it := c.iterState(x)
		return boolSV(Select(it.visited, c.coerce(c.eval(args[0]), under(it.mapType).(*types.Map).Key()))), true
	case "ranged":
		it := c.iterState(x)
		return SV{t: it.ref, typ: it.mapType}, true
	case "nvisited":
		return intSV(c.iterState(x).count), true
	case "box":
		v := c.eval(args[0])
		return SV{t: boxIface(v.typ, v.term()), typ: universeTypes["any"]}, true
	case "method":
		// method(recv, "Name"): the bound method value recv.Name
		v := c.eval(args[0])
		obj, _, _ := types.LookupFieldOrMethod(v.typ, true, pkgOfType(v.typ), args[1].name)
		m, ok := obj.(*types.Func)
		if !ok {
			c.fail(x, "no method %s", args[1].name)
		}
		sig := m.Type().(*types.Signature)
		T := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
		return SV{t: c.e.boundTerm(m, v.term()), typ: T}, true
	case "recv":
		// recv(h, "pkg.(*T).M"): the receiver when h is the bound method value x.M, its zero value when it is another function
		fn := c.e.findFunc(args[1].name)
		if fn == nil || fn.Signature.Recv() == nil {
			c.fail(x, "no method %s", args[1].name)
		}
		m := fn.Object().(*types.Func)
		RT := fn.Signature.Recv().Type()
		none := zeroTerm(RT)
		op := c.e.boundTerm(m, none).op
		var find func(t *Term) *Term
		find = func(t *Term) *Term {
			switch {
			case t.op == "ite":
				return Ite(t.args[0], find(t.args[1]), find(t.args[2]))
			case t.op == op:
				return t.args[0]
			case strings.HasPrefix(t.op, "box_") && t.args[0].sort == sFn:
				return find(t.args[0])
			case strings.HasPrefix(t.op, "clo|"), strings.HasPrefix(t.op, "box_"), t == fnNil, t == anyNil:
				return none
			}
			return App("recv|"+op, none.sort, t)
		}
		return SV{t: find(c.eval(args[0]).term()), typ: RT}, true
	case "sprintf", "sprint", "sprintln":
		var ts []*Term
		for i, a := range args {
			v := c.eval(a)
			if name == "sprintf" && i == 0 {
				ts = append(ts, v.term())
				continue
			}
			ts = append(ts, c.coerce(v, universeTypes["any"]))
		}
		return strSV(formatTerm(name, ts)), true
	case "address":
		v := c.eval(args[0])
		if v.addr == nil {
			c.fail(x, "address of something that has none")
		}
		return SV{t: v.addr, typ: types.NewPointer(v.typ)}, true
	case "canon":
		return strSV(canonKey(str(0))), true
	case "safeData":
		return boolSV(safeData(c.eval(args[0]).term())), true
	case "safeText":
		return boolSV(safeText(str(0))), true
	case "str":
		v := c.eval(args[0])
		return strSV(bytesToStr(c.h, v.term())), true
	case "atoi", "itoa":
		return strSV(App("itoa", sString, c.eval(args[0]).term())), true
	case "store":
		m, k, v := c.eval(args[0]), c.eval(args[1]), c.eval(args[2])
		return SV{t: Store(m.t, c.coerce(k, m.gk), c.coerce(v, m.gv)), gk: m.gk, gv: m.gv}, true
	case "constmap":
		// constmap(zero) cannot infer its key type; used through ghost initialisers only
	case "unchanged":
		a, b := c.eval(args[0]), c.with(c.old).eval(args[0])
		return boolSV(Eq(a.term(), b.term())), true
	case "sameMap":
		// the map's content is what it was
		a := c.eval(args[0])
		r := a.term()
		d1 := Select(c.h.comp(mapDomComp(a.typ), mapDomSort(a.typ)), r)
		d0 := Select(c.old.comp(mapDomComp(a.typ), mapDomSort(a.typ)), r)
		v1 := Select(c.h.comp(mapValComp(a.typ), mapValSort(a.typ)), r)
		v0 := Select(c.old.comp(mapValComp(a.typ), mapValSort(a.typ)), r)
		return boolSV(And(Eq(d1, d0), Eq(v1, v0))), true
	case "held":
		v := c.eval(args[0])
		if c.st == nil || v.addr == nil {
			c.fail(x, "held(lock field)")
		}
		var cs []*Term
		for a := range c.st.held {
			cs = append(cs, Eq(a, v.addr))
		}
		return boolSV(Or(cs...)), true
	}
	_ = n
	return SV{}, false
}

func (c *evalCtx) iterState(x *Expr) *iterState {
	if c.st == nil || c.iter == 0 || c.st.iters[c.iter] == nil || c.st.iters[c.iter].isStr {
		c.fail(x, "no map iteration here")
	}
	return c.st.iters[c.iter]
}

// ---- entry points used by the engine

func (e *Engine) ctx(st *State) *evalCtx {
	c := &evalCtx{e: e, st: st, h: st, env: map[string]SV{}}
	c.old = snapshot{}
	if e.run != nil {
		c.old = e.run.old
		for k, v := range e.run.env {
			c.env[k] = v
		}
		c.lets = e.run.c.lets
		c.sc = e.run.c.sc
	}
	return c
}

func (e *Engine) specTerm(st *State, old heapView, x *Expr, env map[string]SV) *Term {
	c := &evalCtx{e: e, st: st, h: st, old: old, env: env}
	if old == nil {
		c.old = snapshot{}
	}
	return c.boolean(x)
}

// emit records a ghost event after checking the contract's assertions about it.
func (e *Engine) emit(st *State, kind string, args []*Term, pos token.Pos) {
	if e.run != nil {
		ev := e.specs.events[kind]
		env := map[string]SV{}
		if ev != nil {
			for i, p := range ev.params {
				if i < len(args) {
					t, err := e.specType(p.typ, ev.sc)
					if err != nil {
						panic(specErr{err.Error()})
					}
					env[p.name] = mkSV(args[i], t)
				}
			}
		}
		for _, cl := range e.run.c.byKind("on") {
			if cl.event != kind || cl.name != "assert" {
				continue
			}
			e.oblige(st, "event", "at "+kind+": "+cl.text, cl.tags, e.ctx(st).bind(env).boolean(cl.expr), pos)
		}
		st.event(kind, args)
		for _, cl := range e.run.c.byKind("on") {
			if cl.event == kind && cl.name == "assume" {
				st.assume(e.ctx(st).bind(env).boolean(cl.expr))
			}
		}
		for _, cl := range e.run.c.byKind("on") {
			if cl.event != kind || cl.name != "update" {
				continue
			}
			c := e.ctx(st).bind(env)
			g := cl.metas[0].name
			gt, ok := e.run.ghosts[g]
			if !ok {
				panic(specErr{cl.pos + ": unknown ghost " + g})
			}
			v := c.eval(cl.expr)
			if len(cl.args) > 0 {
				cur := st.comp("G|v|"+g, gt.sort())
				st.setGhost("G|v|"+g, Store(cur, c.coerce(c.eval(cl.args[0]), gt.gk), c.coerce(v, gt.gv)))
			} else {
				st.setGhost("G|v|"+g, c.coerce(v, gt.typ))
			}
		}
		return
	}
	st.event(kind, args)
}

func (e *Engine) emitClause(st *State, c *evalCtx, cl *Clause, pos token.Pos) {
	ev := e.specs.events[cl.event]
	if ev == nil {
		panic(specErr{cl.pos + ": unknown event " + cl.event})
	}
	var ts []*Term
	for i, a := range cl.args {
		t, err := e.specType(ev.params[i].typ, ev.sc)
		if err != nil {
			panic(specErr{cl.pos + ": " + err.Error()})
		}
		ts = append(ts, c.coerce(c.eval(a), t.typ))
	}
	e.emit(st, cl.event, ts, pos)
}

func paramTypes(sig *types.Signature, extra types.Type) []types.Type {
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	} else if extra != nil {
		ts = append(ts, extra)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

func (e *Engine) applyExtern(st *State, ex *Extern, args []Val, sig *types.Signature, pos token.Pos, k Cont) {
	e.usedExterns[ex.name] = true
	ts := paramTypes(sig, nil)
	if len(ts) < len(args) {
		var first types.Type = sig
		if strings.HasPrefix(ex.name, "call ") {
			if T := e.namedFuncType(ex.name[5:]); T != nil {
				first = T
			}
		}
		ts = append([]types.Type{first}, ts...)
	}
	env := map[string]SV{}
	var ats []*Term
	pure := len(ex.byKind("pure")) > 0
	for i, a := range args {
		var t *Term
		if a.pl != nil && a.pl.cell != nil {
			// the address of a local variable passed to trusted code: the callee may write it
			st.placeWrite(a.pl, st.freshTerm("out", a.pl.typ))
			continue
		}
		t = a.term()
		if i < len(ex.params) {
			env[ex.params[i]] = SV{t: t, typ: ts[i]}
		}
		if pure {
			if isByteSlice(ts[i]) {
				t = bytesToStr(st, t)
			}
			ats = append(ats, t)
		}
	}
	old := st.snap()
	next0 := st.next()
	mk := func() *evalCtx {
		return &evalCtx{e: e, st: st, h: st, old: old, env: env, lets: ex.lets, born: next0}
	}
	private := len(ex.byKind("private")) > 0
	if private {
		// everything the arguments hold afterwards was allocated by the call
		st.newBase("next")
		for _, cl := range ex.byKind("private") {
			for _, a := range cl.args {
				if t := mk().eval(a).term(); strings.HasPrefix(t.op, "box_") && typeByName[t.op[4:]] != nil {
					st.newMaps(typeByName[t.op[4:]], next0, map[string]bool{})
				}
			}
		}
	}
	for _, cl := range ex.byKind("requires") {
		tags := cl.tags
		if len(tags) == 0 {
			tags = e.safetyTags()
		}
		e.oblige(st, "precondition", ex.name+" requires "+cl.text, tags, mk().boolean(cl.expr), pos)
	}
	if len(ex.byKind("exits")) > 0 {
		for _, cl := range ex.byKind("emits") {
			e.emitClause(st, mk(), cl, pos)
		}
		e.exit(st, ex.name, pos)
		return
	}
	for _, cl := range ex.byKind("havocs") {
		for _, a := range cl.args {
			v := mk().eval(a)
			if v.addr != nil {
				e.havocStruct(st, v.typ, v.addr)
			} else {
				e.havocArg(st, mkVal(v.t, v.typ), v.typ)
			}
		}
	}
	var res []Val
	if pure {
		for i, t := range e.pureTerms(ex.name, sig, ats) {
			T := sig.Results().At(i).Type()
			if isByteSlice(T) {
				t = st.newBytes(t)
			}
			st.note(t, T)
			res = append(res, mkVal(t, T))
		}
	} else {
		if sig.Results().Len() > 0 {
			st.newBase("next")
		}
		res = e.freshResults(st, ex.name, sig)
	}
	for i, r := range res {
		if i < len(ex.results) {
			env[ex.results[i]] = SV{t: r.term(), typ: sig.Results().At(i).Type()}
		}
	}
	if !pure {
		e.allocates(st, ex.byKind("allocates"), next0, mk)
		if private {
			st.private = append(st.private, [2]*Term{next0, st.next()})
		}
		for _, cl := range ex.byKind("ensures") {
			st.assume(mk().boolean(cl.expr))
		}
	}
	var emits func(i int)
	cls := ex.byKind("emits")
	emits = func(i int) {
		for ; i < len(cls); i++ {
			if cls[i].expr != nil {
				b := mk().boolean(cls[i].expr)
				cl := cls[i]
				rest := i + 1
				e.fork(st, b, "", func(s *State) {
					st = s
					e.emitClause(s, mk(), cl, pos)
					emits(rest)
				}, func(s *State) {
					st = s
					emits(rest)
				})
				return
			}
			e.emitClause(st, mk(), cls[i], pos)
		}
		k(st, res)
	}
	emits(0)
}

func usesSnapshots(x *Expr) bool {
	if x == nil {
		return false
	}
	if x.op == "ident" && (x.name == "locked" || x.name == "unlocked" || x.name == "relocked" || x.name == "calls" || x.name == "arg" || x.name == "first") {
		return true
	}
	for _, a := range x.args {
		if usesSnapshots(a) {
			return true
		}
	}
	return false
}

func letsUse(c *Contract, x *Expr, depth int) bool {
	if x == nil || depth > 10 {
		return false
	}
	if x.op == "ident" {
		if l, ok := c.lets[x.name]; ok {
			return usesSnapshots(l) || letsUse(c, l, depth+1)
		}
	}
	for _, a := range x.args {
		if letsUse(c, a, depth+1) {
			return true
		}
	}
	return false
}

// applyContract uses a verified function's contract at a call site.
func (e *Engine) applyContract(st *State, c *Contract, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
	e.usedContracts[c.name] = true
	env := map[string]SV{}
	for i, p := range fn.Params {
		if i < len(c.params) {
			env[c.params[i]] = SV{t: args[i].term(), typ: p.Type()}
		}
	}
	old := st.snap()
	mk := func() *evalCtx {
		return &evalCtx{e: e, st: st, h: st, old: old, env: env, lets: c.lets, sc: c.sc}
	}
	for _, cl := range c.byKind("requires") {
		e.oblige(st, "precondition", c.name+" requires "+cl.text, cl.tags, mk().boolean(cl.expr), pos)
	}
	for _, cl := range c.byKind("holds") {
		la := mk().lockAddr(cl.expr)
		var cs []*Term
		for a, m := range st.held {
			if a.op == la.op && (m == "W" || cl.name == "R") {
				cs = append(cs, Eq(a, la))
			}
		}
		e.oblige(st, "lock", c.name+" is called with "+cl.text+" held", []string{"C11"}, Or(cs...), pos)
	}
	for _, cl := range c.byKind("aborts") {
		b := mk().boolean(cl.expr)
		if b != tFalse {
			a := st.clone()
			a.assume(b)
			if e.feasible(a) {
				e.onAbort(a, "exit", c.name+" may abort", pos)
			}
		}
	}
	next0 := st.next()
	st.private = nil
	st.newBase("next")
	for _, cl := range c.byKind("modifies") {
		for _, a := range cl.args {
			e.havocTarget(st, mk(), a)
		}
	}
	sig := fn.Signature
	res := e.freshResults(st, c.name, sig)
	for i, r := range res {
		if i >= len(c.results) {
			break
		}
		T := sig.Results().At(i).Type()
		v := SV{t: r.term(), typ: T}
		// a result the contract defines by an equation is that term
		if r.t != nil {
			for _, cl := range c.byKind("ensures") {
				if usesSnapshots(cl.expr) || letsUse(c, cl.expr, 0) {
					continue
				}
				cond, def := defines(cl.expr, c.results[i])
				if def == nil {
					continue
				}
				cx := mk()
				dv, ok := tryEval(cx, def, T)
				if !ok {
					continue
				}
				b := tTrue
				if cond != nil {
					var err string
					if b, err = tryBool(cx, cond); err != "" {
						continue
					}
				}
				v.t = Ite(b, dv, v.t)
				res[i] = mkVal(v.t, T)
				st.note(v.t, T)
				break
			}
		}
		env[c.results[i]] = v
	}
	e.allocates(st, c.byKind("allocates"), next0, mk)
	for _, cl := range c.byKind("ensures") {
		if usesSnapshots(cl.expr) || letsUse(c, cl.expr, 0) {
			continue
		}
		st.assume(mk().boolean(cl.expr))
	}
	{
		// the callee may emit low-level events its contract does not describe
		for name, ev := range e.specs.events {
			if c.declares(name) || !c.mayEmit(name) && !ev.silent {
				continue
			}
			st.setGhost(ghostCount(name), Fresh("events", sInt))
			for i, p := range ev.params {
				T, err := e.specType(p.typ, ev.sc)
				if err != nil {
					panic(specErr{err.Error()})
				}
				st.setGhost(ghostArg(name, i), Fresh("eventarg", T.sort()))
				st.setGhost(ghostFirst(name, i), Fresh("eventarg", T.sort()))
			}
		}
	}
	for _, cl := range c.byKind("calls") {
		for _, a := range cl.args {
			e.emitClause(st, mk(), &Clause{event: a.args[0].name, args: a.args[1:], pos: cl.pos}, pos)
		}
	}
	cls := c.byKind("emits")
	var emits func(st *State, i int)
	emits = func(st *State, i int) {
		if i == len(cls) {
			k(st, res)
			return
		}
		c2 := &evalCtx{e: e, st: st, h: st, old: old, env: env, lets: c.lets}
		if cls[i].expr == nil {
			e.emitClause(st, c2, cls[i], pos)
			emits(st, i+1)
			return
		}
		e.fork(st, c2.boolean(cls[i].expr), "", func(s *State) {
			e.emitClause(s, &evalCtx{e: e, st: s, h: s, old: old, env: env, lets: c.lets}, cls[i], pos)
			emits(s, i+1)
		}, func(s *State) { emits(s, i+1) })
	}
	emits(st, 0)
}

// defines: is the clause of the form r == E, r <==> E or C ==> r == E?
func defines(x *Expr, r string) (cond, def *Expr) {
	if x.op != "binary" {
		return nil, nil
	}
	switch x.name {
	case "==", "<==>":
		if a := x.args[0]; a.op == "ident" && a.name == r {
			return nil, x.args[1]
		}
	case "==>":
		if c, d := defines(x.args[1], r); d != nil && c == nil {
			return x.args[0], d
		}
	}
	return nil, nil
}

func tryEval(c *evalCtx, x *Expr, T types.Type) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(specErr); is {
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	if sortOf(T) == sBool {
		return c.boolean(x), true
	}
	return c.coerce(c.eval(x), T), true
}

// mayEmit: does the contract allow unspecified occurrences of event name (modifies events, modifies event(name))?
func (c *Contract) mayEmit(name string) bool {
	for _, cl := range c.byKind("modifies") {
		for _, a := range cl.args {
			if a.op == "ident" && a.name == "events" || isEventTarget(a) && a.args[1].name == name {
				return true
			}
		}
	}
	return false
}

func isEventTarget(a *Expr) bool {
	return a.op == "call" && a.args[0].op == "ident" && a.args[0].name == "event"
}

// declares: does the contract describe event name?
func (c *Contract) declares(name string) bool {
	for _, cl := range c.byKind("calls") {
		for _, a := range cl.args {
			if a.args[0].name == name {
				return true
			}
		}
	}
	for _, cl := range c.byKind("emits") {
		if cl.event == name {
			return true
		}
	}
	return false
}

// target is a modifiable location of a modifies clause.
type target struct {
	comp string
	ref  *Term
}

func (e *Engine) targets(c *evalCtx, x *Expr) []target {
	if x.op == "ident" && (x.name == "nothing" || x.name == "events") || isEventTarget(x) {
		return nil
	}
	if x.op == "call" && x.args[0].op == "ident" && x.args[0].name == "contents" {
		v := c.eval(x.args[1])
		switch u := under(v.typ).(type) {
		case *types.Map:
			r := v.term()
			return []target{{mapDomComp(v.typ), r}, {mapValComp(v.typ), r}, {mapLenComp(v.typ), r}}
		case *types.Slice:
			return []target{{arrComp(u.Elem()), SRef(v.term())}}
		}
		c.fail(x, "contents of a map or slice expected")
	}
	if x.op == "call" && x.args[0].op == "ident" && x.args[0].name == "all" {
		// all(T): the fields of every variable of the struct type T
		name := x.args[1].name
		if x.args[1].op == "sel" {
			name = x.args[1].args[0].name + "." + name
		}
		T, err := e.specType(name, c.sc)
		if err != nil {
			c.fail(x, "%s", err)
		}
		var out []target
		var walk func(T types.Type)
		walk = func(T types.Type) {
			u := under(T).(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				switch ft := u.Field(i).Type(); {
				case isStruct(ft):
					walk(ft)
				case isArray(ft):
				default:
					initialComp(fieldComp(T, i), "", arraySort(sInt, sortOf(ft)))
					out = append(out, target{fieldComp(T, i), nil})
				}
			}
		}
		walk(T.typ)
		return out
	}
	if x.op == "sel" {
		base := c.eval(x.args[0])
		T := base.typ
		ref := base.addr
		if p, ok := under(T).(*types.Pointer); ok {
			T = p.Elem()
			ref = base.term()
		}
		if ref == nil {
			c.fail(x, "not a location")
		}
		u := under(T).(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == x.name {
				ft := u.Field(i).Type()
				var out []target
				if isStruct(ft) || isArray(ft) {
					leafComps(ft, subAddr(T, i, ref), func(cn string, r *Term) { out = append(out, target{cn, r}) })
					return out
				}
				return []target{{fieldComp(T, i), ref}}
			}
		}
	}
	c.fail(x, "not a location")
	return nil
}

func (e *Engine) havocTarget(st *State, c *evalCtx, x *Expr) {
	if x.op == "call" && x.args[0].op == "ident" && x.args[0].name == "contents" {
		v := c.eval(x.args[1])
		if isMap(v.typ) {
			e.havocMap(st, v.typ, v.term())
			return
		}
		e.havocArg(st, Val{t: v.term()}, v.typ)
		return
	}
	for _, t := range e.targets(c, x) {
		if t.ref == nil {
			{
				s := compSorts[t.comp]
				st.comps[t.comp] = heapRoot(Fresh("mod", s), t.comp, st.next())
				st.writes = append(st.writes, writeRec{comp: t.comp, whole: true, ref: IntC(0)})
			}
			continue
		}
		if compSorts[t.comp] == nil {
			v := c.eval(x) // creates the component
			_ = v.term()
		}
		h := st.comp(t.comp, compSorts[t.comp])
		st.write(t.comp, t.ref, Store(h, t.ref, heapRoot(Fresh("mod", h.sort.v), t.comp, st.next())))
	}
}

// contractCandidates instantiates the contract's candidate invariants for one loop.
func (e *Engine) contractCandidates(entry, h *State, l *Loop, mvs []metavar, m *modset) []*candInv {
	var out []*candInv
	all := append(append([]metavar(nil), mvs...), e.outerMeta(h)...)
	var bools []metavar
	for _, v := range mvs {
		if v.get(h).sort == sBool {
			bools = append(bools, v)
		}
	}
	iters := []int{}
	for id := range m.iters {
		if entry.iters[id] != nil && !entry.iters[id].isStr {
			iters = append(iters, id)
		}
	}
	// the keys of a map known to have just a few
	for _, id := range iters {
		it := entry.iters[id]
		kt := under(it.mapType).(*types.Map).Key()
		for _, k := range constKeys(it.dom0) {
			k := k
			all = append(all, metavar{"key " + k.String(), kt, func(*State) *Term { return k }})
		}
	}
	// iterators of enclosing loops may be mentioned too
	for id, it := range entry.iters {
		if !it.isStr && !m.iters[id] && len(iters) == 0 && (it.visited.op == "var" || it.visited.op == "store") {
			iters = append(iters, id)
		}
	}
	if len(iters) == 0 {
		iters = []int{0}
	}
	for _, cl := range e.run.c.byKind("candidate") {
		cl := cl
		var rec func(i int, chosen []metavar)
		rec = func(i int, chosen []metavar) {
			if i < len(cl.metas) {
				T, err := e.specType(cl.metas[i].typ, e.run.c.sc)
				if err != nil {
					panic(specErr{cl.pos + ": " + err.Error()})
				}
				for _, v := range all {
					if types.Identical(v.typ, T.typ) || isFuncSort(v.typ) && isFuncSort(T.typ) && types.Identical(under(v.typ), under(T.typ)) {
						dup := false
						for _, o := range chosen {
							if o.name == v.name && o.get(h) == v.get(h) {
								dup = true
							}
						}
						if !dup {
							rec(i+1, append(append([]metavar(nil), chosen...), v))
						}
					}
				}
				return
			}
			for _, it := range iters {
				it := it
				f := func(st *State) *Term {
					c := e.ctx(st)
					c.loop = entry
					c.iter = it
					c.init = map[string]SV{}
					env := map[string]SV{}
					for j, v := range chosen {
						env[cl.metas[j].name] = SV{t: v.get(st), typ: v.typ}
						c.init[cl.metas[j].name] = SV{t: v.get(entry), typ: v.typ}
					}
					return c.bind(env).boolean(cl.expr)
				}
				name := cl.text
				for j, v := range chosen {
					name += fmt.Sprintf(" [%s=%s]", cl.metas[j].name, v.name)
				}
				safe := func(f func(st *State) *Term) bool {
					ok := true
					func() {
						defer func() {
							if r := recover(); r != nil {
								if _, is := r.(specErr); is {
									ok = false
									return
								}
								if _, is := r.(unsupportedErr); is {
									ok = false
									return
								}
								panic(r)
							}
						}()
						f(h.clone())
						f(entry.clone())
					}()
					return ok
				}
				if !safe(f) {
					continue
				}
				out = append(out, &candInv{name: name, f: f, spec: true})
				for _, b := range bools {
					b := b
					out = append(out, &candInv{name: b.name + " or " + name, f: func(st *State) *Term { return Or(b.get(st), f(st)) }})
					out = append(out, &candInv{name: "!" + b.name + " or " + name, f: func(st *State) *Term { return Or(Not(b.get(st)), f(st)) }})
				}
			}
		}
		rec(0, nil)
	}
	return out
}

func isFuncSort(t types.Type) bool { _, ok := under(t).(*types.Signature); return ok }
