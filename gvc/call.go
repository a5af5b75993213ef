package main

// Calls: builtins, interface dispatch, closures, trusted externs, modular contracts, locks.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) call(st *State, c *ssa.CallCommon, fv Val, args []Val, pos token.Pos, k Cont) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		e.builtin(st, b, c, args, pos, k)
		return
	}
	if c.IsInvoke() {
		e.invoke(st, fv.term(), c.Value.Type(), c.Method, args, pos, k)
		return
	}
	if fn, ok := c.Value.(*ssa.Function); ok {
		e.callFn(st, fn, args, nil, pos, k)
		return
	}
	e.callDynamic(st, fv.term(), c.Value.Type(), args, pos, k)
}

func namedName(t types.Type) string { return tname(t) }

// invoke calls an interface method.
func (e *Engine) invoke(st *State, recv *Term, it types.Type, m *types.Func, args []Val, pos token.Pos, k Cont) {
	if recv.op == "ite" {
		e.fork(st, recv.args[0], "", func(st *State) { e.invoke(st, recv.args[1], it, m, args, pos, k) },
			func(st *State) { e.invoke(st, recv.args[2], it, m, args, pos, k) })
		return
	}
	if strings.HasPrefix(recv.op, "box_") {
		T := typeByName[recv.op[4:]]
		if T == nil {
			T = e.lookupTypeName(recv.op[4:])
		}
		if T != nil {
			fn := e.prog.LookupMethod(T, m.Pkg(), m.Name())
			if fn != nil {
				e.callFn(st, fn, append([]Val{mkVal(recv.args[0], T)}, args...), nil, pos, k)
				return
			}
		}
	}
	e.safe(st, "nil interface call of "+m.Name(), Neq(recv, anyNil), pos)
	// values known to be one concrete type on this path
	name := "(" + ifaceOwner(it, m) + ")." + m.Name()
	sig := m.Type().(*types.Signature)
	if ex := e.specs.externs[name]; ex != nil {
		e.applyExtern(st, ex, append([]Val{{t: recv}}, args...), sig, pos, k)
		return
	}
	e.unknownCall(st, name, sig, args, pos, k)
}

// ifaceOwner names the interface type that declares method m.
func ifaceOwner(it types.Type, m *types.Func) string {
	if r := m.Type().(*types.Signature).Recv(); r != nil {
		if n, ok := r.Type().(*types.Named); ok {
			return tname(n)
		}
	}
	return tname(it)
}

func (e *Engine) lookupTypeName(n string) types.Type { return nil }

// callDynamic calls a function value.
func (e *Engine) callDynamic(st *State, f *Term, T types.Type, args []Val, pos token.Pos, k Cont) {
	if f.op == "ite" {
		e.fork(st, f.args[0], "", func(st *State) { e.callDynamic(st, f.args[1], T, args, pos, k) },
			func(st *State) { e.callDynamic(st, f.args[2], T, args, pos, k) })
		return
	}
	if ci := closures[f]; ci != nil {
		e.callFn(st, ci.fn, args, ci.bind, pos, k)
		return
	}
	if v, ok := st.pinned[f]; ok {
		e.callDynamic(st, v.t, T, args, pos, k)
		return
	}
	e.safe(st, "call of a nil function", Neq(f, fnNil), pos)
	// split on closures this value may be equal to
	if cands := e.pinCandidates(st, f); len(cands) > 0 {
		var rec func(st *State, i int)
		rec = func(st *State, i int) {
			if i == len(cands) {
				e.opaqueCall(st, f, T, args, pos, k)
				return
			}
			e.fork(st, App("=", sBool, f, cands[i]), "", func(st *State) {
				st.pinned[f] = Val{t: cands[i]}
				e.callDynamic(st, f, T, args, pos, k)
			}, func(st *State) { rec(st, i+1) })
		}
		rec(st, 0)
		return
	}
	e.opaqueCall(st, f, T, args, pos, k)
}

// pinCandidates: closures f is compared with in the path condition (through invariants).
func (e *Engine) pinCandidates(st *State, f *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, p := range st.pc {
		if p.quant {
			continue
		}
		subterms(p, seen, func(t *Term) {
			if t.op == "=" && t.args[0].sort == sFn {
				a, b := t.args[0], t.args[1]
				if b == f {
					a, b = b, a
				}
				if a == f && closures[b] != nil {
					for _, o := range out {
						if o == b {
							return
						}
					}
					out = append(out, b)
				}
			}
		})
	}
	return out
}

func (e *Engine) opaqueCall(st *State, f *Term, T types.Type, args []Val, pos token.Pos, k Cont) {
	sig := under(T).(*types.Signature)
	for _, n := range []string{"call " + tname(T), "call " + tname(sigNoNames(sig))} {
		if ex := e.specs.externs[n]; ex != nil {
			e.applyExtern(st, ex, append([]Val{{t: f}}, args...), sig, pos, k)
			return
		}
	}
	e.unknownCall(st, "call "+tname(sigNoNames(sig)), sig, args, pos, k)
}

func sigNoNames(s *types.Signature) types.Type {
	strip := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewVar(token.NoPos, nil, "", t.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, strip(s.Params()), strip(s.Results()), s.Variadic())
}

// isRepo: functions whose source is verified rather than trusted.
func isRepoPkg(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), "github.com/redmaner/MaguroHTTP")
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
	}
	return nil
}

func (e *Engine) callFn(st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos, k Cont) {
	name := fn.String()
	if strings.HasSuffix(name, ".init") && fn.Synthetic != "" {
		k(st, nil) // initialisers of imported packages
		return
	}
	if m := models[name]; m != nil {
		e.usedExterns[name] = true
		m(e, st, fn, args, pos, k)
		return
	}
	if b := e.modelBody(name); b != nil {
		e.usedExterns[name] = true
		e.callFunction(st, b, args, bind, pos, k)
		return
	}
	if ex := e.specs.externs[name]; ex != nil {
		e.applyExtern(st, ex, args, fn.Signature, pos, k)
		return
	}
	if c := e.specs.modular[name]; c != nil && !(e.run != nil && e.run.c.hidden(c)) && len(bind) == 0 {
		if e.run == nil || e.run.entryFn != fn || len(st.frames) > 0 {
			e.applyContract(st, c, fn, args, pos, k)
			return
		}
	}
	if len(fn.Blocks) > 0 && (isRepoPkg(fnPkg(fn)) || fn.Synthetic != "") {
		e.callFunction(st, fn, args, bind, pos, k)
		return
	}
	e.unknownCall(st, name, fn.Signature, args, pos, k)
}

// unknownCall over-approximates a function without contract: results arbitrary, memory passed to it arbitrary.
func (e *Engine) unknownCall(st *State, name string, sig *types.Signature, args []Val, pos token.Pos, k Cont) {
	if e.mode == modeReal {
		e.unmodelled[name] = true
	}
	ps := sig.Params()
	for i, a := range args {
		var T types.Type
		j := i
		if len(args) > ps.Len() {
			j = i - 1 // receiver first
		}
		if j >= 0 && j < ps.Len() {
			T = ps.At(j).Type()
		} else if sig.Recv() != nil {
			T = sig.Recv().Type()
		}
		if T == nil {
			continue
		}
		e.havocArg(st, a, T)
	}
	st.event("unmodelled", nil)
	k(st, e.freshResults(st, name, sig))
}

func (e *Engine) freshResults(st *State, name string, sig *types.Signature) []Val {
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		T := sig.Results().At(i).Type()
		res = append(res, mkVal(st.freshTerm(lastName(name), T), T))
	}
	return res
}

func lastName(n string) string {
	if i := strings.LastIndexAny(n, "./"); i >= 0 {
		return n[i+1:]
	}
	return n
}

// havocArg makes memory directly reachable from an argument arbitrary.
func (e *Engine) havocArg(st *State, v Val, T types.Type) {
	switch u := under(T).(type) {
	case *types.Slice:
		if v.t == nil || isStruct(u.Elem()) {
			return
		}
		c := arrComp(u.Elem())
		s := arraySort(sInt, arraySort(sInt, sortOf(u.Elem())))
		h := st.comp(c, s)
		ref := SRef(v.t)
		st.write(c, ref, Store(h, ref, Fresh("havoc", s.v)))
	case *types.Map:
		if v.t == nil {
			return
		}
		e.havocMap(st, T, v.t)
	case *types.Pointer:
		if v.pl != nil {
			nv := st.freshTerm("havoc", u.Elem())
			st.placeWrite(v.pl, nv)
			return
		}
		if v.t != nil && isStruct(u.Elem()) && strings.Contains(tname(u.Elem()), "MaguroHTTP") {
			if e.run != nil {
				e.guardStruct(st, u.Elem(), v.t, true, token.NoPos)
			}
			e.havocStruct(st, u.Elem(), v.t)
		}
	case *types.Interface:
		if v.t != nil && strings.HasPrefix(v.t.op, "box_") {
			if D := typeByName[v.t.op[4:]]; D != nil {
				e.havocArg(st, mkVal(v.t.args[0], D), D)
			}
		}
	}
}

// allocates: each named result (or part of one) is nil or memory that did not exist before the call; its content is arbitrary.
func (e *Engine) allocates(st *State, cls []*Clause, next0 *Term, mk func() *evalCtx) {
	for _, cl := range cls {
		for _, a := range cl.args {
			v := mk().eval(a)
			ref := v.term()
			if ref.sort == sSlice {
				ref = SRef(ref)
			}
			st.assume(Or(Eq(ref, IntC(0)), And(Le(next0, ref), Lt(ref, st.next()))))
			switch u := under(v.typ).(type) {
			case *types.Pointer:
				e.havocStruct(st, u.Elem(), ref)
			case *types.Map:
				e.havocMap(st, v.typ, ref)
			case *types.Slice:
				e.havocArg(st, Val{t: v.term()}, v.typ)
			default:
				panic(specErr{"allocates: pointer, map or slice expected"})
			}
		}
	}
}

func (e *Engine) havocMap(st *State, T types.Type, ref *Term) {
	d := st.comp(mapDomComp(T), mapDomSort(T))
	st.write(mapDomComp(T), ref, Store(d, ref, Fresh("havocdom", d.sort.v)))
	vv := st.comp(mapValComp(T), mapValSort(T))
	st.write(mapValComp(T), ref, Store(vv, ref, heapRoot(Fresh("havocval", vv.sort.v), mapValComp(T), st.next())))
	l := st.comp(mapLenComp(T), arraySort(sInt, sInt))
	n := Fresh("havoclen", sInt)
	st.assume(Le(IntC(0), n))
	st.write(mapLenComp(T), ref, Store(l, ref, n))
}

func (e *Engine) havocStruct(st *State, T types.Type, ref *Term) {
	u := under(T).(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if isStruct(ft) {
			e.havocStruct(st, ft, subAddr(T, i, ref))
			continue
		}
		if isArray(ft) {
			continue
		}
		c := fieldComp(T, i)
		st.write(c, ref, Store(st.comp(c, arraySort(sInt, sortOf(ft))), ref, st.freshTerm("havoc", ft)))
	}
}

func (e *Engine) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos, k Cont) {
	ret := func(t *Term) { k(st, []Val{{t: t}}) }
	switch b.Name() {
	case "len":
		T := c.Args[0].Type()
		switch u := under(T).(type) {
		case *types.Basic:
			ret(StrLen(args[0].term()))
		case *types.Slice:
			ret(SLen(args[0].term()))
		case *types.Map:
			e.guardMap(st, T, args[0].term(), false, pos)
			ret(e.mapLenFacts(st, T, args[0].term()))
		case *types.Array:
			ret(IntC(u.Len()))
		case *types.Pointer:
			ret(IntC(under(u.Elem()).(*types.Array).Len()))
		default:
			ret(st.freshTerm("len", types.Typ[types.Int]))
		}
	case "cap":
		switch u := under(c.Args[0].Type()).(type) {
		case *types.Slice:
			ret(SCap(args[0].term()))
		case *types.Array:
			ret(IntC(u.Len()))
		default:
			ret(st.freshTerm("cap", types.Typ[types.Int]))
		}
	case "append":
		e.appendBuiltin(st, c, args, pos, k)
	case "copy":
		e.copyBuiltin(st, c, args, pos, k)
	case "delete":
		T := c.Args[0].Type()
		m := args[0].term()
		e.guardMap(st, T, m, true, pos)
		e.fork(st, Eq(m, IntC(0)), "", func(st *State) { k(st, nil) }, func(st *State) {
			st.mapDelete(T, m, args[1].term())
			k(st, nil)
		})
	case "close":
		st.event("close", nil)
		k(st, nil)
	case "print", "println":
		k(st, nil)
	case "recover":
		ret(anyNil)
	case "ssa:wrapnilchk":
		e.safe(st, "nil dereference", Neq(args[0].term(), IntC(0)), pos)
		ret(args[0].term())
	default:
		unsupported("builtin " + b.Name())
	}
}

// mapLenFacts is len(m) with its relation to emptiness.
func (e *Engine) mapLenFacts(st *State, T types.Type, ref *Term) *Term {
	n := mapLen(st, T, ref)
	st.assume(Le(IntC(0), n))
	k := Var("mlk!", sortOf(under(T).(*types.Map).Key()))
	raw := Select(Select(st.comp(mapDomComp(T), mapDomSort(T)), ref), k)
	st.assume(Or(Neq(n, IntC(0)), Eq(ref, IntC(0)), Forall([]*Term{k}, [][]*Term{{raw}}, Not(raw))))
	w := Fresh("mlw", k.sort)
	st.assume(Or(Eq(n, IntC(0)), Select(Select(st.comp(mapDomComp(T), mapDomSort(T)), ref), w)))
	return n
}

func (e *Engine) appendBuiltin(st *State, c *ssa.CallCommon, args []Val, pos token.Pos, k Cont) {
	T := c.Args[0].Type()
	el := under(T).(*types.Slice).Elem()
	s := args[0].term()
	var src *Term
	srcStr := false
	if b, ok := under(c.Args[1].Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		src = args[1].term()
		srcStr = true
	} else {
		src = args[1].term()
	}
	var n *Term
	if srcStr {
		n = StrLen(src)
	} else {
		n = SLen(src)
	}
	if n.op == "int" && n.num.Sign() == 0 {
		k(st, []Val{{t: s}})
		return
	}
	newLen := Add(SLen(s), n)
	inPlace := func(st *State) {
		e.copyInto(st, el, SRef(s), Add(SOff(s), SLen(s)), src, srcStr, n)
		k(st, []Val{{t: SliceT(SRef(s), SOff(s), newLen, SCap(s))}})
	}
	grow := func(st *State) {
		ref := st.newRef()
		cp := Fresh("cap", sInt)
		st.assume(Le(newLen, cp))
		// move the old contents
		if isStruct(el) {
			e.copyElems(st, el, ref, IntC(0), SRef(s), SOff(s), SLen(s), true)
		} else {
			cn := arrComp(el)
			srt := arraySort(sInt, arraySort(sInt, sortOf(el)))
			h := st.comp(cn, srt)
			if off := SOff(s); off.op == "int" && off.num.Sign() == 0 {
				st.write(cn, ref, Store(h, ref, Select(h, SRef(s))))
			} else {
				e.copyElems(st, el, ref, IntC(0), SRef(s), SOff(s), SLen(s), true)
			}
		}
		e.copyInto(st, el, ref, SLen(s), src, srcStr, n)
		k(st, []Val{{t: SliceT(ref, IntC(0), newLen, cp)}})
	}
	e.fork(st, Le(newLen, SCap(s)), "", inPlace, grow)
}

// copyInto copies n source elements into backing dst at position at.
func (e *Engine) copyInto(st *State, el types.Type, dst, at, src *Term, srcStr bool, n *Term) {
	if srcStr {
		unsupported("append of a string to a byte slice")
	}
	if n.op == "int" && n.num.IsInt64() && n.num.Int64() <= 16 {
		var vs []*Term
		for i := int64(0); i < n.num.Int64(); i++ {
			vs = append(vs, elemLoad(st, el, SRef(src), Add(SOff(src), IntC(i))))
		}
		for i, v := range vs {
			st.elemStore(el, dst, Add(at, IntC(int64(i))), v)
		}
		return
	}
	e.copyElems(st, el, dst, at, SRef(src), SOff(src), n, false)
}

// copyElems: dst[at+i] = src[off+i] for 0<=i<n, other elements of dst unchanged (or irrelevant when fresh).
func (e *Engine) copyElems(st *State, el types.Type, dst, at, src, off, n *Term, fresh bool) {
	i := Var("ci!", sInt)
	if !isStruct(el) {
		c := arrComp(el)
		srt := arraySort(sInt, arraySort(sInt, sortOf(el)))
		h := st.comp(c, srt)
		old := Select(h, dst)
		from := Select(h, src)
		na := Fresh("copied", srt.v)
		st.write(c, dst, Store(h, dst, na))
		st.assume(Forall([]*Term{i}, [][]*Term{{Select(na, i)}}, Ite(And(Le(at, i), Lt(i, Add(at, n))), Eq(Select(na, i), Select(from, Add(off, Sub(i, at)))),
			Eq(Select(na, i), Select(old, i)))))
		return
	}
	if !fresh {
		unsupported("copy of struct elements")
	}
	var rec func(T types.Type, sub func(*Term) *Term)
	rec = func(T types.Type, sub func(*Term) *Term) {
		u := under(T).(*types.Struct)
		for j := 0; j < u.NumFields(); j++ {
			j := j
			ft := u.Field(j).Type()
			if isStruct(ft) {
				rec(ft, func(a *Term) *Term { return subAddr(T, j, sub(a)) })
				continue
			}
			c := fieldComp(T, j)
			h := st.comp(c, arraySort(sInt, sortOf(ft)))
			dstT := Select(h, sub(elemAddr(el, dst, Add(at, i))))
			srcT := Select(h, sub(elemAddr(el, src, Add(off, i))))
			st.assume(Forall([]*Term{i}, [][]*Term{{dstT}}, Imp(And(Le(IntC(0), i), Lt(i, n)), Eq(dstT, srcT))))
		}
	}
	rec(el, func(a *Term) *Term { return a })
}

func (e *Engine) copyBuiltin(st *State, c *ssa.CallCommon, args []Val, pos token.Pos, k Cont) {
	dst, src := args[0].term(), args[1].term()
	if src.sort == sString {
		unsupported("copy from a string")
	}
	el := under(c.Args[0].Type()).(*types.Slice).Elem()
	n := Ite(Le(SLen(dst), SLen(src)), SLen(dst), SLen(src))
	e.copyElems(st, el, SRef(dst), SOff(dst), SRef(src), SOff(src), n, false)
	k(st, []Val{{t: n}})
}

// ---- locks and guarded state

// Guard declares which state a lock protects.
type Guard struct {
	structT   types.Type
	lock      string // field name
	fields    map[string]bool
	content   map[string]bool // component prefixes protected as a whole
	contTypes []types.Type
	invs      []*Clause // lock invariant over variable "self"
	owned     map[string]bool
	tags      []string
	src       string
}

func (e *Engine) assumeInv(st *State, g *Guard, obj *Term) {
	for _, cl := range g.invs {
		st.assume(e.specTerm(st, nil, cl.expr, map[string]SV{"self": {t: obj, typ: types.NewPointer(g.structT)}}))
	}
}

func (g *Guard) lockAddr(obj *Term) *Term {
	u := under(g.structT).(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == g.lock {
			return subAddr(g.structT, i, obj)
		}
	}
	return nil
}

// heldFor: is the lock of object obj held in a sufficient mode? Returns the obligation term.
func (e *Engine) heldFor(st *State, g *Guard, obj *Term, write bool) *Term {
	la := g.lockAddr(obj)
	if la == nil {
		return tFalse
	}
	var cs []*Term
	for a, m := range st.held {
		if write && m != "W" {
			continue
		}
		if a.op == la.op {
			cs = append(cs, Eq(a.args[0], obj))
		}
	}
	return Or(cs...)
}

func allocatedHere(ref *Term) bool {
	b, _ := splitLin(rootRef(ref))
	return b != nil && b.op == "var" && b.kind == 2
}

func (e *Engine) guardField(st *State, comp string, ref *Term, write bool, pos token.Pos) {
	if e.noguard > 0 {
		return
	}
	for _, g := range e.specs.guards {
		if g.fields[comp] {
			if allocatedHere(ref) {
				return
			}
			obj := ref
			e.oblige(st, "lock", fmt.Sprintf("%s of %s only under %s", rw(write), shortName(comp[2:]), g.lock), g.tags, e.heldFor(st, g, obj, write), pos)
			return
		}
		if g.content[comp] {
			if allocatedHere(ref) {
				return
			}
			e.oblige(st, "lock", fmt.Sprintf("%s of %s only under %s", rw(write), shortName(comp[2:]), g.lock), g.tags, e.heldContent(st, g, ref, write), pos)
			return
		}
	}
}

func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}

// heldContent: some lock of this class is held (the one of the root object when it is visible in the address).
func (e *Engine) heldContent(st *State, g *Guard, ref *Term, write bool) *Term {
	la := g.lockAddr(IntC(0))
	var cs []*Term
	root := ref
	for isAddrOp(root.op) && !strings.HasPrefix(root.op, "sub|"+structKey(g.structT)+"|") {
		root = root.args[0]
	}
	for a, m := range st.held {
		if write && m != "W" || la == nil || a.op != la.op {
			continue
		}
		if isAddrOp(root.op) {
			cs = append(cs, Eq(a.args[0], root.args[0]))
		} else {
			cs = append(cs, tTrue)
		}
	}
	return Or(cs...)
}

func (e *Engine) guardPlace(st *State, p *Place, write bool, pos token.Pos) {
	if p.cell != nil || p.ref == nil {
		return
	}
	e.guardField(st, p.comp, p.ref, write, pos)
}

func (e *Engine) guardStruct(st *State, T types.Type, ref *Term, write bool, pos token.Pos) {
	if !isStruct(T) {
		return
	}
	leafComps(T, ref, func(c string, r *Term) { e.guardField(st, c, r, write, pos) })
}

func (e *Engine) guardMap(st *State, T types.Type, ref *Term, write bool, pos token.Pos) {
	e.guardField(st, mapDomComp(T), ref, write, pos)
}

// acquire models Lock/RLock.
func (e *Engine) acquire(st *State, la *Term, mode string, pos token.Pos, k Cont) {
	tags := []string{"C11"}
	// a lock already held by this goroutine deadlocks
	for a := range st.held {
		e.oblige(st, "lock", "lock is not already held", tags, Not(Eq(a, la)), pos)
	}
	st.event("lock", []*Term{la})
	st.held[la] = mode
	for _, g := range e.specs.guards {
		ga := g.lockAddr(IntC(0))
		if ga == nil || ga.op != la.op {
			continue
		}
		obj := la.args[0]
		e.havocGuarded(st, g, obj)
		e.assumeInv(st, g, obj)
	}
	if _, ok := st.snaps["locked"]; !ok {
		st.snaps["locked"] = st.snap()
	}
	st.snaps["relocked"] = st.snap()
	k(st, nil)
}

// heapTyped: everything a havocked part of the heap holds is well formed and was allocated before now.
func (st *State) heapTyped(t *Term, T types.Type, bound ...*Term) {
	var fs []*Term
	var leaf func(t *Term, T types.Type)
	leaf = func(t *Term, T types.Type) {
		if u, ok := under(T).(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				leaf(Sel(t, i), u.Field(i).Type())
			}
			return
		}
		fs = append(fs, typeFacts(t, T, st.next())...)
	}
	leaf(t, T)
	if len(fs) > 0 {
		st.assume(Forall(bound, [][]*Term{{t}}, And(fs...)))
	}
}

func (e *Engine) havocGuarded(st *State, g *Guard, obj *Term) {
	private := st.private
	defer func() { st.private = private }()
	u := under(g.structT).(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		c := fieldComp(g.structT, i)
		if g.fields[c] {
			h := st.comp(c, arraySort(sInt, sortOf(ft)))
			st.write(c, obj, Store(h, obj, st.freshTerm("shared."+u.Field(i).Name(), ft)))
		}
	}
	for _, T := range g.contTypes {
		if m, ok := under(T).(*types.Map); ok {
			_ = m
			for _, cs := range []struct {
				n string
				s *Sort
			}{{mapDomComp(T), mapDomSort(T)}, {mapValComp(T), mapValSort(T)}, {mapLenComp(T), arraySort(sInt, sInt)}} {
				before := st.comp(cs.n, cs.s)
				st.comps[cs.n] = Fresh("shared."+cs.n, cs.s)
				for _, pr := range private {
					r := Fresh("r?", sInt)
					now := Select(st.comps[cs.n], r)
					st.assume(Forall([]*Term{r}, [][]*Term{{now}}, Or(Lt(r, pr[0]), Le(pr[1], r), Eq(now, Select(before, r)))))
				}
				st.writes = append(st.writes, writeRec{comp: cs.n, whole: true, ref: IntC(0)})
			}
			r, k := Fresh("r?", sInt), Fresh("k?", sortOf(m.Key()))
			st.heapTyped(Select(Select(st.comps[mapValComp(T)], r), k), m.Elem(), r, k)
			continue
		}
		if isStruct(T) {
			su := under(T).(*types.Struct)
			for i := 0; i < su.NumFields(); i++ {
				c := fieldComp(T, i)
				st.comps[c] = Fresh("shared."+c, arraySort(sInt, sortOf(su.Field(i).Type())))
				r := Fresh("r?", sInt)
				st.heapTyped(Select(st.comps[c], r), su.Field(i).Type(), r)
				st.writes = append(st.writes, writeRec{comp: c, whole: true, ref: IntC(0)})
			}
		}
	}
}

func (e *Engine) release(st *State, la *Term, mode string, pos token.Pos, k Cont) {
	tags := []string{"C11"}
	found := ""
	for a, m := range st.held {
		if a == la {
			found = m
		}
	}
	if found == "" {
		// maybe equal but not syntactically
		for a, m := range st.held {
			if v, _, _ := prove(st.pc, Eq(a, la), 2000, false); v == "proved" {
				found = m
				la = a
			}
		}
	}
	e.oblige(st, "lock", "released lock is held in the same mode", tags, Bool(found == mode), pos)
	st.event("unlock", []*Term{la})
	if found == "W" {
		for _, g := range e.specs.guards {
			ga := g.lockAddr(IntC(0))
			if ga == nil || ga.op != la.op {
				continue
			}
			for _, cl := range g.invs {
				name := cl.name
				if name == "" {
					name = clip(cl.text, 60)
				}
				e.oblige(st, "lock-invariant", "invariant of "+shortName(tname(g.structT))+"."+g.lock+" restored, "+name, append(append([]string(nil), tags...), cl.tags...),
					e.specTerm(st, nil, cl.expr, map[string]SV{"self": {t: la.args[0], typ: types.NewPointer(g.structT)}}), pos)
			}
		}
	}
	st.snaps["unlocked"] = st.snap()
	delete(st.held, la)
	k(st, nil)
}

// holdsLock: does a value of the struct type T contain a lock?
func holdsLock(T types.Type) bool {
	switch tname(T) {
	case "sync.Mutex", "sync.RWMutex":
		return true
	}
	u, ok := under(T).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < u.NumFields(); i++ {
		if holdsLock(u.Field(i).Type()) {
			return true
		}
	}
	return false
}
