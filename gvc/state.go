package main

// Symbolic state: heap components, local cells, frames, path condition.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: a first-class term, a tuple, or the address of a leaf location.
type Val struct {
	t   *Term
	tup []Val
	pl  *Place
}

// Place is the address of a leaf location (or of a local cell, possibly of struct type).
type Place struct {
	comp string
	sort *Sort // sort of the stored leaf
	ref  *Term
	idx  *Term // second index for array elements
	cell *cellKey
	path []int
	typ  types.Type
}

type cellKey struct {
	frame int
	alloc *ssa.Alloc
}

type deferRec struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	bind   []Val
	defers []deferRec
	id     int
}

type writeRec struct {
	comp  string
	ref   *Term // nil: scalar component
	whole bool
	cell  *cellKey
	iter  int
	base  bool // allocation happened
}

type iterState struct {
	mapType types.Type
	ref     *Term
	dom0    *Term // content array (domain) at start
	visited *Term
	isStr   bool
	str     *Term
	count   *Term
}

type State struct {
	comps      map[string]*Term
	cells      map[cellKey]*Term
	frames     []*Frame
	pc         []*Term
	pcSet      map[*Term]bool
	base       *Term
	epoch      string
	off        int64
	held       map[*Term]string
	iters      map[int]*iterState
	writes     []writeRec
	snaps      map[string]snapshot
	trace      []string
	infeasible bool
	active     []*loopCtx
	private    [][2]*Term    // ranges of references no other goroutine can reach yet
	pinned     map[*Term]Val // known closures compared equal on this path
}

func (st *State) clone() *State {
	n := &State{base: st.base, off: st.off, epoch: st.epoch}
	n.comps = make(map[string]*Term, len(st.comps))
	for k, v := range st.comps {
		n.comps[k] = v
	}
	n.cells = make(map[cellKey]*Term, len(st.cells))
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := &Frame{fn: f.fn, bind: f.bind, id: f.id, defers: append([]deferRec(nil), f.defers...)}
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		n.frames[i] = g
	}
	n.pc = append([]*Term(nil), st.pc...)
	n.pcSet = make(map[*Term]bool, len(st.pcSet))
	for k := range st.pcSet {
		n.pcSet[k] = true
	}
	n.held = make(map[*Term]string, len(st.held))
	for k, v := range st.held {
		n.held[k] = v
	}
	n.iters = make(map[int]*iterState, len(st.iters))
	for k, v := range st.iters {
		c := *v
		n.iters[k] = &c
	}
	n.writes = append([]writeRec(nil), st.writes...)
	n.snaps = make(map[string]snapshot, len(st.snaps))
	for k, v := range st.snaps {
		n.snaps[k] = v
	}
	n.trace = append([]string(nil), st.trace...)
	n.active = append([]*loopCtx(nil), st.active...)
	n.private = append([][2]*Term(nil), st.private...)
	n.pinned = make(map[*Term]Val, len(st.pinned))
	for k, v := range st.pinned {
		n.pinned[k] = v
	}
	return n
}

func newState() *State {
	st := &State{
		comps: map[string]*Term{}, cells: map[cellKey]*Term{}, held: map[*Term]string{}, iters: map[int]*iterState{},
		snaps: map[string]snapshot{}, pcSet: map[*Term]bool{}, pinned: map[*Term]Val{},
	}
	return st
}

func (st *State) fr() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) comp(name string, s *Sort) *Term {
	if t, ok := st.comps[name]; ok {
		return t
	}
	return initialComp(name, st.epoch, s)
}

func (st *State) snap() snapshot {
	m := snapshot{}
	for k, v := range st.comps {
		m[k] = v
	}
	if st.epoch != "" {
		m["#epoch"] = StrC(st.epoch)
	}
	return m
}

func (st *State) assume(f *Term) {
	if f == tTrue || st.pcSet[f] {
		return
	}
	if f.op == "and" {
		for _, a := range f.args {
			st.assume(a)
		}
		return
	}
	if f == tFalse || st.pcSet[Not(f)] {
		st.infeasible = true
	}
	st.pcSet[f] = true
	st.pc = append(st.pc, f)
}

func (st *State) newBase(hint string) {
	old := st.base
	oldNext := tTrue
	b := Fresh(hint, sInt)
	b.kind = 2
	if old != nil {
		oldNext = Le(Add(old, IntC(st.off)), b)
	}
	st.base, st.off = b, 0
	st.assume(Le(IntC(1), b))
	st.assume(oldNext)
}

func (st *State) next() *Term { return Add(st.base, IntC(st.off)) }

func (st *State) newRef() *Term {
	r := Add(st.base, IntC(st.off))
	st.off++
	st.writes = append(st.writes, writeRec{base: true})
	return r
}

func (st *State) write(comp string, ref, nv *Term) {
	st.comps[comp] = nv
	compSorts[comp] = nv.sort
	if ref == nil || !allocatedHere(ref) {
		st.private = nil // what is written may make private memory reachable
	}
	st.writes = append(st.writes, writeRec{comp: comp, ref: ref})
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

func unsignedBits(t types.Type) int {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8:
		return 8
	case types.Uint16:
		return 16
	case types.Uint32:
		return 32
	case types.Uint64, types.Uint, types.Uintptr:
		return 64
	}
	return 0
}

func signedBits(t types.Type) int {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8:
		return 8
	case types.Int16:
		return 16
	case types.Int32:
		return 32
	case types.Int64, types.Int:
		return 64
	}
	return 0
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// typeFacts are the well-formedness facts of a value of Go type t.
func typeFacts(t *Term, T types.Type, next *Term) []*Term {
	var fs []*Term
	switch u := under(T).(type) {
	case *types.Basic:
		if n := unsignedBits(T); n > 0 && t.op != "int" {
			fs = append(fs, Le(IntC(0), t), Lt(t, BigC(pow2(n))))
		}
	case *types.Pointer:
		if t.op != "int" {
			fs = append(fs, Lt(t, next))
			if !isStruct(u.Elem()) && !isArray(u.Elem()) {
				fs = append(fs, Le(IntC(0), t))
			}
		}
	case *types.Map, *types.Chan:
		if t.op != "int" {
			fs = append(fs, Lt(t, next), Le(IntC(0), t))
		}
	case *types.Slice:
		if t.op != t.sort.dt.ctor {
			fs = append(fs, Le(IntC(0), SOff(t)), Le(IntC(0), SLen(t)), Le(SLen(t), SCap(t)), Le(IntC(0), SRef(t)), Lt(SRef(t), next),
				Imp(Eq(SRef(t), IntC(0)), Eq(SCap(t), IntC(0))))
		}
	case *types.Interface:
	}
	return fs
}

// note records that t is a well-formed value of type T in the current state.
func (st *State) note(t *Term, T types.Type) {
	if t == nil || t.quant {
		return
	}
	switch under(T).(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		markOld(t)
	case *types.Slice:
		if t.op != t.sort.dt.ctor {
			markOld(SRef(t))
		}
	case *types.Struct:
		u := under(T).(*types.Struct)
		if t.op == t.sort.dt.ctor {
			for i := 0; i < u.NumFields(); i++ {
				st.note(t.args[i], u.Field(i).Type())
			}
		}
		return
	}
	if st.base == nil {
		return
	}
	next := st.next()
	if b := heapBound(t); b != nil {
		next = b
	}
	if r := refPart(t, T); r != nil && t.op == "var" && noteBound[r.id] == nil {
		noteBound[r.id] = next
	}
	for _, f := range typeFacts(t, T, next) {
		st.assume(f)
	}
}

// refPart: the reference in a pointer, map or slice value.
func refPart(t *Term, T types.Type) *Term {
	switch under(T).(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return t
	case *types.Slice:
		return SRef(t)
	}
	return nil
}

// markOld: t is a reference obtained from a well-formed heap or from outside.
func markOld(t *Term) {
	switch t.op {
	case "int", "+", "ite", "neg":
		return
	}
	if isAddrOp(t.op) {
		return
	}
	if t.op == "var" && t.kind == 2 {
		return
	}
	oldRefs[t.id] = true
}

// mkVal wraps a first-class term of Go type T.
func mkVal(t *Term, T types.Type) Val {
	if p, ok := under(T).(*types.Pointer); ok && !isStruct(p.Elem()) && !isArray(p.Elem()) {
		if strings.HasPrefix(t.op, "addr|") {
			c := t.op[5:]
			pl := &Place{comp: c, sort: sortOf(p.Elem()), ref: t.args[0], typ: p.Elem()}
			if len(t.args) > 1 {
				pl.idx = t.args[1]
			}
			return Val{pl: pl}
		}
		return Val{pl: &Place{comp: cellComp(p.Elem()), sort: sortOf(p.Elem()), ref: t, typ: p.Elem()}}
	}
	return Val{t: t}
}

// term converts a value to a first-class term.
func (v Val) term() *Term {
	if v.t != nil {
		return v.t
	}
	if v.pl != nil {
		if v.pl.cell != nil {
			unsupported("address of a local variable used as a value")
		}
		if strings.HasPrefix(v.pl.comp, "C|") {
			return v.pl.ref
		}
		if v.pl.idx != nil {
			return App("addr|"+v.pl.comp, sInt, v.pl.ref, v.pl.idx)
		}
		return App("addr|"+v.pl.comp, sInt, v.pl.ref)
	}
	unsupported("tuple used as a value")
	return nil
}

// freshTerm makes an unconstrained well-formed value of type T.
func (st *State) freshTerm(hint string, T types.Type) *Term {
	t := Fresh(hint, sortOf(T))
	if s := sortOf(T); s.dt != nil && s != sSlice {
		// expand structs so that fields are plain variables
		u := under(T).(*types.Struct)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, st.freshTerm(hint+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return Mk(s, as...)
	}
	st.note(t, T)
	return t
}

// leafComps enumerates the heap components a value of type T at ref occupies.
func leafComps(T types.Type, ref *Term, f func(comp string, ref *Term)) {
	switch u := under(T).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if isStruct(ft) || isArray(ft) {
				leafComps(ft, subAddr(T, i, ref), f)
			} else {
				f(fieldComp(T, i), ref)
			}
		}
	case *types.Array:
		f(arrComp(u.Elem()), ref)
	default:
		f(cellComp(T), ref)
	}
}

// storeAt writes a whole value.
func (st *State) storeAt(T types.Type, ref, v *Term) {
	switch u := under(T).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			fv := Sel(v, i)
			if isStruct(ft) || isArray(ft) {
				st.storeAt(ft, subAddr(T, i, ref), fv)
				continue
			}
			c := fieldComp(T, i)
			st.write(c, ref, Store(st.comp(c, arraySort(sInt, sortOf(ft))), ref, fv))
		}
	case *types.Array:
		if isStruct(u.Elem()) {
			if v.op == "constarr" {
				st.zeroElems(u.Elem(), ref)
				return
			}
			unsupported("storing an array of structs")
		}
		c := arrComp(u.Elem())
		s := arraySort(sInt, arraySort(sInt, sortOf(u.Elem())))
		st.write(c, ref, Store(st.comp(c, s), ref, v))
	default:
		c := cellComp(T)
		st.write(c, ref, Store(st.comp(c, arraySort(sInt, sortOf(T))), ref, v))
	}
}

// zeroElems makes every struct element of the fresh backing at ref zero.
func (st *State) zeroElems(elem types.Type, ref *Term) {
	i := Var("zi!", sInt)
	a := elemAddr(elem, ref, i)
	var fs []*Term
	var pats [][]*Term
	u := under(elem).(*types.Struct)
	var rec func(T types.Type, u *types.Struct, a *Term)
	rec = func(T types.Type, u *types.Struct, a *Term) {
		for j := 0; j < u.NumFields(); j++ {
			ft := u.Field(j).Type()
			if s, ok := under(ft).(*types.Struct); ok {
				rec(ft, s, subAddr(T, j, a))
				continue
			}
			if isArray(ft) {
				continue
			}
			x := Select(st.comp(fieldComp(T, j), arraySort(sInt, sortOf(ft))), a)
			fs = append(fs, Eq(x, zeroTerm(ft)))
			pats = append(pats, []*Term{x})
		}
	}
	rec(elem, u, a)
	st.assume(Forall([]*Term{i}, pats, And(fs...)))
}

// elemStore writes one element of a backing store.
func (st *State) elemStore(elem types.Type, ref, idx, v *Term) {
	if isStruct(elem) {
		st.storeAt(elem, elemAddr(elem, ref, idx), v)
		return
	}
	c := arrComp(elem)
	s := arraySort(sInt, arraySort(sInt, sortOf(elem)))
	h := st.comp(c, s)
	st.write(c, ref, Store(h, ref, Store(Select(h, ref), idx, v)))
}

func (st *State) mapStore(m types.Type, ref, k, v *Term) {
	d := st.comp(mapDomComp(m), mapDomSort(m))
	inDom := Select(Select(d, ref), k)
	l := st.comp(mapLenComp(m), arraySort(sInt, sInt))
	st.write(mapLenComp(m), ref, Store(l, ref, Ite(inDom, Select(l, ref), Add(Select(l, ref), IntC(1)))))
	st.write(mapDomComp(m), ref, Store(d, ref, Store(Select(d, ref), k, tTrue)))
	vs := st.comp(mapValComp(m), mapValSort(m))
	st.write(mapValComp(m), ref, Store(vs, ref, Store(Select(vs, ref), k, v)))
}

func (st *State) mapDelete(m types.Type, ref, k *Term) {
	d := st.comp(mapDomComp(m), mapDomSort(m))
	inDom := Select(Select(d, ref), k)
	l := st.comp(mapLenComp(m), arraySort(sInt, sInt))
	st.write(mapLenComp(m), ref, Store(l, ref, Ite(inDom, Sub(Select(l, ref), IntC(1)), Select(l, ref))))
	st.write(mapDomComp(m), ref, Store(d, ref, Store(Select(d, ref), k, tFalse)))
}

func (st *State) newMap(m types.Type) *Term {
	ref := st.newRef()
	d := st.comp(mapDomComp(m), mapDomSort(m))
	st.write(mapDomComp(m), ref, Store(d, ref, ConstArr(d.sort.v, tFalse)))
	l := st.comp(mapLenComp(m), arraySort(sInt, sInt))
	st.write(mapLenComp(m), ref, Store(l, ref, IntC(0)))
	return ref
}

// placeRead / placeWrite access leaf places and local cells.
func (st *State) placeRead(p *Place) *Term {
	if p.cell != nil {
		v := st.cells[*p.cell]
		if v == nil {
			unsupported("read of an unknown local cell")
		}
		for _, i := range p.path {
			v = Sel(v, i)
		}
		return v
	}
	if p.idx != nil {
		return Select(Select(st.comp(p.comp, arraySort(sInt, arraySort(sInt, p.sort))), p.ref), p.idx)
	}
	return Select(st.comp(p.comp, arraySort(sInt, p.sort)), p.ref)
}

func updPath(v *Term, path []int, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	return Upd(v, path[0], updPath(Sel(v, path[0]), path[1:], nv))
}

func (st *State) placeWrite(p *Place, v *Term) {
	if p.cell != nil {
		st.cells[*p.cell] = updPath(st.cells[*p.cell], p.path, v)
		st.writes = append(st.writes, writeRec{cell: p.cell})
		return
	}
	if p.idx != nil {
		h := st.comp(p.comp, arraySort(sInt, arraySort(sInt, p.sort)))
		st.write(p.comp, p.ref, Store(h, p.ref, Store(Select(h, p.ref), p.idx, v)))
		return
	}
	h := st.comp(p.comp, arraySort(sInt, p.sort))
	st.write(p.comp, p.ref, Store(h, p.ref, v))
}

// ghost components are scalars named "G|...".
func ghostCount(kind string) string { return "G|n|" + kind }
func ghostArg(kind string, i int) string {
	return fmt.Sprintf("G|a|%s|%d", kind, i)
}

func ghostFirst(kind string, i int) string {
	return fmt.Sprintf("G|f|%s|%d", kind, i)
}

func (st *State) setGhost(name string, v *Term) {
	st.comps[name] = v
	compSorts[name] = v.sort
	st.writes = append(st.writes, writeRec{comp: name})
}

func (st *State) event(kind string, args []*Term) {
	n := st.comp(ghostCount(kind), sInt)
	st.setGhost(ghostCount(kind), Add(n, IntC(1)))
	for i, a := range args {
		st.setGhost(ghostArg(kind, i), a)
		f := ghostFirst(kind, i)
		st.setGhost(f, Ite(Eq(n, IntC(0)), a, st.comp(f, a.sort)))
	}
}

// newMaps: the content of maps a call has allocated (references from lo on) is arbitrary, for every map type reachable from T.
func (st *State) newMaps(T types.Type, lo *Term, done map[string]bool) {
	if n := tname(T); done[n] {
		return
	} else {
		done[n] = true
	}
	switch u := under(T).(type) {
	case *types.Pointer:
		st.newMaps(u.Elem(), lo, done)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			st.newMaps(u.Field(i).Type(), lo, done)
		}
	case *types.Map:
		for _, cs := range []struct {
			n string
			s *Sort
		}{{mapDomComp(T), mapDomSort(T)}, {mapValComp(T), mapValSort(T)}, {mapLenComp(T), arraySort(sInt, sInt)}} {
			before := st.comp(cs.n, cs.s)
			st.write(cs.n, lo, heapRoot(Fresh("new."+cs.n, cs.s), cs.n, st.next()))
			r := Fresh("r?", sInt)
			now := Select(st.comps[cs.n], r)
			st.assume(Forall([]*Term{r}, [][]*Term{{now}}, Or(Le(lo, r), Eq(now, Select(before, r)))))
		}
		st.newMaps(u.Elem(), lo, done)
	}
}
