package main

// Forward symbolic execution of go/ssa functions.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Cont func(st *State, res []Val)

const (
	modeReal = iota
	modeHoudini
	modeModset
)

// Obl is one discharged or failed verification condition.
type Obl struct {
	Contract string   `json:"contract"`
	Name     string   `json:"name"`
	Kind     string   `json:"kind"`
	Tags     []string `json:"tags"`
	Pos      string   `json:"pos"`
	Verdict  string   `json:"verdict"`
	Solver   string   `json:"solver"`
	Model    string   `json:"model,omitempty"`
	Path     []string `json:"path,omitempty"`
	Goal     string   `json:"goal,omitempty"`
	Secs     float64  `json:"secs"`
}

type Engine struct {
	prog          *ssa.Program
	models        *ssa.Package // modelSource
	fset          *token.FileSet
	repo          map[string]*ssa.Package // by name
	specs         *SpecDB
	mode          int
	quiet         int // >0: no obligations recorded
	obls          []*Obl
	frameID       int
	iterID        int
	onAbort       func(st *State, kind, msg string, pos token.Pos)
	onGo          func(st *State, x *ssa.Go)
	run           *runCtx
	loops         map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	timeout       int
	unmodelled    map[string]bool
	usedExterns   map[string]bool
	inlined       map[string]bool
	usedContracts map[string]bool
	paths         int
	deadline      time.Time
	verbose       bool
	noguard       int
	allPkgs       map[string]*types.Package
	qcount        int
}

func (e *Engine) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Engine) checkDeadline() {
	if !e.deadline.IsZero() && time.Now().After(e.deadline) {
		unsupported("verification time budget exhausted")
	}
}

// oblige generates a verification condition and continues under its goal.
func (e *Engine) oblige(st *State, kind, name string, tags []string, goal *Term, pos token.Pos) bool {
	ok := true
	if e.mode == modeReal && e.quiet == 0 {
		e.checkDeadline()
		o := &Obl{Name: name, Kind: kind, Tags: tags, Pos: e.posStr(pos)}
		if e.run != nil {
			o.Contract = e.run.name
		}
		t0 := time.Now()
		if goal == tTrue || st.pcSet[goal] {
			o.Verdict, o.Solver = "proved", "simplifier"
		} else {
			var m string
			o.Verdict, o.Solver, m = prove(st.pc, goal, e.timeout, true)
			if o.Verdict != "proved" {
				o.Model = m
				o.Path = append([]string(nil), st.trace...)
				o.Goal = goal.String()
				ok = false
				if e.verbose {
					fmt.Fprintf(os.Stderr, "FAILED %s [%s] %s at %s: %s\n  goal: %s\n  path: %v\n", o.Contract, o.Kind, o.Name, o.Pos, o.Verdict, clip(o.Goal, 500), o.Path)
					if os.Getenv("GVC_PC") != "" {
						for _, p := range st.pc {
							fmt.Fprintln(os.Stderr, "    pc:", p)
						}
					}
				}
			}
		}
		o.Secs = time.Since(t0).Seconds()
		e.obls = append(e.obls, o)
	}
	if !ok && (kind == "ensures" || kind == "event" || kind == "frame" || kind == "assert" || kind == "lock-invariant" || kind == "lock") {
		return ok // a failed obligation must not hide another one
	}
	st.assume(goal)
	return ok
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (e *Engine) safetyTags() []string {
	if e.run != nil && e.run.safety != nil {
		return e.run.safety
	}
	return []string{"C27"}
}

func (e *Engine) safe(st *State, name string, goal *Term, pos token.Pos) {
	if goal == tTrue {
		return
	}
	e.oblige(st, "safety", name, e.safetyTags(), goal, pos)
}

func (e *Engine) feasible(st *State) bool {
	if st.infeasible {
		return false
	}
	if e.mode == modeModset {
		return true
	}
	e.checkDeadline()
	strs := len(st.pc) > 0 && stringAtom(st.pc[len(st.pc)-1])
	return checkSat2(st.pc, 1000, strs) != "unsat"
}

// fork continues on both sides of a condition.
func (e *Engine) fork(st *State, c *Term, label string, yes, no func(st *State)) {
	if c == tTrue {
		yes(st)
		return
	}
	if c == tFalse {
		no(st)
		return
	}
	if st.pcSet[c] {
		yes(st)
		return
	}
	if st.pcSet[Not(c)] {
		no(st)
		return
	}
	a := st.clone()
	a.assume(c)
	if label != "" {
		a.trace = append(a.trace, label+"=true")
	}
	fa := e.feasible(a)
	b := st
	if fa {
		b = st.clone()
	}
	b.assume(Not(c))
	if label != "" {
		b.trace = append(b.trace, label+"=false")
	}
	fb := !fa || e.feasible(b)
	if fa {
		yes(a)
	}
	if fb && !b.infeasible {
		no(b)
	}
}

func (e *Engine) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return mkVal(constTerm(x), x.Type())
	case *ssa.Function:
		return Val{t: e.closureTerm(x, nil)}
	case *ssa.Global:
		return e.globalAddr(x)
	case *ssa.FreeVar:
		f := st.fr()
		for i, fv := range f.fn.FreeVars {
			if fv == x {
				return f.bind[i]
			}
		}
		panic("freevar")
	case *ssa.Builtin:
		return Val{}
	}
	r, ok := st.fr().env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), st.fr().fn))
	}
	return r
}

func (e *Engine) globalAddr(g *ssa.Global) Val {
	T := g.Type().(*types.Pointer).Elem()
	op := "sub|global|" + g.String()
	registerAddrOp(op, 1)
	ref := App(op, sInt, IntC(0))
	if isStruct(T) || isArray(T) {
		return Val{t: ref}
	}
	return Val{pl: &Place{comp: cellComp(T), sort: sortOf(T), ref: ref, typ: T}}
}

type closureInfo struct {
	fn   *ssa.Function
	bind []Val
}

var closures = map[*Term]*closureInfo{}

func (e *Engine) closureTerm(fn *ssa.Function, bind []Val) *Term {
	var as []*Term
	for _, b := range bind {
		as = append(as, b.term())
	}
	op := "clo|" + fn.String()
	t := App(op, sFn, as...)
	if closures[t] == nil {
		closures[t] = &closureInfo{fn, bind}
		if !cloOps[op] {
			cloOps[op] = true
			id := int64(len(cloOps))
			addGroundAxiom(&GroundAxiom{name: "closure identity", op: op, gen: 4, facts: func(t *Term) []*Term {
				return []*Term{Eq(App("clotag", sInt, t), IntC(id)), Not(App("=", sBool, t, fnNil))}
			}})
		}
	}
	return t
}

var cloOps = map[string]bool{}

// callFunction inlines fn.
func (e *Engine) callFunction(st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos, k Cont) {
	if len(st.frames) > 40 {
		unsupported("call depth")
	}
	for _, f := range st.frames {
		if f.fn == fn {
			unsupported("recursive call of " + fn.String())
		}
	}
	if len(fn.Blocks) == 0 {
		unsupported("no body for " + fn.String())
	}
	if e.run != nil && fn.Pkg != nil {
		e.inlined[shortName(fn.String())] = true
	}
	e.frameID++
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, bind: bind, id: e.frameID}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	st.frames = append(st.frames, f)
	e.block(st, fn.Blocks[0], nil, func(st *State, res []Val) {
		st.frames = st.frames[:len(st.frames)-1]
		k(st, res)
	})
}

func (e *Engine) block(st *State, b *ssa.BasicBlock, pred *ssa.BasicBlock, k Cont) {
	if st.infeasible {
		return
	}
	l := e.loopAt(st.fr().fn, b)
	if l != nil {
		if pred != nil && l.body[pred] {
			// back edge, possibly straight out of an inner loop
			e.popLoops(st, b)
			if st.infeasible {
				return
			}
			for i := len(st.active) - 1; i >= 0; i-- {
				c := st.active[i]
				if c.loop == l && c.frame == st.fr().id {
					e.assignPhis(st, b, pred)
					c.onBack(st)
					return
				}
			}
			panic("back edge without loop context")
		}
		e.enterLoop(st, l, pred, k)
		return
	}
	e.assignPhis(st, b, pred)
	e.instrs(st, b, 0, k)
}

func (e *Engine) assignPhis(st *State, b, pred *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == pred {
			pi = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(st, phi.Edges[pi]))
		phis = append(phis, phi)
	}
	for i, phi := range phis {
		st.fr().env[phi] = vals[i]
	}
}

// after leaving a loop body its context is no longer active
func (e *Engine) popLoops(st *State, b *ssa.BasicBlock) {
	id := st.fr().id
	for len(st.active) > 0 {
		c := st.active[len(st.active)-1]
		if c.frame == id && !c.loop.body[b] {
			st.active = st.active[:len(st.active)-1]
			if c.stop {
				st.infeasible = true
			}
			continue
		}
		break
	}
}

func (e *Engine) instrs(st *State, b *ssa.BasicBlock, idx int, k Cont) {
	e.popLoops(st, b)
	for ; idx < len(b.Instrs); idx++ {
		if st.infeasible {
			return
		}
		in := b.Instrs[idx]
		next := idx + 1
		cont := func(st *State, v Val) {
			if val, ok := in.(ssa.Value); ok {
				st.fr().env[val] = v
			}
			e.instrs(st, b, next, k)
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			e.block(st, b.Succs[0], b, k)
			return
		case *ssa.If:
			c := e.val(st, x.Cond).term()
			pos := x.Cond.Pos()
			label := e.posStr(pos)
			if label == "" {
				label = b.Comment
			}
			e.fork(st, c, label, func(st *State) { e.block(st, b.Succs[0], b, k) }, func(st *State) { e.block(st, b.Succs[1], b, k) })
			return
		case *ssa.Return:
			var res []Val
			for _, r := range x.Results {
				res = append(res, e.val(st, r))
			}
			e.popFrameLoops(st)
			k(st, res)
			return
		case *ssa.Panic:
			e.doPanic(st, "explicit panic", x.Pos())
			return
		case *ssa.RunDefers:
			e.runDefers(st, func(st *State) { e.instrs(st, b, next, k) })
			return
		case *ssa.Defer:
			d := deferRec{call: &x.Call, pos: x.Pos()}
			if x.Call.IsInvoke() {
				d.fn = e.val(st, x.Call.Value)
			} else if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				d.fn = e.val(st, x.Call.Value)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, e.val(st, a))
			}
			st.fr().defers = append(st.fr().defers, d)
			continue
		case *ssa.Go:
			st.private = nil
			if e.onGo != nil && e.mode == modeReal {
				e.onGo(st, x)
			}
			e.note(st, "spawned")
			continue
		case *ssa.Call:
			var args []Val
			for _, a := range x.Call.Args {
				args = append(args, e.val(st, a))
			}
			var fv Val
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				fv = e.val(st, x.Call.Value)
			}
			e.call(st, &x.Call, fv, args, x.Pos(), func(st *State, res []Val) {
				var v Val
				switch len(res) {
				case 0:
				case 1:
					v = res[0]
				default:
					v = Val{tup: res}
				}
				cont(st, v)
			})
			return
		case *ssa.Store:
			e.store(st, x)
			continue
		case *ssa.MapUpdate:
			m := e.val(st, x.Map).term()
			e.safe(st, "write to a nil map", Neq(m, IntC(0)), x.Pos())
			e.guardMap(st, x.Map.Type(), m, true, x.Pos())
			st.mapStore(x.Map.Type(), m, e.val(st, x.Key).term(), e.val(st, x.Value).term())
			continue
		case *ssa.Send:
			e.eventN(st, "send", nil)
			continue
		case *ssa.Select:
			if x.Blocking && len(x.States) == 0 { // blocks for ever
				return
			}
			v := e.eval(st, x)
			low := IntC(0)
			if !x.Blocking {
				low = IntC(-1)
			}
			st.assume(Le(low, v.tup[0].t))
			st.assume(Lt(v.tup[0].t, IntC(int64(len(x.States)))))
			st.fr().env[x] = v
			continue
		case *ssa.TypeAssert:
			if e.typeAssert(st, x, cont) {
				return
			}
			continue
		case *ssa.Next:
			e.next(st, x, cont)
			return
		default:
			v, ok := in.(ssa.Value)
			if !ok {
				unsupported(fmt.Sprintf("instruction %T", in))
			}
			st.fr().env[v] = e.eval(st, v)
		}
	}
}

// note emits an event without arguments if the specifications know it.
func isTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func (e *Engine) note(st *State, name string) {
	if ev := e.specs.events[name]; ev != nil {
		e.emit(st, name, nil, token.NoPos)
	}
}

func (e *Engine) eventN(st *State, kind string, args []*Term) { st.event(kind, args) }

func (e *Engine) popFrameLoops(st *State) {
	id := st.fr().id
	for len(st.active) > 0 && st.active[len(st.active)-1].frame == id {
		st.active = st.active[:len(st.active)-1]
	}
}

func (e *Engine) runDefers(st *State, k func(st *State)) {
	f := st.fr()
	if len(f.defers) == 0 {
		k(st)
		return
	}
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	e.call(st, d.call, d.fn, d.args, d.pos, func(st *State, _ []Val) { e.runDefers(st, k) })
}

func (e *Engine) doPanic(st *State, msg string, pos token.Pos) {
	e.runDefers(st, func(st *State) {
		e.popFrameLoops(st)
		st.frames = st.frames[:len(st.frames)-1]
		if len(st.frames) == 0 {
			e.onAbort(st, "panic", msg, pos)
			return
		}
		e.doPanic(st, msg, pos)
	})
}

func (e *Engine) exit(st *State, msg string, pos token.Pos) { e.onAbort(st, "exit", msg, pos) }

func (e *Engine) store(st *State, x *ssa.Store) {
	addr := e.val(st, x.Addr)
	T := x.Addr.Type().Underlying().(*types.Pointer).Elem()
	v := e.val(st, x.Val).term()
	if addr.pl != nil {
		e.nilCheckPlace(st, addr.pl, x.Pos())
		e.guardPlace(st, addr.pl, true, x.Pos())
		st.placeWrite(addr.pl, v)
		return
	}
	e.safe(st, "nil dereference", Neq(addr.t, IntC(0)), x.Pos())
	e.guardStruct(st, T, addr.t, true, x.Pos())
	st.storeAt(T, addr.t, v)
}

func (e *Engine) nilCheckPlace(st *State, p *Place, pos token.Pos) {
	if p.cell != nil {
		return
	}
	if strings.HasPrefix(p.comp, "C|") {
		e.safe(st, "nil dereference", Neq(p.ref, IntC(0)), pos)
	}
}

func needsRef(T types.Type) bool {
	switch u := under(T).(type) {
	case *types.Array:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if needsRef(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (e *Engine) eval(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Alloc:
		T := x.Type().(*types.Pointer).Elem()
		if !x.Heap && !needsRef(T) {
			key := cellKey{st.fr().id, x}
			st.cells[key] = zeroTerm(T)
			st.writes = append(st.writes, writeRec{cell: &key})
			return Val{pl: &Place{cell: &key, typ: T}}
		}
		ref := st.newRef()
		if !isStruct(T) && !isArray(T) {
			c := cellComp(T)
			st.write(c, ref, Store(st.comp(c, arraySort(sInt, sortOf(T))), ref, zeroTerm(T)))
			return Val{pl: &Place{comp: c, sort: sortOf(T), ref: ref, typ: T}}
		}
		e.initZero(st, T, ref)
		return Val{t: ref}
	case *ssa.BinOp:
		return Val{t: e.binop(st, x.Op, e.val(st, x.X), e.val(st, x.Y), x.X.Type(), x.Y.Type(), x.Type(), x.Pos())}
	case *ssa.UnOp:
		if x.Op == token.MUL && isStruct(x.Type()) && holdsLock(x.Type()) {
			if v := e.val(st, x.X); v.t != nil && !allocatedHere(v.t) || v.pl != nil && v.pl.cell == nil && v.pl.ref != nil && !allocatedHere(v.pl.ref) {
				e.oblige(st, "lock", "a "+shortName(tname(x.Type()))+" is not copied with its lock", []string{"C11"}, tFalse, x.Pos())
			}
		}
		return e.unop(st, x)
	case *ssa.ChangeInterface:
		return e.val(st, x.X)
	case *ssa.ChangeType:
		return e.changeType(st, e.val(st, x.X), x.X.Type(), x.Type())
	case *ssa.Convert:
		return Val{t: e.convert(st, e.val(st, x.X).term(), x.X.Type(), x.Type())}
	case *ssa.MakeInterface:
		return Val{t: boxIface(x.X.Type(), e.val(st, x.X).term())}
	case *ssa.MakeClosure:
		var bind []Val
		for _, b := range x.Bindings {
			bind = append(bind, e.val(st, b))
		}
		return Val{t: e.closureTerm(x.Fn.(*ssa.Function), bind)}
	case *ssa.MakeMap:
		return Val{t: st.newMap(x.Type())}
	case *ssa.MakeChan:
		return Val{t: st.newRef()}
	case *ssa.MakeSlice:
		n := e.val(st, x.Len).term()
		c := e.val(st, x.Cap).term()
		e.safe(st, "negative slice length", And(Le(IntC(0), n), Le(n, c)), x.Pos())
		ref := st.newRef()
		el := under(x.Type()).(*types.Slice).Elem()
		if isStruct(el) {
			st.zeroElems(el, ref)
		} else {
			cn := arrComp(el)
			s := arraySort(sInt, arraySort(sInt, sortOf(el)))
			st.write(cn, ref, Store(st.comp(cn, s), ref, ConstArr(s.v, zeroTerm(el))))
		}
		return Val{t: SliceT(ref, IntC(0), n, c)}
	case *ssa.Slice:
		return Val{t: e.slice(st, x)}
	case *ssa.FieldAddr:
		return e.fieldAddr(st, x)
	case *ssa.Field:
		s := e.val(st, x.X).term()
		t := Sel(s, x.Field)
		st.note(t, x.Type())
		return mkVal(t, x.Type())
	case *ssa.IndexAddr:
		return e.indexAddr(st, x)
	case *ssa.Index:
		a := e.val(st, x.X).term()
		i := e.val(st, x.Index).term()
		switch u := under(x.X.Type()).(type) {
		case *types.Array:
			e.safe(st, "index out of range", And(Le(IntC(0), i), Lt(i, IntC(u.Len()))), x.Pos())
			t := Select(a, i)
			st.note(t, x.Type())
			return mkVal(t, x.Type())
		default:
			e.safe(st, "string index out of range", And(Le(IntC(0), i), Lt(i, StrLen(a))), x.Pos())
			t := StrByte(a, i)
			st.note(t, x.Type())
			return Val{t: t}
		}
	case *ssa.Lookup:
		return e.lookup(st, x)
	case *ssa.Range:
		e.iterID++
		id := e.iterID
		switch u := under(x.X.Type()).(type) {
		case *types.Map:
			ref := e.val(st, x.X).term()
			e.guardMap(st, x.X.Type(), ref, false, x.Pos())
			d := st.comp(mapDomComp(x.X.Type()), mapDomSort(x.X.Type()))
			st.iters[id] = &iterState{mapType: x.X.Type(), ref: ref, dom0: Select(d, ref),
				visited: ConstArr(arraySort(sortOf(u.Key()), sBool), tFalse), count: IntC(0)}
		default:
			st.iters[id] = &iterState{isStr: true, str: e.val(st, x.X).term(), count: IntC(0)}
		}
		return Val{t: IntC(int64(id))}
	case *ssa.Extract:
		return e.val(st, x.Tuple).tup[x.Index]
	case *ssa.Select:
		st.event("select", nil)
		for _, c := range x.States {
			if c.Dir == types.RecvOnly {
				e.note(st, "received")
				break
			}
		}
		var tup []Val
		tt := x.Type().(*types.Tuple)
		for i := 0; i < tt.Len(); i++ {
			tup = append(tup, mkVal(st.freshTerm("select", tt.At(i).Type()), tt.At(i).Type()))
		}
		return Val{tup: tup}
	case *ssa.SliceToArrayPointer:
		unsupported("slice to array pointer")
	}
	unsupported(fmt.Sprintf("value %T", v))
	return Val{}
}

// initZero zero-initialises a fresh object.
func (e *Engine) initZero(st *State, T types.Type, ref *Term) {
	if n := tname(T); n == "bytes.Buffer" || n == "strings.Builder" {
		bufSet(st, ref, StrC(""))
	}
	switch u := under(T).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if isStruct(ft) || isArray(ft) {
				e.initZero(st, ft, subAddr(T, i, ref))
				continue
			}
			c := fieldComp(T, i)
			st.write(c, ref, Store(st.comp(c, arraySort(sInt, sortOf(ft))), ref, zeroTerm(ft)))
		}
	case *types.Array:
		if isStruct(u.Elem()) {
			st.zeroElems(u.Elem(), ref)
			return
		}
		st.storeAt(T, ref, zeroTerm(T))
	default:
		st.storeAt(T, ref, zeroTerm(T))
	}
}

func (e *Engine) fieldAddr(st *State, x *ssa.FieldAddr) Val {
	base := e.val(st, x.X)
	S := x.X.Type().Underlying().(*types.Pointer).Elem()
	ft := under(S).(*types.Struct).Field(x.Field).Type()
	if base.pl != nil {
		p := *base.pl
		if p.cell == nil {
			unsupported("field address of a non-cell place")
		}
		p.path = append(append([]int(nil), p.path...), x.Field)
		p.typ = ft
		return Val{pl: &p}
	}
	e.safe(st, "nil dereference", Neq(base.t, IntC(0)), x.Pos())
	if isStruct(ft) || isArray(ft) {
		return Val{t: subAddr(S, x.Field, base.t)}
	}
	return Val{pl: &Place{comp: fieldComp(S, x.Field), sort: sortOf(ft), ref: base.t, typ: ft}}
}

func (e *Engine) indexAddr(st *State, x *ssa.IndexAddr) Val {
	i := e.val(st, x.Index).term()
	var el types.Type
	var ref, off *Term
	switch u := under(x.X.Type()).(type) {
	case *types.Slice:
		s := e.val(st, x.X).term()
		e.safe(st, "index out of range", And(Le(IntC(0), i), Lt(i, SLen(s))), x.Pos())
		el, ref, off = u.Elem(), SRef(s), Add(SOff(s), i)
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		ref = e.val(st, x.X).term()
		e.safe(st, "nil dereference", Neq(ref, IntC(0)), x.Pos())
		e.safe(st, "index out of range", And(Le(IntC(0), i), Lt(i, IntC(a.Len()))), x.Pos())
		el, off = a.Elem(), i
	}
	if isStruct(el) {
		return Val{t: elemAddr(el, ref, off)}
	}
	if isArray(el) {
		unsupported("array of arrays")
	}
	return Val{pl: &Place{comp: arrComp(el), sort: sortOf(el), ref: ref, idx: off, typ: el}}
}

func (e *Engine) lookup(st *State, x *ssa.Lookup) Val {
	if m, ok := under(x.X.Type()).(*types.Map); ok {
		ref := e.val(st, x.X).term()
		kk := e.val(st, x.Index).term()
		e.guardMap(st, x.X.Type(), ref, false, x.Pos())
		dom := mapDom(st, x.X.Type(), ref, kk)
		raw := mapVal(st, x.X.Type(), ref, kk)
		st.note(raw, m.Elem())
		v := Ite(dom, raw, zeroTerm(m.Elem()))
		st.note(v, m.Elem())
		if x.CommaOk {
			return Val{tup: []Val{mkVal(v, m.Elem()), {t: dom}}}
		}
		return mkVal(v, m.Elem())
	}
	s := e.val(st, x.X).term()
	i := e.val(st, x.Index).term()
	e.safe(st, "string index out of range", And(Le(IntC(0), i), Lt(i, StrLen(s))), x.Pos())
	t := StrByte(s, i)
	st.note(t, x.Type())
	return Val{t: t}
}

func (e *Engine) unop(st *State, x *ssa.UnOp) Val {
	switch x.Op {
	case token.MUL:
		p := e.val(st, x.X)
		T := x.Type()
		var t *Term
		if p.pl != nil {
			e.nilCheckPlace(st, p.pl, x.Pos())
			e.guardPlace(st, p.pl, false, x.Pos())
			t = st.placeRead(p.pl)
		} else {
			e.safe(st, "nil dereference", Neq(p.t, IntC(0)), x.Pos())
			e.guardStruct(st, T, p.t, false, x.Pos())
			t = loadAt(st, T, p.t)
		}
		st.note(t, T)
		return mkVal(t, T)
	case token.NOT:
		return Val{t: Not(e.val(st, x.X).term())}
	case token.SUB:
		v := e.val(st, x.X).term()
		if v.sort == sReal {
			return Val{t: App("r-", sReal, RealC("0.0"), v)}
		}
		return Val{t: neg(v)}
	case token.XOR:
		return Val{t: App("bitnot", sInt, e.val(st, x.X).term())}
	case token.ARROW:
		T := x.Type()
		if ch, ok := under(x.X.Type()).(*types.Chan); ok && isTime(ch.Elem()) {
			// the tick of a timer, whose channel is never closed
			if e.specs.events["slept"] != nil {
				e.emit(st, "slept", []*Term{Fresh("tick", sInt)}, x.Pos())
			}
			t := mkVal(st.freshTerm("recv", ch.Elem()), ch.Elem())
			if _, ok := T.(*types.Tuple); ok {
				return Val{tup: []Val{t, mkVal(tTrue, types.Typ[types.Bool])}}
			}
			return t
		}
		e.note(st, "received")
		if tt, ok := T.(*types.Tuple); ok {
			var tup []Val
			for i := 0; i < tt.Len(); i++ {
				tup = append(tup, mkVal(st.freshTerm("recv", tt.At(i).Type()), tt.At(i).Type()))
			}
			return Val{tup: tup}
		}
		return mkVal(st.freshTerm("recv", T), T)
	}
	unsupported("unary " + x.Op.String())
	return Val{}
}

func (e *Engine) binop(st *State, op token.Token, xv, yv Val, xt, yt, rt types.Type, pos token.Pos) *Term {
	x, y := xv.term(), yv.term()
	switch op {
	case token.EQL, token.NEQ:
		if isIface(xt) && !isIface(yt) {
			y = boxIface(yt, y)
		} else if isIface(yt) && !isIface(xt) {
			x = boxIface(xt, x)
		}
		var eq *Term
		if x.sort == sSlice {
			// only comparison with nil is possible
			if y.op == sSlice.dt.ctor && y.args[0].op == "int" {
				eq = Eq(SRef(x), IntC(0))
			} else {
				eq = Eq(SRef(y), IntC(0))
			}
		} else {
			eq = Eq(x, y)
		}
		if op == token.NEQ {
			return Not(eq)
		}
		return eq
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x.sort == sString {
			switch op {
			case token.LSS:
				return App("str.<", sBool, x, y)
			case token.LEQ:
				return App("str.<=", sBool, x, y)
			case token.GTR:
				return App("str.<", sBool, y, x)
			default:
				return App("str.<=", sBool, y, x)
			}
		}
		switch op {
		case token.LSS:
			return Lt(x, y)
		case token.LEQ:
			return Le(x, y)
		case token.GTR:
			return Lt(y, x)
		default:
			return Le(y, x)
		}
	}
	if x.sort == sString && op == token.ADD {
		return Concat(x, y)
	}
	if x.sort == sReal {
		switch op {
		case token.ADD:
			return App("r+", sReal, x, y)
		case token.SUB:
			return App("r-", sReal, x, y)
		case token.MUL:
			return App("r*", sReal, x, y)
		case token.QUO:
			return App("/", sReal, x, y)
		}
	}
	n := unsignedBits(rt)
	wrap := func(t *Term) *Term {
		if n == 0 || t.op == "int" && t.num.Sign() >= 0 && t.num.Cmp(pow2(n)) < 0 {
			return t
		}
		return App("mod", sInt, t, BigC(pow2(n)))
	}
	switch op {
	case token.ADD:
		r := Add(x, y)
		if n > 0 {
			m := BigC(pow2(n))
			return Ite(Lt(r, m), r, Sub(r, m))
		}
		return r
	case token.SUB:
		r := Sub(x, y)
		if n > 0 {
			return Ite(Le(y, x), r, Add(r, BigC(pow2(n))))
		}
		return r
	case token.MUL:
		return wrap(Mul(x, y))
	case token.QUO, token.REM:
		e.safe(st, "division by zero", Neq(y, IntC(0)), pos)
		return goDivMod(op == token.QUO, x, y, n > 0)
	case token.AND:
		if k, m := maskConst(y); k {
			return modTerm(x, m)
		}
		if k, m := maskConst(x); k {
			return modTerm(y, m)
		}
	case token.SHL:
		if y.op == "int" && y.num.IsInt64() && y.num.Int64() < 64 {
			return wrap(Mul(x, BigC(pow2(int(y.num.Int64())))))
		}
	case token.SHR:
		if y.op == "int" && y.num.IsInt64() && y.num.Int64() < 64 {
			return App("div", sInt, x, BigC(pow2(int(y.num.Int64()))))
		}
	}
	if x.op == "int" && y.op == "int" {
		switch op {
		case token.OR:
			return BigC(new(big.Int).Or(x.num, y.num))
		case token.XOR:
			return BigC(new(big.Int).Xor(x.num, y.num))
		case token.AND:
			return BigC(new(big.Int).And(x.num, y.num))
		}
	}
	// a choice of constants: combine the alternatives
	if op == token.AND || op == token.OR || op == token.XOR || op == token.AND_NOT {
		if constChoices(x)*constChoices(y) > 0 && constChoices(x)*constChoices(y) <= 16 {
			return mapChoices(x, func(a *Term) *Term {
				return mapChoices(y, func(b *Term) *Term {
					r := new(big.Int)
					switch op {
					case token.AND:
						r.And(a.num, b.num)
					case token.OR:
						r.Or(a.num, b.num)
					case token.XOR:
						r.Xor(a.num, b.num)
					default:
						r.AndNot(a.num, b.num)
					}
					return BigC(r)
				})
			})
		}
	}
	return App("bitop"+op.String(), sInt, x, y)
}

// constChoices counts the constants a term chooses from, 0: it is not such a choice.
func constChoices(t *Term) int {
	if t.op == "int" {
		return 1
	}
	if t.op != "ite" {
		return 0
	}
	a, b := constChoices(t.args[1]), constChoices(t.args[2])
	if a == 0 || b == 0 {
		return 0
	}
	return a + b
}

func mapChoices(t *Term, f func(*Term) *Term) *Term {
	if t.op == "int" {
		return f(t)
	}
	return Ite(t.args[0], mapChoices(t.args[1], f), mapChoices(t.args[2], f))
}

func modTerm(x, m *Term) *Term {
	if x.op == "int" {
		return BigC(new(big.Int).Mod(x.num, m.num))
	}
	return App("mod", sInt, x, m)
}

func maskConst(t *Term) (bool, *Term) {
	if t.op != "int" || t.num.Sign() < 0 {
		return false, nil
	}
	n := new(big.Int).Add(t.num, big.NewInt(1))
	if new(big.Int).And(n, t.num).Sign() == 0 {
		return true, BigC(n)
	}
	return false, nil
}

func goDivMod(quo bool, x, y *Term, unsigned bool) *Term {
	if x.op == "int" && y.op == "int" && y.num.Sign() != 0 {
		if quo {
			return BigC(new(big.Int).Quo(x.num, y.num))
		}
		return BigC(new(big.Int).Rem(x.num, y.num))
	}
	op := "mod"
	if quo {
		op = "div"
	}
	pos := App(op, sInt, x, y)
	if unsigned {
		return pos
	}
	return Ite(Le(IntC(0), x), pos, neg(App(op, sInt, neg(x), y)))
}

func (e *Engine) changeType(st *State, v Val, from, to types.Type) Val {
	if v.t != nil && v.t.sort != sortOf(to) {
		return Val{t: e.restruct(v.t, to)}
	}
	if v.pl != nil {
		return v
	}
	return v
}

// restruct rebuilds a struct term at an identical-underlying struct sort.
func (e *Engine) restruct(t *Term, to types.Type) *Term {
	s := sortOf(to)
	if t.sort == s {
		return t
	}
	if s.dt == nil || t.sort.dt == nil {
		unsupported("conversion of " + t.sort.name + " to " + s.name)
	}
	var as []*Term
	u := under(to).(*types.Struct)
	for i := range s.dt.sorts {
		as = append(as, e.restruct(Sel(t, i), u.Field(i).Type()))
	}
	return Mk(s, as...)
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

var byteElem = types.Typ[types.Uint8]
var byteArr *Sort

// bytesToStr is the string with the contents of byte slice s in view h.
func bytesToStr(h heapView, s *Term) *Term {
	arr := Select(h.comp(arrComp(byteElem), arraySort(sInt, arraySort(sInt, sInt))), SRef(s))
	return arrToStr(arr, SOff(s), SLen(s))
}

func arrToStr(arr, off, n *Term) *Term {
	if arr.op == "bytesof" && off.op == "int" && off.num.Sign() == 0 && n == StrLen(arr.args[0]) {
		return arr.args[0]
	}
	if n.op == "int" && n.num.Sign() == 0 {
		return StrC("")
	}
	if arr.op == "sha256arr" && off.op == "int" && off.num.Sign() == 0 && n.op == "int" && n.num.IsInt64() && n.num.Int64() == 32 {
		return App("sha256", sString, arr.args[0])
	}
	return App("strof", sString, arr, off, n)
}

func init() {
	addGroundAxiom(&GroundAxiom{name: "string of bytes", op: "strof", gen: 5, facts: func(t *Term) []*Term {
		fs := []*Term{Imp(Le(IntC(0), t.args[2]), Eq(App("str.len", sInt, t), t.args[2]))}
		if t.args[0].op == "bytesof" {
			s := t.args[0].args[0]
			fs = append(fs, Imp(And(Le(IntC(0), t.args[1]), Le(IntC(0), t.args[2]), Le(Add(t.args[1], t.args[2]), StrLen(s))),
				Eq(t, App("str.substr", sString, s, t.args[1], t.args[2]))))
		}
		return fs
	}})
}

// newBytes allocates a byte slice holding string s.
func (st *State) newBytes(s *Term) *Term {
	ref := st.newRef()
	srt := arraySort(sInt, arraySort(sInt, sInt))
	c := arrComp(byteElem)
	st.write(c, ref, Store(st.comp(c, srt), ref, App("bytesof", arraySort(sInt, sInt), s)))
	n := StrLen(s)
	return SliceT(ref, IntC(0), n, n)
}

func (e *Engine) convert(st *State, v *Term, from, to types.Type) *Term {
	fs, ts := sortOf(from), sortOf(to)
	switch {
	case fs == sString && isByteSlice(to):
		return st.newBytes(v)
	case isByteSlice(from) && ts == sString:
		return bytesToStr(st, v)
	case fs == sString && ts == sString:
		return v
	case fs == sInt && ts == sString:
		return App("runestr", sString, v)
	case fs == sInt && ts == sReal:
		if v.op == "int" {
			return RealC(v.num.String() + ".0")
		}
		return App("to_real", sReal, v)
	case fs == sReal && ts == sInt:
		return App("trunc", sInt, v)
	case fs == sReal && ts == sReal:
		return v
	case fs == sInt && ts == sInt:
		n := unsignedBits(to)
		if m := signedBits(to); m > 0 && (unsignedBits(from) >= m || signedBits(from) > m) {
			// a conversion that may change the value
			half := new(big.Int).Rsh(pow2(m), 1)
			if v.op == "int" {
				r := new(big.Int).Mod(v.num, pow2(m))
				if r.Cmp(half) >= 0 {
					r.Sub(r, pow2(m))
				}
				return BigC(r)
			}
			if unsignedBits(from) != m {
				v = App("mod", sInt, v, BigC(pow2(m)))
			}
			return Ite(Lt(v, BigC(half)), v, Sub(v, BigC(pow2(m))))
		}
		if n == 0 {
			return v
		}
		fn := unsignedBits(from)
		if fn > 0 && fn <= n {
			return v
		}
		if v.op == "int" {
			return BigC(new(big.Int).Mod(v.num, pow2(n)))
		}
		if n == 64 {
			return Ite(Le(IntC(0), v), v, Add(v, BigC(two64)))
		}
		return App("mod", sInt, v, BigC(pow2(n)))
	case fs == sSlice && ts == sString, fs == sString && ts == sSlice:
		unsupported("rune conversion")
	}
	if fs == ts {
		return v
	}
	unsupported("conversion " + tname(from) + " to " + tname(to))
	return nil
}

func (e *Engine) slice(st *State, x *ssa.Slice) *Term {
	var lo, hi, mx *Term
	lo = IntC(0)
	if x.Low != nil {
		lo = e.val(st, x.Low).term()
	}
	if x.High != nil {
		hi = e.val(st, x.High).term()
	}
	if x.Max != nil {
		mx = e.val(st, x.Max).term()
	}
	switch u := under(x.X.Type()).(type) {
	case *types.Basic:
		s := e.val(st, x.X).term()
		if hi == nil {
			hi = StrLen(s)
		}
		e.safe(st, "slice bounds out of range", And(Le(IntC(0), lo), Le(lo, hi), Le(hi, StrLen(s))), x.Pos())
		return Substr(s, lo, hi)
	case *types.Slice:
		s := e.val(st, x.X).term()
		cp := SCap(s)
		if mx == nil {
			mx = cp
		}
		if hi == nil {
			hi = SLen(s)
		}
		e.safe(st, "slice bounds out of range", And(Le(IntC(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, cp)), x.Pos())
		return SliceT(SRef(s), Add(SOff(s), lo), Sub(hi, lo), Sub(mx, lo))
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		ref := e.val(st, x.X).term()
		n := IntC(a.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		e.safe(st, "slice bounds out of range", And(Le(IntC(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)), x.Pos())
		return SliceT(ref, lo, Sub(hi, lo), Sub(mx, lo))
	}
	unsupported("slice of " + tname(x.X.Type()))
	return nil
}

// typeAssert returns true when it continued execution itself.
func (e *Engine) typeAssert(st *State, x *ssa.TypeAssert, cont func(st *State, v Val)) bool {
	a := e.val(st, x.X).term()
	var ok, v *Term
	if isIface(x.AssertedType) {
		v = a
		ok = e.implements(a, x.AssertedType)
	} else {
		n := tname(x.AssertedType)
		s := sortOf(x.AssertedType)
		registerBox(n, s)
		ok = Eq(DynType(a), typeIDTerm(n))
		v = Unbox(n, a, s)
		st.note(v, x.AssertedType)
	}
	if x.CommaOk {
		z := v
		if ok != tTrue {
			z = Ite(ok, v, zeroTerm(x.AssertedType))
			if !isIface(x.AssertedType) {
				st.note(z, x.AssertedType)
			}
		}
		st.fr().env[x] = Val{tup: []Val{mkVal(z, x.AssertedType), {t: ok}}}
		return false
	}
	e.safe(st, "type assertion to "+shortName(tname(x.AssertedType)), ok, x.Pos())
	st.fr().env[x] = mkVal(v, x.AssertedType)
	return false
}

func (e *Engine) implements(a *Term, iface types.Type) *Term {
	it := under(iface).(*types.Interface)
	if a == anyNil {
		return tFalse
	}
	if it.NumMethods() == 0 {
		return Neq(a, anyNil)
	}
	if strings.HasPrefix(a.op, "box_") {
		if T := typeByName[a.op[4:]]; T != nil {
			return Bool(types.Implements(T, it))
		}
	}
	if a.op == "ite" {
		return Ite(a.args[0], e.implements(a.args[1], iface), e.implements(a.args[2], iface))
	}
	return And(Neq(a, anyNil), App("impl|"+tname(iface), sBool, DynType(a)))
}

// next advances a range iterator.
func (e *Engine) next(st *State, x *ssa.Next, cont func(st *State, v Val)) {
	id := int(e.val(st, x.Iter).t.num.Int64())
	it := st.iters[id]
	st.writes = append(st.writes, writeRec{iter: id})
	tt := x.Type().(*types.Tuple)
	if it.isStr {
		more := Fresh("more", sBool)
		st.assume(Imp(more, Lt(it.count, StrLen(it.str))))
		st.assume(Imp(Not(more), Le(StrLen(it.str), it.count)))
		kt := it.count
		r := st.freshTerm("rune", types.Typ[types.Int32])
		w := Fresh("runew", sInt)
		st.assume(And(Le(IntC(1), w), Le(w, IntC(4))))
		// ASCII bytes are their own runes
		b := StrByte(it.str, kt)
		st.assume(Imp(And(more, Lt(b, IntC(128))), And(Eq(r, b), Eq(w, IntC(1)))))
		st.assume(Imp(And(more, Le(IntC(128), b)), Le(IntC(128), r)))
		n := *it
		n.count = Ite(more, Add(it.count, w), it.count)
		st.iters[id] = &n
		cont(st, Val{tup: []Val{{t: more}, {t: kt}, {t: r}}})
		return
	}
	m := under(it.mapType).(*types.Map)
	e.guardMap(st, it.mapType, it.ref, false, x.Pos())
	yes := func(st *State, key *Term) {
		it := st.iters[id]
		st.assume(mapDom(st, it.mapType, it.ref, key))
		st.assume(Not(Select(it.visited, key)))
		n := *it
		n.visited = Store(it.visited, key, tTrue)
		n.count = Add(it.count, IntC(1))
		st.iters[id] = &n
		v := mapVal(st, it.mapType, it.ref, key)
		st.note(v, m.Elem())
		st.trace = append(st.trace, "range-next")
		if !e.feasible(st) {
			return
		}
		cont(st, Val{tup: []Val{{t: tTrue}, mkVal(key, m.Key()), mkVal(v, m.Elem())}})
	}
	no := func(st *State) {
		it := st.iters[id]
		kb := Var("itk!", sortOf(m.Key()))
		dom := Select(Select(st.comp(mapDomComp(it.mapType), mapDomSort(it.mapType)), it.ref), kb)
		vis := Select(it.visited, kb)
		var pats [][]*Term
		pats = append(pats, []*Term{dom})
		if it.visited.op == "var" {
			pats = append(pats, []*Term{vis})
		}
		for _, key := range constKeys(it.dom0) {
			st.assume(Imp(mapDom(st, it.mapType, it.ref, key), Select(it.visited, key)))
		}
		st.assume(Imp(Neq(it.ref, IntC(0)), Forall([]*Term{kb}, pats, Imp(And(dom, Select(it.dom0, kb)), vis))))
		st.trace = append(st.trace, "range-done")
		if !e.feasible(st) {
			return
		}
		cont(st, Val{tup: []Val{{t: tFalse}, mkVal(zeroTerm(m.Key()), m.Key()), mkVal(zeroTerm(m.Elem()), m.Elem())}})
	}
	_ = tt
	it0 := it.dom0
	if keys := constKeys(it0); len(keys) > 0 {
		for _, key := range keys {
			yes(st.clone(), key)
		}
	} else if a := st.clone(); true {
		yes(a, a.freshTerm("key", m.Key()))
	}
	no(st)
}

// constKeys are the keys of a map known to have just a few constant ones.
func constKeys(dom *Term) []*Term {
	var ks []*Term
	seen := map[*Term]bool{}
	for ; dom.op == "store"; dom = dom.args[0] {
		k := dom.args[1]
		if k.op != "str" && k.op != "int" || dom.args[2] != tTrue && dom.args[2] != tFalse {
			return nil
		}
		if !seen[k] && dom.args[2] == tTrue {
			ks = append(ks, k)
		}
		seen[k] = true
	}
	if dom.op != "constarr" || dom.args[0] != tFalse || len(ks) > 24 {
		return nil
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
	return ks
}

var typeByName = map[string]types.Type{}
