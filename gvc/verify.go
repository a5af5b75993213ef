package main

// Verification of one contract: the function is executed symbolically for arbitrary inputs and heap, callees with a
// modular contract are replaced by it, everything else of the repository is inlined; loops are cut by invariants.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type runCtx struct {
	name    string
	c       *Contract
	safety  []string
	entryFn *ssa.Function
	env     map[string]SV
	old     heapView
	ghosts  map[string]specType
	next0   *Term
	pkg     *ssa.Package
	kept    map[string]map[*Term]bool // captured state of the returned closure
	returns int
	exits   int
	covered map[*Clause]bool
	dropped map[string]map[string]bool // candidates given up, by loop visit
	live    map[string]bool            // events the contract speaks of
}

// prepare resolves guards, modular contracts and axioms.
func (e *Engine) prepare() error {
	for _, c := range e.specs.contracts {
		if !c.modular {
			continue
		}
		if c.dropped {
			continue
		}
		if fn := e.findFunc(c.fn); fn != nil {
			if c.optional && (len(fn.Params) != len(c.params) || fn.Signature.Results().Len() != len(c.results) && len(c.results) > 0) {
				continue
			}
			if e.specs.modular[fn.String()] != nil {
				return fmt.Errorf("%s: two modular contracts for %s", c.file, c.fn)
			}
			e.specs.modular[fn.String()] = c
		}
	}
	for _, gs := range e.specs.guardSrc {
		T, err := e.resolveType(gs.typ, gs.sc)
		if err != nil {
			return fmt.Errorf("guard %s: %v", gs.typ, err)
		}
		g := &Guard{structT: T, lock: gs.lock, fields: map[string]bool{}, content: map[string]bool{}, owned: map[string]bool{}, src: gs.typ + "." + gs.lock, tags: []string{"C11"}}
		for _, cl := range gs.clauses {
			switch cl.kind {
			case "fields":
				for _, f := range strings.Fields(cl.text) {
					ok := false
					u, isS := under(T).(*types.Struct)
					for i := 0; isS && i < u.NumFields(); i++ {
						if u.Field(i).Name() == f {
							ok = true
							if a, isA := under(u.Field(i).Type()).(*types.Array); isA && isStruct(a.Elem()) {
								// the elements live in the components of the element type
								g.contTypes = append(g.contTypes, a.Elem())
								leafComps(a.Elem(), IntC(0), func(c string, _ *Term) { g.content[c] = true })
								continue
							}
							g.fields[fieldComp(T, i)] = true
						}
					}
					if !ok {
						continue // the field does not exist (any more)
					}
				}
			case "content":
				X, err := e.resolveType(strings.ReplaceAll(cl.text, " ", ""), gs.sc)
				if err != nil {
					continue
				}
				g.contTypes = append(g.contTypes, X)
				if isMap(X) {
					g.content[mapDomComp(X)] = true
					g.content[mapValComp(X)] = true
					g.content[mapLenComp(X)] = true
				} else if isStruct(X) {
					leafComps(X, IntC(0), func(c string, _ *Term) { g.content[c] = true })
				} else if s, ok := under(X).(*types.Slice); ok {
					g.content[arrComp(s.Elem())] = true
				}
			case "tags":
				g.tags = strings.Fields(cl.text)
			case "invariant":
				g.invs = append(g.invs, cl)
			case "owns":
				X, err := e.resolveType(strings.ReplaceAll(cl.text, " ", ""), gs.sc)
				if err != nil {
					continue
				}
				g.owned[arrComp(X)] = true // elements of slices of this type
			}
		}
		if g.lockAddr(IntC(0)) == nil {
			// the lock does not exist: accesses can never be shown to be protected
			g.lock = gs.lock
		}
		e.specs.guards = append(e.specs.guards, g)
	}
	// cell types, for captured variables used as loop variables
	for _, fn := range e.allRepoFunctions() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok {
					T := a.Type().(*types.Pointer).Elem()
					e.specs.cellTypes[cellComp(T)] = T
				}
			}
		}
	}
	for _, ax := range e.specs.axioms {
		c := &evalCtx{e: e, h: snapshot{}, old: snapshot{}, env: map[string]SV{}, bound: 1}
		t := c.boolean(ax.expr)
		quantAxioms = append(quantAxioms, &QuantAxiom{name: ax.name, t: t})
	}
	return nil
}

func (e *Engine) fail(c *Contract, kind, name, detail string, pos string) {
	e.obls = append(e.obls, &Obl{Contract: c.name, Name: name, Kind: kind, Tags: c.allTags(), Verdict: "failed", Goal: detail, Pos: pos})
}

func (c *Contract) allTags() []string {
	m := map[string]bool{}
	for _, t := range c.tags {
		m[t] = true
	}
	for _, t := range c.safety {
		m[t] = true
	}
	for _, cl := range c.clauses {
		for _, t := range cl.tags {
			m[t] = true
		}
	}
	return sortedKeys(m)
}

// tryBool evaluates a clause; ok=false when it mentions names that are not bound yet.
func tryBool(c *evalCtx, x *Expr) (t *Term, err string) {
	defer func() {
		if r := recover(); r != nil {
			if s, is := r.(specErr); is {
				err = s.msg
				return
			}
			panic(r)
		}
	}()
	return c.boolean(x), ""
}

func (e *Engine) verify(c *Contract) {
	fn := e.findFunc(c.fn)
	if fn == nil || len(fn.Blocks) == 0 {
		if !c.optional {
			e.fail(c, "target", "function under contract exists: "+c.fn, "the function does not exist", "")
		}
		return
	}
	if len(fn.Params) != len(c.params) {
		if !c.optional {
			e.fail(c, "target", "signature of "+c.fn, fmt.Sprintf("%d parameters, the contract has %d", len(fn.Params), len(c.params)), e.posStr(fn.Pos()))
		}
		return
	}
	t0 := time.Now()
	r := &runCtx{name: c.name, c: c, safety: c.safety, entryFn: fn, env: map[string]SV{}, ghosts: map[string]specType{}, covered: map[*Clause]bool{}}
	e.run = r
	e.mode = modeReal
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch v := x.(type) {
				case unsupportedErr:
					e.fail(c, "unsupported", "within the verifier's reach", v.msg, e.posStr(fn.Pos()))
				case specErr:
					e.fail(c, "specification", "contract applies to the code", v.msg, e.posStr(fn.Pos()))
				default:
					panic(x)
				}
			}
		}()
		e.verifyBody(c, fn)
		if r.returns == 0 && r.exits == 0 {
			e.fail(c, "vacuity", "some execution satisfies the preconditions", "no path of the function is reachable", e.posStr(fn.Pos()))
		}
		for _, cl := range c.byKind("cover") {
			if !r.covered[cl] {
				e.fail(c, "cover", "reachable: "+cl.text, "no execution reaches this case", e.posStr(fn.Pos()))
			}
		}
	}()
	_ = t0
}

func (e *Engine) verifyBody(c *Contract, fn *ssa.Function) {
	r := e.run
	st := newState()
	st.newBase("next")
	for _, cl := range c.byKind("ghost") {
		for _, b := range cl.metas {
			T, err := e.specType(b.typ, c.sc)
			if err != nil {
				panic(specErr{cl.pos + ": " + err.Error()})
			}
			r.ghosts[b.name] = T
		}
	}
	r.pkg = fnPkg(fn)
	e.runInit(st, r.pkg, func(st *State) {
		st.writes = nil
		st.newBase("next")
		r.next0 = st.next()
		epochNext = map[string]*Term{"": r.next0}
		var args []Val
		for i, p := range fn.Params {
			t := st.freshTerm(c.params[i], p.Type())
			if i == 0 && fn.Signature.Recv() != nil {
				if _, ok := under(p.Type()).(*types.Pointer); ok {
					st.assume(Lt(IntC(0), t))
				}
			}
			args = append(args, mkVal(t, p.Type()))
			r.env[c.params[i]] = SV{t: t, typ: p.Type()}
		}
		for _, cl := range c.byKind("given") {
			for _, b := range cl.metas {
				T, err := e.specType(b.typ, c.sc)
				if err != nil {
					panic(specErr{cl.pos + ": " + err.Error()})
				}
				if T.gk != nil {
					r.env[b.name] = mkSV(Fresh(b.name, T.sort()), T)
					continue
				}
				r.env[b.name] = SV{t: st.freshTerm(b.name, T.typ), typ: T.typ}
			}
		}
		r.old = st.snap()
		e.assumeRequires(st, c, len(c.then) == 0)
		e.assumeHeld(st, c)
		if len(c.then) == 0 {
			e.initGhosts(st, c)
		}
		r.old = st.snap()
		if st.infeasible || !e.feasible(st) {
			e.fail(c, "vacuity", "preconditions are satisfiable", "contradictory preconditions", e.posStr(fn.Pos()))
			return
		}
		e.onAbort = func(st *State, kind, msg string, pos token.Pos) { e.atAbort(c, st, kind, msg, pos) }
		quiet := e.quiet
		if len(c.then) > 0 {
			e.quiet++ // the constructor's own obligations belong to its own contract, if any
			e.onAbort = func(st *State, kind, msg string, pos token.Pos) {}
		}
		if c.via == "go" {
			// the contract is that of every goroutine the function starts
			e.onGo = func(st *State, x *ssa.Go) {
				save, abort, hook := e.quiet, e.onAbort, e.onGo
				defer func() { e.quiet, e.onAbort, e.onGo = save, abort, hook }()
				e.onGo = nil
				e.quiet = quiet
				e.onAbort = func(st *State, kind, msg string, pos token.Pos) { e.atAbort(c, st, kind, msg, pos) }
				e.startGo(c, st, x)
			}
			defer func() { e.onGo = nil }()
		}
		e.callFn(st, fn, args, nil, fn.Pos(), func(st *State, res []Val) {
			if len(c.then) == 0 {
				e.atReturn(c, fn, st, res, fn.Signature)
				return
			}
			save := e.quiet
			e.quiet = quiet
			e.onAbort = func(st *State, kind, msg string, pos token.Pos) { e.atAbort(c, st, kind, msg, pos) }
			var f Val
			var T types.Type
			if c.via != "go" {
				f, T = res[0], fn.Signature.Results().At(0).Type()
			}
			if c.via == "go" {
				e.quiet = save
				e.onAbort = func(st *State, kind, msg string, pos token.Pos) {}
				return
			}
			if c.via != "" {
				p, ok := under(T).(*types.Pointer)
				if !ok || !isStruct(p.Elem()) {
					panic(specErr{"the result of " + c.fn + " has no field " + c.via})
				}
				u := under(p.Elem()).(*types.Struct)
				found := false
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == c.via {
						f, T, found = Val{t: fieldLoad(st, p.Elem(), i, f.term())}, u.Field(i).Type(), true
					}
				}
				if !found {
					panic(specErr{"the result of " + c.fn + " has no field " + c.via})
				}
			}
			e.invokeClosure(c, st, f, T, 0, fn.Pos())
			e.quiet = save
			e.onAbort = func(st *State, kind, msg string, pos token.Pos) {}
		})
		e.quiet = quiet
	})
}

func (e *Engine) assumeRequires(st *State, c *Contract, final bool) {
	for _, kind := range []string{"requires", "assume"} {
		for _, cl := range c.byKind(kind) {
			t, err := tryBool(e.ctx(st), cl.expr)
			if err != "" {
				if final {
					panic(specErr{err})
				}
				continue
			}
			st.assume(t)
		}
	}
}

// assumeHeld starts the function with the locks its contract says the caller holds.
func (e *Engine) assumeHeld(st *State, c *Contract) {
	for _, cl := range c.byKind("holds") {
		la := e.ctx(st).lockAddr(cl.expr)
		st.held[la] = cl.name
		for _, g := range e.specs.guards {
			ga := g.lockAddr(IntC(0))
			if ga == nil || ga.op != la.op {
				continue
			}
			e.assumeInv(st, g, la.args[0])
		}
		st.snaps["locked"] = st.snap()
	}
}

func (c *evalCtx) lockAddr(x *Expr) *Term {
	v := c.eval(x)
	if v.addr == nil {
		c.fail(x, "not the address of a lock")
	}
	return v.addr
}

func (e *Engine) initGhosts(st *State, c *Contract) {
	for _, cl := range c.byKind("ghost") {
		if cl.expr == nil {
			continue
		}
		T := e.run.ghosts[cl.name]
		if T.gk != nil {
			v := e.ctx(st).eval(cl.expr)
			if v.gk != nil {
				st.comps["G|v|"+cl.name] = v.t
				continue
			}
			st.comps["G|v|"+cl.name] = ConstArr(T.sort(), e.ctx(st).coerce(v, T.gv))
			continue
		}
		st.comps["G|v|"+cl.name] = e.ctx(st).coerce(e.ctx(st).eval(cl.expr), T.typ)
	}
	for _, cl := range c.byKind("init") {
		st.assume(e.ctx(st).boolean(cl.expr))
	}
}

// runInit executes the package initialiser so that read-only package variables have their values.
func (e *Engine) runInit(st *State, p *ssa.Package, k func(st *State)) {
	var ro []*ssa.Global
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" && e.readOnly(g) {
			ro = append(ro, g)
		}
	}
	init := p.Func("init")
	if len(ro) == 0 || init == nil {
		k(st)
		return
	}
	sort.Slice(ro, func(i, j int) bool { return ro[i].Name() < ro[j].Name() })
	e.quiet++
	saveAbort := e.onAbort
	e.onAbort = func(*State, string, string, token.Pos) {}
	first := true
	e.frameID++
	f := &Frame{fn: init, env: map[ssa.Value]Val{}, id: e.frameID}
	st.frames = append(st.frames, f)
	// the guard is not set when the program starts
	g := p.Members["init$guard"].(*ssa.Global)
	gv := e.globalAddr(g)
	st.placeWrite(gv.pl, tFalse)
	e.block(st, init.Blocks[0], nil, func(st *State, _ []Val) {
		st.frames = nil
		if first {
			first = false
			e.quiet--
			e.onAbort = saveAbort
			k(st)
			e.quiet++
		}
	})
	e.quiet--
	e.onAbort = saveAbort
}

// readOnly: a package variable only written by the package initialiser and never aliased.
func (e *Engine) readOnly(g *ssa.Global) bool {
	if g.Object() != nil && g.Object().Exported() {
		return false
	}
	for _, fn := range e.allRepoFunctions() {
		if fnPkg(fn) != g.Pkg || fn.Name() == "init" && fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					ld, ok := in.(*ssa.UnOp)
					if !ok || ld.Op != token.MUL {
						return false
					}
					for _, use := range *ld.Referrers() {
						switch u := use.(type) {
						case *ssa.Lookup, *ssa.Range, *ssa.Index, *ssa.DebugRef, *ssa.BinOp:
						case *ssa.Call:
							bi, ok := u.Call.Value.(*ssa.Builtin)
							if !ok || bi.Name() != "len" {
								return false
							}
						case *ssa.IndexAddr:
							if !onlyRead(u) {
								return false
							}
						default:
							if isMap(ld.Type()) || isSliceT(ld.Type()) {
								return false
							}
						}
					}
				}
			}
		}
	}
	return true
}

// onlyRead: nothing is written through the address, and it is not kept
func onlyRead(v ssa.Value) bool {
	for _, use := range *v.Referrers() {
		switch u := use.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if u.Op != token.MUL || isMap(u.Type()) || isSliceT(u.Type()) {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyRead(u) {
				return false
			}
		case *ssa.IndexAddr:
			if !onlyRead(u) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// startGo runs a goroutine that was just started, in an arbitrary later state.
func (e *Engine) startGo(c *Contract, st *State, x *ssa.Go) {
	st = st.clone()
	if x.Call.IsInvoke() || !e.feasible(st) {
		return
	}
	if _, ok := x.Call.Value.(*ssa.Builtin); ok {
		return
	}
	var args []Val
	for _, a := range x.Call.Args {
		args = append(args, e.val(st, a))
	}
	f := e.val(st, x.Call.Value)
	e.laterState(st, 0)
	e.run.old = st.snap()
	for n := range st.comps {
		if strings.HasPrefix(n, "G|v|") {
			delete(st.comps, n)
		}
	}
	e.assumeRequires(st, c, true)
	e.initGhosts(st, c)
	e.run.old = st.snap()
	if st.infeasible || !e.feasible(st) {
		return
	}
	e.call(st, &x.Call, f, args, x.Pos(), func(st *State, res []Val) {
		e.atReturn(c, nil, st, nil, types.NewSignatureType(nil, nil, nil, nil, nil, false))
	})
}

// laterState makes everything arbitrary but the variables allocated and written by the function so far.
func (e *Engine) laterState(st *State, level int) (map[string]map[*Term]bool, map[string]*Term) {
	r := e.run
	ep := st.epoch + "i"
	kept := map[string]map[*Term]bool{}
	skip := map[string]bool{}
	for _, w := range st.writes {
		if w.whole {
			skip[w.comp] = true
		}
	}
	comps := map[string]*Term{}
	for _, w := range st.writes {
		if w.comp == "" || w.ref == nil || skip[w.comp] || !allocatedHere(w.ref) || strings.HasPrefix(w.comp, "M") || strings.HasPrefix(w.comp, "A|") {
			continue
		}
		if kept[w.comp] == nil {
			kept[w.comp] = map[*Term]bool{}
		}
		kept[w.comp][w.ref] = true
	}
	for cn, refs := range kept {
		s := compSorts[cn]
		h := initialComp(cn, ep, s)
		for _, ref := range sortedTerms(refs) {
			h = Store(h, ref, Select(st.comps[cn], ref))
		}
		comps[cn] = h
	}
	for cn, t := range st.comps {
		if strings.HasPrefix(cn, "G|v|") && level > 0 {
			comps[cn] = t
		}
	}
	st.comps = comps
	st.epoch = ep
	// read-only package variables keep their values
	frames, after := st.frames, st
	e.runInit(st, r.pkg, func(s *State) { after = s })
	if after != st {
		*st = *after
	}
	st.frames = frames
	st.writes = nil
	st.newBase("next")
	st.held = map[*Term]string{}
	st.snaps = map[string]snapshot{}
	r.next0 = st.next()
	epochNext[ep] = r.next0
	r.kept = kept
	return kept, comps
}

// invokeClosure calls the function value a constructor returned, in an arbitrary later state.
func (e *Engine) invokeClosure(c *Contract, st *State, f Val, T types.Type, level int, pos token.Pos) {
	r := e.run
	st = st.clone()
	if !e.feasible(st) {
		return
	}
	kept, comps := e.laterState(st, level)
	sig, ok := under(T).(*types.Signature)
	var m *types.Func
	if !ok {
		it, isI := under(T).(*types.Interface)
		if !isI || it.NumMethods() != 1 {
			panic(specErr{"the result of " + c.fn + " cannot be called"})
		}
		m = it.Method(0)
		sig = m.Type().(*types.Signature)
	}
	names := c.then[level]
	if sig.Params().Len() != len(names) {
		panic(specErr{"the function returned by " + c.fn + " has another number of parameters"})
	}
	var args []Val
	for i, n := range names {
		p := sig.Params().At(i)
		t := st.freshTerm(n, p.Type())
		args = append(args, mkVal(t, p.Type()))
		r.env[n] = SV{t: t, typ: p.Type()}
	}
	last := level == len(c.then)-1
	r.old = st.snap()
	if last {
		for n := range comps {
			if strings.HasPrefix(n, "G|v|") {
				delete(st.comps, n)
			}
		}
		e.assumeRequires(st, c, true)
		e.initGhosts(st, c)
		r.old = st.snap()
		if st.infeasible || !e.feasible(st) {
			return
		}
	} else {
		e.assumeRequires(st, c, false)
		e.quiet++
		defer func() { e.quiet-- }()
	}
	k := func(st *State, res []Val) {
		for _, w := range st.writes {
			if w.comp != "" && w.ref != nil && kept[w.comp] != nil {
				for ref := range kept[w.comp] {
					if !provablyDistinct(w.ref, ref) {
						e.oblige(st, "frame", "the returned handler does not change the variables it captured ("+shortName(w.comp)+")", c.allTags(), tFalse, pos)
					}
				}
			}
		}
		if last {
			e.atReturn(c, nil, st, res, sig)
			return
		}
		e.quiet--
		e.invokeClosure(c, st, res[0], sig.Results().At(0).Type(), level+1, pos)
		e.quiet++
	}
	if m != nil {
		e.invoke(st, f.term(), T, m, args, pos, k)
		return
	}
	e.callDynamic(st, f.term(), T, args, pos, k)
}

func (e *Engine) atAbort(c *Contract, st *State, kind, msg string, pos token.Pos) {
	if !e.feasible(st) {
		return
	}
	if e.mode == modeReal && e.quiet == 0 {
		e.run.exits++
		e.cover(c, st)
	}
	// what holds whenever the function ends the process or panics
	if ends := c.byKind("ends"); len(ends) > 0 {
		for _, cl := range ends {
			e.oblige(st, "abort", kind+" ("+msg+") only if "+cl.text, cl.tags, e.ctx(st).boolean(cl.expr), pos)
		}
		return
	}
	abs := c.byKind("aborts")
	if len(abs) > 0 {
		var cs []*Term
		var tags []string
		var txt []string
		for _, cl := range abs {
			cs = append(cs, e.ctx(st).with(e.run.old).boolean(cl.expr))
			tags = append(tags, cl.tags...)
			txt = append(txt, cl.text)
		}
		e.oblige(st, "abort", kind+" ("+msg+") only if "+strings.Join(txt, " or "), tags, Or(cs...), pos)
		return
	}
	if kind == "panic" {
		e.oblige(st, "safety", "no panic: "+msg, e.safetyTags(), tFalse, pos)
		return
	}
	if c.noabort {
		e.oblige(st, "abort", "does not end the process: "+msg, c.allTags(), tFalse, pos)
	}
}

func (e *Engine) atReturn(c *Contract, fn *ssa.Function, st *State, res []Val, sig *types.Signature) {
	r := e.run
	if e.mode == modeReal && e.quiet == 0 {
		r.returns++
	}
	e.paths++
	save := r.env
	r.env = map[string]SV{}
	for k, v := range save {
		r.env[k] = v
	}
	defer func() { r.env = save }()
	for i, v := range res {
		n := ""
		if i < len(c.results) {
			n = c.results[i]
		}
		if n != "" && n != "_" {
			r.env[n] = SV{t: v.term(), typ: sig.Results().At(i).Type()}
		}
	}
	pos := token.NoPos
	if r.entryFn != nil {
		pos = r.entryFn.Pos()
	}
	for _, cl := range c.byKind("ensures") {
		name := cl.name
		if name == "" {
			name = cl.text
		}
		snap := needSnap(c, cl.expr, 0)
		if snap != "" {
			if _, ok := st.snaps[snap]; !ok {
				e.oblige(st, "ensures", name+" (the lock is taken)", cl.tags, tFalse, pos)
				continue
			}
		}
		e.oblige(st, "ensures", name, cl.tags, e.ctx(st).boolean(cl.expr), pos)
	}
	for _, cl := range c.byKind("allocates") {
		for _, a := range cl.args {
			t := e.ctx(st).eval(a).term()
			if t.sort == sSlice {
				t = SRef(t)
			}
			e.oblige(st, "ensures", "the result is memory of its own", c.allTags(), Or(Eq(t, IntC(0)), Le(r.next0, t)), pos)
		}
	}
	e.cover(c, st)
	if len(st.held) != len(c.byKind("holds")) {
		e.oblige(st, "lock", "every lock taken is released on return", []string{"C11"}, tFalse, pos)
	}
	if c.modular {
		e.frameCheck(c, st, pos)
		e.eventCheck(c, st, pos)
	}
}

func (e *Engine) cover(c *Contract, st *State) {
	r := e.run
	for _, cl := range c.byKind("cover") {
		if r.covered[cl] || e.mode != modeReal {
			continue
		}
		a := st.clone()
		t, err := tryBool(e.ctx(a), cl.expr)
		if err != "" {
			panic(specErr{err})
		}
		a.assume(t)
		if !a.infeasible && checkSat(a.pc, 3000) != "unsat" {
			r.covered[cl] = true
		}
	}
}

// needSnap: which lock snapshot an expression mentions.
func needSnap(c *Contract, x *Expr, depth int) string {
	if x == nil || depth > 10 {
		return ""
	}
	if x.op == "call" && x.args[0].op == "ident" {
		switch x.args[0].name {
		case "locked", "unlocked", "relocked":
			return x.args[0].name
		}
	}
	if x.op == "ident" {
		if l, ok := c.lets[x.name]; ok {
			return needSnap(c, l, depth+1)
		}
	}
	for _, a := range x.args {
		if s := needSnap(c, a, depth+1); s != "" {
			return s
		}
	}
	return ""
}

// frameCheck: everything written is allocated here or listed in modifies.
func (e *Engine) frameCheck(c *Contract, st *State, pos token.Pos) {
	guarded := func(comp string) bool {
		for _, g := range e.specs.guards {
			if (g.fields[comp] || g.content[comp] || g.owned[comp]) && len(c.byKind("holds")) == 0 {
				return true
			}
		}
		return false
	}
	var allowed []target
	old := e.ctx(st).with(e.run.old)
	for _, cl := range c.byKind("modifies") {
		for _, a := range cl.args {
			allowed = append(allowed, e.targets(old, a)...)
		}
	}
	done := map[string]bool{}
	for _, w := range st.writes {
		if w.comp == "" || strings.HasPrefix(w.comp, "G|") || guarded(w.comp) {
			continue
		}
		key := w.comp
		if w.ref != nil {
			if allocatedHere(w.ref) {
				continue
			}
			key += fmt.Sprint(w.ref.id)
		}
		if done[key] {
			continue
		}
		done[key] = true
		every := false
		for _, t := range allowed {
			every = every || t.comp == w.comp && t.ref == nil
		}
		if every {
			continue
		}
		if w.ref == nil || w.whole {
			e.oblige(st, "frame", "writes "+shortName(w.comp), c.allTags(), tFalse, pos)
			continue
		}
		var cs []*Term
		for _, t := range allowed {
			if t.comp == w.comp && t.ref != nil {
				cs = append(cs, Eq(t.ref, w.ref))
			}
		}
		// memory allocated by this call
		if e.run.next0 != nil {
			cs = append(cs, Le(e.run.next0, rootRef(w.ref)))
		}
		e.oblige(st, "frame", "writes "+shortName(w.comp)+" only where the contract allows", c.allTags(), Or(cs...), pos)
	}
}

// eventCheck: the contract's emits clauses describe the events exactly.
func (e *Engine) eventCheck(c *Contract, st *State, pos token.Pos) {
	for _, name := range sortedKeys(e.specs.events) {
		ev := e.specs.events[name]
		if ev.silent || c.mayEmit(name) && !c.declares(name) {
			continue
		}
		n := st.comp(ghostCount(name), sInt)
		want := IntC(0)
		for _, cl := range c.byKind("emits") {
			if cl.event != name {
				continue
			}
			b := tTrue
			if cl.expr != nil {
				b = e.ctx(st).boolean(cl.expr)
			}
			want = Add(want, Ite(b, IntC(1), IntC(0)))
			for i, a := range cl.args {
				T, err := e.specType(ev.params[i].typ, ev.sc)
				if err != nil {
					panic(specErr{err.Error()})
				}
				ctx := e.ctx(st)
				v := ctx.coerce(ctx.eval(a), T.typ)
				e.oblige(st, "event", "emits "+name+" with the stated "+ev.params[i].name, cl.tags, Imp(b, Eq(st.comp(ghostArg(name, i), T.sort()), v)), pos)
			}
		}
		e.oblige(st, "event", "emits "+name+" exactly as stated", c.allTags(), Eq(n, want), pos)
	}
}
