package main

// Loops: natural loops are cut at their header. The modified state is havocked, and the largest inductive
// subset of the candidate invariants (automatic ones and those written in the contract) is assumed.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type loopCtx struct {
	loop   *Loop
	frame  int
	onBack func(st *State)
	iters  []int
	parent *loopCtx
	stop   bool // paths leaving the loop are not followed
}

func (e *Engine) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *Loop {
	m, ok := e.loops[fn]
	if !ok {
		m = map[*ssa.BasicBlock]*Loop{}
		for _, x := range fn.Blocks {
			for _, h := range x.Succs {
				if h.Dominates(x) {
					l := m[h]
					if l == nil {
						l = &Loop{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
						m[h] = l
					}
					var rec func(y *ssa.BasicBlock)
					rec = func(y *ssa.BasicBlock) {
						if l.body[y] {
							return
						}
						l.body[y] = true
						for _, p := range y.Preds {
							rec(p)
						}
					}
					rec(x)
				}
			}
		}
		e.loops[fn] = m
	}
	return m[b]
}

// modset is the state a loop may change.
type modset struct {
	points  map[string]map[*Term]bool // component -> loop-invariant references written
	regions map[string]map[*Term]bool
	fresh   map[string]bool // written at references allocated inside the loop
	whole   map[string]bool
	scalars map[string]bool
	cells   map[cellKey]bool
	iters   map[int]bool
	alloc   bool
	sorts   map[string]*Sort
}

func newModset() *modset {
	return &modset{points: map[string]map[*Term]bool{}, regions: map[string]map[*Term]bool{}, fresh: map[string]bool{}, whole: map[string]bool{},
		scalars: map[string]bool{}, cells: map[cellKey]bool{}, iters: map[int]bool{}, sorts: map[string]*Sort{}}
}

func (m *modset) size() int {
	n := len(m.fresh) + len(m.whole) + len(m.scalars) + len(m.cells) + len(m.iters)
	for _, p := range m.points {
		n += len(p)
	}
	for _, p := range m.regions {
		n += len(p)
	}
	if m.alloc {
		n++
	}
	return n
}

func (m *modset) add(w writeRec, stamp int, entry *State) {
	switch {
	case w.base:
		m.alloc = true
	case w.cell != nil:
		if _, ok := entry.cells[*w.cell]; ok {
			m.cells[*w.cell] = true
		}
	case w.iter != 0:
		if _, ok := entry.iters[w.iter]; ok {
			m.iters[w.iter] = true
		}
	case w.ref == nil:
		m.scalars[w.comp] = true
	case w.whole:
		m.whole[w.comp] = true
	case w.ref.maxV <= stamp:
		if m.points[w.comp] == nil {
			m.points[w.comp] = map[*Term]bool{}
		}
		m.points[w.comp][w.ref] = true
	default:
		r := rootRef(w.ref)
		b, off := splitLin(r)
		if b != nil && b.op == "var" && b.kind == 2 && b.varID > stamp && off.Sign() >= 0 {
			m.fresh[w.comp] = true
			return
		}
		if strings.HasPrefix(w.ref.op, "elem|") && w.ref.args[0].maxV <= stamp {
			if m.regions[w.comp] == nil {
				m.regions[w.comp] = map[*Term]bool{}
			}
			m.regions[w.comp][App(w.ref.op, sInt, w.ref.args[0], IntC(0))] = true
			return
		}
		m.whole[w.comp] = true
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sortedTerms(m map[*Term]bool) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

// havoc makes everything in the modset arbitrary.
func (m *modset) havoc(st *State, orig func(name string) *Sort) {
	st.private = nil
	var base *Term
	if m.alloc || len(m.fresh) > 0 {
		st.newBase("next")
		base = st.base
	} else {
		st.newBase("next") // later allocations are newer than everything bound here
		base = st.base
	}
	seen := map[string]bool{}
	names := map[string]bool{}
	for c := range m.points {
		names[c] = true
	}
	for c := range m.fresh {
		names[c] = true
	}
	for c := range m.whole {
		names[c] = true
	}
	for c := range m.regions {
		names[c] = true
	}
	oldBase := base // everything allocated before the loop is older than base
	for _, c := range sortedKeys(names) {
		if seen[c] {
			continue
		}
		seen[c] = true
		s := orig(c)
		h := st.comp(c, s)
		if m.whole[c] {
			st.comps[c] = heapRoot(Fresh(c+"'", s), c, st.next())
			st.writes = append(st.writes, writeRec{comp: c, whole: true, ref: IntC(0)})
			continue
		}
		if !m.fresh[c] && len(m.regions[c]) == 0 {
			for _, p := range sortedTerms(m.points[c]) {
				h = Store(h, p, heapRoot(Fresh(c+"@", s.v), c, st.next()))
				st.writes = append(st.writes, writeRec{comp: c, ref: p})
			}
			st.comps[c] = h
			continue
		}
		nh := heapRoot(Fresh(c+"'", s), c, st.next())
		fr := &frameInfo{old: h, base: oldBase}
		for _, p := range sortedTerms(m.points[c]) {
			fr.points = append(fr.points, p)
			st.writes = append(st.writes, writeRec{comp: c, ref: p})
		}
		for _, p := range sortedTerms(m.regions[c]) {
			fr.regions = append(fr.regions, p)
			st.writes = append(st.writes, writeRec{comp: c, ref: p})
			// regions are re-logged as a region write
		}
		if m.fresh[c] {
			st.writes = append(st.writes, writeRec{comp: c, ref: Add(base, IntC(0))})
		}
		frames[nh] = fr
		// explicit frame fact for the solver
		r := Var("fr!", sInt)
		var side []*Term
		root := App("rootref", sInt, r)
		_ = root
		side = append(side, Lt(r, preLoopNext(st, oldBase)))
		for _, p := range fr.points {
			side = append(side, Not(App("=", sBool, r, p)))
		}
		for _, p := range fr.regions {
			side = append(side, Not(And(Eq(App("addrtag", sInt, r), IntC(addrOps[p.op])), App("=", sBool, App("inv0|"+p.op, sInt, r), p.args[0]))))
		}
		// interior addresses (negative) may belong to objects allocated in the loop
		side = append(side, Le(IntC(0), r))
		st.assume(Forall([]*Term{r}, [][]*Term{{App("select", s.v, nh, r)}}, Imp(And(side...), Eq(App("select", s.v, nh, r), App("select", s.v, h, r)))))
		st.comps[c] = nh
	}
	for _, c := range sortedKeys(m.scalars) {
		st.comps[c] = Fresh(c+"'", orig(c))
		st.writes = append(st.writes, writeRec{comp: c})
		if strings.HasPrefix(c, "G|n|") {
			st.assume(Le(IntC(0), st.comps[c]))
		}
	}
}

// preLoopNext bounds references existing before the loop: they are below the new base.
func preLoopNext(st *State, base *Term) *Term { return base }

type candInv struct {
	spec bool
	name string
	key  string
	f    func(st *State) *Term
	term *Term // cached evaluation
}

func (e *Engine) enterLoop(st *State, l *Loop, pred *ssa.BasicBlock, k Cont) {
	e.assignPhis(st, l.header, pred)
	entry := st.clone()
	stamp := varCnt
	frame := st.fr().id
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	oldMode := e.mode
	var parent *loopCtx
	if len(st.active) > 0 {
		parent = st.active[len(st.active)-1]
	}
	stopping := false
	body := func(s *State, onBack func(st *State), exit Cont) {
		ctx := &loopCtx{loop: l, frame: frame, onBack: onBack, parent: parent, stop: stopping}
		s.active = append(s.active, ctx)
		e.instrs(s, l.header, 0, exit)
	}
	if e.unrolls(st, l, phis) {
		var again func(s *State)
		again = func(s *State) {
			s.active = s.active[:len(s.active)-1]
			body(s, again, k)
		}
		body(st, again, k)
		return
	}
	stopCont := func(*State, []Val) {}
	// Which phis change at all, and what state does the body write?
	m := newModset()
	phiMod := map[*ssa.Phi]bool{}
	havocState := func(src *State) *State {
		s := src.clone()
		m.havoc(s, func(c string) *Sort { return e.compSort(c, m.sorts[c]) })
		for key := range m.cells {
			s.cells[key] = s.freshTerm("cell", key.alloc.Type().(*types.Pointer).Elem())
			kk := key
			s.writes = append(s.writes, writeRec{cell: &kk})
		}
		for id := range m.iters {
			it := *s.iters[id]
			s.writes = append(s.writes, writeRec{iter: id})
			if it.isStr {
				it.count = Fresh("strpos", sInt)
				s.assume(Le(IntC(0), it.count))
			} else {
				it.visited = Fresh("visited", it.visited.sort)
				it.count = Fresh("nvisited", sInt)
				s.assume(Le(IntC(0), it.count))
			}
			s.iters[id] = &it
		}
		for _, p := range phis {
			if phiMod[p] {
				t := s.freshTerm("phi_"+phiName(p), p.Type())
				if t0 := entry.fr().env[p].t; t.sort == sSlice && t0 != nil {
					if part, start := e.resliced(l, p); part {
						s.assume(Eq(SRef(t), SRef(t0)))
						off := SOff(t)
						if start {
							s.assume(Eq(off, SOff(t0)))
							off = SOff(t0)
						}
						t = SliceT(SRef(t0), off, SLen(t), SCap(t))
					}
				}
				s.fr().env[p] = mkVal(t, p.Type())
			}
		}
		return s
	}
	for round := 0; ; round++ {
		if round > 12 {
			unsupported("modified-state computation does not converge")
		}
		before := m.size() + len(phiMod)
		e.mode = modeModset
		stopping = true
		h := havocState(entry)
		nw := len(h.writes)
		stamp2 := stamp
		saveAbort := e.onAbort
		e.onAbort = func(*State, string, string, token.Pos) {}
		body(h, func(b *State) {
			for _, w := range b.writes[nw:] {
				if w.comp != "" {
					if t, ok := b.comps[w.comp]; ok {
						m.sorts[w.comp] = t.sort
					}
				}
				m.add(w, stamp2, entry)
			}
			for _, p := range phis {
				ov, nv := entry.fr().env[p], b.fr().env[p]
				cur := h.fr().env[p]
				_ = cur
				if !sameVal(ov, nv) && !phiMod[p] {
					phiMod[p] = true
				}
			}
		}, stopCont)
		e.onAbort = saveAbort
		e.mode = oldMode
		stopping = false
		if m.size()+len(phiMod) == before {
			break
		}
	}
	if oldMode == modeModset {
		// one arbitrary iteration and the exits
		s := havocState(entry)
		s.trace = append(s.trace, "loop")
		body(s, func(b *State) {}, k)
		return
	}
	// candidate invariants
	h := havocState(entry)
	cands := e.candidates(entry, h, l, phis, phiMod, m)
	// What an enclosing loop's inference already dropped on this path is not tried again: the enclosing
	// invariants only become weaker from round to round.
	memo := map[string]bool{}
	if parent != nil {
		key := e.loopKey(entry, l)
		if e.run.dropped == nil {
			e.run.dropped = map[string]map[string]bool{}
		}
		if e.run.dropped[key] == nil {
			e.run.dropped[key] = map[string]bool{}
		}
		memo = e.run.dropped[key]
	}
	nth := map[string]int{}
	var keep []*candInv
	for _, c := range cands {
		nth[c.name]++
		c.key = fmt.Sprintf("%s #%d", c.name, nth[c.name])
		if memo[c.key] {
			continue
		}
		t := c.f(entry)
		if t == nil {
			continue
		}
		if t == tTrue || entry.pcSet[t] {
			keep = append(keep, c)
			continue
		}
		if t == tFalse {
			continue
		}
		memo[c.key] = true
		if v := proveCand(entry.pc, t, 800, c.spec); v == "proved" {
			keep = append(keep, c)
			memo[c.key] = false
		} else if os.Getenv("GVC_CAND") != "" && c.spec {
			fmt.Fprintf(os.Stderr, "  entry drop %s (%s) %s\n", c.name, v, e.posStr(loopPos(l)))
		}
	}
	cands = keep
	e.mode = modeHoudini
	stopping = true
	for round := 0; len(cands) > 0; round++ {
		hs := h.clone()
		for _, c := range cands {
			hs.assume(c.f(hs))
		}
		var backs []*State
		saveAbort := e.onAbort
		e.onAbort = func(*State, string, string, token.Pos) {}
		body(hs, func(b *State) { backs = append(backs, b) }, stopCont)
		e.onAbort = saveAbort
		dropped := false
		for _, b := range backs {
			var all []*Term
			var ts []*Term
			for _, c := range cands {
				t := c.f(b)
				ts = append(ts, t)
				all = append(all, t)
			}
			if len(ts) > 1 {
				if proveCand(b.pc, And(all...), 1500, false) == "proved" {
					continue
				}
			}
			var nk []*candInv
			for i, c := range cands {
				if ts[i] == tTrue || b.pcSet[ts[i]] {
					nk = append(nk, c)
					continue
				}
				if v := proveCand(b.pc, ts[i], 1000, c.spec); v == "proved" {
					nk = append(nk, c)
				} else {
					dropped = true
					memo[c.key] = true
					if os.Getenv("GVC_CAND") != "" {
						fmt.Fprintf(os.Stderr, "  drop[%d] %d %s (%s)\n", round, stats.Queries, c.name, v)
						if d := os.Getenv("GVC_DUMPC"); d != "" {
							os.WriteFile(fmt.Sprintf("%s/%d.smt2", d, stats.Queries), []byte("; "+c.name+"\n; goal: "+ts[i].String()+"\n"+buildQuery(b.pc, Not(ts[i])).text("")+"(check-sat)\n"), 0644)
						}
					}
				}
			}
			cands = nk
		}
		if !dropped {
			break
		}
	}
	e.mode = oldMode
	stopping = false
	if os.Getenv("GVC_CAND") != "" {
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "  keep %s: %s\n", c.name, c.f(h))
		}
	}
	for _, c := range cands {
		h.assume(c.f(h))
	}
	if oldMode == modeReal && e.quiet == 0 {
		for _, c := range cands {
			e.obls = append(e.obls, &Obl{Contract: e.run.name, Name: "loop invariant: " + c.name, Kind: "invariant", Verdict: "proved", Solver: "z3-new",
				Pos: e.posStr(loopPos(l)), Tags: []string{"invariant"}})
		}
	}
	h.trace = append(h.trace, "loop@"+e.posStr(loopPos(l)))
	held := fmt.Sprint(heldKeys(h))
	body(h, func(b *State) {
		if hk := fmt.Sprint(heldKeys(b)); hk != held {
			e.oblige(b, "lock", "locks held are the same at every loop iteration", []string{"C11"}, tFalse, loopPos(l))
		}
	}, k)
}

// unrolls: the loop has no branches and counts from one constant to another in few steps, so that its iterations can
// be executed one by one, which is exact.
func (e *Engine) unrolls(st *State, l *Loop, phis []*ssa.Phi) bool {
	h := l.header
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Block() != h || !l.body[h.Succs[0]] || l.body[h.Succs[1]] {
		return false
	}
	leaves := false
	for b := range l.body {
		if stay := 0; b != h {
			// at most one way on: no branches inside, only out of the loop
			for _, x := range b.Succs {
				if l.body[x] {
					stay++
				}
			}
			if stay > 1 {
				return false
			}
			leaves = leaves || stay < len(b.Succs)
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.Next, *ssa.Send:
				return false
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && isRepoPkg(fnPkg(f)) && len(f.Blocks) > 1 {
					return false
				}
			}
		}
	}
	env := st.fr().env
	// num: the value of v at the start of the first iteration, and what it grows by in each
	var num func(v ssa.Value) (n, step int64, ok bool)
	num = func(v ssa.Value) (int64, int64, bool) {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && sortOf(x.Type()) == sInt && constTerm(x).num.IsInt64() {
				return constTerm(x).num.Int64(), 0, true
			}
			return 0, 0, false
		case *ssa.Phi:
			if x.Block() != h {
				break
			}
			t := env[x].t
			if t == nil || t.op != "int" || !t.num.IsInt64() {
				return 0, 0, false
			}
			var step int64
			for i, p := range h.Preds {
				if !l.body[p] {
					continue
				}
				s, ok := stepOf(x.Edges[i], x)
				if !ok || step != 0 && step != s {
					return 0, 0, false
				}
				step = s
			}
			return t.num.Int64(), step, true
		case *ssa.BinOp:
			if x.Block() != h || x.Op != token.ADD && x.Op != token.SUB {
				break
			}
			a, as, ok1 := num(x.X)
			b, bs, ok2 := num(x.Y)
			if !ok1 || !ok2 {
				return 0, 0, false
			}
			if x.Op == token.SUB {
				return a - b, as - bs, true
			}
			return a + b, as + bs, true
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && l.body[x.Block()] {
				if in, ok := x.Call.Args[0].(ssa.Instruction); ok && in.Block() != nil && l.body[in.Block()] {
					return 0, 0, false
				}
				if a, ok := env[x.Call.Args[0]]; ok && a.t != nil && a.t.sort == sSlice {
					if n := SLen(a.t); n.op == "int" && n.num.IsInt64() {
						return n.num.Int64(), 0, true
					}
				}
				return 0, 0, false
			}
		}
		if in, ok := v.(ssa.Instruction); ok && in.Block() != nil && l.body[in.Block()] {
			return 0, 0, false
		}
		if x, ok := env[v]; ok && x.t != nil && x.t.op == "int" && x.t.num.IsInt64() {
			return x.t.num.Int64(), 0, true
		}
		return 0, 0, false
	}
	a, as, ok1 := num(cmp.X)
	b, bs, ok2 := num(cmp.Y)
	if !ok1 || !ok2 {
		return false
	}
	most := int64(24)
	if leaves {
		most = 8
	}
	d, ds := b-a, bs-as // goes on while d > 0 (>= 0, < 0, <= 0)
	switch cmp.Op {
	case token.LSS:
		return ds < 0 && d <= -ds*most
	case token.LEQ:
		return ds < 0 && d < -ds*most
	case token.GTR:
		return ds > 0 && -d <= ds*most
	case token.GEQ:
		return ds > 0 && -d < ds*most
	}
	return false
}

// resliced: every iteration leaves p as it is or re-slices it (part); start: always from its first element on
func (e *Engine) resliced(l *Loop, p *ssa.Phi) (part, start bool) {
	part, start = true, true
	for i, v := range p.Edges {
		if !l.body[l.header.Preds[i]] || v == ssa.Value(p) {
			continue
		}
		x, ok := v.(*ssa.Slice)
		if !ok || x.X != ssa.Value(p) {
			return false, false
		}
		if x.Low != nil {
			start = false
		}
	}
	return part, start
}

// stepOf: v is phi plus a constant
func stepOf(v ssa.Value, phi *ssa.Phi) (int64, bool) {
	x, ok := v.(*ssa.BinOp)
	if !ok || x.X != ssa.Value(phi) || x.Op != token.ADD && x.Op != token.SUB {
		return 0, false
	}
	c, ok := x.Y.(*ssa.Const)
	if !ok || c.Value == nil || sortOf(c.Type()) != sInt || !constTerm(c).num.IsInt64() {
		return 0, false
	}
	n := constTerm(c).num.Int64()
	if x.Op == token.SUB {
		n = -n
	}
	return n, true
}

// loopKey identifies a visit of loop l by the branches taken to it, whatever the round of the enclosing inference.
func (e *Engine) loopKey(st *State, l *Loop) string {
	var ks []string
	for _, f := range st.frames {
		ks = append(ks, f.fn.String())
	}
	for _, t := range st.trace {
		if !strings.HasPrefix(t, "loop") {
			ks = append(ks, t)
		}
	}
	return fmt.Sprintf("%d %d %s", l.header.Index, l.header.Parent().Pos(), strings.Join(ks, " "))
}

func heldKeys(st *State) []string {
	var ks []string
	for a, m := range st.held {
		ks = append(ks, fmt.Sprintf("%d%s", a.id, m))
	}
	sort.Strings(ks)
	return ks
}

func loopPos(l *Loop) token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func sameVal(a, b Val) bool {
	if a.t != nil && b.t != nil {
		return a.t == b.t
	}
	if a.pl != nil && b.pl != nil {
		return a.pl.comp == b.pl.comp && a.pl.ref == b.pl.ref && a.pl.idx == b.pl.idx && a.pl.cell == b.pl.cell
	}
	return a.t == nil && b.t == nil && a.pl == nil && b.pl == nil
}

func (e *Engine) compSort(c string, s *Sort) *Sort {
	if s != nil {
		return s
	}
	if t, ok := compSorts[c]; ok {
		return t
	}
	panic("unknown sort of component " + c)
}

// metavar is a loop-varying quantity an invariant template may mention.
type metavar struct {
	name string
	typ  types.Type
	get  func(st *State) *Term
}

func (e *Engine) metavars(st *State, l *Loop, phis []*ssa.Phi, phiMod map[*ssa.Phi]bool, m *modset) []metavar {
	var out []metavar
	frameIdx := len(st.frames) - 1
	for _, p := range phis {
		p := p
		if !phiMod[p] || st.frames[frameIdx].env[p].t == nil {
			continue
		}
		out = append(out, metavar{phiName(p), p.Type(), func(s *State) *Term { return s.frames[frameIdx].env[p].t }})
	}
	for key := range m.cells {
		key := key
		T := key.alloc.Type().(*types.Pointer).Elem()
		out = append(out, metavar{key.alloc.Comment, T, func(s *State) *Term { return s.cells[key] }})
	}
	// captured or heap cells written at loop-invariant references
	for _, c := range sortedKeys(m.points) {
		if !strings.HasPrefix(c, "C|") {
			continue
		}
		for _, r := range sortedTerms(m.points[c]) {
			c, r := c, r
			T := e.specs.typeOfCell(c)
			if T == nil {
				continue
			}
			srt := arraySort(sInt, sortOf(T))
			out = append(out, metavar{"cell", T, func(s *State) *Term { return Select(s.comp(c, srt), r) }})
		}
	}
	// objects the loop writes into
	objs := map[*Term]bool{}
	for _, c := range sortedKeys(m.points) {
		for _, r := range sortedTerms(m.points[c]) {
			r := r
			var T types.Type
			if f := strings.Split(c, "|"); f[0] == "F" && len(f) == 3 {
				T = structTypes[f[1]]
			}
			for isAddrOp(r.op) {
				T = nil
				if f := strings.Split(r.op, "|"); f[0] == "sub" {
					T = structTypes[f[1]]
				}
				r = r.args[0]
			}
			if T == nil || objs[r] {
				continue
			}
			objs[r] = true
			out = append(out, metavar{"object", types.NewPointer(T), func(s *State) *Term { return r }})
		}
	}
	// maps written by the loop
	for _, c := range sortedKeys(m.points) {
		T := mapCompType[c]
		if T == nil {
			continue
		}
		for _, r := range sortedTerms(m.points[c]) {
			r := r
			out = append(out, metavar{"map", T, func(s *State) *Term { return r }})
		}
	}
	return out
}

// outerMeta: loop variables of enclosing loops (fixed while the inner loop runs).
func (e *Engine) outerMeta(st *State) []metavar {
	var out []metavar
	for _, c := range st.active {
		for fi, f := range st.frames {
			if f.id != c.frame {
				continue
			}
			fi := fi
			for _, in := range c.loop.header.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if f.env[p].t == nil {
					continue
				}
				out = append(out, metavar{phiName(p), p.Type(), func(s *State) *Term { return s.frames[fi].env[p].t }})
			}
			// the key and value an enclosing range statement is at
			for _, b := range c.loop.header.Parent().Blocks {
				if !c.loop.body[b] {
					continue
				}
				for _, in := range b.Instrs {
					x, ok := in.(*ssa.Extract)
					if !ok || x.Index == 0 || f.env[x].t == nil {
						continue
					}
					if _, ok := x.Tuple.(*ssa.Next); ok {
						out = append(out, metavar{fmt.Sprintf("range%d", x.Index), x.Type(), func(s *State) *Term { return s.frames[fi].env[x].t }})
					}
				}
			}
		}
	}
	return out
}

func (e *Engine) candidates(entry, h *State, l *Loop, phis []*ssa.Phi, phiMod map[*ssa.Phi]bool, m *modset) []*candInv {
	var out []*candInv
	frameIdx := len(h.frames) - 1
	add := func(name string, f func(st *State) *Term) { out = append(out, &candInv{name: name, f: f}) }
	mvs := e.metavars(h, l, phis, phiMod, m)
	// bounds found in the loop's own comparisons
	type bound struct {
		t    *Term
		name string
	}
	var bounds []bound
	addBound := func(t *Term, n string) {
		for _, b := range bounds {
			if b.t == t {
				return
			}
		}
		bounds = append(bounds, bound{t, n})
	}
	env := h.frames[frameIdx].env
	resolve := func(v ssa.Value) *Term {
		if c, ok := v.(*ssa.Const); ok {
			if c.Value != nil && sortOf(c.Type()) == sInt {
				return constTerm(c)
			}
			return nil
		}
		if in, ok := v.(ssa.Instruction); ok && in.Block() != nil && l.body[in.Block()] && in.Parent() == l.header.Parent() {
			return nil
		}
		if x, ok := env[v]; ok && x.t != nil && x.t.sort == sInt {
			return x.t
		}
		return nil
	}
	for _, b := range l.header.Parent().Blocks {
		if !l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					for _, v := range []ssa.Value{bo.X, bo.Y} {
						if t := resolve(v); t != nil {
							addBound(t, v.Name())
						}
					}
				}
			}
			if call, ok := in.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					if x, ok := env[call.Call.Args[0]]; ok && x.t != nil && x.t.sort == sSlice {
						addBound(SLen(x.t), "len("+call.Call.Args[0].Name()+")")
					}
				}
			}
		}
	}
	for _, v := range mvs {
		v := v
		e0 := v.get(entry)
		switch v.get(h).sort {
		case sInt:
			if b, ok := under(v.typ).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				add(v.name+" >= initial", func(s *State) *Term { return Le(e0, v.get(s)) })
				add(v.name+" <= initial", func(s *State) *Term { return Le(v.get(s), e0) })
				add(v.name+" >= 0", func(s *State) *Term { return Le(IntC(0), v.get(s)) })
				add(v.name+" >= -1", func(s *State) *Term { return Le(IntC(-1), v.get(s)) })
				for _, bd := range bounds {
					bd := bd
					add(v.name+" <= "+bd.name, func(s *State) *Term { return Le(v.get(s), bd.t) })
					add(v.name+" < "+bd.name, func(s *State) *Term { return Lt(v.get(s), bd.t) })
					add(v.name+" >= "+bd.name, func(s *State) *Term { return Le(bd.t, v.get(s)) })
					add(v.name+" >= "+bd.name+"-1", func(s *State) *Term { return Le(Add(bd.t, IntC(-1)), v.get(s)) })
				}
				// linear relations between two counters
				for _, w := range mvs {
					w := w
					if w.get(h) == v.get(h) || w.get(h).sort != sInt || w.get(h).id < v.get(h).id {
						continue
					}
					if b2, ok := under(w.typ).(*types.Basic); !ok || b2.Info()&types.IsInteger == 0 {
						continue
					}
					w0 := w.get(entry)
					add(v.name+"-"+w.name+" constant", func(s *State) *Term { return Eq(Sub(v.get(s), w.get(s)), Sub(e0, w0)) })
					add(v.name+"+"+w.name+" constant", func(s *State) *Term { return Eq(Add(v.get(s), w.get(s)), Add(e0, w0)) })
				}
			}
			if _, ok := under(v.typ).(*types.Basic); !ok {
				add(v.name+" non-nil", func(s *State) *Term { return Neq(v.get(s), IntC(0)) })
			}
		case sBool:
			add("!"+v.name, func(s *State) *Term { return Not(v.get(s)) })
			add(v.name, func(s *State) *Term { return v.get(s) })
		case sAny:
			add(v.name+" non-nil", func(s *State) *Term { return Neq(v.get(s), anyNil) })
			if strings.HasPrefix(e0.op, "box_") {
				id := DynType(e0)
				add(v.name+" same type", func(s *State) *Term { return Eq(DynType(v.get(s)), id) })
			}
		case sFn:
			add(v.name+" non-nil", func(s *State) *Term { return Neq(v.get(s), fnNil) })
		case sSlice:
			// a list that is only re-sliced stays a part of the one it was
			add(v.name+" same array", func(s *State) *Term { return Eq(SRef(v.get(s)), SRef(e0)) })
			add(v.name+" same start", func(s *State) *Term { return Eq(SOff(v.get(s)), SOff(e0)) })
			add(v.name+" same end", func(s *State) *Term {
				return Eq(Add(SOff(v.get(s)), SLen(v.get(s))), Add(SOff(e0), SLen(e0)))
			})
			add(v.name+" no longer", func(s *State) *Term { return Le(SLen(v.get(s)), SLen(e0)) })
			for _, w := range mvs {
				w := w
				if b, ok := under(w.typ).(*types.Basic); !ok || b.Info()&types.IsInteger == 0 || w.get(h).sort != sInt {
					continue
				}
				w0 := w.get(entry)
				add("len("+v.name+")-"+w.name+" constant", func(s *State) *Term { return Eq(Sub(SLen(v.get(s)), w.get(s)), Sub(SLen(e0), w0)) })
				add("len("+v.name+")+"+w.name+" constant", func(s *State) *Term { return Eq(Add(SLen(v.get(s)), w.get(s)), Add(SLen(e0), w0)) })
			}
		}
		add(v.name+" unchanged", func(s *State) *Term { return Eq(v.get(s), e0) })
	}
	for _, id := range sortedInts(m.iters) {
		id := id
		if entry.iters[id] == nil || entry.iters[id].isStr {
			continue
		}
		u := under(entry.iters[id].mapType).(*types.Map)
		add("visited keys exist", func(s *State) *Term {
			it := s.iters[id]
			kb := Var("itv!", sortOf(u.Key()))
			vis := Select(it.visited, kb)
			if vis == tFalse {
				return tTrue
			}
			var pats [][]*Term
			if it.visited.op == "var" {
				pats = [][]*Term{{vis}}
			}
			return Forall([]*Term{kb}, pats, Imp(vis, And(Neq(it.ref, IntC(0)), Select(Select(s.comp(mapDomComp(it.mapType), mapDomSort(it.mapType)), it.ref), kb))))
		})
	}
	// text collected in a buffer stays safe
	if refs := m.points[bufComp]; refs != nil {
		for _, r := range sortedTerms(refs) {
			r := r
			add("buffered text is safe", func(s *State) *Term { return safeText(Select(s.comp(bufComp, bufSort), r)) })
		}
	}
	// ghost scalars and points unchanged
	for _, c := range sortedKeys(m.scalars) {
		c := c
		if !e.liveEvent(c) {
			continue
		}
		srt := e.compSort(c, m.sorts[c])
		c0 := entry.comp(c, srt)
		add(c+" unchanged", func(s *State) *Term { return Eq(s.comp(c, srt), c0) })
	}
	for _, c := range sortedKeys(m.points) {
		c := c
		srt := e.compSort(c, m.sorts[c])
		for _, r := range sortedTerms(m.points[c]) {
			r := r
			c0 := Select(entry.comp(c, srt), r)
			if srt.v.k != nil {
				continue
			}
			add(c+" unchanged", func(s *State) *Term { return Eq(Select(s.comp(c, srt), r), c0) })
		}
	}
	if e.run != nil {
		out = append(out, e.contractCandidates(entry, h, l, mvs, m)...)
	}
	return out
}

func sortedInts(m map[int]bool) []int {
	var is []int
	for i := range m {
		is = append(is, i)
	}
	sort.Ints(is)
	return is
}

// liveEvent: may the count or the arguments of the event recorded in component comp matter to the contract being
// verified? Only expressions of that contract and preconditions of callees can speak of events.
func (e *Engine) liveEvent(comp string) bool {
	p := strings.Split(comp, "|")
	if e.run == nil || e.run.c == nil || len(p) < 3 || p[0] != "G" || p[1] == "v" {
		return true
	}
	if e.run.live == nil {
		live := map[string]bool{}
		seen := map[*Expr]bool{}
		var walk func(x *Expr)
		walk = func(x *Expr) {
			if x == nil || seen[x] {
				return
			}
			seen[x] = true
			live[x.name] = true
			if sf := e.specs.funcs[x.name]; sf != nil {
				walk(sf.body)
			}
			for _, a := range x.args {
				walk(a)
			}
			for _, t := range x.trig {
				for _, a := range t {
					walk(a)
				}
			}
		}
		clauses := func(cs []*Clause) {
			for _, cl := range cs {
				walk(cl.expr)
				for _, a := range cl.args {
					walk(a)
				}
			}
		}
		lets := func(m map[string]*Expr) {
			for _, x := range m {
				walk(x)
			}
		}
		clauses(e.run.c.clauses)
		lets(e.run.c.lets)
		for _, c := range e.specs.contracts {
			if c.modular {
				clauses(c.byKind("requires"))
				lets(c.lets)
			}
		}
		for _, x := range e.specs.externs {
			clauses(x.byKind("requires"))
			lets(x.lets)
		}
		e.run.live = live
	}
	return e.run.live[p[2]]
}
