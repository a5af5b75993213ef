package main

// Query construction (quantifier instantiation, axiom instances, SMT-LIB text) and solver processes.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// GroundAxiom produces facts for one ground term occurrence.
type GroundAxiom struct {
	name  string
	op    string // head operator it applies to ("" = every term)
	gen   int    // deepest generation it still applies to
	facts func(t *Term) []*Term
}

var groundAxioms = map[string][]*GroundAxiom{}
var usedAxioms = map[string]bool{}

func addGroundAxiom(a *GroundAxiom) { groundAxioms[a.op] = append(groundAxioms[a.op], a) }

// QuantAxioms are universally quantified facts assumed in every query that mentions their pattern heads.
type QuantAxiom struct {
	name string
	t    *Term
	gen  int
}

var quantAxioms []*QuantAxiom

type forallInst struct {
	t     *Term
	gen   int
	name  string
	maxG  int
	guard bool
}

type query struct {
	asserts []*Term
	seen    map[*Term]bool
	foralls []*forallInst
	fseen   map[*Term]bool
	ground  map[*Term]int // term -> generation
	order   []*Term
	newT    []*Term
	polDone map[*Term]int
	insts   int
	done    map[string]bool
}

const maxInst = 6000
const maxSummands = 5

func newQuery() *query {
	return &query{seen: map[*Term]bool{}, fseen: map[*Term]bool{}, ground: map[*Term]int{}, done: map[string]bool{}, polDone: map[*Term]int{}}
}

func (q *query) addGround(t *Term, gen int) {
	if old, ok := q.ground[t]; ok {
		if gen >= old {
			return
		}
	}
	for _, a := range t.args {
		q.addGround(a, gen)
	}
	_, had := q.ground[t]
	q.ground[t] = gen
	if !had {
		q.order = append(q.order, t)
		q.newT = append(q.newT, t)
	}
}

// assume adds formula f (positively) to the query.
func (q *query) assume(f *Term, gen int, name string, maxG int) {
	if f == tTrue {
		return
	}
	if !f.quant {
		if q.seen[f] {
			return
		}
		q.seen[f] = true
		q.asserts = append(q.asserts, f)
		q.addGround(f, gen)
		return
	}
	switch f.op {
	case "and":
		for _, a := range f.args {
			q.assume(a, gen, name, maxG)
		}
		return
	case "forall":
		if q.fseen[f] {
			return
		}
		q.fseen[f] = true
		q.foralls = append(q.foralls, &forallInst{t: f, gen: gen, name: name, maxG: maxG})
		q.closedParts(f, gen)
		return
	case "exists":
		if q.fseen[f] {
			return
		}
		q.fseen[f] = true
		q.assume(Subst(f.args[0], skolems(f)), gen, name, maxG)
		return
	case "not":
		a := f.args[0]
		switch a.op {
		case "and":
			var xs []*Term
			for _, x := range a.args {
				xs = append(xs, Not(x))
			}
			q.assume(Or(xs...), gen, name, maxG)
			return
		case "or":
			for _, x := range a.args {
				q.assume(Not(x), gen, name, maxG)
			}
			return
		case "=>":
			q.assume(a.args[0], gen, name, maxG)
			q.assume(Not(a.args[1]), gen, name, maxG)
			return
		case "forall":
			q.assume(Exists(a.bound, nil, Not(a.args[0])), gen, name, maxG)
			return
		case "exists":
			q.assume(Forall(a.bound, a.pats, Not(a.args[0])), gen, name, maxG)
			return
		}
	}
	// a propositional combination of quantified formulas: name each of them
	q.assume(q.proxied(f, 1, gen, name, maxG), gen, name, maxG)
}

// proxied replaces every quantified subformula of f by a propositional variable that implies it (where it occurs
// positively) and is implied by it (negatively).
func (q *query) proxied(f *Term, pol int, gen int, name string, maxG int) *Term {
	if !f.quant {
		return f
	}
	switch f.op {
	case "forall", "exists":
		b := Var(fmt.Sprintf("quant!%d", f.id), sBool)
		if pol >= 0 && q.polDone[f]&1 == 0 {
			q.polDone[f] |= 1
			if f.op == "forall" {
				q.assume(Forall(f.bound, f.pats, Or(Not(b), f.args[0])), gen, name, maxG)
			} else {
				q.assume(Or(Not(b), Subst(f.args[0], skolems(f))), gen, name, maxG)
			}
		}
		if pol <= 0 && q.polDone[f]&2 == 0 {
			q.polDone[f] |= 2
			if f.op == "forall" {
				q.assume(Or(b, Not(Subst(f.args[0], skolems(f)))), gen, name, maxG)
			} else {
				q.assume(Forall(f.bound, f.pats, Or(b, Not(f.args[0]))), gen, name, maxG)
			}
		}
		return b
	case "not":
		return Not(q.proxied(f.args[0], -pol, gen, name, maxG))
	case "=>":
		return Or(Not(q.proxied(f.args[0], -pol, gen, name, maxG)), q.proxied(f.args[1], pol, gen, name, maxG))
	case "and", "or":
		as := make([]*Term, len(f.args))
		for i, a := range f.args {
			as[i] = q.proxied(a, pol, gen, name, maxG)
		}
		if f.op == "and" {
			return And(as...)
		}
		return Or(as...)
	case "ite":
		return Ite(q.proxied(f.args[0], 0, gen, name, maxG), q.proxied(f.args[1], pol, gen, name, maxG), q.proxied(f.args[2], pol, gen, name, maxG))
	case "=":
		return Eq(q.proxied(f.args[0], 0, gen, name, maxG), q.proxied(f.args[1], 0, gen, name, maxG))
	}
	panic("cannot normalise quantified formula: " + f.String())
}

// skolems: the witnesses of a closed quantified formula are determined by the formula.
func skolems(f *Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, b := range f.bound {
		m[b] = Var(fmt.Sprintf("sk!%d!%s", f.id, b.str), b.sort)
	}
	return m
}

// closedParts makes the closed subterms of a quantified formula available to instantiation.
func (q *query) closedParts(f *Term, gen int) {
	bs := map[*Term]bool{}
	open := map[*Term]bool{}
	var scan func(t *Term) bool
	seen := map[*Term]bool{}
	var binders func(t *Term)
	binders = func(t *Term) {
		if seen[t] || !t.quant {
			return
		}
		seen[t] = true
		for _, b := range t.bound {
			bs[b] = true
		}
		for _, a := range t.args {
			binders(a)
		}
	}
	binders(f)
	done := map[*Term]bool{}
	scan = func(t *Term) bool {
		if done[t] {
			return open[t]
		}
		done[t] = true
		o := bs[t] || t.quant
		for _, a := range t.args {
			if scan(a) {
				o = true
			}
		}
		if o {
			open[t] = true
			for _, a := range t.args {
				if !open[a] && len(a.args) > 0 {
					q.addGround(a, gen)
				}
			}
		}
		return o
	}
	scan(f)
}

func nnfStep(f *Term) *Term {
	switch f.op {
	case "=>":
		return Or(Not(f.args[0]), f.args[1])
	case "ite":
		return And(Or(Not(f.args[0]), f.args[1]), Or(f.args[0], f.args[2]))
	case "=":
		return And(Or(Not(f.args[0]), f.args[1]), Or(f.args[0], Not(f.args[1])))
	case "not":
		a := f.args[0]
		switch a.op {
		case "and":
			var xs []*Term
			for _, x := range a.args {
				xs = append(xs, Not(x))
			}
			return Or(xs...)
		case "or":
			var xs []*Term
			for _, x := range a.args {
				xs = append(xs, Not(x))
			}
			return And(xs...)
		case "=>":
			return And(a.args[0], Not(a.args[1]))
		case "forall":
			return Exists(a.bound, nil, Not(a.args[0]))
		case "exists":
			return Forall(a.bound, a.pats, Not(a.args[0]))
		case "ite":
			return And(Or(Not(a.args[0]), Not(a.args[1])), Or(a.args[0], Not(a.args[2])))
		case "=":
			return And(Or(a.args[0], a.args[1]), Or(Not(a.args[0]), Not(a.args[1])))
		}
	}
	return f
}

func contains(t *Term, vs map[*Term]bool) bool {
	if vs[t] {
		return true
	}
	for _, a := range t.args {
		if contains(a, vs) {
			return true
		}
	}
	return false
}

func isInterpreted(op string) bool {
	switch op {
	case "not", "and", "or", "=>", "ite", "=", "+", "neg", "*", "<", "<=", "var", "int", "str", "bool", "real", "store", "constarr":
		return true
	}
	return false
}

// inferPatterns picks application subterms that cover the bound variables.
func inferPatterns(f *Term) [][]*Term {
	bs := map[*Term]bool{}
	for _, b := range f.bound {
		bs[b] = true
	}
	var single [][]*Term
	perVar := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if isInterpreted(t.op) || t.op == "forall" || t.op == "exists" || strings.HasPrefix(t.op, "str.") {
			return
		}
		vs := map[*Term]bool{}
		collectVars(t, bs, vs)
		if len(vs) == len(bs) {
			single = append(single, []*Term{t})
		}
		for v := range vs {
			if perVar[v] == nil {
				perVar[v] = t
			}
		}
	}
	walk(f.args[0])
	if len(single) > 0 {
		// prefer the smallest ones (not containing another candidate)
		var out [][]*Term
		for _, s := range single {
			inner := false
			for _, o := range single {
				if o[0] != s[0] && contains(s[0], map[*Term]bool{o[0]: true}) {
					inner = true
				}
			}
			if !inner {
				out = append(out, s)
			}
		}
		return out
	}
	if len(perVar) == len(f.bound) {
		var p []*Term
		for _, b := range f.bound {
			p = append(p, perVar[b])
		}
		return [][]*Term{p}
	}
	return nil
}

func collectVars(t *Term, bs, out map[*Term]bool) {
	if bs[t] {
		out[t] = true
		return
	}
	for _, a := range t.args {
		collectVars(a, bs, out)
	}
}

var normCache = map[*Term][][]*Term{}

// normPats drops the interpreted structure of the given triggers (conditionals and field selections).
func normPats(f *Term) [][]*Term {
	if len(f.pats) == 0 {
		return nil
	}
	if p, ok := normCache[f]; ok {
		return p
	}
	bs := map[*Term]bool{}
	for _, b := range f.bound {
		bs[b] = true
	}
	var norm func(t *Term) *Term
	norm = func(t *Term) *Term {
		if !contains(t, bs) {
			return t
		}
		for t.op == "ite" {
			if contains(t.args[1], bs) {
				t = t.args[1]
			} else {
				t = t.args[2]
			}
		}
		if len(t.args) == 0 {
			return t
		}
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = norm(a)
		}
		return rebuild(t, as)
	}
	// a struct read from the heap field by field: its address is the trigger
	var structAddr func(t *Term) *Term
	structAddr = func(t *Term) *Term {
		if t.sort.dt == nil || t.op != t.sort.dt.ctor {
			return t
		}
		for _, a := range t.args {
			if contains(a, bs) {
				a = structAddr(a)
				if a.op == "select" {
					return a.args[1]
				}
				return a
			}
		}
		return t
	}
	var out [][]*Term
	for _, p := range f.pats {
		var np []*Term
		for _, x := range p {
			x = norm(x)
			for len(x.args) == 1 && x.args[0].sort.dt != nil && len(x.args[0].args) > 0 && contains(x.args[0], bs) {
				x = x.args[0] // field selection
			}
			np = append(np, structAddr(x))
		}
		out = append(out, np)
	}
	normCache[f] = out
	return out
}

var patCache = map[*Term][][]*Term{}

func (q *query) instantiate() {
	for round := 0; round < 6; round++ {
		progress := false
		fresh := q.newT
		q.newT = nil
		// ground axioms
		for _, t := range fresh {
			gen := q.ground[t]
			for _, ax := range groundAxioms[t.op] {
				if gen > ax.gen {
					continue
				}
				for _, f := range ax.facts(t) {
					if f != tTrue && !q.seen[f] {
						usedAxioms[ax.name] = true
						q.assume(f, gen+1, ax.name, ax.gen)
						progress = true
					}
				}
			}
		}
		// quantified axioms become relevant once a pattern head is present
		for _, qa := range quantAxioms {
			if !q.fseen[qa.t] {
				q.fseen[qa.t] = true
				q.foralls = append(q.foralls, &forallInst{t: qa.t, name: qa.name, maxG: qa.gen})
			}
		}
		byOp := map[string][]*Term{}
		bySort := map[*Sort][]*Term{}
		for _, t := range q.order {
			byOp[t.op] = append(byOp[t.op], t)
			bySort[t.sort] = append(bySort[t.sort], t)
		}
		n := len(q.foralls)
		for i := 0; i < n; i++ {
			fi := q.foralls[i]
			pats := normPats(fi.t)
			if len(pats) == 0 {
				var ok bool
				if pats, ok = patCache[fi.t]; !ok {
					pats = inferPatterns(fi.t)
					patCache[fi.t] = pats
				}
			}
			bs := map[*Term]bool{}
			for _, b := range fi.t.bound {
				bs[b] = true
			}
			emit := func(m map[*Term]*Term, gen int) {
				if m == nil || gen > fi.maxG {
					return
				}
				var kb strings.Builder
				fmt.Fprintf(&kb, "%d", fi.t.id)
				for _, b := range fi.t.bound {
					x := m[b]
					if x == nil {
						return
					}
					fmt.Fprintf(&kb, ",%d", x.id)
				}
				key := kb.String()
				if q.done[key] || q.insts > maxInst {
					return
				}
				q.done[key] = true
				q.insts++
				if fi.name != "" {
					usedAxioms[fi.name] = true
				}
				q.assume(Subst(fi.t.args[0], m), gen+1, fi.name, fi.maxG)
				progress = true
			}
			if len(pats) == 0 {
				if len(fi.t.bound) == 1 {
					for _, t := range bySort[fi.t.bound[0].sort] {
						if t.quant {
							continue
						}
						emit(map[*Term]*Term{fi.t.bound[0]: t}, q.ground[t]+1)
					}
				}
				continue
			}
			for _, pat := range pats {
				var rec func(k int, m map[*Term]*Term, def []deferredMatch, gen int)
				rec = func(k int, m map[*Term]*Term, def []deferredMatch, gen int) {
					if k == len(pat) {
						emit(solveDeferred(m, def, bs), gen)
						return
					}
					for _, t := range byOp[pat[k].op] {
						g := q.ground[t]
						if gen > g {
							g = gen
						}
						match(pat[k], t, bs, m, def, 0, func(m map[*Term]*Term, def []deferredMatch) { rec(k+1, m, def, g) })
					}
				}
				rec(0, map[*Term]*Term{}, nil, fi.gen)
			}
		}
		if !progress && len(q.newT) == 0 {
			break
		}
	}
}

type deferredMatch struct{ p, t *Term }

// match matches pattern p against ground term t and calls k for every way to do so. It looks through conditionals
// (either branch may be meant) and solves linear index terms; instances are sound whatever they are.
func match(p, t *Term, bs map[*Term]bool, m map[*Term]*Term, def []deferredMatch, depth int, k func(m map[*Term]*Term, def []deferredMatch)) {
	if bs[p] {
		if p.sort != t.sort {
			return
		}
		if o, ok := m[p]; ok {
			if o == t {
				k(m, def)
			} else if t.op == "ite" && depth < 3 {
				match(p, t.args[1], bs, m, def, depth+1, k)
				match(p, t.args[2], bs, m, def, depth+1, k)
			}
			return
		}
		m2 := make(map[*Term]*Term, len(m)+1)
		for a, b := range m {
			m2[a] = b
		}
		m2[p] = t
		k(m2, def)
		return
	}
	if p == t {
		k(m, def)
		return
	}
	if p.sort != t.sort {
		return
	}
	if p.op == "+" {
		k(m, append(def[:len(def):len(def)], deferredMatch{p, t}))
		return
	}
	if t.op == "ite" && p.op != "ite" {
		if depth < 3 {
			match(p, t.args[1], bs, m, def, depth+1, k)
			match(p, t.args[2], bs, m, def, depth+1, k)
		}
		return
	}
	if p.op != t.op || len(p.args) != len(t.args) || len(p.args) == 0 {
		return
	}
	var rec func(i int, m map[*Term]*Term, def []deferredMatch)
	rec = func(i int, m map[*Term]*Term, def []deferredMatch) {
		for ; i < len(p.args); i++ {
			a := p.args[i]
			// a subpattern without bound variables may be equal to anything of its sort
			if !a.isLit() && !contains(a, bs) {
				if a.sort != t.args[i].sort {
					return
				}
				// the content of one piece of memory is only looked at where it occurs
				if p.op == "select" && i == 0 && a.op == "var" && a.sort.k == sInt && a.sort.v.k == nil && !occurs(a, t.args[i]) {
					return
				}
				continue
			}
			match(a, t.args[i], bs, m, def, depth, func(m map[*Term]*Term, def []deferredMatch) { rec(i+1, m, def) })
			return
		}
		k(m, def)
	}
	rec(0, m, def)
}

var occursCache = map[[2]int]bool{}

// occurs: x is a subterm of t.
func occurs(x, t *Term) bool {
	if x == t {
		return true
	}
	if len(t.args) == 0 || t.maxV < x.varID {
		return false
	}
	key := [2]int{x.id, t.id}
	if r, ok := occursCache[key]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if occurs(x, a) {
			r = true
			break
		}
	}
	occursCache[key] = r
	return r
}

// solveDeferred binds variables that occur in sums.
func solveDeferred(m map[*Term]*Term, def []deferredMatch, bs map[*Term]bool) map[*Term]*Term {
	if len(def) == 0 {
		return m
	}
	m2 := make(map[*Term]*Term, len(m)+1)
	for a, b := range m {
		m2[a] = b
	}
	for round := 0; round < 2; round++ {
		for _, d := range def {
			var v *Term
			var rest []*Term
			ok := true
			for _, a := range d.p.args {
				if bs[a] && m2[a] == nil && v == nil {
					v = a
					continue
				}
				x := Subst(a, m2)
				if contains(x, bs) {
					ok = false
				}
				rest = append(rest, x)
			}
			if !ok || v == nil {
				continue
			}
			x := Sub(d.t, Add(rest...))
			if x.op == "+" && len(x.args) > maxSummands {
				return nil // offsets of unrelated slices piling up
			}
			m2[v] = x
		}
	}
	return m2
}

// absMode: strings are rendered as an uninterpreted sort (a weaker theory: its unsat answers are unsat answers).
var absMode bool

func absName(t *Term) string { return fmt.Sprintf("abs.%s/%d", t.op, len(t.args)) }

func (q *query) absText() string {
	absMode = true
	defer func() { absMode = false }()
	return q.text("")
}

// text renders the query as SMT-LIB.
func (q *query) text(logicOpts string) string {
	var sb strings.Builder
	sb.WriteString(logicOpts)
	var lits []*Term
	var strFacts []string
	// collect declarations
	sorts := map[*Sort]bool{}
	var dts []*Sort
	var addSort func(s *Sort)
	addSort = func(s *Sort) {
		if sorts[s] {
			return
		}
		sorts[s] = true
		if s.k != nil {
			addSort(s.k)
			addSort(s.v)
		}
		if s.dt != nil {
			for _, f := range s.dt.sorts {
				addSort(f)
			}
			dts = append(dts, s)
		}
	}
	type fdecl struct {
		name string
		args []*Sort
		ret  *Sort
	}
	vars := map[*Term]bool{}
	var varList []*Term
	fns := map[string]fdecl{}
	dtOps := map[string]bool{}
	seen := map[*Term]bool{}
	var fnDistinct, anyConst []*Term
	visit := func(t *Term) {
		addSort(t.sort)
		switch {
		case t.op == "var":
			if !vars[t] {
				vars[t] = true
				varList = append(varList, t)
				if t.sort == sFn && distinctConsts[t.id] {
					fnDistinct = append(fnDistinct, t)
				}
				if t.sort == sAny && distinctConsts[t.id] {
					anyConst = append(anyConst, t)
				}
			}
		case absMode && strings.HasPrefix(t.op, "str."):
			n := absName(t)
			if _, ok := fns[n]; !ok {
				var as []*Sort
				for _, a := range t.args {
					as = append(as, a.sort)
				}
				fns[n] = fdecl{n, as, t.sort}
			}
			switch t.op {
			case "str.len":
				var sb strings.Builder
				printShared(&sb, t)
				strFacts = append(strFacts, "(<= 0 "+sb.String()+")")
			case "str.indexof":
				if t.args[2] == IntC(0) {
					var a, b strings.Builder
					printShared(&a, t)
					printShared(&b, App("str.contains", sBool, t.args[0], t.args[1]))
					fns["abs.str.contains/2"] = fdecl{"abs.str.contains/2", []*Sort{sString, sString}, sBool}
					strFacts = append(strFacts, "(= (<= 0 "+a.String()+") "+b.String()+")", "(<= (- 1) "+a.String()+")")
				}
			}
		case t.op == "str" && absMode:
			lits = append(lits, t)
		case isInterpreted(t.op) || strings.HasPrefix(t.op, "str.") || t.op == "select" || t.op == "mod" || t.op == "div" || t.op == "/" || t.op == "r*" || t.op == "r+" || t.op == "r-" || t.op == "to_real" || t.op == "to_int":
		default:
			if t.sort.dt != nil && t.op == t.sort.dt.ctor {
				return
			}
			if len(t.args) == 1 && t.args[0].sort.dt != nil {
				for _, s := range t.args[0].sort.dt.sels {
					if s == t.op {
						return
					}
				}
			}
			if _, ok := fns[t.op]; !ok {
				var as []*Sort
				for _, a := range t.args {
					as = append(as, a.sort)
				}
				fns[t.op] = fdecl{t.op, as, t.sort}
			}
		}
	}
	for _, a := range q.asserts {
		subterms(a, seen, visit)
	}
	_ = dtOps
	if absMode {
		sb.WriteString("(declare-sort AbsStr 0)\n")
	}
	if sorts[sAny] {
		sb.WriteString("(declare-sort Any 0)\n")
	}
	if sorts[sFn] {
		sb.WriteString("(declare-sort Fn 0)\n")
	}
	for _, s := range dts {
		d := s.dt
		if len(d.sels) == 0 {
			fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s))))\n", smtSym(s.name), smtSym(d.ctor))
			continue
		}
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", smtSym(s.name), smtSym(d.ctor))
		for i, sel := range d.sels {
			fmt.Fprintf(&sb, " (%s %s)", smtSym(sel), sortText(d.sorts[i]))
		}
		sb.WriteString("))))\n")
	}
	sort.Slice(varList, func(i, j int) bool { return varList[i].id < varList[j].id })
	for _, v := range varList {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", smtSym(v.str), sortText(v.sort))
	}
	var fnames []string
	for n := range fns {
		fnames = append(fnames, n)
	}
	sort.Strings(fnames)
	for _, n := range fnames {
		f := fns[n]
		fmt.Fprintf(&sb, "(declare-fun %s (", smtSym(n))
		for i, a := range f.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(sortText(a))
		}
		fmt.Fprintf(&sb, ") %s)\n", sortText(f.ret))
	}
	if absMode {
		for _, l := range lits {
			fmt.Fprintf(&sb, "(declare-const %s AbsStr)\n", headStr(l))
		}
		if len(lits) > 1 {
			sb.WriteString("(assert (distinct")
			for _, l := range lits {
				sb.WriteString(" " + headStr(l))
			}
			sb.WriteString("))\n")
		}
		if _, ok := fns["abs.str.len/1"]; ok {
			for _, l := range lits {
				fmt.Fprintf(&sb, "(assert (= (|abs.str.len/1| %s) %d))\n", headStr(l), len(l.str))
			}
		}
		if _, ok := fns["abs.str.++/2"]; ok {
			byText := map[string]*Term{}
			for _, l := range lits {
				byText[l.str] = l
			}
			for _, l := range lits {
				for i := 1; i < len(l.str); i++ {
					a, b := byText[l.str[:i]], byText[l.str[i:]]
					if a != nil && b != nil {
						fmt.Fprintf(&sb, "(assert (= (|abs.str.++/2| %s %s) %s))\n", headStr(a), headStr(b), headStr(l))
					}
				}
			}
		}
		for _, f := range strFacts {
			sb.WriteString("(assert " + f + ")\n")
		}
	}
	if len(fnDistinct) > 1 {
		sb.WriteString("(assert (distinct")
		for _, v := range fnDistinct {
			sb.WriteString(" " + smtSym(v.str))
		}
		sb.WriteString("))\n")
	}
	if len(anyConst) > 1 {
		sb.WriteString("(assert (distinct")
		for _, v := range anyConst {
			sb.WriteString(" " + smtSym(v.str))
		}
		sb.WriteString("))\n")
	}
	printAsserts(&sb, q.asserts)
	return sb.String()
}

func sortText(s *Sort) string {
	if s.k != nil {
		return "(Array " + sortText(s.k) + " " + sortText(s.v) + ")"
	}
	if absMode && s == sString {
		return "AbsStr"
	}
	return smtSym(s.name)
}

// printAsserts names every subterm that occurs more than once.
func printAsserts(sb *strings.Builder, as []*Term) {
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if len(t.args) == 0 {
			return
		}
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		order = append(order, t)
	}
	for _, a := range as {
		walk(a)
	}
	names := map[*Term]string{}
	var pr func(t *Term)
	pr = func(t *Term) {
		if n, ok := names[t]; ok {
			sb.WriteString(n)
			return
		}
		if len(t.args) == 0 {
			sb.WriteString(headStrSort(t))
			return
		}
		sb.WriteString("(" + headStrSort(t))
		for _, a := range t.args {
			sb.WriteByte(' ')
			pr(a)
		}
		sb.WriteByte(')')
	}
	for _, t := range order {
		if cnt[t] > 1 {
			n := fmt.Sprintf("?%d", t.id)
			fmt.Fprintf(sb, "(define-fun %s () %s ", n, sortText(t.sort))
			pr(t)
			sb.WriteString(")\n")
			names[t] = n
		}
	}
	for _, a := range as {
		sb.WriteString("(assert ")
		pr(a)
		sb.WriteString(")\n")
	}
}

func printShared(sb *strings.Builder, t *Term) {
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if len(t.args) == 0 {
			return
		}
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		order = append(order, t)
	}
	walk(t)
	names := map[*Term]string{}
	lets := 0
	var pr func(t *Term)
	pr = func(t *Term) {
		if n, ok := names[t]; ok {
			sb.WriteString(n)
			return
		}
		if len(t.args) == 0 {
			sb.WriteString(headStrSort(t))
			return
		}
		sb.WriteString("(" + headStrSort(t))
		for _, a := range t.args {
			sb.WriteByte(' ')
			pr(a)
		}
		sb.WriteByte(')')
	}
	for _, s := range order {
		if cnt[s] > 1 && s != t {
			n := fmt.Sprintf("?%d", s.id)
			sb.WriteString("(let ((" + n + " ")
			pr(s)
			sb.WriteString(")) ")
			names[s] = n
			lets++
		}
	}
	pr(t)
	sb.WriteString(strings.Repeat(")", lets))
}

func headStrSort(t *Term) string {
	switch t.op {
	case "constarr":
		return "(as const " + sortText(t.sort) + ")"
	case "r*":
		return "*"
	case "r+":
		return "+"
	case "r-":
		return "-"
	}
	return headStr(t)
}

// ---- solver processes

type SolverStats struct {
	Queries  int
	Seconds  float64
	BySolver map[string]int
	Cached   int
}

var stats = SolverStats{BySolver: map[string]int{}}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

var z3proc *proc

func z3Path() string {
	if p := os.Getenv("GVC_Z3"); p != "" {
		return p
	}
	for _, p := range []string{"/usr/local/bin/z3-new", "/usr/bin/z3"} {
		if _, err := os.Stat(p); err == nil {
			return p
		}
	}
	return "z3"
}

func startZ3() *proc {
	cmd := exec.Command(z3Path(), "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// z3Check runs one query on the persistent z3 process.
func z3Check(text string, timeoutMs int, wantModel bool) (string, string) {
	t0 := time.Now()
	defer func() {
		stats.Queries++
		d := time.Since(t0).Seconds()
		stats.Seconds += d
		if dir := os.Getenv("GVC_SLOW"); dir != "" && d > slowLim {
			os.WriteFile(fmt.Sprintf("%s/slow%04d-%.1f.smt2", dir, stats.Queries, d), []byte(text+"(check-sat)\n"), 0644)
		}
	}()
	if z3proc == nil || z3proc.n > 400 {
		if z3proc != nil {
			z3proc.kill()
		}
		z3proc = startZ3()
	}
	p := z3proc
	p.n++
	msg := fmt.Sprintf("(reset)\n(set-option :timeout %d)\n(set-option :model.completion true)\n(push)\n%s(check-sat)\n", timeoutMs, text)
	if wantModel {
		msg += "(get-model)\n"
	}
	msg += "(echo \"--done--\")\n"
	type res struct{ s string }
	ch := make(chan string, 1)
	go func() {
		if _, err := io.WriteString(p.in, msg); err != nil {
			ch <- "unknown"
			return
		}
		var sb strings.Builder
		for {
			line, err := p.out.ReadString('\n')
			if strings.HasPrefix(strings.TrimSpace(line), "--done--") {
				break
			}
			sb.WriteString(line)
			if err != nil {
				break
			}
		}
		ch <- sb.String()
	}()
	select {
	case s := <-ch:
		s = strings.TrimSpace(s)
		first := s
		rest := ""
		if i := strings.IndexByte(s, '\n'); i >= 0 {
			first, rest = s[:i], s[i+1:]
		}
		if strings.HasPrefix(first, "(error") {
			dumpErr(text, s)
			return "unknown", s
		}
		return first, rest
	case <-time.After(time.Duration(timeoutMs)*time.Millisecond + 4*time.Second):
		p.kill()
		z3proc = nil
		return "unknown", "hard timeout"
	}
}

var errDumped = 0

func dumpErr(text, msg string) {
	errDumped++
	if errDumped <= 3 || os.Getenv("GVC_DUMPERR") != "" {
		f := fmt.Sprintf("/tmp/gvc-err-%d-%d.smt2", os.Getpid(), errDumped)
		os.WriteFile(f, []byte("; "+strings.ReplaceAll(msg, "\n", "\n; ")+"\n"+text), 0644)
		fmt.Fprintln(os.Stderr, "solver error:", firstLine(msg), f)
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// oneShot runs a solver on a file-less query.
func oneShot(ctx context.Context, name string, args []string, text string) (string, string) {
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Run()
	s := strings.TrimSpace(out.String())
	return firstLine(s), s
}

// portfolio tries the other installed solvers.
func portfolio(text string, secs int) (string, string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second+500*time.Millisecond)
	defer cancel()
	type r struct{ who, res, model string }
	ch := make(chan r, 3)
	runs := []struct {
		who  string
		path string
		args []string
		pre  string
	}{
		{"cvc5", "cvc5", []string{"--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", secs*1000), "-"}, "(set-logic ALL)\n"},
		{"z3-4.8", "/usr/bin/z3", []string{"-in", "-smt2", fmt.Sprintf("-T:%d", secs)}, ""},
		{"z3-new-seed", z3Path(), []string{"-in", "-smt2", fmt.Sprintf("-T:%d", secs), "smt.random_seed=7", "smt.arith.solver=2"}, ""},
	}
	for _, x := range runs {
		x := x
		go func() {
			t0 := time.Now()
			a, m := oneShot(ctx, x.path, x.args, x.pre+text+"(check-sat)\n")
			stats.Seconds += time.Since(t0).Seconds()
			ch <- r{x.who, a, m}
		}()
	}
	for range runs {
		x := <-ch
		if x.res == "unsat" || x.res == "sat" {
			return x.res, x.who, x.model
		}
	}
	return "unknown", "", ""
}

// simplifyUnits resolves conditionals whose condition is one of the assumptions.
func simplifyUnits(as []*Term, goalNeg *Term) ([]*Term, *Term) {
	units := map[*Term]*Term{}
	for _, a := range as {
		if a.quant || a.op == "=" || a.op == "<=" || a.op == "<" || len(a.args) == 0 {
			if a.op == "=" && !a.quant {
				units[a] = tTrue
			}
			continue
		}
		if a.op == "not" {
			if !a.args[0].quant {
				units[a.args[0]] = tFalse
			}
			continue
		}
		if a.op == "and" || a.op == "or" || a.op == "=>" || a.op == "ite" {
			continue
		}
		units[a] = tTrue
	}
	if len(units) == 0 {
		return as, goalNeg
	}
	memo := map[*Term]*Term{}
	inCond := map[*Term]*Term{}
	var simp, cond func(t *Term) *Term
	// conditions of conditionals are rewritten fully; elsewhere the facts themselves stay
	cond = func(t *Term) *Term {
		if u, ok := units[t]; ok {
			return u
		}
		if r, ok := inCond[t]; ok {
			return r
		}
		r := t
		if !t.quant && (t.op == "and" || t.op == "or" || t.op == "not" || t.op == "=>") {
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = cond(a)
			}
			r = rebuild(t, as)
		}
		if u, ok := units[r]; ok {
			r = u
		}
		inCond[t] = r
		return r
	}
	simp = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if t.op == "ite" && t.sort != sBool {
			switch c := cond(t.args[0]); c {
			case tTrue:
				r = simp(t.args[1])
				memo[t] = r
				return r
			case tFalse:
				r = simp(t.args[2])
				memo[t] = r
				return r
			}
		}
		if t.op != "forall" && t.op != "exists" {
			as := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				as[i] = simp(a)
				ch = ch || as[i] != a
			}
			if ch {
				r = rebuild(t, as)
			}
		} else if b := simp(t.args[0]); b != t.args[0] {
			var pats [][]*Term
			for _, p := range t.pats {
				var np []*Term
				for _, x := range p {
					np = append(np, simp(x))
				}
				pats = append(pats, np)
			}
			if t.op == "forall" {
				r = Forall(t.bound, pats, b)
			} else {
				r = Exists(t.bound, pats, b)
			}
		}
		memo[t] = r
		return r
	}
	out := make([]*Term, len(as))
	for i, a := range as {
		out[i] = simp(a)
	}
	if goalNeg != nil {
		goalNeg = simp(goalNeg)
	}
	return out, goalNeg
}

func buildQuery(assumptions []*Term, goalNeg *Term) *query {
	assumptions, goalNeg = simplifyUnits(assumptions, goalNeg)
	q := newQuery()
	for _, a := range assumptions {
		q.assume(a, 0, "", 4)
	}
	if goalNeg != nil {
		q.assume(goalNeg, 0, "", 4)
	}
	for _, a := range q.asserts {
		if a == tFalse {
			return q
		}
	}
	q.instantiate()
	return q
}

// stringAtom: does the condition itself compare or inspect strings?
func stringAtom(c *Term) bool {
	switch c.op {
	case "and", "or", "not", "=>":
		for _, a := range c.args {
			if stringAtom(a) {
				return true
			}
		}
		return false
	case "str.prefixof", "str.suffixof", "str.contains", "str.<", "str.<=":
		return true
	case "=", "<", "<=":
		for _, a := range c.args {
			if a.sort == sString && c.op != "=" || strings.HasPrefix(a.op, "str.") && a.op != "str.++" {
				return true
			}
			if a.op == "+" || a.op == "ite" {
				for _, b := range a.args {
					if strings.HasPrefix(b.op, "str.") && b.op != "str.++" {
						return true
					}
				}
			}
		}
	}
	return false
}

var feasFullMs = 150

var satCache = map[string]string{}

// checkSat: "sat", "unsat" or "unknown" of the conjunction (used for feasibility).
func checkSat(as []*Term, timeoutMs int) string { return checkSat2(as, timeoutMs, true) }

func checkSat2(as []*Term, timeoutMs int, strs bool) string {
	for _, a := range as {
		if a == tFalse {
			return "unsat"
		}
	}
	q := buildQuery(as, nil)
	for _, a := range q.asserts {
		if a == tFalse {
			return "unsat"
		}
	}
	text := q.absText()
	if r, ok := satCache[text]; ok {
		stats.Cached++
		return r
	}
	r, _ := z3Check(text, timeoutMs, false)
	if r != "unsat" && strs && strings.Contains(text, "abs.str") {
		// strings matter: one short look with the theory of strings
		if r2, _ := z3Check(q.text(""), feasFullMs, false); r2 == "unsat" {
			r = r2
		}
	}
	satCache[text] = r
	stats.BySolver["z3-new"]++
	return r
}

// prove: is goal entailed? Returns verdict ("proved","refuted","unknown"), solver name and a model if available.
var stringsMatter = true

// proveCand is prove for candidate invariants: strings are only interpreted when the candidate is about strings.
func proveCand(as []*Term, goal *Term, timeoutMs int, strs bool) string {
	stringsMatter = strs || stringAtom(goal) || goal.quant
	defer func() { stringsMatter = true }()
	v, _, _ := prove(as, goal, timeoutMs, false)
	return v
}

// conjuncts splits a quantified conjunction.
func conjuncts(goal *Term) []*Term {
	if !goal.quant {
		return []*Term{goal}
	}
	var out []*Term
	switch goal.op {
	case "and":
		for _, a := range goal.args {
			out = append(out, conjuncts(a)...)
		}
		return out
	case "=>":
		for _, a := range conjuncts(goal.args[1]) {
			out = append(out, Imp(goal.args[0], a))
		}
		return out
	}
	return []*Term{goal}
}

func prove(as []*Term, goal *Term, timeoutMs int, full bool) (verdict, who, model string) {
	if goal == tTrue {
		return "proved", "simplifier", ""
	}
	if gs := conjuncts(goal); len(gs) > 1 {
		for _, g := range gs {
			if verdict, who, model = prove(as, g, timeoutMs, full); verdict != "proved" {
				return
			}
		}
		return
	}
	q := buildQuery(as, Not(goal))
	for _, a := range q.asserts {
		if a == tFalse {
			return "proved", "simplifier", ""
		}
	}
	abs := q.absText()
	if r, ok := satCache[abs]; ok && r == "unsat" {
		stats.Cached++
		return "proved", "z3-new", ""
	}
	if r, _ := z3Check(abs, timeoutMs, false); r == "unsat" {
		satCache[abs] = r
		stats.BySolver["z3-new"]++
		return "proved", "z3-new", ""
	}
	if !full && !stringsMatter {
		return "unknown", "", ""
	}
	text := q.text("")
	key := text
	if r, ok := satCache[key]; ok && r == "unsat" {
		stats.Cached++
		return "proved", "z3-new", ""
	}
	if d := os.Getenv("GVC_DUMP"); d != "" && full {
		os.WriteFile(fmt.Sprintf("%s/q%04d.smt2", d, stats.Queries), []byte("; goal: "+goal.String()+"\n"+text+"(check-sat)\n"), 0644)
	}
	r, m := z3Check(text, timeoutMs, full)
	stats.BySolver["z3-new"]++
	if r == "unsat" {
		satCache[key] = r
		return "proved", "z3-new", ""
	}
	if r == "sat" {
		return "refuted", "z3-new", m
	}
	if full {
		secs := timeoutMs/1000 + 4
		r2, who2, m2 := portfolio(text, secs)
		if who2 != "" {
			stats.BySolver[who2]++
		}
		if r2 == "unsat" {
			return "proved", who2, ""
		}
		if r2 == "sat" {
			return "refuted", who2, m2
		}
	}
	return "unknown", "", m
}

var slowLim = func() float64 {
	if s := os.Getenv("GVC_SLOWLIM"); s != "" {
		f, _ := strconv.ParseFloat(s, 64)
		return f
	}
	return 1
}()
