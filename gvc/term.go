package main

// Terms: a hash-consed SMT term DAG with a light simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT sort.
type Sort struct {
	name string
	k, v *Sort     // array sorts
	dt   *Datatype // datatype sorts
}

// Datatype is a single-constructor SMT datatype (a Go struct, or the slice header).
type Datatype struct {
	name   string
	ctor   string
	sels   []string
	sorts  []*Sort
	fields []string
}

var sortTab = map[string]*Sort{}

func mkSort(name string) *Sort {
	if s, ok := sortTab[name]; ok {
		return s
	}
	s := &Sort{name: name}
	sortTab[name] = s
	return s
}

var (
	sBool   = mkSort("Bool")
	sInt    = mkSort("Int")
	sString = mkSort("String")
	sReal   = mkSort("Real")
	sAny    = mkSort("Any") // interface values
	sFn     = mkSort("Fn")  // function values
	sSlice  *Sort
)

func arraySort(k, v *Sort) *Sort {
	n := "(Array " + k.name + " " + v.name + ")"
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{name: n, k: k, v: v}
	sortTab[n] = s
	return s
}

func datatypeSort(name string, fields []string, sorts []*Sort) *Sort {
	if s, ok := sortTab[name]; ok {
		return s
	}
	d := &Datatype{name: name, ctor: "mk_" + name, fields: fields, sorts: sorts}
	for i, f := range fields {
		d.sels = append(d.sels, fmt.Sprintf("%s__%d_%s", name, i, f))
	}
	s := &Sort{name: name, dt: d}
	sortTab[name] = s
	return s
}

func init() {
	sSlice = datatypeSort("Slice", []string{"ref", "off", "len", "cap"}, []*Sort{sInt, sInt, sInt, sInt})
}

// Term is a hash-consed SMT term.
type Term struct {
	op    string // "var","int","str","bool","real","forall", "exists", or function/builtin name
	args  []*Term
	sort  *Sort
	str   string   // var name, string literal
	num   *big.Int // int literal
	bound []*Term  // quantifiers
	pats  [][]*Term
	id    int
	varID int // creation stamp for variables
	maxV  int // max varID of variables inside
	kind  int // for variables: 0 plain, 1 entry ref bound, 2 alloc base
	quant bool
}

var (
	termTab = map[string]*Term{}
	termCnt int
	varCnt  int
)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.sort.name)
	sb.WriteByte('|')
	if t.num != nil {
		sb.WriteString(t.num.String())
	}
	sb.WriteByte('|')
	sb.WriteString(t.str)
	for _, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	for _, a := range t.bound {
		fmt.Fprintf(&sb, ";%d", a.id)
	}
	key := sb.String()
	if o, ok := termTab[key]; ok {
		return o
	}
	termCnt++
	t.id = termCnt
	t.maxV = t.varID
	for _, a := range t.args {
		if a.maxV > t.maxV {
			t.maxV = a.maxV
		}
		if a.quant {
			t.quant = true
		}
	}
	if t.op == "forall" || t.op == "exists" {
		t.quant = true
	}
	termTab[key] = t
	return t
}

var (
	tTrue  = intern(&Term{op: "bool", str: "true", sort: sBool})
	tFalse = intern(&Term{op: "bool", str: "false", sort: sBool})
)

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func IntC(i int64) *Term    { return intern(&Term{op: "int", num: big.NewInt(i), sort: sInt}) }
func BigC(i *big.Int) *Term { return intern(&Term{op: "int", num: i, sort: sInt}) }
func RealC(s string) *Term  { return intern(&Term{op: "real", str: s, sort: sReal}) }
func StrC(s string) *Term   { return intern(&Term{op: "str", str: s, sort: sString}) }

var varNames = map[string]int{}

// Var returns the variable with exactly this name (deterministic).
func Var(name string, s *Sort) *Term {
	key := "var|" + s.name + "||" + name
	if o, ok := termTab[key]; ok {
		return o
	}
	varCnt++
	return intern(&Term{op: "var", str: name, sort: s, varID: varCnt})
}

// Fresh returns a new variable.
func Fresh(hint string, s *Sort) *Term {
	varNames[hint]++
	return Var(fmt.Sprintf("%s!%d", hint, varNames[hint]), s)
}

func App(name string, s *Sort, args ...*Term) *Term {
	return intern(&Term{op: name, sort: s, args: args})
}

func (t *Term) isLit() bool {
	return t.op == "int" || t.op == "str" || t.op == "bool" || t.op == "real"
}

// ---- boolean

func Not(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not":
		return a.args[0]
	}
	return App("not", sBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a == tFalse {
			return tFalse
		}
		if a == tTrue {
			continue
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		if !seen[a.id] {
			seen[a.id] = true
			out = append(out, a)
		}
	}
	for _, a := range out {
		if seen[Not(a).id] {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("and", sBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a == tTrue {
			return tTrue
		}
		if a == tFalse {
			continue
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		if !seen[a.id] {
			seen[a.id] = true
			out = append(out, a)
		}
	}
	for _, a := range out {
		if seen[Not(a).id] {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("or", sBool, out...)
}

func Imp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	if a == b {
		return tTrue
	}
	return App("=>", sBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort == sBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return Not(c)
		}
		if a == tTrue {
			return Or(c, b)
		}
		if b == tFalse {
			return And(c, a)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	return App("ite", a.sort, c, a, b)
}

// splitLin splits an Int term into base + constant offset.
func splitLin(t *Term) (*Term, *big.Int) {
	if t.op == "int" {
		return nil, t.num
	}
	if t.op == "+" && t.args[len(t.args)-1].op == "int" {
		rest := t.args[:len(t.args)-1]
		if len(rest) == 1 {
			return rest[0], t.args[len(t.args)-1].num
		}
		return App("+", sInt, rest...), t.args[len(t.args)-1].num
	}
	return t, big.NewInt(0)
}

// refClass: distinct-by-construction reference classes.
//
//	0 unknown, 1 null constant, 2 "older than allocation base b" , 3 alloc base+off
func provablyDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isLit() && b.isLit() {
		return true
	}
	if a.sort == sInt {
		aa, ab := isAddrOp(a.op), isAddrOp(b.op)
		if aa && ab {
			if a.op != b.op {
				return true
			}
			for i := range a.args {
				if provablyDistinct(a.args[i], b.args[i]) {
					return true
				}
			}
			return false
		}
		ba, oa := splitLin(a)
		bb, ob := splitLin(b)
		if aa || ab {
			if aa {
				ba, oa = bb, ob
			} else {
				b = a
			}
			if b.op == "int" && b.num.Sign() >= 0 {
				return true
			}
			return ba != nil && ba.op == "var" && ba.kind == 2 && oa.Sign() >= 0
		}
		if ba == bb && oa.Cmp(ob) != 0 {
			return true
		}
		// allocation references are never nil
		if ba != nil && ba.op == "var" && ba.kind == 2 && oa.Sign() >= 0 && b.op == "int" && b.num.Sign() == 0 {
			return true
		}
		if bb != nil && bb.op == "var" && bb.kind == 2 && ob.Sign() >= 0 && a.op == "int" && a.num.Sign() == 0 {
			return true
		}
		// references that existed at allocation-base time are older than anything allocated from it
		if ba != nil && ba.op == "var" && ba.kind == 2 && oa.Sign() >= 0 && olderThan(b, ba) {
			return true
		}
		if bb != nil && bb.op == "var" && bb.kind == 2 && ob.Sign() >= 0 && olderThan(a, bb) {
			return true
		}
		return false
	}
	if a.sort == sString {
		// concatenations / literals with different first characters
		fa, oka := firstByte(a)
		fb, okb := firstByte(b)
		if oka && okb && fa != fb {
			return true
		}
	}
	if a.sort == sFn || a.sort == sAny {
		if distinctConst(a) && distinctConst(b) {
			return true
		}
		if a == fnNil || a == anyNil {
			a, b = b, a
		}
		if b == fnNil && strings.HasPrefix(a.op, "clo|") || b == anyNil && strings.HasPrefix(a.op, "box_") {
			return true
		}
		if strings.HasPrefix(a.op, "clo|") && strings.HasPrefix(b.op, "clo|") && a.op != b.op {
			return true
		}
	}
	return false
}

// oldRefs: reference terms known to be older than every allocation base created after their creation.
var oldRefs = map[int]bool{}

// noteBound: the reference is smaller than this one.
var noteBound = map[int]*Term{}

func olderThan(t, base *Term) bool {
	if t.op == "int" {
		return t.num.Sign() <= 0
	}
	if oldRefs[t.id] && t.maxV < base.varID {
		return true
	}
	if nb := noteBound[t.id]; nb != nil {
		// t existed when the next reference to be allocated was nb
		if b, off := splitLin(nb); b == base && off.Sign() <= 0 {
			return true
		}
	}
	b, off := splitLin(t)
	if b != nil && b.op == "var" && b.kind == 2 && b.varID < base.varID && off.Sign() >= 0 {
		// older allocation base + off was allocated before base was created (engine invariant)
		return off.BitLen() < 40
	}
	return false
}

func firstByte(t *Term) (byte, bool) {
	if t.op == "str" && len(t.str) > 0 {
		return t.str[0], true
	}
	if t.op == "str.++" && t.args[0].op == "str" {
		return t.args[0].str[0], true
	}
	return 0, false
}

var distinctConsts = map[int]bool{}

func distinctConst(t *Term) bool { return distinctConsts[t.id] }

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq: sort mismatch %s:%s vs %s:%s", a, a.sort.name, b, b.sort.name))
	}
	if provablyDistinct(a, b) {
		return tFalse
	}
	if a.sort == sBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	}
	if a.sort.dt != nil && a.op == a.sort.dt.ctor && b.op == a.op {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if strings.HasPrefix(a.op, "box_") && strings.HasPrefix(b.op, "box_") {
		if a.op != b.op {
			return tFalse
		}
		return Eq(a.args[0], b.args[0])
	}
	if a.sort == sInt && isAddrOp(a.op) && a.op == b.op {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.sort == sInt {
		ba, oa := splitLin(a)
		bb, ob := splitLin(b)
		if ba != nil && ba == bb {
			return Bool(oa.Cmp(ob) == 0)
		}
		if ba != nil && bb == nil && oa.Sign() != 0 { // x+c == d  ->  x == d-c
			return Eq(ba, BigC(new(big.Int).Sub(ob, oa)))
		}
		if bb != nil && ba == nil && ob.Sign() != 0 {
			return Eq(bb, BigC(new(big.Int).Sub(oa, ob)))
		}
	}
	if a.op == "ite" && b.isLit() {
		if a.args[1].isLit() || a.args[2].isLit() {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
	}
	if b.op == "ite" && a.isLit() {
		return Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("=", sBool, a, b)
}

func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---- integers

func Add(as ...*Term) *Term {
	sum := big.NewInt(0)
	var rest []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == "int" {
			sum = new(big.Int).Add(sum, t.num)
		} else if t.op == "+" {
			for _, x := range t.args {
				walk(x)
			}
		} else {
			rest = append(rest, t)
		}
	}
	for _, a := range as {
		walk(a)
	}
	// cancel x + (-x)
	var out []*Term
	used := make([]bool, len(rest))
	for i, x := range rest {
		if used[i] {
			continue
		}
		cancelled := false
		for j := i + 1; j < len(rest); j++ {
			if !used[j] && (rest[j] == neg(x) || x == neg(rest[j])) {
				used[j] = true
				cancelled = true
				break
			}
		}
		if !cancelled {
			out = append(out, x)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if len(out) == 0 {
		return BigC(sum)
	}
	if sum.Sign() != 0 {
		out = append(out, BigC(sum))
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("+", sInt, out...)
}

func neg(a *Term) *Term {
	if a.op == "int" {
		return BigC(new(big.Int).Neg(a.num))
	}
	if a.op == "neg" {
		return a.args[0]
	}
	if a.op == "+" {
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, neg(x))
		}
		return Add(xs...)
	}
	return App("neg", sInt, a)
}

func Sub(a, b *Term) *Term { return Add(a, neg(b)) }

func Mul(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return BigC(new(big.Int).Mul(a.num, b.num))
	}
	if a.op == "int" && a.num.Cmp(big.NewInt(1)) == 0 {
		return b
	}
	if b.op == "int" && b.num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return App("*", sInt, a, b)
}

func Lt(a, b *Term) *Term {
	if a.sort == sReal {
		return App("<", sBool, a, b)
	}
	ba, oa := splitLin(a)
	bb, ob := splitLin(b)
	if ba == bb {
		return Bool(oa.Cmp(ob) < 0)
	}
	return App("<", sBool, a, b)
}

func Le(a, b *Term) *Term {
	if a.sort == sReal {
		return App("<=", sBool, a, b)
	}
	ba, oa := splitLin(a)
	bb, ob := splitLin(b)
	if ba == bb {
		return Bool(oa.Cmp(ob) <= 0)
	}
	return App("<=", sBool, a, b)
}

// ---- arrays, datatypes

// frameInfo records how a havocked heap component relates to its previous value: equal at every
// reference older than base, other than the listed points and array regions.
type frameInfo struct {
	old     *Term
	base    *Term
	points  []*Term
	regions []*Term // elem|T address roots (only op and args[0] matter)
}

var frames = map[*Term]*frameInfo{}

func (f *frameInfo) untouched(i *Term) bool {
	if i.quant || !olderThan(rootRef(i), f.base) {
		return false
	}
	for _, p := range f.points {
		if !provablyDistinct(p, i) {
			return false
		}
	}
	for _, r := range f.regions {
		if i.op == r.op && !provablyDistinct(i.args[0], r.args[0]) {
			return false
		}
		if !isAddrOp(i.op) && !(olderThan(i, f.base)) {
			return false
		}
	}
	return true
}

func Select(a, i *Term) *Term {
	for {
		if a.op == "store" {
			e := Eq(a.args[1], i)
			if e == tTrue {
				return a.args[2]
			}
			if e == tFalse {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		if a.op == "var" {
			if fr := frames[a]; fr != nil && fr.untouched(i) {
				a = fr.old
				continue
			}
		}
		break
	}
	if a.op == "ite" {
		x, y := Select(a.args[1], i), Select(a.args[2], i)
		if x == y {
			return x
		}
		return Ite(a.args[0], x, y)
	}
	return App("select", a.sort.v, a, i)
}

func Store(a, i, v *Term) *Term {
	if a.sort.v != v.sort || a.sort.k != i.sort {
		panic(fmt.Sprintf("Store: sort mismatch: %s [%s] := %s:%s", a.sort.name, i.sort.name, v, v.sort.name))
	}
	if a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return App("store", a.sort, a, i, v)
}

func ConstArr(s *Sort, v *Term) *Term { return App("constarr", s, v) }

func Mk(s *Sort, args ...*Term) *Term {
	// eta: mk(sel0 x, sel1 x, ...) = x
	d := s.dt
	if len(args) > 0 {
		var base *Term
		ok := true
		for i, a := range args {
			if a.op != d.sels[i] || len(a.args) != 1 {
				ok = false
				break
			}
			if base == nil {
				base = a.args[0]
			} else if base != a.args[0] {
				ok = false
				break
			}
		}
		if ok && base != nil {
			return base
		}
	}
	return App(d.ctor, s, args...)
}

func Sel(t *Term, i int) *Term {
	d := t.sort.dt
	if t.op == d.ctor {
		return t.args[i]
	}
	if t.op == "ite" {
		return Ite(t.args[0], Sel(t.args[1], i), Sel(t.args[2], i))
	}
	return App(d.sels[i], d.sorts[i], t)
}

// Upd updates one datatype field.
func Upd(t *Term, i int, v *Term) *Term {
	d := t.sort.dt
	args := make([]*Term, len(d.sorts))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = Sel(t, j)
		}
	}
	return Mk(t.sort, args...)
}

func SliceT(ref, off, ln, cp *Term) *Term { return Mk(sSlice, ref, off, ln, cp) }
func SRef(s *Term) *Term                  { return Sel(s, 0) }
func SOff(s *Term) *Term                  { return Sel(s, 1) }
func SLen(s *Term) *Term                  { return Sel(s, 2) }
func SCap(s *Term) *Term                  { return Sel(s, 3) }

// ---- strings

func Concat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		var xs []*Term
		if a.op == "str.++" {
			xs = a.args
		} else {
			xs = []*Term{a}
		}
		for _, x := range xs {
			if x.op == "str" {
				if x.str == "" {
					continue
				}
				if len(out) > 0 && out[len(out)-1].op == "str" {
					out[len(out)-1] = StrC(out[len(out)-1].str + x.str)
					continue
				}
			}
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return StrC("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("str.++", sString, out...)
}

func StrLen(a *Term) *Term {
	if a.op == "str" {
		return IntC(int64(len(a.str)))
	}
	if a.op == "str.++" {
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, StrLen(x))
		}
		return Add(xs...)
	}
	return App("str.len", sInt, a)
}

// StrByte is the byte at an (in-range) index.
func StrByte(s, i *Term) *Term {
	if s.op == "str" && i.op == "int" && i.num.IsInt64() {
		if k := i.num.Int64(); k >= 0 && k < int64(len(s.str)) {
			return IntC(int64(s.str[k]))
		}
	}
	if s.op == "str.++" && i.op == "int" && i.num.Sign() == 0 && s.args[0].op == "str" {
		return IntC(int64(s.args[0].str[0]))
	}
	return App("str.to_code", sInt, App("str.at", sString, s, i))
}

// Substr is s[lo:hi] for in-range bounds.
func Substr(s, lo, hi *Term) *Term {
	if lo.op == "int" && lo.num.Sign() == 0 && hi == StrLen(s) {
		return s
	}
	if s.op == "str" && lo.op == "int" && hi.op == "int" && lo.num.IsInt64() && hi.num.IsInt64() {
		l, h := lo.num.Int64(), hi.num.Int64()
		if l >= 0 && l <= h && h <= int64(len(s.str)) {
			return StrC(s.str[l:h])
		}
	}
	return App("str.substr", sString, s, lo, Sub(hi, lo))
}

func StrPrefix(s, p *Term) *Term {
	if s.op == "str" && p.op == "str" {
		return Bool(strings.HasPrefix(s.str, p.str))
	}
	if s.op == "str.++" && p.op == "str" && s.args[0].op == "str" && len(s.args[0].str) >= len(p.str) {
		return Bool(strings.HasPrefix(s.args[0].str, p.str))
	}
	return App("str.prefixof", sBool, p, s)
}
func StrSuffix(s, p *Term) *Term {
	if s.op == "str" && p.op == "str" {
		return Bool(strings.HasSuffix(s.str, p.str))
	}
	if s.op == "str.++" && p.op == "str" && s.args[len(s.args)-1].op == "str" && len(s.args[len(s.args)-1].str) >= len(p.str) {
		return Bool(strings.HasSuffix(s.args[len(s.args)-1].str, p.str))
	}
	return App("str.suffixof", sBool, p, s)
}
func StrContains(s, p *Term) *Term {
	if s.op == "str" && p.op == "str" {
		return Bool(strings.Contains(s.str, p.str))
	}
	return App("str.contains", sBool, s, p)
}
func StrIndex(s, p *Term) *Term {
	if s.op == "str" && p.op == "str" {
		return IntC(int64(strings.Index(s.str, p.str)))
	}
	return App("str.indexof", sInt, s, p, IntC(0))
}

// ---- quantifiers

func Forall(bound []*Term, pats [][]*Term, body *Term) *Term {
	if body == tTrue {
		return tTrue
	}
	if body == tFalse {
		return tFalse
	}
	return intern(&Term{op: "forall", sort: sBool, bound: bound, pats: pats, args: []*Term{body}})
}

func Exists(bound []*Term, pats [][]*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	return intern(&Term{op: "exists", sort: sBool, bound: bound, pats: pats, args: []*Term{body}})
}

// Subst replaces variables by terms, re-simplifying.
func Subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	return subst(t, m, cache)
}

func subst(t *Term, m map[*Term]*Term, cache map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := cache[t]; ok {
		return r
	}
	var r *Term
	if t.op == "forall" || t.op == "exists" {
		m2 := m
		for _, b := range t.bound {
			if _, ok := m[b]; ok {
				m2 = map[*Term]*Term{}
				for k, v := range m {
					m2[k] = v
				}
				for _, b := range t.bound {
					delete(m2, b)
				}
				break
			}
		}
		body := Subst(t.args[0], m2)
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, Subst(x, m2))
			}
			pats = append(pats, q)
		}
		if t.op == "forall" {
			r = Forall(t.bound, pats, body)
		} else {
			r = Exists(t.bound, pats, body)
		}
	} else {
		args := make([]*Term, len(t.args))
		changed := false
		for i, a := range t.args {
			args[i] = subst(a, m, cache)
			if args[i] != a {
				changed = true
			}
		}
		if !changed {
			r = t
		} else {
			r = rebuild(t, args)
		}
	}
	cache[t] = r
	return r
}

// rebuild re-applies the smart constructor of t's operator.
func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Imp(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		return Add(args...)
	case "neg":
		return neg(args[0])
	case "*":
		return Mul(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "str.++":
		return Concat(args...)
	case "str.len":
		return StrLen(args[0])
	case "str.to_code":
		if args[0].op == "str.at" {
			return StrByte(args[0].args[0], args[0].args[1])
		}
	case "str.prefixof":
		return StrPrefix(args[1], args[0])
	case "str.suffixof":
		return StrSuffix(args[1], args[0])
	case "str.contains":
		return StrContains(args[0], args[1])
	}
	if t.sort.dt != nil && t.op == t.sort.dt.ctor {
		return Mk(t.sort, args...)
	}
	if len(args) == 1 && args[0].sort.dt != nil {
		for i, s := range args[0].sort.dt.sels {
			if s == t.op {
				return Sel(args[0], i)
			}
		}
	}
	if strings.HasPrefix(t.op, "unbox_") && args[0].op == "box_"+t.op[6:] {
		return args[0].args[0]
	}
	if t.op == "dyntype" && strings.HasPrefix(args[0].op, "box_") {
		return typeIDTerm(args[0].op[4:])
	}
	return App(t.op, t.sort, args...)
}

// ---- interface boxing

var typeIDs = map[string]int64{}

func typeIDTerm(name string) *Term {
	if _, ok := typeIDs[name]; !ok {
		typeIDs[name] = int64(len(typeIDs) + 1)
	}
	return IntC(typeIDs[name])
}

var anyNil = Var("nil_any", sAny)
var fnNil = Var("nil_fn", sFn)

func init() {
	distinctConsts[anyNil.id] = true
	distinctConsts[fnNil.id] = true
}

// Box makes an interface value of dynamic type name.
func Box(name string, v *Term) *Term {
	if v.op == "unbox_"+name {
		// box(unbox(x)) is x when x has that type; keep explicit
	}
	t := App("box_"+name, sAny, v)
	distinctConstsBox[t.id] = true
	return t
}

var distinctConstsBox = map[int]bool{}

func DynType(x *Term) *Term {
	if strings.HasPrefix(x.op, "box_") {
		return typeIDTerm(x.op[4:])
	}
	if x == anyNil {
		return IntC(0)
	}
	if x.op == "ite" {
		return Ite(x.args[0], DynType(x.args[1]), DynType(x.args[2]))
	}
	return App("dyntype", sInt, x)
}

func Unbox(name string, x *Term, s *Sort) *Term {
	if x.op == "box_"+name {
		return x.args[0]
	}
	if x.op == "ite" {
		return Ite(x.args[0], Unbox(name, x.args[1], s), Unbox(name, x.args[2], s))
	}
	return App("unbox_"+name, s, x)
}

// ---- printing

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			sb.WriteString(`""`)
		case c == '\\' || c < 32 || c > 126:
			fmt.Fprintf(&sb, `\u{%x}`, c)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func smtSym(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_-+*/<>=!.$%&~^?@", c) >= 0) {
			return "|" + strings.NewReplacer("|", "/", "\\", "/").Replace(s) + "|"
		}
	}
	return s
}

func headStr(t *Term) string {
	switch t.op {
	case "var":
		return smtSym(t.str)
	case "int":
		if t.num.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.num).String() + ")"
		}
		return t.num.String()
	case "str":
		if absMode {
			return fmt.Sprintf("lit!%d", t.id)
		}
		return smtStr(t.str)
	case "bool":
		return t.str
	case "real":
		return t.str
	case "neg":
		return "-"
	case "constarr":
		return "(as const " + t.sort.name + ")"
	}
	if absMode && strings.HasPrefix(t.op, "str.") {
		return smtSym(absName(t))
	}
	return smtSym(t.op)
}

// String prints a term as SMT-LIB without sharing (for messages; truncated).
func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, 0)
	s := sb.String()
	return s
}

func (t *Term) write(sb *strings.Builder, depth int) {
	if sb.Len() > 4000 {
		sb.WriteString("…")
		return
	}
	if t.op == "forall" || t.op == "exists" {
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bound {
			fmt.Fprintf(sb, "(%s %s)", smtSym(b.str), b.sort.name)
		}
		sb.WriteString(") ")
		t.args[0].write(sb, depth+1)
		sb.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		sb.WriteString(headStr(t))
		return
	}
	sb.WriteString("(" + headStr(t))
	for _, a := range t.args {
		sb.WriteByte(' ')
		a.write(sb, depth+1)
	}
	sb.WriteByte(')')
}

// subterms calls f on every distinct subterm (quantifier bodies excluded).
func subterms(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "forall" || t.op == "exists" {
		return
	}
	for _, a := range t.args {
		subterms(a, seen, f)
	}
	f(t)
}
