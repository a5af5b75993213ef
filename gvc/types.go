package main

// Mapping of Go types to SMT sorts and of memory locations to heap components.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func tname(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	if strings.Contains(s, "any") {
		s = anyRe.ReplaceAllString(s, "${1}interface{}${2}")
	}
	if strings.Contains(s, "byte") {
		s = byteRe.ReplaceAllString(s, "${1}uint8${2}")
	}
	if strings.Contains(s, "rune") {
		s = runeRe.ReplaceAllString(s, "${1}int32${2}")
	}
	return s
}

var byteRe = regexp.MustCompile(`(^|[^\pL\pN_./])byte($|[^\pL\pN_])`)
var runeRe = regexp.MustCompile(`(^|[^\pL\pN_./])rune($|[^\pL\pN_])`)
var anyRe = regexp.MustCompile(`(^|[^\pL\pN_./])any($|[^\pL\pN_./])`)

// shortName abbreviates the module path in messages.
func shortName(s string) string {
	return strings.ReplaceAll(s, "github.com/redmaner/MaguroHTTP/", "")
}

var sortCache = map[string]*Sort{}

func under(t types.Type) types.Type { return t.Underlying() }

func isStruct(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }
func isArray(t types.Type) bool  { _, ok := under(t).(*types.Array); return ok }
func isIface(t types.Type) bool  { _, ok := under(t).(*types.Interface); return ok }
func isMap(t types.Type) bool    { _, ok := under(t).(*types.Map); return ok }
func isSliceT(t types.Type) bool { _, ok := under(t).(*types.Slice); return ok }

func isPtrStruct(t types.Type) bool {
	p, ok := under(t).(*types.Pointer)
	return ok && isStruct(p.Elem())
}

var structTypes = map[string]types.Type{} // by key

func structKey(t types.Type) string {
	k := tname(t)
	if _, ok := structTypes[k]; !ok {
		structTypes[k] = t
	}
	return k
}

func sortOf(t types.Type) *Sort {
	key := tname(t)
	if s, ok := sortCache[key]; ok {
		return s
	}
	s := sortOf1(t)
	sortCache[key] = s
	return s
}

func sortOf1(t types.Type) *Sort {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsInteger != 0:
			return sInt
		case u.Info()&types.IsString != 0:
			return sString
		case u.Info()&types.IsFloat != 0:
			return sReal
		}
		return sInt
	case *types.Pointer, *types.Map, *types.Chan:
		return sInt
	case *types.Slice:
		return sSlice
	case *types.Array:
		return arraySort(sInt, sortOf(u.Elem()))
	case *types.Interface:
		return sAny
	case *types.Signature:
		return sFn
	case *types.Struct:
		var fs []string
		var ss []*Sort
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i).Name())
			ss = append(ss, sortOf(u.Field(i).Type()))
		}
		return datatypeSort("S:"+tname(t), fs, ss)
	case *types.Tuple:
		return sInt
	}
	panic("sortOf: " + tname(t))
}

func zeroTerm(t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Struct:
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroTerm(u.Field(i).Type()))
		}
		return Mk(sortOf(t), as...)
	case *types.Array:
		return ConstArr(sortOf(t), zeroTerm(u.Elem()))
	}
	return zeroOfSort(sortOf(t))
}

func zeroOfSort(s *Sort) *Term {
	switch s {
	case sBool:
		return tFalse
	case sInt:
		return IntC(0)
	case sString:
		return StrC("")
	case sReal:
		return RealC("0.0")
	case sAny:
		return anyNil
	case sFn:
		return fnNil
	case sSlice:
		z := IntC(0)
		return SliceT(z, z, z, z)
	}
	if s.dt != nil {
		var as []*Term
		for _, x := range s.dt.sorts {
			as = append(as, zeroOfSort(x))
		}
		return Mk(s, as...)
	}
	if s.k != nil {
		return ConstArr(s, zeroOfSort(s.v))
	}
	panic("zeroOfSort " + s.name)
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroTerm(c.Type())
	}
	return constVal(c.Value, c.Type())
}

func constVal(v constant.Value, t types.Type) *Term {
	if isIface(t) {
		// untyped constant converted to an interface
		switch v.Kind() {
		case constant.String:
			return Box("string", StrC(constant.StringVal(v)))
		case constant.Int:
			b, _ := new(big.Int).SetString(v.ExactString(), 10)
			return Box("int", BigC(b))
		case constant.Bool:
			return Box("bool", Bool(constant.BoolVal(v)))
		}
	}
	s := sortOf(t)
	switch s {
	case sBool:
		return Bool(constant.BoolVal(v))
	case sString:
		if v.Kind() == constant.Int {
			i, _ := constant.Int64Val(v)
			return StrC(string(rune(i)))
		}
		return StrC(constant.StringVal(v))
	case sInt:
		iv := constant.ToInt(v)
		b, ok := new(big.Int).SetString(iv.ExactString(), 10)
		if !ok {
			panic("const int " + v.String())
		}
		return BigC(b)
	case sReal:
		r := constant.ToFloat(v)
		num, den := constant.Num(r), constant.Denom(r)
		if num.Kind() == constant.Unknown {
			f, _ := constant.Float64Val(r)
			return RealC(fmt.Sprintf("%f", f))
		}
		ns, ds := num.ExactString(), den.ExactString()
		neg := strings.HasPrefix(ns, "-")
		ns = strings.TrimPrefix(ns, "-")
		out := ns + ".0"
		if ds != "1" {
			out = "(/ " + ns + ".0 " + ds + ".0)"
		}
		if neg {
			out = "(- " + out + ")"
		}
		return RealC(out)
	}
	panic("constVal sort " + s.name)
}

// heapView reads heap components (a live state or a snapshot).
type heapView interface {
	comp(name string, s *Sort) *Term
}

type snapshot map[string]*Term

func (m snapshot) comp(name string, s *Sort) *Term {
	if t, ok := m[name]; ok {
		return t
	}
	ep := ""
	if t, ok := m["#epoch"]; ok {
		ep = t.str
	}
	return initialComp(name, ep, s)
}

var initComps = map[string]*Term{}
var compSorts = map[string]*Sort{}

// initialComp is the component's value when the verified function (epoch "") or the returned closure is entered.
func initialComp(name, epoch string, s *Sort) *Term {
	if strings.HasPrefix(name, "G|n|") {
		return IntC(0)
	}
	if o, ok := compSorts[name]; ok && o != s {
		panic("component sort clash: " + name + " " + o.name + " vs " + s.name)
	}
	compSorts[name] = s
	key := name + "@0" + epoch
	if t, ok := initComps[key]; ok {
		return t
	}
	save := varCnt
	t := Var(key, s)
	t.varID = 0
	t.maxV = 0
	varCnt = save + 1
	initComps[key] = t
	rootEpoch[t] = epoch
	return t
}

// Heap roots: the arrays the heap consists of when something was entered or havocked. What such an array holds is well
// formed and was allocated before that moment. Generated on demand for the components in typedRoots.
var typedRoots = map[string]types.Type{"Mv|string|[]string": types.NewSlice(tStrT)}
var typedRoot = map[*Term]bool{}
var rootEpoch = map[*Term]string{}
var epochNext = map[string]*Term{}
var rootBound = map[*Term]*Term{}

func heapRoot(t *Term, comp string, next *Term) *Term {
	rootBound[t] = next
	if typedRoots[comp] != nil {
		typedRoot[t] = true
	}
	return t
}

// boundOf: everything the heap root holds was allocated before this.
func boundOf(root *Term) *Term {
	if b := rootBound[root]; b != nil {
		return b
	}
	if ep, ok := rootEpoch[root]; ok {
		return epochNext[ep]
	}
	return nil
}

// heapBound: t was read from heap roots, so it was allocated before the result (nil: unknown).
func heapBound(t *Term) *Term {
	switch {
	case t.op == "var":
		return boundOf(t)
	case t.op == "select":
		return heapBound(t.args[0])
	case t.op == "ite":
		a, b := t.args[1], t.args[2]
		if b.op == "int" {
			return heapBound(a)
		}
		if a.op == "int" {
			return heapBound(b)
		}
		x := heapBound(a)
		if x != nil && x == heapBound(b) {
			return x
		}
	case len(t.args) == 1 && t.args[0].sort.dt != nil && strings.HasPrefix(t.op, t.args[0].sort.name+"__"):
		return heapBound(t.args[0])
	}
	return nil
}

func init() {
	T := typedRoots["Mv|string|[]string"]
	typed := func(r *Term) bool {
		return r.op == "var" && (typedRoot[r] || strings.HasPrefix(r.str, "Mv|string|[]string@0"))
	}
	var gather func(t *Term, depth int) []*Term
	gather = func(t *Term, depth int) []*Term {
		if t.op != "select" || t.sort != sortOf(T) || depth > 8 {
			return nil
		}
		a, k := t.args[0], t.args[1]
		if a.op == "store" {
			return gather(Select(a.args[0], k), depth+1)
		}
		r := a
		if a.op == "select" {
			r = a.args[0]
			if r.op == "store" {
				return append(gather(Select(r.args[2], k), depth+1), gather(Select(Select(r.args[0], a.args[1]), k), depth+1)...)
			}
		}
		if !typed(r) {
			return nil
		}
		if b := boundOf(r); b != nil {
			return typeFacts(t, T, b)
		}
		return nil
	}
	addGroundAxiom(&GroundAxiom{name: "header values in memory are well formed", op: "select", gen: 6, facts: func(t *Term) []*Term { return gather(t, 0) }})
}

func fieldComp(st types.Type, i int) string {
	return fmt.Sprintf("F|%s|%s", structKey(st), under(st).(*types.Struct).Field(i).Name())
}
func arrComp(elem types.Type) string { return "A|" + tname(elem) }
func cellComp(t types.Type) string   { return "C|" + tname(t) }
func mapKeyName(m types.Type) string {
	u := under(m).(*types.Map)
	return tname(u.Key()) + "|" + tname(u.Elem())
}
func mapDomComp(m types.Type) string {
	c := "Md|" + mapKeyName(m)
	mapCompType[c] = m
	return c
}

// mapCompType: a map type using the component
var mapCompType = map[string]types.Type{}

func mapValComp(m types.Type) string { return "Mv|" + mapKeyName(m) }
func mapLenComp(m types.Type) string { return "Ml|" + mapKeyName(m) }
func mapDomSort(m types.Type) *Sort {
	return arraySort(sInt, arraySort(sortOf(under(m).(*types.Map).Key()), sBool))
}
func mapValSort(m types.Type) *Sort {
	u := under(m).(*types.Map)
	return arraySort(sInt, arraySort(sortOf(u.Key()), sortOf(u.Elem())))
}

// subAddr is the address of an embedded struct/array field.
func subAddr(st types.Type, i int, ref *Term) *Term {
	op := "sub|" + structKey(st) + "|" + under(st).(*types.Struct).Field(i).Name()
	registerAddrOp(op, 1)
	return App(op, sInt, ref)
}

// elemAddr is the address of a struct element of an array or slice backing.
func elemAddr(elem types.Type, ref, idx *Term) *Term {
	op := "elem|" + tname(elem)
	registerAddrOp(op, 2)
	return App(op, sInt, ref, idx)
}

var addrOps = map[string]int64{}

func isAddrOp(op string) bool { return strings.HasPrefix(op, "sub|") || strings.HasPrefix(op, "elem|") }

// registerAddrOp installs injectivity facts for an address constructor.
func registerAddrOp(op string, n int) {
	if _, ok := addrOps[op]; ok {
		return
	}
	addrOps[op] = int64(len(addrOps) + 1)
	tag := addrOps[op]
	addGroundAxiom(&GroundAxiom{name: "address constructors are injective", op: op, gen: 4, facts: func(t *Term) []*Term {
		fs := []*Term{
			Eq(App("addrtag", sInt, t), IntC(tag)),
			App("<", sBool, t, IntC(0)),
			Eq(App("inv0|"+op, sInt, t), t.args[0]),
		}
		if n == 2 {
			fs = append(fs, Eq(App("inv1|"+op, sInt, t), t.args[1]))
		}
		return fs
	}})
}

func rootRef(t *Term) *Term {
	for isAddrOp(t.op) {
		t = t.args[0]
	}
	return t
}

func fieldLoad(h heapView, st types.Type, i int, ref *Term) *Term {
	ft := under(st).(*types.Struct).Field(i).Type()
	if isStruct(ft) || isArray(ft) {
		return loadAt(h, ft, subAddr(st, i, ref))
	}
	return Select(h.comp(fieldComp(st, i), arraySort(sInt, sortOf(ft))), ref)
}

// loadAt reads a whole value of type t at address ref.
func loadAt(h heapView, t types.Type, ref *Term) *Term {
	switch u := under(t).(type) {
	case *types.Struct:
		as := make([]*Term, u.NumFields())
		for i := range as {
			as[i] = fieldLoad(h, t, i, ref)
		}
		return Mk(sortOf(t), as...)
	case *types.Array:
		if isStruct(u.Elem()) {
			unsupported("copying an array of structs (" + tname(t) + ")")
		}
		return Select(h.comp(arrComp(u.Elem()), arraySort(sInt, arraySort(sInt, sortOf(u.Elem())))), ref)
	}
	return Select(h.comp(cellComp(t), arraySort(sInt, sortOf(t))), ref)
}

// elemLoad reads element idx (absolute) of the backing store at ref.
func elemLoad(h heapView, elem types.Type, ref, idx *Term) *Term {
	if isStruct(elem) {
		return loadAt(h, elem, elemAddr(elem, ref, idx))
	}
	return Select(Select(h.comp(arrComp(elem), arraySort(sInt, arraySort(sInt, sortOf(elem)))), ref), idx)
}

func mapDom(h heapView, m types.Type, ref, k *Term) *Term {
	return And(Neq(ref, IntC(0)), Select(Select(h.comp(mapDomComp(m), mapDomSort(m)), ref), k))
}

func mapVal(h heapView, m types.Type, ref, k *Term) *Term {
	return Select(Select(h.comp(mapValComp(m), mapValSort(m)), ref), k)
}

func mapGet(h heapView, m types.Type, ref, k *Term) *Term {
	return Ite(mapDom(h, m, ref, k), mapVal(h, m, ref, k), zeroTerm(under(m).(*types.Map).Elem()))
}

func mapLen(h heapView, m types.Type, ref *Term) *Term {
	return Ite(Eq(ref, IntC(0)), IntC(0), Select(h.comp(mapLenComp(m), arraySort(sInt, sInt)), ref))
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) { panic(unsupportedErr{msg}) }

// boxIface converts a value of static type t to an interface value.
func boxIface(t types.Type, v *Term) *Term {
	n := tname(t)
	registerBox(n, sortOf(t))
	return Box(n, v)
}

var boxRegistered = map[string]types.Type{}
var boxOps = map[string]bool{}

func registerBox(n string, s *Sort) {
	if boxOps[n] {
		return
	}
	boxOps[n] = true
	id := typeIDTerm(n)
	addGroundAxiom(&GroundAxiom{name: "interface boxing", op: "box_" + n, gen: 5, facts: func(t *Term) []*Term {
		return []*Term{Eq(App("dyntype", sInt, t), id), Eq(App("unbox_"+n, s, t), t.args[0])}
	}})
	addGroundAxiom(&GroundAxiom{name: "interface boxing", op: "unbox_" + n, gen: 5, facts: func(t *Term) []*Term {
		x := t.args[0]
		return []*Term{Imp(Eq(App("dyntype", sInt, x), id), Eq(x, App("box_"+n, sAny, t)))}
	}})
}

func init() {
	addGroundAxiom(&GroundAxiom{name: "interface boxing", op: "dyntype", gen: 6, facts: func(t *Term) []*Term {
		x := t.args[0]
		return []*Term{Le(IntC(0), t), App("=", sBool, Eq(t, IntC(0)), App("=", sBool, x, anyNil))}
	}})
}
