package main

// Built-in models of standard library operations that act on memory or locks. Everything here is trusted.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"net/textproto"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont)

var models map[string]modelFn

// cleanups for closures of interface methods etc. share these helpers

func one(t *Term) []Val { return []Val{{t: t}} }

// boundTerm is the function value recv.m (a bound method).
func (e *Engine) boundTerm(m *types.Func, recv *Term) *Term {
	sig := m.Type().(*types.Signature)
	rt := sig.Recv().Type()
	n := tname(rt)
	op := ""
	if _, ok := rt.(*types.Pointer); ok || !isIface(rt) {
		if ok {
			op = "clo|(" + n + ")." + m.Name() + "$bound"
		} else {
			op = "clo|(" + n + ")." + m.Name() + "$bound"
		}
	}
	return App(op, sFn, recv)
}

// namedFuncType finds a named function type.
func (e *Engine) namedFuncType(n string) types.Type {
	if T, ok := typeByName[n]; ok {
		return T
	}
	i := strings.LastIndexByte(n, '.')
	if i < 0 {
		return nil
	}
	if p := e.allPkgs[n[:i]]; p != nil {
		if o, ok := p.Scope().Lookup(n[i+1:]).(*types.TypeName); ok {
			return o.Type()
		}
	}
	return nil
}

// canonKey is http.CanonicalHeaderKey.
func canonKey(t *Term) *Term {
	if t.op == "str" {
		return StrC(textproto.CanonicalMIMEHeaderKey(t.str))
	}
	if t.op == "ite" {
		return Ite(t.args[0], canonKey(t.args[1]), canonKey(t.args[2]))
	}
	if t.op == "canonkey" {
		return t
	}
	return App("canonkey", sString, t)
}

func init() {
	addGroundAxiom(&GroundAxiom{name: "header names are canonicalised idempotently", op: "canonkey", gen: 2, facts: func(t *Term) []*Term {
		return []*Term{Eq(App("canonkey", sString, t), t), Imp(Eq(t.args[0], StrC("")), Eq(t, StrC("")))}
	}})
}

// formatTerm models fmt.Sprintf / Sprint / Sprintln.
func formatTerm(kind string, ts []*Term) *Term {
	switch kind {
	case "sprintf":
		if ts[0].op != "str" {
			return App(fmt.Sprintf("sprintf%d", len(ts)), sString, ts...)
		}
		f := ts[0].str
		var out []*Term
		lit := ""
		flush := func() {
			if lit != "" {
				out = append(out, StrC(lit))
				lit = ""
			}
		}
		n := 1
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				lit += string(f[i : i+1])
				continue
			}
			j := i + 1
			for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
				j++
			}
			if j >= len(f) {
				return App(fmt.Sprintf("sprintf%d", len(ts)), sString, ts...)
			}
			verb := f[i : j+1]
			i = j
			if verb == "%%" {
				lit += "%"
				continue
			}
			if n >= len(ts) {
				lit += "%!" + verb[len(verb)-1:] + "(MISSING)"
				continue
			}
			flush()
			out = append(out, formatArg(verb, ts[n]))
			n++
		}
		flush()
		for ; n < len(ts); n++ {
			out = append(out, App("fmtextra", sString, ts[n]))
		}
		return Concat(append([]*Term{StrC("")}, out...)...)
	}
	var out []*Term
	for i, t := range ts {
		if i > 0 {
			if kind == "sprintln" {
				out = append(out, StrC(" "))
			} else if !boxedString(t) && !boxedString(ts[i-1]) {
				if !knownBox(t) || !knownBox(ts[i-1]) {
					out = append(out, App("sprintsep", sString, ts[i-1], t))
				} else {
					out = append(out, StrC(" "))
				}
			}
		}
		out = append(out, formatArg("%v", t))
	}
	if kind == "sprintln" {
		out = append(out, StrC("\n"))
	}
	return Concat(append([]*Term{StrC("")}, out...)...)
}

func knownBox(t *Term) bool { return strings.HasPrefix(t.op, "box_") }

func boxedString(t *Term) bool { return t.op == "box_string" }

func formatArg(verb string, t *Term) *Term {
	if knownBox(t) {
		T := typeByName[t.op[4:]]
		a := t.args[0]
		if T != nil && a.sort == sString && !hasMethods(T) && (verb == "%s" || verb == "%v") {
			return a
		}
		if T != nil && a.sort == sInt && (verb == "%d" || verb == "%v") && !hasMethods(T) {
			if b, ok := under(T).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return itoa(a)
			}
		}
	}
	return App("fmt|"+verb, sString, t)
}

func hasMethods(T types.Type) bool {
	ms := types.NewMethodSet(T)
	return ms.Len() > 0
}

func itoa(a *Term) *Term {
	if a.op == "int" {
		return StrC(a.num.String())
	}
	return App("itoa", sString, a)
}

func init() {
	addGroundAxiom(&GroundAxiom{name: "decimal rendering is injective", op: "itoa", gen: 3, facts: func(t *Term) []*Term {
		return []*Term{Eq(App("unitoa", sInt, t), t.args[0]), Neq(t, StrC(""))}
	}})
}

var escapeFns = map[string]bool{
	"pf|html.EscapeString|0": true, "pf|html/template.HTMLEscapeString|0": true, "pf|text/template.HTMLEscapeString|0": true,
	"pf|net/url.PathEscape|0": true, "pf|net/url.QueryEscape|0": true,
}

// escapedURL: rendering of url.URL values percent-encodes the HTML metacharacters except & and '.
// safeText: the string contains no unescaped text from outside. Literals of the program and escaped strings are safe.
func safeText(t *Term) *Term {
	switch {
	case t.op == "str":
		return tTrue
	case t.op == "str.++":
		var cs []*Term
		for _, a := range t.args {
			cs = append(cs, safeText(a))
		}
		return And(cs...)
	case t.op == "ite":
		return Ite(t.args[0], safeText(t.args[1]), safeText(t.args[2]))
	case escapeFns[t.op], t.op == "itoa":
		return tTrue
	case strings.HasPrefix(t.op, "fmt|%") && len(t.args) == 1 && knownBox(t.args[0]):
		T := typeByName[t.args[0].op[4:]]
		if n := t.args[0].op[4:]; n == "time.Time" || n == "time.Duration" {
			return tTrue
		}
		if T != nil && !hasMethods(T) {
			if b, ok := under(T).(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 {
				return tTrue
			}
		}
	}
	return App("safetext", sBool, t)
}

// htmlTypes are the string types html/template inserts without escaping.
var htmlTypes = map[string]bool{"HTML": true, "HTMLAttr": true, "JS": true, "JSStr": true, "CSS": true, "URL": true, "Srcset": true}

// safeData: what a template inserts verbatim from data is safe text.
func safeData(t *Term) *Term {
	switch {
	case t == anyNil:
		return tTrue
	case t.op == "ite":
		return Ite(t.args[0], safeData(t.args[1]), safeData(t.args[2]))
	case !knownBox(t):
		return App("safedata", sBool, t)
	}
	T := typeByName[t.op[4:]]
	if T == nil {
		return App("safedata", sBool, t)
	}
	return safeOfType(t.args[0], T)
}

func safeOfType(v *Term, T types.Type) *Term {
	if n, ok := T.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "html/template" {
		if htmlTypes[n.Obj().Name()] {
			return safeText(v)
		}
		return App("safedata", sBool, v)
	}
	switch u := under(T).(type) {
	case *types.Basic:
		return tTrue // escaped by the template
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, safeOfType(Sel(v, i), u.Field(i).Type()))
		}
		return And(cs...)
	case *types.Interface:
		return safeData(v)
	}
	return App("safedata", sBool, v)
}

func init() {
	// A string found equal to a safe one is safe too (through congruence); nothing else is assumed.
}

// ---- content of bytes.Buffer / strings.Builder

const bufComp = "X|buffer"

var bufSort = arraySort(sInt, sString)

func bufGet(st *State, ref *Term) *Term { return Select(st.comp(bufComp, bufSort), ref) }
func bufSet(st *State, ref, v *Term) {
	st.write(bufComp, ref, Store(st.comp(bufComp, bufSort), ref, v))
}

// bufReader: what a reader of a new buffer delivers (see bodyText and bodySize of the contracts).
func bufReader(st *State, r, text, size *Term) {
	b := App("box_*bytes.Buffer", sAny, r)
	st.assume(Eq(App("readertext", sString, b), text))
	st.assume(Eq(App("readersize", sInt, b), size))
	st.assume(App("sizedreader", sBool, b))
}

// bufferOf: the reference of an in-memory buffer behind an io.Writer.
func bufferOf(w *Term) *Term {
	if w.op == "box_*bytes.Buffer" || w.op == "box_*strings.Builder" {
		return w.args[0]
	}
	return nil
}

// sliceTerms reads a slice of known length.
func sliceTerms(st *State, s *Term, el types.Type) ([]*Term, bool) {
	n := SLen(s)
	if n.op != "int" || !n.num.IsInt64() || n.num.Int64() > 64 {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < n.num.Int64(); i++ {
		out = append(out, elemLoad(st, el, SRef(s), Add(SOff(s), IntC(i))))
	}
	return out, true
}

func anyT() types.Type { return universeTypes["any"] }

func formatModel(kind string) func(st *State, args []Val) *Term {
	return func(st *State, args []Val) *Term {
		var head []*Term
		i := 0
		if kind == "sprintf" {
			head = append(head, args[0].term())
			i = 1
		}
		ts, ok := sliceTerms(st, args[i].term(), anyT())
		if !ok {
			return Fresh(kind, sString)
		}
		return formatTerm(kind, append(head, ts...))
	}
}

var headerT types.Type // map[string][]string as net/http.Header

func (e *Engine) headerType() types.Type {
	if headerT == nil {
		headerT = e.allPkgs["net/http"].Scope().Lookup("Header").Type()
	}
	return headerT
}

func (e *Engine) strSlice(st *State, vs ...*Term) *Term {
	ref := st.newRef()
	c := arrComp(tStrT)
	s := arraySort(sInt, arraySort(sInt, sString))
	a := ConstArr(s.v, StrC(""))
	for i, v := range vs {
		a = Store(a, IntC(int64(i)), v)
	}
	st.write(c, ref, Store(st.comp(c, s), ref, a))
	n := IntC(int64(len(vs)))
	return SliceT(ref, IntC(0), n, n)
}

func headerGet(e *Engine, h heapView, m, key *Term) *Term {
	T := e.headerType()
	vs := mapGet(h, T, m, canonKey(key))
	first := elemLoad(h, tStrT, SRef(vs), SOff(vs))
	d := Ite(Lt(IntC(0), SLen(vs)), first, StrC(""))
	if d.op != "ite" {
		return d
	}
	t := App("hdrget", sString, vs, first)
	hdrDefs[t] = d
	return t
}

// hdrDefs: what the header look-ups named by hdrget terms mean
var hdrDefs = map[*Term]*Term{}

func init() {
	addGroundAxiom(&GroundAxiom{name: "http.Header.Get", op: "hdrget", gen: 4, facts: func(t *Term) []*Term {
		if d := hdrDefs[t]; d != nil {
			return []*Term{Eq(t, d)}
		}
		return []*Term{Eq(t, Ite(Lt(IntC(0), SLen(t.args[0])), t.args[1], StrC("")))}
	}})
}

// writeBuffer appends to a buffer: event collected.
func (e *Engine) writeBuffer(st *State, buf, s *Term, pos token.Pos) {
	bufSet(st, buf, Concat(bufGet(st, buf), s))
	e.emit(st, "collected", []*Term{buf, s}, pos)
}

func init() {
	lock := func(mode string) modelFn {
		return func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			e.safe(st, "nil mutex", Neq(args[0].term(), IntC(0)), pos)
			e.acquire(st, args[0].term(), mode, pos, func(st *State, _ []Val) { k(st, nil) })
		}
	}
	unlock := func(mode string) modelFn {
		return func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			e.release(st, args[0].term(), mode, pos, func(st *State, _ []Val) { k(st, nil) })
		}
	}
	pureT := func(f func(e *Engine, st *State, args []Val) *Term) modelFn {
		return func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			t := f(e, st, args)
			if fn.Signature.Results().Len() > 0 {
				st.note(t, fn.Signature.Results().At(0).Type())
			}
			k(st, []Val{mkVal(t, fn.Signature.Results().At(0).Type())})
		}
	}
	models = map[string]modelFn{
		"(*sync.Mutex).Lock":      lock("W"),
		"(*sync.Mutex).Unlock":    unlock("W"),
		"(*sync.RWMutex).Lock":    lock("W"),
		"(*sync.RWMutex).Unlock":  unlock("W"),
		"(*sync.RWMutex).RLock":   lock("R"),
		"(*sync.RWMutex).RUnlock": unlock("R"),
		"(*sync.Once).Do": func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			s := arraySort(sInt, sBool)
			o := args[0].term()
			done := Select(st.comp("X|once", s), o)
			if done.op == "select" && done.args[0].op == "var" && allocatedHere(o) {
				done = tFalse // a new Once has not run
			}
			e.fork(st, done, "once", func(st *State) { k(st, nil) }, func(st *State) {
				st.write("X|once", o, Store(st.comp("X|once", s), o, tTrue))
				e.callDynamic(st, args[1].term(), types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, pos, func(st *State, _ []Val) { k(st, nil) })
			})
		},
		"(net/http.HandlerFunc).ServeHTTP": func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			e.callDynamic(st, args[0].term(), fn.Signature.Recv().Type(), args[1:], pos, k)
		},
		"(net/http.Header).Get": pureT(func(e *Engine, st *State, a []Val) *Term { return headerGet(e, st, a[0].term(), a[1].term()) }),
		"(net/http.Header).Set": func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			h, key, v := args[0].term(), canonKey(args[1].term()), args[2].term()
			e.safe(st, "write to a nil header map", Neq(h, IntC(0)), pos)
			e.emit(st, "headerset", []*Term{h, key, v}, pos)
			st.mapStore(e.headerType(), h, key, e.strSlice(st, v))
			k(st, nil)
		},
		"(net/http.Header).Add": func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			h, key, v := args[0].term(), canonKey(args[1].term()), args[2].term()
			e.safe(st, "write to a nil header map", Neq(h, IntC(0)), pos)
			e.emit(st, "headeradd", []*Term{h, key, v}, pos)
			T := e.headerType()
			old := mapGet(st, T, h, key)
			st.note(old, types.NewSlice(tStrT))
			n := SLen(old)
			// append may or may not reuse the backing store; the values seen through the map are the same
			ref := st.newRef()
			c := arrComp(tStrT)
			s := arraySort(sInt, arraySort(sInt, sString))
			hh := st.comp(c, s)
			src := Select(hh, SRef(old))
			na := Fresh("added", s.v)
			i := Var("ha!", sInt)
			st.assume(Forall([]*Term{i}, [][]*Term{{Select(na, i)}}, And(
				Imp(And(Le(IntC(0), i), Lt(i, n)), Eq(Select(na, i), Select(src, Add(SOff(old), i)))),
				Imp(Eq(i, n), Eq(Select(na, i), v)))))
			st.write(c, ref, Store(hh, ref, na))
			st.mapStore(T, h, key, SliceT(ref, IntC(0), Add(n, IntC(1)), Add(n, IntC(1))))
			k(st, nil)
		},
		"(net/http.Header).Del": func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			h, key := args[0].term(), canonKey(args[1].term())
			e.emit(st, "headerdel", []*Term{h, key}, pos)
			e.fork(st, Eq(h, IntC(0)), "", func(st *State) { k(st, nil) }, func(st *State) {
				st.mapDelete(e.headerType(), h, key)
				k(st, nil)
			})
		},
		"net/http.CanonicalHeaderKey": pureT(func(e *Engine, st *State, a []Val) *Term { return canonKey(a[0].term()) }),
		"fmt.Sprintf":                 pureT(func(e *Engine, st *State, a []Val) *Term { return formatModel("sprintf")(st, a) }),
		"fmt.Sprint":                  pureT(func(e *Engine, st *State, a []Val) *Term { return formatModel("sprint")(st, a) }),
		"fmt.Sprintln":                pureT(func(e *Engine, st *State, a []Val) *Term { return formatModel("sprintln")(st, a) }),
		"fmt.Errorf": pureT(func(e *Engine, st *State, a []Val) *Term {
			t := App("errorf", sAny, formatModel("sprintf")(st, a))
			st.assume(Neq(t, anyNil))
			return t
		}),
		"errors.New": pureT(func(e *Engine, st *State, a []Val) *Term {
			t := App("errorf", sAny, a[0].term())
			st.assume(Neq(t, anyNil))
			return t
		}),
		"strconv.Itoa":      pureT(func(e *Engine, st *State, a []Val) *Term { return itoa(a[0].term()) }),
		"strings.HasPrefix": pureT(func(e *Engine, st *State, a []Val) *Term { return StrPrefix(a[0].term(), a[1].term()) }),
		"strings.HasSuffix": pureT(func(e *Engine, st *State, a []Val) *Term { return StrSuffix(a[0].term(), a[1].term()) }),
		"strings.Contains":  pureT(func(e *Engine, st *State, a []Val) *Term { return StrContains(a[0].term(), a[1].term()) }),
		"strings.Index":     pureT(func(e *Engine, st *State, a []Val) *Term { return StrIndex(a[0].term(), a[1].term()) }),
		"strings.IndexByte": pureT(func(e *Engine, st *State, a []Val) *Term { return StrIndex(a[0].term(), byteStr(a[1].term())) }),
		"strings.TrimPrefix": pureT(func(e *Engine, st *State, a []Val) *Term {
			s, p := a[0].term(), a[1].term()
			return Ite(StrPrefix(s, p), Substr(s, StrLen(p), StrLen(s)), s)
		}),
		"strings.TrimSuffix": pureT(func(e *Engine, st *State, a []Val) *Term {
			s, p := a[0].term(), a[1].term()
			return Ite(StrSuffix(s, p), Substr(s, IntC(0), Sub(StrLen(s), StrLen(p))), s)
		}),
		"strings.Split": splitModel,
		"strings.Join":  joinModel,
		"bytes.NewBufferString": func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			r := st.newRef()
			bufSet(st, r, args[0].term())
			bufReader(st, r, args[0].term(), StrLen(args[0].term()))
			k(st, one(r))
		},
		"bytes.NewBuffer": func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			s := args[0].term()
			r := st.newRef()
			bufSet(st, r, bytesToStr(st, s))
			bufReader(st, r, bytesToStr(st, s), SLen(s))
			k(st, one(r))
		},
		"(*bytes.Buffer).String":    pureT(func(e *Engine, st *State, a []Val) *Term { return bufGet(st, a[0].term()) }),
		"(*strings.Builder).String": pureT(func(e *Engine, st *State, a []Val) *Term { return bufGet(st, a[0].term()) }),
		"(*bytes.Buffer).Len":       pureT(func(e *Engine, st *State, a []Val) *Term { return StrLen(bufGet(st, a[0].term())) }),
		"(*bytes.Buffer).Bytes": func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			k(st, one(st.newBytes(bufGet(st, args[0].term()))))
		},
		"io.WriteString": func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			w, s := args[0].term(), args[1].term()
			if b := bufferOf(w); b != nil {
				e.writeBuffer(st, b, s, pos)
				k(st, []Val{{t: StrLen(s)}, {t: anyNil}})
				return
			}
			e.safe(st, "nil writer", Neq(w, anyNil), pos)
			e.emit(st, "write", []*Term{w, s}, pos)
			k(st, e.freshResults(st, "write", fn.Signature))
		},
		"fmt.Fprintf": func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			w, s := args[0].term(), formatModel("sprintf")(st, args[1:])
			if b := bufferOf(w); b != nil {
				e.writeBuffer(st, b, s, pos)
			} else {
				e.emit(st, "write", []*Term{w, s}, pos)
			}
			k(st, e.freshResults(st, "write", fn.Signature))
		},
		"fmt.Fprint": func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			w, s := args[0].term(), formatModel("sprint")(st, args[1:])
			if b := bufferOf(w); b != nil {
				e.writeBuffer(st, b, s, pos)
			} else {
				e.emit(st, "write", []*Term{w, s}, pos)
			}
			k(st, e.freshResults(st, "write", fn.Signature))
		},
		"fmt.Printf":  ignoreModel,
		"fmt.Println": ignoreModel,
		"fmt.Print":   ignoreModel,
		"(*log.Logger).Println": logModel("sprintln", false),
		"(*log.Logger).Printf":  logModel("sprintf", false),
		"(*log.Logger).Print":   logModel("sprint", false),
		"(*log.Logger).Fatalln": logModel("sprintln", true),
		"(*log.Logger).Fatalf":  logModel("sprintf", true),
		"(*log.Logger).Fatal":   logModel("sprint", true),
		"log.Print":   ignoreModel,
		"log.Printf":  ignoreModel,
		"log.Println": ignoreModel,
		"log.Fatal":   exitModel,
		"log.Fatalf":  exitModel,
		"log.Fatalln": exitModel,
		"time.Sleep": func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			e.emit(st, "slept", []*Term{args[0].term()}, pos)
			k(st, nil)
		},
		"crypto/subtle.ConstantTimeCompare": pureT(func(e *Engine, st *State, a []Val) *Term {
			return Ite(Eq(bytesToStr(st, a[0].term()), bytesToStr(st, a[1].term())), IntC(1), IntC(0))
		}),
		"bytes.Equal": pureT(func(e *Engine, st *State, a []Val) *Term {
			return Eq(bytesToStr(st, a[0].term()), bytesToStr(st, a[1].term()))
		}),
		"github.com/cespare/xxhash.Sum64": pureT(func(e *Engine, st *State, a []Val) *Term {
			return App("xxhash", sInt, bytesToStr(st, a[0].term()))
		}),
		"github.com/cespare/xxhash.Sum64String": pureT(func(e *Engine, st *State, a []Val) *Term {
			return App("xxhash", sInt, a[0].term())
		}),
		"crypto/sha256.Sum256": pureT(func(e *Engine, st *State, a []Val) *Term {
			return App("sha256arr", arraySort(sInt, sInt), bytesToStr(st, a[0].term()))
		}),
		"(*encoding/base64.Encoding).DecodeString": func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			s := args[1].term()
			b := st.newBytes(App("b64dec", sString, s))
			k(st, []Val{{t: b}, {t: Ite(App("b64ok", sBool, s), anyNil, App("b64err", sAny, s))}})
		},
		"strings.Cut": func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			s, sep := args[0].term(), args[1].term()
			i := StrIndex(s, sep)
			e.fork(st, StrContains(s, sep), "separator present", func(st *State) {
				st.assume(And(Le(IntC(0), i), Le(Add(i, StrLen(sep)), StrLen(s))))
				k(st, []Val{{t: Substr(s, IntC(0), i)}, {t: Substr(s, Add(i, StrLen(sep)), StrLen(s))}, {t: tTrue}})
			}, func(st *State) { k(st, []Val{{t: s}, {t: StrC("")}, {t: tFalse}}) })
		},
		"strings.Count": pureT(func(e *Engine, st *State, a []Val) *Term {
			n, _ := splitTerms(a[0].term(), a[1].term())
			return Sub(n, IntC(1))
		}),
		"strings.ContainsRune": pureT(func(e *Engine, st *State, a []Val) *Term {
			if a[1].term().op == "int" && a[1].term().num.Int64() < 128 {
				return StrContains(a[0].term(), byteStr(a[1].term()))
			}
			return App("containsrune", sBool, a[0].term(), a[1].term())
		}),
		"strings.IndexRune": pureT(func(e *Engine, st *State, a []Val) *Term {
			if a[1].term().op == "int" && a[1].term().num.Int64() < 128 {
				return StrIndex(a[0].term(), byteStr(a[1].term()))
			}
			return App("indexrune", sInt, a[0].term(), a[1].term())
		}),
		"bytes.IndexByte": pureT(func(e *Engine, st *State, a []Val) *Term {
			return StrIndex(bytesToStr(st, a[0].term()), byteStr(a[1].term()))
		}),
		"bytes.Index": pureT(func(e *Engine, st *State, a []Val) *Term {
			return StrIndex(bytesToStr(st, a[0].term()), bytesToStr(st, a[1].term()))
		}),
		"bytes.Contains": pureT(func(e *Engine, st *State, a []Val) *Term {
			return StrContains(bytesToStr(st, a[0].term()), bytesToStr(st, a[1].term()))
		}),
		"bytes.SplitN":   splitNModel(true),
		"strings.SplitN": splitNModel(false),
	}
	for _, w := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		models[w+".WriteString"] = func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			s := args[1].term()
			e.writeBuffer(st, args[0].term(), s, pos)
			k(st, []Val{{t: StrLen(s)}, {t: anyNil}})
		}
		models[w+".Write"] = func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			s := bytesToStr(st, args[1].term())
			e.writeBuffer(st, args[0].term(), s, pos)
			k(st, []Val{{t: StrLen(s)}, {t: anyNil}})
		}
		models[w+".WriteByte"] = func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
			e.writeBuffer(st, args[0].term(), byteStr(args[1].term()), pos)
			k(st, one(anyNil))
		}
	}
	addGroundAxiom(&GroundAxiom{name: "one-byte strings", op: "bytestr", gen: 3, facts: func(t *Term) []*Term {
		return []*Term{Eq(App("str.len", sInt, t), IntC(1))}
	}})
}

func init() {
	addGroundAxiom(&GroundAxiom{name: "sha256 is collision-free on the inputs met", op: "sha256", gen: 3, facts: func(t *Term) []*Term {
		return []*Term{Eq(App("unsha256", sString, t), t.args[0]), Eq(App("str.len", sInt, t), IntC(32))}
	}})
	addGroundAxiom(&GroundAxiom{name: "sha256 is collision-free on the inputs met", op: "sha256arr", gen: 3, facts: func(t *Term) []*Term {
		return []*Term{Eq(App("unsha256arr", sString, t), t.args[0])}
	}})
	addGroundAxiom(&GroundAxiom{name: "xxhash is collision-free on the keys met and never zero", op: "xxhash", gen: 3, facts: func(t *Term) []*Term {
		max := new(big.Int).Lsh(big.NewInt(1), 64)
		return []*Term{Eq(App("unxxhash", sString, t), t.args[0]), Lt(IntC(0), t), Lt(t, BigC(max))}
	}})
	addGroundAxiom(&GroundAxiom{name: "errors are not nil", op: "b64err", gen: 3, facts: func(t *Term) []*Term {
		return []*Term{Neq(t, anyNil)}
	}})
}

func byteStr(b *Term) *Term {
	if b.op == "int" && b.num.IsInt64() && b.num.Int64() >= 0 && b.num.Int64() < 256 {
		return StrC(string([]byte{byte(b.num.Int64())}))
	}
	return App("bytestr", sString, b)
}

// logModel: one message is written to the logger; a trailing newline of its text does not matter.
func logModel(kind string, exit bool) modelFn {
	return func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
		l := args[0].term()
		e.safe(st, "nil logger", Neq(l, IntC(0)), pos)
		e.emit(st, "logout", []*Term{l, trimNewline(formatModel(kind)(st, args[1:]))}, pos)
		if exit {
			e.exit(st, fn.String(), pos)
			return
		}
		k(st, nil)
	}
}

func trimNewline(t *Term) *Term {
	switch {
	case t.op == "str":
		return StrC(strings.TrimSuffix(t.str, "\n"))
	case t.op == "str.++":
		n := len(t.args) - 1
		return Concat(append(append([]*Term{}, t.args[:n]...), trimNewline(t.args[n]))...)
	}
	return t
}

func ignoreModel(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
	k(st, e.freshResults(st, fn.Name(), fn.Signature))
}

func exitModel(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
	if e.specs.events["exited"] != nil {
		e.emit(st, "exited", []*Term{IntC(1)}, pos)
	}
	e.exit(st, fn.String(), pos)
}

// strings.Split(s, sep) for a non-empty separator: splitN(s,sep) >= 1 pieces splitAt(s,sep,i).
func splitTerms(s, sep *Term) (n *Term, at func(i *Term) *Term) {
	return App("splitN", sInt, s, sep), func(i *Term) *Term { return App("splitAt", sString, s, sep, i) }
}

func init() {
	addGroundAxiom(&GroundAxiom{name: "strings.Split", op: "splitN", gen: 4, facts: func(t *Term) []*Term {
		s, sep := t.args[0], t.args[1]
		has := StrContains(s, sep)
		one := Eq(t, IntC(1))
		at0 := App("splitAt", sString, s, sep, IntC(0))
		return []*Term{Imp(Neq(sep, StrC("")), And(Le(IntC(1), t), Eq(one, Not(has)), Imp(one, Eq(at0, s))))}
	}})
	addGroundAxiom(&GroundAxiom{name: "strings.Split", op: "splitAt", gen: 4, facts: func(t *Term) []*Term {
		s, sep, i := t.args[0], t.args[1], t.args[2]
		n := App("splitN", sInt, s, sep)
		fs := []*Term{Imp(And(Neq(sep, StrC("")), Le(IntC(0), i), Lt(i, n)), Not(StrContains(t, sep)))}
		if i.op == "int" && i.num.Sign() == 0 {
			fs = append(fs, Imp(And(Neq(sep, StrC("")), StrContains(s, sep)), Eq(t, Substr(s, IntC(0), StrIndex(s, sep)))))
		}
		return fs
	}})
}

func splitModel(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
	s, sep := args[0].term(), args[1].term()
	n, at := splitTerms(s, sep)
	ref := st.newRef()
	c := arrComp(tStrT)
	srt := arraySort(sInt, arraySort(sInt, sString))
	na := Fresh("split", srt.v)
	i := Var("sp!", sInt)
	st.assume(Forall([]*Term{i}, [][]*Term{{Select(na, i)}}, Eq(Select(na, i), at(i))))
	st.write(c, ref, Store(st.comp(c, srt), ref, na))
	st.assume(Le(IntC(0), n))
	st.assume(Imp(Neq(sep, StrC("")), Le(IntC(1), n)))
	k(st, one(SliceT(ref, IntC(0), n, n)))
}

// SplitN(s, sep, 2) for a non-empty separator.
func splitNModel(isBytes bool) modelFn {
	return func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
		nT := args[2].term()
		var s, sep *Term
		if isBytes {
			s, sep = bytesToStr(st, args[0].term()), bytesToStr(st, args[1].term())
		} else {
			s, sep = args[0].term(), args[1].term()
		}
		if nT.op != "int" || nT.num.Int64() != 2 || sep.op == "str" && sep.str == "" {
			e.unknownCall(st, fn.String(), fn.Signature, args, pos, k)
			return
		}
		i := StrIndex(s, sep)
		mk := func(st *State, parts ...*Term) *Term {
			if !isBytes {
				return e.strSlice(st, parts...)
			}
			ref := st.newRef()
			el := types.NewSlice(byteElem)
			c := arrComp(el)
			srt := arraySort(sInt, arraySort(sInt, sSlice))
			a := ConstArr(srt.v, zeroOfSort(sSlice))
			for j, p := range parts {
				a = Store(a, IntC(int64(j)), st.newBytes(p))
			}
			st.write(c, ref, Store(st.comp(c, srt), ref, a))
			n := IntC(int64(len(parts)))
			return SliceT(ref, IntC(0), n, n)
		}
		e.fork(st, StrContains(s, sep), "separator present", func(st *State) {
			st.assume(And(Le(IntC(0), i), Le(Add(i, StrLen(sep)), StrLen(s))))
			k(st, one(mk(st, Substr(s, IntC(0), i), Substr(s, Add(i, StrLen(sep)), StrLen(s)))))
		}, func(st *State) { k(st, one(mk(st, s))) })
	}
}

func joinModel(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
	ts, ok := sliceTerms(st, args[0].term(), tStrT)
	if !ok {
		k(st, one(Fresh("joined", sString)))
		return
	}
	var out []*Term
	for i, t := range ts {
		if i > 0 {
			out = append(out, args[1].term())
		}
		out = append(out, t)
	}
	k(st, one(Concat(append([]*Term{StrC("")}, out...)...)))
}
