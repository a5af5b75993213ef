package main

// Contract files: lexer, parser and the specification database.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Expr is a specification expression.
type Expr struct {
	op      string // ident, int, str, call, sel, index, slice, unary, binary, forall, exists, meta, is, as
	name    string
	args    []*Expr
	binders []Binder
	trig    [][]*Expr
	typ     string // type text for is/as
	pos     string
	sc      *Scope
}

// Binder declares a specification variable.
type Binder struct {
	name string
	typ  string
}

// Scope resolves package-qualified names.
type Scope struct {
	pkg     string // short name of the current repository package
	imports map[string]string
}

// Clause is one line of a contract.
type Clause struct {
	kind  string
	tags  []string
	name  string
	text  string
	expr  *Expr
	metas []Binder
	event string
	args  []*Expr
	pos   string
}

// Contract is the specification of one function of the code under verification.
type Contract struct {
	name     string
	fn       string
	params   []string
	results  []string
	then     [][]string
	via      string
	tags     []string
	safety   []string
	modular  bool
	clauses  []*Clause
	lets     map[string]*Expr
	sc       *Scope
	hide     map[string]bool
	file     string
	used     bool
	noabort  bool
	optional bool
	dropped  bool
}

func (c *Contract) hidden(o *Contract) bool { return c != nil && (c.hide["*"] || c.hide[o.name]) }

func (c *Contract) byKind(k string) []*Clause {
	var out []*Clause
	for _, x := range c.clauses {
		if x.kind == k {
			out = append(out, x)
		}
	}
	return out
}

// Extern is the trusted contract of a function outside the repository.
type Extern struct {
	name    string
	params  []string
	results []string
	clauses []*Clause
	lets    map[string]*Expr
	sc      *Scope
}

func (x *Extern) byKind(k string) []*Clause {
	var out []*Clause
	for _, c := range x.clauses {
		if c.kind == k {
			out = append(out, c)
		}
	}
	return out
}

// SpecFunc is a specification function (a macro, or recursive and uninterpreted with unfolding).
type SpecFunc struct {
	name   string
	params []Binder
	ret    string
	body   *Expr
	rec    bool
	sc     *Scope
	// filled on first use of a recursive function
	comps  []string
	csorts []*Sort
	ready  bool
	busy   bool
	retT   *Sort
}

// EventDecl names and types the arguments of a ghost event.
type EventDecl struct {
	name   string
	silent bool // not part of the behaviour contracts describe (clock readings)
	params []Binder
	sc     *Scope
}

type SpecDB struct {
	externs   map[string]*Extern
	modular   map[string]*Contract
	contracts []*Contract
	guards    []*Guard
	funcs     map[string]*SpecFunc
	events    map[string]*EventDecl
	axioms    []*Clause
	cellTypes map[string]types.Type
	guardSrc  []*guardSrc
}

type guardSrc struct {
	typ, lock string
	clauses   []*Clause
	sc        *Scope
}

func newSpecDB() *SpecDB {
	return &SpecDB{externs: map[string]*Extern{}, modular: map[string]*Contract{}, funcs: map[string]*SpecFunc{}, events: map[string]*EventDecl{}, cellTypes: map[string]types.Type{}}
}

func (db *SpecDB) typeOfCell(c string) types.Type { return db.cellTypes[c] }

// ---- lexer

type tok struct {
	k string // id, int, str, op, eof
	s string
}

type lexer struct {
	toks []tok
	p    int
	pos  string
	sc   *Scope
}

func lex(s, pos string) []tok {
	var out []tok
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ":=", "...", "(", ")", "[", "]", "{", "}", ".", ",", ":", "!", "<", ">", "+", "-", "*", "/", "%", "=", "?"}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c == '"' || c == '`':
			j := i + 1
			for j < len(s) && s[j] != c {
				if c == '"' && s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				panic(pos + ": unterminated string")
			}
			v, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				panic(pos + ": bad string " + s[i:j+1])
			}
			out = append(out, tok{"str", v})
			i = j + 1
		case c == '\'':
			j := strings.IndexByte(s[i+1:], '\'')
			v, _, _, err := strconv.UnquoteChar(s[i+1:i+1+j], '\'')
			if err != nil {
				panic(pos + ": bad char")
			}
			out = append(out, tok{"int", fmt.Sprint(int(v))})
			i += j + 2
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, tok{"int", s[i:j]})
			i = j
		case c == '$' || c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i + 1
			for j < len(s) && (s[j] == '_' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				panic(fmt.Sprintf("%s: bad character %q", pos, c))
			}
		}
	}
	return append(out, tok{"eof", ""})
}

func (l *lexer) peek() tok { return l.toks[l.p] }
func (l *lexer) next() tok { t := l.toks[l.p]; l.p++; return t }
func (l *lexer) is(s string) bool {
	t := l.peek()
	return t.s == s && (t.k == "op" || t.k == "id")
}
func (l *lexer) accept(s string) bool {
	if l.is(s) {
		l.p++
		return true
	}
	return false
}
func (l *lexer) expect(s string) {
	if !l.accept(s) {
		panic(fmt.Sprintf("%s: expected %q, found %q", l.pos, s, l.peek().s))
	}
}

func (l *lexer) mk(op, name string, args ...*Expr) *Expr {
	return &Expr{op: op, name: name, args: args, pos: l.pos, sc: l.sc}
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "is": 5, "as": 8, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (l *lexer) expr(min int) *Expr {
	x := l.unary()
	for {
		t := l.peek()
		if t.k != "op" && !(t.k == "id" && (t.s == "in" || t.s == "is" || t.s == "as")) {
			return x
		}
		p, ok := binPrec[t.s]
		if !ok || p < min {
			return x
		}
		l.next()
		if t.s == "is" || t.s == "as" {
			y := l.mk(t.s, "", x)
			y.typ = l.typeText()
			x = y
			continue
		}
		q := p + 1
		if t.s == "==>" {
			q = p
		}
		y := l.expr(q)
		x = l.mk("binary", t.s, x, y)
	}
}

// typeText collects the tokens of a type.
func (l *lexer) typeText() string {
	var sb strings.Builder
	depth := 0
	first := true
	for {
		t := l.peek()
		if t.k == "eof" {
			break
		}
		if depth == 0 && t.k == "op" && !first {
			switch t.s {
			case "(", "[", ".", "*":
				if t.s == "[" && !strings.HasSuffix(sb.String(), "map") && !strings.HasSuffix(sb.String(), "]") {
					return sb.String()
				}
				if t.s == "(" && !strings.HasSuffix(sb.String(), "func") {
					return sb.String()
				}
				if t.s == "*" && !strings.HasSuffix(sb.String(), "]") {
					return sb.String()
				}
			default:
				return sb.String()
			}
		}
		if depth == 0 && t.k == "id" && !first {
			s := sb.String()
			if !strings.HasSuffix(s, "]") && !strings.HasSuffix(s, ".") && !strings.HasSuffix(s, "*") {
				return s
			}
		}
		l.next()
		if t.s == "[" || t.s == "(" || t.s == "{" {
			depth++
		}
		if t.s == "]" || t.s == ")" || t.s == "}" {
			depth--
			if depth < 0 {
				l.p--
				return sb.String()
			}
		}
		sb.WriteString(t.s)
		first = false
	}
	return sb.String()
}

func (l *lexer) binders() []Binder {
	var bs []Binder
	for {
		t := l.next()
		if t.k != "id" {
			panic(l.pos + ": binder name expected, found " + t.s)
		}
		b := Binder{name: t.s}
		b.typ = l.typeText()
		bs = append(bs, b)
		if !l.accept(",") {
			break
		}
	}
	return bs
}

func (l *lexer) unary() *Expr {
	t := l.peek()
	if t.k == "op" {
		switch t.s {
		case "!":
			l.next()
			return l.mk("unary", "!", l.unary())
		case "-":
			l.next()
			return l.mk("unary", "-", l.unary())
		}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		l.next()
		x := l.mk(t.s, "")
		x.binders = l.binders()
		for l.accept("{") {
			var tr []*Expr
			for {
				tr = append(tr, l.expr(1))
				if !l.accept(",") {
					break
				}
			}
			l.expect("}")
			x.trig = append(x.trig, tr)
		}
		l.expect("::")
		x.args = []*Expr{l.expr(1)}
		return x
	}
	return l.postfix(l.primary())
}

func (l *lexer) primary() *Expr {
	t := l.next()
	switch t.k {
	case "int":
		return l.mk("int", t.s)
	case "str":
		return l.mk("str", t.s)
	case "id":
		if t.s[0] == '$' {
			return l.mk("meta", t.s)
		}
		return l.mk("ident", t.s)
	}
	if t.s == "(" {
		x := l.expr(1)
		l.expect(")")
		return x
	}
	panic(fmt.Sprintf("%s: unexpected %q", l.pos, t.s))
}

func (l *lexer) postfix(x *Expr) *Expr {
	for {
		switch {
		case l.accept("."):
			x = l.mk("sel", l.next().s, x)
		case l.accept("("):
			c := l.mk("call", "", x)
			for !l.is(")") {
				c.args = append(c.args, l.expr(1))
				if !l.accept(",") {
					break
				}
			}
			l.expect(")")
			x = c
		case l.accept("["):
			if l.accept(":") {
				hi := l.expr(1)
				l.expect("]")
				x = l.mk("slice", "", x, nil, hi)
				continue
			}
			i := l.expr(1)
			if l.accept(":") {
				var hi *Expr
				if !l.is("]") {
					hi = l.expr(1)
				}
				l.expect("]")
				x = l.mk("slice", "", x, i, hi)
				continue
			}
			l.expect("]")
			x = l.mk("index", "", x, i)
		default:
			return x
		}
	}
}

func parseExpr(s, pos string, sc *Scope) *Expr {
	l := &lexer{toks: lex(s, pos), pos: pos, sc: sc}
	x := l.expr(1)
	if l.peek().k != "eof" {
		panic(fmt.Sprintf("%s: trailing %q in %q", pos, l.peek().s, s))
	}
	return x
}

// ---- files

var clauseKinds = map[string]bool{"func": true, "tags": true, "safety": true, "requires": true, "ensures": true, "given": true, "candidate": true, "modifies": true, "allocates": true,
	"emits": true, "on": true, "ghost": true, "let": true, "pure": true, "holds": true, "modular": true, "hide": true, "aborts": true, "ends": true, "noabort": true, "fields": true, "content": true, "owns": true, "invariant": true,
	"havocs": true, "private": true, "assume": true, "exits": true, "calls": true, "cover": true, "init": true, "optional": true, "bound": true}

func (db *SpecDB) load(dir string) error {
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		if err := db.loadFile(f); err != nil {
			return err
		}
	}
	return nil
}

type rawItem struct {
	head    string
	pos     string
	clauses []rawClause
}
type rawClause struct {
	text string
	pos  string
}

func (db *SpecDB) loadFile(f string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				err = fmt.Errorf("%s", s)
				return
			}
			panic(r)
		}
	}()
	data, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	var items []*rawItem
	for n, line := range strings.Split(string(data), "\n") {
		pos := fmt.Sprintf("%s:%d", filepath.Base(f), n+1)
		tr := strings.TrimSpace(line)
		if tr == "" || strings.HasPrefix(tr, "//") {
			continue
		}
		if line[0] != ' ' && line[0] != '\t' {
			items = append(items, &rawItem{head: tr, pos: pos})
			continue
		}
		if len(items) == 0 {
			panic(pos + ": clause outside an item")
		}
		it := items[len(items)-1]
		w := tr
		if i := strings.IndexAny(tr, " ([\t"); i >= 0 {
			w = tr[:i]
		}
		if clauseKinds[w] && !strings.HasPrefix(it.head, "spec") {
			it.clauses = append(it.clauses, rawClause{tr, pos})
		} else if len(it.clauses) > 0 {
			c := &it.clauses[len(it.clauses)-1]
			c.text += " " + tr
		} else {
			it.head += " " + tr
		}
	}
	sc := &Scope{imports: map[string]string{}}
	for _, it := range items {
		w, rest, _ := strings.Cut(it.head, " ")
		rest = strings.TrimSpace(rest)
		switch w {
		case "package":
			sc.pkg = rest
		case "import":
			l := lex(rest, it.pos)
			sc.imports[l[0].s] = l[1].s
		case "spec":
			db.addSpecFunc(rest, it.pos, sc)
		case "event":
			l := &lexer{toks: lex(rest, it.pos), pos: it.pos, sc: sc}
			ev := &EventDecl{name: l.next().s, sc: sc}
			l.expect("(")
			if !l.is(")") {
				ev.params = l.binders()
			}
			l.expect(")")
			if l.peek().s == "silent" {
				ev.silent = true
			}
			db.events[ev.name] = ev
		case "extern":
			l := &lexer{toks: lex(rest, it.pos), pos: it.pos, sc: sc}
			ex := &Extern{name: l.next().s, sc: sc, lets: map[string]*Expr{}}
			ex.params = l.nameList()
			if l.is("(") {
				ex.results = l.nameList()
			}
			for _, rc := range it.clauses {
				c := parseClause(rc, sc)
				if c.kind == "let" {
					ex.lets[c.name] = c.expr
					continue
				}
				ex.clauses = append(ex.clauses, c)
			}
			if db.externs[ex.name] != nil {
				panic(it.pos + ": duplicate extern " + ex.name)
			}
			db.externs[ex.name] = ex
		case "contract":
			db.addContract(rest, it, sc)
		case "guard":
			// guard T.lock
			i := strings.LastIndexByte(rest, '.')
			g := &guardSrc{typ: rest[:i], lock: rest[i+1:], sc: sc}
			for _, rc := range it.clauses {
				g.clauses = append(g.clauses, parseClause(rc, sc))
			}
			db.guardSrc = append(db.guardSrc, g)
		case "axiom":
			c := &Clause{kind: "axiom", pos: it.pos, text: rest}
			name, body, _ := strings.Cut(rest, ":")
			c.name = name
			c.expr = parseExpr(body, it.pos, sc)
			db.axioms = append(db.axioms, c)
		default:
			panic(it.pos + ": unknown item " + w)
		}
	}
	return nil
}

func (l *lexer) nameList() []string {
	var out []string
	l.expect("(")
	for !l.is(")") {
		out = append(out, l.next().s)
		if !l.accept(",") {
			break
		}
	}
	l.expect(")")
	return out
}

func (db *SpecDB) addSpecFunc(s, pos string, sc *Scope) {
	f := &SpecFunc{sc: sc}
	if strings.HasPrefix(s, "rec ") {
		f.rec = true
		s = strings.TrimSpace(s[4:])
	}
	s = strings.TrimSpace(strings.TrimPrefix(s, "func "))
	l := &lexer{toks: lex(s, pos), pos: pos, sc: sc}
	f.name = l.next().s
	l.expect("(")
	if !l.is(")") {
		f.params = l.binders()
	}
	l.expect(")")
	f.ret = l.typeText()
	if l.accept("=") {
		f.body = l.expr(1)
		if l.peek().k != "eof" {
			panic(fmt.Sprintf("%s: trailing %q", pos, l.peek().s))
		}
	}
	if db.funcs[f.name] != nil {
		panic(pos + ": duplicate spec function " + f.name)
	}
	db.funcs[f.name] = f
}

func (db *SpecDB) addContract(name string, it *rawItem, sc *Scope) {
	c := &Contract{name: name, lets: map[string]*Expr{}, sc: sc, hide: map[string]bool{}, file: it.pos}
	for _, rc := range it.clauses {
		w, rest, _ := strings.Cut(rc.text, " ")
		rest = strings.TrimSpace(rest)
		if (w == "modular" || w == "noabort" || w == "optional") && rest != "" {
			panic(rc.pos + ": unexpected text after " + w)
		}
		switch w {
		case "func":
			i := strings.IndexByte(rest, '(')
			if i > 0 && rest[i-1] == '.' { // method: pkg.(*T).M(
				j := strings.IndexByte(rest[i:], ')') + i
				i = strings.IndexByte(rest[j:], '(') + j
			}
			c.fn = strings.TrimSpace(rest[:i])
			l := &lexer{toks: lex(rest[i:], rc.pos), pos: rc.pos}
			c.params = l.nameList()
			for l.peek().k != "eof" {
				switch {
				case l.accept("then"):
					c.then = append(c.then, l.nameList())
					if l.accept("via") { // the function is a field of the result
						c.via = l.next().s
					}
				case l.accept("results"):
					c.results = l.nameList()
				default:
					panic(rc.pos + ": bad func clause")
				}
			}
		case "tags":
			c.tags = strings.Fields(rest)
		case "safety":
			c.safety = strings.Fields(rest)
		case "modular":
			c.modular = true
		case "noabort":
			c.noabort = true
		case "optional":
			c.optional = true
		case "hide":
			for _, h := range strings.Fields(rest) {
				c.hide[h] = true
			}
		default:
			cl := parseClause(rc, sc)
			if cl.kind == "let" {
				c.lets[cl.name] = cl.expr
				continue
			}
			if len(cl.tags) == 0 {
				cl.tags = c.tags
			}
			c.clauses = append(c.clauses, cl)
		}
	}
	for _, cl := range c.clauses {
		if len(cl.tags) == 0 {
			cl.tags = c.tags
		}
	}
	db.contracts = append(db.contracts, c)
}

func parseClause(rc rawClause, sc *Scope) *Clause {
	w := rc.text
	rest := ""
	if i := strings.IndexAny(rc.text, " [\t"); i >= 0 {
		w, rest = rc.text[:i], strings.TrimSpace(rc.text[i:])
	}
	c := &Clause{kind: w, pos: rc.pos, text: rest}
	if strings.HasPrefix(rest, "[") {
		i := strings.IndexByte(rest, ']')
		c.tags = strings.Fields(rest[1:i])
		rest = strings.TrimSpace(rest[i+1:])
		c.text = rest
	}
	l := func(s string) *lexer { return &lexer{toks: lex(s, rc.pos), pos: rc.pos, sc: sc} }
	switch w {
	case "requires", "ensures", "invariant", "assume", "cover", "init":
		// optional label "name:"
		if i := strings.Index(rest, ": "); i > 0 && !strings.ContainsAny(rest[:i], "()\"[]{},.") {
			c.name = strings.TrimSpace(rest[:i])
			rest = strings.TrimSpace(rest[i+1:])
		}
		c.expr = parseExpr(rest, rc.pos, sc)
		c.text = rest
	case "aborts", "ends":
		rest = strings.TrimSpace(strings.TrimPrefix(rest, "only if "))
		c.expr = parseExpr(rest, rc.pos, sc)
	case "given":
		c.metas = l(rest).binders()
	case "candidate":
		x := l(rest)
		if x.peek().s != "" && strings.HasPrefix(x.peek().s, "$") && strings.Contains(rest, "::") {
			save := x.p
			func() {
				defer func() {
					if r := recover(); r != nil {
						x.p = save
					}
				}()
				bs := x.binders()
				x.expect("::")
				c.metas = bs
			}()
		}
		c.expr = x.expr(1)
		if x.peek().k != "eof" {
			panic(fmt.Sprintf("%s: trailing %q", rc.pos, x.peek().s))
		}
	case "let":
		x := l(rest)
		c.name = x.next().s
		x.expect("=")
		c.expr = x.expr(1)
		if x.peek().k != "eof" {
			panic(fmt.Sprintf("%s: trailing %q", rc.pos, x.peek().s))
		}
	case "emits":
		x := l(rest)
		c.event = x.next().s
		x.expect("(")
		for !x.is(")") {
			c.args = append(c.args, x.expr(1))
			if !x.accept(",") {
				break
			}
		}
		x.expect(")")
		if x.accept("if") {
			c.expr = x.expr(1)
		}
	case "on":
		// on EVENT assert EXPR | on EVENT update g := EXPR
		x := l(rest)
		c.event = x.next().s
		c.name = x.next().s
		switch c.name {
		case "assert", "assume":
			c.expr = x.expr(1)
		case "update":
			c.metas = []Binder{{name: x.next().s}}
			if x.accept("[") {
				c.args = append(c.args, x.expr(1))
				x.expect("]")
			}
			x.expect(":=")
			c.expr = x.expr(1)
		}
		if x.peek().k != "eof" {
			panic(fmt.Sprintf("%s: trailing %q", rc.pos, x.peek().s))
		}
	case "ghost":
		x := l(rest)
		c.name = x.next().s
		c.metas = []Binder{{name: c.name, typ: x.typeText()}}
		if x.accept("=") {
			c.expr = x.expr(1)
		}
	case "modifies", "havocs", "calls", "allocates", "private":
		x := l(rest)
		for x.peek().k != "eof" {
			c.args = append(c.args, x.expr(1))
			if !x.accept(",") {
				break
			}
		}
	case "holds":
		x := l(rest)
		c.expr = x.expr(1)
		c.name = "R"
		if x.accept("write") {
			c.name = "W"
		}
	case "pure", "exits":
	case "fields", "content", "owns":
		c.text = rest
	default:
		panic(rc.pos + ": unknown clause " + w)
	}
	return c
}
