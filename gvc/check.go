package main

// The check command: decides one property by verifying every contract it rests on against /repo's current source.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type report struct {
	Contract   string         `json:"contract"`
	Obls       []*Obl         `json:"obligations"`
	Used       []string       `json:"used"`
	Inlined    []string       `json:"inlined"`
	Externs    []string       `json:"externs"`
	Unmodelled []string       `json:"unmodelled"`
	Secs       float64        `json:"solver_s"`
	BySolver   map[string]int `json:"by_solver"`
	Wall       float64        `json:"wall_s"`
	Err        string         `json:"error,omitempty"`
}

// verifyOne is the subprocess: one contract, JSON on stdout.
func verifyOne(name string, budget int) {
	t0 := time.Now()
	drop := map[string]bool{}
	for _, d := range strings.Split(os.Getenv("GVC_DROP"), ",") {
		drop[d] = true
	}
	e, err := loadRepo()
	if err != nil {
		die(err)
	}
	e.specs = newSpecDB()
	if err := e.specs.load(filepath.Join(verifDir(), "contracts")); err != nil {
		die(err)
	}
	for _, c := range e.specs.contracts {
		c.dropped = drop[c.name]
	}
	if err := e.prepare(); err != nil {
		die(err)
	}
	if budget > 0 {
		e.deadline = t0.Add(time.Duration(budget) * time.Second)
	}
	r := report{Contract: name}
	for _, c := range e.specs.contracts {
		if c.name == name {
			e.verify(c)
		}
	}
	r.Obls = e.obls
	for _, o := range r.Obls {
		o.Goal = clip(o.Goal, 4000)
		o.Model = clip(o.Model, 8000)
	}
	r.Used, r.Inlined, r.Externs, r.Unmodelled = sortedKeys(e.usedContracts), sortedKeys(e.inlined), sortedKeys(e.usedExterns), sortedKeys(e.unmodelled)
	r.Secs, r.BySolver, r.Wall = stats.Seconds, stats.BySolver, time.Since(t0).Seconds()
	if b, err := json.Marshal(r); err == nil {
		os.Stdout.Write(b)
	} else {
		die(err)
	}
}

func hasTag(ts []string, p string) bool {
	for _, t := range ts {
		if t == p {
			return true
		}
	}
	return false
}

type checker struct {
	prop   string
	tier   string
	budget int
	eng    *Engine
	byName map[string]*Contract
	drop   map[string]bool
	res    map[string]*report
	mu     sync.Mutex
}

func (k *checker) run(names []string) {
	sem := make(chan bool, max(2, runtime.NumCPU()))
	var wg sync.WaitGroup
	for _, n := range names {
		wg.Add(1)
		go func(n string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			r := k.sub(n)
			k.mu.Lock()
			k.res[n] = r
			k.mu.Unlock()
		}(n)
	}
	wg.Wait()
}

func (k *checker) sub(n string) *report {
	c := exec.Command(os.Args[0], "verify", n, strconv.Itoa(k.budget))
	c.Env = append(os.Environ(), "GVC_DROP="+strings.Join(sortedKeys(k.drop), ","))
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	err := c.Start()
	if err == nil {
		t := time.AfterFunc(time.Duration(k.budget+120)*time.Second, func() { c.Process.Kill() })
		err = c.Wait()
		t.Stop()
	}
	r := &report{}
	if err != nil || json.Unmarshal(out.Bytes(), r) != nil {
		r = &report{Contract: n, Err: clip(strings.TrimSpace(lastLines(errb.String(), 12)), 2000)}
		if r.Err == "" {
			r.Err = fmt.Sprint("verifier ended: ", err)
		}
		r.Obls = []*Obl{{Contract: n, Kind: "verifier", Name: "the verifier finishes", Verdict: "error", Goal: r.Err, Tags: []string{k.prop}}}
	}
	return r
}

func lastLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = append(l[:n/2], l[len(l)-n/2:]...)
	}
	return strings.Join(l, "\n")
}

// failures: the obligations of contract n that did not go through.
func (k *checker) failures(n string) []*Obl {
	var out []*Obl
	for _, o := range k.res[n].Obls {
		if o.Verdict != "proved" {
			out = append(out, o)
		}
	}
	return out
}

func (k *checker) relevant(c *Contract) bool {
	return !(c.optional && c.modular) && (k.prop == "C11" || hasTag(c.allTags(), k.prop))
}

// counts: does obligation o of contract c decide the property?
func (k *checker) counts(c *Contract, o *Obl, root bool) bool {
	if hasTag(o.Tags, k.prop) || len(o.Tags) == 0 {
		return true
	}
	switch o.Kind {
	case "target", "unsupported", "vacuity", "cover", "specification", "verifier", "precondition", "candidate":
		return true
	case "safety", "lock":
		return false
	}
	return !root // a supporting contract must hold as a whole
}

func cmdCheck(prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	e := setup()
	k := &checker{prop: prop, tier: tier, budget: 420, eng: e, byName: map[string]*Contract{}, drop: map[string]bool{}, res: map[string]*report{}}
	if tier == "thorough" {
		k.budget = 3000
	}
	var roots []string
	var start []string
	for _, c := range e.specs.contracts {
		k.byName[c.name] = c
		fn := e.findFunc(c.fn)
		if k.relevant(c) && (fn != nil || !c.optional) {
			roots = append(roots, c.name)
			start = append(start, c.name)
		}
	}
	if len(roots) == 0 {
		die(fmt.Errorf("no contract for property %s", prop))
	}
	isRoot := map[string]bool{}
	for _, r := range roots {
		isRoot[r] = true
	}
	// the summaries the roots lean on are verified too; those that are only conveniences are dropped when they no longer
	// describe the code, and their callers are then verified against the code itself
	for _, n := range k.closure(roots) {
		if !isRoot[n] {
			start = append(start, n)
		}
	}
	k.run(start)
	for {
		var again []string
		for _, n := range sortedKeys(k.res) {
			c := k.byName[n]
			if c.optional && c.modular && !k.drop[n] && len(k.failures(n)) > 0 {
				k.drop[n] = true
			}
		}
		for _, n := range sortedKeys(k.res) {
			if k.drop[n] {
				continue
			}
			stale := false
			for _, u := range k.res[n].Used {
				stale = stale || k.drop[u]
			}
			if stale {
				again = append(again, n)
			}
		}
		for _, n := range sortedKeys(k.res) {
			if k.drop[n] {
				continue
			}
			for _, u := range k.res[n].Used {
				if k.res[u] == nil && !k.drop[u] && !hasTag(again, u) {
					again = append(again, u)
				}
			}
		}
		if len(again) == 0 {
			break
		}
		k.run(again)
	}

	// collect
	used := map[string]bool{}
	var need func(n string)
	need = func(n string) {
		if used[n] || k.drop[n] || k.res[n] == nil {
			return
		}
		used[n] = true
		for _, u := range k.res[n].Used {
			need(u)
		}
	}
	for _, r := range roots {
		need(r)
	}
	var fails []*Obl
	total, discharged := 0, 0
	bySolver := map[string]int{}
	byKind := map[string]int{}
	byContract := map[string]int{}
	inlined, externs, unmodelled := map[string]bool{}, map[string]bool{}, map[string]bool{}
	solverSecs := 0.0
	for _, n := range sortedKeys(used) {
		r := k.res[n]
		c := k.byName[n]
		solverSecs += r.Secs
		for _, o := range r.Obls {
			if !k.counts(c, o, isRoot[n]) {
				continue
			}
			total++
			byKind[o.Kind]++
			byContract[n]++
			if o.Verdict == "proved" {
				discharged++
				bySolver[o.Solver]++
			} else {
				fails = append(fails, o)
			}
		}
		for _, x := range r.Inlined {
			inlined[x] = true
		}
		for _, x := range r.Externs {
			externs[x] = true
		}
		for _, x := range r.Unmodelled {
			unmodelled[x] = true
		}
		if fn := e.findFunc(c.fn); fn != nil {
			inlined[shortName(fn.String())] = true
		}
	}
	if prop == "C11" {
		cov := k.coverage(inlined)
		for _, o := range cov {
			total++
			byKind[o.Kind]++
			if o.Verdict == "proved" {
				discharged++
				bySolver["call graph"]++
			} else {
				fails = append(fails, o)
			}
		}
	}
	known := loadKnown()
	var open []*Obl
	printed := map[string]bool{}
	for _, o := range fails {
		if d := known.match(prop, o); d != "" {
			if !printed[d] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, d)
				printed[d] = true
			}
			continue
		}
		open = append(open, o)
	}
	violations := 0
	if len(open) > 0 {
		violations = 1
		replay, found := k.replay(open, seed)
		seen := map[string]bool{}
		for _, o := range open {
			s := fmt.Sprintf("  failed: %s [%s] %s at %s (%s)", o.Contract, o.Kind, o.Name, o.Pos, o.Verdict)
			if !seen[s] && len(seen) < 12 {
				fmt.Println(s)
			}
			seen[s] = true
		}
		suffix := ""
		if !found {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replay, suffix)
	}
	var crossCheck map[string]interface{}
	if tier == "thorough" && len(open) == 0 {
		ok, cases, out := k.harness(seed, 600, nil)
		crossCheck = map[string]interface{}{"label": "bounded", "what": "the same oracle executed on generated inputs against the real code; validates the trusted contracts, never counted as proved", "cases": cases, "agrees": ok}
		if !ok {
			violations = 1
			p := k.writeReplay(nil, out)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		}
	}
	var trusted []string
	for _, x := range sortedKeys(externs) {
		trusted = append(trusted, "trusted contract or model: "+x)
	}
	for _, x := range sortedKeys(unmodelled) {
		trusted = append(trusted, "result and argument contents arbitrary, no other effect assumed: "+x)
	}
	trusted = append(trusted, "gvc (this verifier: go/ssa translation, symbolic execution, ground instantiation)", "z3 4.x, cvc5 1.1.2")
	cov := map[string]interface{}{
		"obligations": total, "discharged": discharged, "checker_cmd": "gvc check " + prop, "trusted_base": trusted,
		"functions_under_contract": sortedKeys(used), "functions_executed_symbolically": sortedKeys(inlined), "obligations_by_contract": byContract,
		"obligations_by_kind": byKind, "discharged_by": bySolver, "solver_s": round1(solverSecs), "summaries_dropped": sortedKeys(k.drop),
	}
	if crossCheck != nil {
		cov["bounded_cross_check"] = crossCheck
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": loadAssumptions(prop),
		"wall_s": round1(time.Since(t0).Seconds()), "violations": violations}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		die(err)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d contracts, %.1fs\n", prop, total, discharged, len(used), time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}

func round1(f float64) float64 { return float64(int(f*10+0.5)) / 10 }

// closure: modular contracts of functions reachable from the roots in the call graph (an over-approximation).
func (k *checker) closure(roots []string) []string {
	seen := map[*ssa.Function]bool{}
	out := map[string]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || !(isRepoPkg(fnPkg(fn)) || fn.Synthetic != "") {
			return
		}
		seen[fn] = true
		if c := k.eng.specs.modular[fn.String()]; c != nil {
			out[c.name] = true
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						visit(f)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					// methods of the repository's types behind interfaces
					for _, p := range k.eng.repo {
						for _, m := range p.Members {
							t, ok := m.(*ssa.Type)
							if !ok {
								continue
							}
							for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
								if it, ok := under(ci.Common().Value.Type()).(*types.Interface); ok && types.Implements(T, it) {
									visit(k.eng.prog.LookupMethod(T, ci.Common().Method.Pkg(), ci.Common().Method.Name()))
								}
							}
						}
					}
				}
			}
		}
	}
	for _, r := range roots {
		visit(k.eng.findFunc(k.byName[r].fn))
	}
	return sortedKeys(out)
}

// coverage: every function touching a guarded field was executed by some contract's verification.
func (k *checker) coverage(covered map[string]bool) []*Obl {
	var out []*Obl
	for _, fn := range k.eng.allRepoFunctions() {
		touch := ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				// a whole object read or written at once
				whole := func(T types.Type, x ssa.Value) {
					if _, own := x.(*ssa.Alloc); own || !isStruct(T) {
						return
					}
					for _, g := range k.eng.specs.guards {
						if types.Identical(T, g.structT) {
							touch = shortName(tname(T))
						}
					}
				}
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					whole(u.Type(), u.X)
				}
				if u, ok := in.(*ssa.Store); ok {
					whole(u.Val.Type(), u.Addr)
				}
				if fa, ok := in.(*ssa.FieldAddr); ok {
					T := under(fa.X.Type()).(*types.Pointer).Elem()
					for _, g := range k.eng.specs.guards {
						if g.fields[fieldComp(T, fa.Field)] || g.content[fieldComp(T, fa.Field)] {
							// accesses to an object the function has just allocated itself need no lock
							if _, own := fa.X.(*ssa.Alloc); !own {
								touch = shortName(fieldComp(T, fa.Field))
							}
						}
					}
				}
			}
		}
		if touch == "" {
			continue
		}
		o := &Obl{Contract: "lock discipline", Kind: "coverage", Name: "accesses of " + touch + " in " + shortName(fn.String()) + " are verified", Verdict: "proved", Solver: "call graph", Tags: []string{"C11"}, Pos: k.eng.posStr(fn.Pos())}
		if !covered[shortName(fn.String())] {
			o.Verdict = "failed"
			o.Goal = "no function under contract reaches it"
		}
		out = append(out, o)
	}
	return out
}

// ---- known findings

type knownFinding struct{ prop, contract, name, desc string }
type knownList []knownFinding

func loadKnown() knownList {
	b, _ := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	var out knownList
	re := regexp.MustCompile(`^known: property=(\S+) contract=(\S+) obligation="([^"]*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, knownFinding{m[1], m[2], m[3], m[4]})
		}
	}
	return out
}

func (l knownList) match(prop string, o *Obl) string {
	for _, f := range l {
		if f.prop == prop && f.contract == o.Contract && f.name == o.Name {
			return f.desc
		}
	}
	return ""
}

func loadAssumptions(prop string) []string {
	b, _ := os.ReadFile(filepath.Join(verifDir(), "contracts", "assumptions.txt"))
	out := []string{}
	for _, l := range strings.Split(string(b), "\n") {
		ps, t, ok := strings.Cut(l, ": ")
		if !ok || strings.HasPrefix(l, "#") {
			continue
		}
		if ps == "*" || hasTag(strings.Fields(ps), prop) {
			out = append(out, t)
		}
	}
	return out
}

// ---- replay against the real code

var strLit = regexp.MustCompile(`"((?:[^"]|"")*)"`)

// replay searches for a concrete failing input with the property's executable oracle.
func (k *checker) replay(open []*Obl, seed int) (string, bool) {
	hints := map[string]bool{}
	for _, o := range open {
		for _, m := range strLit.FindAllStringSubmatch(o.Model, -1) {
			if len(m[1]) < 60 && len(hints) < 200 {
				hints[unescape(m[1])] = true
			}
		}
	}
	ok, _, out := k.harness(seed, 150, sortedKeys(hints))
	return k.writeReplay(open, out), !ok
}

var smtEsc = regexp.MustCompile(`\\u\{([0-9a-fA-F]+)\}`)

func unescape(s string) string {
	s = strings.ReplaceAll(s, `""`, `"`)
	return smtEsc.ReplaceAllStringFunc(s, func(x string) string {
		n, _ := strconv.ParseUint(smtEsc.FindStringSubmatch(x)[1], 16, 32)
		return string([]byte{byte(n)})
	})
}

// harness runs the executable oracles of the property; ok=false when one of them found a failing input.
func (k *checker) harness(seed, limit int, hints []string) (ok bool, cases int, out string) {
	ok = true
	dirs, _ := filepath.Glob(filepath.Join(verifDir(), "replay", "*", "*_test.go"))
	pkgs := map[string]bool{}
	repl := map[string]string{}
	for _, f := range dirs {
		b, _ := os.ReadFile(f)
		pkg := filepath.Base(filepath.Dir(f))
		repl[filepath.Join(repoDir(), pkg, filepath.Base(f))] = f
		if bytes.Contains(b, []byte("func TestReplay"+k.prop+"(")) {
			pkgs[pkg] = true
		}
	}
	if len(pkgs) == 0 {
		return true, 0, "no executable oracle for this property"
	}
	tmp, err := os.MkdirTemp("", "gvcreplay")
	if err != nil {
		return true, 0, err.Error()
	}
	defer os.RemoveAll(tmp)
	ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(filepath.Join(tmp, "overlay.json"), ov, 0o644)
	hb, _ := json.Marshal(hints)
	os.WriteFile(filepath.Join(tmp, "hints.json"), hb, 0o644)
	for _, p := range sortedKeys(pkgs) {
		args := []string{"test", "-overlay", filepath.Join(tmp, "overlay.json"), "-vet=off", "-count=1", "-timeout", fmt.Sprint(limit, "s"), "-run", "^TestReplay" + k.prop + "$", "-v"}
		if k.prop == "C11" {
			args = append(args, "-race")
		}
		c := exec.Command("go", append(args, "./"+p)...)
		c.Dir = repoDir()
		c.Env = append(os.Environ(), "VERIF_SCRATCH="+tmp, "VERIF_HINTS="+filepath.Join(tmp, "hints.json"), fmt.Sprint("VERIF_SEED=", seed))
		b, err := c.CombinedOutput()
		s := string(b)
		if m := regexp.MustCompile(`REPLAY-CASES (\d+)`).FindAllStringSubmatch(s, -1); m != nil {
			for _, x := range m {
				n, _ := strconv.Atoi(x[1])
				cases += n
			}
		}
		if err != nil && (strings.Contains(s, "REPLAY-FAIL") || strings.Contains(s, "WARNING: DATA RACE") || strings.Contains(s, "panic:") && !strings.Contains(s, "panic: test timed out")) {
			ok = false
		}
		out += "$ go " + strings.Join(args, " ") + " ./" + p + "\n" + clip(s, 20000) + "\n"
	}
	return ok, cases, out
}

func (k *checker) writeReplay(open []*Obl, harness string) string {
	dir := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, k.prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\nreproduce: cd /verif && ./run.sh %s\n\n", k.prop, k.prop)
	seen := map[string]int{}
	for _, o := range open {
		id := o.Contract + o.Kind + o.Name + o.Pos
		seen[id]++
		if seen[id] > 1 {
			continue
		}
		fmt.Fprintf(&sb, "FAILED OBLIGATION %s [%s] %s\n  at: %s\n  verdict: %s (%s)\n  path: %s\n  goal: %s\n  verifier's counterexample:\n%s\n\n", o.Contract, o.Kind, o.Name, o.Pos, o.Verdict, o.Solver,
			strings.Join(o.Path, " "), o.Goal, indent(clip(o.Model, 4000)))
	}
	for id, n := range seen {
		if n > 1 {
			_ = id
		}
	}
	sb.WriteString("REPLAY AGAINST THE REAL CODE\n" + harness)
	os.WriteFile(p, []byte(sb.String()), 0o644)
	return p
}

func indent(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }

func cmdProps() {
	e := setup()
	m := map[string][]string{}
	for _, c := range e.specs.contracts {
		for _, t := range c.allTags() {
			m[t] = append(m[t], c.name)
		}
	}
	ks := sortedKeys(m)
	sort.Strings(ks)
	for _, p := range ks {
		fmt.Println(p, strings.Join(m[p], " "))
	}
}
