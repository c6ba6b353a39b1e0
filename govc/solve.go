package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// axioms indexed by the function symbol which pulls them in.
type axiom struct {
	name string
	deps []string // included as soon as one of these symbols occurs
	all  bool     // only when all of deps occur
	t    *Term
}

var stdAxioms []*axiom

func addAxiom(name string, t *Term, deps ...string) {
	stdAxioms = append(stdAxioms, &axiom{name: name, deps: deps, t: t})
}

func initAxioms() {
	s, a, b := Bound("s", SStr), Bound("a", SStr), Bound("b", SStr)
	i, j, k := Bound("i", SInt), Bound("j", SInt), Bound("k", SInt)
	q := func(body *Term, bvs []*Term, pats ...*Term) *Term {
		var ps [][]*Term
		for _, p := range pats {
			ps = append(ps, []*Term{p})
		}
		return Quant("forall", bvs, body, ps)
	}
	sl := mk("strlen", SInt, s)
	at := mk("strat", SInt, s, i)
	addAxiom("strlen>=0", q(Le(Zero, sl), []*Term{s}, sl), "strlen")
	addAxiom("strempty", q(Implies(Eq(sl, Zero), Eq(s, StrLit(""))), []*Term{s}, sl), "strlen")
	addAxiom("strat-range", q(And(Le(Zero, at), Lt(at, Num(256))), []*Term{s, i}, at), "strat")
	cat := mk("strcat", SStr, a, b)
	addAxiom("strcat-len", q(Eq(mk("strlen", SInt, cat), Add(mk("strlen", SInt, a), mk("strlen", SInt, b))), []*Term{a, b}, cat), "strcat")
	catat := mk("strat", SInt, cat, i)
	addAxiom("strcat-at", q(And(
		Implies(And(Le(Zero, i), Lt(i, mk("strlen", SInt, a))), Eq(catat, mk("strat", SInt, a, i))),
		Implies(And(Le(mk("strlen", SInt, a), i), Lt(i, Add(mk("strlen", SInt, a), mk("strlen", SInt, b)))), Eq(catat, mk("strat", SInt, b, Sub(i, mk("strlen", SInt, a)))))),
		[]*Term{a, b, i}, catat), "strcat")
	addAxiom("strcat-nil", q(And(Eq(mk("strcat", SStr, a, StrLit("")), a), Eq(mk("strcat", SStr, StrLit(""), a), a)), []*Term{a}, mk("strcat", SStr, a, StrLit("")), mk("strcat", SStr, StrLit(""), a)), "strcat")
	sub := mk("strsub", SStr, s, i, j)
	wf := And(Le(Zero, i), Le(i, j), Le(j, sl))
	addAxiom("strsub-len", q(Implies(wf, Eq(mk("strlen", SInt, sub), Sub(j, i))), []*Term{s, i, j}, sub), "strsub")
	subat := mk("strat", SInt, sub, k)
	addAxiom("strsub-at", q(Implies(And(wf, Le(Zero, k), Lt(k, Sub(j, i))), Eq(subat, mk("strat", SInt, s, Add(i, k)))), []*Term{s, i, j, k}, subat), "strsub")
	catsub := mk("strsub", SStr, cat, i, j)
	addAxiom("strcat-sub", q(And(
		Implies(And(Eq(i, Zero), Eq(j, mk("strlen", SInt, a))), Eq(catsub, a)),
		Implies(And(Eq(i, mk("strlen", SInt, a)), Eq(j, Add(mk("strlen", SInt, a), mk("strlen", SInt, b)))), Eq(catsub, b))),
		[]*Term{a, b, i, j}, catsub), "strsub")
	full := mk("strsub", SStr, s, Zero, sl)
	addAxiom("strsub-full", q(Eq(full, s), []*Term{s}, full), "strsub")
	row := Bound("row", SArr(SInt, SInt))
	bs := mk("bstr", SStr, row, i, j)
	addAxiom("bstr-len", q(Implies(Le(Zero, j), Eq(mk("strlen", SInt, bs), j)), []*Term{row, i, j}, bs), "bstr")
	bsat := mk("strat", SInt, bs, k)
	addAxiom("bstr-at", q(Implies(And(Le(Zero, k), Lt(k, j), Le(Zero, Select(row, Add(i, k))), Lt(Select(row, Add(i, k)), Num(256))), Eq(bsat, Select(row, Add(i, k)))), []*Term{row, i, j, k}, bsat), "bstr")
	n := Bound("n", SInt)
	dec := mk("dec", SStr, n)
	addAxiom("dec-len", q(Le(One, mk("strlen", SInt, dec)), []*Term{n}, dec), "dec")
	decat := mk("strat", SInt, dec, i)
	addAxiom("dec-digits", q(Implies(And(Le(Zero, n), Le(Zero, i), Lt(i, mk("strlen", SInt, dec))), And(Le(Num(48), decat), Le(decat, Num(57)))), []*Term{n, i}, decat), "dec")
	// order
	lt := func(x, y *Term) *Term { return mk("strlt", SBool, x, y) }
	c := Bound("c", SStr)
	addAxiom("strlt-irr", q(Not(lt(a, a)), []*Term{a}, lt(a, a)), "strlt")
	addAxiom("strlt-total", q(Or(lt(a, b), lt(b, a), Eq(a, b)), []*Term{a, b}, lt(a, b)), "strlt")
	addAxiom("strlt-asym", q(Not(And(lt(a, b), lt(b, a))), []*Term{a, b}, lt(a, b)), "strlt")
	addAxiom("strlt-trans", Quant("forall", []*Term{a, b, c}, Implies(And(lt(a, b), lt(b, c)), lt(a, c)), [][]*Term{{lt(a, b), lt(b, c)}}), "strlt")
}

var builtinOps = map[string]bool{"and": true, "or": true, "not": true, "=>": true, "=": true, "ite": true, "+": true, "*": true, "-": true, "<": true, "<=": true,
	"div": true, "mod": true, "select": true, "store": true, "true": true, "false": true, "mkref": true, "refid": true, "refpath": true, "pnil": true, "pfield": true, "pelt": true,
	"mkslc": true, "sarr": true, "soff": true, "slen": true, "scap": true, "distinct": true}

const prelude = `(set-option :produce-models true)
(set-logic ALL)
(declare-sort Str 0)
(declare-sort Iface 0)
(declare-sort Fn 0)
(declare-sort Flt 0)
(declare-sort Unit 0)
(declare-datatypes ((Path 0)) (((pnil) (pfield (pf0 Path) (pf1 Int)) (pelt (pe0 Path) (pe1 Int)))))
(declare-datatypes ((Ref 0)) (((mkref (refid Int) (refpath Path)))))
(declare-datatypes ((Slc 0)) (((mkslc (sarr Ref) (soff Int) (slen Int) (scap Int)))))
`

// expandAlts replaces a quantifier in a positive position by the conjunction
// of its equivalent versions.
func expandAlts(t *Term, pos bool) *Term {
	switch {
	case t.kind == kQuant:
		if pos && t.op == "forall" && len(t.alts) > 0 {
			all := []*Term{t}
			all = append(all, t.alts...)
			var out []*Term
			for _, a := range all {
				out = append(out, expandInner(a, pos))
			}
			return And(out...)
		}
		return expandInner(t, pos)
	case t.kind == kApp && (t.op == "and" || t.op == "or"):
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = expandAlts(a, pos)
		}
		if t.op == "and" {
			return And(args...)
		}
		return Or(args...)
	case t.kind == kApp && t.op == "=>":
		return Implies(expandAlts(t.args[0], !pos), expandAlts(t.args[1], pos))
	case t.kind == kApp && t.op == "not":
		return Not(expandAlts(t.args[0], !pos))
	case t.kind == kApp && t.op == "ite" && t.sort == SBool:
		return Ite(t.args[0], expandAlts(t.args[1], pos), expandAlts(t.args[2], pos))
	}
	return t
}

func expandInner(t *Term, pos bool) *Term {
	if t.kind != kQuant {
		return t
	}
	b := expandAlts(t.args[0], pos)
	if b == t.args[0] {
		return t
	}
	return Quant(t.op, t.bvs, b, t.pats)
}

// markAbstract: the largest closed parts of a pattern which contain updates or
// conditionals.
func markAbstract(t *Term, out map[*Term]bool) {
	if !t.free {
		if t.kind == kApp && len(t.args) > 0 && hasUpdate(t, map[*Term]bool{}) {
			out[t] = true
		}
		return
	}
	for _, a := range t.args {
		markAbstract(a, out)
	}
}

func hasUpdate(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.op == "store" || t.op == "ite" {
		return true
	}
	for _, a := range t.args {
		if hasUpdate(a, seen) {
			return true
		}
	}
	return false
}

// Script renders "facts and not goal" as an SMT-LIB script.
func Script(facts []*Term, goal *Term, extra []*axiom) string {
	var as []*Term
	seenA := map[*Term]bool{}
	for _, f := range facts {
		f = expandAlts(f, true)
		if f == True || seenA[f] {
			continue
		}
		seenA[f] = true
		as = append(as, f)
	}
	ng := expandAlts(Not(goal), true)
	as = append(as, ng)
	// string equality in the goal: provide extensionality witnesses
	for _, e := range strEqs(goal) {
		x, y := e.args[0], e.args[1]
		d := mk("strdiff", SInt, x, y)
		as = append(as, Or(mk("=", SBool, x, y), Neq(mk("strlen", SInt, x), mk("strlen", SInt, y)),
			And(Le(Zero, d), Lt(d, mk("strlen", SInt, x)), Neq(mk("strat", SInt, x, d), mk("strat", SInt, y, d)))))
	}
	syms := map[string]*Term{}
	var order []string
	consts := map[*Term]bool{}
	var constOrder []*Term
	uses := map[*Term]int{}
	visited := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		uses[t]++
		if visited[t] {
			return
		}
		visited[t] = true
		switch t.kind {
		case kConst:
			if !consts[t] {
				consts[t] = true
				constOrder = append(constOrder, t)
			}
		case kApp:
			if !builtinOps[t.op] && !strings.HasPrefix(t.op, "(") {
				k := t.op
				if _, ok := syms[k]; !ok {
					syms[k] = t
					order = append(order, k)
				}
			}
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				visit(x)
			}
		}
	}
	for _, a := range as {
		visit(a)
	}
	axs := append(append([]*axiom{}, stdAxioms...), extra...)
	inc := map[*axiom]bool{}
	var axTerms []*Term
	for {
		ch := false
		for _, ax := range axs {
			if inc[ax] {
				continue
			}
			hit := len(ax.deps) == 0
			if ax.all {
				hit = true
				for _, d := range ax.deps {
					if _, ok := syms[d]; !ok {
						hit = false
					}
				}
			} else {
				for _, d := range ax.deps {
					if _, ok := syms[d]; ok {
						hit = true
					}
				}
			}
			if hit {
				inc[ax] = true
				ch = true
				e := expandAlts(ax.t, true)
				axTerms = append(axTerms, e)
				visit(e)
			}
		}
		if !ch {
			break
		}
	}
	// literals
	var lits []*Term
	var litFacts []*Term
	for i := 0; i < len(constOrder); i++ {
		c := constOrder[i]
		if l, ok := strLits[c]; ok {
			lits = append(lits, c)
			f := []*Term{mk("=", SBool, mk("strlen", SInt, c), Num(int64(len(l))))}
			_, needAt := syms["strat"]
			if needAt && len(l) <= 64 {
				for k := 0; k < len(l); k++ {
					f = append(f, mk("=", SBool, mk("strat", SInt, c, Num(int64(k))), Num(int64(l[k]))))
				}
			}
			for _, x := range f {
				visit(x)
				litFacts = append(litFacts, x)
			}
		}
	}
	if len(lits) > 0 {
		// "" is distinguished by strlen axioms
		if _, ok := syms["strlen"]; ok {
			e := StrLit("")
			if !consts[e] {
				consts[e] = true
				constOrder = append(constOrder, e)
				lits = append(lits, e)
				litFacts = append(litFacts, mk("=", SBool, mk("strlen", SInt, e), Zero))
			}
		}
		for _, ax := range stdAxioms {
			if !inc[ax] {
				for _, d := range ax.deps {
					if _, ok := syms[d]; ok && !inc[ax] {
						inc[ax] = true
						axTerms = append(axTerms, ax.t)
						visit(ax.t)
					}
				}
			}
		}
	}
	if _, ok := syms["strlt"]; ok {
		for i := range lits {
			for j := i + 1; j < len(lits); j++ {
				a, b := lits[i], lits[j]
				if strLits[a] < strLits[b] {
					litFacts = append(litFacts, mk("strlt", SBool, a, b))
				} else {
					litFacts = append(litFacts, mk("strlt", SBool, b, a))
				}
			}
		}
	}
	var sb strings.Builder
	sb.WriteString(prelude)
	for _, c := range constOrder {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", symbol(c.op), c.sort)
	}
	for _, k := range order {
		t := syms[k]
		sb.WriteString("(declare-fun " + symbol(k) + " (")
		for i, a := range t.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(string(a.sort))
		}
		fmt.Fprintf(&sb, ") %s)\n", t.sort)
	}
	if len(lits) > 1 {
		sb.WriteString("(assert (distinct")
		for _, l := range lits {
			sb.WriteString(" " + symbol(l.op))
		}
		sb.WriteString("))\n")
	}
	abstracted := map[*Term]bool{}
	for t := range visited {
		for _, p := range t.pats {
			for _, x := range p {
				markAbstract(x, abstracted)
			}
		}
	}
	names := map[*Term]string{}
	n := 0
	emitted := map[*Term]bool{}
	var define func(t *Term)
	define = func(t *Term) {
		if emitted[t] {
			return
		}
		emitted[t] = true
		for _, a := range t.args {
			define(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				define(x)
			}
		}
		if t.kind != kApp && t.kind != kQuant || len(t.args) == 0 || t.free {
			return
		}
		if abstracted[t] {
			// a constant, so that matching works up to equality
			n++
			nm := fmt.Sprintf("$%d", n)
			fmt.Fprintf(&sb, "(declare-const %s %s)\n(assert (= %s ", nm, t.sort, nm)
			c := 0
			printTerm(&sb, t, names, &c, 0)
			sb.WriteString("))\n")
			names[t] = nm
			return
		}
		if uses[t] > 1 {
			n++
			nm := fmt.Sprintf("$%d", n)
			fmt.Fprintf(&sb, "(define-fun %s () %s ", nm, t.sort)
			c := 0
			printTerm(&sb, t, names, &c, 0)
			sb.WriteString(")\n")
			names[t] = nm
		}
	}
	assert := func(t *Term) {
		define(t)
		sb.WriteString("(assert ")
		c := 0
		printTerm(&sb, t, names, &c, 0)
		sb.WriteString(")\n")
	}
	for _, t := range axTerms {
		assert(t)
	}
	for _, t := range litFacts {
		assert(t)
	}
	for _, t := range as {
		assert(t)
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

func strEqs(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.kind == kApp && t.op == "=" && t.args[0].sort == SStr && !t.free {
			out = append(out, t)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return out
}

// Result of one obligation.
type Result struct {
	Status string // unsat (discharged), sat, unknown, timeout, error
	Solver string
	Time   float64
	Out    string
}

type solverCfg struct {
	name string
	args func(file string, sec int) []string
}

var solvers = []solverCfg{
	{"z3-new", func(f string, s int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", s), f} }},
	{"cvc5", func(f string, s int) []string {
		return []string{"cvc5", "--incremental", fmt.Sprintf("--tlimit=%d", s*1000), f}
	}},
	{"z3", func(f string, s int) []string { return []string{"z3", fmt.Sprintf("-T:%d", s), "smt.mbqi=false", f} }},
	{"z3-new/noauto", func(f string, s int) []string {
		return []string{"z3-new", fmt.Sprintf("-T:%d", s), "smt.mbqi=false", "smt.auto_config=false", f}
	}},
}

// for the second round
var moreSolvers = []solverCfg{
	{"z3/mbqi", func(f string, s int) []string { return []string{"z3", fmt.Sprintf("-T:%d", s), f} }},
	{"z3-new/arith2", func(f string, s int) []string {
		return []string{"z3-new", fmt.Sprintf("-T:%d", s), "smt.mbqi=false", "smt.arith.solver=2", f}
	}},
}

// slots bounds the solvers running at a time, so that a time limit does not
// depend on how many obligations are under way.
var slots = make(chan bool, max(2, runtime.NumCPU()))

func runSolver(ctx context.Context, c solverCfg, file string, sec int) Result {
	select {
	case slots <- true:
		defer func() { <-slots }()
	case <-ctx.Done():
		return Result{Status: "timeout", Solver: c.name}
	}
	t0 := time.Now()
	av := c.args(file, sec)
	cctx, cancel := context.WithTimeout(ctx, time.Duration(sec+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cctx, av[0], av[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	r := Result{Solver: c.name, Time: time.Since(t0).Seconds(), Out: out.String()}
	first := strings.TrimSpace(out.String())
	for strings.HasPrefix(first, "WARNING") {
		i := strings.IndexByte(first, '\n')
		if i < 0 {
			break
		}
		first = strings.TrimSpace(first[i:])
	}
	line := first
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		line = first[:i]
	}
	switch {
	case line == "unsat":
		r.Status = "unsat"
	case line == "sat":
		r.Status = "sat"
	case strings.HasPrefix(line, "unknown"):
		r.Status = "unknown"
	case strings.HasPrefix(line, "timeout") || cctx.Err() != nil || strings.Contains(first, "interrupted by timeout"):
		r.Status = "timeout"
	default:
		r.Status = "error"
	}
	return r
}

// Solve runs the portfolio on one script.
func Solve(script, dir, name string, sec int, more ...solverCfg) Result {
	file := filepath.Join(dir, name+".smt2")
	os.WriteFile(file, []byte(script), 0o644)
	quick := 3
	if sec < quick {
		quick = sec
	}
	r := runSolver(context.Background(), solvers[0], file, quick)
	if r.Status == "unsat" {
		os.Remove(file)
		return r
	}
	tot := r.Time
	firstOut := r
	// the configuration that decides most of what the first leaves open
	if sec > 2*quick {
		x := runSolver(context.Background(), solvers[len(solvers)-1], file, 2*quick)
		tot += x.Time
		if x.Status == "unsat" {
			x.Time = tot
			os.Remove(file)
			return x
		}
	}
	// portfolio
	ctx, cancel := context.WithCancel(context.Background())
	all := append(append([]solverCfg{}, solvers...), more...)
	ch := make(chan Result, len(all))
	k := 0
	for _, s := range all {
		if s.name == "z3-new" && (r.Status == "sat" || r.Status == "unknown") {
			continue
		}
		k++
		go func(s solverCfg) { ch <- runSolver(ctx, s, file, sec) }(s)
	}
	best := firstOut
	for i := 0; i < k; i++ {
		x := <-ch
		if x.Status == "unsat" {
			cancel()
			x.Time += tot
			os.Remove(file)
			return x
		}
		if x.Status == "sat" && best.Status != "sat" {
			best = x
		}
	}
	cancel()
	// counterexample text
	if best.Status == "sat" || best.Status == "unknown" {
		for _, s := range solvers {
			if s.name == best.Solver && strings.HasPrefix(s.name, "z3") {
				mf := file + ".m.smt2"
				os.WriteFile(mf, []byte(script+"(get-model)\n"), 0o644)
				x := runSolver(context.Background(), s, mf, quick)
				best.Out = x.Out
				os.Remove(mf)
			}
		}
	}
	best.Time += tot
	return best
}

type job struct {
	ob     *Obligation
	script string
	res    Result
}

// SolveAll runs many obligations in parallel, sharing identical scripts.
func SolveAll(jobs []*job, dir string, sec, par int) {
	by := map[string][]*job{}
	var keys []string
	for _, j := range jobs {
		if _, ok := by[j.script]; !ok {
			keys = append(keys, j.script)
		}
		by[j.script] = append(by[j.script], j)
	}
	sort.SliceStable(keys, func(a, b int) bool { return len(keys[a]) > len(keys[b]) })
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	for i, k := range keys {
		wg.Add(1)
		sem <- true
		go func(i int, k string) {
			defer func() { <-sem; wg.Done() }()
			r := Solve(k, dir, fmt.Sprintf("q%05d", i), sec)
			for _, j := range by[k] {
				j.res = r
			}
		}(i, k)
	}
	wg.Wait()
}
