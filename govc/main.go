package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type nameRec struct{ name string }

// ---------- loading ----------

func loadRepo(dir string) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, x := range p.Errors {
			return nil, fmt.Errorf("loading %s: %v", p.PkgPath, x)
		}
	}
	prog, pkgs := ssautil.Packages(ps, ssa.NaiveForm|ssa.GlobalDebug|ssa.BuildSerially)
	prog.Build()
	e := &Engine{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, keys: map[*ssa.Function]string{},
		fids: map[string]int{}, reified: map[string]bool{}, constGlobals: map[*ssa.Global]bool{}, globalInit: map[*ssa.Global]*ssa.Const{}, globalNew: map[*ssa.Global]bool{}, escapes: map[*ssa.Alloc]bool{},
		loopsOf: map[*ssa.Function]*loopInfo{}, names: map[string][]nameRec{}, typeIDs: map[string]int{}, guards: map[string]*Monitor{},
		usedTrusted: map[string]string{}, usedAxioms: map[string]bool{}, usedAssumes: map[string]bool{}, inlined: map[string]bool{}, axiomTerms: map[string]*axiom{},
		orphan: map[string]string{}, renames: map[string]map[string]string{}, maxPaths: 4000, nums: map[*ssa.Function]*loopNums{},
		usedLoops: map[string]bool{}, quickCache: map[string]bool{}, quickSem: make(chan bool, runtime.NumCPU()), typePkgs: map[string]*types.Package{}, usedContracts: map[string]bool{}, ifaceTypes: map[string]types.Type{}}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		e.pkgs[shortPkg(p.Pkg.Path())] = p
	}
	var addPkgs func(p *types.Package)
	seen := map[*types.Package]bool{}
	addPkgs = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		e.typePkgs[shortPkg(p.Path())] = p
		if _, ok := e.typePkgs[p.Name()]; !ok {
			e.typePkgs[p.Name()] = p
		}
		for _, q := range p.Imports() {
			addPkgs(q)
		}
	}
	for _, p := range pkgs {
		if p != nil {
			addPkgs(p.Pkg)
		}
	}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		// direct imports win over transitive ones for short names
		for _, q := range p.Pkg.Imports() {
			if _, ok := e.pkgs[q.Name()]; !ok {
				e.typePkgs[q.Name()] = q
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if !e.inRepo(fn) || len(fn.Blocks) == 0 {
			continue
		}
		if fn.Synthetic != "" && fn.Synthetic != "package initializer" {
			continue
		}
		e.funcs[e.fnKey(fn)] = fn
	}
	// closures are reachable from their parents
	var addAnon func(fn *ssa.Function)
	addAnon = func(fn *ssa.Function) {
		for _, a := range fn.AnonFuncs {
			e.funcs[e.fnKey(a)] = a
			addAnon(a)
		}
	}
	var fns []*ssa.Function
	for _, fn := range e.funcs {
		fns = append(fns, fn)
	}
	for _, fn := range fns {
		addAnon(fn)
	}
	for _, fn := range e.funcs {
		isInit := strings.HasPrefix(fn.Name(), "init") && fn.Parent() == nil
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if x.Op == token.MUL {
							continue
						}
					case *ssa.Store:
						if x.Addr == g && x.Val != g && isInit {
							c, ok := x.Val.(*ssa.Const)
							made := false
							switch x.Val.(type) {
							case *ssa.MakeMap, *ssa.MakeChan, *ssa.Alloc:
								made = true
							}
							if call, ok := x.Val.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().Name() == "MustCompile" {
								made = true
							}
							if _, dup := e.globalInit[g]; dup || !ok {
								made = made && (!dup || e.globalNew[g])
								c = nil
							}
							e.globalInit[g] = c
							e.globalNew[g] = made
							continue
						}
					}
					if e.inRepoPkg(g.Pkg) {
						e.constGlobals[g] = false
					}
				}
				if fa, ok := in.(*ssa.FieldAddr); ok {
					st := fa.X.Type().Underlying().(*types.Pointer).Elem()
					ft := st.Underlying().(*types.Struct).Field(fa.Field).Type()
					if isStruct(ft) || isArray(ft) {
						continue
					}
					for _, r := range *fa.Referrers() {
						switch i := r.(type) {
						case *ssa.UnOp:
							if i.Op == token.MUL {
								continue
							}
						case *ssa.Store:
							if i.Addr == fa && i.Val != fa {
								continue
							}
						case *ssa.DebugRef:
							continue
						}
						e.reified[fieldKey(st, fa.Field)] = true
					}
				}
			}
		}
	}
	for _, p := range e.pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				if _, ok := e.constGlobals[g]; !ok {
					e.constGlobals[g] = true
				}
			}
		}
	}
	return e, nil
}

func (e *Engine) inRepoPkg(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), strings.TrimSuffix(repoPrefix, "/"))
}

// isGhost: the place is a ghost variable (not one of the engine's own heaps).
func (e *Engine) isGhost(p place) bool {
	if p.ref != nil || !strings.HasPrefix(p.key, "$") {
		return false
	}
	switch p.key {
	case "$lock", "$sent", "$recvd", "$closed":
		return false
	}
	return true
}

func (e *Engine) initGuards() {
	for _, m := range e.specs.monitors {
		for _, f := range m.fields {
			e.guards[m.pkg+"."+m.typ+"."+f] = m
		}
	}
}

// ---------- one function ----------

type fnReport struct {
	Key         string   `json:"function"`
	File        string   `json:"file"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Paths       int      `json:"paths"`
	Props       []string `json:"props"`
	Used        []string `json:"uses_contracts"`
	GenSec      float64  `json:"generation_seconds"`
	err         string
	obs         []*Obligation
}

func guardUnsupported(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				msg = u.msg
				return
			}
			if os.Getenv("GOVC_DEBUG") != "" {
				debug.PrintStack()
			}
			msg = fmt.Sprintf("internal error of the generator: %v", r)
			if os.Getenv("GOVC_TRACE") != "" {
				debug.PrintStack()
			}
		}
	}()
	f()
	return ""
}

func (e *Engine) resetRun() {
	e.suppress = 0
	e.recs = nil
	e.houdini = nil
	e.paths = 0
	e.mergers = nil
	e.depth = 0
}

func (e *Engine) verifyFunc(c *Contract) *fnReport {
	t0 := time.Now()
	rep := &fnReport{Key: c.key, Props: c.props}
	e.resetRun()
	e.obs = nil
	e.usedContracts = map[string]bool{}
	fn := e.funcs[c.key]
	run := &FuncRun{key: c.key, c: c, fn: fn, pkg: e.specPkg(c, fn), params: map[string]SV{}}
	e.run = run
	if fn == nil {
		rep.err = "no such function in the source: the contract has nothing to attach to"
	} else {
		rep.File = e.pos(fn.Pos())
		rep.err = guardUnsupported(func() { e.verifyBody(run) })
	}
	if rep.err == "" {
		for n := range c.loops {
			if !e.usedLoops[fmt.Sprintf("%s#%d", c.key, n)] {
				rep.err = fmt.Sprintf("loop %d named in the contract was not met (the function has no such loop, or it is unreachable)", n)
			}
		}
	}
	e.resetRun()
	rep.obs = e.obs
	if rep.err != "" {
		rep.obs = append(rep.obs, &Obligation{Fn: c.key, Kind: "supported", Label: rep.err, Goal: False, run: run, Clause: "-"})
	}
	rep.Paths = e.paths
	for k := range e.usedContracts {
		rep.Used = append(rep.Used, k)
	}
	sort.Strings(rep.Used)
	rep.GenSec = time.Since(t0).Seconds()
	return rep
}

func (e *Engine) namedVal(st *State, t types.Type, name string) Val {
	if s, ok := t.Underlying().(*types.Struct); ok {
		sv := &StructVal{typ: t}
		for i := 0; i < s.NumFields(); i++ {
			sv.fields = append(sv.fields, e.namedVal(st, s.Field(i).Type(), name+"."+s.Field(i).Name()))
		}
		return sv
	}
	x := Const(name+"@0", sortOf(t))
	st.assume(wfFact(x, t, st.alloc))
	return x
}

func (e *Engine) verifyBody(run *FuncRun) {
	c, fn := run.c, run.fn
	st := &State{cells: map[cellKey]Val{}, heaps: map[string]*Term{}, ghosts: map[string]*Term{}, defers: map[int][]*deferred{}}
	st.alloc = Const("alloc@0", SInt)
	alloc0Const = st.alloc
	st.assume(Le(One, st.alloc))
	run.alloc0 = st.alloc
	run.entry = st.clone()
	for _, n := range e.specs.axOrder {
		if e.specs.axioms[n].global {
			run.extra = append(run.extra, e.axiomFor(n))
		}
	}
	for _, n := range c.use {
		run.extra = append(run.extra, e.axiomFor(n))
		e.noteAxiom(n)
	}
	fr := e.newFrame(fn, nil)
	fr.c = c
	names := c.params
	if len(names) == 0 {
		for _, p := range fn.Params {
			names = append(names, p.Name())
		}
	}
	if len(names) != len(fn.Params) {
		unsup("the contract names %d parameters, the function has %d", len(names), len(fn.Params))
	}
	for i, p := range fn.Params {
		n := names[i]
		var v Val
		if cb := c.cbs[n]; cb != nil {
			v = &FuncVal{cb: cb, cbName: n}
		} else {
			v = e.namedVal(st, p.Type(), n)
			if _, ok := p.Type().Underlying().(*types.Pointer); ok && !c.nilable[n] {
				st.assume(Neq(v.(*Term), Null))
				st.assume(Neq(RefID(v.(*Term)), Zero))
			}
		}
		fr.args = append(fr.args, v)
		run.params[n] = SV{v, p.Type()}
	}
	for i, f := range fn.FreeVars {
		pt, ok := f.Type().Underlying().(*types.Pointer)
		if !ok {
			fr.free = append(fr.free, e.namedVal(st, f.Type(), "fv_"+f.Name()))
			continue
		}
		id := Const("fv_"+f.Name()+"@0", SInt)
		st.assume(And(Le(One, id), Lt(id, st.alloc)))
		for j := 0; j < i; j++ {
			if t, ok := fr.free[j].(*Term); ok {
				st.assume(Neq(RefID(t), id))
			}
		}
		r := MkRef(id, PNil)
		_ = pt
		fr.free = append(fr.free, r)
	}
	env := &Env{e: e, st: st, old: run.entry, vars: map[string]SV{}, fr: nil, pkg: run.pkg, where: c.key}
	if len(fr.free) > 0 {
		env.fr = &Frame{fn: fn, regs: map[ssa.Value]Val{}, free: fr.free}
	}
	for n, v := range run.params {
		env.vars[n] = v
	}
	for _, r := range c.req {
		st.assume(e.evalBool(env, r))
	}
	for _, r := range c.assumes {
		st.assume(e.evalBool(env, r))
		e.usedAssumes["assumption of "+c.key+": "+r.src] = true
	}
	lets := map[string]SV{}
	for _, l := range c.lets {
		v := e.freeze(env, e.eval(env, l.e))
		lets[l.name] = v
		env.vars[l.name] = v
		run.params[l.name] = v
	}
	entry := st.clone()
	for k, h := range run.entry.heaps {
		if _, ok := entry.heaps[k]; !ok {
			entry.heaps[k] = h
		}
	}
	for k, h := range run.entry.ghosts {
		if _, ok := entry.ghosts[k]; !ok {
			entry.ghosts[k] = h
		}
	}
	run.entry = entry
	fr.entry = entry
	e.smoke(st, "preconditions")
	// write frame
	frame := &wframe{base: st.alloc, seq: seqNow, allowed: map[string][]*Term{}, all: map[string]bool{}, name: "function", anyAll: c.modAll}
	ghostMod := map[string]bool{}
	env.old = entry
	for _, m := range c.mod {
		for _, p := range e.evalPlaces(env, m) {
			if e.isGhost(p) {
				ghostMod[p.key] = true
				continue
			}
			if p.ref == nil {
				frame.all[p.key] = true
			} else {
				frame.allowed[p.key] = append(frame.allowed[p.key], p.ref)
			}
		}
	}
	for _, cb := range c.cbs {
		for _, m := range cb.mod {
			for _, p := range e.evalPlaces(env, m) {
				if e.isGhost(p) {
					ghostMod[p.key] = true
				} else if p.ref == nil {
					frame.all[p.key] = true
				} else {
					frame.allowed[p.key] = append(frame.allowed[p.key], p.ref)
				}
			}
		}
	}
	st.frames = []*wframe{frame}
	// initial ghost state of an iterating function
	for _, g := range c.ghostIn {
		s := e.ghostSort(env, g.name)
		e.ghost(st, g.name, s)
		e.setGhost(st, g.name, e.tm(env, e.nilTo(env, e.eval(env, g.e), env, e.specs.ghosts[g.name])))
		ghostMod[g.name] = true
	}
	fr.ret = func(st *State, res []Val) {
		e.atExit(fr, st, res, lets, frame, ghostMod)
	}
	e.execBlock(fr, fn.Blocks[0], nil, st)
	if run.exits == 0 && len(c.ens) > 0 && !c.noreturn && c.opts["diverges"] == "" {
		unsup("no exit of the function is reachable")
	}
}

func (e *Engine) noteAxiom(n string) { e.usedAxioms[n] = true }

func (e *Engine) smoke(st *State, label string) {
	if e.suppress > 0 || st.dead || e.run.smokeN[label] >= 8 {
		return
	}
	if e.run.smokeN == nil {
		e.run.smokeN = map[string]int{}
	}
	e.run.smokeN[label]++
	o := &Obligation{Fn: e.run.key, Kind: "smoke", Label: label, Goal: False, Facts: st.facts, Extra: e.run.extra, run: e.run, Smoke: true}
	e.obs = append(e.obs, o)
}

func (e *Engine) atExit(fr *Frame, st *State, res []Val, lets map[string]SV, frame *wframe, ghostMod map[string]bool) {
	if st.dead {
		return
	}
	run := e.run
	c := run.c
	run.exits++
	pos := e.pos(fr.fn.Pos())
	if c.noreturn {
		e.oblige(st, "noreturn", "the function returns", pos, False, nil)
		return
	}
	env := &Env{e: e, st: st, old: run.entry, vars: map[string]SV{}, fr: fr, pkg: run.pkg, where: c.key}
	for n, v := range run.params {
		env.vars[n] = v
	}
	for n, v := range lets {
		env.vars[n] = v
	}
	rn := e.resNames(c, fr.fn.Signature)
	for i, n := range rn {
		t := fr.fn.Signature.Results().At(i).Type()
		env.vars[n] = SV{res[i], t}
		if len(rn) == 1 {
			env.vars["result"] = env.vars[n]
		}
		if c.pure {
			for _, leaf := range leafTerms(res[i]) {
				var r *Term
				switch leaf.sort {
				case SRef:
					r = leaf
				case SSlc:
					r = SArrOf(leaf)
				default:
					continue
				}
				e.oblige(st, "pure", "result "+n+" is not newly allocated", pos, Lt(RefID(r), run.alloc0), nil)
			}
		}
	}
	for _, g := range c.returns {
		e.ghost(st, g.name, e.ghostSort(env, g.name))
		e.setGhost(st, g.name, e.tm(env, e.nilTo(env, e.eval(env, g.e), env, e.specs.ghosts[g.name])))
		if !ghostMod[g.name] {
			unsup("%s sets %s, which is not in modifies", c.key, g.name)
		}
	}
	e.smoke(st, "exit")
	for _, q := range c.ens {
		g := e.evalBool(env, q)
		o := e.oblige(st, "ensures", clauseName(q), pos, g, q.props)
		if o != nil {
			o.Clause = q.line
		}
	}
	for _, k := range []string{"$lock", "$sent", "$recvd", "$closed"} {
		h, ok := st.heaps[k]
		if !ok {
			continue
		}
		h0 := run.entry.heaps[k]
		if h0 == nil || h == h0 || frame.all[k] {
			continue
		}
		r := Bound("r", SRef)
		conds := []*Term{Lt(RefID(r), run.alloc0)}
		for _, a := range frame.allowed[k] {
			conds = append(conds, Neq(r, a))
		}
		g := Quant("forall", []*Term{r}, Implies(And(conds...), Eq(Select(h, r), Select(h0, r))), [][]*Term{{Select(h, r)}})
		what := map[string]string{"$lock": "locks are held as at entry", "$sent": "sends to channels not named in modifies", "$recvd": "receives from channels not named in modifies", "$closed": "channels closed but not named in modifies"}[k]
		e.oblige(st, "frame", what, pos, g, nil)
	}
	for g := range e.specs.ghosts {
		t, ok := st.ghosts[g]
		if a := e.specs.aux[g]; a != nil && !contains(a, run.pkg) {
			continue
		}
		if !ok || ghostMod[g] {
			continue
		}
		if t0 := run.entry.ghosts[g]; t0 != nil && t0 != t {
			e.oblige(st, "frame", "ghost "+g+" unchanged", pos, Eq(t, t0), nil)
		}
	}
}

// ---------- lemmas ----------

func (e *Engine) lemmaObs(name string) (obs []*Obligation, err string) {
	ad := e.specs.axioms[name]
	err = guardUnsupported(func() {
		st := &State{cells: map[cellKey]Val{}, heaps: map[string]*Term{}, ghosts: map[string]*Term{}, alloc: Const("alloc@0", SInt), defers: map[int][]*deferred{}}
		e.run = &FuncRun{key: "lemma " + name, pkg: ad.pkg, alloc0: st.alloc}
		e.run.entry = st
		idx := func(n string) int {
			for i, x := range e.specs.axOrder {
				if x == n {
					return i
				}
			}
			return -1
		}
		for _, n := range e.specs.axOrder {
			a := e.specs.axioms[n]
			if a.global && idx(n) < idx(name) {
				e.run.extra = append(e.run.extra, e.axiomFor(n))
			}
		}
		for _, u := range ad.use {
			if idx(u) < 0 || e.specs.axioms[u].lemma && idx(u) >= idx(name) {
				unsup("lemma %s uses %s, which is not stated before it", name, u)
			}
			e.run.extra = append(e.run.extra, e.axiomFor(u))
		}
		body := ad.e
		env := &Env{e: e, st: st, vars: map[string]SV{}, pkg: ad.pkg, where: "lemma " + name}
		if ad.induct != "" {
			if body.op != "quant" || body.s != "forall" {
				unsup("induction needs a universal statement")
			}
			var iv *Term
			n := env
			for _, q := range body.vars {
				s, t := e.specType(env, q.typ)
				k := Const("sk_"+q.name, s)
				if q.name == ad.induct {
					iv = k
				}
				if rf := rangeFact(k, tOrInt(t)); rf != True {
					st.assume(rf)
				}
				if q.typ == "nat" {
					st.assume(Le(Zero, k))
				}
				n = n.with(q.name, SV{k, t})
			}
			if iv == nil {
				unsup("induction variable %s not bound", ad.induct)
			}
			// hypothesis: the statement for every smaller non-negative value
			guard := &Expr{op: "bin", s: "==>", args: []*Expr{
				{op: "bin", s: "&&", args: []*Expr{
					{op: "bin", s: "<=", args: []*Expr{{op: "lit", s: "0"}, {op: "id", s: ad.induct}}},
					{op: "bin", s: "<", args: []*Expr{{op: "id", s: ad.induct}, {op: "id", s: "$ind"}}}}}, body.args[0]}}
			ih := &Expr{op: "quant", s: "forall", vars: body.vars, args: []*Expr{guard}, pats: body.pats}
			ie := env.with("$ind", SV{iv, types.Typ[types.UntypedInt]})
			st.assume(e.evalFormula(ie, ih))
			g := e.evalFormula(n, body.args[0])
			obs = append(obs, &Obligation{Fn: "lemma " + name, Kind: "lemma", Label: "induction on " + ad.induct, Goal: g, Facts: st.facts, Extra: e.run.extra, run: e.run})
			return
		}
		g := e.evalFormula(env, body)
		obs = append(obs, &Obligation{Fn: "lemma " + name, Kind: "lemma", Goal: g, Facts: st.facts, Extra: e.run.extra, run: e.run})
	})
	return
}

func tOrInt(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Bool]
	}
	return t
}

// ---------- solving ----------

var quickMu sync.Mutex
var quickN int

func quickRun(script, dir string) bool {
	quickMu.Lock()
	quickN++
	n := quickN
	quickMu.Unlock()
	file := filepath.Join(dir, fmt.Sprintf("c%06d.smt2", n))
	os.WriteFile(file, []byte(script), 0o644)
	out, _ := exec.Command("z3-new", "-T:3", "rlimit=1500000", "smt.mbqi=false", file).CombinedOutput()
	os.Remove(file)
	return strings.HasPrefix(strings.TrimSpace(string(out)), "unsat")
}

type failure struct {
	Fn     string `json:"function"`
	Kind   string `json:"kind"`
	Label  string `json:"label"`
	Pos    string `json:"pos"`
	Clause string `json:"clause,omitempty"`
	Goal   string `json:"goal"`
	Status string `json:"status"`
	Solver string `json:"solver"`
	Out    string `json:"solver_output"`
}

type report struct {
	Functions   []*fnReport       `json:"functions"`
	Lemmas      []string          `json:"lemmas"`
	Obligations int               `json:"obligations"`
	Discharged  int               `json:"discharged"`
	Trivial     int               `json:"trivial"`
	Smoke       int               `json:"smoke_checks"`
	BySolver    map[string]int    `json:"by_solver"`
	SolverSec   float64           `json:"solver_seconds"`
	MaxSec      float64           `json:"max_query_seconds"`
	WallSec     float64           `json:"wall_seconds"`
	Candidates  int               `json:"candidate_queries"`
	Trusted     map[string]string `json:"trusted"`
	Axioms      []string          `json:"axioms"`
	Inlined     []string          `json:"inlined"`
	Relied      []string          `json:"relied"`
	Failures    []*failure        `json:"failures"`
	Error       string            `json:"error,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	cdir := flag.String("contracts", "/verif/contracts", "contract files")
	budget := flag.Float64("budget", 0, "seconds after which no further obligation is attempted (0: none)")
	maxFail := flag.Int("maxfail", 1000000, "failed obligations of a function after which its other obligations are not attempted")
	prop := flag.String("prop", "", "property (empty: everything)")
	only := flag.String("only", "", "comma separated function keys (substring match)")
	out := flag.String("out", "", "JSON report")
	sec := flag.Int("sec", 20, "seconds per obligation")
	par := flag.Int("par", runtime.NumCPU(), "parallel solvers")
	verbose := flag.Bool("v", false, "verbose")
	dump := flag.String("dump", "", "directory for the scripts of failed obligations")
	noclose := flag.Bool("noclosure", false, "do not follow used contracts")
	list := flag.Bool("list", false, "list functions of the repository and contract coverage")
	show := flag.String("show", "", "print the SSA of a function")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMaxStack(4 << 30)
	t0 := time.Now()
	rep := &report{BySolver: map[string]int{}, Trusted: map[string]string{}}
	fail := func(err error) {
		rep.Error = err.Error()
		fmt.Fprintln(os.Stderr, "govc:", err)
		if *out != "" {
			b, _ := json.MarshalIndent(rep, "", " ")
			os.WriteFile(*out, b, 0o644)
		}
		os.Exit(2)
	}
	sp, err := LoadSpecs(*cdir)
	if err != nil {
		fail(err)
	}
	e, err := loadRepo(*repo)
	if err != nil {
		fail(err)
	}
	e.specs = sp
	initAxioms()
	e.initGuards()
	e.scratch, err = os.MkdirTemp("", "govc")
	if err != nil {
		fail(err)
	}
	defer os.RemoveAll(e.scratch)
	if *show != "" {
		for k, fn := range e.funcs {
			if k == *show {
				fn.WriteTo(os.Stdout)
			}
		}
		return
	}
	if *list {
		var ks []string
		for k := range e.funcs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			st := "-"
			if c := sp.contracts[k]; c != nil {
				st = "contract"
				if c.trusted {
					st = "trusted"
				}
				if c.noverify {
					st = "bounded"
				}
			}
			fmt.Printf("%-9s %s\n", st, k)
		}
		return
	}
	var work []string
	inWork := map[string]bool{}
	push := func(k string) {
		c := sp.contracts[k]
		if c == nil || c.trusted || c.noverify || inWork[k] {
			return
		}
		if *prop != "" && len(c.props) > 0 && !c.hasProp(*prop) {
			// a caller is checked against the contract; the check of the other
			// property discharges the contract itself
			inWork[k] = true
			rep.Relied = append(rep.Relied, k+" (discharged by "+strings.Join(c.props, ", ")+")")
			return
		}
		inWork[k] = true
		work = append(work, k)
	}
	for _, k := range sp.order {
		c := sp.contracts[k]
		sel := *prop == "" && *only == "" || *prop != "" && c.hasProp(*prop)
		if *only != "" {
			for _, o := range strings.Split(*only, ",") {
				if strings.Contains(k, o) {
					sel = true
				}
			}
		}
		if sel {
			push(k)
		}
	}
	var jobs []*job
	type pend struct {
		j  *job
		fr *fnReport
	}
	var mu sync.Mutex
	failing := map[string]int{}
	sem := make(chan bool, *par)
	var wg sync.WaitGroup
	cache := map[string][]*job{}
	addJob := func(o *Obligation, fr *fnReport) {
		j := &job{ob: o}
		jobs = append(jobs, j)
		if o.Kind == "supported" {
			j.res = Result{Status: "unsupported", Out: o.Label}
			return
		}
		if o.Goal == True && !o.Smoke {
			j.res = Result{Status: "unsat", Solver: "trivial"}
			return
		}
		var fl []*Term
		if o.Facts != nil {
			fl = o.Facts.list()
		}
		if !o.Smoke {
			for _, f := range fl {
				if f == o.Goal || f == False {
					j.res = Result{Status: "unsat", Solver: "trivial"}
					return
				}
			}
		}
		j.script = Script(fl, o.Goal, o.Extra)
		key := j.script
		if o.Smoke {
			key = "smoke" + key
		}
		if _, ok := cache[key]; ok {
			cache[key] = append(cache[key], j)
			return
		}
		cache[key] = []*job{j}
		if d := os.Getenv("GOVC_KEEP"); d != "" {
			os.WriteFile(filepath.Join(d, fmt.Sprintf("%04d_%s.smt2", len(cache), strings.NewReplacer("/", "_", " ", "_", "*", "").Replace(o.Name()))), []byte(j.script), 0o644)
		}
		s := *sec
		if o.Sec > 0 {
			s = o.Sec
		}
		n := len(cache)
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			mu.Lock()
			nf := failing[o.Fn]
			mu.Unlock()
			late := *budget > 0 && time.Since(t0).Seconds() > *budget
			if late || nf >= *maxFail && !o.Smoke {
				j.res = Result{Status: "not attempted", Out: "the function has failed obligations already"}
				if late {
					j.res.Out = "the time budget of the run is used up"
				}
				return
			}
			defer func() {
				if !o.Smoke && j.res.Status != "unsat" {
					mu.Lock()
					failing[o.Fn]++
					mu.Unlock()
				}
			}()
			if o.Smoke {
				j.res = solveSmoke(j.script, e.scratch, fmt.Sprintf("s%05d", n))
			} else {
				j.res = Solve(j.script, e.scratch, fmt.Sprintf("q%05d", n), s)
			}
			mu.Lock()
			if *verbose && j.res.Time > 4 {
				fmt.Fprintf(os.Stderr, "  slow %.1fs %s %s (%s)\n", j.res.Time, o.Name(), j.res.Status, j.res.Solver)
			}
			mu.Unlock()
		}()
	}
	for i := 0; i < len(work); i++ {
		c := sp.contracts[work[i]]
		fr := e.verifyFunc(c)
		if *verbose {
			fmt.Fprintf(os.Stderr, "%-55s %4d obligations %4d paths %.1fs gen\n", c.key, len(fr.obs), fr.Paths, fr.GenSec)
			if fr.err != "" {
				fmt.Fprintln(os.Stderr, "   UNSUPPORTED", fr.err)
			}
		}
		rep.Functions = append(rep.Functions, fr)
		for _, o := range fr.obs {
			addJob(o, fr)
		}
		if !*noclose && *only == "" {
			for _, k := range fr.Used {
				push(k)
			}
		}
	}
	// lemmas in use, and those they use
	var lem []string
	seenL := map[string]bool{}
	var addL func(n string)
	addL = func(n string) {
		if seenL[n] {
			return
		}
		seenL[n] = true
		ad := sp.axioms[n]
		for _, u := range ad.use {
			addL(u)
		}
		lem = append(lem, n)
	}
	for n := range e.usedAxioms {
		addL(n)
	}
	for _, n := range sp.axOrder {
		if sp.axioms[n].global && (len(work) > 0) {
			addL(n)
		}
		if *prop == "" && *only == "" {
			addL(n)
		}
		if *only != "" && strings.Contains("lemma "+n, *only) {
			addL(n)
		}
	}
	sort.Strings(lem)
	for _, n := range lem {
		if !sp.axioms[n].lemma {
			rep.Axioms = append(rep.Axioms, n+": "+sp.axioms[n].src)
			continue
		}
		rep.Lemmas = append(rep.Lemmas, n)
		obs, er := e.lemmaObs(n)
		if er != "" {
			obs = append(obs, &Obligation{Fn: "lemma " + n, Kind: "supported", Label: er, Goal: False})
		}
		for _, o := range obs {
			addJob(o, nil)
		}
	}
	wg.Wait()
	// a second round with three times the time for what timed out, where little did:
	// the machine may be loaded
	var again []*job
	for _, js := range cache {
		if j := js[0]; !j.ob.Smoke && (j.res.Status == "timeout" || j.res.Status == "unknown") {
			again = append(again, j)
		}
	}
	if len(again) > 0 && len(again) <= 16 && (*budget <= 0 || time.Since(t0).Seconds()+float64(3**sec) < *budget+100) {
		few := make(chan bool, 4)
		for i, j := range again {
			wg.Add(1)
			go func() {
				few <- true
				defer func() { <-few; wg.Done() }()
				j.res = Solve(j.script, e.scratch, fmt.Sprintf("r%05d", i), 3**sec, moreSolvers...)
			}()
		}
		wg.Wait()
		bad := map[string]bool{}
		for _, j := range again {
			if j.res.Status != "unsat" {
				bad[j.ob.Fn] = true
			}
		}
		n := 0
		for _, js := range cache {
			if j := js[0]; !j.ob.Smoke && j.res.Status == "not attempted" && !bad[j.ob.Fn] {
				n++
				wg.Add(1)
				sem <- true
				go func(i int) {
					defer func() { <-sem; wg.Done() }()
					j.res = Solve(j.script, e.scratch, fmt.Sprintf("a%05d", i), *sec)
				}(n)
			}
		}
		wg.Wait()
	}
	for _, js := range cache {
		for _, j := range js[1:] {
			j.res = js[0].res
			j.res.Time = 0
		}
	}
	perFn := map[string]*fnReport{}
	for _, f := range rep.Functions {
		perFn[f.Key] = f
	}
	seenF := map[string]bool{}
	// a point of the function is vacuous when it is contradictory on every path to it
	alive := map[string]bool{}
	for _, j := range jobs {
		if j.ob.Smoke && j.res.Status != "unsat" {
			alive[j.ob.Fn+"/"+j.ob.Label] = true
		}
	}
	for _, j := range jobs {
		o := j.ob
		r := j.res
		rep.SolverSec += r.Time
		if r.Time > rep.MaxSec {
			rep.MaxSec = r.Time
		}
		ok := r.Status == "unsat"
		if o.Smoke {
			rep.Smoke++
			if alive[o.Fn+"/"+o.Label] {
				continue
			}
			ok = false
			r.Status = "vacuous"
			r.Out = "the assumptions are contradictory: everything would be provable here"
		} else {
			rep.Obligations++
			if f := perFn[o.Fn]; f != nil {
				f.Obligations++
				if ok {
					f.Discharged++
				}
			}
		}
		if ok {
			rep.Discharged++
			if r.Solver == "trivial" {
				rep.Trivial++
			}
			rep.BySolver[r.Solver]++
			continue
		}
		g := o.Goal.String()
		if len(g) > 2000 {
			g = g[:2000] + "…"
		}
		if len(r.Out) > 6000 {
			r.Out = r.Out[:6000] + "…"
		}
		if *dump != "" {
			os.MkdirAll(*dump, 0o755)
			os.WriteFile(filepath.Join(*dump, fmt.Sprintf("%03d-%s.smt2", len(rep.Failures), clean(o.Fn+"-"+o.Kind))), []byte("; "+o.Name()+" "+o.Pos+"\n"+j.script+"(get-model)\n"), 0o644)
		}
		rep.Failures = append(rep.Failures, &failure{o.Fn, o.Kind, o.Label, o.Pos, o.Clause, g, r.Status, r.Solver, r.Out})
		k := o.Name() + o.Pos
		if !seenF[k] || *verbose {
			seenF[k] = true
			fmt.Printf("FAILED %s  [%s]  %s (%s)\n", o.Name(), o.Pos, r.Status, r.Solver)
			if *verbose && o.Kind != "supported" {
				fmt.Printf("       goal: %.300s\n", g)
			}
		}
	}
	for a := range e.usedAssumes {
		rep.Axioms = append(rep.Axioms, a)
	}
	sort.Strings(rep.Axioms)
	rep.Trusted = e.usedTrusted
	rep.Candidates = e.candSolves
	for k := range e.inlined {
		rep.Inlined = append(rep.Inlined, k)
	}
	sort.Strings(rep.Inlined)
	rep.WallSec = time.Since(t0).Seconds()
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	fmt.Printf("govc: %d functions, %d obligations, %d discharged (%d trivially), %d smoke checks, %d failures, solver %.1fs, wall %.1fs\n",
		len(rep.Functions), rep.Obligations, rep.Discharged, rep.Trivial, rep.Smoke, len(rep.Failures), rep.SolverSec, rep.WallSec)
	os.RemoveAll(e.scratch)
	if len(rep.Failures) > 0 {
		os.Exit(1)
	}
}

func solveSmoke(script, dir, name string) Result {
	file := filepath.Join(dir, name+".smt2")
	os.WriteFile(file, []byte(script), 0o644)
	t0 := time.Now()
	outb, _ := exec.Command("z3-new", "-T:3", "smt.mbqi=false", file).CombinedOutput()
	os.Remove(file)
	r := Result{Solver: "z3-new", Time: time.Since(t0).Seconds(), Out: string(outb), Status: "unknown"}
	if strings.HasPrefix(strings.TrimSpace(r.Out), "unsat") {
		r.Status = "unsat"
	}
	if strings.HasPrefix(r.Out, "(error") {
		r.Status = "unsat"
	}
	return r
}

func (c *Contract) hasProp(p string) bool {
	for _, x := range c.props {
		if x == p {
			return true
		}
	}
	for _, cl := range c.ens {
		for _, x := range cl.props {
			if x == p {
				return true
			}
		}
	}
	return false
}

func contains(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}
