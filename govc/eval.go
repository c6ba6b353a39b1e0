package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is the value of a specification expression.
type SV struct {
	v Val
	t types.Type // nil for specification sorts
}

type Env struct {
	e        *Engine
	st       *State
	old      *State
	pre      *State // state at loop entry
	vars     map[string]SV
	ents     map[string]SV // entry values of the parameters (old)
	fr       *Frame
	pkg      string
	loop     *loopRun
	at       token.Pos
	depth    int
	where    string
	entFirst bool
	known    *knownList // what the formula being evaluated stands under
	inPat    bool       // evaluating a trigger
}

type knownList struct {
	t    *Term
	prev *knownList
}

// under: the environment of a formula that matters only where a holds.
func (v *Env) under(a *Term) *Env {
	n := *v
	n.known = &knownList{a, v.known}
	return &n
}

func (v *Env) knows(t *Term) bool {
	if t == True {
		return true
	}
	if t.op == "and" {
		for _, a := range t.args {
			if !v.knows(a) {
				return false
			}
		}
		return true
	}
	var in func(k *Term) bool
	in = func(k *Term) bool {
		if k == t {
			return true
		}
		if k.op == "and" {
			for _, a := range k.args {
				if in(a) {
					return true
				}
			}
		}
		return false
	}
	for k := v.known; k != nil; k = k.prev {
		if in(k.t) {
			return true
		}
	}
	return false
}

func (v *Env) with(name string, x SV) *Env {
	n := *v
	n.vars = make(map[string]SV, len(v.vars)+1)
	for k, y := range v.vars {
		n.vars[k] = y
	}
	n.vars[name] = x
	return &n
}

func (e *Engine) loopEnv(l *loopRun, st *State) *Env {
	root := l.fr.root
	env := &Env{e: e, st: st, old: root.entry, pre: l.entry, fr: l.fr, loop: l, vars: map[string]SV{}, ents: e.run.params}
	env.pkg = e.run.pkg
	if l.header != nil {
		env.at = 0
	}
	return env
}

func (e *Engine) evalBool(env *Env, c *Clause) *Term {
	env.where = c.line
	return e.evalFormula(env, c.e)
}

func (e *Engine) evalFormula(env *Env, x *Expr) *Term {
	v := e.eval(env, x)
	t, ok := v.v.(*Term)
	if !ok || t.sort != SBool {
		unsup("%s: %s is not a formula", env.where, x)
	}
	return t
}

func badspec(env *Env, f string, a ...interface{}) {
	unsup("contract %s: %s", env.where, fmt.Sprintf(f, a...))
}

func (e *Engine) specType(env *Env, s string) (Sort, types.Type) {
	switch s {
	case "int", "integer", "nat":
		return SInt, types.Typ[types.UntypedInt]
	case "bool":
		return SBool, types.Typ[types.Bool]
	case "string":
		return SStr, types.Typ[types.String]
	case "byte":
		return SInt, types.Typ[types.Uint8]
	case "uint32":
		return SInt, types.Typ[types.Uint32]
	case "uint64":
		return SInt, types.Typ[types.Uint64]
	case "ref":
		return SRef, nil
	case "slice":
		return SSlc, nil
	case "fn":
		return SFn, nil
	case "iface":
		return SIface, nil
	case "error":
		return SIface, types.Universe.Lookup("error").Type()
	case "bytes", "row":
		return SArr(SInt, SInt), nil
	}
	if strings.HasPrefix(s, "map[") {
		i := strings.IndexByte(s, ']')
		k, _ := e.specType(env, s[4:i])
		w, _ := e.specType(env, s[i+1:])
		return SArr(k, w), nil
	}
	if strings.HasPrefix(s, "[]") {
		if t := e.goType(env, s); t != nil {
			return SSlc, t
		}
	}
	if e.specs.sorts[s] {
		return Sort(s), nil
	}
	if t := e.goType(env, s); t != nil {
		return sortOf(t), t
	}
	badspec(env, "unknown type %q", s)
	return "", nil
}

func (e *Engine) goType(env *Env, s string) types.Type {
	if strings.HasPrefix(s, "*") {
		if t := e.goType(env, s[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	if strings.HasPrefix(s, "[]") {
		if t := e.goType(env, s[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	if strings.HasPrefix(s, "map[") {
		i := strings.IndexByte(s, ']')
		k, v := e.goType(env, s[4:i]), e.goType(env, s[i+1:])
		if k != nil && v != nil {
			return types.NewMap(k, v)
		}
		return nil
	}
	if s == "interface{}" {
		return types.NewInterfaceType(nil, nil)
	}
	if b, ok := types.Universe.Lookup(s).(*types.TypeName); ok {
		return b.Type()
	}
	pk, nm := env.pkg, s
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		pk, nm = s[:i], s[i+1:]
		if p := e.findPkg(pk); p != nil {
			if o, ok := p.Scope().Lookup(nm).(*types.TypeName); ok {
				return o.Type()
			}
		}
		return nil
	}
	if p := e.pkgs[pk]; p != nil {
		if o, ok := p.Pkg.Scope().Lookup(nm).(*types.TypeName); ok {
			return o.Type()
		}
	}
	return nil
}

func (e *Engine) findPkg(name string) *types.Package {
	if p := e.pkgs[name]; p != nil {
		return p.Pkg
	}
	if p := e.typePkgs[name]; p != nil {
		return p
	}
	return nil
}

func (e *Engine) eval(env *Env, x *Expr) SV {
	switch x.op {
	case "lit":
		n, ok := new(big.Int).SetString(strings.ReplaceAll(x.s, "_", ""), 0)
		if !ok {
			badspec(env, "number %s", x.s)
		}
		return SV{BigNum(n), types.Typ[types.UntypedInt]}
	case "str":
		return SV{StrLit(x.s), types.Typ[types.String]}
	case "id":
		return e.evalID(env, x.s)
	case "let":
		v := e.eval(env, x.args[0])
		return e.eval(env.with(x.s, v), x.args[1])
	case "cond":
		c := e.evalFormula(env, x.args[0])
		a, b := e.eval(env.under(c), x.args[1]), e.eval(env, x.args[2])
		at, bt := e.coerce2(env, &a, &b)
		return SV{Ite(c, at, bt), a.t}
	case "un":
		switch x.s {
		case "!":
			return SV{Not(e.evalFormula(env, x.args[0])), types.Typ[types.Bool]}
		case "-":
			v := e.eval(env, x.args[0])
			return SV{Sub(Zero, e.tm(env, v)), v.t}
		case "*":
			v := e.eval(env, x.args[0])
			p, ok := v.t.Underlying().(*types.Pointer)
			if !ok {
				badspec(env, "* of %s", v.t)
			}
			return SV{e.load(env.st, e.addrOf(v.v, p.Elem()), ""), p.Elem()}
		case "&":
			a := e.evalAddr(env, x.args[0])
			return SV{a, nil}
		}
	case "bin":
		return e.evalBin(env, x)
	case "quant":
		return e.evalQuant(env, x)
	case "sel":
		return e.evalSel(env, x)
	case "idx":
		return e.evalIdx(env, x)
	case "slice":
		s := e.eval(env, x.args[0])
		st := e.tm(env, s)
		lo := Zero
		if x.args[1] != nil {
			lo = e.tm(env, e.eval(env, x.args[1]))
		}
		if st.sort == SStr {
			hi := StrLen(st)
			if x.args[2] != nil {
				hi = e.tm(env, e.eval(env, x.args[2]))
			}
			return SV{StrSub(st, lo, hi), s.t}
		}
		hi := SLen(st)
		if x.args[2] != nil {
			hi = e.tm(env, e.eval(env, x.args[2]))
		}
		return SV{MkSlc(SArrOf(st), Add(SOff(st), lo), Sub(hi, lo), Sub(SCap(st), lo)), s.t}
	case "call":
		return e.evalCall(env, x)
	}
	badspec(env, "cannot evaluate %s", x)
	return SV{}
}

func (e *Engine) tm(env *Env, v SV) *Term {
	if t, ok := v.v.(*Term); ok {
		return t
	}
	if v.v == nil {
		badspec(env, "no value")
	}
	return e.term(v.v, v.t)
}

// coerce2 handles nil literals.
func (e *Engine) coerce2(env *Env, a, b *SV) (*Term, *Term) {
	if a.v == nilMark && b.v == nilMark {
		return True, True
	}
	if a.v == nilMark {
		bt := e.tm(env, *b)
		a.t = b.t
		return zeroTerm(bt.sort), bt
	}
	if b.v == nilMark {
		at := e.tm(env, *a)
		return at, zeroTerm(at.sort)
	}
	at, bt := e.tm(env, *a), e.tm(env, *b)
	if at.sort != bt.sort {
		badspec(env, "different sorts %s and %s", at.sort, bt.sort)
	}
	return at, bt
}

type nilT struct{}

var nilMark Val = &nilT{}

func (e *Engine) evalBin(env *Env, x *Expr) SV {
	B := types.Typ[types.Bool]
	switch x.s {
	case "==>":
		a := e.evalFormula(env, x.args[0])
		if a == False {
			return SV{True, B}
		}
		return SV{Implies(a, e.evalFormula(env.under(a), x.args[1])), B}
	case "<==>":
		return SV{Eq(e.evalFormula(env, x.args[0]), e.evalFormula(env, x.args[1])), B}
	case "&&":
		a := e.evalFormula(env, x.args[0])
		if a == False {
			return SV{False, B}
		}
		return SV{And(a, e.evalFormula(env.under(a), x.args[1])), B}
	case "||":
		a := e.evalFormula(env, x.args[0])
		if a == True {
			return SV{True, B}
		}
		return SV{Or(a, e.evalFormula(env, x.args[1])), B}
	case "in":
		k := e.tm(env, e.eval(env, x.args[0]))
		m := e.eval(env, x.args[1])
		mt := e.tm(env, m)
		if m.t != nil {
			if gm, ok := m.t.Underlying().(*types.Map); ok {
				in := Select(e.mapDom(env.st, mt, gm), k)
				if _, fresh := freshIDs[RefID(mt)]; !fresh {
					in = And(Neq(mt, Null), in)
				}
				return SV{in, B}
			}
		}
		return SV{Select(mt, k), B}
	}
	a, b := e.freeze(env, e.eval(env, x.args[0])), e.freeze(env, e.eval(env, x.args[1]))
	switch x.s {
	case "==", "!=":
		var r *Term
		if sa, ok := a.v.(*StructVal); ok {
			sb, ok := b.v.(*StructVal)
			if !ok {
				badspec(env, "comparison of struct with %T", b.v)
			}
			var cs []*Term
			la, lb := leafTerms(sa), leafTerms(sb)
			for i := range la {
				cs = append(cs, Eq(la[i], lb[i]))
			}
			r = And(cs...)
		} else if a.v == nilMark || b.v == nilMark {
			o := a
			if a.v == nilMark {
				o = b
			}
			t := e.tm(env, o)
			if t.sort == SSlc {
				r = Eq(SArrOf(t), Null)
			} else {
				r = Eq(t, zeroTerm(t.sort))
			}
		} else {
			at, bt := e.coerce2(env, &a, &b)
			r = Eq(at, bt)
		}
		if x.s == "!=" {
			r = Not(r)
		}
		return SV{r, B}
	}
	at, bt := e.coerce2(env, &a, &b)
	if at.sort == SStr {
		switch x.s {
		case "+":
			return SV{StrCat(at, bt), a.t}
		case "<":
			return SV{App("strlt", SBool, at, bt), B}
		case ">":
			return SV{App("strlt", SBool, bt, at), B}
		case "<=":
			return SV{Not(App("strlt", SBool, bt, at)), B}
		case ">=":
			return SV{Not(App("strlt", SBool, at, bt)), B}
		}
	}
	if at.sort != SInt {
		badspec(env, "operator %s on %s", x.s, at.sort)
	}
	I := types.Type(types.Typ[types.UntypedInt])
	switch x.s {
	case "<":
		return SV{Lt(at, bt), B}
	case "<=":
		return SV{Le(at, bt), B}
	case ">":
		return SV{Lt(bt, at), B}
	case ">=":
		return SV{Le(bt, at), B}
	case "+":
		return SV{Add(at, bt), I}
	case "-":
		return SV{Sub(at, bt), I}
	case "*":
		return SV{Mul(at, bt), I}
	case "/":
		return SV{DivE(at, bt), I}
	case "%":
		return SV{ModE(at, bt), I}
	case "&":
		return SV{bitAnd(at, bt), I}
	case "|":
		return SV{bitOr(at, bt), I}
	case "<<":
		if bt.kind == kNum {
			return SV{Mul(at, pow2(int(bt.num.Int64()))), I}
		}
	case ">>":
		if bt.kind == kNum {
			return SV{DivE(at, pow2(int(bt.num.Int64()))), I}
		}
	}
	badspec(env, "operator %s", x.s)
	return SV{}
}

// ---------- quantifiers ----------

func (e *Engine) evalQuant(env *Env, x *Expr) SV {
	var bvs []*Term
	n := env
	var conds []*Term
	for _, q := range x.vars {
		s, t := e.specType(env, q.typ)
		b := Bound(q.name, s)
		bvs = append(bvs, b)
		n = n.with(q.name, SV{b, t})
		if s == SInt && q.typ == "nat" {
			conds = append(conds, Le(Zero, b))
		} else if s == SInt && t != nil {
			if rf := rangeFact(b, t); rf != True {
				conds = append(conds, rf)
			}
		}
	}
	body := e.evalFormula(n, x.args[0])
	if c := And(conds...); c != True {
		if x.s == "forall" {
			body = Implies(c, body)
		} else {
			body = And(c, body)
		}
	}
	var pats [][]*Term
	for _, ps := range x.pats {
		var p []*Term
		for _, y := range ps {
			pn := *n
			pn.inPat = true
			p = append(p, patTerm(e.tm(&pn, e.eval(&pn, y))))
		}
		pats = append(pats, p)
	}
	B := types.Typ[types.Bool]
	return SV{mkQuant(x.s, bvs, body, pats), B}
}

// mkQuant builds a quantifier, choosing patterns and, where bound integer
// variables index arrays at an offset, versions with absolute indices.
func mkQuant(q string, bvs []*Term, body *Term, pats [][]*Term) *Term {
	if !body.free {
		return Quant(q, bvs, body, pats)
	}
	if len(pats) > 0 {
		bvs, body, pats = shiftPatterns(bvs, body, pats)
		return Quant(q, bvs, body, pats)
	}
	type use struct {
		t   *Term // the term
		idx int   // index position
		off *Term // index - variable
	}
	// per bound variable: the uses grouped by offset
	groups := make([]map[*Term][]use, len(bvs))
	order := make([][]*Term, len(bvs))
	for i := range bvs {
		groups[i] = map[*Term][]use{}
	}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.free {
			return
		}
		seen[t] = true
		consider := func(pos int) {
			ix := t.args[pos]
			for vi, b := range bvs {
				if !ix.bvars[b] {
					continue
				}
				var off *Term
				if b.sort == SInt {
					off = Sub(ix, b)
				} else if ix == b {
					off = Zero
				} else {
					continue
				}
				if off.bvars[b] {
					continue
				}
				if other := hasOther(off, bvs); other {
					continue
				}
				if groups[vi][off] == nil {
					order[vi] = append(order[vi], off)
				}
				groups[vi][off] = append(groups[vi][off], use{t, pos, off})
			}
		}
		if t.kind == kApp {
			switch {
			case t.op == "select":
				consider(1)
			case t.op == "strat":
				consider(1)
			case !builtinOps[t.op] && !strings.HasPrefix(t.op, "("):
				for k := range t.args {
					if t.args[k].kind == kBound {
						consider(k)
					}
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	build := func(sel []*Term) *Term {
		m := map[*Term]*Term{}
		nb := make([]*Term, len(bvs))
		for i, b := range bvs {
			nb[i] = b
			if sel[i] != nil && sel[i] != Zero {
				nb[i] = Bound("j", SInt)
				m[b] = Sub(nb[i], sel[i])
			}
		}
		nbody := body
		if len(m) > 0 {
			nbody = Subst(body, m)
		}
		// pattern terms per variable
		var per [][]*Term
		for i := range bvs {
			if sel[i] == nil {
				return Quant(q, nb, nbody, nil)
			}
			var ts []*Term
			have := map[*Term]bool{}
			for _, u := range groups[i][sel[i]] {
				t := u.t
				if len(m) > 0 {
					t = Subst(t, m)
				}
				if goodPattern(t) && !have[t] {
					have[t] = true
					ts = append(ts, t)
				}
			}
			if len(ts) == 0 {
				return Quant(q, nb, nbody, nil)
			}
			if len(ts) > 4 {
				ts = ts[:4]
			}
			per = append(per, ts)
		}
		var ps [][]*Term
		var comb func(i int, cur []*Term)
		comb = func(i int, cur []*Term) {
			if len(ps) >= 6 {
				return
			}
			if i == len(per) {
				ps = append(ps, append([]*Term(nil), cur...))
				return
			}
			// a term already chosen may contain this variable too
			for _, c := range cur {
				if c.bvars[nb[i]] {
					comb(i+1, cur)
					return
				}
			}
			for _, t := range per[i] {
				comb(i+1, append(cur, t))
			}
		}
		comb(0, nil)
		return Quant(q, nb, nbody, ps)
	}
	var versions []*Term
	var pick func(i int, sel []*Term)
	pick = func(i int, sel []*Term) {
		if len(versions) >= 5 {
			return
		}
		if i == len(bvs) {
			versions = append(versions, build(sel))
			return
		}
		if len(order[i]) == 0 {
			pick(i+1, append(sel[:len(sel):len(sel)], nil))
			return
		}
		for _, o := range order[i] {
			pick(i+1, append(sel[:len(sel):len(sel)], o))
		}
	}
	pick(0, nil)
	r := versions[0]
	if r.kind == kQuant && len(versions) > 1 && len(r.alts) == 0 {
		r.alts = versions[1:]
	}
	return r
}

// shiftPatterns rewrites a quantifier with given patterns so that indices of
// the form offset+variable in them become variables.
func shiftPatterns(bvs []*Term, body *Term, pats [][]*Term) ([]*Term, *Term, [][]*Term) {
	nb := append([]*Term(nil), bvs...)
	for i, b := range bvs {
		if b.sort != SInt {
			continue
		}
		var off *Term
		ok := true
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] || !t.bvars[b] {
				return
			}
			seen[t] = true
			if t.kind == kApp {
				for k, a := range t.args {
					if !a.bvars[b] {
						continue
					}
					if (t.op == "select" || t.op == "strat" || !builtinOps[t.op]) && k < len(t.args) && a.sort == SInt {
						o := Sub(a, b)
						if !o.bvars[b] && !hasOther(o, bvs) {
							if off != nil && off != o {
								ok = false
							}
							off = o
							continue
						}
					}
					rec(a)
				}
			}
		}
		for _, p := range pats {
			for _, t := range p {
				rec(t)
			}
		}
		if !ok || off == nil || off == Zero || off.kind == kNum {
			continue
		}
		nb[i] = Bound("j", SInt)
		m := map[*Term]*Term{b: Sub(nb[i], off)}
		body = Subst(body, m)
		np := make([][]*Term, len(pats))
		for k, p := range pats {
			for _, t := range p {
				np[k] = append(np[k], Subst(t, m))
			}
		}
		pats = np
	}
	return nb, body, pats
}

func hasOther(t *Term, bvs []*Term) bool {
	for _, b := range bvs {
		if t.bvars[b] {
			return true
		}
	}
	return false
}

// goodPattern: no interpreted symbols around bound variables.
func goodPattern(t *Term) bool {
	if !t.free {
		return true
	}
	switch t.kind {
	case kBound:
		return true
	case kQuant:
		return false
	}
	switch t.op {
	case "+", "*", "-", "and", "or", "not", "=>", "=", "<", "<=", "ite", "div", "mod", "store":
		return false
	}
	for _, a := range t.args {
		if !goodPattern(a) {
			return false
		}
	}
	return true
}

// ---------- names ----------

func (e *Engine) evalID(env *Env, name string) SV {
	B := types.Typ[types.Bool]
	switch name {
	case "true":
		return SV{True, B}
	case "false":
		return SV{False, B}
	case "nil":
		return SV{nilMark, nil}
	case "$callee":
		// the function value a contract is used for
		if e.callee != nil {
			return SV{e.callee, nil}
		}
	case "$iter":
		if env.loop == nil {
			badspec(env, "$iter outside a loop")
		}
		return SV{env.st.ghosts[env.loop.iterKey], types.Typ[types.UntypedInt]}
	case "$visited":
		if env.loop == nil || env.loop.visKey == "" {
			badspec(env, "$visited outside a map loop")
		}
		return SV{env.st.ghosts[env.loop.visKey], nil}
	case "$strpos":
		if env.loop == nil || env.loop.visKey == "" {
			badspec(env, "$strpos outside a string loop")
		}
		return SV{env.st.ghosts[env.loop.visKey], types.Typ[types.UntypedInt]}
	}
	if v, ok := env.vars[name]; ok {
		return v
	}
	if strings.HasPrefix(name, "$") {
		ty, ok := e.specs.ghosts[name]
		if !ok {
			badspec(env, "unknown ghost variable %s", name)
		}
		s, t := e.specType(env, ty)
		return SV{e.ghost(env.st, name, s), t}
	}
	if env.entFirst {
		if v, ok := env.ents[name]; ok {
			return v
		}
	}
	if env.fr != nil {
		for f := env.fr; f != nil; f = f.parent {
			if v, ok := e.local(env, f, name); ok {
				return v
			}
		}
	}
	if v, ok := env.ents[name]; ok {
		return v
	}
	if v, ok := e.pkgName(env, env.pkg, name); ok {
		return v
	}
	badspec(env, "unknown name %s", name)
	return SV{}
}

func (e *Engine) pkgName(env *Env, pkg, name string) (SV, bool) {
	var scope *types.Package
	if p := e.pkgs[pkg]; p != nil {
		scope = p.Pkg
		if m := p.Members[name]; m != nil {
			switch g := m.(type) {
			case *ssa.Global:
				if t := g.Type().(*types.Pointer).Elem(); isStruct(t) {
					return SV{&structLoc{ref: e.globalAddr(g).(*Term)}, t}, true
				}
				return SV{e.globalLoad(env.st, g), g.Type().(*types.Pointer).Elem()}, true
			case *ssa.NamedConst:
				return SV{e.constVal(g.Value), g.Value.Type()}, true
			case *ssa.Function:
				return SV{&FuncVal{fn: g}, g.Signature}, true
			}
		}
		return SV{}, false
	}
	scope = e.findPkg(pkg)
	if scope == nil {
		return SV{}, false
	}
	switch o := scope.Scope().Lookup(name).(type) {
	case *types.Const:
		return SV{e.typedConst(o.Val(), o.Type()), o.Type()}, true
	case *types.Var:
		sp := e.prog.Package(scope)
		if sp != nil {
			if g, ok := sp.Members[name].(*ssa.Global); ok {
				return SV{e.globalLoad(env.st, g), o.Type()}, true
			}
		}
	}
	return SV{}, false
}

func (e *Engine) typedConst(v constant.Value, t types.Type) Val {
	return e.constVal(ssa.NewConst(v, t))
}

// localStruct is the address of a local variable of struct type.
func (e *Engine) localStruct(env *Env, fr *Frame, name string) *Term {
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == name && isStruct(a.Type().(*types.Pointer).Elem()) {
				if r, ok := fr.regs[a].(*Term); ok {
					return r
				}
			}
		}
	}
	return nil
}

// local finds a local variable (or captured variable) of a frame.
func (e *Engine) local(env *Env, fr *Frame, name string) (SV, bool) {
	if m := e.renames[e.run.key]; m != nil {
		if n, ok := m[name]; ok {
			name = n
		}
	}
	var best *ssa.Alloc
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || a.Comment != name {
				continue
			}
			if _, ok := fr.regs[a]; !ok {
				continue
			}
			if ad, ok := fr.regs[a].(*Addr); ok && ad.cell != nil {
				if _, ok := env.st.cells[*ad.cell]; !ok {
					continue
				}
			}
			if env.loop != nil && env.loop.fr == fr && env.loop.header != nil {
				if !b.Dominates(env.loop.header) {
					continue
				}
			}
			if best == nil || a.Pos() > best.Pos() {
				best = a
			}
		}
	}
	if best != nil {
		t := best.Type().(*types.Pointer).Elem()
		return SV{e.load(env.st, e.addrOf(fr.regs[best], t), ""), t}, true
	}
	for i, f := range fr.fn.FreeVars {
		if f.Name() == name {
			if p, ok := f.Type().Underlying().(*types.Pointer); ok {
				return SV{e.load(env.st, e.addrOf(fr.free[i], p.Elem()), ""), p.Elem()}, true
			}
			return SV{fr.free[i], f.Type()}, true
		}
	}
	for i, p := range fr.fn.Params {
		if p.Name() == name && i < len(fr.args) {
			return SV{fr.args[i], p.Type()}, true
		}
	}
	return SV{}, false
}

// ---------- selections ----------

func (e *Engine) pkgOf(env *Env, x *Expr) (string, bool) {
	if x.op != "id" {
		return "", false
	}
	if _, ok := env.vars[x.s]; ok {
		return "", false
	}
	if _, ok := env.ents[x.s]; ok {
		return "", false
	}
	if env.fr != nil {
		for f := env.fr; f != nil; f = f.parent {
			if _, ok := e.local(env, f, x.s); ok {
				return "", false
			}
		}
	}
	if p := e.pkgs[env.pkg]; p != nil {
		if p.Pkg.Scope().Lookup(x.s) != nil {
			return "", false
		}
		for _, im := range p.Pkg.Imports() {
			if im.Name() == x.s {
				return shortPkg(im.Path()), true
			}
		}
	}
	if e.findPkg(x.s) != nil {
		return x.s, true
	}
	return "", false
}

func (e *Engine) evalSel(env *Env, x *Expr) SV {
	if pk, ok := e.pkgOf(env, x.args[0]); ok {
		if v, ok := e.pkgName(env, pk, x.s); ok {
			return v
		}
		badspec(env, "no %s in package %s", x.s, pk)
	}
	v := e.eval(env, x.args[0])
	return e.selField(env, v, x.s)
}

func (e *Engine) fieldPath(env *Env, t types.Type, name string) []int {
	if t == nil {
		badspec(env, "field %s of a value without a Go type", name)
	}
	pkg := (*types.Package)(nil)
	bt := t
	if p, ok := bt.Underlying().(*types.Pointer); ok {
		bt = p.Elem()
	}
	if n, ok := types.Unalias(bt).(*types.Named); ok && n.Obj().Pkg() != nil {
		pkg = n.Obj().Pkg()
	} else if p := e.pkgs[env.pkg]; p != nil {
		pkg = p.Pkg
	}
	o, path, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	if _, ok := o.(*types.Var); !ok {
		badspec(env, "no field %s in %s", name, t)
	}
	return path
}

func (e *Engine) selField(env *Env, v SV, name string) SV {
	for _, i := range e.fieldPath(env, v.t, name) {
		t := v.t
		if p, ok := t.Underlying().(*types.Pointer); ok {
			st := p.Elem()
			ft := st.Underlying().(*types.Struct).Field(i).Type()
			if a, ok := v.v.(*Addr); ok && a.cell != nil {
				v = SV{e.load(env.st, &Addr{cell: a.cell, path: append(a.path[:len(a.path):len(a.path)], pathEl{field: i}), typ: ft}, ""), ft}
				continue
			}
			fa := e.fieldAddr(e.tm(env, v), st, i)
			if isStruct(ft) {
				// keep it as a location: wrapped as pointer with struct type
				v = SV{&structLoc{fa.(*Term)}, ft}
				continue
			}
			v = SV{e.load(env.st, e.addrOf(fa, ft), ""), ft}
			continue
		}
		st := t.Underlying().(*types.Struct)
		ft := st.Field(i).Type()
		switch y := v.v.(type) {
		case *structLoc:
			fa := e.fieldAddr(y.ref, t, i)
			if isStruct(ft) {
				v = SV{&structLoc{fa.(*Term)}, ft}
			} else {
				v = SV{e.load(env.st, e.addrOf(fa, ft), ""), ft}
			}
		case *StructVal:
			v = SV{y.fields[i], ft}
		default:
			badspec(env, "field %s of %T", name, v.v)
		}
	}
	return v
}

// structLoc is a struct-typed place (embedded struct, slice element).
type structLoc struct{ ref *Term }

func (e *Engine) evalIdx(env *Env, x *Expr) SV {
	s := e.eval(env, x.args[0])
	k := e.eval(env, x.args[1])
	kt := e.tm(env, k)
	if s.t != nil {
		switch u := s.t.Underlying().(type) {
		case *types.Slice:
			st := e.tm(env, s)
			if isStruct(u.Elem()) {
				return SV{&structLoc{EltRef(SArrOf(st), Add(SOff(st), kt))}, u.Elem()}
			}
			if isArray(u.Elem()) {
				return SV{e.load(env.st, e.addrOf(EltRef(SArrOf(st), Add(SOff(st), kt)), u.Elem()), ""), u.Elem()}
			}
			row := Select(e.heap(env.st, "E:"+heapTypeKey(u.Elem()), SArr(SRef, SArr(SInt, sortOf(u.Elem())))), SArrOf(st))
			r := Select(row, Add(SOff(st), kt))
			env.st.assume(wfFact(r, u.Elem(), env.st.alloc))
			return SV{r, u.Elem()}
		case *types.Map:
			in, v := e.mapGetPure(env.st, e.tm(env, s), u, kt)
			if v.op == "ite" && (env.inPat || env.knows(in)) {
				v = v.args[1]
			}
			raw := v
			if v.op == "ite" && v.args[0] == in {
				raw = v.args[1]
			}
			env.st.assume(wfFact(raw, u.Elem(), env.st.alloc))
			return SV{v, u.Elem()}
		case *types.Basic:
			return SV{StrAt(e.tm(env, s), kt), types.Typ[types.Uint8]}
		case *types.Array:
			return SV{Select(e.tm(env, s), kt), u.Elem()}
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				row := e.load(env.st, e.addrOf(s.v, u.Elem()), "").(*Term)
				return SV{Select(row, kt), a.Elem()}
			}
		}
	}
	st := e.tm(env, s)
	if strings.HasPrefix(string(st.sort), "(Array ") {
		return SV{Select(st, kt), nil2int(st.sort)}
	}
	if st.sort == SStr {
		return SV{StrAt(st, kt), types.Typ[types.Uint8]}
	}
	badspec(env, "index of %s", x.args[0])
	return SV{}
}

func nil2int(s Sort) types.Type {
	_, v := arrParts(s)
	switch v {
	case SInt:
		return types.Typ[types.UntypedInt]
	case SBool:
		return types.Typ[types.Bool]
	case SStr:
		return types.Typ[types.String]
	}
	return nil
}

func (e *Engine) mapGetPure(st *State, m *Term, mt *types.Map, k *Term) (*Term, *Term) {
	in := Select(e.mapDom(st, m, mt), k)
	if _, ok := freshIDs[RefID(m)]; !ok {
		in = And(Neq(m, Null), in)
	}
	raw := Select(e.mapVals(st, m, mt), k)
	return in, Ite(in, raw, zeroTerm(raw.sort))
}

// ---------- calls ----------

func (e *Engine) evalCall(env *Env, x *Expr) SV {
	f := x.args[0]
	args := x.args[1:]
	I := types.Type(types.Typ[types.UntypedInt])
	B := types.Type(types.Typ[types.Bool])
	need := func(n int) {
		if len(args) != n {
			badspec(env, "%s wants %d arguments", f, n)
		}
	}
	if f.op == "id" {
		arg := func(i int) SV { return e.eval(env, args[i]) }
		at := func(i int) *Term { return e.tm(env, arg(i)) }
		switch f.s {
		case "old":
			need(1)
			if env.old == nil {
				badspec(env, "old() without an old state")
			}
			n := *env
			n.st = env.old.clone()
			n.entFirst = true
			n.loop = nil
			v := e.freeze(&n, e.eval(&n, args[0]))
			carryFacts(env.st, n.st, env.old)
			return v
		case "locked", "decoded":
			need(1)
			if env.st.lockSt == nil {
				// nothing was locked (or decoded) on this path: any value
				v := e.freeze(env, e.eval(env, args[0]))
				if t, ok := v.v.(*Term); ok {
					return SV{Fresh("undecoded", t.sort), v.t}
				}
			}
			if env.st.lockSt == nil {
				badspec(env, "locked() without a lock acquisition")
			}
			n := *env
			n.st = env.st.lockSt.clone()
			n.loop = nil
			v := e.freeze(&n, e.eval(&n, args[0]))
			carryFacts(env.st, n.st, env.st.lockSt)
			return v
		case "pre":
			need(1)
			if env.pre == nil {
				badspec(env, "pre() outside a loop")
			}
			n := *env
			n.st = env.pre.clone()
			v := e.freeze(&n, e.eval(&n, args[0]))
			carryFacts(env.st, n.st, env.pre)
			return v
		case "len":
			need(1)
			v := arg(0)
			if v.t != nil {
				if m, ok := v.t.Underlying().(*types.Map); ok {
					mt := e.tm(env, v)
					return SV{Ite(Eq(mt, Null), Zero, e.mapLen(env.st, mt, m)), I}
				}
				if a, ok := v.t.Underlying().(*types.Array); ok {
					return SV{Num(a.Len()), I}
				}
			}
			t := e.tm(env, v)
			if t.sort == SStr {
				return SV{StrLen(t), I}
			}
			if t.sort == SSlc {
				return SV{SLen(t), I}
			}
			badspec(env, "len of %s", t.sort)
		case "cap":
			if a := at(0); a.sort == SSlc {
				return SV{SCap(a), I}
			}
			return SV{Select(e.heap(env.st, "$chancap", SArr(SRef, SInt)), at(0)), I}
		case "off", "offset":
			return SV{SOff(at(0)), I}
		case "arr":
			return SV{SArrOf(at(0)), nil}
		case "row":
			v := arg(0)
			et := v.t.Underlying().(*types.Slice).Elem()
			return SV{Select(e.heap(env.st, "E:"+heapTypeKey(et), SArr(SRef, SArr(SInt, sortOf(et)))), SArrOf(e.tm(env, v))), nil}
		case "rowat":
			// rowat(T, ref)
			t := e.goType(env, args[0].s)
			return SV{Select(e.heap(env.st, "E:"+heapTypeKey(t), SArr(SRef, SArr(SInt, sortOf(t)))), at(1)), nil}
		case "str":
			v := arg(0)
			if t := e.tm(env, v); t.sort == SStr {
				return v
			}
			s := e.tm(env, v)
			row := Select(e.heap(env.st, "E:uint8", SArr(SRef, SArr(SInt, SInt))), SArrOf(s))
			return SV{BStr(row, SOff(s), SLen(s)), types.Typ[types.String]}
		case "bstr":
			return SV{BStr(at(0), at(1), at(2)), types.Typ[types.String]}
		case "dom":
			v := arg(0)
			return SV{e.mapDom(env.st, e.tm(env, v), v.t.Underlying().(*types.Map)), nil}
		case "vals":
			v := arg(0)
			return SV{e.mapVals(env.st, e.tm(env, v), v.t.Underlying().(*types.Map)), nil}
		case "fresh":
			t := at(0)
			if t.sort == SSlc {
				t = SArrOf(t)
			}
			base := e.run.alloc0
			if env.old != nil {
				base = env.old.alloc
			}
			return SV{Le(base, RefID(t)), B}
		case "isroot":
			// the array (or object) is not a part of another object
			t := at(0)
			if t.sort == SSlc {
				t = SArrOf(t)
			}
			return SV{Eq(RefPath(t), PNil), B}
		case "allocated":
			t := at(0)
			if t.sort == SSlc {
				t = SArrOf(t)
			}
			return SV{And(Neq(RefID(t), Zero), Lt(RefID(t), env.st.alloc)), B}
		case "newer":
			// newer(a, b): a allocated after... identifiers order
			return SV{Lt(RefID(at(1)), RefID(at(0))), B}
		case "refid":
			t := at(0)
			if t.sort == SSlc {
				t = SArrOf(t)
			}
			return SV{RefID(t), I}
		case "disjoint":
			return SV{Neq(SArrOf(at(0)), SArrOf(at(1))), B}
		case "held":
			v := arg(0)
			return SV{Select(e.heap(env.st, "$lock", SArr(SRef, SInt)), e.locRef(env, v)), I}
		case "sent":
			return SV{Select(e.heap(env.st, "$sent", SArr(SRef, SInt)), at(0)), I}
		case "recvd":
			return SV{Select(e.heap(env.st, "$recvd", SArr(SRef, SInt)), at(0)), I}
		case "closed":
			return SV{Select(e.heap(env.st, "$closed", SArr(SRef, SBool)), at(0)), B}
		case "ref":
			if args[0].op == "id" && env.fr != nil {
				// a local variable of struct type
				for f := env.fr; f != nil; f = f.parent {
					if r := e.localStruct(env, f, args[0].s); r != nil {
						return SV{r, nil}
					}
				}
			}
			return SV{e.locRef(env, arg(0)), nil}
		case "addr":
			a := e.evalAddr(env, args[0])
			return SV{a.ref, types.NewPointer(a.typ)}
		case "errid":
			return SV{App("errid", SInt, at(0)), I}
		case "isType":
			t := e.goType(env, typeExprString(args[1]))
			if t == nil {
				badspec(env, "type %s", args[1])
			}
			return SV{e.typeIs(at(0), t), B}
		case "public":
			// public(v, T, "name"): the JSON text of v (an interface value) cannot hold the
			// contents of a T; decided on the type of v where it is known
			t := e.goType(env, typeExprString(args[1]))
			if t == nil {
				badspec(env, "type %s", args[1])
			}
			v := at(0)
			tag := args[2].s
			known := func(id string, bt types.Type) {
				c := False
				if publicJSON(bt, t, tag, false, map[types.Type]bool{}) {
					c = True
				}
				env.st.assume(Eq(App("public:"+typeKey(t), SBool, e.typeID(bt)), c))
			}
			for _, m := range []map[string]types.Type{boxTypes, e.ifaceTypes} {
				for _, k := range sortedTypes(m) {
					known(k, m[k])
				}
			}
			return SV{App("public:"+typeKey(t), SBool, App("itype", SInt, v)), B}
		case "unbox":
			t := e.goType(env, typeExprString(args[1]))
			if t == nil {
				badspec(env, "type %s", args[1])
			}
			return SV{e.unbox(env.st, at(0), t), t}
		case "box":
			v := arg(0)
			return SV{e.makeIface(env.st, v.v, v.t), nil}
		case "min":
			a, b := at(0), at(1)
			return SV{Ite(Le(a, b), a, b), I}
		case "max":
			a, b := at(0), at(1)
			return SV{Ite(Le(b, a), a, b), I}
		case "int", "uint32", "uint64", "uint", "byte", "uint8", "rune", "int64":
			if len(args) == 1 {
				return SV{at(0), I}
			}
		case "pow2":
			return SV{pow2(int(at(0).num.Int64())), I}
		case "sprintf":
			return SV{e.sprintf(env, args[0], args[1]), types.Typ[types.String]}
		case "dec":
			return SV{App("dec", SStr, at(0)), types.Typ[types.String]}
		case "rune2str":
			return SV{App("rune2str", SStr, at(0)), types.Typ[types.String]}
		case "runes2str":
			// runes2str(slice of runes)
			v := arg(0)
			sl := e.tm(env, v)
			row := Select(e.heap(env.st, "E:"+heapTypeKey(v.t.Underlying().(*types.Slice).Elem()), SArr(SRef, SArr(SInt, SInt))), SArrOf(sl))
			return SV{App("runes2str", SStr, row, SOff(sl), SLen(sl)), types.Typ[types.String]}
		case "concat":
			return SV{StrCat(at(0), at(1)), types.Typ[types.String]}
		case "ite":
			c := e.evalFormula(env, args[0])
			a, b := arg(1), arg(2)
			x, y := e.coerce2(env, &a, &b)
			return SV{Ite(c, x, y), a.t}
		case "upd":
			return SV{Store(at(0), at(1), at(2)), nil}
		case "app":
			// a Go function modelled as uninterpreted: app("name", sort, args...)
			s, t := e.specType(env, args[1].s)
			var ts []*Term
			for _, a := range args[2:] {
				ts = append(ts, e.tm(env, e.eval(env, a)))
			}
			return SV{App("uf:"+args[0].s, s, ts...), t}
		}
		if fd := e.specs.funcs[f.s]; fd != nil {
			if fd.pred != nil {
				if len(fd.names) != len(args) {
					badspec(env, "predicate %s wants %d arguments", fd.name, len(fd.names))
				}
				if env.depth > 40 {
					badspec(env, "recursive predicate %s", fd.name)
				}
				n := *env
				n.depth++
				n.vars = map[string]SV{}
				n.ents = nil
				n.fr = nil
				n.pkg = fd.pkg
				for i, nm := range fd.names {
					n.vars[nm] = arg(i)
				}
				return e.eval(&n, fd.pred)
			}
			need(len(fd.args))
			fenv := *env
			fenv.pkg = fd.pkg
			rs, rt := e.specType(&fenv, fd.ret)
			var ts []*Term
			for i := range args {
				t := e.tm(env, e.nilTo(env, arg(i), &fenv, fd.args[i].typ))
				if s, _ := e.specType(&fenv, fd.args[i].typ); s != t.sort {
					badspec(env, "argument %d of %s has sort %s, want %s", i+1, fd.name, t.sort, s)
				}
				ts = append(ts, t)
			}
			return SV{App("sf:"+fd.name, rs, ts...), rt}
		}
	}
	badspec(env, "unknown function %s", f)
	return SV{}
}

// carryFacts: well-formedness facts about values read in another state.
func carryFacts(to, from, base *State) {
	var fs []*Term
	for f := from.facts; f != nil && f != base.facts; f = f.prev {
		fs = append(fs, f.t)
	}
	for _, f := range fs {
		to.assume(f)
	}
}

func (e *Engine) nilTo(env *Env, v SV, fenv *Env, typ string) SV {
	if v.v == nilMark {
		s, t := e.specType(fenv, typ)
		return SV{zeroTerm(s), t}
	}
	return v
}

func typeExprString(x *Expr) string {
	if x.op == "un" && x.s == "*" {
		return "*" + typeExprString(x.args[0])
	}
	if x.op == "sel" {
		return typeExprString(x.args[0]) + "." + x.s
	}
	return x.s
}

// publicJSON: can no JSON text of a value of type t hold the contents of a secret (a value of
// type sec, or of a field whose JSON name is tag and which does not serialise itself)?
func publicJSON(t, sec types.Type, tag string, addr bool, seen map[types.Type]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	t = types.Unalias(t)
	if types.Identical(t, sec) {
		return false
	}
	if marshals(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if types.Identical(u.Elem(), sec) {
			return marshals(t)
		}
		return publicJSON(u.Elem(), sec, tag, true, seen)
	case *types.Slice:
		return publicJSON(u.Elem(), sec, tag, true, seen)
	case *types.Array:
		return publicJSON(u.Elem(), sec, tag, addr, seen)
	case *types.Map:
		return publicJSON(u.Elem(), sec, tag, false, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			name := strings.Split(reflect.StructTag(u.Tag(i)).Get("json"), ",")[0]
			if !f.Exported() && !f.Embedded() || name == "-" {
				continue
			}
			if name == tag {
				if p, ok := f.Type().Underlying().(*types.Pointer); ok {
					if !(types.Identical(p.Elem(), sec) && marshals(f.Type())) {
						// a map of such pointers is the other allowed form
						return false
					}
					continue
				}
			}
			if !publicJSON(f.Type(), sec, tag, addr, seen) {
				return false
			}
		}
	case *types.Interface:
		return false
	}
	return true
}

func sortedTypes(m map[string]types.Type) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// marshals: has the type its own JSON encoding?
func marshals(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if n := ms.At(i).Obj().Name(); n == "MarshalJSON" || n == "MarshalText" {
			return true
		}
	}
	return false
}

// freeze: a struct place evaluated in another state must be read there.
func (e *Engine) freeze(env *Env, v SV) SV {
	if sl, ok := v.v.(*structLoc); ok {
		return SV{e.load(env.st, &Addr{ref: sl.ref, typ: v.t}, ""), v.t}
	}
	return v
}

func (e *Engine) locRef(env *Env, v SV) *Term {
	switch y := v.v.(type) {
	case *structLoc:
		return y.ref
	case *Term:
		return y
	case *Addr:
		return y.ref
	}
	badspec(env, "no location")
	return nil
}

// ---------- places (modifies clauses) ----------

func (e *Engine) evalAddr(env *Env, x *Expr) *Addr {
	switch x.op {
	case "sel":
		v := e.eval(env, x.args[0])
		path := e.fieldPath(env, v.t, x.s)
		for k, i := range path {
			if k < len(path)-1 {
				v = e.selField(env, v, v.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(i).Name())
				continue
			}
			var fa Val
			var ft types.Type
			if p, ok := v.t.Underlying().(*types.Pointer); ok {
				ft = p.Elem().Underlying().(*types.Struct).Field(i).Type()
				fa = e.fieldAddr(e.tm(env, v), p.Elem(), i)
			} else if sl, ok := v.v.(*structLoc); ok {
				ft = v.t.Underlying().(*types.Struct).Field(i).Type()
				fa = e.fieldAddr(sl.ref, v.t, i)
			} else {
				badspec(env, "address of %s", x)
			}
			return e.addrOf(fa, ft)
		}
	}
	badspec(env, "address of %s", x)
	return nil
}

// evalAssumed is evalBool for a postcondition assumed at a call; one that speaks of the
// moment the callee held a lock tells the caller nothing.
func (e *Engine) evalAssumed(env *Env, c *Clause) (t *Term) {
	if c.e.uses("locked") || c.e.uses("decoded") {
		return True
	}
	return e.evalBool(env, c)
}

func (x *Expr) uses(f string) bool {
	if x == nil {
		return false
	}
	if x.op == "call" && len(x.args) > 0 && x.args[0].op == "id" && x.args[0].s == f {
		return true
	}
	for _, a := range x.args {
		if a.uses(f) {
			return true
		}
	}
	return false
}

func (e *Engine) evalPlaces(env *Env, x *Expr) []place {
	if x.op == "call" && x.args[0].op == "id" {
		switch x.args[0].s {
		case "elems":
			v := e.eval(env, x.args[1])
			et := v.t.Underlying().(*types.Slice).Elem()
			if isStruct(et) {
				// any field of any element: whole heaps
				var out []place
				for _, p := range e.places(Null, et) {
					out = append(out, place{p.key, nil, p.s})
				}
				return out
			}
			return []place{{"E:" + heapTypeKey(et), SArrOf(e.tm(env, v)), SArr(SInt, sortOf(et))}}
		case "mapof":
			v := e.eval(env, x.args[1])
			mt := v.t.Underlying().(*types.Map)
			kd, kv, kl := mapKeys(mt)
			m := e.tm(env, v)
			ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
			return []place{{kd, m, SArr(ks, SBool)}, {kv, m, SArr(ks, vs)}, {kl, m, SInt}}
		case "all":
			// all(T.f)
			y := x.args[1]
			if y.op == "sel" {
				t := e.goType(env, typeExprString(y.args[0]))
				if t == nil {
					badspec(env, "type %s", y.args[0])
				}
				s := t.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == y.s {
						a, ok := e.fieldAddr(Null, t, i).(*Addr)
						if !ok {
							var out []place
							for _, p := range e.places(Null, s.Field(i).Type()) {
								out = append(out, place{p.key, nil, p.s})
							}
							return out
						}
						return []place{{a.hk, nil, sortOf(s.Field(i).Type())}}
					}
				}
				badspec(env, "no field %s", y.s)
			}
		case "allelems":
			t := e.goType(env, typeExprString(x.args[1]))
			return []place{{"E:" + heapTypeKey(t), nil, SArr(SInt, sortOf(t))}}
		case "allcells":
			t := e.goType(env, typeExprString(x.args[1]))
			return []place{{"C:" + heapTypeKey(t), nil, sortOf(t)}}
		case "chan":
			if x.args[1].op == "id" && x.args[1].s == "any" {
				return []place{{"$sent", nil, SInt}, {"$recvd", nil, SInt}}
			}
			v := e.tm(env, e.eval(env, x.args[1]))
			return []place{{"$sent", v, SInt}, {"$recvd", v, SInt}}
		case "closing":
			v := e.tm(env, e.eval(env, x.args[1]))
			return []place{{"$closed", v, SBool}}
		case "lock":
			v := e.eval(env, x.args[1])
			return []place{{"$lock", e.locRef(env, v), SInt}}
		}
	}
	if x.op == "id" && strings.HasPrefix(x.s, "$") {
		s, _ := e.specType(env, e.specs.ghosts[x.s])
		return []place{{x.s, nil, s}}
	}
	if x.op == "un" && x.s == "*" {
		v := e.eval(env, x.args[0])
		p, ok := v.t.Underlying().(*types.Pointer)
		if !ok {
			badspec(env, "modifies %s: not a pointer", x)
		}
		if a, ok := v.v.(*Addr); ok {
			return e.addrPlaces(a)
		}
		return e.places(e.tm(env, v), p.Elem())
	}
	if x.op == "sel" {
		return e.addrPlaces(e.evalAddr(env, x))
	}
	if x.op == "id" {
		// captured variable or global
		if env.fr != nil {
			for i, f := range env.fr.fn.FreeVars {
				if f.Name() == x.s {
					return e.places(e.term(env.fr.free[i], nil), f.Type().Underlying().(*types.Pointer).Elem())
				}
			}
		}
		if v, ok := env.vars["&"+x.s]; ok {
			return e.places(v.v.(*Term), v.t)
		}
		if p := e.pkgs[env.pkg]; p != nil {
			if g, ok := p.Members[x.s].(*ssa.Global); ok {
				return e.places(e.globalAddr(g).(*Term), g.Type().(*types.Pointer).Elem())
			}
		}
	}
	badspec(env, "modifies %s", x)
	return nil
}

func (e *Engine) addrPlaces(a *Addr) []place {
	if a.hk == "" || isStruct(a.typ) {
		return e.places(a.ref, a.typ)
	}
	return []place{{a.hk, a.ref, sortOf(a.typ)}}
}

// ---------- axioms ----------

// axiomFor translates an axiom or lemma; deps are the specification functions in it.
func (e *Engine) axiomFor(name string) *axiom {
	if a, ok := e.axiomTerms[name]; ok {
		return a
	}
	ad := e.specs.axioms[name]
	if ad == nil {
		unsup("unknown lemma %s", name)
	}
	st := &State{cells: map[cellKey]Val{}, heaps: map[string]*Term{}, ghosts: map[string]*Term{}, alloc: Const("alloc@0", SInt), defers: map[int][]*deferred{}}
	env := &Env{e: e, st: st, vars: map[string]SV{}, pkg: ad.pkg, where: "axiom " + name}
	save := e.run
	e.run = &FuncRun{key: "axiom " + name, pkg: ad.pkg, alloc0: st.alloc}
	t := e.evalFormula(env, ad.e)
	e.run = save
	a := &axiom{name: name, t: t}
	m := map[string]bool{}
	collectSyms(t, m)
	for k := range m {
		a.deps = append(a.deps, k)
	}
	sort.Strings(a.deps)
	e.axiomTerms[name] = a
	return a
}

func collectSyms(t *Term, out map[string]bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.kind == kApp && !builtinOps[t.op] && !strings.HasPrefix(t.op, "(") {
			out[t.op] = true
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

// patTerm reduces a term to a part which may be used as a pattern: the value of
// a map lookup, the membership of a key.
func patTerm(t *Term) *Term {
	for {
		switch {
		case t.op == "ite" && len(t.args) == 3:
			t = t.args[1]
		case t.op == "and" && len(t.args) > 0:
			t = t.args[len(t.args)-1]
		default:
			return t
		}
	}
}

// sprintf is the text a format gives: %s and %d of strings and integers are
// rendered, everything else is an arbitrary function of the argument.
func (e *Engine) sprintf(env *Env, fx, ax *Expr) *Term {
	f := e.tm(env, e.eval(env, fx))
	lit, ok := strLits[f]
	if !ok {
		return Fresh("formatted", SStr)
	}
	r := StrLit("")
	n := 0
	for i := 0; i < len(lit); i++ {
		if lit[i] != '%' {
			r = StrCat(r, StrLit(lit[i:i+1]))
			continue
		}
		j := i + 1
		for j < len(lit) && strings.IndexByte("+-# 0123456789.*[]", lit[j]) >= 0 {
			j++
		}
		if j >= len(lit) {
			return Fresh("formatted", SStr)
		}
		if lit[j] == '%' {
			r = StrCat(r, StrLit("%"))
			i = j
			continue
		}
		arg := e.tm(env, e.eval(env, &Expr{op: "idx", args: []*Expr{ax, {op: "lit", s: fmt.Sprint(n)}}}))
		n++
		part := App("fmtarg", SStr, StrLit(lit[i:j+1]), arg)
		if lit[i:j+1] == "%s" || lit[i:j+1] == "%v" {
			part = Ite(e.typeIs(arg, types.Typ[types.String]), e.unbox(env.st, arg, types.Typ[types.String]).(*Term), part)
		}
		if lit[i:j+1] == "%d" || lit[i:j+1] == "%v" {
			part = Ite(e.typeIs(arg, types.Typ[types.Int]), App("dec", SStr, e.unbox(env.st, arg, types.Typ[types.Int]).(*Term)), part)
		}
		r = StrCat(r, part)
		i = j
	}
	return r
}
