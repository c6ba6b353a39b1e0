package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fnKey is the name under which contracts are attached.
func (e *Engine) fnKey(fn *ssa.Function) string {
	if k, ok := e.keys[fn]; ok {
		return k
	}
	k := e.fnKey1(fn)
	e.keys[fn] = k
	return k
}

func (e *Engine) fnKey1(fn *ssa.Function) string {
	if fn.Parent() != nil {
		// closures are numbered in source order by go/ssa: parent$1
		return e.fnKey(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	pk := ""
	if fn.Pkg != nil {
		pk = shortPkg(fn.Pkg.Pkg.Path())
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = shortPkg(fn.Object().Pkg().Path())
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			if n, ok := types.Unalias(p.Elem()).(*types.Named); ok {
				return pk + ".(*" + n.Obj().Name() + ")." + fn.Name()
			}
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pk + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	return pk + "." + fn.Name()
}

// lookup: the contract of a function; a package's own assumed contracts come first.
func (e *Engine) lookup(key string) *Contract {
	if e.run != nil {
		if c := e.specs.local[e.run.pkg+"|"+key]; c != nil {
			return c
		}
	}
	return e.specs.contracts[key]
}

func (e *Engine) contractOf(fn *ssa.Function) *Contract {
	k := e.fnKey(fn)
	if c := e.lookup(k); c != nil {
		return c
	}
	if o := fn.Origin(); o != nil && o != fn {
		if c := e.lookup(e.fnKey(o)); c != nil {
			return c
		}
	}
	return nil
}

func packRes(res []Val) Val {
	switch len(res) {
	case 0:
		return nil
	case 1:
		return res[0]
	}
	return &TupleVal{res}
}

func (e *Engine) doCall(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, k func(*State, Val)) {
	var fv Val
	if c.IsInvoke() {
		fv = e.val(fr, st, c.Value)
	} else {
		fv = e.val(fr, st, c.Value)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(fr, st, a))
	}
	e.callVals(fr, st, in, c, fv, args, k)
}

func (e *Engine) callVals(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, fv Val, args []Val, k func(*State, Val)) {
	pos := e.pos(in.Pos())
	if c.IsInvoke() {
		e.invoke(fr, st, in, c, fv, args, pos, k)
		return
	}
	if t, ok := fv.(*Term); ok {
		if f, ok := funcTerms[t]; ok {
			fv = f
		} else {
			// a function value of unknown origin
			if key := funcFrom[t]; key != "" {
				if ct := e.lookup(key); ct != nil {
					e.nonnil(st, t, pos, "called function")
					e.callee = t
					e.contractCall(fr, st, ct, key, c.Signature(), args, pos, k)
					return
				}
			}
			if u, ok := c.Value.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					key := fieldKey(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)
					if ct := e.lookup(key); ct != nil {
						e.contractCall(fr, st, ct, key, c.Signature(), args, pos, k)
						return
					}
				}
				if g, ok := u.X.(*ssa.Global); ok {
					if ct := e.lookup(globalName(g)); ct != nil {
						e.contractCall(fr, st, ct, globalName(g), c.Signature(), args, pos, k)
						return
					}
				}
				if fr2 := fr; fr2 != nil {
					if nm := cellName(u.X); nm != "" && e.run.c != nil {
						if cb := e.run.c.cbs[nm]; cb != nil {
							e.callbackCall(fr, st, cb, c.Signature(), args, pos, k)
							return
						}
					}
				}
			}
			unsup("%s: call of an unknown function value", pos)
		}
	}
	f, ok := fv.(*FuncVal)
	if !ok {
		unsup("call of %T", fv)
	}
	switch {
	case f.builtin != "":
		e.builtin(fr, st, in, c, f.builtin, args, pos, k)
	case f.cb != nil:
		e.callbackCall(fr, st, f.cb, c.Signature(), args, pos, k)
	case f.fn != nil:
		e.callFn(fr, st, in, f.fn, f.bindings, args, pos, k)
	default:
		unsup("call of an unknown function")
	}
}

func cellName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x.Comment
	case *ssa.FreeVar:
		return x.Name()
	}
	return ""
}

func (e *Engine) callFn(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, bindings, args []Val, pos string, k func(*State, Val)) {
	key := e.fnKey(fn)
	if m := e.native(key); m != nil {
		m(e, fr, st, in, args, pos, k)
		return
	}
	if c := e.contractOf(fn); c != nil {
		if len(c.cbs) > 0 {
			e.iterCall(fr, st, in, c, fn, args, pos, k)
			return
		}
		if len(bindings) > 0 && !c.trusted {
			// a closure under contract: its captured variables are named in the contract
			e.contractCallB(fr, st, c, key, fn.Signature, fn, bindings, args, pos, k)
			return
		}
		e.contractCallB(fr, st, c, key, fn.Signature, fn, nil, args, pos, k)
		return
	}
	// bound method wrappers, thunks, closures and repository functions are inlined
	if len(fn.Blocks) == 0 || !e.inRepo(fn) && fn.Synthetic == "" {
		unsup("%s: call of %s, which has no contract", pos, key)
	}
	if strings.HasPrefix(fn.Synthetic, "bound method wrapper") || strings.HasPrefix(fn.Synthetic, "wrapper") || e.inRepo(fn) {
		e.inlineCall(fr, st, in, fn, bindings, args, pos, k)
		return
	}
	unsup("%s: call of %s, which has no contract", pos, key)
}

func (e *Engine) inlineCall(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, bindings, args []Val, pos string, k func(*State, Val)) {
	depth := 0
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			unsup("%s: recursive call of %s, which has no contract", pos, e.fnKey(fn))
		}
		depth++
	}
	if depth > 12 {
		unsup("inlining too deep at %s", e.fnKey(fn))
	}
	e.inlined[e.fnKey(fn)] = true
	f2 := e.newFrame(fn, fr)
	f2.free = bindings
	f2.args = args
	f2.ordBase = fr.ordBase + e.frameNums(fr).calls[in]
	if e.merging() {
		var as []*arrival
		regs := copyRegs(fr)
		f2.ret = func(st *State, res []Val) { as = append(as, &arrival{st, res}) }
		e.execBlock(f2, fn.Blocks[0], nil, st)
		for _, a := range e.mergeArrivals(as) {
			restoreRegs(fr, regs)
			regs = copyRegs(fr)
			k(a.st, packRes(a.vals))
		}
		return
	}
	f2.ret = func(st *State, res []Val) { k(st, packRes(res)) }
	e.execBlock(f2, fn.Blocks[0], nil, st)
}

// ---------- contract calls ----------

func (e *Engine) contractCall(fr *Frame, st *State, c *Contract, key string, sig *types.Signature, args []Val, pos string, k func(*State, Val)) {
	e.contractCallB(fr, st, c, key, sig, nil, nil, args, pos, k)
}

func (e *Engine) paramNames(c *Contract, sig *types.Signature, nargs int) ([]string, []types.Type) {
	var names []string
	var ts []types.Type
	if r := sig.Recv(); r != nil && nargs == sig.Params().Len()+1 {
		names = append(names, r.Name())
		ts = append(ts, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		names = append(names, sig.Params().At(i).Name())
		ts = append(ts, sig.Params().At(i).Type())
	}
	if len(c.params) > 0 || nargs == 0 {
		if len(c.params) != len(names) {
			unsup("contract of %s has %d parameters, the function has %d", c.key, len(c.params), len(names))
		}
		names = c.params
	}
	return names, ts
}

func (e *Engine) resNames(c *Contract, sig *types.Signature) []string {
	n := sig.Results().Len()
	if len(c.results) > 0 {
		if len(c.results) != n {
			unsup("contract of %s has %d results, the function has %d", c.key, len(c.results), n)
		}
		return c.results
	}
	var out []string
	for i := 0; i < n; i++ {
		nm := sig.Results().At(i).Name()
		if nm == "" {
			nm = fmt.Sprintf("result%d", i)
		}
		out = append(out, nm)
	}
	return out
}

func (e *Engine) bindCall(c *Contract, sig *types.Signature, fn *ssa.Function, bindings, args []Val) (map[string]SV, []string, []types.Type) {
	names, ts := e.paramNames(c, sig, len(args))
	vars := map[string]SV{}
	for i, n := range names {
		vars[n] = SV{args[i], ts[i]}
	}
	return vars, names, ts
}

func (e *Engine) contractCallB(fr *Frame, st *State, c *Contract, key string, sig *types.Signature, fn *ssa.Function, bindings, args []Val, pos string, k func(*State, Val)) {
	e.noteUse(c)
	vars, names, ts := e.bindCall(c, sig, fn, bindings, args)
	env := &Env{e: e, st: st, vars: vars, pkg: e.specPkg(c, fn), where: c.key}
	if fn != nil && len(bindings) > 0 {
		cf := &Frame{fn: fn, regs: map[ssa.Value]Val{}, free: bindings, args: args}
		cf.root = cf
		env.fr = cf
	}
	e.checkPre(st, c, env, names, ts, args, pos)
	if c.noreturn {
		return
	}
	pre := st.clone()
	env.old = pre
	for _, l := range c.lets {
		env.vars[l.name] = e.eval(env, l.e)
	}
	e.applyModifies(st, c, env, c.mod, pos)
	e.finishCall(fr, st, c, env, sig, pos, k)
}

func (e *Engine) specPkg(c *Contract, fn *ssa.Function) string {
	if c.pkg != "" {
		return c.pkg
	}
	if i := strings.Index(c.key, ".("); i >= 0 {
		return c.key[:i]
	}
	if i := strings.LastIndexByte(c.key, '/'); i >= 0 {
		if j := strings.IndexByte(c.key[i:], '.'); j >= 0 {
			return c.key[:i+j]
		}
	}
	if j := strings.IndexByte(c.key, '.'); j >= 0 {
		return c.key[:j]
	}
	return e.run.pkg
}

func (e *Engine) noteUse(c *Contract) {
	if c.trusted {
		e.usedTrusted[c.key] = c.why
	} else if c.noverify {
		e.usedTrusted[c.key] = "bounded check only: " + c.why
	} else {
		e.usedContracts[c.key] = true
	}
}

func (e *Engine) checkPre(st *State, c *Contract, env *Env, names []string, ts []types.Type, args []Val, pos string) {
	for i, n := range names {
		if c.nilable[n] {
			continue
		}
		if _, isP := ts[i].Underlying().(*types.Pointer); isP {
			if t, ok := args[i].(*Term); ok {
				g := Neq(t, Null)
				if t.op == "mkref" {
					if t.args[0].kind == kNum || freshIDs[t.args[0]] > 0 {
						g = True
					} else {
						g = Neq(RefID(t), Zero)
					}
				}
				if g != True {
					if known, v := e.knownCond(st, g); !known || !v {
						e.oblige(st, "nil", "argument "+n+" of "+c.key, pos, g, nil)
					}
				}
			}
		}
	}
	for _, r := range c.req {
		g := e.evalBool(env, r)
		e.oblige(st, "requires", c.key+":"+clauseName(r), pos, g, r.props)
		st.assume(g)
	}
}

// isolated: the callee's package imports no package of this repository which
// keeps ghost state, and no argument lets it call back.
func (e *Engine) isolated(c *Contract, env *Env) bool {
	for _, v := range env.vars {
		if v.t == nil {
			continue
		}
		switch v.t.Underlying().(type) {
		case *types.Interface, *types.Signature:
			return false
		}
	}
	p := e.typePkgs[e.specPkg(c, nil)]
	if p == nil {
		return false
	}
	for _, q := range p.Imports() {
		if strings.HasPrefix(q.Path(), repoPrefix) {
			return false
		}
	}
	for _, pk := range e.specs.aux {
		if contains(pk, e.specPkg(c, nil)) {
			return false
		}
	}
	return true
}

func (e *Engine) applyModifies(st *State, c *Contract, env *Env, mod []*Expr, pos string) {
	if c.modAll {
		unsup("call of %s, which modifies everything", c.key)
	}
	menv := *env
	menv.st = env.st
	var ps []place
	for _, m := range mod {
		ps = append(ps, e.evalPlaces(&menv, m)...)
	}
	if !c.pure {
		e.bumpAlloc(st)
	}
	if !c.ext && !c.pure && !e.isolated(c, env) {
		for _, g := range sortedKeys(e.specs.aux) {
			if !contains(e.specs.aux[g], e.specPkg(c, nil)) {
				s, _ := e.specType(env, e.specs.ghosts[g])
				e.ghost(st, g, s)
				e.setGhost(st, g, Fresh(g, s))
			}
		}
	}
	for _, p := range ps {
		if strings.HasPrefix(p.key, "$") && p.ref == nil {
			if _, ok := e.specs.ghosts[p.key]; ok {
				e.ghost(st, p.key, p.s)
				e.setGhost(st, p.key, Fresh(p.key, p.s))
				continue
			}
		}
		if p.ref == nil {
			e.frameCheck(st, p.key, nil, pos)
			h := e.heap(st, p.key, SArr(SRef, p.s))
			e.setHeap(st, p.key, nil, regHeap(Fresh("h_"+p.key, h.sort), st.alloc))
			continue
		}
		e.frameCheck(st, p.key, p.ref, pos)
		h := e.heap(st, p.key, SArr(SRef, p.s))
		x := Fresh("m_"+p.key, p.s)
		e.setHeap(st, p.key, p.ref, Store(h, p.ref, x))
	}
	if !c.pure {
		e.bumpAlloc(st)
	}
	for _, p := range ps {
		if p.ref != nil && !strings.HasPrefix(p.key, "$") {
			st.assume(e.heapValFact(p.key, Select(st.heaps[p.key], p.ref), st))
		}
	}
}

func (e *Engine) finishCall(fr *Frame, st *State, c *Contract, env *Env, sig *types.Signature, pos string, k func(*State, Val)) {
	var res []Val
	rn := e.resNames(c, sig)
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := e.freshVal(st, t, "r_"+shortName(c.key))
		res = append(res, v)
		env.vars[rn[i]] = SV{v, t}
	}
	if len(res) == 1 {
		env.vars["result"] = SV{res[0], sig.Results().At(0).Type()}
	}
	for _, q := range c.ens {
		st.assume(e.evalAssumed(env, q))
	}
	if st.dead {
		return
	}
	k(st, packRes(res))
}

func shortName(k string) string {
	if i := strings.LastIndexByte(k, '.'); i >= 0 {
		return k[i+1:]
	}
	return k
}

// ---------- interface calls ----------

func (e *Engine) invoke(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, fv Val, args []Val, pos string, k func(*State, Val)) {
	recv := e.term(fv, c.Value.Type())
	if bt, ok := boxTypes[recv.op]; ok && strings.HasPrefix(recv.op, "box:") {
		ms := e.prog.MethodSets.MethodSet(bt)
		if sel := ms.Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
			fn := e.prog.MethodValue(sel)
			if fn != nil {
				e.callFn(fr, st, in, fn, nil, append([]Val{recv.args[0]}, args...), pos, k)
				return
			}
		}
	}
	it := types.Unalias(c.Value.Type())
	name := ""
	if n, ok := it.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			name = shortPkg(n.Obj().Pkg().Path()) + "."
		}
		name += n.Obj().Name()
	} else {
		name = typeKey(it)
	}
	key := name + "." + c.Method.Name()
	e.oblige(st, "nil", "interface receiver of "+key, pos, Neq(recv, NilIface), nil)
	st.assume(Neq(recv, NilIface))
	ct := e.lookup(key)
	if ct == nil {
		// the interface which declares the method
		if r := c.Method.Type().(*types.Signature).Recv(); r != nil {
			if n, ok := types.Unalias(r.Type()).(*types.Named); ok && n.Obj().Pkg() != nil {
				ct = e.lookup(shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name() + "." + c.Method.Name())
			}
		}
	}
	if ct == nil {
		unsup("%s: interface call %s, which has no contract", pos, key)
	}
	sig := c.Method.Type().(*types.Signature)
	e.noteUse(ct)
	names := ct.params
	if len(names) != sig.Params().Len()+1 {
		unsup("contract of %s has %d parameters", key, len(names))
	}
	vars := map[string]SV{names[0]: {recv, c.Value.Type()}}
	ts := []types.Type{c.Value.Type()}
	for i := 0; i < sig.Params().Len(); i++ {
		vars[names[i+1]] = SV{args[i], sig.Params().At(i).Type()}
		ts = append(ts, sig.Params().At(i).Type())
	}
	env := &Env{e: e, st: st, vars: vars, pkg: e.specPkg(ct, nil), where: key}
	e.checkPre(st, ct, env, names, ts, append([]Val{recv}, args...), pos)
	if ct.noreturn {
		return
	}
	env.old = st.clone()
	e.applyModifies(st, ct, env, ct.mod, pos)
	e.finishCall(fr, st, ct, env, sig, pos, k)
}

// ---------- callbacks ----------

// callbackCall: the function under verification calls one of its callback parameters.
func (e *Engine) callbackCall(fr *Frame, st *State, cb *Callback, sig *types.Signature, args []Val, pos string, k func(*State, Val)) {
	env := e.cbEnv(st, cb, sig, args)
	for _, r := range cb.req {
		e.oblige(st, "callback", cb.param+":"+clauseName(r), pos, e.evalBool(env, r), r.props)
	}
	env.old = st.clone()
	for _, m := range cb.mod {
		for _, p := range e.evalPlaces(env, m) {
			e.havocPlace(st, p)
		}
	}
	e.bumpAlloc(st)
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := e.freshVal(st, t, "cb_"+cb.param)
		res = append(res, v)
		if i < len(cb.results) {
			env.vars[cb.results[i]] = SV{v, t}
		}
	}
	for _, q := range cb.ens {
		st.assume(e.evalBool(env, q))
	}
	if st.dead {
		return
	}
	k(st, packRes(res))
}

func (e *Engine) havocPlace(st *State, p place) {
	if e.isGhost(p) {
		e.ghost(st, p.key, p.s)
		e.setGhost(st, p.key, Fresh(p.key, p.s))
		return
	}
	h := e.heap(st, p.key, SArr(SRef, p.s))
	if p.ref == nil {
		e.setHeap(st, p.key, nil, regHeap(Fresh("h_"+p.key, h.sort), st.alloc))
		return
	}
	e.setHeap(st, p.key, p.ref, Store(h, p.ref, regHeap(Fresh("m_"+p.key, p.s), st.alloc)))
}

func (e *Engine) cbEnv(st *State, cb *Callback, sig *types.Signature, args []Val) *Env {
	vars := map[string]SV{}
	if len(cb.params) != sig.Params().Len() {
		unsup("callback %s has %d parameters", cb.param, sig.Params().Len())
	}
	for i, n := range cb.params {
		vars[n] = SV{args[i], sig.Params().At(i).Type()}
	}
	return &Env{e: e, st: st, vars: vars, ents: e.run.params, pkg: e.run.pkg, where: "callback " + cb.param}
}

// iterCall: a call which runs a callback any number of times; the callback's
// contract says with which arguments and how the callee's ghost state moves.
func (e *Engine) iterCall(fr *Frame, st *State, in ssa.Instruction, c *Contract, fn *ssa.Function, args []Val, pos string, k func(*State, Val)) {
	e.noteUse(c)
	vars, names, ts := e.bindCall(c, fn.Signature, fn, nil, args)
	env := &Env{e: e, st: st, vars: vars, pkg: e.specPkg(c, fn), where: c.key}
	e.checkPre(st, c, env, names, ts, args, pos)
	if len(c.cbs) != 1 {
		unsup("%s has several callbacks", c.key)
	}
	var cb *Callback
	for _, x := range c.cbs {
		cb = x
	}
	var fv Val
	for i, n := range names {
		if n == cb.param {
			fv = args[i]
		}
	}
	if t, ok := fv.(*Term); ok {
		if f, ok := funcTerms[t]; ok {
			fv = f
		}
	}
	f, ok := fv.(*FuncVal)
	if !ok || f.fn == nil {
		// forwarding our own callback parameter
		if e.run.c != nil {
			for _, mine := range e.run.c.cbs {
				if sv, ok := e.run.params[mine.param]; ok && sv.v == fv {
					e.forwardCall(fr, st, c, env, fn.Signature, cb, mine, pos, k)
					return
				}
			}
		}
		unsup("%s: the callback of %s is not known", pos, c.key)
	}
	// the callee's own writes happen before the first call
	env.old = st.clone()
	e.applyModifies(st, c, env, c.mod, pos)
	for _, g := range c.ghostIn {
		ge := *env
		ge.st = st
		e.ghost(st, g.name, e.ghostSort(&ge, g.name))
		e.setGhost(st, g.name, e.tm(&ge, e.nilTo(&ge, e.eval(&ge, g.e), &ge, e.specs.ghosts[g.name])))
	}
	l := &loopRun{fr: fr, pos: pos, ord: fr.ordBase + e.frameNums(fr).calls[in] + 1}
	sig := f.fn.Signature
	e.runLoop(l, st, func(s *State) {
		// the caller's registers belong to the state in front of the call
		e.paths++
		done := s.clone()
		regs := copyRegs(fr)
		// another call of the callback
		var cargs []Val
		cvars := map[string]SV{}
		for n, v := range vars {
			cvars[n] = v
		}
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			v := e.freshVal(s, t, "arg_"+cb.params[i])
			cargs = append(cargs, v)
			cvars[cb.params[i]] = SV{v, t}
		}
		ce := &Env{e: e, st: s, old: env.old, vars: cvars, pkg: e.specPkg(c, fn), where: "callback of " + c.key}
		for _, r := range cb.req {
			s.assume(e.evalBool(ce, r))
		}
		if !s.dead {
			e.callFn(fr, s, in, f.fn, f.bindings, cargs, pos, func(s2 *State, res Val) {
				var rs []Val
				if tv, ok := res.(*TupleVal); ok {
					rs = tv.vals
				} else if res != nil {
					rs = []Val{res}
				}
				ce2 := &Env{e: e, st: s2, old: env.old, vars: map[string]SV{}, pkg: ce.pkg, where: ce.where}
				for n, v := range cvars {
					ce2.vars[n] = v
				}
				for i, n := range cb.results {
					ce2.vars[n] = SV{rs[i], sig.Results().At(i).Type()}
				}
				e.cbUpdate(s2, cb, ce2)
				e.backEdge(fr, l, nil, s2)
			})
		}
		restoreRegs(fr, regs)
		// no further call
		if l.discover {
			return
		}
		for i := len(done.active) - 1; i >= 0; i-- {
			if done.active[i] == l {
				done.active = append(done.active[:i:i], done.active[i+1:]...)
			}
		}
		e.popLoopFrame(done, l)
		fe := &Env{e: e, st: done, old: env.old, vars: map[string]SV{}, pkg: ce.pkg, where: c.key}
		for n, v := range vars {
			fe.vars[n] = v
		}
		e.bumpAlloc(done)
		e.finishCall(fr, done, c, fe, fn.Signature, pos, k)
	})
}

func (e *Engine) ghostSort(env *Env, name string) Sort {
	ty, ok := e.specs.ghosts[name]
	if !ok {
		badspec(env, "unknown ghost %s", name)
	}
	s, _ := e.specType(env, ty)
	return s
}

// cbUpdate: the callee's ghost state moves according to the callback's ensures of the form $g == e
func (e *Engine) cbUpdate(st *State, cb *Callback, env *Env) {
	pre := st.clone()
	n := *env
	n.st = st
	n.pre = pre
	n.old = pre
	for _, m := range cb.mod {
		for _, p := range e.evalPlaces(&n, m) {
			e.havocPlace(st, p)
		}
	}
	for _, q := range cb.ens {
		st.assume(e.evalBool(&n, q))
	}
}

// forwardCall: our own callback parameter is handed to a callee with the same callback contract.
func (e *Engine) forwardCall(fr *Frame, st *State, c *Contract, env *Env, sig *types.Signature, theirs, mine *Callback, pos string, k func(*State, Val)) {
	same := len(theirs.req) == len(mine.req) && len(theirs.ens) == len(mine.ens) && len(theirs.params) == len(mine.params)
	if same {
		for i := range theirs.req {
			same = same && theirs.req[i].e.String() == mine.req[i].e.String()
		}
		for i := range theirs.ens {
			same = same && theirs.ens[i].e.String() == mine.ens[i].e.String()
		}
	}
	if !same {
		unsup("%s: callback handed on to %s under a different contract", pos, c.key)
	}
	env.old = st.clone()
	e.applyModifies(st, c, env, c.mod, pos)
	for _, m := range theirs.mod {
		for _, p := range e.evalPlaces(env, m) {
			e.havocPlace(st, p)
		}
	}
	e.finishCall(fr, st, c, env, sig, pos, k)
}

// ---------- builtins ----------

func (e *Engine) builtin(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, name string, args []Val, pos string, k func(*State, Val)) {
	tt := func(i int) *Term { return e.term(args[i], c.Args[i].Type()) }
	switch name {
	case "len":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			v := SLen(tt(0))
			st.assume(Le(Zero, v))
			k(st, v)
		case *types.Map:
			m := tt(0)
			n := e.mapLen(st, m, u)
			st.assume(Le(Zero, n))
			kb := Bound("k", sortOf(u.Key()))
			d := e.mapDom(st, m, u)
			st.assume(Implies(Eq(n, Zero), Quant("forall", []*Term{kb}, Not(Select(d, kb)), [][]*Term{{Select(d, kb)}})))
			k(st, Ite(Eq(m, Null), Zero, n))
		case *types.Basic:
			v := StrLen(tt(0))
			st.assume(Le(Zero, v))
			k(st, v)
		case *types.Array:
			k(st, Num(u.Len()))
		case *types.Chan:
			ch := tt(0)
			v := Fresh("chanlen", SInt)
			st.assume(Le(Zero, v))
			_ = ch
			k(st, v)
		default:
			unsup("len of %s", u)
		}
	case "cap":
		switch c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			k(st, SCap(tt(0)))
		case *types.Chan:
			k(st, Select(e.heap(st, "$chancap", SArr(SRef, SInt)), tt(0)))
		default:
			unsup("cap")
		}
	case "append":
		k(st, e.appendOp(st, c, args, pos))
	case "copy":
		e.copyOp(st, c, args, pos, k)
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m, key := tt(0), tt(1)
		kd, _, kl := mapKeys(mt)
		d := e.mapDom(st, m, mt)
		n := e.mapLen(st, m, mt)
		e.heapWrite(st, kl, m, Ite(And(Neq(m, Null), Select(d, key)), Sub(n, One), n), pos)
		e.heapWrite(st, kd, m, Ite(Eq(m, Null), d, Store(d, key, False)), pos)
		k(st, nil)
	case "close":
		ch := tt(0)
		e.nonnil(st, ch, pos, "close")
		h := e.heap(st, "$closed", SArr(SRef, SBool))
		e.oblige(st, "close", "close of a channel already closed", pos, Not(Select(h, ch)), nil)
		e.setHeap(st, "$closed", ch, Store(h, ch, True))
		k(st, nil)
	case "panic":
		e.doPanic(fr, st, pos, "panic")
	case "print", "println":
		k(st, nil)
	case "min", "max":
		r := tt(0)
		for i := 1; i < len(args); i++ {
			x := tt(i)
			if name == "min" {
				r = Ite(Le(r, x), r, x)
			} else {
				r = Ite(Le(x, r), r, x)
			}
		}
		k(st, r)
	case "recover":
		k(st, NilIface)
	case "ssa:wrapnilchk":
		r := tt(0)
		e.nonnil(st, r, pos, "receiver")
		k(st, r)
	case "ssa:deferstack":
		k(st, Const("deferstack", SRef))
	default:
		unsup("builtin %s", name)
	}
}

func (e *Engine) appendOp(st *State, c *ssa.CallCommon, args []Val, pos string) *Term {
	sl := c.Args[0].Type().Underlying().(*types.Slice)
	s := e.term(args[0], c.Args[0].Type())
	if len(args) < 2 {
		return s
	}
	et := sl.Elem()
	var src *Term // second slice
	srcT := c.Args[1].Type()
	var n *Term
	isStr := false
	if b, ok := srcT.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		isStr = true
		src = e.term(args[1], srcT)
		n = StrLen(src)
	} else {
		src = e.term(args[1], srcT)
		n = SLen(src)
	}
	if src == NilSlc {
		return s
	}
	if n.kind != kNum {
		st.assume(Le(Zero, n))
	}
	newLen := Add(SLen(s), n)
	nr := e.newRef(st, "app")
	fits := Le(newLen, SCap(s))
	if SCap(s).kind == kNum && n.kind == kNum && newLen.kind == kNum {
		fits = Le(newLen, SCap(s))
	}
	if s == NilSlc && n.kind == kNum && n.num.Sign() > 0 {
		fits = False
	}
	arr := Ite(fits, SArrOf(s), nr)
	ncap := Fresh("cap", SInt)
	st.assume(Le(newLen, ncap))
	rcap := Ite(fits, SCap(s), ncap)
	res := MkSlc(arr, SOff(s), newLen, rcap)
	if isStruct(et) {
		unsup("%s: append of structs by value", pos)
	}
	key := "E:" + heapTypeKey(et)
	es := sortOf(et)
	h := e.heap(st, key, SArr(SRef, SArr(SInt, es)))
	oldRow := Select(h, SArrOf(s))
	var newRow *Term
	base := Add(SOff(s), SLen(s))
	if n.kind == kNum && n.num.IsInt64() && n.num.Int64() <= 8 && !isStr {
		newRow = oldRow
		srow := Select(h, SArrOf(src))
		for i := int64(0); i < n.num.Int64(); i++ {
			newRow = Store(newRow, Add(base, Num(i)), Select(srow, Add(SOff(src), Num(i))))
		}
	} else {
		newRow = Fresh("row", SArr(SInt, es))
		i := Bound("i", SInt)
		in := And(Le(base, i), Lt(i, Add(base, n)))
		var from *Term
		if isStr {
			from = StrAt(src, Sub(i, base))
		} else {
			from = Select(Select(h, SArrOf(src)), Add(SOff(src), Sub(i, base)))
		}
		st.assume(Quant("forall", []*Term{i}, And(Implies(in, Eq(Select(newRow, i), from)), Implies(Not(in), Eq(Select(newRow, i), Select(oldRow, i)))), [][]*Term{{Select(newRow, i)}}))
		if !isStr {
			// also from the side of the source
			j := Bound("j", SInt)
			srow := Select(h, SArrOf(src))
			st.assume(Quant("forall", []*Term{j}, Implies(And(Le(SOff(src), j), Lt(j, Add(SOff(src), n))), Eq(Select(newRow, Add(base, Sub(j, SOff(src)))), Select(srow, j))), [][]*Term{{Select(srow, j)}}))
			j2 := Bound("j", SInt)
			st.assume(Quant("forall", []*Term{j2}, Implies(Lt(j2, base), Eq(Select(newRow, j2), Select(oldRow, j2))), [][]*Term{{Select(oldRow, j2)}}))
		}
		if heapTypeKey(et) == "uint8" {
			st.assume(Eq(BStr(newRow, SOff(s), SLen(s)), BStr(oldRow, SOff(s), SLen(s))))
			if isStr {
				st.assume(Eq(BStr(newRow, base, n), src))
				st.assume(Eq(BStr(newRow, SOff(s), newLen), StrCat(BStr(oldRow, SOff(s), SLen(s)), src)))
			} else {
				st.assume(Eq(BStr(newRow, base, n), BStr(Select(h, SArrOf(src)), SOff(src), n)))
				st.assume(Eq(BStr(newRow, SOff(s), newLen), StrCat(BStr(oldRow, SOff(s), SLen(s)), BStr(Select(h, SArrOf(src)), SOff(src), n))))
			}
		}
	}
	if fits == True && n.kind == kNum && n.num.Sign() == 0 {
		return res
	}
	// nothing is written when there is nothing to append
	if n.kind == kNum && n.num.Sign() > 0 {
		e.frameCheck(st, key, arr, pos)
	} else {
		s2 := st.clone()
		s2.assume(Lt(Zero, n))
		e.frameCheck(s2, key, arr, pos)
	}
	e.setHeap(st, key, arr, Store(h, arr, newRow))
	return res
}

func (e *Engine) copyOp(st *State, c *ssa.CallCommon, args []Val, pos string, k func(*State, Val)) {
	dt := c.Args[0].Type().Underlying().(*types.Slice)
	d := e.term(args[0], c.Args[0].Type())
	et := dt.Elem()
	if isStruct(et) {
		unsup("%s: copy of structs", pos)
	}
	es := sortOf(et)
	key := "E:" + heapTypeKey(et)
	h := e.heap(st, key, SArr(SRef, SArr(SInt, es)))
	src := e.term(args[1], c.Args[1].Type())
	isStr := src.sort == SStr
	var sn *Term
	if isStr {
		sn = StrLen(src)
	} else {
		sn = SLen(src)
	}
	n := Ite(Le(SLen(d), sn), SLen(d), sn)
	if r, v := e.knownCond(st, Le(SLen(d), sn)); r {
		if v {
			n = SLen(d)
		} else {
			n = sn
		}
	}
	st.assume(Le(Zero, n))
	oldRow := Select(h, SArrOf(d))
	row := Fresh("row", SArr(SInt, es))
	i := Bound("i", SInt)
	in := And(Le(SOff(d), i), Lt(i, Add(SOff(d), n)))
	var from *Term
	if isStr {
		from = StrAt(src, Sub(i, SOff(d)))
	} else {
		from = Select(Select(h, SArrOf(src)), Add(SOff(src), Sub(i, SOff(d))))
	}
	st.assume(Quant("forall", []*Term{i}, And(Implies(in, Eq(Select(row, i), from)), Implies(Not(in), Eq(Select(row, i), Select(oldRow, i)))), [][]*Term{{Select(row, i)}}))
	if heapTypeKey(et) == "uint8" {
		if isStr {
			st.assume(Implies(Eq(n, sn), Eq(BStr(row, SOff(d), n), src)))
		} else {
			st.assume(Eq(BStr(row, SOff(d), n), BStr(Select(h, SArrOf(src)), SOff(src), n)))
		}
	}
	s2 := st.clone()
	s2.assume(Lt(Zero, n))
	e.frameCheck(s2, key, SArrOf(d), pos)
	e.setHeap(st, key, SArrOf(d), Store(h, SArrOf(d), row))
	k(st, n)
}

// ---------- defer, go ----------

func (e *Engine) runDefers(fr *Frame, st *State, k func(*State)) {
	ds := st.defers[fr.id]
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = ds[: len(ds)-1 : len(ds)-1]
	e.callVals(fr, st, d.instr, d.call, d.fn, d.args, func(st *State, _ Val) {
		e.runDefers(fr, st, k)
	})
}

// doGo: the new goroutine's precondition must hold; its body is verified on its own.
func (e *Engine) doGo(fr *Frame, st *State, x *ssa.Go, pos string) {
	c := &x.Call
	if c.IsInvoke() {
		unsup("go with an interface call")
	}
	fv := e.val(fr, st, c.Value)
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(fr, st, a))
	}
	f, ok := fv.(*FuncVal)
	if !ok || f.fn == nil {
		unsup("go of an unknown function")
	}
	ct := e.contractOf(f.fn)
	if ct == nil {
		unsup("%s: go %s, which has no contract", pos, e.fnKey(f.fn))
	}
	e.noteUse(ct)
	vars, names, ts := e.bindCall(ct, f.fn.Signature, f.fn, f.bindings, args)
	env := &Env{e: e, st: st, vars: vars, pkg: e.specPkg(ct, f.fn), where: ct.key}
	if len(f.bindings) > 0 {
		cf := &Frame{fn: f.fn, regs: map[ssa.Value]Val{}, free: f.bindings, args: args}
		cf.root = cf
		env.fr = cf
	}
	if len(e.specs.perthread) > 0 {
		// the accounts of the new goroutine start at zero
		n := st.clone()
		for g := range e.specs.perthread {
			e.ghost(n, g, e.ghostSort(env, g))
			e.setGhost(n, g, Zero)
		}
		nenv := *env
		nenv.st = n
		e.checkPre(n, ct, &nenv, names, ts, args, pos)
	} else {
		e.checkPre(st, ct, env, names, ts, args, pos)
	}
	// ghost account of started goroutines
	for _, g := range ct.starts {
		e.ghost(st, g.name, e.ghostSort(env, g.name))
		e.setGhost(st, g.name, e.tm(env, e.nilTo(env, e.eval(env, g.e), env, e.specs.ghosts[g.name])))
	}
}

// ---------- channels ----------

// chanInvOf: the declared invariant of a channel held in a struct field.
func (e *Engine) chanInvOf(v ssa.Value) (*ChanInv, ssa.Value) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				k := fieldKey(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)
				if ci := e.specs.chans[k]; ci != nil {
					return ci, fa.X
				}
			}
		}
	case *ssa.ChangeType:
		if ci, sv := e.chanInvOf(x.X); ci != nil {
			return ci, sv
		}
	}
	if ct, ok := v.Type().Underlying().(*types.Chan); ok {
		if ci := e.specs.chans["of "+typeKey(ct.Elem())]; ci != nil {
			return ci, nil
		}
	}
	return nil, nil
}

func (e *Engine) chanSend(fr *Frame, st *State, ch *Term, cv ssa.Value, v Val, pos string) {
	e.nonnil(st, ch, pos, "send on nil channel "+e.nilName(cv))
	h := e.heap(st, "$sent", SArr(SRef, SInt))
	cl := e.heap(st, "$closed", SArr(SRef, SBool))
	e.oblige(st, "send", "send on closed channel", pos, Not(Select(cl, ch)), nil)
	if ci, sv := e.chanInvOf(cv); ci != nil {
		env := e.chanEnv(fr, st, ci, sv, cv, v)
		for _, iv := range ci.inv {
			e.oblige(st, "chan-invariant", ci.key+":"+clauseName(iv), pos, e.evalBool(env, iv), iv.props)
		}
	}
	e.setHeap(st, "$sent", ch, Store(h, ch, Add(Select(h, ch), One)))
}

func (e *Engine) chanEnv(fr *Frame, st *State, ci *ChanInv, sv ssa.Value, cv ssa.Value, v Val) *Env {
	et := cv.Type().Underlying().(*types.Chan).Elem()
	if sv == nil {
		return &Env{e: e, st: st, vars: map[string]SV{ci.v: {v, et}}, pkg: ci.pkg, where: "chan " + ci.key}
	}
	self := e.val(fr, st, sv)
	st2 := e.goType(&Env{e: e, pkg: ci.pkg}, strings.SplitN(strings.TrimPrefix(ci.key, ci.pkg+"."), ".", 2)[0])
	env := &Env{e: e, st: st, vars: map[string]SV{}, pkg: ci.pkg, where: "chan " + ci.key}
	env.vars[ci.self] = SV{self, types.NewPointer(st2)}
	env.vars[ci.v] = SV{v, et}
	return env
}

func (e *Engine) chanRecv(fr *Frame, st *State, ch *Term, cv ssa.Value, et types.Type, pos string) Val {
	e.nonnil(st, ch, pos, "receive from nil channel "+e.nilName(cv))
	h := e.heap(st, "$recvd", SArr(SRef, SInt))
	v := e.freshVal(st, et, "recv")
	if ci, sv := e.chanInvOf(cv); ci != nil {
		env := e.chanEnv(fr, st, ci, sv, cv, v)
		for _, iv := range ci.inv {
			st.assume(e.evalBool(env, iv))
		}
	}
	e.setHeap(st, "$recvd", ch, Store(h, ch, Add(Select(h, ch), One)))
	return v
}

// doSelect: one path per ready case.
func (e *Engine) doSelect(fr *Frame, st *State, x *ssa.Select, k func(*State, Val)) {
	pos := e.pos(x.Pos())
	var recvTypes []types.Type
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			recvTypes = append(recvTypes, s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
	}
	mkRes := func(st *State, idx int, ri int, v Val) Val {
		tv := &TupleVal{vals: []Val{Num(int64(idx)), Fresh("recvok", SBool)}}
		for i, t := range recvTypes {
			if i == ri {
				tv.vals = append(tv.vals, v)
			} else {
				tv.vals = append(tv.vals, zeroVal(t))
			}
		}
		return tv
	}
	ri := 0
	base := st.clone()
	regs := copyRegs(fr)
	for i, s := range x.States {
		s2 := base.clone()
		restoreRegs(fr, regs)
		regs = copyRegs(fr)
		ch := e.tval(fr, s2, s.Chan)
		s2.assume(Neq(ch, Null)) // a nil channel is never ready
		e.paths++
		if s2.dead {
			if s.Dir == types.RecvOnly {
				ri++
			}
			continue
		}
		if s.Dir == types.SendOnly {
			e.chanSend(fr, s2, ch, s.Chan, e.val(fr, s2, s.Send), pos)
			k(s2, mkRes(s2, i, -1, nil))
		} else {
			v := e.chanRecv(fr, s2, ch, s.Chan, recvTypes[ri], pos)
			k(s2, mkRes(s2, i, ri, v))
			ri++
		}
	}
	if !x.Blocking {
		restoreRegs(fr, regs)
		s2 := base.clone()
		e.paths++
		k(s2, mkRes(s2, -1, -1, nil))
	} else if e.run.c != nil && e.run.c.opts["nonblocking"] != "" {
		e.oblige(base, "nonblocking", "blocking select", pos, False, nil)
	}
}

// ---------- locks ----------

type nativeFn func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, pos string, k func(*State, Val))

func (e *Engine) native(key string) nativeFn {
	switch key {
	case "sync.(*RWMutex).Lock", "sync.(*Mutex).Lock":
		return func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, pos string, k func(*State, Val)) {
			e.lockOp(fr, st, args[0], 2, pos, in)
			k(st, nil)
		}
	case "sync.(*RWMutex).RLock":
		return func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, pos string, k func(*State, Val)) {
			e.lockOp(fr, st, args[0], 1, pos, in)
			k(st, nil)
		}
	case "sync.(*RWMutex).Unlock", "sync.(*Mutex).Unlock":
		return func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, pos string, k func(*State, Val)) {
			e.unlockOp(fr, st, args[0], 2, pos, in)
			k(st, nil)
		}
	case "sync.(*RWMutex).RUnlock":
		return func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, pos string, k func(*State, Val)) {
			e.unlockOp(fr, st, args[0], 1, pos, in)
			k(st, nil)
		}
	case "sort.Search":
		return sortSearch
	case "encoding/json.(*Decoder).Decode", "encoding/json.Unmarshal", "encoding/gob.(*Decoder).Decode":
		return jsonDecode
	}
	return nil
}

func (e *Engine) monitorFor(ref *Term) (*Monitor, *Term, types.Type) {
	// ref = (mkref id (pfield path fid))
	if ref.op != "mkref" || ref.args[1].op != "pfield" {
		return nil, nil, nil
	}
	fid := int(ref.args[1].args[1].num.Int64())
	owner := MkRef(ref.args[0], ref.args[1].args[0])
	for _, m := range e.specs.monitors {
		t := e.goType(&Env{e: e, pkg: m.pkg}, m.typ)
		if t == nil {
			unsup("monitor of unknown type %s", m.typ)
		}
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == m.lock && e.fid(t, i) == fid {
				return m, owner, t
			}
		}
	}
	return nil, nil, nil
}

func (e *Engine) monEnv(st *State, m *Monitor, owner *Term, t types.Type) *Env {
	return &Env{e: e, st: st, vars: map[string]SV{m.self: {owner, types.NewPointer(t)}}, pkg: m.pkg, where: "monitor " + m.typ + "." + m.lock}
}

func (e *Engine) lockOp(fr *Frame, st *State, lk Val, level int64, pos string, in ssa.Instruction) {
	ref := e.term(lk, nil)
	h := e.heap(st, "$lock", SArr(SRef, SInt))
	e.oblige(st, "lock", "acquired while already held", pos, Eq(Select(h, ref), Zero), nil)
	st.assume(Eq(Select(h, ref), Zero))
	e.setHeap(st, "$lock", ref, Store(h, ref, Num(level)))
	if m, owner, t := e.monitorFor(ref); m != nil {
		if _, fresh := freshIDs[RefID(owner)]; !fresh {
			for _, f := range m.fields {
				for _, p := range e.fieldPlaces(owner, t, f) {
					if m.content[f] {
						// only the contents of the map are guarded; the field is never assigned
						break
					}
					hh := e.heap(st, p.key, SArr(SRef, p.s))
					x := Fresh("mon_"+f, p.s)
					// havoc on acquisition is not a write by this function
					st.heaps[p.key] = Store(hh, p.ref, x)
					for _, r := range e.recs {
						r.heaps[p.key] = append(r.heaps[p.key], p.ref)
					}
					st.assume(e.heapValFact(p.key, x, st))
				}
				// the contents of a guarded map
				if mt, ok := fieldType(t, f).Underlying().(*types.Map); ok {
					kd, kv, kl := mapKeys(mt)
					ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
					mr := e.tm(e.monEnv(st, m, owner, t), e.eval(e.monEnv(st, m, owner, t), &Expr{op: "sel", args: []*Expr{{op: "id", s: m.self}}, s: f}))
					for _, p := range []place{{kd, mr, SArr(ks, SBool)}, {kv, mr, SArr(ks, vs)}, {kl, mr, SInt}} {
						hh := e.heap(st, p.key, SArr(SRef, p.s))
						st.heaps[p.key] = Store(hh, p.ref, Fresh("mon_"+f, p.s))
						for _, r := range e.recs {
							r.heaps[p.key] = append(r.heaps[p.key], p.ref)
						}
					}
				}
			}
		}
		env := e.monEnv(st, m, owner, t)
		for _, iv := range m.inv {
			st.assume(e.evalBool(env, iv))
		}
		st.lockSt = nil
		st.lockSt = st.clone()
	}
}

func (e *Engine) fieldPlaces(owner *Term, t types.Type, f string) []place {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			v := e.fieldAddr(owner, t, i)
			if a, ok := v.(*Addr); ok {
				return []place{{a.hk, a.ref, sortOf(s.Field(i).Type())}}
			}
			return e.places(v.(*Term), s.Field(i).Type())
		}
	}
	unsup("monitor field %s does not exist", f)
	return nil
}

func (e *Engine) unlockOp(fr *Frame, st *State, lk Val, level int64, pos string, in ssa.Instruction) {
	ref := e.term(lk, nil)
	h := e.heap(st, "$lock", SArr(SRef, SInt))
	e.oblige(st, "unlock", "released without being held", pos, Eq(Select(h, ref), Num(level)), nil)
	st.assume(Eq(Select(h, ref), Num(level)))
	if m, owner, t := e.monitorFor(ref); m != nil {
		env := e.monEnv(st, m, owner, t)
		for _, iv := range m.inv {
			e.oblige(st, "monitor", m.typ+"."+m.lock+":"+clauseName(iv), pos, e.evalBool(env, iv), iv.props)
		}
	}
	e.setHeap(st, "$lock", ref, Store(h, ref, Zero))
}

// guardCheck: a guarded field may only be touched with its lock held.
func (e *Engine) guardCheck(st *State, a *Addr, write bool, pos string) {
	if a.cell != nil || a.field == "" || a.owner == nil {
		return
	}
	m := e.guards[a.field]
	if m == nil {
		return
	}
	if _, fresh := freshIDs[RefID(a.owner)]; fresh {
		return
	}
	t := e.goType(&Env{e: e, pkg: m.pkg}, m.typ)
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == m.lock {
			ref := SubRef(a.owner, e.fid(t, i))
			h := Select(e.heap(st, "$lock", SArr(SRef, SInt)), ref)
			if write && m.content[a.field[strings.LastIndexByte(a.field, '.')+1:]] {
				e.oblige(st, "guard", a.field+" is assigned only where it is created", pos, False, nil)
			} else if write {
				e.oblige(st, "guard", "write of "+a.field+" without the lock", pos, Eq(h, Num(2)), nil)
			} else {
				e.oblige(st, "guard", "read of "+a.field+" without the lock", pos, Or(Eq(h, One), Eq(h, Num(2))), nil)
			}
			return
		}
	}
	unsup("monitor lock %s does not exist", m.lock)
}

// sortSearch: the closure is evaluated once for an arbitrary index.
func sortSearch(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, pos string, k func(*State, Val)) {
	n := e.term(args[0], types.Typ[types.Int])
	f, ok := args[1].(*FuncVal)
	if !ok {
		unsup("sort.Search with an unknown function")
	}
	// check its body for an arbitrary index in range
	i := Fresh("probe", SInt)
	s1 := st.clone()
	s1.assume(And(Le(Zero, i), Lt(i, n)))
	regs := copyRegs(fr)
	type out struct {
		facts *Facts
		v     *Term
	}
	var outs []out
	base := s1.facts
	e.inlineCall(fr, s1, in, f.fn, f.bindings, []Val{i}, pos, func(s2 *State, r Val) {
		outs = append(outs, out{s2.facts, r.(*Term)})
	})
	restoreRegs(fr, regs)
	if len(outs) != 1 {
		unsup("sort.Search with a branching closure")
	}
	var fs []*Term
	for x := outs[0].facts; x != base; x = x.prev {
		fs = append(fs, x.t)
	}
	at := func(ix *Term) *Term {
		m := map[*Term]*Term{i: ix}
		return Subst(outs[0].v, m)
	}
	facts := func(ix *Term) *Term {
		m := map[*Term]*Term{i: ix}
		return Subst(And(fs...), m)
	}
	r := Fresh("search", SInt)
	st.assume(And(Le(Zero, r), Le(r, n)))
	st.assume(Implies(Lt(r, n), And(facts(r), at(r))))
	st.assume(Implies(Lt(Zero, r), And(facts(Sub(r, One)), Not(at(Sub(r, One))))))
	if src := e.run.c.opts["search"]; src != "" && fr == fr.root {
		// option search <var> <formula>: the predicate in specification terms; it
		// must be equivalent to the closure and monotone
		v, body, _ := strings.Cut(src, " ")
		x, err := ParseExpr(body)
		if err != nil {
			unsup("option search: %v", err)
		}
		env := &Env{e: e, st: s1, old: fr.root.entry, pre: fr.root.entry, fr: fr, vars: map[string]SV{}, ents: e.run.params, pkg: e.run.pkg, where: "option search"}
		I := types.Type(types.Typ[types.UntypedInt])
		spec := func(en *Env, t *Term) *Term { return e.evalFormula(en.with(v, SV{t, I}), x) }
		s3 := s1.clone()
		s3.assume(And(fs...))
		env.st = s3
		e.oblige(s3, "search", "equivalent", pos, Eq(spec(env, i), outs[0].v), nil)
		j := Fresh("probe2", SInt)
		s4 := st.clone()
		env.st = s4
		s4.assume(And(Le(Zero, i), Lt(i, j), Lt(j, n), spec(env, i)))
		e.oblige(s4, "search", "monotone", pos, spec(env, j), nil)
		env.st = st
		b := Bound("k", SInt)
		st.assume(mkQuant("forall", []*Term{b}, Implies(And(Le(Zero, b), Lt(b, n)), Eq(spec(env, b), Le(r, b))), nil))
	}
	e.usedTrusted["sort.Search"] = "binary search: returns i with f(i) or i==n, and !f(i-1) or i==0"
	k(st, r)
}

// jsonDecode: the value behind the pointer becomes any value of its type.
func jsonDecode(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, pos string, k func(*State, Val)) {
	v, ok := args[1].(*Term)
	if !ok || !strings.HasPrefix(v.op, "box:") {
		unsup("%s: JSON decoding into an unknown value", pos)
	}
	pt, ok := boxTypes[v.op].Underlying().(*types.Pointer)
	if !ok {
		unsup("%s: JSON decoding into a value that is no pointer", pos)
	}
	ref := v.args[0]
	e.bumpAlloc(st)
	before := st.clone()
	for _, p := range e.exportedPlaces(ref, pt.Elem()) {
		e.frameCheck(st, p.key, p.ref, pos)
		h := e.heap(st, p.key, SArr(SRef, p.s))
		x := Fresh("json_"+p.key, p.s)
		if p.s == SRef {
			// a pointer or map is nil, what it was, or new
			was := Select(h, p.ref)
			e.oblige(st, "decode", "nothing decoded before in "+p.key, pos, Eq(was, Null), nil)
			st.assume(Or(Eq(x, Null), Le(before.alloc, RefID(x))))
		}
		e.setHeap(st, p.key, p.ref, Store(h, p.ref, x))
		e.bumpAlloc(st)
		st.assume(e.heapValFact(p.key, x, st))
	}
	e.bumpAlloc(st)
	st.lockSt = st.clone()
	e.usedTrusted["encoding/json, encoding/gob (decoding)"] = "sets the exported fields of the value behind the pointer to any values of their types; objects it allocates are not shared"
	err := e.freshVal(st, types.Universe.Lookup("error").Type(), "err")
	if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() != nil {
		// what else is assumed of it
		if c := e.contractOf(call.Common().StaticCallee()); c != nil && len(c.params) == len(args) {
			e.noteUse(c)
			env := &Env{e: e, st: st, vars: map[string]SV{}, pkg: e.specPkg(c, nil), where: c.key, old: before}
			for i, a := range args {
				env.vars[c.params[i]] = SV{a, call.Common().Args[i].Type()}
			}
			env.vars[c.results[0]] = SV{err, types.Universe.Lookup("error").Type()}
			for _, q := range c.ens {
				st.assume(e.evalBool(env, q))
			}
		}
	}
	k(st, err)
}

func fieldType(t types.Type, f string) types.Type {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return s.Field(i).Type()
		}
	}
	unsup("field %s does not exist", f)
	return nil
}
