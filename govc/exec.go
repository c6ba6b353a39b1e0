package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) newFrame(fn *ssa.Function, parent *Frame) *Frame {
	e.frameSeq++
	f := &Frame{id: e.frameSeq, fn: fn, regs: map[ssa.Value]Val{}, parent: parent}
	if parent != nil {
		f.depth = parent.depth + 1
		f.root = parent.root
	} else {
		f.root = f
	}
	return f
}

// escapes: is the address of the local used other than by direct loads and stores?
func (e *Engine) escapesAlloc(a *ssa.Alloc) bool {
	if v, ok := e.escapes[a]; ok {
		return v
	}
	var esc func(v ssa.Value) bool
	esc = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch i := r.(type) {
			case *ssa.UnOp:
				if i.Op == token.MUL {
					continue
				}
				return true
			case *ssa.Store:
				if i.Addr == v && i.Val != v {
					continue
				}
				return true
			case *ssa.FieldAddr:
				if esc(i) {
					return true
				}
			case *ssa.IndexAddr:
				if i.X != v || esc(i) {
					return true
				}
			case *ssa.DebugRef:
			default:
				return true
			}
		}
		return false
	}
	r := esc(a)
	if !r {
		if at, ok := a.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok && isStruct(at.Elem()) {
			r = true
		}
	}
	e.escapes[a] = r
	return r
}

func (e *Engine) val(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return e.globalAddr(x)
	case *ssa.Function:
		return &FuncVal{fn: x}
	case *ssa.Builtin:
		return &FuncVal{builtin: x.Name()}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.free[i]
			}
		}
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == x {
				return fr.args[i]
			}
		}
	}
	r, ok := fr.regs[v]
	if !ok {
		unsup("value %s (%T) not computed in %s", v.Name(), v, fr.fn.Name())
	}
	return r
}

func (e *Engine) tval(fr *Frame, st *State, v ssa.Value) *Term {
	return e.term(e.val(fr, st, v), v.Type())
}

func (e *Engine) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolT(constant.BoolVal(c.Value))
	case constant.String:
		return StrLit(constant.StringVal(c.Value))
	case constant.Int:
		if sortOf(t) == SFlt {
			return fltConst(c.Value)
		}
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			unsup("constant %s", c)
		}
		return BigNum(n)
	case constant.Float:
		if sortOf(t) == SInt {
			n, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			if ok {
				return BigNum(n)
			}
		}
		return fltConst(c.Value)
	}
	unsup("constant %s", c)
	return nil
}

func fltConst(v constant.Value) *Term {
	return Const("flt_"+clean(v.ExactString()), SFlt)
}

var globalIDs = map[*ssa.Global]int{}

func (e *Engine) globalAddr(g *ssa.Global) Val {
	n, ok := globalIDs[g]
	if !ok {
		n = len(globalIDs) + 1
		globalIDs[g] = n
	}
	return MkRef(Num(int64(-n)), PNil)
}

func globalName(g *ssa.Global) string { return shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name() }

// globalLoad: variables never assigned outside initialisation are constants.
func (e *Engine) globalLoad(st *State, g *ssa.Global) Val {
	t := g.Type().(*types.Pointer).Elem()
	if e.isConstGlobal(g) && !isStruct(t) {
		if c := e.globalInit[g]; c != nil && c.Value != nil && e.inRepoPkg(g.Pkg) {
			return e.constVal(c)
		}
		c := Const("gv:"+globalName(g)+"@0", sortOf(t))
		st.assume(wfFact(c, t, st.alloc))
		if e.globalNew[g] && c.sort == SRef {
			st.assume(Neq(c, Null))
		}
		if c.sort == SIface && types.Identical(t, types.Universe.Lookup("error").Type()) {
			st.assume(Neq(c, NilIface))
			st.assume(Eq(App("errid", SInt, c), Num(int64(-len(globalIDs)-1000-globalIdx(g)))))
		}
		return c
	}
	return e.load(st, e.addrOf(e.globalAddr(g), t), "")
}

var gidx = map[*ssa.Global]int{}

func globalIdx(g *ssa.Global) int {
	n, ok := gidx[g]
	if !ok {
		n = len(gidx) + 1
		gidx[g] = n
	}
	return n
}

func (e *Engine) isConstGlobal(g *ssa.Global) bool {
	v, ok := e.constGlobals[g]
	if ok {
		return v
	}
	if !strings.HasPrefix(g.Pkg.Pkg.Path(), strings.TrimSuffix(repoPrefix, "/")) {
		e.constGlobals[g] = true
		return true
	}
	return false
}

// ---------- control ----------

func (e *Engine) execBlock(fr *Frame, b, pred *ssa.BasicBlock, st *State) {
	if st.dead {
		return
	}
	e.depth++
	defer func() { e.depth-- }()
	// leaving loops of this frame
	li := e.loopInfoOf(fr.fn)
	for i := len(st.active) - 1; i >= 0; i-- {
		l := st.active[i]
		if l.fr == fr && !l.blocks[b] {
			if l.discover {
				l.exitStates = append(l.exitStates, st)
				return
			}
			st.active = append(st.active[:i:i], st.active[i+1:]...)
			e.popLoopFrame(st, l)
		}
	}
	if len(e.mergers) > 0 && e.arrive(fr, b, pred, st) {
		return
	}
	if hdr := li.headers[b]; hdr != nil {
		for _, l := range st.active {
			if l.fr == fr && l.header == b {
				e.backEdge(fr, l, pred, st)
				return
			}
		}
		e.enterLoop(fr, hdr, pred, st)
		return
	}
	e.execFrom(fr, b, pred, 0, st)
}

func (e *Engine) execFrom(fr *Frame, b, pred *ssa.BasicBlock, start int, st *State) {
	for i := start; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi:
			for k, p := range b.Preds {
				if p == pred {
					fr.regs[x] = e.val(fr, st, x.Edges[k])
				}
			}
		case *ssa.Jump:
			e.execBlock(fr, b.Succs[0], b, st)
			return
		case *ssa.If:
			c := e.tval(fr, st, x.Cond)
			if c == True {
				e.execBlock(fr, b.Succs[0], b, st)
				return
			}
			if c == False {
				e.execBlock(fr, b.Succs[1], b, st)
				return
			}
			if known, v := e.knownCond(st, c); known {
				if v {
					e.execBlock(fr, b.Succs[0], b, st)
				} else {
					e.execBlock(fr, b.Succs[1], b, st)
				}
				return
			}
			e.paths++
			if e.paths > e.maxPaths {
				unsup("more than %d paths", e.maxPaths)
			}
			st2 := st.clone()
			both := func() {
				regs := copyRegs(fr)
				st.assume(c)
				e.execBlock(fr, b.Succs[0], b, st)
				restoreRegs(fr, regs)
				st2.assume(Not(c))
				e.execBlock(fr, b.Succs[1], b, st2)
			}
			if e.merging() {
				if js := e.joinsOf(fr.fn, b); len(js) > 0 {
					e.branchMerged(fr, b, js, both)
					return
				}
			}
			both()
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range x.Results {
				rs = append(rs, e.val(fr, st, r))
			}
			for k := len(st.active) - 1; k >= 0; k-- {
				l := st.active[k]
				if l.fr == fr {
					if l.discover {
						return
					}
					st.active = append(st.active[:k:k], st.active[k+1:]...)
					e.popLoopFrame(st, l)
				}
			}
			fr.ret(st, rs)
			return
		case *ssa.Panic:
			e.doPanic(fr, st, e.pos(x.Pos()), "panic")
			return
		case *ssa.Call:
			idx := i
			e.doCall(fr, st, x, &x.Call, func(st *State, res Val) {
				fr.regs[x] = res
				e.execFrom(fr, b, pred, idx+1, st)
			})
			return
		case *ssa.RunDefers:
			idx := i
			e.runDefers(fr, st, func(st *State) {
				e.execFrom(fr, b, pred, idx+1, st)
			})
			return
		case *ssa.Select:
			idx := i
			e.doSelect(fr, st, x, func(st *State, res Val) {
				fr.regs[x] = res
				e.execFrom(fr, b, pred, idx+1, st)
			})
			return
		case *ssa.Next:
			idx := i
			e.doNext(fr, st, x, func(st *State, res Val) {
				fr.regs[x] = res
				e.execFrom(fr, b, pred, idx+1, st)
			})
			return
		default:
			e.instr(fr, st, in)
		}
	}
}

// knownCond: the condition is already decided syntactically on this path.
func (e *Engine) knownCond(st *State, c *Term) (bool, bool) {
	n := Not(c)
	for f, k := st.facts, 0; f != nil && k < 400; f, k = f.prev, k+1 {
		if f.t == c {
			return true, true
		}
		if f.t == n {
			return true, false
		}
	}
	return false, false
}

func copyRegs(fr *Frame) map[*Frame]map[ssa.Value]Val {
	out := map[*Frame]map[ssa.Value]Val{}
	for f := fr; f != nil; f = f.parent {
		m := make(map[ssa.Value]Val, len(f.regs))
		for k, v := range f.regs {
			m[k] = v
		}
		out[f] = m
	}
	return out
}

func restoreRegs(fr *Frame, s map[*Frame]map[ssa.Value]Val) {
	for f := fr; f != nil; f = f.parent {
		if m, ok := s[f]; ok {
			f.regs = m
		}
	}
}

func (e *Engine) doPanic(fr *Frame, st *State, pos, what string) {
	if e.run.c != nil && e.run.c.mayPanic {
		return
	}
	e.oblige(st, "nopanic", what, pos, False, nil)
}

func (e *Engine) nonnil(st *State, r *Term, pos, what string) {
	if z := zeroTerm(r.sort); r.sort != SRef {
		e.oblige(st, "nil", what, pos, Neq(r, z), nil)
		st.assume(Neq(r, z))
		return
	}
	if r.op == "mkref" {
		id := r.args[0]
		if _, ok := freshIDs[id]; ok || (id.kind == kNum && id.num.Sign() < 0) {
			return
		}
		if id.op == "refid" && r.args[1].op == "pfield" {
			// &x.f of an already dereferenced x
			e.oblige(st, "nil", what, pos, Neq(id, Zero), nil)
			return
		}
	}
	g := Neq(RefID(r), Zero)
	if r.sort == SRef && r.op != "mkref" {
		g = Neq(r, Null)
	}
	if k, v := e.knownCond(st, g); k && v {
		return
	}
	e.oblige(st, "nil", what, pos, g, nil)
	st.assume(g)
}

func (e *Engine) nilName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		return e.nilName(x.X)
	case *ssa.FieldAddr:
		return fieldKey(x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
	case *ssa.Alloc:
		return x.Comment
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Lookup:
		return "map element"
	case *ssa.Call:
		return "call result"
	}
	return v.Name()
}

// instr executes one straight-line instruction.
func (e *Engine) instr(fr *Frame, st *State, in ssa.Instruction) {
	pos := e.pos(in.Pos())
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		if !e.escapesAlloc(x) {
			k := cellKey{fr.id, x, x.Comment}
			e.setCell(st, k, zeroVal(t))
			fr.regs[x] = &Addr{cell: &k, typ: t}
			return
		}
		r := e.newRef(st, x.Comment)
		for g, ts := range e.specs.zeroTypes {
			for _, n := range ts {
				if typeKey(x.Type().Underlying().(*types.Pointer).Elem()) == n {
					// map[ref]string
					st.assume(Eq(Select(e.ghost(st, g, SArr(SRef, SStr)), r), StrLit("")))
				}
			}
		}
		fr.regs[x] = r
		if !strings.HasPrefix(typeKey(t), "ssa:deferstack") {
			e.initZero(st, r, t)
		}
	case *ssa.Store:
		t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		if g, ok := x.Addr.(*ssa.Global); ok {
			_ = g
		}
		a := e.addrOf(e.val(fr, st, x.Addr), t)
		e.checkDeref(fr, st, x.Addr, a, pos)
		e.guardCheck(st, a, true, pos)
		v := e.val(fr, st, x.Val)
		e.store(st, a, v, pos)
	case *ssa.UnOp:
		fr.regs[x] = e.unop(fr, st, x, pos)
	case *ssa.BinOp:
		fr.regs[x] = e.binop(st, x.Op, e.val(fr, st, x.X), e.val(fr, st, x.Y), x.X.Type(), x.Y.Type(), x.Type(), pos)
	case *ssa.FieldAddr:
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		b := e.val(fr, st, x.X)
		if a, ok := b.(*Addr); ok && a.cell != nil {
			ft := pt.Underlying().(*types.Struct).Field(x.Field).Type()
			fr.regs[x] = &Addr{cell: a.cell, path: append(a.path[:len(a.path):len(a.path)], pathEl{field: x.Field}), typ: ft}
			return
		}
		r := e.term(b, x.X.Type())
		e.nonnil(st, r, pos, e.nilName(x.X))
		fr.regs[x] = e.fieldAddr(r, pt, x.Field)
	case *ssa.Field:
		v := e.val(fr, st, x.X)
		if sv, ok := v.(*StructVal); ok {
			fr.regs[x] = sv.fields[x.Field]
		} else {
			unsup("field of %T", v)
		}
	case *ssa.IndexAddr:
		e.indexAddr(fr, st, x, pos)
	case *ssa.Index:
		idx := e.tval(fr, st, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			a := e.tval(fr, st, x.X)
			e.oblige(st, "bounds", "array index", pos, And(Le(Zero, idx), Lt(idx, Num(u.Len()))), nil)
			fr.regs[x] = Select(a, idx)
		case *types.Basic:
			s := e.tval(fr, st, x.X)
			e.bounds(st, "string index", pos, idx, StrLen(s))
			v := StrAt(s, idx)
			st.assume(And(Le(Zero, v), Lt(v, Num(256))))
			fr.regs[x] = v
		default:
			unsup("index of %s", x.X.Type())
		}
	case *ssa.Lookup:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s := e.tval(fr, st, x.X)
			idx := e.tval(fr, st, x.Index)
			e.bounds(st, "string index", pos, idx, StrLen(s))
			v := StrAt(s, idx)
			st.assume(And(Le(Zero, v), Lt(v, Num(256))))
			fr.regs[x] = v
			return
		}
		mt := x.X.Type().Underlying().(*types.Map)
		m := e.tval(fr, st, x.X)
		k := e.tval(fr, st, x.Index)
		in, v := e.mapGet(st, m, mt, k)
		if x.CommaOk {
			fr.regs[x] = &TupleVal{[]Val{v, in}}
		} else {
			fr.regs[x] = v
		}
		if u, ok := x.X.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && v.op != "" {
				if _, ok := mt.Elem().Underlying().(*types.Signature); ok {
					funcFrom[v] = globalName(g)
				}
			}
		}
	case *ssa.MapUpdate:
		mt := x.Map.Type().Underlying().(*types.Map)
		m := e.tval(fr, st, x.Map)
		e.nonnil(st, m, pos, "map "+e.nilName(x.Map))
		e.mapPut(st, m, mt, e.tval(fr, st, x.Key), e.tval(fr, st, x.Value), pos)
	case *ssa.Slice:
		fr.regs[x] = e.sliceOp(fr, st, x, pos)
	case *ssa.MakeSlice:
		ln := e.tval(fr, st, x.Len)
		cp := e.tval(fr, st, x.Cap)
		e.oblige(st, "bounds", "make length", pos, And(Le(Zero, ln), Le(ln, cp)), nil)
		et := x.Type().Underlying().(*types.Slice).Elem()
		r := e.newRef(st, "mk")
		e.zeroRow(st, r, et)
		fr.regs[x] = MkSlc(r, Zero, ln, cp)
	case *ssa.MakeMap:
		r := e.newRef(st, "map")
		mt := x.Type().Underlying().(*types.Map)
		ks, vs := sortOf(mt.Key()), e.mapValSort(mt)
		kd, kv, kl := mapKeys(mt)
		e.heapWrite(st, kd, r, ConstArr(SArr(ks, SBool), False), pos)
		e.heapWrite(st, kv, r, ConstArr(SArr(ks, vs), zeroTerm(vs)), pos)
		e.heapWrite(st, kl, r, Zero, pos)
		fr.regs[x] = r
	case *ssa.MakeChan:
		r := e.newRef(st, "chan")
		sz := e.tval(fr, st, x.Size)
		e.oblige(st, "bounds", "make chan size", pos, Le(Zero, sz), nil)
		e.heapWrite(st, "$chancap", r, sz, pos)
		e.heapWrite(st, "$sent", r, Zero, pos)
		e.heapWrite(st, "$recvd", r, Zero, pos)
		e.heapWrite(st, "$closed", r, False, pos)
		fr.regs[x] = r
	case *ssa.MakeClosure:
		fv := &FuncVal{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.bindings = append(fv.bindings, e.val(fr, st, b))
		}
		fr.regs[x] = fv
	case *ssa.MakeInterface:
		fr.regs[x] = e.makeIface(st, e.val(fr, st, x.X), x.X.Type())
	case *ssa.ChangeInterface:
		fr.regs[x] = e.val(fr, st, x.X)
	case *ssa.ChangeType:
		v := e.val(fr, st, x.X)
		if sv, ok := v.(*StructVal); ok {
			v = &StructVal{typ: x.Type(), fields: sv.fields}
		}
		fr.regs[x] = v
	case *ssa.Convert:
		fr.regs[x] = e.convert(st, e.val(fr, st, x.X), x.X.Type(), x.Type(), pos)
	case *ssa.TypeAssert:
		i := e.tval(fr, st, x.X)
		ok := e.typeIs(i, x.AssertedType)
		v := e.unbox(st, i, x.AssertedType)
		if x.CommaOk {
			fr.regs[x] = &TupleVal{[]Val{v, ok}}
		} else {
			e.oblige(st, "typeassert", typeKey(x.AssertedType), pos, ok, nil)
			fr.regs[x] = v
		}
	case *ssa.Extract:
		tv, ok := e.val(fr, st, x.Tuple).(*TupleVal)
		if !ok {
			unsup("extract from %T", e.val(fr, st, x.Tuple))
		}
		fr.regs[x] = tv.vals[x.Index]
	case *ssa.Defer:
		d := &deferred{call: &x.Call, instr: x}
		if x.Call.IsInvoke() {
			d.fn = e.val(fr, st, x.Call.Value)
		} else {
			d.fn = e.val(fr, st, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(fr, st, a))
		}
		st.defers[fr.id] = append(st.defers[fr.id], d)
	case *ssa.Go:
		e.doGo(fr, st, x, pos)
	case *ssa.Send:
		ch := e.tval(fr, st, x.Chan)
		e.chanSend(fr, st, ch, x.Chan, e.val(fr, st, x.X), pos)
	case *ssa.Range:
		v := e.tval(fr, st, x.X)
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			key := fmt.Sprintf("iter:%d:%s", fr.id, x.Name())
			e.setGhost(st, key, ConstArr(SArr(sortOf(mt.Key()), SBool), False))
			fr.regs[x] = &IterVal{key: key, m: v, mt: mt}
			return
		}
		key := fmt.Sprintf("iter:%d:%s", fr.id, x.Name())
		e.setGhost(st, key, Zero)
		fr.regs[x] = &IterVal{key: key, str: v}
	default:
		unsup("instruction %T (%s)", in, in)
	}
}

func (e *Engine) initZero(st *State, r *Term, t types.Type) {
	for _, p := range e.places(r, t) {
		h := e.heap(st, p.key, SArr(SRef, p.s))
		e.setHeap(st, p.key, r, Store(h, p.ref, zeroTerm(p.s)))
	}
	if isStruct(t) {
		e.initGhosts(st, r, t)
	}
}

// initGhosts: lock words of a fresh object are free.
func (e *Engine) initGhosts(st *State, r *Term, t types.Type) {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if k := typeKey(ft); k == "sync.RWMutex" || k == "sync.Mutex" {
			ref := SubRef(r, e.fid(t, i))
			h := e.heap(st, "$lock", SArr(SRef, SInt))
			e.setHeap(st, "$lock", ref, Store(h, ref, Zero))
		} else if isStruct(ft) {
			e.initGhosts(st, SubRef(r, e.fid(t, i)), ft)
		}
	}
}

func (e *Engine) zeroRow(st *State, r *Term, et types.Type) {
	if isStruct(et) {
		return // elements are addressed individually; contents unknown
	}
	es := sortOf(et)
	key := "E:" + heapTypeKey(et)
	h := e.heap(st, key, SArr(SRef, SArr(SInt, es)))
	e.setHeap(st, key, r, Store(h, r, ConstArr(SArr(SInt, es), zeroTerm(es))))
}

func (e *Engine) bounds(st *State, what, pos string, idx, n *Term) {
	g := And(Le(Zero, idx), Lt(idx, n))
	if g == True {
		return
	}
	e.oblige(st, "bounds", what, pos, g, nil)
	st.assume(g)
}

func (e *Engine) checkDeref(fr *Frame, st *State, v ssa.Value, a *Addr, pos string) {
	if a.cell != nil {
		return
	}
	switch v.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		return
	}
	e.nonnil(st, a.ref, pos, e.nilName(v))
}

func (e *Engine) unop(fr *Frame, st *State, x *ssa.UnOp, pos string) Val {
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			return e.globalLoad(st, g)
		}
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		a := e.addrOf(e.val(fr, st, x.X), t)
		e.checkDeref(fr, st, x.X, a, pos)
		e.guardCheck(st, a, false, pos)
		return e.load(st, a, pos)
	case token.NOT:
		return Not(e.tval(fr, st, x.X))
	case token.SUB:
		v := e.tval(fr, st, x.X)
		if v.sort == SFlt {
			return App("fneg", SFlt, v)
		}
		bits, uns, _ := intInfo(x.Type())
		if uns {
			return ModE(Sub(Zero, v), pow2(bits))
		}
		return Sub(Zero, v)
	case token.XOR:
		v := e.tval(fr, st, x.X)
		bits, uns, _ := intInfo(x.Type())
		if uns {
			return Sub(Sub(pow2(bits), One), v)
		}
		return Sub(Num(-1), v)
	case token.ARROW:
		ch := e.tval(fr, st, x.X)
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		v := e.chanRecv(fr, st, ch, x.X, et, pos)
		if x.CommaOk {
			return &TupleVal{[]Val{v, Fresh("ok", SBool)}}
		}
		return v
	}
	unsup("unary %s", x.Op)
	return nil
}

func (e *Engine) indexAddr(fr *Frame, st *State, x *ssa.IndexAddr, pos string) {
	idx := e.tval(fr, st, x.Index)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := e.tval(fr, st, x.X)
		e.bounds(st, "slice index", pos, idx, SLen(s))
		if isStruct(u.Elem()) || isArray(u.Elem()) {
			fr.regs[x] = EltRef(SArrOf(s), Add(SOff(s), idx))
			return
		}
		fr.regs[x] = &Addr{hk: "E:" + heapTypeKey(u.Elem()), ref: SArrOf(s), idx: Add(SOff(s), idx), typ: u.Elem()}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		e.bounds(st, "array index", pos, idx, Num(at.Len()))
		b := e.val(fr, st, x.X)
		if a, ok := b.(*Addr); ok && a.cell != nil {
			fr.regs[x] = &Addr{cell: a.cell, path: append(a.path[:len(a.path):len(a.path)], pathEl{idx: idx}), typ: at.Elem()}
			return
		}
		r := e.term(b, x.X.Type())
		e.nonnil(st, r, pos, e.nilName(x.X))
		if isStruct(at.Elem()) || isArray(at.Elem()) {
			fr.regs[x] = EltRef(r, idx)
			return
		}
		fr.regs[x] = &Addr{hk: "E:" + heapTypeKey(at.Elem()), ref: r, idx: idx, typ: at.Elem()}
	default:
		unsup("index address of %s", x.X.Type())
	}
}

func (e *Engine) sliceOp(fr *Frame, st *State, x *ssa.Slice, pos string) Val {
	var lo, hi, max *Term
	if x.Low != nil {
		lo = e.tval(fr, st, x.Low)
	} else {
		lo = Zero
	}
	if x.High != nil {
		hi = e.tval(fr, st, x.High)
	}
	if x.Max != nil {
		max = e.tval(fr, st, x.Max)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		s := e.tval(fr, st, x.X)
		if hi == nil {
			hi = StrLen(s)
		}
		g := And(Le(Zero, lo), Le(lo, hi), Le(hi, StrLen(s)))
		if g != True {
			e.oblige(st, "bounds", "string slice", pos, g, nil)
			st.assume(g)
		}
		r := StrSub(s, lo, hi)
		st.assume(Eq(StrLen(r), Sub(hi, lo)))
		return r
	case *types.Slice:
		s := e.tval(fr, st, x.X)
		if hi == nil {
			hi = SLen(s)
		}
		if max == nil {
			max = SCap(s)
		} else {
			e.oblige(st, "bounds", "slice max", pos, Le(max, SCap(s)), nil)
		}
		g := And(Le(Zero, lo), Le(lo, hi), Le(hi, max))
		if g != True {
			e.oblige(st, "bounds", "slice", pos, g, nil)
			st.assume(g)
		}
		return MkSlc(SArrOf(s), Add(SOff(s), lo), Sub(hi, lo), Sub(max, lo))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := Num(at.Len())
		if hi == nil {
			hi = n
		}
		if max == nil {
			max = n
		}
		g := And(Le(Zero, lo), Le(lo, hi), Le(hi, max), Le(max, n))
		if g != True {
			e.oblige(st, "bounds", "array slice", pos, g, nil)
			st.assume(g)
		}
		r := e.tval(fr, st, x.X)
		e.nonnil(st, r, pos, e.nilName(x.X))
		return MkSlc(r, lo, Sub(hi, lo), Sub(max, lo))
	}
	unsup("slice of %s", x.X.Type())
	return nil
}

// ---------- maps ----------

func mapKeys(mt *types.Map) (string, string, string) {
	k := heapTypeKey(mt.Key()) + ":" + heapTypeKey(mt.Elem())
	return "MD:" + k, "MV:" + k, "ML:" + k
}

func (e *Engine) mapValSort(mt *types.Map) Sort { return sortOf(mt.Elem()) }

func (e *Engine) mapDom(st *State, m *Term, mt *types.Map) *Term {
	kd, _, _ := mapKeys(mt)
	return Select(e.heap(st, kd, SArr(SRef, SArr(sortOf(mt.Key()), SBool))), m)
}
func (e *Engine) mapVals(st *State, m *Term, mt *types.Map) *Term {
	_, kv, _ := mapKeys(mt)
	return Select(e.heap(st, kv, SArr(SRef, SArr(sortOf(mt.Key()), e.mapValSort(mt)))), m)
}
func (e *Engine) mapLen(st *State, m *Term, mt *types.Map) *Term {
	_, _, kl := mapKeys(mt)
	return Select(e.heap(st, kl, SArr(SRef, SInt)), m)
}

func (e *Engine) mapGet(st *State, m *Term, mt *types.Map, k *Term) (*Term, *Term) {
	vs := e.mapValSort(mt)
	in := And(Neq(m, Null), Select(e.mapDom(st, m, mt), k))
	if _, ok := freshIDs[RefID(m)]; ok {
		in = Select(e.mapDom(st, m, mt), k)
	}
	raw := Select(e.mapVals(st, m, mt), k)
	v := Ite(in, raw, zeroTerm(vs))
	if !raw.free && v != zeroTerm(vs) {
		st.assume(wfFact(raw, mt.Elem(), st.alloc))
	}
	return in, v
}

func (e *Engine) mapPut(st *State, m *Term, mt *types.Map, k, v *Term, pos string) {
	kd, kv, kl := mapKeys(mt)
	d := e.mapDom(st, m, mt)
	vals := e.mapVals(st, m, mt)
	n := e.mapLen(st, m, mt)
	e.heapWrite(st, kl, m, Ite(Select(d, k), n, Add(n, One)), pos)
	e.heapWrite(st, kd, m, Store(d, k, True), pos)
	e.heapWrite(st, kv, m, Store(vals, k, v), pos)
}

func (e *Engine) doNext(fr *Frame, st *State, x *ssa.Next, k func(*State, Val)) {
	it := e.val(fr, st, x.Iter).(*IterVal)
	if it.m == nil {
		// string iteration: position, rune
		p := e.ghost(st, it.key, SInt)
		s := it.str
		e.paths++
		st2 := st.clone()
		regs := copyRegs(fr)
		done := Ge(p, StrLen(s))
		st.assume(done)
		k(st, &TupleVal{[]Val{False, Zero, Zero}})
		restoreRegs(fr, regs)
		st2.assume(Not(done))
		w := Fresh("runewidth", SInt)
		r := App("runeat", SInt, s, p)
		st2.assume(And(Le(One, w), Le(w, Num(4)), Le(Add(p, w), StrLen(s)), Le(Zero, r), Le(r, Num(0x10ffff))))
		st2.assume(Eq(w, App("runewidth", SInt, s, p)))
		c := StrAt(s, p)
		st2.assume(And(Le(Zero, c), Lt(c, Num(256)), Implies(Lt(c, Num(128)), And(Eq(r, c), Eq(w, One))), Implies(Le(Num(128), c), Le(Num(128), r))))
		e.setGhost(st2, it.key, Add(p, w))
		k(st2, &TupleVal{[]Val{True, p, r}})
		return
	}
	ks, vs := sortOf(it.mt.Key()), e.mapValSort(it.mt)
	vis := e.ghost(st, it.key, SArr(ks, SBool))
	dom := e.mapDom(st, it.m, it.mt)
	e.paths++
	st2 := st.clone()
	regs := copyRegs(fr)
	// finished: every key was visited
	b := Bound("k", ks)
	st.assume(Quant("forall", []*Term{b}, Implies(And(Neq(it.m, Null), Select(dom, b)), Select(vis, b)), [][]*Term{{Select(dom, b)}, {Select(vis, b)}}))
	k(st, &TupleVal{[]Val{False, zeroTerm(ks), zeroTerm(vs)}})
	restoreRegs(fr, regs)
	key := Fresh("key", ks)
	st2.assume(And(Neq(it.m, Null), Select(dom, key), Not(Select(vis, key))))
	st2.assume(wfFact(key, it.mt.Key(), st2.alloc))
	v := Select(e.mapVals(st2, it.m, it.mt), key)
	st2.assume(wfFact(v, it.mt.Elem(), st2.alloc))
	e.setGhost(st2, it.key, Store(vis, key, True))
	k(st2, &TupleVal{[]Val{True, key, v}})
}

// ---------- interfaces ----------

func (e *Engine) typeID(t types.Type) *Term {
	k := typeKey(t)
	n, ok := e.typeIDs[k]
	if !ok {
		n = len(e.typeIDs) + 1
		e.typeIDs[k] = n
	}
	return Num(int64(n))
}

func (e *Engine) makeIface(st *State, v Val, t types.Type) *Term {
	if sv, ok := v.(*StructVal); ok {
		_ = sv
		i := Fresh("iface_"+clean(typeKey(t)), SIface)
		e.ifaceTypes[typeKey(t)] = t
		st.assume(Neq(i, NilIface))
		st.assume(Eq(App("itype", SInt, i), e.typeID(t)))
		return i
	}
	x := e.term(v, t)
	if _, isI := t.Underlying().(*types.Interface); isI {
		return x
	}
	i := App("box:"+typeKey(t), SIface, x)
	boxTypes["box:"+typeKey(t)] = t
	st.assume(Neq(i, NilIface))
	st.assume(Eq(App("itype", SInt, i), e.typeID(t)))
	st.assume(Eq(App("unbox:"+typeKey(t), x.sort, i), x))
	return i
}

var boxTypes = map[string]types.Type{}

func (e *Engine) typeIs(i *Term, t types.Type) *Term {
	if _, isI := t.Underlying().(*types.Interface); isI {
		return And(Neq(i, NilIface), App("implements:"+typeKey(t), SBool, i))
	}
	return And(Neq(i, NilIface), Eq(App("itype", SInt, i), e.typeID(t)))
}

func (e *Engine) unbox(st *State, i *Term, t types.Type) Val {
	if _, isI := t.Underlying().(*types.Interface); isI {
		return i
	}
	if isStruct(t) {
		return e.freshVal(st, t, "unboxed")
	}
	if i.op == "box:"+typeKey(t) {
		return i.args[0]
	}
	v := App("unbox:"+typeKey(t), sortOf(t), i)
	st.assume(Implies(e.typeIs(i, t), wfFact(v, t, st.alloc)))
	return v
}

// ---------- arithmetic ----------

func tz(t *Term) int {
	switch {
	case t.kind == kNum:
		if t.num.Sign() == 0 {
			return 64
		}
		return int(t.num.TrailingZeroBits())
	case t.op == "*" && t.args[0].kind == kNum:
		return tz(t.args[0]) + tz(t.args[1])
	case t.op == "+":
		m := 64
		for _, a := range t.args {
			if k := tz(a); k < m {
				m = k
			}
		}
		return m
	case t.op == "mod" && t.args[1].kind == kNum:
		a, b := tz(t.args[0]), tz(t.args[1])
		if b < a {
			return b
		}
		return a
	case t.op == "bitor":
		a, b := tz(t.args[0]), tz(t.args[1])
		if b < a {
			return b
		}
		return a
	case t.op == "ite":
		a, b := tz(t.args[1]), tz(t.args[2])
		if b < a {
			return b
		}
		return a
	}
	return 0
}

func bitAnd(a, b *Term) *Term {
	if a.kind == kNum {
		a, b = b, a
	}
	if b.kind == kNum && b.num.Sign() >= 0 {
		if a.kind == kNum && a.num.Sign() >= 0 {
			return BigNum(new(big.Int).And(a.num, b.num))
		}
		// runs of one bits
		var parts []*Term
		n := b.num.BitLen()
		for i := 0; i < n; {
			if b.num.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < n && b.num.Bit(j) == 1 {
				j++
			}
			parts = append(parts, Mul(pow2(i), ModE(DivE(a, pow2(i)), pow2(j-i))))
			i = j
		}
		return Add(append(parts, Zero)...)
	}
	if a == b {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("bitand", SInt, a, b)
}

func bitOr(a, b *Term) *Term {
	if a.kind == kNum || b.kind == kNum {
		return Sub(Add(a, b), bitAnd(a, b))
	}
	ka, kb := tz(a), tz(b)
	if ka < kb {
		a, b = b, a
		ka = kb
	}
	if ka > 0 {
		return Ite(And(Le(Zero, b), Lt(b, pow2(ka)), Le(Zero, a)), Add(a, b), App("bitor", SInt, a, b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("bitor", SInt, a, b)
}

func (e *Engine) wrap(t *Term, ty types.Type, op token.Token) *Term {
	bits, uns, ok := intInfo(ty)
	if !ok || t.kind == kNum && t.num.Sign() >= 0 && t.num.BitLen() < bits {
		return t
	}
	if !uns {
		if bits == 64 {
			return t // mathematical integers (stated assumption)
		}
		m := ModE(t, pow2(bits))
		return Ite(And(Le(BigNum(new(big.Int).Neg(pow2(bits-1).num)), t), Lt(t, pow2(bits-1))), t,
			Ite(Lt(m, pow2(bits-1)), m, Sub(m, pow2(bits))))
	}
	switch op {
	case token.ADD:
		return Ite(Lt(t, pow2(bits)), t, Sub(t, pow2(bits)))
	case token.SUB:
		return Ite(Le(Zero, t), t, Add(t, pow2(bits)))
	}
	return ModE(t, pow2(bits))
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (e *Engine) binop(st *State, op token.Token, xv, yv Val, xt, yt, rt types.Type, pos string) Val {
	// struct equality
	if sx, ok := xv.(*StructVal); ok {
		sy := yv.(*StructVal)
		var cs []*Term
		s := xt.Underlying().(*types.Struct)
		for i := range sx.fields {
			ft := s.Field(i).Type()
			cs = append(cs, e.binop(st, token.EQL, sx.fields[i], sy.fields[i], ft, ft, rt, pos).(*Term))
		}
		r := And(cs...)
		if op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	if fx, ok := xv.(*FuncVal); ok && (op == token.EQL || op == token.NEQ) {
		if fx.fn != nil {
			return BoolT(op == token.NEQ) // only comparable with nil
		}
	}
	x, y := e.term(xv, xt), e.term(yv, yt)
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if x.sort == SFlt {
			r = App("feq", SBool, x, y)
		} else if x.sort == SSlc {
			// only comparison with nil
			if y == NilSlc {
				r = Eq(SArrOf(x), Null)
			} else {
				r = Eq(SArrOf(y), Null)
			}
		} else {
			if x.sort != y.sort {
				// interface compared with concrete value
				if x.sort == SIface {
					y = e.makeIface(st, y, yt)
				} else if y.sort == SIface {
					x = e.makeIface(st, x, xt)
				}
			}
			r = Eq(x, y)
		}
		if op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	if x.sort == SFlt {
		switch op {
		case token.LSS:
			return App("flt", SBool, x, y)
		case token.GTR:
			return App("flt", SBool, y, x)
		case token.LEQ:
			return App("fle", SBool, x, y)
		case token.GEQ:
			return App("fle", SBool, y, x)
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return App("f"+map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}[op], SFlt, x, y)
		}
	}
	if x.sort == SStr {
		lt := func(a, b *Term) *Term {
			la, ok1 := strLits[a]
			lb, ok2 := strLits[b]
			if ok1 && ok2 {
				return BoolT(la < lb)
			}
			return App("strlt", SBool, a, b)
		}
		switch op {
		case token.ADD:
			return StrCat(x, y)
		case token.LSS:
			return lt(x, y)
		case token.GTR:
			return lt(y, x)
		case token.LEQ:
			return Not(lt(y, x))
		case token.GEQ:
			return Not(lt(x, y))
		}
	}
	if x.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return And(x, y)
		case token.OR, token.LOR:
			return Or(x, y)
		}
	}
	if x.sort != SInt {
		unsup("operator %s on %s", op, x.sort)
	}
	switch op {
	case token.LSS:
		return Lt(x, y)
	case token.LEQ:
		return Le(x, y)
	case token.GTR:
		return Lt(y, x)
	case token.GEQ:
		return Le(y, x)
	case token.ADD:
		return e.wrap(Add(x, y), rt, op)
	case token.SUB:
		return e.wrap(Sub(x, y), rt, op)
	case token.MUL:
		return e.wrap(Mul(x, y), rt, op)
	case token.QUO, token.REM:
		if y.kind != kNum {
			e.oblige(st, "divzero", "", pos, Neq(y, Zero), nil)
		}
		_, uns, _ := intInfo(rt)
		if uns || y.kind == kNum && y.num.Sign() > 0 && nonneg(x) {
			if op == token.QUO {
				return DivE(x, y)
			}
			return ModE(x, y)
		}
		ax := Ite(Le(Zero, x), x, Sub(Zero, x))
		ay := Ite(Le(Zero, y), y, Sub(Zero, y))
		if op == token.QUO {
			q := DivE(ax, ay)
			return Ite(Eq(Le(Zero, x), Le(Zero, y)), q, Sub(Zero, q))
		}
		m := ModE(ax, ay)
		return Ite(Le(Zero, x), m, Sub(Zero, m))
	case token.AND:
		return bitAnd(x, y)
	case token.OR:
		return bitOr(x, y)
	case token.XOR:
		if x.kind == kNum || y.kind == kNum {
			return Sub(Add(x, y), Mul(Num(2), bitAnd(x, y)))
		}
		return App("bitxor", SInt, x, y)
	case token.AND_NOT:
		return Sub(x, bitAnd(x, y))
	case token.SHL, token.SHR:
		bits, uns, _ := intInfo(rt)
		if y.kind == kNum && y.num.IsInt64() {
			k := int(y.num.Int64())
			if op == token.SHL {
				if k >= bits {
					return Zero
				}
				return e.wrap(Mul(x, pow2(k)), rt, token.MUL)
			}
			if k >= bits && uns {
				return Zero
			}
			return DivE(x, pow2(k))
		}
		if op == token.SHL {
			return App("shl", SInt, x, y)
		}
		return App("shr", SInt, x, y)
	}
	unsup("operator %s", op)
	return nil
}

func nonneg(t *Term) bool {
	switch t.op {
	case "slen", "strlen", "mod":
		return true
	}
	return t.kind == kNum && t.num.Sign() >= 0
}

func (e *Engine) convert(st *State, v Val, from, to types.Type, pos string) Val {
	if a, ok := v.(*Addr); ok {
		_ = a
	}
	fb, uf, okf := intInfo(from)
	tb, ut, okt := intInfo(to)
	switch {
	case okf && okt:
		x := e.term(v, from)
		if x.kind == kNum {
			n := new(big.Int).Mod(x.num, pow2(tb).num)
			if !ut && n.Cmp(pow2(tb-1).num) >= 0 {
				n.Sub(n, pow2(tb).num)
			}
			return BigNum(n)
		}
		if ut {
			if uf && fb <= tb {
				return x
			}
			if !uf && nonneg(x) && tb >= 64 {
				return x
			}
			if !uf && fb == 64 && tb == 64 {
				return Ite(Le(Zero, x), x, Add(x, pow2(64)))
			}
			return ModE(x, pow2(tb))
		}
		if !uf && fb <= tb || uf && fb < tb {
			return x
		}
		if uf && fb == tb {
			return Ite(Lt(x, pow2(tb-1)), x, Sub(x, pow2(tb)))
		}
		m := ModE(x, pow2(tb))
		return Ite(Lt(m, pow2(tb-1)), m, Sub(m, pow2(tb)))
	case okf && isFloat(to):
		return App("i2f", SFlt, e.term(v, from))
	case isFloat(from) && okt:
		r := App("f2i:"+typeKey(to), SInt, e.term(v, from))
		st.assume(rangeFact(r, to))
		return r
	case isFloat(from) && isFloat(to):
		return App("f2f", SFlt, e.term(v, from))
	}
	if tbs, ok := to.Underlying().(*types.Basic); ok && tbs.Info()&types.IsString != 0 {
		x := e.term(v, from)
		switch {
		case okf:
			r := App("rune2str", SStr, x)
			st.assume(And(Le(One, StrLen(r)), Le(StrLen(r), Num(4))))
			return r
		case x.sort == SSlc:
			et := from.Underlying().(*types.Slice).Elem()
			row := Select(e.heap(st, "E:"+heapTypeKey(et), SArr(SRef, SArr(SInt, SInt))), SArrOf(x))
			if heapTypeKey(et) == "uint8" {
				r := BStr(row, SOff(x), SLen(x))
				return r
			}
			return App("runes2str", SStr, row, SOff(x), SLen(x))
		case x.sort == SStr:
			return x
		}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok {
		if b, ok := from.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s := e.term(v, from)
			r := e.newRef(st, "bytes")
			key := "E:" + heapTypeKey(sl.Elem())
			if heapTypeKey(sl.Elem()) != "uint8" {
				unsup("conversion of string to %s", to)
			}
			row := Fresh("row", SArr(SInt, SInt))
			i := Bound("i", SInt)
			st.assume(Quant("forall", []*Term{i}, Implies(And(Le(Zero, i), Lt(i, StrLen(s))), Eq(Select(row, i), StrAt(s, i))), [][]*Term{{Select(row, i)}}))
			h := e.heap(st, key, SArr(SRef, SArr(SInt, SInt)))
			e.setHeap(st, key, r, Store(h, r, row))
			st.assume(Eq(BStr(row, Zero, StrLen(s)), s))
			return MkSlc(r, Zero, StrLen(s), StrLen(s))
		}
		if _, ok := from.Underlying().(*types.Slice); ok {
			return v
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}
