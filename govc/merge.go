package main

import (
	"golang.org/x/tools/go/ssa"
)

// State merging (contracts with the `merge` option): the paths which fork at a
// branch are joined again at the blocks the branch immediately dominates, and
// the paths through an inlined callee are joined where it returns. A joined
// state says of each path that when it was the one taken (its guard holds) all
// its facts hold and every place has its value.

type arrival struct {
	st   *State
	vals []Val
}

type merger struct {
	fr       *Frame
	at       *ssa.BasicBlock
	arrivals []*arrival
}

func (e *Engine) merging() bool { return e.run != nil && e.run.c != nil && e.run.c.merge }

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

// joinsOf: the blocks at which the paths forked at the end of b are joined, in reverse postorder.
func (e *Engine) joinsOf(fn *ssa.Function, b *ssa.BasicBlock) []*ssa.BasicBlock {
	if e.joins == nil {
		e.joins = map[*ssa.BasicBlock][]*ssa.BasicBlock{}
		e.rpo = map[*ssa.Function][]*ssa.BasicBlock{}
	}
	if js, ok := e.joins[b]; ok {
		return js
	}
	order, ok := e.rpo[fn]
	if !ok {
		seen := map[*ssa.BasicBlock]bool{}
		var post []*ssa.BasicBlock
		var walk func(x *ssa.BasicBlock)
		walk = func(x *ssa.BasicBlock) {
			seen[x] = true
			for i := len(x.Succs) - 1; i >= 0; i-- {
				if !seen[x.Succs[i]] {
					walk(x.Succs[i])
				}
			}
			post = append(post, x)
		}
		walk(fn.Blocks[0])
		for i := len(post) - 1; i >= 0; i-- {
			order = append(order, post[i])
		}
		e.rpo[fn] = order
	}
	li := e.loopInfoOf(fn)
	var js []*ssa.BasicBlock
	for _, j := range order {
		if j.Idom() != b || len(j.Preds) < 2 {
			continue
		}
		ok := true
		for h, l := range li.headers {
			if l.blocks[b] && (!l.blocks[j] || h == j) {
				ok = false
			}
		}
		if ok {
			js = append(js, j)
		}
	}
	e.joins[b] = js
	return js
}

// arrive: is a path that reaches b from pred to wait there for its siblings?
func (e *Engine) arrive(fr *Frame, b, pred *ssa.BasicBlock, st *State) bool {
	for i := len(e.mergers) - 1; i >= 0; i-- {
		m := e.mergers[i]
		if m.fr != fr || m.at != b {
			continue
		}
		a := &arrival{st: st}
		for _, p := range phisOf(b) {
			for k, q := range b.Preds {
				if q == pred {
					a.vals = append(a.vals, e.val(fr, st, p.Edges[k]))
					break
				}
			}
		}
		m.arrivals = append(m.arrivals, a)
		return true
	}
	return false
}

// branchMerged runs both sides of a branch and what follows their joins.
func (e *Engine) branchMerged(fr *Frame, b *ssa.BasicBlock, js []*ssa.BasicBlock, run func()) {
	regs := copyRegs(fr)
	base := len(e.mergers)
	for i := len(js) - 1; i >= 0; i-- {
		e.mergers = append(e.mergers, &merger{fr: fr, at: js[i]})
	}
	run()
	for len(e.mergers) > base {
		m := e.mergers[len(e.mergers)-1]
		e.mergers = e.mergers[:len(e.mergers)-1]
		phis := phisOf(m.at)
		for _, a := range e.mergeArrivals(m.arrivals) {
			restoreRegs(fr, regs)
			regs = copyRegs(fr)
			for i, p := range phis {
				fr.regs[p] = a.vals[i]
			}
			if hdr := e.loopInfoOf(fr.fn).headers[m.at]; hdr != nil {
				e.enterLoop(fr, hdr, nil, a.st)
				continue
			}
			e.execFrom(fr, m.at, nil, len(phis), a.st)
		}
	}
}

func (e *Engine) mergeArrivals(as []*arrival) []*arrival {
	var live []*arrival
	for _, a := range as {
		if !a.st.dead {
			live = append(live, a)
		}
	}
	var out []*arrival
	for _, a := range live {
		done := false
		for i, o := range out {
			if m := e.merge2(o, a); m != nil {
				out[i] = m
				done = true
				break
			}
		}
		if !done {
			out = append(out, a)
		}
	}
	return out
}

func factN(f *Facts) int {
	if f == nil {
		return 0
	}
	return f.n
}

func mergeVal(g *Term, a, b Val) (Val, bool) {
	if a == b {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort {
			return nil, false
		}
		return Ite(g, x, y), true
	case *StructVal:
		y, ok := b.(*StructVal)
		if !ok || len(x.fields) != len(y.fields) {
			return nil, false
		}
		n := &StructVal{typ: x.typ}
		for i := range x.fields {
			v, ok := mergeVal(g, x.fields[i], y.fields[i])
			if !ok {
				return nil, false
			}
			n.fields = append(n.fields, v)
		}
		return n, true
	case *TupleVal:
		y, ok := b.(*TupleVal)
		if !ok || len(x.vals) != len(y.vals) {
			return nil, false
		}
		n := &TupleVal{}
		for i := range x.vals {
			v, ok := mergeVal(g, x.vals[i], y.vals[i])
			if !ok {
				return nil, false
			}
			n.vals = append(n.vals, v)
		}
		return n, true
	case *FuncVal:
		y, ok := b.(*FuncVal)
		if ok && x.fn != nil && x.fn == y.fn && len(x.bindings) == len(y.bindings) && x.builtin == y.builtin && x.cb == y.cb && x.term == y.term {
			same := x.recv == y.recv
			for i := range x.bindings {
				same = same && x.bindings[i] == y.bindings[i]
			}
			if same {
				return x, true
			}
		}
	}
	return nil, false
}

// merge2 joins two states which are the same up to values; nil when they are not.
func (e *Engine) merge2(a, b *arrival) *arrival {
	sa, sb := a.st, b.st
	if sa.lockSt != sb.lockSt || len(sa.active) != len(sb.active) || len(sa.frames) != len(sb.frames) || len(a.vals) != len(b.vals) {
		return nil
	}
	for i := range sa.active {
		if sa.active[i] != sb.active[i] {
			return nil
		}
	}
	for i := range sa.frames {
		if sa.frames[i] != sb.frames[i] {
			return nil
		}
	}
	nd := func(s *State) int {
		n := 0
		for _, d := range s.defers {
			if len(d) > 0 {
				n++
			}
		}
		return n
	}
	if nd(sa) != nd(sb) {
		return nil
	}
	for k, d := range sa.defers {
		if len(d) != len(sb.defers[k]) {
			return nil
		}
		for i := range d {
			if d[i] != sb.defers[k][i] {
				return nil
			}
		}
	}
	// the facts of each since they parted
	var fa, fb []*Term
	x, y := sa.facts, sb.facts
	for x != y {
		if factN(x) >= factN(y) {
			fa = append(fa, x.t)
			x = x.prev
		} else {
			fb = append(fb, y.t)
			y = y.prev
		}
	}
	rev := func(l []*Term) {
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	rev(fa)
	rev(fb)
	var g *Term
	if len(fa) > 0 && len(fb) > 0 && fa[0] == Not(fb[0]) && len(fa[0].String()) < 400 {
		g = fa[0]
	} else if len(fa) > 0 && len(fb) > 0 && Not(fa[0]) == fb[0] && len(fa[0].String()) < 400 {
		g = fa[0]
	} else {
		g = Fresh("joined", SBool)
	}
	ng := Not(g)
	st := sa.clone()
	st.facts = x
	n := &arrival{st: st}
	for i := range a.vals {
		v, ok := mergeVal(g, a.vals[i], b.vals[i])
		if !ok {
			return nil
		}
		n.vals = append(n.vals, v)
	}
	for k, v := range sa.cells {
		w, ok := sb.cells[k]
		if !ok {
			delete(st.cells, k)
			continue
		}
		m, ok := mergeVal(g, v, w)
		if !ok {
			return nil
		}
		st.cells[k] = m
	}
	var eqs []*Term
	if sa.alloc != sb.alloc {
		st.alloc = Fresh("alloc", SInt)
		eqs = append(eqs, Implies(g, Eq(st.alloc, sa.alloc)), Implies(ng, Eq(st.alloc, sb.alloc)))
	}
	joinTerm := func(hint string, p, q *Term) *Term {
		if p == q {
			return p
		}
		c := regHeap(Fresh(hint, p.sort), st.alloc)
		eqs = append(eqs, Implies(g, Eq(c, p)), Implies(ng, Eq(c, q)))
		return c
	}
	keys := map[string]bool{}
	for k := range sa.heaps {
		keys[k] = true
	}
	for k := range sb.heaps {
		keys[k] = true
	}
	for _, k := range sortedSet(keys) {
		var s Sort
		if h, ok := sa.heaps[k]; ok {
			s = h.sort
		} else {
			s = sb.heaps[k].sort
		}
		st.heaps[k] = joinTerm("h_"+clean(k), e.heap(sa, k, s), e.heap(sb, k, s))
	}
	keys = map[string]bool{}
	for k := range sa.ghosts {
		keys[k] = true
	}
	for k := range sb.ghosts {
		keys[k] = true
	}
	for _, k := range sortedSet(keys) {
		p, ok1 := sa.ghosts[k]
		q, ok2 := sb.ghosts[k]
		if !ok1 || !ok2 {
			if len(k) > 5 && (k[:5] == "$iter" || k[:4] == "$vis") {
				delete(st.ghosts, k)
				continue
			}
			if ok1 {
				q = e.ghost(sb, k, p.sort)
			} else {
				p = e.ghost(sa, k, q.sort)
			}
		}
		if p == q {
			st.ghosts[k] = p
			continue
		}
		c := Fresh("g_"+clean(k), p.sort)
		eqs = append(eqs, Implies(g, Eq(c, p)), Implies(ng, Eq(c, q)))
		st.ghosts[k] = c
	}
	for _, t := range fa {
		if t != g {
			st.assume(Implies(g, t))
		}
	}
	for _, t := range fb {
		if t != ng {
			st.assume(Implies(ng, t))
		}
	}
	for _, t := range eqs {
		st.assume(t)
	}
	return n
}

func sortedSet(m map[string]bool) []string {
	x := map[string][]*Term{}
	for k := range m {
		x[k] = nil
	}
	return sortedKeys(x)
}
