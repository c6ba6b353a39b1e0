package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------- natural loops ----------

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	pos    token.Pos
}

type loopInfo struct {
	headers map[*ssa.BasicBlock]*natLoop
	list    []*natLoop
}

func (e *Engine) loopInfoOf(fn *ssa.Function) *loopInfo {
	if li, ok := e.loopsOf[fn]; ok {
		return li
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]*natLoop{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := li.headers[h]
			if l == nil {
				l = &natLoop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				li.headers[h] = l
				li.list = append(li.list, l)
			}
			var up func(x *ssa.BasicBlock)
			up = func(x *ssa.BasicBlock) {
				if l.blocks[x] {
					return
				}
				l.blocks[x] = true
				for _, p := range x.Preds {
					up(p)
				}
			}
			up(b)
		}
	}
	for _, l := range li.list {
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				if p := in.Pos(); p.IsValid() && (!l.pos.IsValid() || p < l.pos) {
					l.pos = p
				}
			}
		}
	}
	sort.SliceStable(li.list, func(i, j int) bool {
		a, b := li.list[i], li.list[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		return len(a.blocks) > len(b.blocks)
	})
	e.loopsOf[fn] = li
	return li
}

// loopNums numbers the loops of fn and of the functions inlined into it, in source order.
type loopNums struct {
	local map[*ssa.BasicBlock]int
	calls map[ssa.Instruction]int
	total int
}

func (e *Engine) loopNumsOf(fn *ssa.Function, stack []*ssa.Function) *loopNums {
	ln := &loopNums{local: map[*ssa.BasicBlock]int{}, calls: map[ssa.Instruction]int{}}
	for _, f := range stack {
		if f == fn {
			return ln
		}
	}
	if len(stack) > 8 {
		return ln
	}
	type item struct {
		pos  token.Pos
		l    *natLoop
		call ssa.Instruction
		n    int
	}
	var items []item
	for _, l := range e.loopInfoOf(fn).list {
		items = append(items, item{pos: l.pos, l: l, n: 1})
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, isGo := in.(*ssa.Go); isGo {
				continue
			}
			callee := c.Common().StaticCallee()
			if callee == nil {
				continue
			}
			if k := e.iterKey(c.Common()); k != "" {
				items = append(items, item{pos: in.Pos(), call: in, n: 1})
				continue
			}
			if !e.inlinable(callee) {
				continue
			}
			sub := e.loopNumsOf(callee, append(stack, fn))
			if sub.total > 0 {
				items = append(items, item{pos: in.Pos(), call: in, n: sub.total})
			}
		}
	}
	sort.SliceStable(items, func(i, j int) bool { return items[i].pos < items[j].pos })
	n := 0
	for _, it := range items {
		if it.l != nil {
			ln.local[it.l.header] = n + 1
		} else {
			ln.calls[it.call] = n
		}
		n += it.n
	}
	ln.total = n
	return ln
}

// iterKey: the call passes a closure to a callee whose contract describes its callbacks.
func (e *Engine) iterKey(c *ssa.CallCommon) string {
	fn := c.StaticCallee()
	if fn == nil {
		return ""
	}
	ct := e.contractOf(fn)
	if ct != nil && len(ct.cbs) > 0 {
		return ct.key
	}
	return ""
}

func (e *Engine) inlinable(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 || e.contractOf(fn) != nil {
		return false
	}
	return e.inRepo(fn)
}

func (e *Engine) inRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), strings.TrimSuffix(repoPrefix, "/"))
	}
	return f.Synthetic != "" && len(f.Blocks) > 0 && f.Object() != nil && f.Object().Pkg() != nil &&
		strings.HasPrefix(f.Object().Pkg().Path(), strings.TrimSuffix(repoPrefix, "/"))
}

// ---------- loop execution ----------

type cand struct {
	name string
	f    func(st *State) *Term
	dead bool
}

type loopRun struct {
	fr         *Frame
	header     *ssa.BasicBlock
	blocks     map[*ssa.BasicBlock]bool
	spec       *LoopSpec
	ord        int
	pos        string
	discover   bool
	exitStates []*State
	backs      []*State
	noframe    map[string]bool
	entry      *State
	iterKey    string
	cands      []*cand
	frame      *wframe
	decVal     *Term
	startSeq   int
	visKey     string
	headPc     int
}

type houdiniGoal struct {
	loop  *loopRun
	heap  string
	facts *Facts
	goal  *Term
}

func (l *loopRun) dropFrame(key string) {
	if !l.noframe[key] {
		l.noframe[key] = true
	}
}

func (l *loopRun) inv() []*Clause {
	if l.spec == nil {
		return nil
	}
	return l.spec.inv
}

func (e *Engine) popLoopFrame(st *State, l *loopRun) {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].loop == l {
			st.frames = append(st.frames[:i:i], st.frames[i+1:]...)
		}
	}
}

func (e *Engine) frameNums(fr *Frame) *loopNums {
	if n, ok := e.nums[fr.fn]; ok {
		return n
	}
	n := e.loopNumsOf(fr.fn, nil)
	e.nums[fr.fn] = n
	return n
}

func (e *Engine) enterLoop(fr *Frame, nl *natLoop, pred *ssa.BasicBlock, st *State) {
	for _, in := range nl.header.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			unsup("phi at a loop header")
		}
	}
	l := &loopRun{fr: fr, header: nl.header, blocks: nl.blocks, pos: e.pos(nl.pos)}
	l.ord = fr.ordBase + e.frameNums(fr).local[nl.header]
	for _, in := range nl.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it, ok := fr.regs[nx.Iter].(*IterVal); ok {
				l.visKey = it.key
			}
		}
	}
	body := func(st *State) { e.execFrom(fr, nl.header, pred, 0, st) }
	e.runLoop(l, st, body)
}

// runLoop executes a (real or synthetic) loop: body is run from the loop head
// and calls backEdge or leaves the loop.
func (e *Engine) runLoop(l *loopRun, st *State, body func(st *State)) {
	c := e.run.c
	if c != nil {
		l.spec = c.loops[l.ord]
	}
	if l.spec != nil {
		e.usedLoops[fmt.Sprintf("%s#%d", e.run.key, l.ord)] = true
	}
	e.frameSeq++
	l.iterKey = fmt.Sprintf("$iter:%d", e.frameSeq)
	l.noframe = map[string]bool{}
	if l.spec != nil && l.spec.noframe {
		l.noframe["*"] = true
	}
	l.entry = st.clone()
	l.startSeq = seqNow
	e.setGhost(st, l.iterKey, Zero)
	l.entry.ghosts[l.iterKey] = Zero
	// invariants on entry
	for _, iv := range l.inv() {
		g := e.evalBool(e.loopEnv(l, st), iv)
		e.oblige(st, "invariant-entry", fmt.Sprintf("loop%d:%s", l.ord, clauseName(iv)), l.pos, g, iv.props)
	}

	// which places does the body modify?
	mod := newRecorder()
	mod.ghosts[l.iterKey] = true
	for pass := 0; ; pass++ {
		if pass > 12 {
			unsup("loop %d: modified set does not stabilise", l.ord)
		}
		rec := newRecorder()
		s := e.havocLoop(l, mod, nil)
		regs := copyRegs(l.fr)
		e.suppress++
		e.noCands++
		e.recs = append(e.recs, rec)
		saveH := e.houdini
		l.discover = true
		l.backs = nil
		s.active = append(s.active[:len(s.active):len(s.active)], l)
		for _, iv := range l.inv() {
			s.assume(e.evalBool(e.loopEnv(l, s), iv))
		}
		body(s)
		l.discover = false
		e.houdini = saveH
		e.recs = e.recs[:len(e.recs)-1]
		e.suppress--
		e.noCands--
		restoreRegs(l.fr, regs)
		grew := false
		for k := range rec.cells {
			if _, ok := l.entry.cells[k]; ok && !mod.cells[k] {
				mod.cells[k] = true
				grew = true
			}
		}
		for k, refs := range rec.heaps {
			if mergeRefs(mod, k, refs, l) {
				grew = true
			}
		}
		for k := range rec.ghosts {
			if _, ok := l.entry.ghosts[k]; !ok && (strings.HasPrefix(k, "$iter:") || strings.HasPrefix(k, "$vis")) {
				continue // of a loop inside this one
			}
			if !mod.ghosts[k] {
				mod.ghosts[k] = true
				grew = true
			}
		}
		if rec.alloc && !mod.alloc {
			mod.alloc = true
			grew = true
		}
		if !grew {
			break
		}
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "pass %d loop %d:", pass, l.ord)
			for k, v := range mod.heaps {
				fmt.Fprintf(os.Stderr, " %s(%d)", k, len(v))
				for _, r := range v {
					if r != nil {
						fmt.Fprintf(os.Stderr, " %s", r)
					}
				}
			}
			fmt.Fprintln(os.Stderr, len(mod.cells), len(mod.ghosts), mod.alloc)
		}
	}
	if e.noCands == 0 {
		e.houdiniLoop(l, mod, body)
	}
	// the real run
	s := e.havocLoop(l, mod, l.cands)
	for k := range mod.heaps {
		for _, r := range e.recs {
			r.heaps[k] = append(r.heaps[k], mod.heaps[k]...)
		}
	}
	for k := range mod.cells {
		for _, r := range e.recs {
			r.cells[k] = true
		}
	}
	for k := range mod.ghosts {
		for _, r := range e.recs {
			r.ghosts[k] = true
		}
	}
	if mod.alloc {
		for _, r := range e.recs {
			r.alloc = true
		}
	}
	l.backs = nil
	s.active = append(s.active[:len(s.active):len(s.active)], l)
	for _, iv := range l.inv() {
		s.assume(e.evalBool(e.loopEnv(l, s), iv))
	}
	e.smoke(s, fmt.Sprintf("loop%d", l.ord))
	if l.spec != nil && l.spec.dec != nil {
		l.decVal = e.term(e.eval(e.loopEnv(l, s), l.spec.dec).v, nil)
	}
	body(s)
}

// houdiniLoop: automatic invariants and frames.
func (e *Engine) houdiniLoop(l *loopRun, mod *recorder, body func(st *State)) {
	e.addCands(l, mod)
	// Houdini: drop the candidates and frames which are not preserved
	var live []*cand
	var gs []pgoal
	for _, cd := range l.cands {
		t := cd.f(l.entry)
		if t == nil {
			t = False
		}
		gs = append(gs, pgoal{l.entry.facts, t})
	}
	for i, ok := range e.proveAll(gs) {
		if ok {
			live = append(live, l.cands[i])
		}
	}
	l.cands = live
	for pass := 0; pass < 20; pass++ {
		s := e.havocLoop(l, mod, l.cands)
		regs := copyRegs(l.fr)
		e.suppress++
		e.recs = append(e.recs, newRecorder())
		saveH := e.houdini
		e.houdini = nil
		l.discover = true
		l.backs = nil
		s.active = append(s.active[:len(s.active):len(s.active)], l)
		for _, iv := range l.inv() {
			s.assume(e.evalBool(e.loopEnv(l, s), iv))
		}
		body(s)
		l.discover = false
		goals := e.houdini
		e.houdini = saveH
		e.recs = e.recs[:len(e.recs)-1]
		e.suppress--
		restoreRegs(l.fr, regs)
		changed := false
		gs = nil
		var hg []*houdiniGoal
		for _, g := range goals {
			if g.loop != l {
				e.houdini = append(e.houdini, g)
				continue
			}
			if l.noframe[g.heap] {
				continue
			}
			hg = append(hg, g)
			gs = append(gs, pgoal{g.facts, g.goal})
		}
		// all candidates at once at every back edge, then one by one where that fails
		ts := make([][]*Term, len(l.backs))
		for bi, b := range l.backs {
			for _, cd := range l.cands {
				t := cd.f(b)
				if t == nil {
					t = False
				}
				ts[bi] = append(ts[bi], t)
			}
			gs = append(gs, pgoal{b.facts, And(ts[bi]...)})
		}
		res := e.proveAll(gs)
		for i, g := range hg {
			if !res[i] && !l.noframe[g.heap] {
				l.noframe[g.heap] = true
				changed = true
			}
		}
		dead := map[*cand]bool{}
		for bi, b := range l.backs {
			if res[len(hg)+bi] {
				continue
			}
			var one []pgoal
			var who []*cand
			for i, cd := range l.cands {
				if !dead[cd] {
					one = append(one, pgoal{b.facts, ts[bi][i]})
					who = append(who, cd)
				}
			}
			for i, ok := range e.proveAll(one) {
				if !ok {
					dead[who[i]] = true
					changed = true
				}
			}
		}
		var keep []*cand
		for _, cd := range l.cands {
			if !dead[cd] {
				keep = append(keep, cd)
			}
		}
		l.cands = keep
		if !changed {
			break
		}
	}
}

func mergeRefs(mod *recorder, key string, refs []*Term, l *loopRun) bool {
	old, had := mod.heaps[key]
	have := map[*Term]bool{}
	anyOld := false
	for _, r := range old {
		if r == nil {
			anyOld = true
		}
		have[r] = true
	}
	grew := !had
	for _, r := range refs {
		if r != nil && r.seq > l.startSeq && r.op == "mkref" {
			if n, ok := freshIDs[r.args[0]]; ok && n > 0 && r.args[0].seq > l.startSeq {
				r = freshMark // allocated inside the loop
			}
		}
		if r != nil && r != freshMark && r.seq > l.startSeq {
			r = nil // varies
		}
		if anyOld && r == nil || have[r] {
			continue
		}
		have[r] = true
		old = append(old, r)
		grew = true
	}
	mod.heaps[key] = old
	return grew
}

var freshMark = Const("#fresh", SRef)

// havocLoop returns the state at the head of an arbitrary iteration.
func (e *Engine) havocLoop(l *loopRun, mod *recorder, cands []*cand) *State {
	s := l.entry.clone()
	if mod.alloc {
		na := Fresh("alloc", SInt)
		s.assume(Le(l.entry.alloc, na))
		s.alloc = na
	}
	for k := range mod.cells {
		if _, ok := s.cells[k]; !ok {
			continue
		}
		s.cells[k] = e.freshVal(s, k.alloc.Type().(*types.Pointer).Elem(), k.name)
	}
	it := Fresh("iter", SInt)
	s.assume(Le(Zero, it))
	for k := range mod.ghosts {
		if k == l.iterKey {
			s.ghosts[k] = it
			continue
		}
		if g, ok := s.ghosts[k]; ok {
			s.ghosts[k] = Fresh("g_"+k, g.sort)
		}
	}
	// write frame
	f := &wframe{base: l.entry.alloc, seq: l.startSeq, allowed: map[string][]*Term{}, all: map[string]bool{}, loop: l, name: fmt.Sprintf("loop%d", l.ord)}
	keys := sortedKeys(mod.heaps)
	arrs := map[string]map[*Term]bool{} // heap key -> base references in use before the loop
	addArr := func(hk string, t *Term) {
		if arrs[hk] == nil {
			arrs[hk] = map[*Term]bool{}
		}
		arrs[hk][t] = true
	}
	addVal := func(v *Term, t types.Type) {
		if t == nil {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if v.sort == SSlc {
				addArr("E:"+heapTypeKey(u.Elem()), SArrOf(v))
			}
		case *types.Pointer:
			if v.sort == SRef {
				for _, p := range e.places(v, u.Elem()) {
					addArr(p.key, p.ref)
				}
			}
		}
	}
	for k := range mod.cells {
		if v, ok := l.entry.cells[k]; ok {
			typedLeaves(v, k.alloc.Type().(*types.Pointer).Elem(), addVal)
		}
	}
	for _, hk := range keys {
		if h, ok := l.entry.heaps[hk]; ok {
			for _, r := range mod.heaps[hk] {
				if r != nil && r != freshMark {
					addVal(Select(h, r), keyTypes[hk])
				}
			}
		}
	}
	for _, hk := range keys {
		refs := mod.heaps[hk]
		varies, fresh := false, false
		var inv []*Term
		for _, r := range refs {
			switch {
			case r == nil:
				varies = true
			case r == freshMark:
				fresh = true
			default:
				inv = append(inv, r)
			}
		}
		f.allowed[hk] = append(f.allowed[hk], inv...)
		h, ok := s.heaps[hk]
		if !ok {
			h = e.heapByKey(s, hk)
		}
		_, vs := arrParts(h.sort)
		if !varies && !fresh {
			for _, r := range inv {
				x := regHeap(Fresh("h_"+hk, vs), s.alloc)
				h = Store(h, r, x)
				s.assume(e.heapValFact(hk, x, s))
			}
			s.heaps[hk] = h
			continue
		}
		if varies && (strings.HasPrefix(hk, "$") || l.noframe[hk] || l.noframe["*"]) {
			s.heaps[hk] = regHeap(Fresh("h_"+hk, h.sort), s.alloc)
			f.all[hk] = true
			continue
		}
		if varies {
			var as []*Term
			for a := range arrs[hk] {
				as = append(as, a)
			}
			sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
			explicit := l.spec != nil && len(l.spec.modifies) > 0
			if !explicit && (strings.HasPrefix(hk, "E:") || strings.HasPrefix(hk, "F:") || strings.HasPrefix(hk, "C:")) {
				for _, a := range as {
					if a != Null {
						f.allowed[hk] = append(f.allowed[hk], a)
					}
				}
			}
			if l.spec != nil {
				for _, m := range l.spec.modifies {
					for _, p := range e.evalPlaces(e.loopEnv(l, l.entry), m) {
						if p.key == hk {
							if p.ref == nil {
								f.all[hk] = true
							} else {
								f.allowed[hk] = append(f.allowed[hk], p.ref)
							}
						}
					}
				}
			}
		}
		nh := regHeap(Fresh("h_"+hk, h.sort), s.alloc)
		s.heaps[hk] = nh
		if f.all[hk] {
			continue
		}
		r := Bound("r", SRef)
		conds := []*Term{Lt(RefID(r), f.base)}
		for _, a := range f.allowed[hk] {
			conds = append(conds, Neq(r, a))
		}
		s.assume(Quant("forall", []*Term{r}, Implies(And(conds...), Eq(Select(nh, r), Select(h, r))), [][]*Term{{Select(nh, r)}}))
	}
	l.frame = f
	s.frames = append(s.frames[:len(s.frames):len(s.frames)], f)
	for _, cd := range cands {
		if t := cd.f(s); t != nil {
			s.assume(t)
		}
	}
	return s
}

// heapValFact: byte ranges and the like of whole rows are stated where they are read.
func (e *Engine) heapValFact(hk string, x *Term, s *State) *Term {
	switch x.sort {
	case SSlc:
		return wfFact(x, types.NewSlice(types.Typ[types.Int]), s.alloc)
	case SRef:
		return wfFact(x, types.NewPointer(types.Typ[types.Int]), s.alloc)
	}
	return True
}

func (e *Engine) heapByKey(s *State, hk string) *Term {
	if h, ok := e.run.entry.heaps[hk]; ok {
		return h
	}
	unsup("heap %s has no sort yet", hk)
	return nil
}

// keyTypes: the Go type of the values held in a field heap.
var keyTypes = map[string]types.Type{}

func typedLeaves(v Val, t types.Type, f func(*Term, types.Type)) {
	switch x := v.(type) {
	case *Term:
		f(x, t)
	case *StructVal:
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i, y := range x.fields {
			typedLeaves(y, st.Field(i).Type(), f)
		}
	}
}

func leafTerms(v Val) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *StructVal:
		var out []*Term
		for _, f := range x.fields {
			out = append(out, leafTerms(f)...)
		}
		return out
	}
	return nil
}

// cellLeaf reads a leaf of a cell value.
func leafAt(v Val, path []int) *Term {
	for _, p := range path {
		sv, ok := v.(*StructVal)
		if !ok {
			return nil
		}
		v = sv.fields[p]
	}
	t, _ := v.(*Term)
	return t
}

func (e *Engine) addCands(l *loopRun, mod *recorder) {
	add := func(name string, f func(st *State) *Term) {
		l.cands = append(l.cands, &cand{name: name, f: f})
	}
	iter := func(st *State) *Term { return st.ghosts[l.iterKey] }
	base := l.entry.alloc
	leafCands := func(name string, en *Term, ty types.Type, get func(st *State) *Term) {
		switch en.sort {
		case SInt:
			if ty != nil {
				if _, _, ok := intInfo(ty); !ok {
					return
				}
			}
			add(name+">=entry", func(st *State) *Term { return Le(en, get(st)) })
			add(name+"<=entry", func(st *State) *Term { return Le(get(st), en) })
			add(name+"==entry+iter", func(st *State) *Term { return Eq(get(st), Add(en, iter(st))) })
			add(name+"==entry-iter", func(st *State) *Term { return Eq(get(st), Sub(en, iter(st))) })
		case SSlc:
			add(name+".arr", func(st *State) *Term {
				v := get(st)
				return Or(Eq(SArrOf(v), SArrOf(en)), Le(base, RefID(SArrOf(v))))
			})
			add(name+".off", func(st *State) *Term { return Eq(SOff(get(st)), SOff(en)) })
			add(name+".pnil", func(st *State) *Term {
				return Implies(Eq(RefPath(SArrOf(en)), PNil), Eq(RefPath(SArrOf(get(st))), PNil))
			})
			add(name+".len>=", func(st *State) *Term { return Le(SLen(en), SLen(get(st))) })
			add(name+".len+iter", func(st *State) *Term { return Eq(SLen(get(st)), Add(SLen(en), iter(st))) })
			add(name+".end", func(st *State) *Term {
				v := get(st)
				return Implies(Eq(SArrOf(v), SArrOf(en)), Eq(Add(SOff(v), SLen(v)), Add(SOff(en), SLen(en))))
			})
		case SRef:
			add(name+".fresh", func(st *State) *Term {
				v := get(st)
				return Or(Eq(v, en), Le(base, RefID(v)))
			})
			add(name+".nonnil", func(st *State) *Term { return Neq(get(st), Null) })
		}
	}
	var keys []cellKey
	for k := range mod.cells {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].frame != keys[j].frame {
			return keys[i].frame < keys[j].frame
		}
		if keys[i].alloc.Pos() != keys[j].alloc.Pos() {
			return keys[i].alloc.Pos() < keys[j].alloc.Pos()
		}
		return keys[i].alloc.Name() < keys[j].alloc.Name()
	})
	for _, k := range keys {
		v, ok := l.entry.cells[k]
		if !ok {
			continue
		}
		k := k
		var walk func(v Val, path []int, t types.Type)
		walk = func(v Val, path []int, t types.Type) {
			if sv, ok := v.(*StructVal); ok {
				for i, f := range sv.fields {
					walk(f, append(path[:len(path):len(path)], i), t.Underlying().(*types.Struct).Field(i).Type())
				}
				return
			}
			if tm, ok := v.(*Term); ok {
				leafCands(k.name, tm, t, func(st *State) *Term { return leafAt(st.cells[k], path) })
			}
		}
		walk(v, nil, k.alloc.Type().(*types.Pointer).Elem())
	}
	for _, hk := range sortedKeys(mod.heaps) {
		if strings.HasPrefix(hk, "E:") || strings.HasPrefix(hk, "M") {
			continue
		}
		hk := hk
		h, ok := l.entry.heaps[hk]
		if !ok {
			continue
		}
		for _, r := range mod.heaps[hk] {
			if r == nil || r == freshMark {
				continue
			}
			r := r
			en := Select(h, r)
			if strings.HasPrefix(hk, "$") && en.sort != SInt {
				continue
			}
			if strings.HasPrefix(hk, "$") {
				add(hk+"==entry", func(st *State) *Term { return Eq(Select(st.heaps[hk], r), en) })
				add(hk+">=entry", func(st *State) *Term { return Le(en, Select(st.heaps[hk], r)) })
				add(hk+"==entry+iter", func(st *State) *Term { return Eq(Select(st.heaps[hk], r), Add(en, iter(st))) })
				continue
			}
			leafCands(hk, en, keyTypes[hk], func(st *State) *Term { return Select(st.heaps[hk], r) })
		}
	}
	if l.header != nil {
		add("cond", func(st *State) *Term {
			c := e.headerCond(l, st)
			if c != nil && c.op == "<" && c.kind == kApp {
				return Le(c.args[0], c.args[1])
			}
			return nil
		})
	}
}

// headerCond evaluates the condition of the loop head in a state.
func (e *Engine) headerCond(l *loopRun, st *State) (res *Term) {
	s := st.clone()
	regs := copyRegs(l.fr)
	e.suppress++
	e.recs = append(e.recs, newRecorder())
	nrec := len(e.recs)
	sup := e.suppress
	defer func() {
		e.recs = e.recs[:nrec-1]
		e.suppress = sup - 1
		restoreRegs(l.fr, regs)
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
			res = nil
		}
	}()
	saved := e.recs
	e.recs = nil // do not record effects
	defer func() { e.recs = saved }()
	for _, in := range l.header.Instrs {
		switch x := in.(type) {
		case *ssa.If:
			t, _ := e.val(l.fr, s, x.Cond).(*Term)
			return t
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return nil
			}
			e.doCall(l.fr, s, x, &x.Call, func(_ *State, res Val) { l.fr.regs[x] = res })
		case *ssa.Jump, *ssa.Return, *ssa.Panic, *ssa.RunDefers, *ssa.Select, *ssa.Next, *ssa.Phi:
			return nil
		default:
			e.instr(l.fr, s, in)
		}
	}
	return nil
}

func (e *Engine) backEdge(fr *Frame, l *loopRun, pred *ssa.BasicBlock, st *State) {
	// inner loops of the same or deeper frames are finished
	for i := len(st.active) - 1; i >= 0 && st.active[i] != l; i-- {
		if st.active[i].discover {
			return
		}
	}
	e.setGhost(st, l.iterKey, Add(st.ghosts[l.iterKey], One))
	if l.discover {
		l.backs = append(l.backs, st)
		return
	}
	if n, m := len(st.defers[fr.id]), len(l.entry.defers[fr.id]); n != m {
		unsup("defer inside a loop")
	}
	for _, iv := range l.inv() {
		g := e.evalBool(e.loopEnv(l, st), iv)
		e.oblige(st, "invariant", fmt.Sprintf("loop%d:%s", l.ord, clauseName(iv)), l.pos, g, iv.props)
	}
	var ts []*Term
	for _, cd := range l.cands {
		if t := cd.f(st); t != nil {
			ts = append(ts, t)
		}
	}
	if g := And(ts...); g != True {
		e.oblige(st, "auto-invariant", fmt.Sprintf("loop%d", l.ord), l.pos, g, nil)
	}
	e.smoke(st, fmt.Sprintf("back%d", l.ord))
	if l.decVal != nil {
		now := e.term(e.eval(e.loopEnv(l, st), l.spec.dec).v, nil)
		e.oblige(st, "decreases", fmt.Sprintf("loop%d", l.ord), l.pos, And(Lt(now, l.decVal), Le(Zero, l.decVal)), nil)
	}
}

func clauseName(c *Clause) string {
	if c.label != "" {
		return c.label
	}
	s := c.src
	if len(s) > 60 {
		s = s[:60] + "…"
	}
	return s
}

// proveAll tries candidate goals, in parallel; it is used for candidates only.
type pgoal struct {
	facts *Facts
	goal  *Term
}

func (e *Engine) proveAll(gs []pgoal) []bool {
	out := make([]bool, len(gs))
	scripts := make([]string, len(gs))
	lists := map[*Facts][]*Term{}
	var todo []int
	done := map[string]bool{}
	for i, g := range gs {
		if g.goal == True {
			out[i] = true
			continue
		}
		fl, ok := lists[g.facts]
		if !ok && g.facts != nil {
			fl = g.facts.list()
			lists[g.facts] = fl
		}
		for _, f := range fl {
			if f == g.goal || f == False {
				out[i] = true
			}
		}
		if out[i] || g.goal == False {
			continue
		}
		s := Script(fl, g.goal, e.run.extra)
		scripts[i] = s
		if r, ok := e.quickCache[s]; ok {
			out[i] = r
			continue
		}
		if !done[s] {
			done[s] = true
			todo = append(todo, i)
		}
	}
	var wg sync.WaitGroup
	res := make([]bool, len(gs))
	for _, i := range todo {
		wg.Add(1)
		e.quickSem <- true
		go func(i int) {
			defer func() { <-e.quickSem; wg.Done() }()
			res[i] = quickRun(scripts[i], e.scratch)
		}(i)
	}
	wg.Wait()
	for _, i := range todo {
		e.candSolves++
		e.quickCache[scripts[i]] = res[i]
	}
	for i := range gs {
		if scripts[i] != "" {
			out[i] = e.quickCache[scripts[i]]
		}
	}
	return out
}
