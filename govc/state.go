package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- values ----------

// Val is *Term, *StructVal, *TupleVal, *FuncVal, *Addr, *IterVal.
type Val interface{}

type StructVal struct {
	typ    types.Type
	fields []Val
}
type TupleVal struct{ vals []Val }
type FuncVal struct {
	fn       *ssa.Function
	bindings []Val
	recv     Val // bound method
	builtin  string
	cb       *Callback // opaque callback parameter
	cbName   string
	term     *Term
}
type IterVal struct {
	key string // ghost key of the visited set
	m   *Term
	mt  *types.Map
	str *Term
}

// Addr is the location of a value: a path into a local cell, or a heap place.
type Addr struct {
	cell  *cellKey
	path  []pathEl
	hk    string // heap key ("F:..", "C:..", "E:..")
	ref   *Term
	idx   *Term
	typ   types.Type
	owner *Term  // struct object containing the field (guard checks)
	field string // Type.field
}

type pathEl struct {
	field int
	idx   *Term
}

type cellKey struct {
	frame int
	alloc ssa.Value
	name  string
}

type Facts struct {
	prev *Facts
	t    *Term
	n    int
}

func (f *Facts) list() []*Term {
	var out []*Term
	for x := f; x != nil; x = x.prev {
		out = append(out, x.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type deferred struct {
	call  *ssa.CallCommon
	instr ssa.Instruction
	fn    Val
	args  []Val
}

// wframe is a write frame: which pre-existing places may be written.
type wframe struct {
	base    *Term // allocation counter when the frame was opened
	seq     int
	allowed map[string][]*Term
	all     map[string]bool
	anyAll  bool
	loop    *loopRun // nil: function frame
	name    string
}

type State struct {
	cells  map[cellKey]Val
	heaps  map[string]*Term
	ghosts map[string]*Term
	alloc  *Term
	facts  *Facts
	defers map[int][]*deferred
	active []*loopRun
	frames []*wframe
	dead   bool
	lockSt *State // state right after the last lock acquisition
}

func (s *State) clone() *State {
	n := &State{alloc: s.alloc, facts: s.facts, lockSt: s.lockSt}
	n.cells = make(map[cellKey]Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.heaps = make(map[string]*Term, len(s.heaps))
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.ghosts = make(map[string]*Term, len(s.ghosts))
	for k, v := range s.ghosts {
		n.ghosts[k] = v
	}
	n.defers = make(map[int][]*deferred, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = v[:len(v):len(v)]
	}
	n.active = s.active[:len(s.active):len(s.active)]
	n.frames = s.frames[:len(s.frames):len(s.frames)]
	return n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t == False {
		s.dead = true
	}
	if t.kind == kApp && t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if t.kind == kQuant {
		for x, k := s.facts, 0; x != nil && k < 400; x, k = x.prev, k+1 {
			if x.t == t {
				return
			}
		}
	}
	n := 1
	if s.facts != nil {
		n = s.facts.n + 1
	}
	s.facts = &Facts{prev: s.facts, t: t, n: n}
}

// ---------- sorts of Go types ----------

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

const repoPrefix = "github.com/hound-search/hound/"

func shortPkg(p string) string { return strings.TrimPrefix(p, repoPrefix) }

func typeKey(t types.Type) string {
	k := types.TypeString(types.Unalias(t), func(p *types.Package) string { return shortPkg(p.Path()) })
	if strings.Contains(k, "any") {
		k = anyWord.ReplaceAllString(k, "${1}interface{}")
	}
	return k
}

var anyWord = regexp.MustCompile(`(^|[^\w.])any\b`)

// elemKey: byte/uint8 identical.
func heapTypeKey(t types.Type) string {
	t = types.Unalias(t)
	if b, ok := t.(*types.Basic); ok {
		return types.Typ[b.Kind()].Name()
	}
	if n, ok := t.(*types.Named); ok {
		// pointers to named slices are converted to one another (sort.Sort((*byName)(s)))
		if sl, ok := n.Underlying().(*types.Slice); ok {
			return typeKey(sl)
		}
	}
	return typeKey(t)
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }
func isArray(t types.Type) bool  { _, ok := t.Underlying().(*types.Array); return ok }

func sortOf(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0, u.Info()&types.IsComplex != 0:
			return SFlt
		case u.Kind() == types.UnsafePointer:
			return SRef
		case u.Kind() == types.UntypedNil:
			return SRef
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return SRef
	case *types.Slice:
		return SSlc
	case *types.Interface:
		return SIface
	case *types.Signature:
		return SFn
	case *types.Array:
		if isStruct(u.Elem()) {
			unsup("array of structs by value %s", t)
		}
		return SArr(SInt, sortOf(u.Elem()))
	case *types.Struct:
		unsup("struct value %s where a scalar is needed", typeKey(t))
	}
	unsup("no sort for type %s", t)
	return ""
}

func zeroTerm(s Sort) *Term {
	switch s {
	case SInt:
		return Zero
	case SBool:
		return False
	case SStr:
		return StrLit("")
	case SRef:
		return Null
	case SSlc:
		return NilSlc
	case SIface:
		return NilIface
	case SFn:
		return NilFn
	case SFlt:
		return Const("flt_0", SFlt)
	}
	if strings.HasPrefix(string(s), "(Array ") {
		_, e := arrParts(s)
		return ConstArr(s, zeroTerm(e))
	}
	unsup("no zero of sort %s", s)
	return nil
}

func zeroVal(t types.Type) Val {
	if st, ok := t.Underlying().(*types.Struct); ok {
		sv := &StructVal{typ: t}
		for i := 0; i < st.NumFields(); i++ {
			sv.fields = append(sv.fields, zeroVal(st.Field(i).Type()))
		}
		return sv
	}
	return zeroTerm(sortOf(t))
}

// ---------- integer ranges ----------

func intInfo(t types.Type) (bits int, unsigned bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, false, true
	case types.UntypedRune, types.Int32:
		return 32, false, true
	case types.Int8:
		return 8, false, true
	case types.Int16:
		return 16, false, true
	case types.Uint8:
		return 8, true, true
	case types.Uint16:
		return 16, true, true
	case types.Uint32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true, true
	}
	return 0, false, false
}

func pow2(n int) *Term { return BigNum(new(big.Int).Lsh(big.NewInt(1), uint(n))) }

func rangeFact(t *Term, ty types.Type) *Term {
	bits, uns, ok := intInfo(ty)
	if !ok || t.kind == kNum {
		return True
	}
	if uns {
		return And(Le(Zero, t), Lt(t, pow2(bits)))
	}
	if bits < 64 {
		return And(Le(BigNum(new(big.Int).Neg(pow2(bits-1).num)), t), Lt(t, pow2(bits-1)))
	}
	return True
}

var alloc0Const *Term

// heapAlloc: the allocation counter at the creation of an unknown heap or row.
var heapAlloc = map[*Term]*Term{}

func regHeap(h, alloc *Term) *Term {
	heapAlloc[h] = alloc
	return h
}

var heapWideTab = map[string]*Term{}

// heapWide: a read at a bound position; states well-formedness of all the
// values of the underlying unknown heap (or row).
func heapWide(t *Term, ty types.Type, alloc *Term) *Term {
	if t.op != "select" {
		return True
	}
	peel := func(h *Term) *Term {
		for h.op == "store" {
			h = h.args[0]
		}
		return h
	}
	b := peel(t.args[0])
	var x *Term
	var bvs []*Term
	if b.op == "select" {
		h := peel(b.args[0])
		if h.kind != kConst {
			return True
		}
		ks, _ := arrParts(b.sort)
		r, i := Bound("r", SRef), Bound("i", ks)
		x, bvs, b = Select(Select(h, r), i), []*Term{r, i}, h
	} else if b.kind == kConst {
		ks, _ := arrParts(b.sort)
		r := Bound("r", ks)
		x, bvs = Select(b, r), []*Term{r}
	} else {
		return True
	}
	if a, ok := heapAlloc[b]; ok {
		alloc = a
	} else if strings.HasSuffix(b.op, "@0") && alloc0Const != nil {
		alloc = alloc0Const
	}
	key := fmt.Sprintf("%d|%d|%d|%s", b.id, len(bvs), alloc.id, heapTypeKey(ty))
	if q, ok := heapWideTab[key]; ok {
		return q
	}
	f := wfVal(x, ty, alloc)
	if f != True {
		if bvs[0].sort == SRef {
			// unallocated places are unconstrained: fresh objects of callees live there
			f = Implies(Lt(RefID(bvs[0]), alloc), f)
		}
		f = Quant("forall", bvs, f, [][]*Term{{x}})
	}
	heapWideTab[key] = f
	return f
}

// wfFact: what holds of every value of that type, in a state with that allocation counter.
func wfFact(t *Term, ty types.Type, alloc *Term) *Term {
	if t.free {
		return heapWide(t, ty, alloc)
	}
	if t.op == "select" && (t.sort == SRef || t.sort == SSlc) {
		// a value found in a known old heap at a place allocated then was allocated then
		h, r := t.args[0], t.args[1]
		if h.op == "select" {
			h, r = h.args[0], h.args[1]
		}
		var base *Term
		if a, ok := heapAlloc[h]; ok {
			base = a
		} else if strings.HasSuffix(h.op, "@0") && alloc0Const != nil {
			base = alloc0Const
		}
		if base != nil && base != alloc && r.sort == SRef {
			x := t
			if t.sort == SSlc {
				x = SArrOf(t)
			}
			return And(wfVal(t, ty, alloc), Implies(Lt(RefID(r), base), Lt(RefID(x), base)))
		}
	}
	return wfVal(t, ty, alloc)
}

func wfVal(t *Term, ty types.Type, alloc *Term) *Term {
	switch t.sort {
	case SInt:
		return rangeFact(t, ty)
	case SRef:
		if t.op == "mkref" {
			return True
		}
		return And(Lt(RefID(t), alloc), Or(Eq(t, Null), Neq(RefID(t), Zero)))
	case SSlc:
		if t.op == "mkslc" {
			return True
		}
		return And(Le(Zero, SOff(t)), Le(Zero, SLen(t)), Le(SLen(t), SCap(t)), Lt(RefID(SArrOf(t)), alloc),
			Or(Neq(RefID(SArrOf(t)), Zero), Eq(t, NilSlc)))
	}
	return True
}

// ---------- engine ----------

type Obligation struct {
	Fn     string
	Kind   string
	Label  string
	Pos    string
	Goal   *Term
	Facts  *Facts
	Props  []string
	Smoke  bool // must NOT be provable
	Extra  []*axiom
	Sec    int
	Clause string
	run    *FuncRun
}

func (o *Obligation) Name() string {
	s := o.Fn + "/" + o.Kind
	if o.Label != "" {
		s += ":" + o.Label
	}
	return s
}

type recorder struct {
	cells  map[cellKey]bool
	heaps  map[string][]*Term // refs written; nil entry: anything
	ghosts map[string]bool
	alloc  bool
}

func newRecorder() *recorder {
	return &recorder{cells: map[cellKey]bool{}, heaps: map[string][]*Term{}, ghosts: map[string]bool{}}
}

type Engine struct {
	prog          *ssa.Program
	fset          *token.FileSet
	pkgs          map[string]*ssa.Package
	funcs         map[string]*ssa.Function
	keys          map[*ssa.Function]string
	specs         *Specs
	obs           []*Obligation
	noCands       int
	suppress      int
	recs          []*recorder
	run           *FuncRun
	frameSeq      int
	fids          map[string]int
	reified       map[string]bool
	constGlobals  map[*ssa.Global]bool
	callee        *Term
	globalNew     map[*ssa.Global]bool
	globalInit    map[*ssa.Global]*ssa.Const
	escapes       map[*ssa.Alloc]bool
	loopsOf       map[*ssa.Function]*loopInfo
	paths         int
	houdini       []*houdiniGoal // candidate goals collected during discovery
	names         map[string][]nameRec
	scratch       string
	typeIDs       map[string]int
	guards        map[string]*Monitor // "pkg.Type.field"
	usedTrusted   map[string]string
	usedAxioms    map[string]bool
	usedAssumes   map[string]bool
	inlined       map[string]bool
	axiomTerms    map[string]*axiom
	depth         int
	orphan        map[string]string
	renames       map[string]map[string]string
	maxPaths      int
	fieldMap      map[string]bool
	candSolves    int
	recordNames   bool
	nums          map[*ssa.Function]*loopNums
	usedLoops     map[string]bool
	quickCache    map[string]bool
	quickSem      chan bool
	typePkgs      map[string]*types.Package
	usedContracts map[string]bool
	ifaceTypes    map[string]types.Type
	joins         map[*ssa.BasicBlock][]*ssa.BasicBlock
	rpo           map[*ssa.Function][]*ssa.BasicBlock
	mergers       []*merger
}

// FuncRun is the verification of one function.
type FuncRun struct {
	key    string
	c      *Contract
	fn     *ssa.Function
	alloc0 *Term
	extra  []*axiom
	entry  *State
	exits  int
	err    string
	paths  int
	smokeN map[string]int
	pkg    string
	params map[string]SV
}

type Frame struct {
	id            int
	fn            *ssa.Function
	regs          map[ssa.Value]Val
	parent        *Frame
	ret           func(st *State, res []Val)
	free          []Val
	args          []Val
	c             *Contract // contract being verified (root frame only)
	root          *Frame
	entry         *State
	callpos       token.Pos
	depth         int
	loopOrd       map[*ssa.BasicBlock]int // ordinal in the root function's inlined tree
	ordBase       int
	contractNames map[string]int // header param name -> index
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	x := e.fset.Position(p)
	f := x.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, x.Line)
}

// splitGoal: conjunctions with quantified parts are separate obligations.
func splitGoal(g *Term) []*Term {
	var out []*Term
	switch {
	case g.op == "and" && g.kind == kApp:
		ground := True
		for _, a := range g.args {
			if hasQuant(a) {
				out = append(out, splitGoal(a)...)
			} else {
				ground = And(ground, a)
			}
		}
		if len(out) == 0 {
			return []*Term{g}
		}
		if ground != True {
			out = append(out, ground)
		}
		return out
	case g.op == "=>" && g.kind == kApp && hasQuant(g.args[1]):
		ps := splitGoal(g.args[1])
		if len(ps) < 2 {
			return []*Term{g}
		}
		for _, p := range ps {
			out = append(out, Implies(g.args[0], p))
		}
		return out
	case g.op == "=" && g.kind == kApp && g.args[0].sort == SBool && hasQuant(g):
		return append(splitGoal(Implies(g.args[0], g.args[1])), splitGoal(Implies(g.args[1], g.args[0]))...)
	case g.op == "forall" && g.kind == kQuant && g.args[0].op == "=" && g.args[0].args[0].sort == SBool && hasQuant(g.args[0]):
		b := g.args[0]
		return []*Term{Quant("forall", g.bvs, Implies(b.args[0], b.args[1]), g.pats), Quant("forall", g.bvs, Implies(b.args[1], b.args[0]), g.pats)}
	}
	return []*Term{g}
}

func hasQuant(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] || t.sort != SBool {
			return false
		}
		seen[t] = true
		if t.kind == kQuant {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (e *Engine) oblige(st *State, kind, label, pos string, goal *Term, props []string) *Obligation {
	if e.suppress > 0 || st.dead {
		return nil
	}
	if parts := splitGoal(goal); len(parts) > 1 {
		var o *Obligation
		for _, p := range parts {
			o = e.oblige(st, kind, label, pos, p, props)
		}
		return o
	}
	o := &Obligation{Fn: e.run.key, Kind: kind, Label: label, Pos: pos, Goal: goal, Facts: st.facts, Props: props, Extra: e.run.extra, run: e.run}
	if e.run.c != nil && e.run.c.timeout > 0 {
		o.Sec = e.run.c.timeout
	}
	e.obs = append(e.obs, o)
	return o
}

// ---------- heaps ----------

func (e *Engine) heap(st *State, key string, s Sort) *Term {
	if h, ok := st.heaps[key]; ok {
		return h
	}
	// lazily created: the same initial constant in every state of this run
	h := Const(clean(key)+"@0", s)
	if en := e.run.entry; en != nil {
		if x, ok := en.heaps[key]; ok {
			h = x
		} else {
			en.heaps[key] = h
		}
	}
	st.heaps[key] = h
	return h
}

func (e *Engine) setHeap(st *State, key string, ref *Term, h *Term) {
	st.heaps[key] = h
	for _, r := range e.recs {
		r.heaps[key] = append(r.heaps[key], ref)
	}
}

func (e *Engine) setGhost(st *State, key string, t *Term) {
	st.ghosts[key] = t
	for _, r := range e.recs {
		r.ghosts[key] = true
	}
}

func (e *Engine) ghost(st *State, key string, s Sort) *Term {
	if g, ok := st.ghosts[key]; ok {
		return g
	}
	g := Const("ghost_"+clean(key)+"@0", s)
	st.ghosts[key] = g
	if e.run.entry != nil {
		if _, ok := e.run.entry.ghosts[key]; !ok {
			e.run.entry.ghosts[key] = g
		}
	}
	return g
}

func (e *Engine) setCell(st *State, k cellKey, v Val) {
	st.cells[k] = v
	for _, r := range e.recs {
		r.cells[k] = true
	}
}

// heapWrite writes v at key[ref] after the frame check.
func (e *Engine) heapWrite(st *State, key string, ref *Term, v *Term, pos string) {
	e.frameCheck(st, key, ref, pos)
	h := e.heap(st, key, SArr(SRef, v.sort))
	e.setHeap(st, key, ref, Store(h, ref, v))
}

// frameCheck: the write to key[ref] must be allowed by every open frame.
func (e *Engine) frameCheck(st *State, key string, ref *Term, pos string) {
	if strings.HasPrefix(key, "$") {
		return
	}
	for _, f := range st.frames {
		if f.anyAll || f.all[key] {
			continue
		}
		if ref == nil {
			if f.loop != nil {
				f.loop.dropFrame(key)
				continue
			}
			e.oblige(st, "frame", key, pos, False, nil)
			continue
		}
		if _, fresh := freshIDs[RefID(ref)]; fresh && RefID(ref).seq > f.seq {
			continue
		}
		ok := false
		alts := []*Term{Le(f.base, RefID(ref))}
		// nothing can be written behind nil (writes through nil are failures of their own)
		alts = append(alts, Eq(RefID(ref), Zero))
		for _, a := range f.allowed[key] {
			if a == ref {
				ok = true
			}
			alts = append(alts, Eq(ref, a))
		}
		if ok {
			continue
		}
		goal := Or(alts...)
		if f.loop != nil {
			if f.loop.discover {
				e.houdini = append(e.houdini, &houdiniGoal{loop: f.loop, heap: key, facts: st.facts, goal: goal})
				continue
			}
			if f.loop.noframe[key] {
				continue
			}
			e.oblige(st, "loopframe", key, pos, goal, nil)
			continue
		}
		e.oblige(st, "frame", key, pos, goal, nil)
	}
}

// ---------- allocation ----------

var freshCount int

func (e *Engine) newRef(st *State, hint string) *Term {
	id := Fresh("id_"+hint, SInt)
	freshCount++
	freshIDs[id] = freshCount
	st.assume(Le(st.alloc, id))
	st.assume(Le(One, id))
	na := Fresh("alloc", SInt)
	st.assume(Eq(na, Add(id, One)))
	st.alloc = na
	for _, r := range e.recs {
		r.alloc = true
	}
	for g := range e.specs.zeroinit {
		st.assume(Eq(Select(e.ghost(st, g, SArr(SInt, SInt)), id), Zero))
	}
	return MkRef(id, PNil)
}

// bumpAlloc: a callee may have allocated.
func (e *Engine) bumpAlloc(st *State) {
	na := Fresh("alloc", SInt)
	st.assume(Le(st.alloc, na))
	st.alloc = na
	for _, r := range e.recs {
		r.alloc = true
	}
}

func (e *Engine) fid(t types.Type, i int) int {
	k := fmt.Sprintf("%s#%d", typeKey(t), i)
	if n, ok := e.fids[k]; ok {
		return n
	}
	n := len(e.fids) + 1
	e.fids[k] = n
	return n
}

func fieldKey(t types.Type, i int) string {
	s := t.Underlying().(*types.Struct)
	k := typeKey(t) + "." + s.Field(i).Name()
	keyTypes["F:"+k] = s.Field(i).Type()
	return k
}

// fieldAddr: address of field i of the struct of type t at ref.
func (e *Engine) fieldAddr(ref *Term, t types.Type, i int) Val {
	s := t.Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	if isStruct(ft) || isArray(ft) {
		return SubRef(ref, e.fid(t, i))
	}
	fk := fieldKey(t, i)
	if e.reified[fk] {
		return &Addr{hk: "C:" + heapTypeKey(ft), ref: SubRef(ref, e.fid(t, i)), typ: ft, owner: ref, field: fk}
	}
	return &Addr{hk: "F:" + fk, ref: ref, typ: ft, owner: ref, field: fk}
}

// addrOf turns a pointer value into a location of type t.
func (e *Engine) addrOf(v Val, t types.Type) *Addr {
	switch x := v.(type) {
	case *Addr:
		return x
	case *Term:
		if x.sort != SRef {
			unsup("address of sort %s", x.sort)
		}
		if isStruct(t) {
			return &Addr{ref: x, typ: t}
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			return &Addr{hk: "E:" + heapTypeKey(a.Elem()), ref: x, typ: t}
		}
		return &Addr{hk: "C:" + heapTypeKey(t), ref: x, typ: t}
	}
	unsup("address value %T", v)
	return nil
}

func (e *Engine) load(st *State, a *Addr, pos string) Val {
	if a.cell != nil {
		v, ok := st.cells[*a.cell]
		if !ok {
			unsup("read of cell %s before its allocation", a.cell.name)
		}
		for _, p := range a.path {
			v = projVal(v, p)
		}
		return v
	}
	if s, ok := a.typ.Underlying().(*types.Struct); ok {
		sv := &StructVal{typ: a.typ}
		for i := 0; i < s.NumFields(); i++ {
			sv.fields = append(sv.fields, e.load(st, e.addrOf(e.fieldAddr(a.ref, a.typ, i), s.Field(i).Type()), pos))
		}
		return sv
	}
	so := sortOf(a.typ)
	if a.idx != nil {
		row := Select(e.heap(st, a.hk, SArr(SRef, SArr(SInt, so))), a.ref)
		v := Select(row, a.idx)
		st.assume(wfFact(v, a.typ, st.alloc))
		return v
	}
	v := Select(e.heap(st, a.hk, SArr(SRef, so)), a.ref)
	st.assume(wfFact(v, a.typ, st.alloc))
	return v
}

func projVal(v Val, p pathEl) Val {
	if p.idx != nil {
		return Select(v.(*Term), p.idx)
	}
	return v.(*StructVal).fields[p.field]
}

func updVal(v Val, path []pathEl, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	if p.idx != nil {
		return Store(v.(*Term), p.idx, updVal(Select(v.(*Term), p.idx), path[1:], nv).(*Term))
	}
	sv := v.(*StructVal)
	n := &StructVal{typ: sv.typ, fields: append([]Val(nil), sv.fields...)}
	n.fields[p.field] = updVal(sv.fields[p.field], path[1:], nv)
	return n
}

func (e *Engine) store(st *State, a *Addr, v Val, pos string) {
	if a.cell != nil {
		if len(a.path) == 0 {
			e.setCell(st, *a.cell, v)
			return
		}
		e.setCell(st, *a.cell, updVal(st.cells[*a.cell], a.path, v))
		return
	}
	if s, ok := a.typ.Underlying().(*types.Struct); ok {
		sv, ok := v.(*StructVal)
		if !ok {
			unsup("store of %T into struct", v)
		}
		for i := 0; i < s.NumFields(); i++ {
			e.store(st, e.addrOf(e.fieldAddr(a.ref, a.typ, i), s.Field(i).Type()), sv.fields[i], pos)
		}
		return
	}
	t := e.term(v, a.typ)
	if a.idx != nil {
		key := a.hk
		e.frameCheck(st, key, a.ref, pos)
		h := e.heap(st, key, SArr(SRef, SArr(SInt, t.sort)))
		row := Select(h, a.ref)
		e.setHeap(st, key, a.ref, Store(h, a.ref, Store(row, a.idx, t)))
		return
	}
	ow := e.specs.onwrite[a.field]
	if a.field == "" {
		ow = nil
	}
	var prev *Term
	if ow != nil {
		prev = Select(e.heap(st, a.hk, SArr(SRef, t.sort)), a.ref)
	}
	e.heapWrite(st, a.hk, a.ref, t, pos)
	if ow != nil {
		env := &Env{e: e, st: st, vars: map[string]SV{ow.self: {a.owner, nil}, ow.v: {t, a.typ}, ow.prev: {prev, a.typ}}, pkg: ow.pkg, where: "onwrite " + a.field}
		s := e.ghostSort(env, ow.upd.name)
		e.ghost(st, ow.upd.name, s)
		e.setGhost(st, ow.upd.name, e.tm(env, e.eval(env, ow.upd.e)))
	}
}

// term turns a value into a first-class term of that type.
func (e *Engine) term(v Val, t types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Addr:
		if x.cell != nil {
			unsup("address of a local used as a value")
		}
		if x.hk == "" || strings.HasPrefix(x.hk, "C:") && x.idx == nil || isArray(x.typ) {
			return x.ref
		}
		unsup("address of %s used as a value", x.hk)
	case *FuncVal:
		if x.term != nil {
			return x.term
		}
		x.term = Fresh("fn", SFn)
		funcTerms[x.term] = x
		return x.term
	case nil:
		unsup("nil value")
	}
	unsup("value %T used as a term", v)
	return nil
}

// function values read out of a map held by a global
var funcFrom = map[*Term]string{}

var funcTerms = map[*Term]*FuncVal{}

// freshVal is an arbitrary value of the type.
func (e *Engine) freshVal(st *State, t types.Type, hint string) Val {
	if s, ok := t.Underlying().(*types.Struct); ok {
		sv := &StructVal{typ: t}
		for i := 0; i < s.NumFields(); i++ {
			sv.fields = append(sv.fields, e.freshVal(st, s.Field(i).Type(), hint+"."+s.Field(i).Name()))
		}
		return sv
	}
	if tt, ok := t.(*types.Tuple); ok {
		tv := &TupleVal{}
		for i := 0; i < tt.Len(); i++ {
			tv.vals = append(tv.vals, e.freshVal(st, tt.At(i).Type(), hint))
		}
		return tv
	}
	x := Fresh(hint, sortOf(t))
	st.assume(wfFact(x, t, st.alloc))
	return x
}

// heapsOfType lists the heap places making up a value of struct type t at ref.
func (e *Engine) places(ref *Term, t types.Type) []place {
	var out []place
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			v := e.fieldAddr(ref, t, i)
			if a, ok := v.(*Addr); ok {
				out = append(out, place{a.hk, a.ref, sortOf(ft)})
			} else {
				out = append(out, e.places(v.(*Term), ft)...)
			}
		}
	case *types.Array:
		out = append(out, place{"E:" + heapTypeKey(u.Elem()), ref, sortOf(t)})
	default:
		out = append(out, place{"C:" + heapTypeKey(t), ref, sortOf(t)})
	}
	return out
}

// exportedPlaces: the places a decoder sets.
func (e *Engine) exportedPlaces(ref *Term, t types.Type) []place {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return e.places(ref, t)
	}
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "UnmarshalJSON", "UnmarshalText", "GobDecode", "UnmarshalBinary":
			return e.places(ref, t) // decodes itself
		}
	}
	var out []place
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if !f.Exported() && !f.Embedded() {
			continue
		}
		v := e.fieldAddr(ref, t, i)
		if a, ok := v.(*Addr); ok {
			out = append(out, place{a.hk, a.ref, sortOf(f.Type())})
		} else {
			out = append(out, e.exportedPlaces(v.(*Term), f.Type())...)
		}
	}
	return out
}

type place struct {
	key string
	ref *Term // nil: whole heap
	s   Sort
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
