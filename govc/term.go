package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT-LIB sort, written out.
type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SRef   Sort = "Ref"
	SStr   Sort = "Str"
	SIface Sort = "Iface"
	SFn    Sort = "Fn"
	SFlt   Sort = "Flt"
	SSlc   Sort = "Slc"
	SUnit  Sort = "Unit"
	SPath  Sort = "Path"
)

func SArr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// arrElem returns the element sort of an array sort.
func arrParts(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	in := str[7 : len(str)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(in[:i]), Sort(in[i+1:])
			}
		}
	}
	panic("bad array sort " + str)
}

// Term is a hash-consed SMT term.
type Term struct {
	op    string // SMT operator or constant / variable name
	args  []*Term
	sort  Sort
	kind  tkind
	id    int
	seq   int // largest creation number of a free constant below
	free  bool
	bvs   []*Term   // quantifier: bound variables
	pats  [][]*Term // quantifier: patterns
	alts  []*Term   // quantifier: equivalent alternative versions (used when assumed)
	num   *big.Int
	bvars map[*Term]bool
}

type tkind int

const (
	kApp tkind = iota
	kConst
	kNum
	kBound
	kQuant
)

var (
	termTab = map[string]*Term{}
	termSeq int
	seqNow  int
)

func mk(op string, sort Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(string(sort))
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	key := sb.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	termSeq++
	t := &Term{op: op, args: args, sort: sort, kind: kApp, id: termSeq}
	for _, a := range args {
		if a.seq > t.seq {
			t.seq = a.seq
		}
		if a.free {
			t.free = true
			if t.bvars == nil {
				t.bvars = map[*Term]bool{}
			}
			for b := range a.bvars {
				t.bvars[b] = true
			}
		}
	}
	termTab[key] = t
	return t
}

// Const returns the (unique) free constant of that name.
func Const(name string, sort Sort) *Term {
	key := "const|" + name + "|" + string(sort)
	if t, ok := termTab[key]; ok {
		return t
	}
	termSeq++
	seqNow++
	t := &Term{op: name, sort: sort, kind: kConst, id: termSeq, seq: seqNow}
	if strings.HasSuffix(name, "@0") {
		t.seq = 0 // part of the initial state, whenever it is first mentioned
	}
	termTab[key] = t
	return t
}

var freshN = map[string]int{}

func Fresh(hint string, sort Sort) *Term {
	hint = clean(hint)
	for {
		freshN[hint]++
		n := fmt.Sprintf("%s!%d", hint, freshN[hint])
		if _, ok := termTab["const|"+n+"|"+string(sort)]; !ok {
			return Const(n, sort)
		}
	}
}

func clean(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '$', r == '@':
			sb.WriteRune(r)
		default:
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func Bound(hint string, sort Sort) *Term {
	termSeq++
	t := &Term{op: fmt.Sprintf("%s?%d", clean(hint), termSeq), sort: sort, kind: kBound, id: termSeq, free: true}
	t.bvars = map[*Term]bool{t: true}
	return t
}

func Num(n int64) *Term { return BigNum(big.NewInt(n)) }
func BigNum(n *big.Int) *Term {
	key := "num|" + n.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	termSeq++
	t := &Term{op: n.String(), sort: SInt, kind: kNum, id: termSeq, num: new(big.Int).Set(n)}
	termTab[key] = t
	return t
}

var (
	True  = mk("true", SBool)
	False = mk("false", SBool)
	Zero  = Num(0)
	One   = Num(1)
)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not" && a.kind == kApp:
		return a.args[0]
	}
	return mk("not", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True || seen[a] {
			return true
		}
		if a == False {
			return false
		}
		if a.op == "and" && a.kind == kApp {
			for _, b := range a.args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	for _, a := range out {
		if seen[Not(a)] {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk("and", SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == True {
			return True
		}
		if a == False || seen[a] {
			continue
		}
		if a.op == "or" && a.kind == kApp {
			for _, b := range a.args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[Not(a)] {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk("or", SBool, out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
	}
	return mk("ite", a.sort, c, a, b)
}

// isAllocRef: term is the address of an object allocated on this path: (mkref <fresh id const> pnil).
func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq of different sorts: %s:%s  %s:%s", a, a.sort, b, b.sort))
	}
	if a.kind == kNum && b.kind == kNum {
		return BoolT(a.num.Cmp(b.num) == 0)
	}
	if a.sort == SBool {
		switch {
		case a == True:
			return b
		case b == True:
			return a
		case a == False:
			return Not(b)
		case b == False:
			return Not(a)
		}
	}
	if a.sort == SInt {
		// linear normal form: x + c1 = x + c2
		d := Sub(a, b)
		if d.kind == kNum {
			return BoolT(d.num.Sign() == 0)
		}
	}
	if a.op == "mkref" && b.op == "mkref" {
		return And(Eq(a.args[0], b.args[0]), Eq(a.args[1], b.args[1]))
	}
	if a.op == "mkslc" && b.op == "mkslc" {
		return And(Eq(a.args[0], b.args[0]), Eq(a.args[1], b.args[1]), Eq(a.args[2], b.args[2]), Eq(a.args[3], b.args[3]))
	}
	if a.kind == kApp && b.kind == kApp && a.op != b.op && isPathCtor(a.op) && isPathCtor(b.op) {
		return False
	}
	if a.op == b.op && (a.op == "pfield" || a.op == "pelt") && a.kind == kApp && b.kind == kApp {
		return And(Eq(a.args[0], b.args[0]), Eq(a.args[1], b.args[1]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}

func isPathCtor(s string) bool { return s == "pnil" || s == "pfield" || s == "pelt" }

func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

// linear sums
type linsum struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func lin(t *Term, s *linsum, k *big.Int) {
	switch {
	case t.kind == kNum:
		s.c.Add(s.c, new(big.Int).Mul(k, t.num))
	case t.kind == kApp && t.op == "+":
		for _, a := range t.args {
			lin(a, s, k)
		}
	case t.kind == kApp && t.op == "*" && len(t.args) == 2 && t.args[0].kind == kNum:
		lin(t.args[1], s, new(big.Int).Mul(k, t.args[0].num))
	default:
		if s.co[t] == nil {
			s.co[t] = new(big.Int)
		}
		s.co[t].Add(s.co[t], k)
	}
}

func (s *linsum) term() *Term {
	var ts []*Term
	for t, k := range s.co {
		if k.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		k := s.co[t]
		if k.IsInt64() && k.Int64() == 1 {
			out = append(out, t)
		} else {
			out = append(out, mk("*", SInt, BigNum(k), t))
		}
	}
	if s.c.Sign() != 0 || len(out) == 0 {
		out = append(out, BigNum(s.c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", SInt, out...)
}

func Add(as ...*Term) *Term {
	s := &linsum{new(big.Int), map[*Term]*big.Int{}}
	for _, a := range as {
		lin(a, s, big.NewInt(1))
	}
	return s.term()
}

func Sub(a, b *Term) *Term {
	s := &linsum{new(big.Int), map[*Term]*big.Int{}}
	lin(a, s, big.NewInt(1))
	lin(b, s, big.NewInt(-1))
	return s.term()
}

func Mul(a, b *Term) *Term {
	if b.kind == kNum {
		a, b = b, a
	}
	if a.kind == kNum {
		s := &linsum{new(big.Int), map[*Term]*big.Int{}}
		lin(b, s, a.num)
		return s.term()
	}
	return mk("*", SInt, a, b)
}

// Euclidean div/mod, as SMT-LIB.
func DivE(a, b *Term) *Term {
	if b.kind == kNum && b.num.Sign() > 0 {
		if a.kind == kNum {
			q, _ := new(big.Int).DivMod(a.num, b.num, new(big.Int))
			return BigNum(q)
		}
		if b.num.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return mk("div", SInt, a, b)
}
func ModE(a, b *Term) *Term {
	if b.kind == kNum && b.num.Sign() > 0 {
		if a.kind == kNum {
			_, m := new(big.Int).DivMod(a.num, b.num, new(big.Int))
			return BigNum(m)
		}
		if a.kind == kApp && a.op == "mod" && a.args[1] == b {
			return a
		}
	}
	return mk("mod", SInt, a, b)
}

func Le(a, b *Term) *Term {
	d := Sub(a, b)
	if d.kind == kNum {
		return BoolT(d.num.Sign() <= 0)
	}
	return mk("<=", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	d := Sub(a, b)
	if d.kind == kNum {
		return BoolT(d.num.Sign() < 0)
	}
	return mk("<", SBool, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// distinctSyn: the two terms are certainly different.
func distinctSyn(a, b *Term) bool {
	if a == b {
		return false
	}
	return Eq(a, b) == False
}

func Select(a, i *Term) *Term {
	_, es := arrParts(a.sort)
	cur := a
	for cur.kind == kApp && cur.op == "store" {
		if cur.args[1] == i {
			return cur.args[2]
		}
		if refDistinct(cur.args[1], i) || distinctSyn(cur.args[1], i) {
			cur = cur.args[0]
			continue
		}
		break
	}
	if cur.kind == kApp && cur.op == "ite" && es != SInt && false {
		return Ite(cur.args[0], Select(cur.args[1], i), Select(cur.args[2], i))
	}
	if cur.kind == kApp && strings.HasPrefix(cur.op, "(as const") {
		return cur.args[0]
	}
	return mk("select", es, cur, i)
}

// freshIDs maps allocation id constants to their allocation order, so that
// two different allocations on one path are known to be distinct.
var freshIDs = map[*Term]int{}

// oldBefore[ref-root const] : consts known to be older than any allocation numbered >= n
func refDistinct(a, b *Term) bool {
	if a.sort != SRef || b.sort != SRef {
		return false
	}
	if a.op == "mkref" && b.op == "mkref" {
		x, y := a.args[0], b.args[0]
		if x == y {
			return distinctSyn(a.args[1], b.args[1])
		}
		_, fx := freshIDs[x]
		_, fy := freshIDs[y]
		if fx && fy {
			return true
		}
		if x.kind == kNum && y.kind == kNum {
			return true
		}
		if x.kind == kNum && fy || y.kind == kNum && fx {
			return true
		}
		// (refid e) with e older than the allocation
		if fx && y.seq < x.seq && !y.free || fy && x.seq < y.seq && !x.free {
			return true
		}
		return false
	}
	id := func(t *Term) (*Term, bool) {
		if t.op == "mkref" {
			_, ok := freshIDs[t.args[0]]
			return t.args[0], ok
		}
		return nil, false
	}
	if x, ok := id(a); ok && b.seq < x.seq && !b.free {
		return true
	}
	if y, ok := id(b); ok && a.seq < y.seq && !a.free {
		return true
	}
	return false
}

func Store(a, i, v *Term) *Term {
	_, es := arrParts(a.sort)
	if v.sort != es {
		panic(fmt.Sprintf("store: sort %s into %s", v.sort, a.sort))
	}
	if a.kind == kApp && a.op == "store" && a.args[1] == i {
		return mk("store", a.sort, a.args[0], i, v)
	}
	if v.kind == kApp && v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", a.sort, a, i, v)
}

func ConstArr(s Sort, v *Term) *Term {
	return mk("(as const "+string(s)+")", s, v)
}

// refs
var (
	PNil = mk("pnil", SPath)
	Null = mk("mkref", SRef, Zero, PNil)
)

func MkRef(id, path *Term) *Term {
	if id.op == "refid" && path.op == "refpath" && id.args[0] == path.args[0] {
		return id.args[0]
	}
	return mk("mkref", SRef, id, path)
}
func RefID(r *Term) *Term {
	if r.op == "mkref" {
		return r.args[0]
	}
	return mk("refid", SInt, r)
}
func RefPath(r *Term) *Term {
	if r.op == "mkref" {
		return r.args[1]
	}
	return mk("refpath", SPath, r)
}
func SubRef(r *Term, fid int) *Term {
	return mk("mkref", SRef, RefID(r), mk("pfield", SPath, RefPath(r), Num(int64(fid))))
}
func EltRef(r, i *Term) *Term {
	return mk("mkref", SRef, RefID(r), mk("pelt", SPath, RefPath(r), i))
}

// slices
func MkSlc(arr, off, ln, cp *Term) *Term { return mk("mkslc", SSlc, arr, off, ln, cp) }
func slcSel(name string, i int, s Sort, t *Term) *Term {
	if t.op == "mkslc" {
		return t.args[i]
	}
	if t.op == "ite" {
		return Ite(t.args[0], slcSel(name, i, s, t.args[1]), slcSel(name, i, s, t.args[2]))
	}
	return mk(name, s, t)
}
func SArrOf(t *Term) *Term { return slcSel("sarr", 0, SRef, t) }
func SOff(t *Term) *Term   { return slcSel("soff", 1, SInt, t) }
func SLen(t *Term) *Term   { return slcSel("slen", 2, SInt, t) }
func SCap(t *Term) *Term   { return slcSel("scap", 3, SInt, t) }

var NilSlc = MkSlc(Null, Zero, Zero, Zero)
var NilIface = mk("inil", SIface)
var NilFn = mk("fnil", SFn)

// strings
func StrLen(s *Term) *Term       { return App("strlen", SInt, s) }
func StrAt(s, i *Term) *Term     { return App("strat", SInt, s, i) }
func StrCat(a, b *Term) *Term    { return App("strcat", SStr, a, b) }
func StrSub(s, i, j *Term) *Term { return App("strsub", SStr, s, i, j) }
func BStr(row, off, n *Term) *Term {
	return App("bstr", SStr, row, off, n)
}

var strLits = map[*Term]string{}
var strLitByVal = map[string]*Term{}

func StrLit(s string) *Term {
	if t, ok := strLitByVal[s]; ok {
		return t
	}
	nm := clean(s)
	if len(nm) > 24 {
		nm = nm[:24]
	}
	t := Const(fmt.Sprintf("str%d_%s", len(strLits), nm), SStr)
	t.seq = 0
	strLits[t] = s
	strLitByVal[s] = t
	return t
}

// App applies an uninterpreted (or defined) function; string functions on
// literals are evaluated.
func App(f string, s Sort, args ...*Term) *Term {
	switch f {
	case "strlen":
		if l, ok := strLits[args[0]]; ok {
			return Num(int64(len(l)))
		}
		if args[0].op == "strcat" {
			return Add(StrLen(args[0].args[0]), StrLen(args[0].args[1]))
		}
		if args[0].op == "bstr" {
			return args[0].args[2]
		}
	case "strat":
		if l, ok := strLits[args[0]]; ok && args[1].kind == kNum && args[1].num.IsInt64() {
			i := args[1].num.Int64()
			if i >= 0 && i < int64(len(l)) {
				return Num(int64(l[i]))
			}
		}
	case "strcat":
		a, ok1 := strLits[args[0]]
		b, ok2 := strLits[args[1]]
		if ok1 && ok2 {
			return StrLit(a + b)
		}
		if ok1 && a == "" {
			return args[1]
		}
		if ok2 && b == "" {
			return args[0]
		}
		if args[1].op == "strcat" {
			// a concatenation associates to the left
			return App("strcat", SStr, App("strcat", SStr, args[0], args[1].args[0]), args[1].args[1])
		}
		if ok2 && args[0].op == "strcat" {
			if l, ok := strLits[args[0].args[1]]; ok {
				return App("strcat", SStr, args[0].args[0], StrLit(l+b))
			}
		}
	case "strsub":
		if l, ok := strLits[args[0]]; ok && args[1].kind == kNum && args[2].kind == kNum {
			i, j := args[1].num.Int64(), args[2].num.Int64()
			if 0 <= i && i <= j && j <= int64(len(l)) {
				return StrLit(l[i:j])
			}
		}
		if args[1] == Zero && args[2] == StrLen(args[0]) {
			return args[0]
		}
	}
	return mk(f, s, args...)
}

// Quant builds forall/exists.
func Quant(q string, bvs []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	if !body.free {
		return body
	}
	used := false
	for _, b := range bvs {
		if body.bvars[b] {
			used = true
		}
	}
	if !used {
		return body
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "Q|%s|%d", q, body.id)
	for _, b := range bvs {
		fmt.Fprintf(&sb, "|%d", b.id)
	}
	for _, p := range pats {
		sb.WriteString("|p")
		for _, x := range p {
			fmt.Fprintf(&sb, ",%d", x.id)
		}
	}
	key := sb.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	termSeq++
	t := &Term{op: q, args: []*Term{body}, sort: SBool, kind: kQuant, id: termSeq, seq: body.seq, bvs: bvs, pats: pats}
	for b := range body.bvars {
		in := false
		for _, x := range bvs {
			if x == b {
				in = true
			}
		}
		if !in {
			if t.bvars == nil {
				t.bvars = map[*Term]bool{}
			}
			t.bvars[b] = true
			t.free = true
		}
	}
	termTab[key] = t
	return t
}

// Subst replaces terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.kind == kQuant {
			// bound variables are unique, no capture
			body := rec(t.args[0])
			var pats [][]*Term
			for _, p := range t.pats {
				var np []*Term
				for _, x := range p {
					np = append(np, rec(x))
				}
				pats = append(pats, np)
			}
			r = Quant(t.op, t.bvs, body, pats)
			if len(t.alts) > 0 && r.kind == kQuant && len(r.alts) == 0 {
				for _, a := range t.alts {
					r.alts = append(r.alts, rec(a))
				}
			}
		} else {
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = rec(a)
				if args[i] != a {
					ch = true
				}
			}
			if !ch {
				r = t
			} else {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "+":
		return Add(args...)
	case "*":
		return Mul(args[0], args[1])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Implies(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "div":
		return DivE(args[0], args[1])
	case "mod":
		return ModE(args[0], args[1])
	case "sarr":
		return SArrOf(args[0])
	case "soff":
		return SOff(args[0])
	case "slen":
		return SLen(args[0])
	case "scap":
		return SCap(args[0])
	case "refid":
		return RefID(args[0])
	case "refpath":
		return RefPath(args[0])
	case "mkref":
		return MkRef(args[0], args[1])
	}
	return App(t.op, t.sort, args...)
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	var sb strings.Builder
	n := 0
	printTerm(&sb, t, nil, &n, 4000)
	return sb.String()
}

func symbol(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$@?~", r)) {
			if strings.HasPrefix(s, "(") || !strings.ContainsAny(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$") {
				return s
			}
			return "|" + s + "|"
		}
	}
	return s
}

func printTerm(sb *strings.Builder, t *Term, names map[*Term]string, n *int, max int) {
	if *n > max && max > 0 {
		sb.WriteString("…")
		return
	}
	*n++
	if names != nil {
		if nm, ok := names[t]; ok {
			sb.WriteString(nm)
			return
		}
	}
	switch t.kind {
	case kNum:
		if t.num.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.num).String())
		} else {
			sb.WriteString(t.op)
		}
		return
	case kConst, kBound:
		sb.WriteString(symbol(t.op))
		return
	case kQuant:
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bvs {
			fmt.Fprintf(sb, "(%s %s)", symbol(b.op), b.sort)
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		printTerm(sb, t.args[0], names, n, max)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					printTerm(sb, x, names, n, max)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		sb.WriteString(symbol(t.op))
		return
	}
	sb.WriteString("(" + symbol(t.op))
	for _, a := range t.args {
		sb.WriteByte(' ')
		printTerm(sb, a, names, n, max)
	}
	sb.WriteByte(')')
}
