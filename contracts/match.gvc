# C07: the line matcher (codesearch/regexp/match.go)
package codesearch/regexp

# ---------- programs ----------
# The instructions of a compiled program do not change.
function iOp(p ref, x int) int
function iOut(p ref, x int) int
function iArg(p ref, x int) int
pred progOK(p) = p != nil && 0 <= p.Start && p.Start < len(p.Inst) && len(p.Inst) < 4294967295
| && (forall x int :: {iOp(p, x)} 0 <= x && x < len(p.Inst) ==> p.Inst[x].Op == iOp(p, x) && p.Inst[x].Out == iOut(p, x) && p.Inst[x].Arg == iArg(p, x)
|   && ((isJump(p, x) || isAlt(p, x) || iOp(p, x) == 3 || iOp(p, x) == 135) ==> 0 <= iOut(p, x) && iOut(p, x) < len(p.Inst)) && (isAlt(p, x) ==> 0 <= iArg(p, x) && iArg(p, x) < len(p.Inst)) && 0 <= iArg(p, x))
pred isJump(p, x) = iOp(p, x) == 2 || iOp(p, x) == 6
pred isAlt(p, x) = iOp(p, x) == 0 || iOp(p, x) == 1
# the conditions x holds when those of f do
function gate(x int, f int) bool
axiom gate_def global: forall x, f int :: {gate(x, f)} gate(x, f) <==> x % 256 - ((x % 256) & f) == 0

# y can be reached from x without reading, when the conditions f hold: the least
# relation with these rules
function reach(p ref, f int, x int, y int) bool
function reach0(p ref, f int, x int, y int) bool
axiom reach_same: forall p ref, f, x, y int :: {reach(p, f, x, y)} reach(p, f, x, y) <==> reach0(p, f, x, y)
axiom reach_def: forall p ref, f, x, y int :: {reach(p, f, x, y)} reach(p, f, x, y) <==> x == y || (isJump(p, x) && reach0(p, f, iOut(p, x), y)) || (isAlt(p, x) && (reach0(p, f, iOut(p, x), y) || reach0(p, f, iArg(p, x), y))) || (iOp(p, x) == 3 && gate(iArg(p, x), f) && reach0(p, f, iOut(p, x), y))

# sets of instructions as rows of 0 and 1
function setRow(d row, do int, n int, r row, ro int, max int) row
axiom setRow_def global: forall d row, do, n int, r row, ro, max, x int :: {setRow(d, do, n, r, ro, max)[x]} setRow(d, do, n, r, ro, max)[x] == ((0 <= x && x < max && sparseHas(d, do, n, r, ro, x)) ? 1 : 0)
pred rowOf(q) = setRow(row(q.dense), offset(q.dense), len(q.dense), row(q.sparse), offset(q.sparse), len(q.sparse))
# the successors of x are in s
function succIn(p ref, f int, s row, x int) bool
axiom succ_def: forall p ref, f int, s row, x int :: {succIn(p, f, s, x)} succIn(p, f, s, x) <==> (isJump(p, x) ==> s[iOut(p, x)] == 1) && (isAlt(p, x) ==> s[iOut(p, x)] == 1 && s[iArg(p, x)] == 1) && (iOp(p, x) == 3 && gate(iArg(p, x), f) ==> s[iOut(p, x)] == 1)
function closedS(p ref, f int, s row) bool
axiom closed_def: forall p ref, f int, s row :: {closedS(p, f, s)} closedS(p, f, s) <==> (forall x int :: {succIn(p, f, s, x)} s[x] == 1 ==> succIn(p, f, s, x))
# the least such relation: what can be reached from x is in every closed set with x
axiom reach_least: forall p ref, f int, s row, x, y int :: {closedS(p, f, s), reach(p, f, x, y)} closedS(p, f, s) && s[x] == 1 && reach(p, f, x, y) ==> s[y] == 1
lemma reach_find use reach_least: forall p ref, f int, s row, x, y int :: {reach(p, f, x, y), s[y]} s[x] == 1 && reach(p, f, x, y) && s[y] != 1 ==> !closedS(p, f, s)
# a set without repetitions is no larger than its range
axiom pigeonhole: forall d row, do, n int, r row, ro, max int :: {setRow(d, do, n, r, ro, max)} 0 <= max && (forall i int :: {d[do + i]} 0 <= i && i < n ==> 0 <= d[do + i] && d[do + i] < max && r[ro + d[do + i]] == i) ==> n <= max

pred setM(q, n) = setWF(q) && len(q.sparse) == n && rowOf(q)[0] >= 0

func (*matcher).addq(m, q, id, flag)
  props C07
  use reach_same reach_def succ_def pigeonhole
  requires [program] m != nil && progOK(m.prog)
  requires [id] id < len(m.prog.Inst) && iOp(m.prog, id) >= 0
  requires [set] q != nil && setM(q, len(m.prog.Inst))
  modifies q.dense, elems(q.dense), elems(q.sparse)
  ensures setM(q, len(m.prog.Inst)) && (arr(q.dense) == old(arr(q.dense)) || fresh(q.dense))
  ensures [kept] forall y int :: {rowOf(q)[y]} {old(rowOf(q))[y]} old(rowOf(q))[y] == 1 ==> rowOf(q)[y] == 1
  ensures [added] rowOf(q)[id] == 1
  ensures [reachable] forall y int :: {rowOf(q)[y]} rowOf(q)[y] == 1 && old(rowOf(q))[y] != 1 ==> reach(m.prog, flag, id, y)
  ensures [closed] forall y int :: {succIn(m.prog, flag, rowOf(q), y)} rowOf(q)[y] == 1 ==> succIn(m.prog, flag, rowOf(q), y) || (old(rowOf(q))[y] == 1 && !succIn(m.prog, flag, old(rowOf(q)), y))

pred apartQ(a, b) = arr(a.sparse) != arr(b.sparse) && (a.dense == nil || (arr(a.dense) != arr(b.sparse) && arr(a.dense) != arr(b.dense))) && (b.dense == nil || arr(b.dense) != arr(a.sparse))

# what can be reached from the instructions in s
function closeR(p ref, f int, s row) row
axiom closeR_def: forall p ref, f int, s row, z int :: {closeR(p, f, s)[z]} closeR(p, f, s)[z] == ((exists x int :: {s[x]} s[x] == 1 && reach(p, f, x, z)) ? 1 : 0)

func (*matcher).stepEmpty(m, runq, nextq, flag)
  props C07
  use closed_def reach_least closeR_def reach_same reach_def
  requires [program] m != nil && progOK(m.prog)
  requires [sets] runq != nil && nextq != nil && runq != nextq && setM(runq, len(m.prog.Inst)) && setM(nextq, len(m.prog.Inst)) && apartQ(runq, nextq)
  let R = rowOf(runq)
  modifies nextq.dense, elems(nextq.dense), elems(nextq.sparse)
  ensures setM(nextq, len(m.prog.Inst)) && apartQ(runq, nextq) && (arr(nextq.dense) == old(arr(nextq.dense)) || fresh(nextq.dense))
  ensures [closure] rowOf(nextq) == closeR(m.prog, flag, R)
  loop 1
    invariant setM(nextq, len(m.prog.Inst)) && apartQ(runq, nextq) && (arr(nextq.dense) == old(arr(nextq.dense)) || fresh(nextq.dense))
    invariant [same] rowOf(runq) == R
    invariant [closed] closedS(m.prog, flag, rowOf(nextq))
    invariant [all] forall k int :: {runq.dense[k]} 0 <= k && k < $iter ==> rowOf(nextq)[runq.dense[k]] == 1
    invariant [given] forall k int :: {runq.dense[k]} 0 <= k && k < len(runq.dense) ==> R[runq.dense[k]] == 1
    invariant [only] forall y int :: {rowOf(nextq)[y]} rowOf(nextq)[y] == 1 ==> (exists x int :: {R[x]} R[x] == 1 && reach(m.prog, flag, x, y))

func isWordByte(c) (r)
  props C07
  pure
  ensures r <==> wordB(c)
pred wordB(c) = (65 <= c && c <= 90) || (97 <= c && c <= 122) || (48 <= c && c <= 57) || c == 95

# the instruction x reads the byte c (-1: the end of the text)
function takes(p ref, x int, c int) bool
axiom takes_def: forall p ref, x, c int :: {takes(p, x, c)} takes(p, x, c) <==> iOp(p, x) == 135 && c >= 0 && iArg(p, x) / 256 % 256 <= upper(p, x, c) && upper(p, x, c) <= iArg(p, x) % 256
pred upper(p, x, c) = (iArg(p, x) / 65536 % 2 == 1 && 97 <= c && c <= 122) ? c - 32 : c
function hasMatch(p ref, s row) bool
axiom hasMatch_def: forall p ref, s row :: {hasMatch(p, s)} hasMatch(p, s) <==> (exists x int :: {s[x]} s[x] == 1 && iOp(p, x) == 4)
# what can be reached after reading c in s, or from the start
function byteR(p ref, start int, f int, c int, s row) row
axiom byteR_def: forall p ref, start, f, c int, s row, z int :: {byteR(p, start, f, c, s)[z]} byteR(p, start, f, c, s)[z] == ((reach(p, f, start, z) || (exists x int :: {s[x]} s[x] == 1 && takes(p, x, c) && reach(p, f, iOut(p, x), z))) ? 1 : 0)

func (*matcher).stepByte(m, runq, nextq, c, flag) (match)
  props C07
  use closed_def reach_least byteR_def takes_def hasMatch_def reach_same reach_def
  requires [program] m != nil && progOK(m.prog)
  requires [byte] -1 <= c && c <= 255
  requires [sets] runq != nil && nextq != nil && runq != nextq && setM(runq, len(m.prog.Inst)) && setM(nextq, len(m.prog.Inst)) && apartQ(runq, nextq)
  let R = rowOf(runq)
  modifies nextq.dense, elems(nextq.dense), elems(nextq.sparse)
  ensures setM(nextq, len(m.prog.Inst)) && apartQ(runq, nextq) && (arr(nextq.dense) == old(arr(nextq.dense)) || fresh(nextq.dense))
  ensures [match] match <==> hasMatch(m.prog, R)
  ensures [step] rowOf(nextq) == byteR(m.prog, m.prog.Start, flag, c, R)
  loop 1
    invariant setM(nextq, len(m.prog.Inst)) && apartQ(runq, nextq) && (arr(nextq.dense) == old(arr(nextq.dense)) || fresh(nextq.dense))
    invariant [same] rowOf(runq) == R
    invariant [closed] closedS(m.prog, flag, rowOf(nextq))
    invariant [start] rowOf(nextq)[m.prog.Start] == 1
    invariant [all] forall k int :: {runq.dense[k]} 0 <= k && k < $iter && takes(m.prog, runq.dense[k], c) ==> rowOf(nextq)[iOut(m.prog, runq.dense[k])] == 1
    invariant [given] forall k int :: {runq.dense[k]} 0 <= k && k < len(runq.dense) ==> R[runq.dense[k]] == 1 && iOp(m.prog, runq.dense[k]) >= 0
    invariant [only] forall y int :: {rowOf(nextq)[y]} rowOf(nextq)[y] == 1 ==> reach(m.prog, flag, m.prog.Start, y) || (exists x int :: {R[x]} R[x] == 1 && takes(m.prog, x, c) && reach(m.prog, flag, iOut(m.prog, x), y))
    invariant [matched] match <==> (exists k int :: {runq.dense[k]} 0 <= k && k < $iter && iOp(m.prog, runq.dense[k]) == 4)

# ---------- states ----------

# what an encoded state stands for: its instructions and flags
function encSet(s string) row
function encFlag(s string) int
pred encFits(s, n) = forall x int :: {encSet(s)[x]} encSet(s)[x] == 1 ==> 0 <= x && x < n

func (*nstate).enc(z) (s)
  props C07
  trusted "encodes the set in order; the harness covers it (bounded)"
  requires z != nil && setWF(z.q)
  modifies
  ensures encSet(s) == rowOf(z.q) && encFlag(s) == z.flag

func (*nstate).dec(z, s)
  props C07
  trusted "the inverse of enc; the harness covers it (bounded)"
  requires z != nil && setWF(z.q) && encFits(s, len(z.q.sparse))
  modifies z.partial, z.flag, z.q.dense, elems(z.q.dense), elems(z.q.sparse)
  ensures setM(z.q, old(len(z.q.sparse))) && (arr(z.q.dense) == old(arr(z.q.dense)) || fresh(z.q.dense))
  ensures rowOf(z.q) == encSet(s) && z.flag == encFlag(s)

# conditions before reading c, and after; the flags of a state after c
pred preF(g, c) = (g % 2 == 1 ? 1 : 0) + (g / 4 % 2 == 1 ? 4 : 0) + (((g / 16 % 2 == 1) == wordB(c)) ? 32 : 16) + (c == 10 ? 2 : 0) + (c == -1 ? 10 : 0)
pred postF(c) = c == 10 ? 1 : 0
pred flagF(c) = (c == 10 ? 1 : 0) + (wordB(c) ? 16 : 0)
pred before(p, s, g, c) = closeR(p, preF(g, c), s)

pred scratchOK(m) = setM(m.z1.q, len(m.prog.Inst)) && setM(m.z2.q, len(m.prog.Inst)) && apartQ(m.z1.q, m.z2.q)
pred inCache(m, d) = d != nil && d.enc in m.dstate && m.dstate[d.enc] == d
pred cached(m) = progOK(m.prog) && m.dstate != nil && scratchOK(m)
| && (forall s string :: {m.dstate[s]} s in m.dstate ==> m.dstate[s] != nil && m.dstate[s].enc == s && m.dstate[s] != ref(dmatch) && encFits(s, len(m.prog.Inst)))
# the state d was computed correctly
pred endsOK(m, d) = (d.matchNL <==> hasMatch(m.prog, before(m.prog, encSet(d.enc), encFlag(d.enc), 10))) && (d.matchEOT <==> hasMatch(m.prog, before(m.prog, encSet(d.enc), encFlag(d.enc), -1)))
pred newOK(m, s) = fresh(m.dstate[s]) && endsOK(m, m.dstate[s]) && (forall c int :: {m.dstate[s].next[c]} m.dstate[s].next[c] == nil)

func (*matcher).computeNext(m, d, c) (r)
  props C07
  merge
  requires [cache] m != nil && cached(m)
  requires [state] inCache(m, d) && -1 <= c && c <= 255
  let E = before(m.prog, encSet(d.enc), encFlag(d.enc), c)
  modifies mapof(m.dstate), m.z1.partial, m.z1.flag, m.z1.q.dense, m.z2.partial, m.z2.flag, m.z2.q.dense, elems(m.z1.q.dense), elems(m.z1.q.sparse), elems(m.z2.q.dense), elems(m.z2.q.sparse)
  ensures [cache] cached(m)
  ensures [kept] forall s string :: {m.dstate[s]} old(s in m.dstate) ==> s in m.dstate && m.dstate[s] == old(m.dstate[s])
  ensures [new] forall s string :: {m.dstate[s]} s in m.dstate && !old(s in m.dstate) ==> newOK(m, s)
  ensures [matched] r == ref(dmatch) <==> hasMatch(m.prog, E)
  ensures [own] (arr(m.z1.q.dense) == old(arr(m.z1.q.dense)) || fresh(m.z1.q.dense)) && (arr(m.z2.q.dense) == old(arr(m.z2.q.dense)) || fresh(m.z2.q.dense))
  ensures [next] !hasMatch(m.prog, E) ==> inCache(m, r) && encSet(r.enc) == byteR(m.prog, m.prog.Start, postF(c), c, E) && encFlag(r.enc) == flagF(c)

func (*matcher).cache(m, z) (d)
  props C07
  requires [cache] m != nil && cached(m)
  requires [state] z == ref(m.z1) || z == ref(m.z2)
  let S = rowOf(z.q)
  let g = z.flag
  modifies mapof(m.dstate), m.z1.partial, m.z1.flag, m.z1.q.dense, m.z2.partial, m.z2.flag, m.z2.q.dense, elems(m.z1.q.dense), elems(m.z1.q.sparse), elems(m.z2.q.dense), elems(m.z2.q.sparse)
  ensures [cache] cached(m)
  ensures [kept] forall s string :: {m.dstate[s]} old(s in m.dstate) ==> s in m.dstate && m.dstate[s] == old(m.dstate[s])
  ensures [new] forall s string :: {m.dstate[s]} s in m.dstate && !old(s in m.dstate) ==> newOK(m, s)
  ensures [state] inCache(m, d) && encSet(d.enc) == S && encFlag(d.enc) == g
  ensures [own] (arr(m.z1.q.dense) == old(arr(m.z1.q.dense)) || fresh(m.z1.q.dense)) && (arr(m.z2.q.dense) == old(arr(m.z2.q.dense)) || fresh(m.z2.q.dense))

# ---------- matching ----------

pred dmatchOK() = dmatch.matchNL && dmatch.matchEOT && dmatch.next[10] == nil && (forall c int :: {dmatch.next[c]} 0 <= c && c < 256 && c != 10 ==> dmatch.next[c] == ref(dmatch))
# at the start of a text (f = 5) or of a line (f = 1)
function startR(p ref, start int, f int) row
axiom startR_def: forall p ref, start, f, z int :: {startR(p, start, f)[z]} startR(p, start, f)[z] == (reach(p, f, start, z) ? 1 : 0)
pred isStart(m, d, f) = inCache(m, d) && encSet(d.enc) == startR(m.prog, m.prog.Start, f) && encFlag(d.enc) == f
# t is the state after reading c in the state d
pred transOK(m, d, c, t) = c == 10 ? (!hasMatch(m.prog, before(m.prog, encSet(d.enc), encFlag(d.enc), 10)) && t == m.startLine)
| : t == ref(dmatch) ? hasMatch(m.prog, before(m.prog, encSet(d.enc), encFlag(d.enc), c))
| : (!hasMatch(m.prog, before(m.prog, encSet(d.enc), encFlag(d.enc), c)) && inCache(m, t) && encSet(t.enc) == byteR(m.prog, m.prog.Start, 0, c, before(m.prog, encSet(d.enc), encFlag(d.enc), c)) && encFlag(t.enc) == flagF(c))
pred matcherOK(m) = cached(m) && dmatchOK() && isStart(m, m.start, 5) && isStart(m, m.startLine, 1)
| && (forall s string :: {m.dstate[s]} s in m.dstate ==> endsOK(m, m.dstate[s]))
| && (forall s string, c int :: {m.dstate[s].next[c]} s in m.dstate && 0 <= c && c < 256 && m.dstate[s].next[c] != nil ==> transOK(m, m.dstate[s], c, m.dstate[s].next[c]))

# Reading the bytes of r from o on: after i of them the instructions and flags of
# the current line, and whether a match ended before on this line.
function simS(p ref, start int, r row, o int, bt bool, i int) row
function simF(p ref, start int, r row, o int, bt bool, i int) int
function hit(p ref, start int, r row, o int, bt bool, i int) bool
function simS0(p ref, start int, r row, o int, bt bool, i int) row
function simF0(p ref, start int, r row, o int, bt bool, i int) int
function hit0(p ref, start int, r row, o int, bt bool, i int) bool
axiom sim_same: forall p ref, start int, r row, o int, bt bool, i int :: {simS(p, start, r, o, bt, i)} {hit(p, start, r, o, bt, i)} simS(p, start, r, o, bt, i) == simS0(p, start, r, o, bt, i) && simF(p, start, r, o, bt, i) == simF0(p, start, r, o, bt, i) && (hit(p, start, r, o, bt, i) <==> hit0(p, start, r, o, bt, i))
axiom sim_start: forall p ref, start int, r row, o int, bt bool, i int :: {simS(p, start, r, o, bt, i)} {hit(p, start, r, o, bt, i)} i == 0 ==> simS(p, start, r, o, bt, i) == startR(p, start, bt ? 5 : 1) && simF(p, start, r, o, bt, i) == (bt ? 5 : 1) && !hit(p, start, r, o, bt, i)
axiom sim_step: forall p ref, start int, r row, o int, bt bool, i int :: {simS(p, start, r, o, bt, i)} {hit(p, start, r, o, bt, i)} i > 0 ==>
| (r[o+i-1] == 10 ? (simS(p, start, r, o, bt, i) == startR(p, start, 1) && simF(p, start, r, o, bt, i) == 1 && !hit(p, start, r, o, bt, i))
| : (simS(p, start, r, o, bt, i) == byteR(p, start, 0, r[o+i-1], before(p, simS0(p, start, r, o, bt, i-1), simF0(p, start, r, o, bt, i-1), r[o+i-1])) && simF(p, start, r, o, bt, i) == flagF(r[o+i-1])
|   && (hit(p, start, r, o, bt, i) <==> hit0(p, start, r, o, bt, i-1) || hasMatch(p, before(p, simS0(p, start, r, o, bt, i-1), simF0(p, start, r, o, bt, i-1), r[o+i-1])))))
# the current line has a match that ends at i or before, if the next byte is c (-1: none)
pred ended(p, start, r, o, bt, i, c) = hit(p, start, r, o, bt, i) || hasMatch(p, before(p, simS(p, start, r, o, bt, i), simF(p, start, r, o, bt, i), c))
# the end of the first line with a match, or a negative number
pred matchAns(p, start, r, o, n, bt, et, e) = e <= n && (e >= 0 ==> (e < n && r[o+e] == 10 && ended(p, start, r, o, bt, e, 10)) || (e == n && (ended(p, start, r, o, bt, n, 10) || (et && ended(p, start, r, o, bt, n, -1)))))
| && (e < 0 ==> !ended(p, start, r, o, bt, n, 10) && !(et && ended(p, start, r, o, bt, n, -1)))
pred noneBefore(p, start, r, o, bt, e) = forall j int :: {hit(p, start, r, o, bt, j)} 0 <= j && j < e && r[o+j] == 10 ==> !ended(p, start, r, o, bt, j, 10)

func (*matcher).match(m, b, beginText, endText) (end)
  props C07
  use sim_same sim_start sim_step
  requires m != nil && matcherOK(m)
  modifies mapof(m.dstate), m.z1.partial, m.z1.flag, m.z1.q.dense, m.z2.partial, m.z2.flag, m.z2.q.dense, elems(m.z1.q.dense), elems(m.z1.q.sparse), elems(m.z2.q.dense), elems(m.z2.q.sparse), allelems("*codesearch/regexp.dstate")
  let p = m.prog
  let s = m.prog.Start
  ensures [history] matcherOK(m)
  ensures [answer] matchAns(p, s, row(b), offset(b), len(b), beginText, endText, end)
  ensures [first] noneBefore(p, s, row(b), offset(b), beginText, end >= 0 ? end : len(b))
  loop 1
    invariant [cache] matcherOK(m)
    invariant [text] row(b) == old(row(b))
    invariant 0 <= $iter && $iter <= len(b)
    invariant [matched] d == ref(dmatch) <==> hit(p, s, row(b), offset(b), beginText, $iter)
    invariant [state] d != ref(dmatch) ==> inCache(m, d) && encSet(d.enc) == simS(p, s, row(b), offset(b), beginText, $iter) && encFlag(d.enc) == simF(p, s, row(b), offset(b), beginText, $iter)
    invariant [first] noneBefore(p, s, row(b), offset(b), beginText, $iter)

function strRow(s string) row
axiom strRow_def: forall s string, i int :: {strRow(s)[i]} strRow(s)[i] == s[i]

func (*matcher).matchString(m, b, beginText, endText) (end)
  props C07
  use strRow_def sim_same sim_start sim_step
  requires m != nil && matcherOK(m)
  modifies mapof(m.dstate), m.z1.partial, m.z1.flag, m.z1.q.dense, m.z2.partial, m.z2.flag, m.z2.q.dense, elems(m.z1.q.dense), elems(m.z1.q.sparse), elems(m.z2.q.dense), elems(m.z2.q.sparse), allelems("*codesearch/regexp.dstate")
  let p = m.prog
  let s = m.prog.Start
  ensures [history] matcherOK(m)
  ensures [answer] matchAns(p, s, strRow(b), 0, len(b), beginText, endText, end)
  ensures [first] noneBefore(p, s, strRow(b), 0, beginText, end >= 0 ? end : len(b))
  loop 1
    invariant [cache] matcherOK(m)
    invariant 0 <= i && i <= len(b)
    invariant [matched] d == ref(dmatch) <==> hit(p, s, strRow(b), 0, beginText, i)
    invariant [state] d != ref(dmatch) ==> inCache(m, d) && encSet(d.enc) == simS(p, s, strRow(b), 0, beginText, i) && encFlag(d.enc) == simF(p, s, strRow(b), 0, beginText, i)
    invariant [first] noneBefore(p, s, strRow(b), 0, beginText, i)

func (*Regexp).Match(r, b, beginText, endText) (end)
  props C07
  requires r != nil && matcherOK(r.m)
  let p = r.m.prog
  let s = r.m.prog.Start
  modifies mapof(r.m.dstate), r.m.z1.partial, r.m.z1.flag, r.m.z1.q.dense, r.m.z2.partial, r.m.z2.flag, r.m.z2.q.dense, elems(r.m.z1.q.dense), elems(r.m.z1.q.sparse), elems(r.m.z2.q.dense), elems(r.m.z2.q.sparse), allelems("*codesearch/regexp.dstate")
  ensures [history] matcherOK(r.m)
  ensures [answer] matchAns(p, s, row(b), offset(b), len(b), beginText, endText, end)
  ensures [first] noneBefore(p, s, row(b), offset(b), beginText, end >= 0 ? end : len(b))

func (*Regexp).MatchString(r, b, beginText, endText) (end)
  props C07
  requires r != nil && matcherOK(r.m)
  let p = r.m.prog
  let s = r.m.prog.Start
  modifies mapof(r.m.dstate), r.m.z1.partial, r.m.z1.flag, r.m.z1.q.dense, r.m.z2.partial, r.m.z2.flag, r.m.z2.q.dense, elems(r.m.z1.q.dense), elems(r.m.z1.q.sparse), elems(r.m.z2.q.dense), elems(r.m.z2.q.sparse), allelems("*codesearch/regexp.dstate")
  ensures [history] matcherOK(r.m)
  ensures [answer] matchAns(p, s, strRow(b), 0, len(b), beginText, endText, end)
  ensures [first] noneBefore(p, s, strRow(b), 0, beginText, end >= 0 ? end : len(b))

func init#1()
  props C07
  requires dmatch.matchNL && dmatch.matchEOT && (forall c int :: {dmatch.next[c]} dmatch.next[c] == nil)
  modifies dmatch
  ensures dmatchOK()
  loop 1
    invariant 0 <= $iter && $iter <= 256 && dmatch.matchNL && dmatch.matchEOT && (forall c int :: {dmatch.next[c]} 0 <= c && c < 256 ==> dmatch.next[c] == (c < $iter && c != 10 ? ref(dmatch) : nil))

func (*matcher).init(m, prog) (err)
  props C07
  use startR_def closed_def reach_find reach_same reach_def
  requires m != nil && progOK(prog) && dmatchOK()
  requires [new] m.z1.q.dense == nil && m.z2.q.dense == nil
  modifies m.prog, m.dstate, m.start, m.startLine, m.z1.partial, m.z1.flag, m.z1.q.dense, m.z1.q.sparse, m.z2.partial, m.z2.flag, m.z2.q.dense, m.z2.q.sparse
  ensures [ok] err == nil && m.prog == prog && dmatchOK()
  ensures [cached] cached(m)
  ensures [starts] isStart(m, m.start, 5) && isStart(m, m.startLine, 1)
  ensures [ends] forall s string :: {m.dstate[s]} s in m.dstate ==> endsOK(m, m.dstate[s])
  ensures [next] forall s string, c int :: {m.dstate[s].next[c]} s in m.dstate && 0 <= c && c < 256 && m.dstate[s].next[c] != nil ==> transOK(m, m.dstate[s], c, m.dstate[s].next[c])

extern regexp/syntax.Parse(s, flags) (re, err)
  modifies
  ensures (err == nil) == (re != nil)
extern regexp/syntax.(*Regexp).Simplify(re) (r)
  requires re != nil
  modifies
  ensures r != nil
extern regexp/syntax.Compile(re) (p, err)
  requires re != nil
  modifies
  ensures err == nil ==> p != nil && fresh(p) && fresh(p.Inst)

func toByteProg(prog) (err)
  props C07
  trusted "rewrites runes as bytes; the harness covers it (bounded)"
  requires prog != nil
  modifies prog.Inst, elems(prog.Inst)
  ensures err == nil ==> progOK(prog)

func Compile(expr) (re, err)
  props C07
  assumes dmatchOK()
  modifies all("regexp/syntax.Inst".Op), all("regexp/syntax.Inst".Out), all("regexp/syntax.Inst".Arg), all("regexp/syntax.Inst".Rune)
  ensures [ready] err == nil ==> re != nil && matcherOK(re.m) && re.expr == expr && re.Syntax != nil
  ensures [failed] err != nil ==> re == nil
