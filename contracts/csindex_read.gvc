# C02: evaluation of trigram queries over posting lists (codesearch/index/read.go)
package codesearch/index
fileprops C02

# What the index data says, as functions of the index: the number of entries of
# the posting list of a trigram, where it starts, the k-th file id in it and the
# position after it; whether a file is listed and at which place.
function lcount(ix *Index, t int) int
function loff(ix *Index, t int) int
function pf(ix *Index, t int, k int) int
function pp(ix *Index, t int, k int) int
function tri(ix *Index, e int) int
function entOf(ix *Index, t int) int
function hasTri(ix *Index, t int, f int) bool
function pk(ix *Index, t int, f int) int
# value and length of the varint found in bytes [pos, pos+n) of a byte array
function uvV(r row, pos int, n int) int
function uvN(r row, pos int, n int) int

extern encoding/binary.Uvarint(buf) (v, n)
  pure
  ensures v == uvV(row(buf), offset(buf), len(buf)) && n == uvN(row(buf), offset(buf), len(buf)) && n <= len(buf)

pred ixData(ix) = ix.data.d
pred ixBase(ix, t) = offset(ix.data.d) + wrap32(wrap32(ix.postData + loff(ix, t)) + 3)
pred wrap32(n) = n % 4294967296
pred entTri(ix, e) = ix.data.d[ix.postIndex + 11*e]*65536 + ix.data.d[ix.postIndex + 11*e+1]*256 + ix.data.d[ix.postIndex + 11*e+2]
pred be32(d, i) = d[i]*16777216 + d[i+1]*65536 + d[i+2]*256 + d[i+3]

# The table of posting lists: entries sorted by trigram; lists of the trigrams
# not in the table are empty.
pred tableOK(ix) = 0 <= ix.numPost && ix.postIndex + 11*ix.numPost <= len(ix.data.d) && 11*ix.numPost < 4294967296
|  && (forall e int :: {tri(ix, e)} 0 <= e && e < ix.numPost ==> tri(ix, e) == entTri(ix, e)
|        && lcount(ix, tri(ix, e)) == be32(ix.data.d, ix.postIndex + 11*e + 3) && loff(ix, tri(ix, e)) == be32(ix.data.d, ix.postIndex + 11*e + 7))
|  && (forall d, e int :: {tri(ix, d), tri(ix, e)} 0 <= d && d < e && e < ix.numPost ==> tri(ix, d) < tri(ix, e))
|  && (forall t int :: {lcount(ix, t)} lcount(ix, t) != 0 ==> 0 <= entOf(ix, t) && entOf(ix, t) < ix.numPost && tri(ix, entOf(ix, t)) == t)

# The posting lists: delta coded, strictly increasing, below the number of files.
pred listsOK(ix) = ix != nil && ix.data.d != nil && 0 <= ix.numName && ix.numName <= 4294967295
|  && (forall t int :: {lcount(ix, t)} 0 <= lcount(ix, t) && pf(ix, t, 0) == 4294967295 && pp(ix, t, 0) == ixBase(ix, t)
|       && (lcount(ix, t) > 0 ==> pp(ix, t, 0) <= offset(ix.data.d) + len(ix.data.d)))
|  && (forall t, k, pos, n int :: {pp(ix, t, k), uvV(row(ix.data.d), pos, n)} 0 <= k && k < lcount(ix, t) && pos == pp(ix, t, k) && n == offset(ix.data.d) + len(ix.data.d) - pos ==>
|       pp(ix, t, k+1) == pos + uvN(row(ix.data.d), pos, n) && pf(ix, t, k+1) == wrap32(pf(ix, t, k) + wrap32(uvV(row(ix.data.d), pos, n))))
|  && (forall t, k, l int :: {pf(ix, t, k), pf(ix, t, l)} 1 <= k && k < l && l <= lcount(ix, t) ==> pf(ix, t, k) < pf(ix, t, l))
|  && (forall t, k int :: {pf(ix, t, k)} 1 <= k && k <= lcount(ix, t) ==> 0 <= pf(ix, t, k) && pf(ix, t, k) < ix.numName && hasTri(ix, t, pf(ix, t, k)) && pk(ix, t, pf(ix, t, k)) == k)
|  && (forall t, f int :: {hasTri(ix, t, f)} hasTri(ix, t, f) ==> 1 <= pk(ix, t, f) && pk(ix, t, f) <= lcount(ix, t) && pf(ix, t, pk(ix, t, f)) == f)

# v is one of the n elements of r from position o
function memr(r row, o int, n int, v int) bool
axiom memr_def global: forall r row, o, n, v int :: {memr(r, o, n, v)} memr(r, o, n, v) <==> (exists i int :: {r[i]} o <= i && i < o + n && r[i] == v)
lemma memr_push global: forall r row, p, x, o, n, v int :: {memr(upd(r, p, x), o, n, v)} n >= 1 && p == o + n - 1 ==> (memr(upd(r, p, x), o, n, v) <==> memr(r, o, n - 1, v) || v == x)
lemma memr_drop global: forall r row, o, n, p, m, v int :: {memr(r, o, n, v), memr(r, p, m, v)} o <= p && o + n == p + m && m >= 0 && (forall i int :: o <= i && i < p ==> r[i] != v) ==> (memr(r, o, n, v) <==> memr(r, p, m, v))
pred mem(s, v) = memr(row(s), offset(s), len(s), v)
pred sorted(s) = forall i, j int :: 0 <= i && i < j && j < len(s) ==> s[i] < s[j]

func corrupt(file)
  nilable file
  trusted "writes the fatal message and exits: log.Fatalf"
  noreturn

func mergeOr(l1, l2) (l)
  requires sorted(l1) && sorted(l2)
  ensures [sorted] sorted(l)
  ensures [union] forall v int :: mem(l, v) <==> mem(l1, v) || mem(l2, v)
  ensures l == nil || fresh(l)
  loop 1
    invariant 0 <= i && i <= len(l1) && 0 <= j && j <= len(l2)
    invariant sorted(l)
    invariant forall k int :: 0 <= k && k < len(l) ==> (i < len(l1) ==> l[k] < l1[i]) && (j < len(l2) ==> l[k] < l2[j])
    invariant forall k int :: 0 <= k && k < len(l) ==> mem(l1, l[k]) || mem(l2, l[k])
    invariant forall k int :: 0 <= k && k < i ==> mem(l, l1[k])
    invariant forall k int :: 0 <= k && k < j ==> mem(l, l2[k])

# bytes [0, 0+n) of the data; anything outside it ends the program
func (*Index).slice(ix, off, n) (b)
  requires n < 0 ==> off <= len(ix.data.d)
  modifies
  ensures arr(b) == arr(ix.data.d) && offset(b) == offset(ix.data.d) + off
  ensures [length] (n >= 0 ==> len(b) == n && cap(b) >= n) && (n < 0 ==> len(b) == len(ix.data.d) - off)
  ensures [inside] off + len(b) <= len(ix.data.d)

func (*Index).uint32(ix, off) (v)
  modifies
  ensures off + 4 <= len(ix.data.d) && v == be32(ix.data.d, off)

extern encoding/binary.bigEndian.Uint32(self, b) (v)
  requires len(b) >= 4
  pure
  ensures v == be32(b, 0)

func (*Index).listAt(ix, off) (trigram, count, offset)
  modifies
  ensures (let p = wrap32(ix.postIndex + off) :: trigram == ix.data.d[p]*65536 + ix.data.d[p+1]*256 + ix.data.d[p+2] && count == be32(ix.data.d, p+3) && offset == be32(ix.data.d, p+7))

func (*Index).findList(ix, trigram) (count, offset)
  requires tableOK(ix)
  modifies
  option search e_ tri(ix, e_) >= trigram
  ensures [found] lcount(ix, trigram) == count && (count != 0 ==> offset == loff(ix, trigram))

# The reader of a posting list: which list it reads is ghost state.
ghostvar $ptri int
ghostvar $pix *codesearch/index.Index

pred rdk(r) = lcount($pix, $ptri) - r.count
pred rdOK(r) = 0 <= r.count && r.count <= lcount($pix, $ptri) && (r.d == nil <==> lcount($pix, $ptri) == 0)
|  && (r.d != nil ==> r.ix == $pix && arr(r.d) == arr($pix.data.d) && offset(r.d) == pp($pix, $ptri, rdk(r))
|       && offset(r.d) + len(r.d) == offset($pix.data.d) + len($pix.data.d) && r.fileid == pf($pix, $ptri, rdk(r)))
pred inR(v, s) = s == nil || mem(s, v)
# s is what is left of the restriction list w; everything dropped is below f
pred leftOf(s, w, f) = (s == nil <==> w == nil) && arr(s) == arr(w) && offset(w) <= offset(s) && offset(s) + len(s) == offset(w) + len(w)
|  && (forall i int :: 0 <= i && i < offset(s) - offset(w) ==> w[i] < f)

func (*postReader).init(r, ix, trigram, restrict)
  requires tableOK(ix) && listsOK(ix)
  requires r.count == 0 && r.d == nil && r.restrict == nil
  ghost $ptri = trigram
  ghost $pix = ix
  modifies r.ix, r.count, r.offset, r.fileid, r.d, r.restrict, $ptri, $pix
  ensures $ptri == trigram && $pix == ix && rdOK(r) && r.count == lcount(ix, trigram) && (r.count != 0 ==> r.restrict == restrict) && (r.count == 0 ==> r.restrict == nil)

func (*postReader).max(r) (n)
  pure
  ensures n == r.count

func (*postReader).next(r) (ok)
  requires listsOK($pix) && rdOK(r) && sorted(r.restrict)
  modifies r.count, r.d, r.fileid, r.restrict
  ensures [more] ok ==> rdOK(r) && r.fileid == pf($pix, $ptri, rdk(r)) && old(rdk(r)) < rdk(r) && inR(r.fileid, old(r.restrict))
|   && (forall j int :: {pf($pix, $ptri, j)} old(rdk(r)) < j && j < rdk(r) ==> !inR(pf($pix, $ptri, j), old(r.restrict)))
  ensures [left] ok ==> leftOf(r.restrict, old(r.restrict), r.fileid)
  ensures [kept] ok ==> (forall j int :: {pf($pix, $ptri, j)} rdk(r) < j && j <= lcount($pix, $ptri) && inR(pf($pix, $ptri, j), old(r.restrict)) ==> inR(pf($pix, $ptri, j), r.restrict))
  ensures [end] !ok ==> (forall j int :: {pf($pix, $ptri, j)} old(rdk(r)) < j && j <= lcount($pix, $ptri) ==> !inR(pf($pix, $ptri, j), old(r.restrict)))
  loop 1
    invariant rdOK(r) && old(rdk(r)) <= rdk(r)
    invariant forall j int :: {pf($pix, $ptri, j)} old(rdk(r)) < j && j <= rdk(r) ==> !inR(pf($pix, $ptri, j), old(r.restrict))
    invariant leftOf(r.restrict, old(r.restrict), r.fileid) && (rdk(r) == old(rdk(r)) ==> r.restrict == old(r.restrict))
  loop 2
    invariant 0 <= i && i <= len(r.restrict)
    invariant forall k int :: 0 <= k && k < i ==> r.restrict[k] < r.fileid

func (*Index).postingList(ix, trigram, restrict) (x)
  requires tableOK(ix) && listsOK(ix) && sorted(restrict)
  modifies $ptri, $pix
  ensures [sorted] sorted(x)
  ensures [files] forall v int :: mem(x, v) <==> hasTri(ix, trigram, v) && inR(v, restrict)
  ensures fresh(x) && x != nil
  loop 1
    modifies elems(x)
    invariant $ptri == trigram && $pix == ix && rdOK(r) && sorted(x) && fresh(x) && x != nil && lcount(ix, trigram) >= 0
    invariant forall i int :: 0 <= i && i < len(x) ==> hasTri(ix, trigram, x[i]) && pk(ix, trigram, x[i]) <= rdk(r) && inR(x[i], restrict)
    invariant forall j int :: {pf(ix, trigram, j)} 1 <= j && j <= rdk(r) && inR(pf(ix, trigram, j), restrict) ==> mem(x, pf(ix, trigram, j))
    invariant lcount(ix, trigram) > 0 ==> leftOf(r.restrict, restrict, pf(ix, trigram, rdk(r))) && (rdk(r) == 0 ==> r.restrict == restrict)
    invariant lcount(ix, trigram) == 0 ==> r.restrict == nil

func (*Index).postingAnd(ix, list, trigram, restrict) (x)
  requires tableOK(ix) && listsOK(ix) && sorted(restrict) && sorted(list)
  requires [apart] restrict == nil || arr(restrict) != arr(list)
  modifies $ptri, $pix, elems(list)
  ensures [sorted] sorted(x)
  ensures [files] forall v int :: mem(x, v) <==> hasTri(ix, trigram, v) && inR(v, restrict) && old(mem(list, v))
  ensures arr(x) == arr(list) && offset(x) == offset(list)
  loop 1
    modifies elems(list)
    invariant $ptri == trigram && $pix == ix && rdOK(r) && sorted(x) && lcount(ix, trigram) >= 0
    invariant arr(x) == arr(list) && offset(x) == offset(list) && len(x) <= i && 0 <= i && i <= len(list) && cap(x) == cap(list)
    invariant forall k int :: i <= k && k < len(list) ==> list[k] == old(list[k])
    invariant forall k int :: 0 <= k && k < len(x) ==> hasTri(ix, trigram, x[k]) && pk(ix, trigram, x[k]) <= rdk(r) && inR(x[k], restrict) && (let v = x[k] :: old(mem(list, v)))
    invariant forall j int :: {pf(ix, trigram, j)} 1 <= j && j <= rdk(r) && inR(pf(ix, trigram, j), restrict) && old(mem(list, pf(ix, trigram, j))) ==> mem(x, pf(ix, trigram, j))
    invariant forall k int :: 0 <= k && k < i ==> rdk(r) > 0 && old(list[k]) <= pf(ix, trigram, rdk(r))
    invariant lcount(ix, trigram) > 0 ==> leftOf(r.restrict, restrict, pf(ix, trigram, rdk(r))) && (rdk(r) == 0 ==> r.restrict == restrict)
    invariant lcount(ix, trigram) == 0 ==> r.restrict == nil
    invariant forall j int :: {pf(ix, trigram, j)} rdk(r) < j && j <= lcount(ix, trigram) && inR(pf(ix, trigram, j), restrict) ==> inR(pf(ix, trigram, j), r.restrict)
  loop 2
    invariant 0 <= i && i <= len(list)
    invariant forall k int :: 0 <= k && k < i ==> old(list[k]) < fileid

func (*Index).postingOr(ix, list, trigram, restrict) (x)
  requires tableOK(ix) && listsOK(ix) && sorted(restrict) && sorted(list)
  modifies $ptri, $pix
  ensures [sorted] sorted(x)
  ensures [files] forall v int :: mem(x, v) <==> (hasTri(ix, trigram, v) && inR(v, restrict)) || mem(list, v)
  ensures fresh(x) && x != nil
  loop 1
    modifies elems(x)
    invariant $ptri == trigram && $pix == ix && rdOK(r) && sorted(x) && fresh(x) && x != nil && lcount(ix, trigram) >= 0
    invariant 0 <= i && i <= len(list)
    invariant forall k int :: 0 <= k && k < len(x) ==> (hasTri(ix, trigram, x[k]) && inR(x[k], restrict)) || mem(list, x[k])
    invariant forall k int :: 0 <= k && k < len(x) ==> (rdk(r) > 0 && x[k] <= pf(ix, trigram, rdk(r))) && (i < len(list) ==> x[k] < list[i])
    invariant forall k int :: 0 <= k && k < i ==> mem(x, list[k])
    invariant forall j int :: {pf(ix, trigram, j)} 1 <= j && j <= rdk(r) && inR(pf(ix, trigram, j), restrict) ==> mem(x, pf(ix, trigram, j))
    invariant lcount(ix, trigram) > 0 ==> leftOf(r.restrict, restrict, pf(ix, trigram, rdk(r))) && (rdk(r) == 0 ==> r.restrict == restrict)
    invariant lcount(ix, trigram) == 0 ==> r.restrict == nil
    invariant forall j int :: {pf(ix, trigram, j)} rdk(r) < j && j <= lcount(ix, trigram) && inR(pf(ix, trigram, j), restrict) ==> inR(pf(ix, trigram, j), r.restrict)
  loop 2
    modifies elems(x)
    invariant 0 <= i && i <= len(list) && sorted(x) && fresh(x) && x != nil
    invariant forall k int :: 0 <= k && k < len(x) ==> (hasTri(ix, trigram, x[k]) && inR(x[k], restrict)) || mem(list, x[k])
    invariant forall k int :: 0 <= k && k < len(x) ==> x[k] < fileid && (i < len(list) ==> x[k] < list[i])
    invariant forall k int :: 0 <= k && k < i ==> mem(x, list[k])
    invariant forall j int :: {pf(ix, trigram, j)} 1 <= j && j < rdk(r) && inR(pf(ix, trigram, j), restrict) ==> mem(x, pf(ix, trigram, j))

# What a query says about a file: qsem(q, v) holds iff file v satisfies q.
function qsem(q *Query, v int) bool
function qwf(q *Query) bool
pred tcode(s) = s[0]*65536 + s[1]*256 + s[2]
pred trigAll(ix, q, n, v) = forall i int :: {q.Trigram[i]} 0 <= i && i < n ==> hasTri(ix, tcode(q.Trigram[i]), v)
pred trigAny(ix, q, n, v) = exists i int :: {q.Trigram[i]} 0 <= i && i < n && hasTri(ix, tcode(q.Trigram[i]), v)
pred subAll(q, n, v) = forall i int :: {q.Sub[i]} 0 <= i && i < n ==> qsem(q.Sub[i], v)
pred subAny(q, n, v) = exists i int :: {q.Sub[i]} 0 <= i && i < n && qsem(q.Sub[i], v)
pred queryOK(ix) = forall q *Query :: {qwf(q)} qwf(q) ==> q != nil && allocated(q)
|  && (q.Op == QAll || q.Op == QNone || q.Op == QAnd || q.Op == QOr)
|  && (q.Op == QAnd ==> len(q.Trigram) + len(q.Sub) > 0)
|  && (forall i int :: {q.Trigram[i]} 0 <= i && i < len(q.Trigram) ==> len(q.Trigram[i]) >= 3)
|  && (forall i int :: {q.Sub[i]} 0 <= i && i < len(q.Sub) ==> qwf(q.Sub[i]))
|  && (forall v int :: {qsem(q, v)} (q.Op == QAll ==> qsem(q, v)) && (q.Op == QNone ==> !qsem(q, v))
|        && (q.Op == QAnd ==> (qsem(q, v) <==> trigAll(ix, q, len(q.Trigram), v) && subAll(q, len(q.Sub), v)))
|        && (q.Op == QOr ==> (qsem(q, v) <==> trigAny(ix, q, len(q.Trigram), v) || subAny(q, len(q.Sub), v))))
pred isFile(ix, v) = 0 <= v && v < ix.numName
pred filesOnly(ix, s) = forall v int :: {mem(s, v)} mem(s, v) ==> isFile(ix, v)

func (*Index).postingQuery(ix, q, restrict) (ret)
  requires tableOK(ix) && listsOK(ix) && queryOK(ix) && qwf(q) && sorted(restrict) && filesOnly(ix, restrict)
  modifies $ptri, $pix
  ensures [sorted] sorted(ret)
  ensures [files] forall v int :: {mem(ret, v)} {qsem(q, v)} mem(ret, v) <==> isFile(ix, v) && qsem(q, v) && inR(v, restrict)
  ensures [own] ret == nil || fresh(ret) || ret == restrict
  loop 1
    invariant len(list) == ix.numName && fresh(list) && list != nil
    invariant forall k int :: {list[k]} {qsem(q, k)} 0 <= k && k < $iter ==> list[k] == k
  loop 2
    invariant (list == nil <==> $iter == 0) && (list == nil || fresh(list)) && sorted(list)
    invariant list != nil ==> (forall v int :: {mem(list, v)} {qsem(q, v)} mem(list, v) <==> inR(v, restrict) && trigAll(ix, q, $iter, v))
  loop 3
    invariant (list == nil ==> $iter == 0 && len(q.Trigram) == 0) && (list == nil || fresh(list) || list == restrict) && sorted(list)
    invariant list != nil ==> (forall v int :: {mem(list, v)} {qsem(q, v)} mem(list, v) <==> isFile(ix, v) && inR(v, restrict) && trigAll(ix, q, len(q.Trigram), v) && subAll(q, $iter, v))
  loop 4
    invariant (list == nil <==> $iter == 0) && (list == nil || fresh(list)) && sorted(list)
    invariant forall v int :: {mem(list, v)} {qsem(q, v)} mem(list, v) <==> inR(v, restrict) && trigAny(ix, q, $iter, v)
  loop 5
    invariant (list == nil || fresh(list)) && sorted(list)
    invariant forall v int :: {mem(list, v)} {qsem(q, v)} mem(list, v) <==> isFile(ix, v) && inR(v, restrict) && (trigAny(ix, q, len(q.Trigram), v) || subAny(q, $iter, v))

func (*Index).PostingQuery(ix, q) (ret)
  requires qwf(q)
  assumes tableOK(ix) && listsOK(ix) && queryOK(ix)
  modifies $ptri, $pix
  ensures [in-range] forall k int :: {ret[k]} 0 <= k && k < len(ret) ==> mem(ret, ret[k]) && isFile(ix, ret[k])
  ensures [sorted] sorted(ret)
  ensures [files] forall v int :: {mem(ret, v)} {qsem(q, v)} mem(ret, v) <==> isFile(ix, v) && qsem(q, v)

func (*Index).PostingList(ix, trigram) (x)
  requires tableOK(ix) && listsOK(ix)
  modifies $ptri, $pix
  ensures [sorted] sorted(x)
  ensures [files] forall v int :: mem(x, v) <==> hasTri(ix, trigram, v)

func (*Index).PostingAnd(ix, list, trigram) (x)
  requires tableOK(ix) && listsOK(ix) && sorted(list)
  modifies $ptri, $pix, elems(list)
  ensures [sorted] sorted(x)
  ensures [files] forall v int :: mem(x, v) <==> hasTri(ix, trigram, v) && old(mem(list, v))

func (*Index).PostingOr(ix, list, trigram) (x)
  requires tableOK(ix) && listsOK(ix) && sorted(list)
  modifies $ptri, $pix
  ensures [sorted] sorted(x)
  ensures [files] forall v int :: mem(x, v) <==> hasTri(ix, trigram, v) || mem(list, v)

# the name table: the offsets in it point into the data
pred namesOK(ix) = forall f int :: {be32(ix.data.d, wrap32(ix.nameIndex + 4*f))} 0 <= f && f < ix.numName ==> wrap32(ix.nameData + be32(ix.data.d, wrap32(ix.nameIndex + 4*f))) <= len(ix.data.d)

func (*Index).str(ix, off) (s)
  requires off <= len(ix.data.d)
  modifies
  ensures arr(s) == arr(ix.data.d) && offset(s) == offset(ix.data.d) + off && off + len(s) < len(ix.data.d) && ix.data.d[off + len(s)] == 0
  ensures forall i int :: {s[i]} 0 <= i && i < len(s) ==> s[i] != 0

func (*Index).NameBytes(ix, fileid) (s)
  requires fileid < ix.numName
  assumes namesOK(ix)
  modifies

func (*Index).Name(ix, fileid) (s)
  requires fileid < ix.numName
  assumes namesOK(ix)
  modifies
