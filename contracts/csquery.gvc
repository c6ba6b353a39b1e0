# C01: from a regular expression to a trigram query (codesearch/index/regexp.go)
package codesearch/index

# ---------- texts and pieces ----------
# One text, whichever: within(w) says that it contains w.
function within(w string) bool
pred preOf(p, w) = hasPrefix(w, p)
pred sufOf(p, w) = hasSuffix(w, p)
axiom within_sub: forall w string, a, b int :: {w[a:b], within(w)} within(w) && 0 <= a && a <= b && b <= len(w) ==> within(w[a:b])
axiom pre_within: forall p, w string :: {preOf(p, w), within(w)} preOf(p, w) && within(w) ==> within(p)
axiom suf_within: forall p, w string :: {sufOf(p, w), within(w)} sufOf(p, w) && within(w) ==> within(p)
axiom pre_refl: forall p string :: {preOf(p, p)} preOf(p, p) && sufOf(p, p)
axiom pre_nil: forall w string :: {preOf("", w)} preOf("", w)
axiom suf_nil: forall w string :: {sufOf("", w)} sufOf("", w)
axiom cat_within: forall v, w string :: {concat(v, w)} within(concat(v, w)) ==> within(v) && within(w)
axiom pre_cat1: forall p, v, w string :: {concat(v, w), preOf(p, v)} preOf(p, v) ==> preOf(p, concat(v, w))
axiom suf_cat1: forall p, v, w string :: {concat(v, w), sufOf(p, w)} sufOf(p, w) ==> sufOf(p, concat(v, w))
axiom pre_cat2: forall p, v, w string :: {concat(v, w), preOf(p, w)} preOf(p, w) ==> preOf(concat(v, p), concat(v, w))
axiom suf_cat2: forall p, v, w string :: {concat(v, w), sufOf(p, v)} sufOf(p, v) ==> sufOf(concat(p, w), concat(v, w))
axiom mid_cat: forall p, s, v, w string :: {concat(v, w), sufOf(s, v), preOf(p, w)} sufOf(s, v) && preOf(p, w) && within(concat(v, w)) ==> within(concat(s, p))
axiom pre_cut: forall p, w string, k int :: {p[0:k], preOf(p, w)} preOf(p, w) && 0 <= k && k <= len(p) ==> preOf(p[0:k], w)
axiom suf_cut: forall p, w string, k int :: {p[k:len(p)], sufOf(p, w)} sufOf(p, w) && 0 <= k && k <= len(p) ==> sufOf(p[k:len(p)], w)
axiom pre_part: forall p string, k int :: {p[0:k]} 0 <= k && k <= len(p) ==> preOf(p[0:k], p)
axiom suf_part: forall p string, k int :: {p[k:len(p)]} 0 <= k && k <= len(p) ==> sufOf(p[k:len(p)], p)
axiom pre_trans: forall p, q, w string :: {preOf(p, q), preOf(q, w)} preOf(p, q) && preOf(q, w) ==> preOf(p, w)
axiom suf_trans: forall p, q, w string :: {sufOf(p, q), sufOf(q, w)} sufOf(p, q) && sufOf(q, w) ==> sufOf(p, w)

# ---------- sets of strings ----------
function inS(d map[int]string, o int, n int, w string) bool
axiom inS_def: forall d map[int]string, o, n int, w string :: {inS(d, o, n, w)} inS(d, o, n, w) <==> (exists j int :: {d[j]} o <= j && j < o + n && d[j] == w)
axiom inS_at: forall d map[int]string, o, n, j int :: {inS(d, o, n, d[j])} o <= j && j < o + n ==> inS(d, o, n, d[j])
lemma inS_upd use inS_def: forall d map[int]string, k int, v string, o, n int, w string :: {inS(upd(d, k, v), o, n, w)} (k == o + n - 1 && n > 0 ==> (inS(upd(d, k, v), o, n, w) <==> inS(d, o, n - 1, w) || v == w)) && (k >= o + n ==> (inS(upd(d, k, v), o, n, w) <==> inS(d, o, n, w)))
lemma inS_step use inS_def: forall d map[int]string, o, m, n int, w string :: {inS(d, o, m, w), inS(d, o, n, w)} n >= 0 && m == n + 1 ==> (inS(d, o, m, w) <==> inS(d, o, n, w) || d[o + n] == w)
lemma inS_same use inS_def: forall d, e map[int]string, o, n int, w string :: {inS(d, o, n, w), inS(e, o, n, w)} (forall j int :: {d[j]} {e[j]} o <= j && j < o + n ==> d[j] == e[j]) ==> (inS(d, o, n, w) <==> inS(e, o, n, w))
lemma inS_none use inS_def: forall d map[int]string, o, n int, w string :: {inS(d, o, n, w)} n <= 0 ==> !inS(d, o, n, w)
pred hasS(s, w) = inS(row(s), offset(s), len(s), w)

local extern sort.Sort(data)
  trusted "sorting permutes"
  modifies elems(*(isType(data, "*codesearch/index.bySuffix") ? unbox(data, "*codesearch/index.bySuffix") : unbox(data, "*codesearch/index.byPrefix")))
  ensures forall w string :: {hasS(*(isType(data, "*codesearch/index.bySuffix") ? unbox(data, "*codesearch/index.bySuffix") : unbox(data, "*codesearch/index.byPrefix")), w)} {old(hasS(*(isType(data, "*codesearch/index.bySuffix") ? unbox(data, "*codesearch/index.bySuffix") : unbox(data, "*codesearch/index.byPrefix")), w))} hasS(*(isType(data, "*codesearch/index.bySuffix") ? unbox(data, "*codesearch/index.bySuffix") : unbox(data, "*codesearch/index.byPrefix")), w) <==> old(hasS(*(isType(data, "*codesearch/index.bySuffix") ? unbox(data, "*codesearch/index.bySuffix") : unbox(data, "*codesearch/index.byPrefix")), w))

func stringSet.have(s) (r)
  props C01
  pure
  ensures r <==> s != nil

func stringSet.size(s) (r)
  props C01
  pure
  ensures r == len(s)

func stringSet.minLen(s) (r)
  props C01
  modifies
  ensures [none] len(s) == 0 ==> r == 0
  ensures [least] forall j int :: {row(s)[j]} offset(s) <= j && j < offset(s) + len(s) ==> len(row(s)[j]) >= r
  loop 1
    invariant len(s) > 0 && (forall j int :: {row(s)[j]} offset(s) <= j && j < offset(s) + $iter ==> len(row(s)[j]) >= m)

func (*stringSet).add(s, str)
  props C01
  use inS_def
  requires s != nil
  modifies *s, elems(*s)
  ensures *s != nil && (arr(*s) == old(arr(*s)) || fresh(*s))
  ensures [has] hasS(*s, str)
  ensures [same] forall w string :: {hasS(*s, w)} {old(hasS(*s, w))} hasS(*s, w) <==> old(hasS(*s, w)) || w == str

func (*stringSet).clean(s, isSuffix)
  props C01
  use inS_upd inS_step inS_same inS_none inS_at
  requires s != nil
  modifies *s, elems(*s)
  ensures (*s == nil <==> old(*s == nil)) && arr(*s) == old(arr(*s)) && offset(*s) == old(offset(*s)) && len(*s) <= old(len(*s))
  ensures [same] forall w string :: {hasS(*s, w)} {old(hasS(*s, w))} hasS(*s, w) <==> old(hasS(*s, w))
  ensures [elems] forall j int :: {row(*s)[j]} offset(*s) <= j && j < offset(*s) + len(*s) ==> inS(old(row(*s)), old(offset(*s)), old(len(*s)), row(*s)[j])
  ensures [two] len(*s) >= 2 ==> row(*s)[offset(*s)] != row(*s)[offset(*s) + 1]
  ensures [distinct] forall j int :: {row(*s)[j]} offset(*s) < j && j < offset(*s) + len(*s) ==> row(*s)[j - 1] != row(*s)[j]
  loop 1
    invariant 0 <= w && w <= $iter
    invariant [distinct] forall j int :: {row(t)[j]} offset(t) < j && j < offset(t) + w ==> row(t)[j - 1] != row(t)[j]
    invariant [rest] forall j int :: {row(t)[j]} offset(t) + $iter <= j && j < offset(t) + len(t) ==> row(t)[j] == pre(row(t))[j]
    invariant [kept] forall x string :: {inS(row(t), offset(t), w, x)} {inS(pre(row(t)), offset(t), $iter, x)} inS(row(t), offset(t), w, x) <==> inS(pre(row(t)), offset(t), $iter, x)
    invariant [last] w > 0 ==> inS(pre(row(t)), offset(t), $iter, row(t)[offset(t) + w - 1])

func stringSet.union(s, t, isSuffix) (r)
  props C01
  use inS_def
  requires [apart] s == nil || t == nil || arr(s) != arr(t)
  modifies elems(s)
  ensures [own] r == nil || arr(r) == old(arr(s)) || fresh(r)
  ensures [nil] r == nil <==> s == nil && len(t) == 0
  ensures [all] forall w string :: {hasS(r, w)} {old(hasS(s, w))} {old(hasS(t, w))} hasS(r, w) <==> old(hasS(s, w)) || old(hasS(t, w))

func stringSet.copy(s) (r)
  props C01
  use inS_def
  modifies
  ensures r != nil && fresh(r) && len(r) == len(s)
  ensures [same] forall w string :: {hasS(r, w)} {hasS(s, w)} hasS(r, w) <==> hasS(s, w)

func stringSet.cross(s, t, isSuffix) (p)
  props C01
  use inS_upd inS_step inS_same inS_none inS_at
  modifies
  ensures p != nil && fresh(p)
  ensures [all] forall v, w string :: {concat(v, w)} hasS(s, v) && hasS(t, w) ==> hasS(p, concat(v, w))
  loop 1
    invariant p != nil && fresh(p)
    invariant [all] forall v, w string :: {concat(v, w)} inS(row(s), offset(s), $iter, v) && hasS(t, w) ==> hasS(p, concat(v, w))
  loop 2
    invariant p != nil && fresh(p)
    invariant [more] forall x string :: {hasS(p, x)} {pre(hasS(p, x))} pre(hasS(p, x)) ==> hasS(p, x)
    invariant [inner] forall w string :: {concat(ss, w)} inS(row(t), offset(t), $iter, w) ==> hasS(p, concat(ss, w))

func stringSet.isSubsetOf(s, t) (r)
  props C01
  use inS_step inS_at inS_none
  modifies
  ensures [subset] r ==> (forall w string :: {hasS(s, w)} {hasS(t, w)} hasS(s, w) ==> hasS(t, w))
  ensures [first] r && len(s) > 0 ==> hasS(t, row(s)[offset(s)])
  loop 1
    invariant [so-far] forall w string :: {inS(row(s), offset(s), $iter, w)} {hasS(t, w)} inS(row(s), offset(s), $iter, w) ==> hasS(t, w)
    invariant 0 <= j
  loop 2
    invariant 0 <= j

# ---------- queries ----------
function allIn(d map[int]string, o int, n int) bool
axiom allIn_def: forall d map[int]string, o, n int :: {allIn(d, o, n)} allIn(d, o, n) <==> (forall w string :: {inS(d, o, n, w)} inS(d, o, n, w) ==> within(w))
lemma allIn_at use allIn_def inS_at: forall d map[int]string, o, n, j int :: {allIn(d, o, n), d[j]} allIn(d, o, n) && o <= j && j < o + n ==> within(d[j])
function anyIn(d map[int]string, o int, n int) bool
axiom anyIn_def: forall d map[int]string, o, n int :: {anyIn(d, o, n)} anyIn(d, o, n) <==> (exists w string :: {inS(d, o, n, w)} inS(d, o, n, w) && within(w))
pred allS(s) = allIn(row(s), offset(s), len(s))
pred anyS(s) = anyIn(row(s), offset(s), len(s))

# what the query says about the text
ghostvar $sat map[ref]bool aux=index,codesearch/index
# the nodes of the query
ghostvar $fp map[ref]row aux=index,codesearch/index

# a set of queries (whichever) which means what $sat says
function qtree(q *Query) bool
pred treesOK() = forall q *Query :: {qtree(q)} qtree(q) ==> q != nil && allocated(q)
|  && (q.Op == QAll || q.Op == QNone || q.Op == QAnd || q.Op == QOr)
|  && (forall i int :: {q.Sub[i]} 0 <= i && i < len(q.Sub) ==> qtree(q.Sub[i]))
|  && (q.Op == QAll ==> $sat[q]) && (q.Op == QNone ==> !$sat[q])
|  && (q.Op == QAnd ==> ($sat[q] <==> allS(q.Trigram) && (forall i int :: {q.Sub[i]} 0 <= i && i < len(q.Sub) ==> $sat[q.Sub[i]])))
|  && (q.Op == QOr ==> ($sat[q] <==> anyS(q.Trigram) || (exists i int :: {q.Sub[i]} 0 <= i && i < len(q.Sub) && $sat[q.Sub[i]])))

func trigramsImply(t, q) (r)
  props C01
  use allIn_def anyIn_def inS_at allIn_at
  requires [trees] treesOK() && qtree(q)
  modifies
  ensures [sound] r && allS(t) ==> $sat[q]
  loop 1
    invariant true
  loop 2
    invariant true
  loop 3
    invariant allS(t) ==> (forall i int :: {q.Sub[i]} 0 <= i && i < $iter ==> $sat[q.Sub[i]])

func (*Query).implies(q, r) (ret)
  props C01
  use allIn_def anyIn_def inS_at inS_def
  requires [trees] treesOK() && qtree(q) && qtree(r)
  modifies
  ensures [sound] ret && $sat[q] ==> $sat[r]

# ---------- building queries ----------
pred shared(q) = q == allQuery || q == noneQuery
# what is known of the query q: it is true of the text (as a new node its trigrams say so)
pred leafQ(q) = len(q.Sub) == 0 && q.Op == QAnd && allS(q.Trigram)
pred tq(q) = q == allQuery || $sat[q]
pred tr(q) = tq(q) || leafQ(q)
# the node x is part of the query q
pred inF(q, x) = !shared(q) && !shared(x) && (x == q || (len(q.Sub) > 0 && $fp[q][refid(x)] == 1))
pred queryQ(q) = q != nil && (shared(q) || allocated(q)) && (forall x *Query :: {$sat[x]} {$fp[q][refid(x)]} inF(q, x) ==> allocated(x))
pred sepQ(q, r) = forall x *Query :: {$sat[x]} {$fp[q][refid(x)]} {$fp[r][refid(x)]} !(inF(q, x) && inF(r, x))
pred keptQ(x) = $sat[x] == old($sat[x]) && $fp[x] == old($fp[x]) && x.Op == old(x.Op) && x.Trigram == old(x.Trigram) && x.Sub == old(x.Sub)
pred wasQ(x) = shared(x) || allocated(x)

func (*Query).andOr(q, r, op) (out)
  props C01
  trusted "simplifies, factors and reuses the nodes of both queries; the harness covers it (bounded)"
  requires [op] op == QAnd || op == QOr
  requires [queries] queryQ(q) && queryQ(r)
  requires [apart] sepQ(q, r)
  modifies $sat, $fp, all(Query.Op), all(Query.Trigram), all(Query.Sub)
  ensures queryQ(out)
  ensures [and] op == QAnd && old(tr(q)) && old(tr(r)) ==> tq(out)
  ensures [or] op == QOr && (old(tr(q)) || old(tr(r))) ==> tq(out)
  ensures [others] forall x *Query :: {$sat[x]} {old($sat[x])} {x.Sub} {$fp[out][refid(x)]} old(wasQ(x)) && !old(inF(q, x)) && !old(inF(r, x)) ==> keptQ(x) && !inF(out, x)

func (*Query).and(q, r) (out)
  props C01
  requires [queries] queryQ(q) && queryQ(r)
  requires [apart] sepQ(q, r)
  modifies $sat, $fp, all(Query.Op), all(Query.Trigram), all(Query.Sub)
  ensures queryQ(out)
  ensures [and] old(tr(q)) && old(tr(r)) ==> tq(out)
  ensures [others] forall x *Query :: {$sat[x]} {old($sat[x])} {x.Sub} {$fp[out][refid(x)]} old(wasQ(x)) && !old(inF(q, x)) && !old(inF(r, x)) ==> keptQ(x) && !inF(out, x)

func (*Query).or(q, r) (out)
  props C01
  requires [queries] queryQ(q) && queryQ(r)
  requires [apart] sepQ(q, r)
  modifies $sat, $fp, all(Query.Op), all(Query.Trigram), all(Query.Sub)
  ensures queryQ(out)
  ensures [or] old(tr(q)) || old(tr(r)) ==> tq(out)
  ensures [others] forall x *Query :: {$sat[x]} {old($sat[x])} {x.Sub} {$fp[out][refid(x)]} old(wasQ(x)) && !old(inF(q, x)) && !old(inF(r, x)) ==> keptQ(x) && !inF(out, x)

func (*Query).andTrigrams(q, t) (ret)
  props C01
  use allIn_def anyIn_def inS_at inS_def inS_step inS_none within_sub
  requires [query] queryQ(q)
  modifies $sat, $fp, all(Query.Op), all(Query.Trigram), all(Query.Sub)
  ensures queryQ(ret)
  ensures [sat] forall w string :: {hasS(t, w)} hasS(t, w) && within(w) && old(tq(q)) ==> tq(ret)
  ensures [others] forall x *Query :: {$sat[x]} {old($sat[x])} {x.Sub} {$fp[ret][refid(x)]} old(wasQ(x)) && !old(inF(q, x)) ==> keptQ(x) && !inF(ret, x)
  loop 1
    invariant queryQ(or)
    invariant [sat] forall w string :: {inS(row(t), offset(t), $iter, w)} inS(row(t), offset(t), $iter, w) && within(w) ==> tq(or)
    invariant [others] forall x *Query :: {$sat[x]} {old($sat[x])} {x.Sub} {$fp[or][refid(x)]} old(wasQ(x)) ==> keptQ(x) && !inF(or, x)
  loop 2
    invariant 0 <= i && (trig == nil || fresh(trig))
    invariant [in] forall w string :: {hasS(trig, w)} within(tt) && hasS(trig, w) ==> within(w)

# ---------- what is known of a regular expression ----------
# prefixes, suffixes
function preS(d map[int]string, o int, n int, w string) bool
axiom preS_def: forall d map[int]string, o, n int, w string :: {preS(d, o, n, w)} preS(d, o, n, w) <==> (exists j int :: {d[j]} o <= j && j < o + n && preOf(d[j], w))
function sufS(d map[int]string, o int, n int, w string) bool
axiom sufS_def: forall d map[int]string, o, n int, w string :: {sufS(d, o, n, w)} sufS(d, o, n, w) <==> (exists j int :: {d[j]} o <= j && j < o + n && sufOf(d[j], w))
pred hasPre(s, w) = preS(row(s), offset(s), len(s), w)
pred hasSuf(s, w) = sufS(row(s), offset(s), len(s), w)
# x allows the string w: if the text contains it then the query is true
pred adm(x, w) = (x.exact != nil ? hasS(x.exact, w) : hasPre(x.prefix, w) && hasSuf(x.suffix, w)) && (within(w) ==> tq(x.match))
pred apartI(x) = (x.prefix == nil || (arr(x.prefix) != arr(x.suffix) && arr(x.prefix) != arr(x.exact))) && (x.exact == nil || arr(x.exact) != arr(x.suffix))
pred infoOK(x) = queryQ(x.match) && apartI(x)

func (*regexpInfo).addExact(info)
  props C01
  requires info != nil && queryQ(info.match)
  modifies info.match, $sat, $fp, all(Query.Op), all(Query.Trigram), all(Query.Sub)
  ensures queryQ(info.match)
  ensures [sat] forall w string :: {hasS(info.exact, w)} hasS(info.exact, w) && within(w) && old(tq(info.match)) ==> tq(info.match)
  ensures [none] info.exact == nil && old(tq(info.match)) ==> tq(info.match)
  ensures [others] forall x *Query :: {$sat[x]} {old($sat[x])} {x.Sub} {$fp[info.match][refid(x)]} old(wasQ(x)) && !old(inF(info.match, x)) ==> keptQ(x) && !inF(info.match, x)

lemma preS_in use inS_def preS_def: forall d map[int]string, o, n int, p, w string :: {inS(d, o, n, p), preOf(p, w)} inS(d, o, n, p) && preOf(p, w) ==> preS(d, o, n, w)
lemma preS_ex use preS_def inS_def: forall d map[int]string, o, n int, w string :: {preS(d, o, n, w)} preS(d, o, n, w) ==> (exists p string :: {inS(d, o, n, p)} inS(d, o, n, p) && preOf(p, w))
lemma preS_upd use preS_def: forall d map[int]string, k int, v string, o, n int, w string :: {preS(upd(d, k, v), o, n, w)} k == o + n - 1 && n > 0 ==> (preS(upd(d, k, v), o, n, w) <==> preS(d, o, n - 1, w) || preOf(v, w))
lemma sufS_in use inS_def sufS_def: forall d map[int]string, o, n int, p, w string :: {inS(d, o, n, p), sufOf(p, w)} inS(d, o, n, p) && sufOf(p, w) ==> sufS(d, o, n, w)
lemma sufS_ex use sufS_def inS_def: forall d map[int]string, o, n int, w string :: {sufS(d, o, n, w)} sufS(d, o, n, w) ==> (exists p string :: {inS(d, o, n, p)} inS(d, o, n, p) && sufOf(p, w))
lemma sufS_upd use sufS_def: forall d map[int]string, k int, v string, o, n int, w string :: {sufS(upd(d, k, v), o, n, w)} k == o + n - 1 && n > 0 ==> (sufS(upd(d, k, v), o, n, w) <==> sufS(d, o, n - 1, w) || sufOf(v, w))
lemma preS_step use preS_def: forall d map[int]string, o, m, n int, w string :: {preS(d, o, m, w), preS(d, o, n, w)} n >= 0 && m == n + 1 ==> (preS(d, o, m, w) <==> preS(d, o, n, w) || preOf(d[o + n], w))
lemma sufS_step use sufS_def: forall d map[int]string, o, m, n int, w string :: {sufS(d, o, m, w), sufS(d, o, n, w)} n >= 0 && m == n + 1 ==> (sufS(d, o, m, w) <==> sufS(d, o, n, w) || sufOf(d[o + n], w))

func (*regexpInfo).simplifySet(info, s)
  props C01
  use preS_def sufS_def preS_in sufS_in preS_ex sufS_ex preS_upd sufS_upd preS_step sufS_step inS_none inS_at inS_upd inS_same pre_cut suf_cut pre_trans suf_trans
  requires info != nil && queryQ(info.match) && (s == addr(info.prefix) || s == addr(info.suffix))
  modifies info.match, *s, elems(*s), $sat, $fp, all(Query.Op), all(Query.Trigram), all(Query.Sub)
  ensures queryQ(info.match) && arr(*s) == old(arr(*s))
  ensures [sat] forall w string :: {old(hasS(*s, w))} old(hasS(*s, w)) && within(w) && old(tq(info.match)) ==> tq(info.match)
  ensures [prefix] s == addr(info.prefix) ==> (forall w string :: {hasPre(*s, w)} {old(hasPre(*s, w))} old(hasPre(*s, w)) ==> hasPre(*s, w))
  ensures [suffix] s == addr(info.suffix) ==> (forall w string :: {hasSuf(*s, w)} {old(hasSuf(*s, w))} old(hasSuf(*s, w)) ==> hasSuf(*s, w))
  ensures [others] forall x *Query :: {$sat[x]} {old($sat[x])} {x.Sub} {$fp[info.match][refid(x)]} old(wasQ(x)) && !old(inF(info.match, x)) ==> keptQ(x) && !inF(info.match, x)
  loop 1
    invariant arr(t) == old(arr(*s)) && queryQ(info.match) && 0 <= n && n <= 3
    invariant [short] n < 3 ==> (forall j int :: {row(t)[j]} offset(t) <= j && j < offset(t) + len(t) ==> len(row(t)[j]) <= n)
    invariant [few] n == 0 ==> len(t) <= 1
    invariant [prefix] s == addr(info.prefix) ==> (forall x string :: {hasPre(t, x)} {old(hasPre(*s, x))} old(hasPre(*s, x)) ==> hasPre(t, x))
    invariant [suffix] s == addr(info.suffix) ==> (forall x string :: {hasSuf(t, x)} {old(hasSuf(*s, x))} old(hasSuf(*s, x)) ==> hasSuf(t, x))
  loop 2
    invariant 0 <= w && w <= $iter
    invariant [rest] forall j int :: {row(t)[j]} offset(t) + $iter <= j && j < offset(t) + len(t) ==> row(t)[j] == pre(row(t))[j]
    invariant [prefix] s == addr(info.prefix) ==> (forall x string :: {preS(row(t), offset(t), w, x)} {preS(pre(row(t)), offset(t), $iter, x)} preS(pre(row(t)), offset(t), $iter, x) ==> preS(row(t), offset(t), w, x))
    invariant [suffix] s == addr(info.suffix) ==> (forall x string :: {sufS(row(t), offset(t), w, x)} {sufS(pre(row(t)), offset(t), $iter, x)} sufS(pre(row(t)), offset(t), $iter, x) ==> sufS(row(t), offset(t), w, x))
    invariant [short] forall x string :: {inS(row(t), offset(t), w, x)} inS(row(t), offset(t), w, x) ==> len(x) < n
  loop 3
    invariant 0 <= w && w <= $iter
    invariant [rest] forall j int :: {row(t)[j]} offset(t) + $iter <= j && j < offset(t) + len(t) ==> row(t)[j] == pre(row(t))[j]
    invariant [prefix] s == addr(info.prefix) ==> (forall x string :: {preS(row(t), offset(t), w, x)} {preS(pre(row(t)), offset(t), $iter, x)} preS(pre(row(t)), offset(t), $iter, x) ==> preS(row(t), offset(t), w, x))
    invariant [suffix] s == addr(info.suffix) ==> (forall x string :: {sufS(row(t), offset(t), w, x)} {sufS(pre(row(t)), offset(t), $iter, x)} sufS(pre(row(t)), offset(t), $iter, x) ==> sufS(row(t), offset(t), w, x))

lemma preS_self use preS_in pre_refl: forall d map[int]string, o, n int, w string :: {inS(d, o, n, w), preS(d, o, n, w)} inS(d, o, n, w) ==> preS(d, o, n, w)
lemma sufS_self use sufS_in pre_refl: forall d map[int]string, o, n int, w string :: {inS(d, o, n, w), sufS(d, o, n, w)} inS(d, o, n, w) ==> sufS(d, o, n, w)
pred ownS(a, x) = a == nil || fresh(a) || arr(a) == old(arr(x.exact)) || arr(a) == old(arr(x.prefix)) || arr(a) == old(arr(x.suffix))
pred ownI(r, x) = ownS(r.exact, x) && ownS(r.prefix, x) && ownS(r.suffix, x)

func (*regexpInfo).simplify(info, force)
  props C01
  merge
  use preS_self sufS_self preS_in sufS_in preS_ex sufS_ex inS_def inS_none pre_part suf_part pre_within suf_within pre_refl inS_at
  requires info != nil && infoOK(info)
  modifies info.exact, info.prefix, info.suffix, info.match, elems(info.exact), elems(info.prefix), elems(info.suffix), $sat, $fp, all(Query.Op), all(Query.Trigram), all(Query.Sub)
  ensures infoOK(info) && ownI(info, info)
  ensures [sound] forall w string :: {old(hasS(info.exact, w))} {old(hasPre(info.prefix, w))} {within(w)} {lang0(w)} old(adm(info, w)) ==> adm(info, w)
  ensures [others] forall x *Query :: {$sat[x]} {old($sat[x])} {x.Sub} {$fp[info.match][refid(x)]} old(wasQ(x)) && !old(inF(info.match, x)) ==> keptQ(x) && !inF(info.match, x)
  loop 1
    invariant infoOK(info) && ownI(info, info) && info.exact == pre(info.exact)
    invariant [exact] row(info.exact) == pre(row(info.exact))
    invariant [prefixes] forall j int :: {row(info.exact)[j]} offset(info.exact) <= j && j < offset(info.exact) + $iter ==> hasPre(info.prefix, row(info.exact)[j])
    invariant [suffixes] forall j int :: {row(info.exact)[j]} offset(info.exact) <= j && j < offset(info.exact) + $iter ==> hasSuf(info.suffix, row(info.exact)[j])

pred clearOf(a, x) = a == nil || (arr(a) != arr(x.exact) && arr(a) != arr(x.prefix) && arr(a) != arr(x.suffix))
pred clearI(x, y) = clearOf(x.exact, y) && clearOf(x.prefix, y) && clearOf(x.suffix, y)
pred ownS2(a, x, y) = ownS(a, x) || ownS(a, y)
pred ownI2(r, x, y) = ownS2(r.exact, x, y) && ownS2(r.prefix, x, y) && ownS2(r.suffix, x, y)

func concat(x, y) (out)
  props C01
  merge
  use preS_in sufS_in preS_ex sufS_ex inS_def mid_cat pre_cat1 pre_cat2 suf_cat1 suf_cat2 cat_within
  requires infoOK(x) && infoOK(y) && clearI(x, y) && sepQ(x.match, y.match)
  modifies elems(x.exact), elems(x.prefix), elems(x.suffix), elems(y.exact), elems(y.prefix), elems(y.suffix), $sat, $fp, all(Query.Op), all(Query.Trigram), all(Query.Sub)
  ensures infoOK(out) && ownI2(out, x, y)
  ensures [sound] forall v, w string :: {concat(v, w)} old(adm(x, v)) && old(adm(y, w)) ==> adm(out, concat(v, w))
  ensures [others] forall z *Query :: {$sat[z]} {old($sat[z])} {z.Sub} {$fp[out.match][refid(z)]} old(wasQ(z)) && !old(inF(x.match, z)) && !old(inF(y.match, z)) ==> keptQ(z) && !inF(out.match, z)

func alternate(x, y) (out)
  merge
  props C01
  use preS_in sufS_in preS_ex sufS_ex preS_self sufS_self inS_def
  requires infoOK(x) && infoOK(y) && clearI(x, y) && sepQ(x.match, y.match)
  modifies elems(x.exact), elems(x.prefix), elems(x.suffix), elems(y.exact), elems(y.prefix), elems(y.suffix), $sat, $fp, all(Query.Op), all(Query.Trigram), all(Query.Sub)
  ensures infoOK(out) && ownI2(out, x, y)
  ensures [sound] forall w string :: {within(w)} {old(hasS(x.exact, w))} {old(hasPre(x.prefix, w))} {old(hasS(y.exact, w))} {old(hasPre(y.prefix, w))} old(adm(x, w)) || old(adm(y, w)) ==> adm(out, w)
  ensures [others] forall z *Query :: {$sat[z]} {old($sat[z])} {z.Sub} {$fp[out.match][refid(z)]} old(wasQ(z)) && !old(inF(x.match, z)) && !old(inF(y.match, z)) ==> keptQ(z) && !inF(out.match, z)

func anyMatch() (r)
  props C01
  use preS_def sufS_def pre_nil suf_nil
  modifies
  ensures infoOK(r) && ownI0(r) && shared(r.match)
  ensures [any] forall w string :: {within(w)} {lang0(w)} adm(r, w)

func anyChar() (r)
  props C01
  use preS_def sufS_def pre_nil suf_nil
  modifies
  ensures infoOK(r) && ownI0(r) && shared(r.match)
  ensures [any] forall w string :: {within(w)} {lang0(w)} adm(r, w)

func noMatch() (r)
  props C01
  modifies
  ensures infoOK(r) && ownI0(r) && shared(r.match)

func emptyString() (r)
  props C01
  use inS_def
  modifies
  ensures infoOK(r) && ownI0(r) && shared(r.match)
  ensures [empty] adm(r, "")
pred ownI0(r) = (r.exact == nil || fresh(r.exact)) && (r.prefix == nil || fresh(r.prefix)) && (r.suffix == nil || fresh(r.suffix))
# a marker for the words of an expression (always true)
function lang0(w string) bool

# ---------- regular expressions ----------
# lang(re, w): the expression matches the text w (somewhere in a text); isRe: a parsed expression, which nobody changes.
function lang(re *syntax.Regexp, w string) bool
function isRe(re *syntax.Regexp) bool
axiom lang_mark: forall re *syntax.Regexp, w string :: {lang(re, w)} lang(re, w) ==> lang0(w)
# upper and lower case
function fold1(a int) int
function orb(a, b int) bool
# pairs of a character class
function ccIn(d row, o, n, r int) bool
axiom ccIn_def: forall d row, o, n, r int :: {ccIn(d, o, n, r)} ccIn(d, o, n, r) <==> (exists j int :: {d[j]} o <= j && j + 1 < o + n && (j - o) % 2 == 0 && d[j] <= r && r <= d[j + 1])
lemma ccIn_app use ccIn_def: forall d, e row, o, p, m, n, r int :: {ccIn(e, p, m, r), ccIn(d, o, n, r)} m == n + 2 && n >= 0 && n % 2 == 0 && (forall j int :: {d[j]} o <= j && j < o + n ==> e[j - o + p] == d[j]) && (forall j int :: {e[j]} p <= j && j < p + n ==> e[j] == d[j - p + o]) ==> (ccIn(e, p, m, r) <==> ccIn(d, o, n, r) || (e[p + n] <= r && r <= e[p + n + 1]))
lemma ccIn_upd use ccIn_def: forall d row, k, l, v, o, m, r int :: {ccIn(upd(upd(d, k, v), l, v), o, m, r)} m >= 2 && m % 2 == 0 && k == o + m - 2 && l == o + m - 1 ==> (ccIn(upd(upd(d, k, v), l, v), o, m, r) <==> ccIn(d, o, m - 2, r) || r == v)
axiom orb_least: forall d row, o, n, a, r int :: {ccIn(d, o, n, r), orb(a, r)} ccIn(d, o, n, a) && (forall x int :: {ccIn(d, o, n, x)} ccIn(d, o, n, x) ==> ccIn(d, o, n, fold1(x))) && orb(a, r) ==> ccIn(d, o, n, r)
# the words of k folded letters; of k expressions one after the other; of one of k expressions
function litTo(d row, o, k int, w string) bool
function litV(d row, o, k int, w string) string
function litR(d row, o, k int, w string) int
axiom litTo_def: forall d row, o, k int, w string :: {litTo(d, o, k, w)} litTo(d, o, k, w) ==> (k <= 0 ==> w == "") && (k > 0 ==> litTo(d, o, k - 1, litV(d, o, k, w)) && orb(d[o + k - 1], litR(d, o, k, w)) && w == concat(litV(d, o, k, w), rune2str(litR(d, o, k, w))))
function catTo(d map[int]ref, o, k int, w string) bool
function catV(d map[int]ref, o, k int, w string) string
function catW(d map[int]ref, o, k int, w string) string
axiom catTo_def: forall d map[int]ref, o, k int, w string :: {catTo(d, o, k, w)} catTo(d, o, k, w) ==> (k <= 0 ==> w == "") && (k > 0 ==> catTo(d, o, k - 1, catV(d, o, k, w)) && lang(d[o + k - 1], catW(d, o, k, w)) && w == concat(catV(d, o, k, w), catW(d, o, k, w)))
function altTo(d map[int]ref, o, k int, w string) bool
axiom altTo_def: forall d map[int]ref, o, k int, w string :: {altTo(d, o, k, w)} altTo(d, o, k, w) ==> k > 0 && (lang(d[o + k - 1], w) || altTo(d, o, k - 1, w))
function runeOf(re *syntax.Regexp, w string) int
function firstOf(re *syntax.Regexp, w string) string
function lastOf(re *syntax.Regexp, w string) string
pred folds(re) = re.Flags & 1 != 0
pred wordOf(re, w) = re.Op != 1 && (re.Op == 2 || (7 <= re.Op && re.Op <= 12) ==> w == "")
|  && (re.Op == 3 ==> (folds(re) ? litTo(row(re.Rune), offset(re.Rune), len(re.Rune), w) : w == runes2str(re.Rune)))
|  && (re.Op == 4 ==> w == rune2str(runeOf(re, w)) && ccIn(row(re.Rune), offset(re.Rune), len(re.Rune), runeOf(re, w)))
|  && (re.Op == 13 ==> lang(re.Sub[0], w)) && (re.Op == 16 ==> w == "" || lang(re.Sub[0], w))
|  && (re.Op == 15 || (re.Op == 17 && re.Min != 0) ==> lang(re.Sub[0], firstOf(re, w)) && preOf(firstOf(re, w), w) && lang(re.Sub[0], lastOf(re, w)) && sufOf(lastOf(re, w), w))
|  && (re.Op == 18 ==> catTo(row(re.Sub), offset(re.Sub), len(re.Sub), w))
|  && (re.Op == 19 ==> altTo(row(re.Sub), offset(re.Sub), len(re.Sub), w))
pred reOK() = (forall re *syntax.Regexp :: {isRe(re)} isRe(re) ==> re != nil && allocated(re) && (len(re.Sub) > 0 ==> allocated(re.Sub)) && (len(re.Rune) > 0 ==> allocated(re.Rune))
|  && 1 <= re.Op && re.Op <= 19 && (13 <= re.Op && re.Op <= 17 ==> len(re.Sub) == 1) && (re.Op == 4 ==> len(re.Rune) % 2 == 0))
|  && (forall re *syntax.Regexp, j int :: {isRe(re), row(re.Sub)[j]} isRe(re) && offset(re.Sub) <= j && j < offset(re.Sub) + len(re.Sub) ==> isRe(row(re.Sub)[j]))
|  && (forall re *syntax.Regexp, w string :: {lang(re, w)} isRe(re) && lang(re, w) ==> wordOf(re, w))

local extern unicode.SimpleFold(r) (s)
  pure
  ensures s == fold1(r)

func analyze(re) (ret)
  props C01
  merge
  use lang_mark ccIn_def ccIn_app ccIn_upd orb_least litTo_def catTo_def altTo_def inS_def inS_upd inS_none preS_def sufS_def preS_in sufS_in preS_ex sufS_ex pre_trans suf_trans pre_within suf_within pre_refl pre_nil suf_nil
  requires [tree] reOK()
  requires [node] isRe(re) || (re != nil && allocated(re) && ((re.Op == 3 && folds(re) && len(re.Rune) == 1) || (re.Op == 4 && len(re.Rune) % 2 == 0)))
  modifies $sat, $fp, all(Query.Op), all(Query.Trigram), all(Query.Sub)
  ensures infoOK(ret) && ownI0(ret)
  ensures [sound] isRe(re) ==> (forall w string :: {lang(re, w)} lang(re, w) ==> adm(ret, w))
  ensures [letter] re.Op == 3 && folds(re) && len(re.Rune) == 1 ==> (forall r int :: {orb(re.Rune[0], r)} orb(re.Rune[0], r) ==> adm(ret, rune2str(r)))
  ensures [class] re.Op == 4 ==> (forall r int :: {ccIn(row(re.Rune), offset(re.Rune), len(re.Rune), r)} ccIn(row(re.Rune), offset(re.Rune), len(re.Rune), r) ==> adm(ret, rune2str(r)))
  ensures [others] forall x *Query :: {$sat[x]} {old($sat[x])} {x.Sub} {$fp[ret.match][refid(x)]} old(wasQ(x)) ==> keptQ(x) && !inF(ret.match, x)
  loop 1
    invariant fresh(re1) && re1 != nil && re1.Op == 4 && len(re1.Rune) % 2 == 0 && fresh(re1.Rune)
    invariant [first] ccIn(row(re1.Rune), offset(re1.Rune), len(re1.Rune), r0)
    invariant [orbit] forall x int :: {ccIn(row(re1.Rune), offset(re1.Rune), len(re1.Rune), x)} ccIn(row(re1.Rune), offset(re1.Rune), len(re1.Rune), x) ==> ccIn(row(re1.Rune), offset(re1.Rune), len(re1.Rune), fold1(x)) || fold1(x) == r1
  loop 2
    invariant infoOK(info) && ownI0(info) && fresh(re1) && re1.Op == 3 && folds(re1)
    invariant [words] forall w string :: {litTo(row(re.Rune), offset(re.Rune), $iter, w)} litTo(row(re.Rune), offset(re.Rune), $iter, w) ==> adm(info, w)
    invariant [others] forall x *Query :: {$sat[x]} {old($sat[x])} {x.Sub} {$fp[info.match][refid(x)]} old(wasQ(x)) ==> keptQ(x) && !inF(info.match, x)
  loop 3
    invariant 2 <= i && infoOK(info) && ownI0(info)
    invariant [words] forall w string :: {catTo(row(re.Sub), offset(re.Sub), i, w)} catTo(row(re.Sub), offset(re.Sub), i, w) ==> adm(info, w)
    invariant [others] forall x *Query :: {$sat[x]} {old($sat[x])} {x.Sub} {$fp[info.match][refid(x)]} old(wasQ(x)) ==> keptQ(x) && !inF(info.match, x)
  loop 4
    invariant 2 <= i && infoOK(info) && ownI0(info)
    invariant [words] forall w string :: {altTo(row(re.Sub), offset(re.Sub), i, w)} altTo(row(re.Sub), offset(re.Sub), i, w) ==> adm(info, w)
    invariant [others] forall x *Query :: {$sat[x]} {old($sat[x])} {x.Sub} {$fp[info.match][refid(x)]} old(wasQ(x)) ==> keptQ(x) && !inF(info.match, x)
  loop 5
    invariant 0 <= i && i % 2 == 0
  loop 6
    invariant 0 <= i && i % 2 == 0 && info.exact != nil && fresh(info.exact) && info.match == allQuery && info.prefix == nil && info.suffix == nil
    invariant [letters] forall r int :: {rune2str(r)} {ccIn(row(re.Rune), offset(re.Rune), i, r)} ccIn(row(re.Rune), offset(re.Rune), i, r) ==> hasS(info.exact, rune2str(r))
  loop 7
    invariant info.exact != nil && fresh(info.exact) && info.match == allQuery && info.prefix == nil && info.suffix == nil
    invariant [kept] forall x string :: {hasS(info.exact, x)} {pre(hasS(info.exact, x))} pre(hasS(info.exact, x)) ==> hasS(info.exact, x)
    invariant [letters] forall r int :: {rune2str(r)} lo <= r && r < rr ==> hasS(info.exact, rune2str(r))

func RegexpQuery(re) (q)
  props C01
  use preS_in sufS_in preS_ex sufS_ex
  requires [tree] reOK() && isRe(re)
  modifies $sat, $fp, all(Query.Op), all(Query.Trigram), all(Query.Sub)
  ensures queryQ(q)
  ensures [never hidden] forall w string :: {lang(re, w)} lang(re, w) && within(w) ==> tq(q)
