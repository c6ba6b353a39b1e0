# C03, C07: sparse sets (codesearch/sparse/set.go)
package codesearch/sparse

# x is a member
function sparseHas(d row, do int, n int, r row, ro int, x int) bool
axiom has_def global: forall d row, do, n int, r row, ro, x int :: {sparseHas(d, do, n, r, ro, x)} sparseHas(d, do, n, r, ro, x) <==> 0 <= r[ro+x] && r[ro+x] < n && d[do + r[ro+x]] == x
pred inSet(s, x) = sparseHas(row(s.dense), offset(s.dense), len(s.dense), row(s.sparse), offset(s.sparse), x)
# every element of the dense array is found through the sparse one, so none is listed twice
pred setOK(s) = s != nil && setWF(s)
pred setWF(s) = len(s.dense) <= 4294967295 && len(s.sparse) <= 4294967295 && (s.dense == nil || arr(s.dense) != arr(s.sparse))
| && (forall i int :: {s.dense[i]} 0 <= i && i < len(s.dense) ==> s.dense[i] < len(s.sparse) && s.sparse[s.dense[i]] == i)

func NewSet(max) (s)
  props C03 C07
  modifies
  ensures fresh(s) && setOK(s) && len(s.sparse) == max && len(s.dense) == 0 && fresh(s.sparse) && s.dense == nil

func (*Set).Init(s, max)
  props C07
  requires s != nil && len(s.dense) == 0
  modifies s.sparse
  ensures setOK(s) && len(s.sparse) == max && fresh(s.sparse) && len(s.dense) == 0

func (*Set).Reset(s)
  props C03 C07
  requires setOK(s)
  modifies s.dense
  ensures [empty] setOK(s) && len(s.dense) == 0 && arr(s.dense) == old(arr(s.dense)) && (old(s.dense) == nil ==> s.dense == nil)

func (*Set).Add(s, x)
  props C03 C07
  requires setOK(s) && x < len(s.sparse) && len(s.dense) < 4294967295
  modifies s.dense, elems(s.dense), elems(s.sparse)
  ensures setOK(s) && (arr(s.dense) == old(arr(s.dense)) || fresh(s.dense))
  ensures [member] forall y int :: {inSet(s, y)} 0 <= y && y < len(s.sparse) ==> (inSet(s, y) <==> old(inSet(s, y)) || y == x)
  ensures [order] (old(inSet(s, x)) ==> len(s.dense) == old(len(s.dense))) && (!old(inSet(s, x)) ==> len(s.dense) == old(len(s.dense)) + 1 && s.dense[len(s.dense)-1] == x)
  ensures [kept] forall i int :: {s.dense[i]} 0 <= i && i < old(len(s.dense)) ==> s.dense[i] == old(s.dense[i])

func (*Set).Has(s, x) (r)
  props C03 C07
  requires setOK(s) && x < len(s.sparse)
  pure
  ensures [member] r <==> inSet(s, x)

func (*Set).Dense(s) (d)
  props C03 C07
  requires s != nil
  pure
  ensures d == s.dense

func (*Set).Len(s) (n)
  props C03 C07
  requires s != nil
  pure
  ensures n == len(s.dense)
