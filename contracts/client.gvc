# C18: merging of match contexts (client/coalesce.go)
package client

# The text of line n of the file, whether it was reported as a match, and by
# which match: arbitrary functions, constrained only by the preconditions below.
function fileLine(n int) string
function isMatch(n int) bool
function matchIdx(n int) int

pred matchOK(m) = m != nil && m.Line == fileLine(m.LineNumber)
|   && (forall i int :: 0 <= i && i < len(m.Before) ==> m.Before[i] == fileLine(m.LineNumber - len(m.Before) + i))
|   && (forall i int :: 0 <= i && i < len(m.After) ==> m.After[i] == fileLine(m.LineNumber + 1 + i))
pred mstart(m) = m.LineNumber - len(m.Before)
pred mend(m) = m.LineNumber + len(m.After)
pred bend(b) = b.Start + len(b.Lines) - 1
pred blockText(b) = len(b.Lines) >= 1 && len(b.Matches) == len(b.Lines)
|   && (forall i int :: 0 <= i && i < len(b.Lines) ==> b.Lines[i] == fileLine(b.Start + i))

func endOfBlock(b) (r)
  props C18
  pure
  ensures r == bend(b)

func startOfMatch(m) (r)
  props C18
  pure
  ensures r == mstart(m)

func matchIsInBlock(m, b) (r)
  props C18
  pure
  ensures r <==> mstart(m) <= bend(b)

func clampZero(n) (r)
  props C18
  pure
  ensures r == max(n, 0)

func matchToBlock(m) (b)
  props C18
  requires matchOK(m)
  ensures fresh(b) && fresh(b.Lines) && fresh(b.Matches) && b != nil
  ensures [text] blockText(b)
  ensures [span] b.Start == mstart(m) && bend(b) == mend(m)
  ensures [flag] forall i int :: 0 <= i && i < len(b.Lines) ==> (b.Matches[i] <==> b.Start + i == m.LineNumber)
  loop 1
    invariant len(l) == $iter
    invariant forall i int :: 0 <= i && i < len(l) ==> l[i] == fileLine(mstart(m) + i)
  loop 2
    invariant len(l) == len(m.Before) + 1 + $iter
    invariant forall i int :: 0 <= i && i < len(l) ==> l[i] == fileLine(mstart(m) + i)

func mergeMatchIntoBlock(m, b)
  props C18
  requires matchOK(m) && blockText(b)
  requires b.Start <= mstart(m) && mstart(m) <= bend(b)
  requires [apart] refid(b.Lines) != refid(m.Before) && refid(b.Lines) != refid(m.After)
  modifies b.Lines, b.Matches, elems(b.Lines), elems(b.Matches)
  ensures [text] blockText(b)
  ensures [span] b.Start == old(b.Start) && bend(b) == max(old(bend(b)), mend(m))
  ensures [flag] forall i int :: 0 <= i && i < len(b.Lines) ==> (b.Matches[i] <==> (b.Start + i == m.LineNumber || (i < old(len(b.Lines)) && old(b.Matches[i]))))
  ensures fresh(b.Lines) || refid(b.Lines) == old(refid(b.Lines))
  ensures fresh(b.Matches) || refid(b.Matches) == old(refid(b.Matches))
  loop 1
    invariant off <= i && (i <= nb || i == off)
    invariant len(b.Lines) == old(len(b.Lines)) + (i - off) && len(b.Matches) == len(b.Lines)
    invariant forall k int :: 0 <= k && k < len(b.Lines) ==> b.Lines[k] == fileLine(b.Start + k)
    invariant forall k int :: 0 <= k && k < len(b.Lines) ==> (b.Matches[k] <==> (k < old(len(b.Lines)) && old(b.Matches[k])))
    invariant fresh(b.Lines) || refid(b.Lines) == old(refid(b.Lines))
    invariant fresh(b.Matches) || refid(b.Matches) == old(refid(b.Matches))
  loop 2
    invariant clampZero0(off-nb-1) <= i && (i <= n || i == clampZero0(off-nb-1))
    invariant len(b.Lines) == max(old(len(b.Lines)), nb + 1 + old(len(b.Lines)) - off + i) && len(b.Matches) == len(b.Lines)
    invariant forall k int :: 0 <= k && k < len(b.Lines) ==> b.Lines[k] == fileLine(b.Start + k)
    invariant forall k int :: 0 <= k && k < len(b.Lines) ==> (b.Matches[k] <==> (b.Start + k == m.LineNumber || (k < old(len(b.Lines)) && old(b.Matches[k]))))
    invariant fresh(b.Lines) || refid(b.Lines) == old(refid(b.Lines))
    invariant fresh(b.Matches) || refid(b.Matches) == old(refid(b.Matches))

pred clampZero0(n) = max(n, 0)

func coalesceMatches(matches) (res)
  props C18
  requires forall k int :: 0 <= k && k < len(matches) ==> matchOK(matches[k])
  requires [ordered] forall k, l int :: 0 <= k && k < l && l < len(matches) ==>
|     matches[k].LineNumber < matches[l].LineNumber && mstart(matches[k]) <= mstart(matches[l])
  requires [owner] forall n int :: isMatch(n) <==> (0 <= matchIdx(n) && matchIdx(n) < len(matches) && matches[matchIdx(n)].LineNumber == n)
  requires [reported] forall k int :: 0 <= k && k < len(matches) ==> matchIdx(matches[k].LineNumber) == k
  ensures [text] forall j int :: 0 <= j && j < len(res) ==> res[j] != nil && blockText(res[j])
  ensures [flags] forall j, i int :: 0 <= j && j < len(res) && 0 <= i && i < len(res[j].Lines) ==> (res[j].Matches[i] <==> isMatch(res[j].Start + i))
  ensures [apart] forall j, k int :: 0 <= j && j < k && k < len(res) ==> bend(res[j]) < res[k].Start
  ensures [all] forall k int :: 0 <= k && k < len(matches) ==>
|     (exists j int :: {res[j]} 0 <= j && j < len(res) && res[j].Start <= mstart(matches[k]) && mend(matches[k]) <= bend(res[j]))
  loop 1
    invariant (curr == nil) <==> ($iter == 0)
    invariant curr == nil ==> len(res) == 0
    invariant curr != nil ==> fresh(curr) && fresh(curr.Lines) && fresh(curr.Matches) && blockText(curr)
    invariant forall j int :: {res[j]} 0 <= j && j < len(res) ==> res[j] != nil && fresh(res[j]) && fresh(res[j].Lines) && fresh(res[j].Matches) && blockText(res[j])
    invariant forall j int :: {res[j]} 0 <= j && j < len(res) ==> res[j] != curr && refid(res[j].Lines) != refid(curr.Lines) && refid(res[j].Matches) != refid(curr.Matches)
    invariant $iter > 0 ==> curr.Start <= mstart(matches[$iter-1])
    invariant [flags] forall i int :: {curr.Matches[i]} curr != nil && 0 <= i && i < len(curr.Lines) ==> (curr.Matches[i] <==> isMatch(curr.Start + i) && matchIdx(curr.Start + i) < $iter)
    invariant [pushed-flags] forall j, i int :: {res[j].Matches[i]} 0 <= j && j < len(res) && 0 <= i && i < len(res[j].Lines) ==> (res[j].Matches[i] <==> isMatch(res[j].Start + i) && matchIdx(res[j].Start + i) < $iter)
    invariant forall j int :: {res[j]} 0 <= j && j < len(res) ==> bend(res[j]) < curr.Start
    invariant forall j, k int :: {res[j], res[k]} 0 <= j && j < k && k < len(res) ==> bend(res[j]) < res[k].Start
    invariant [within] forall k int :: {matches[k]} 0 <= k && k < $iter ==> (curr.Start <= mstart(matches[k]) && mend(matches[k]) <= bend(curr))
|     || (exists j int :: {res[j]} 0 <= j && j < len(res) && res[j].Start <= mstart(matches[k]) && mend(matches[k]) <= bend(res[j]))

# ---------- C19 ----------

# the matches of re in s: their number, where each starts and ends, and where the one before ends
function mCount(re *regexp.Regexp, s string) int
function mBeg(re *regexp.Regexp, s string, k int) int
function mEnd(re *regexp.Regexp, s string, k int) int
function mPrev(re *regexp.Regexp, s string, k int) int

extern regexp.(*Regexp).FindAllStringIndex(re, s, n) (r)
  requires re != nil
  modifies
  ensures mCount(re, s) >= 0 && mPrev(re, s, 0) == 0 && 0 <= mPrev(re, s, mCount(re, s)) && mPrev(re, s, mCount(re, s)) <= len(s)
  ensures n < 0 ==> len(r) == mCount(re, s)
  ensures forall k int :: {r[k]} 0 <= k && k < len(r) ==> len(r[k]) == 2 && r[k][0] == mBeg(re, s, k) && r[k][1] == mEnd(re, s, k) && mPrev(re, s, k+1) == mEnd(re, s, k)
|    && 0 <= mPrev(re, s, k) && mPrev(re, s, k) <= mBeg(re, s, k) && mBeg(re, s, k) <= mEnd(re, s, k) && mEnd(re, s, k) <= len(s)

# o is the part of s up to the end of its match k-1, with exactly the matches in colour:
# the least relation with these two rules
function hl(re *regexp.Regexp, s string, o string, k int) bool
axiom hl_none global: forall re *regexp.Regexp, s string :: {hl(re, s, "", 0)} hl(re, s, "", 0)
axiom hl_next global: forall re *regexp.Regexp, s, o, x string, k int :: {hl(re, s, o, k), o + s[mPrev(re, s, k):mBeg(re, s, k)] + x}
|   hl(re, s, o, k) && colored(x, s[mBeg(re, s, k):mEnd(re, s, k)]) ==> hl(re, s, o + s[mPrev(re, s, k):mBeg(re, s, k)] + x, k+1)

func hiliteMatches(c, p, line) (r)
  props C19
  requires c != nil && p != nil
  let n = mCount(p, line)
  let e = mPrev(p, line, n)
  modifies $buf
  ensures [off] !c.enabled ==> r == line
  ensures [on] c.enabled ==> len(r) >= len(line) - e && r == r[0:len(r)-(len(line)-e)] + line[e:len(line)] && hl(p, line, r[0:len(r)-(len(line)-e)], n)
  loop 1
    invariant 0 <= beg && beg <= len(line) && beg == mPrev(p, line, $iter)
    invariant !c.enabled ==> $buf[ref(buf)] == line[0:beg]
    invariant c.enabled ==> hl(p, line, $buf[ref(buf)], $iter)

func lineNumber(c, buf, n, hasMatch) (r)
  props C19
  requires c != nil && buf != nil && $buf[buf] == ""
  modifies $buf
  ensures [number] !c.enabled ==> len(r) > len(dec(n)) && r[0:len(dec(n))] == dec(n)
  ensures [mark] !c.enabled ==> r[len(dec(n))] == (hasMatch ? 58 : 45) && (forall i int :: {r[i]} len(dec(n)) < i && i < len(r) ==> r[i] == 32)
  ensures [reusable] $buf[buf] == ""
  loop 1
    invariant !c.enabled ==> len($buf[buf]) > len(s) && $buf[buf][0:len(s)] == s && $buf[buf][len(s)] == (hasMatch ? 58 : 45)
    invariant !c.enabled ==> (forall k int :: {$buf[buf][k]} len(s) < k && k < len($buf[buf]) ==> $buf[buf][k] == 32)

func repoNameFromUrl(uri) (r)
  props C19
  modifies
  let ax = lastIndexOf(uri, "/")
  let base = uri[ax+1:len(uri)]
  let name = hasSuffix(base, ".git") ? base[0:len(base)-4] : base
  let bx = lastIndexOf(uri[0:ax-1], "/")
  ensures [none] ax < 0 ==> r == ""
  ensures [short] ax == 0 || (ax > 0 && bx < 0) ==> r == name
  ensures [owner] ax > 0 && bx >= 0 ==> r == uri[bx+1:ax] + "/" + name

func repoNameFor(repos, repo) (r)
  props C19
  modifies
  ensures [given] repos[repo] != nil && repos[repo].DisplayName != "" ==> r == repos[repo].DisplayName
  ensures [unknown] repos[repo] == nil ==> r == repo
  ensures [some] repo != "" ==> r != ""
