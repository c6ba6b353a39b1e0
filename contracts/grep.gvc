# C04: searching the text of one file (index/grep.go)
package index

# number of newlines in bytes [a, b) of a byte array
function nlc(r row, a int, b int) int
axiom nlc_none: forall r row, a, b int :: {nlc(r, a, b)} (forall i int :: {r[i]} a <= i && i < b ==> r[i] != 10) ==> nlc(r, a, b) == 0
axiom nlc_split: forall r row, a, b, c int :: {nlc(r, a, b), nlc(r, b, c)} a <= b && b <= c ==> nlc(r, a, c) == nlc(r, a, b) + nlc(r, b, c)
axiom nlc_line: forall r row, a, b, c int :: {nlc(r, a, c), nlc(r, b, c)} a < b && b <= c && r[b-1] == 10 && (forall i int :: {r[i]} a <= i && i < b - 1 ==> r[i] != 10) ==> nlc(r, a, c) == 1 + nlc(r, b, c)
axiom nlc_snoc: forall r row, a, b, c int :: {nlc(r, a, b), nlc(r, a, c)} a <= b && b < c && r[c-1] == 10 && (forall i int :: {r[i]} b <= i && i < c - 1 ==> r[i] != 10) ==> nlc(r, a, c) == 1 + nlc(r, a, b)

# where the line matcher ends the first match in bytes [a, b), or a negative number (C07)
function matchEnd(re *codesearch/regexp.Regexp, r row, a int, b int) int

extern bytes.IndexByte(b, c) (i)
  pure
  ensures 0 - 1 <= i && i < len(b)
  ensures i >= 0 ==> b[i] == c && (forall k int :: {b[k]} 0 <= k && k < i ==> b[k] != c)
  ensures i < 0 ==> (forall k int :: {b[k]} 0 <= k && k < len(b) ==> b[k] != c)
extern bytes.Index(b, sep) (i)
  requires len(sep) == 1
  pure
  ensures 0 - 1 <= i && i < len(b)
  ensures i >= 0 ==> b[i] == sep[0] && (forall k int :: {b[k]} 0 <= k && k < i ==> b[k] != sep[0])
  ensures i < 0 ==> (forall k int :: {b[k]} 0 <= k && k < len(b) ==> b[k] != sep[0])
extern bytes.LastIndex(b, sep) (i)
  requires len(sep) == 1
  pure
  ensures 0 - 1 <= i && i < len(b)
  ensures i >= 0 ==> b[i] == sep[0] && (forall k int :: {b[k]} i < k && k < len(b) ==> b[k] != sep[0])
  ensures i < 0 ==> (forall k int :: {b[k]} 0 <= k && k < len(b) ==> b[k] != sep[0])
extern bytes.TrimRight(b, cutset) (r)
  requires cutset == "\n"
  pure
  ensures r == nil || (arr(r) == arr(b) && offset(r) == offset(b))
  ensures len(r) < len(b) ==> b[len(r)] == 10
  ensures len(r) <= len(b) && (forall k int :: {b[k]} len(r) <= k && k < len(b) ==> b[k] == 10) && (len(r) > 0 ==> b[len(r)-1] != 10)

local extern codesearch/regexp.(*Regexp).Match(re, b, beginText, endText) (e)
  requires re != nil
  modifies
  ensures e <= len(b)
  ensures [found] e >= 0 ==> e == matchEnd(re, row(b), offset(b), offset(b) + len(b)) && (e == len(b) || b[e] == 10)
  ensures [none] e < 0 ==> matchEnd(re, row(b), offset(b), offset(b) + len(b)) < 0

pred nlOK() = len(nl) == 1 && nl[0] == 10

func countLines(b) (n)
  props C04
  use nlc_none nlc_line
  modifies
  let w = b
  ensures [count] n == nlc(row(w), offset(w), offset(w) + len(w))
  loop 1
    invariant arr(b) == arr(w) && offset(w) <= offset(b) && offset(b) + len(b) == offset(w) + len(w)
    invariant n + nlc(row(w), offset(b), offset(w) + len(w)) == nlc(row(w), offset(w), offset(w) + len(w))

# bytes without a newline
pred flat(r, a, b) = forall i int :: {r[i]} a <= i && i < b ==> r[i] != 10
# ls are consecutive whole lines of the bytes [a, b) of buf: the last ones / the first ones
pred lineIn(l, buf) = arr(l) == arr(buf) && offset(buf) <= offset(l) && offset(l) + len(l) <= offset(buf) + len(buf) && flat(row(buf), offset(l), offset(l) + len(l))
pred stripped(buf) = (len(buf) > 0 && buf[len(buf)-1] == 10) ? len(buf) - 1 : len(buf)

func lastNLines(buf, n) (ls)
  props C04
  requires n >= 0
  assumes nlOK()
  let w = buf
  modifies
  ensures [none] (n == 0 || len(w) == 0) ==> len(ls) == 0
  ensures [lines] forall i int :: {ls[i]} 0 <= i && i < len(ls) ==> lineIn(ls[i], w)
  ensures [consecutive] forall i, m int :: {ls[i], ls[m]} 0 <= i && m == i + 1 && m < len(ls) ==> offset(ls[m]) == offset(ls[i]) + len(ls[i]) + 1 && w[offset(ls[i]) + len(ls[i]) - offset(w)] == 10
  ensures [last] n > 0 && len(w) > 0 ==> len(ls) > 0 && offset(ls[len(ls)-1]) + len(ls[len(ls)-1]) == offset(w) + stripped(w)
  ensures [all] len(ls) <= n && (len(ls) < n && len(ls) > 0 ==> offset(ls[0]) == offset(w))
  ensures [whole] len(ls) > 0 ==> offset(ls[0]) == offset(w) || w[offset(ls[0]) - offset(w) - 1] == 10
  loop 1
    invariant 0 <= i && i <= n && len(r) == n && fresh(r)
    invariant arr(buf) == arr(w) && offset(buf) == offset(w) && len(buf) <= stripped(w)
    invariant i == 0 ==> len(buf) == stripped(w)
    invariant i > 0 ==> len(buf) < stripped(w) && w[len(buf)] == 10 && offset(r[n-i]) == offset(w) + len(buf) + 1
    invariant i > 0 ==> offset(r[n-1]) + len(r[n-1]) == offset(w) + stripped(w)
    invariant forall k int :: {r[k]} n - i <= k && k < n ==> lineIn(r[k], w)
    invariant forall k, m int :: {r[k], r[m]} n - i <= k && m == k + 1 && m < n ==> offset(r[m]) == offset(r[k]) + len(r[k]) + 1 && w[offset(r[k]) + len(r[k]) - offset(w)] == 10

func firstNLines(buf, n) (ls)
  props C04
  requires n >= 0
  assumes nlOK()
  let w = buf
  modifies
  ensures [none] (n == 0 || len(w) == 0) ==> len(ls) == 0
  ensures [lines] forall i int :: {ls[i]} 0 <= i && i < len(ls) ==> lineIn(ls[i], w)
  ensures [first] n > 0 && len(w) > 0 ==> len(ls) > 0 && offset(ls[0]) == offset(w)
  ensures [consecutive] forall i, m int :: {ls[i], ls[m]} 0 <= i && m == i + 1 && m < len(ls) ==> offset(ls[m]) == offset(ls[i]) + len(ls[i]) + 1
  ensures [ended] forall i int :: {ls[i]} 0 <= i && i < len(ls) ==> offset(ls[i]) + len(ls[i]) == offset(w) + len(w) || w[offset(ls[i]) + len(ls[i]) - offset(w)] == 10
  ensures [all] len(ls) <= n && (0 < len(ls) && len(ls) < n ==> (let e = offset(ls[len(ls)-1]) + len(ls[len(ls)-1]) :: e >= offset(w) + len(w) - 1))
  loop 1
    invariant 0 <= i && i <= n && len(r) == n && fresh(r)
    invariant arr(buf) == arr(w) && offset(w) <= offset(buf) && offset(buf) + len(buf) == offset(w) + len(w)
    invariant i == 0 ==> offset(buf) == offset(w)
    invariant i > 0 ==> offset(r[0]) == offset(w) && offset(buf) == offset(r[i-1]) + len(r[i-1]) + 1
    invariant forall k int :: {r[k]} 0 <= k && k < i ==> lineIn(r[k], w) && offset(r[k]) + len(r[k]) < offset(w) + len(w) && w[offset(r[k]) + len(r[k]) - offset(w)] == 10
    invariant forall k, m int :: {r[k], r[m]} 0 <= k && m == k + 1 && m < i ==> offset(r[m]) == offset(r[k]) + len(r[k]) + 1

# The stream being read: its bytes, how many were consumed, its length; and the
# text a grep works on, the place in it where the search goes on, and whether the
# callback asked for more.
ghostvar $stream row aux=index,codesearch/index,codesearch/regexp
ghostvar $rpos int aux=index,codesearch/index,codesearch/regexp
ghostvar $slen int aux=index,codesearch/index,codesearch/regexp
ghostvar $text []byte
ghostvar $pos int
ghostvar $more bool

extern io.ReadFull(r, buf) (n, err)
  requires r != nil
  modifies elems(buf), $rpos
  ensures 0 <= n && n <= len(buf) && $rpos == old($rpos) + n && $rpos <= $slen
  ensures forall i int :: {buf[i]} 0 <= i && i < n ==> buf[i] == $stream[old($rpos) + i]
  ensures forall k int :: {row(buf)[k]} k < offset(buf) || k >= offset(buf) + len(buf) ==> row(buf)[k] == old(row(buf)[k])
  ensures err == nil <==> n == len(buf)
  ensures err != nil && (err == io.EOF || err == io.ErrUnexpectedEOF) ==> $rpos == $slen
  ensures plain(err)

func (*grepper).fillFrom(g, r) (buf, err)
  props C04
  requires r != nil && $rpos == 0 && $slen >= 0
  modifies g.buf, elems(g.buf), $rpos, $text, $pos, $more
  ensures [everything] err == nil ==> len(buf) == $slen
  ensures [text] err == nil ==> (forall i int :: {buf[i]} 0 <= i && i < len(buf) ==> buf[i] == $stream[i])
  returns $text = buf
  returns $pos = offset(buf)
  returns $more = true
  ensures [own-buffer] fresh(g.buf) || arr(g.buf) == old(arr(g.buf))
  ensures err == nil ==> arr(buf) == arr(g.buf) && $text == buf && $pos == offset(buf) && $more
  loop 1
    invariant 0 <= off && off <= len(g.buf) && $rpos == off && g.buf != nil && (fresh(g.buf) || arr(g.buf) == old(arr(g.buf)))
    invariant forall i int :: {g.buf[i]} 0 <= i && i < off ==> g.buf[i] == $stream[i]

pred textEnd() = offset($text) + len($text)
# where the line that is reported next ends and (given its length) begins
pred lineEnd(re) = $pos + matchEnd(re, row($text), $pos, textEnd())
pred isNL(p) = row($text)[p] == 10

func (*grepper).grep2(g, r, re, nctx, fn) (err)
  props C04
  requires r != nil && re != nil && nctx >= 0 && $rpos == 0 && $slen >= 0
  requires [own-buffer] arr(g.buf) != arr(nl)
  assumes nlOK()
  use nlc_split nlc_none nlc_snoc
  modifies g.buf, elems(g.buf), $rpos, $text, $pos, $more
  callback fn(line, lineno, before, after) (more, err)
    requires $more
    requires [a-match] matchEnd(re, row($text), $pos, textEnd()) >= 0 && lineEnd(re) <= textEnd() && (lineEnd(re) == textEnd() || isNL(lineEnd(re)))
    requires [begin] $pos <= lineEnd(re) - len(line) && (lineEnd(re) - len(line) == $pos || isNL(lineEnd(re) - len(line) - 1))
    requires [one-line] flat(row($text), lineEnd(re) - len(line), lineEnd(re))
    requires [text] forall k int :: {line[k]} 0 <= k && k < len(line) ==> line[k] == row($text)[lineEnd(re) - len(line) + k]
    requires [number] lineno == 1 + nlc(row($text), offset($text), lineEnd(re) - len(line))
    requires [before] len(before) <= nctx && (nctx > 0 && lineEnd(re) - len(line) > $pos ==> len(before) > 0)
    requires [before-end] len(before) > 0 ==> (let l = before[len(before)-1] :: offset(l) + len(l) == lineEnd(re) - len(line) - 1)
    requires [before-all] len(before) > 0 && len(before) < nctx ==> offset(before[0]) == $pos
    requires [before-lines] forall i int :: {before[i]} 0 <= i && i < len(before) ==> arr(before[i]) == arr($text) && flat(row($text), offset(before[i]), offset(before[i]) + len(before[i]))
    requires [before-next] forall i, m int :: {before[i], before[m]} 0 <= i && m == i + 1 && m < len(before) ==> offset(before[m]) == offset(before[i]) + len(before[i]) + 1 && isNL(offset(before[m]) - 1)
    requires [after] len(after) <= nctx && (nctx > 0 && lineEnd(re) + 1 < textEnd() ==> len(after) > 0 && offset(after[0]) == lineEnd(re) + 1)
    requires [after-lines] forall i int :: {after[i]} 0 <= i && i < len(after) ==> arr(after[i]) == arr($text) && flat(row($text), offset(after[i]), offset(after[i]) + len(after[i]))
    requires [after-next] forall i, m int :: {after[i], after[m]} 0 <= i && m == i + 1 && m < len(after) ==> offset(after[m]) == offset(after[i]) + len(after[i]) + 1
    requires [after-all] len(after) > 0 && len(after) < nctx ==> (let l = after[len(after)-1] :: offset(l) + len(l) >= textEnd() - 1)
    modifies $pos, $more
    ensures $more == (err == nil && more) && $pos == min(old(lineEnd(re)) + 1, textEnd())
  ensures [own-buffer] fresh(g.buf) || arr(g.buf) == old(arr(g.buf))
  ensures [complete] err == nil && $more ==> $pos == textEnd() || matchEnd(re, row($text), $pos, textEnd()) < 0 || matchEnd(re, row($text), $pos, textEnd()) == textEnd() - $pos
  loop 1
    invariant $more && arr(buf) == arr($text) && offset(buf) == $pos && offset(buf) + len(buf) == textEnd() && offset($text) <= $pos
    invariant lineno == nlc(row($text), offset($text), $pos) || $pos == textEnd()
    invariant $pos == offset($text) || row($text)[$pos-1] == 10 || $pos == textEnd()

extern os.Open(name) (f, err)
  modifies
  ensures (err == nil) == (f != nil)
extern os.(*File).Close(f) (err)
  requires f != nil
  modifies
# a new stream: what comes out of the decompressor
extern compress/gzip.NewReader(r) (z, err)
  requires r != nil
  modifies $stream, $rpos, $slen
  ensures $rpos == 0 && $slen >= 0
  ensures (err == nil) == (z != nil)
extern compress/gzip.(*Reader).Close(z) (err)
  requires z != nil
  modifies

func (*grepper).grep2File(g, filename, re, nctx, fn) (err)
  props C04
  requires re != nil && nctx >= 0
  requires [own-buffer] arr(g.buf) != arr(nl)
  modifies g.buf, elems(g.buf), $stream, $slen, $rpos, $text, $pos, $more, $unsaved
  callback fn(line, lineno, before, after) (more, err)
    requires $more
    requires [a-match] matchEnd(re, row($text), $pos, textEnd()) >= 0 && lineEnd(re) <= textEnd() && (lineEnd(re) == textEnd() || isNL(lineEnd(re)))
    requires [begin] $pos <= lineEnd(re) - len(line) && (lineEnd(re) - len(line) == $pos || isNL(lineEnd(re) - len(line) - 1))
    requires [one-line] flat(row($text), lineEnd(re) - len(line), lineEnd(re))
    requires [text] forall k int :: {line[k]} 0 <= k && k < len(line) ==> line[k] == row($text)[lineEnd(re) - len(line) + k]
    requires [number] lineno == 1 + nlc(row($text), offset($text), lineEnd(re) - len(line))
    requires [before] len(before) <= nctx && (nctx > 0 && lineEnd(re) - len(line) > $pos ==> len(before) > 0)
    requires [before-end] len(before) > 0 ==> (let l = before[len(before)-1] :: offset(l) + len(l) == lineEnd(re) - len(line) - 1)
    requires [before-all] len(before) > 0 && len(before) < nctx ==> offset(before[0]) == $pos
    requires [before-lines] forall i int :: {before[i]} 0 <= i && i < len(before) ==> arr(before[i]) == arr($text) && flat(row($text), offset(before[i]), offset(before[i]) + len(before[i]))
    requires [before-next] forall i, m int :: {before[i], before[m]} 0 <= i && m == i + 1 && m < len(before) ==> offset(before[m]) == offset(before[i]) + len(before[i]) + 1 && isNL(offset(before[m]) - 1)
    requires [after] len(after) <= nctx && (nctx > 0 && lineEnd(re) + 1 < textEnd() ==> len(after) > 0 && offset(after[0]) == lineEnd(re) + 1)
    requires [after-lines] forall i int :: {after[i]} 0 <= i && i < len(after) ==> arr(after[i]) == arr($text) && flat(row($text), offset(after[i]), offset(after[i]) + len(after[i]))
    requires [after-next] forall i, m int :: {after[i], after[m]} 0 <= i && m == i + 1 && m < len(after) ==> offset(after[m]) == offset(after[i]) + len(after[i]) + 1
    requires [after-all] len(after) > 0 && len(after) < nctx ==> (let l = after[len(after)-1] :: offset(l) + len(l) >= textEnd() - 1)
    modifies $pos, $more
    ensures $more == (err == nil && more) && $pos == min(old(lineEnd(re)) + 1, textEnd())
  ensures [own-buffer] fresh(g.buf) || arr(g.buf) == old(arr(g.buf))
