# C03 (and C06, C21): writing the trigram index (codesearch/index/write.go)
package codesearch/index

pred ixOK(ix) = ix != nil && ix.trigram != nil && ix.nameData != nil && ix.nameIndex != nil && ix.postIndex != nil && ix.main != nil
pred ownIx(ix) = ixOK(ix) && fresh(ix) && fresh(ix.trigram) && fresh(ix.trigram.sparse) && (ix.trigram.dense == nil || fresh(ix.trigram.dense)) && fresh(ix.post) && (ix.postFile == nil || fresh(ix.postFile)) && fresh(ix.inbuf)
| && fresh(ix.nameData) && fresh(ix.nameIndex) && fresh(ix.postIndex) && fresh(ix.main) && fresh(ix.nameData.buf) && fresh(ix.nameIndex.buf) && fresh(ix.postIndex.buf) && fresh(ix.main.buf)

func (*IndexWriter).Close(ix)
  props C21
  requires ix.main != nil && ix.main.file != nil
  modifies $unsaved
  ensures forall g ref :: {$unsaved[g]} $unsaved[g] == old($unsaved[g]) || $unsaved[g] == 0

# Files being written: their bytes, length and position; and for each buffered
# writer everything given to it so far.
ghostvar $fdata map[ref]row aux=index,codesearch/index
ghostvar $flen map[ref]int aux=index,codesearch/index
ghostvar $fpos map[ref]int aux=index,codesearch/index
ghostvar $out map[ref]row aux=index,codesearch/index

# n bytes of s from position o (a string) put at position p of r
function put(r row, p int, s row, o int, n int) row
axiom put_def global: forall r row, p int, s row, o, n, i int :: {put(r, p, s, o, n)[i]} put(r, p, s, o, n)[i] == ((p <= i && i < p + n) ? s[o + i - p] : r[i])
function puts(r row, p int, s string) row
axiom puts_def global: forall r row, p int, s string, i int :: {puts(r, p, s)[i]} puts(r, p, s)[i] == ((p <= i && i < p + len(s)) ? s[i - p] : r[i])

local extern os.(*File).Write(f, b) (n, err)
  requires f != nil
  requires [append] $fpos[f] == $flen[f]
  modifies $fdata, $flen, $fpos
  ensures err == nil ==> $fdata == upd(old($fdata), f, put(old($fdata)[f], old($flen)[f], row(b), offset(b), len(b))) && $flen == upd(old($flen), f, old($flen)[f] + len(b)) && $fpos == upd(old($fpos), f, old($fpos)[f] + len(b)) && n == len(b)
local extern os.(*File).WriteString(f, s) (n, err)
  requires f != nil
  requires [append] $fpos[f] == $flen[f]
  modifies $fdata, $flen, $fpos
  ensures err == nil ==> $fdata == upd(old($fdata), f, puts(old($fdata)[f], old($flen)[f], s)) && $flen == upd(old($flen), f, old($flen)[f] + len(s)) && $fpos == upd(old($fpos), f, old($fpos)[f] + len(s)) && n == len(s)
local extern os.(*File).Seek(f, off, whence) (p, err)
  requires f != nil
  requires whence == 0 || (whence == 1 && off == 0)
  modifies $fpos
  ensures $fpos == upd(old($fpos), f, whence == 0 ? off : old($fpos)[f]) && p == $fpos[f]
local extern os.(*File).Name(f) (s)
  requires f != nil
  modifies
local extern os.(*File).Close(f) (err)
  requires f != nil
  modifies
extern os.OpenFile(name, flag, perm) (f, err)
  modifies
  ensures (err == nil) == (f != nil) && (f != nil ==> fresh(f) && $flen[f] == 0 && $fpos[f] == 0)
extern io/ioutil.TempFile(dir, pattern) (f, err)
  modifies
  ensures (err == nil) == (f != nil) && (f != nil ==> fresh(f) && $flen[f] == 0 && $fpos[f] == 0)
local extern io.Copy(w, r) (n, err)
  requires $fpos[unbox(w, "*os.File")] == $flen[unbox(w, "*os.File")] && unbox(w, "*os.File") != unbox(r, "*os.File")
  let f = unbox(w, "*os.File")
  let g = unbox(r, "*os.File")
  let k = $flen[g] - $fpos[g]
  modifies $fdata, $flen, $fpos
  ensures err == nil ==> n == k && $fdata == upd(old($fdata), f, put(old($fdata)[f], old($flen)[f], old($fdata)[g], old($fpos)[g], k)) && $flen == upd(old($flen), f, old($flen)[f] + k) && $fpos == upd(upd(old($fpos), f, old($fpos)[f] + k), g, old($flen)[g])
extern os.Remove(name) (err)
  modifies
extern log.Fatalf(f, v)
  noreturn
extern log.Fatal(v)
  noreturn

pred total(b) = $flen[b.file] + len(b.buf)
# what was given to a writer is what is in its file followed by what is in its buffer
function bufSame(fd row, fl int, r row, o int, n int, w row) bool
axiom bufSame_def: forall fd, r, w row, fl, o, n int :: {bufSame(fd, fl, r, o, n, w)} bufSame(fd, fl, r, o, n, w) <==> (forall i int :: {fd[i]} {w[i]} 0 <= i && i < fl ==> fd[i] == w[i]) && (forall i int :: {r[i]} o <= i && i < o + n ==> r[i] == w[fl + i - o])
pred bufOK(b) = b != nil && b.file != nil && 0 <= $flen[b.file] && $fpos[b.file] == $flen[b.file] && cap(b.buf) >= 8 && isroot(b.buf)
| && bufSame($fdata[b.file], $flen[b.file], row(b.buf), offset(b.buf), len(b.buf), $out[b])
pred sameFiles(b) = (forall f ref :: {$flen[f]} {$fdata[f]} {$fpos[f]} f != b.file ==> $flen[f] == old($flen[f]) && $fdata[f] == old($fdata[f]) && $fpos[f] == old($fpos[f]))

func bufCreate(name) (b)
  props C03
  use bufSame_def
  modifies
  ensures bufOK(b) && fresh(b) && fresh(b.buf) && fresh(b.file) && total(b) == 0

func (*bufWriter).flush(b)
  props C03
  use bufSame_def
  requires bufOK(b)
  modifies b.buf, $fdata, $flen, $fpos
  ensures bufOK(b) && len(b.buf) == 0 && total(b) == old(total(b)) && arr(b.buf) == old(arr(b.buf)) && cap(b.buf) == old(cap(b.buf))
  ensures sameFiles(b)
  ensures [on-disk] forall i int :: {$fdata[b.file][i]} 0 <= i && i < $flen[b.file] ==> $fdata[b.file][i] == $out[b][i]

func (*bufWriter).write(b, x)
  props C03
  use bufSame_def
  requires bufOK(b) && (x == nil || arr(x) != arr(b.buf))
  let n = total(b)
  let r = $out[b]
  modifies b.buf, elems(b.buf), $fdata, $flen, $fpos, $out
  returns $out = upd($out, b, put(r, n, row(x), offset(x), len(x)))
  ensures bufOK(b) && total(b) == n + len(x) && (arr(b.buf) == old(arr(b.buf)) || fresh(b.buf))
  ensures sameFiles(b) && $out == upd(old($out), b, put(r, n, row(x), offset(x), len(x)))

func (*bufWriter).writeByte(b, x)
  props C03
  use bufSame_def
  requires bufOK(b)
  let n = total(b)
  modifies b.buf, elems(b.buf), $fdata, $flen, $fpos, $out
  returns $out = upd($out, b, upd($out[b], n, x))
  ensures bufOK(b) && total(b) == n + 1 && (arr(b.buf) == old(arr(b.buf)) || fresh(b.buf))
  ensures sameFiles(b) && $out == upd(old($out), b, upd(old($out)[b], n, x))

func (*bufWriter).writeString(b, s)
  props C03
  use bufSame_def
  requires bufOK(b)
  let n = total(b)
  modifies b.buf, elems(b.buf), $fdata, $flen, $fpos, $out
  returns $out = upd($out, b, puts($out[b], n, s))
  ensures bufOK(b) && total(b) == n + len(s) && (arr(b.buf) == old(arr(b.buf)) || fresh(b.buf))
  ensures sameFiles(b) && $out == upd(old($out), b, puts(old($out)[b], n, s))

func (*bufWriter).offset(b) (off)
  props C03
  use bufSame_def
  requires bufOK(b)
  modifies $fpos
  ensures $fpos == old($fpos) && off == total(b) && off < 4294967296

lemma same_r32 use bufSame_def r32_def: forall fd, r, w row, fl, o, n, i int :: {bufSame(fd, fl, r, o, n, w), r32(fd, i)} bufSame(fd, fl, r, o, n, w) && 0 <= i && i + 4 <= fl ==> r32(fd, i) == r32(w, i)

func (*bufWriter).finish(b) (f)
  props C03
  use bufSame_def
  requires bufOK(b)
  modifies b.buf, $fdata, $flen, $fpos
  ensures f == b.file && $flen[f] == old(total(b)) && $fpos[f] == 0 && len(b.buf) == 0
  ensures forall i int :: {$fdata[f][i]} 0 <= i && i < $flen[f] ==> $fdata[f][i] == $out[b][i]
  ensures sameFiles(b) && arr(b.buf) == old(arr(b.buf)) && cap(b.buf) == old(cap(b.buf))

# the four bytes of x, the most significant first, at position n of r; and what
# four bytes stand for
function b4(r row, n int, x int) row
axiom b4_def: forall r row, n, x int :: {b4(r, n, x)} b4(r, n, x) == upd(upd(upd(upd(r, n, x / 16777216), n + 1, x / 65536 % 256), n + 2, x / 256 % 256), n + 3, x % 256)
function r32(r row, i int) int
axiom r32_def: forall r row, i int :: {r32(r, i)} r32(r, i) == r[i]*16777216 + r[i+1]*65536 + r[i+2]*256 + r[i+3]
lemma b4_read use b4_def r32_def: forall r row, n, x int :: {b4(r, n, x)} 0 <= x && x < 4294967296 ==> r32(b4(r, n, x), n) == x
lemma b4_keep use b4_def r32_def: forall r row, n, x, i int :: {r32(b4(r, n, x), i)} i + 4 <= n || n + 4 <= i ==> r32(b4(r, n, x), i) == r32(r, i)
lemma b4_bytes use b4_def: forall r row, n, x, i int :: {b4(r, n, x)[i]} i < n || n + 4 <= i ==> b4(r, n, x)[i] == r[i]
lemma puts_keep use r32_def: forall r row, n, i int, s string :: {r32(puts(r, n, s), i)} i + 4 <= n ==> r32(puts(r, n, s), i) == r32(r, i)
func (*bufWriter).writeUint32(b, x)
  props C03
  use bufSame_def b4_def
  requires bufOK(b)
  let n = total(b)
  modifies b.buf, elems(b.buf), $fdata, $flen, $fpos, $out
  returns $out = upd($out, b, b4($out[b], n, x))
  ensures bufOK(b) && total(b) == n + 4 && (arr(b.buf) == old(arr(b.buf)) || fresh(b.buf))
  ensures sameFiles(b) && $out == upd(old($out), b, b4(old($out)[b], n, x))

# the variable-length code of x: its length, and the bytes of r with it at position p
pred ulen(x) = x < 128 ? 1 : x < 16384 ? 2 : x < 2097152 ? 3 : x < 268435456 ? 4 : 5
pred urow(r, p, x) = x < 128 ? upd(r, p, x)
| : x < 16384 ? upd(upd(r, p, x % 128 + 128), p+1, x / 128)
| : x < 2097152 ? upd(upd(upd(r, p, x % 128 + 128), p+1, x / 128 % 128 + 128), p+2, x / 16384)
| : x < 268435456 ? upd(upd(upd(upd(r, p, x % 128 + 128), p+1, x / 128 % 128 + 128), p+2, x / 16384 % 128 + 128), p+3, x / 2097152)
| : upd(upd(upd(upd(upd(r, p, x % 128 + 128), p+1, x / 128 % 128 + 128), p+2, x / 16384 % 128 + 128), p+3, x / 2097152 % 128 + 128), p+4, x / 268435456)
# what binary.Uvarint reads from bytes
axiom uv_bytes: forall r row, p, n int :: {uvV(r, p, n)} {uvN(r, p, n)} n >= 5 ==>
| (r[p] < 128 ==> uvN(r, p, n) == 1 && uvV(r, p, n) == r[p])
| && (r[p] >= 128 && r[p+1] < 128 ==> uvN(r, p, n) == 2 && uvV(r, p, n) == r[p] - 128 + 128 * r[p+1])
| && (r[p] >= 128 && r[p+1] >= 128 && r[p+2] < 128 ==> uvN(r, p, n) == 3 && uvV(r, p, n) == r[p] - 128 + 128 * (r[p+1] - 128) + 16384 * r[p+2])
| && (r[p] >= 128 && r[p+1] >= 128 && r[p+2] >= 128 && r[p+3] < 128 ==> uvN(r, p, n) == 4 && uvV(r, p, n) == r[p] - 128 + 128 * (r[p+1] - 128) + 16384 * (r[p+2] - 128) + 2097152 * r[p+3])
| && (r[p] >= 128 && r[p+1] >= 128 && r[p+2] >= 128 && r[p+3] >= 128 && r[p+4] < 16 ==> uvN(r, p, n) == 5 && uvV(r, p, n) == r[p] - 128 + 128 * (r[p+1] - 128) + 16384 * (r[p+2] - 128) + 2097152 * (r[p+3] - 128) + 268435456 * r[p+4])
lemma u_read use uv_bytes: forall r row, p, n, x int :: 0 <= x && x < 4294967296 && n >= 5 ==> uvN(urow(r, p, x), p, n) == ulen(x) && uvV(urow(r, p, x), p, n) == x

func (*bufWriter).writeUvarint(b, x)
  props C03
  use bufSame_def
  requires bufOK(b)
  let n = total(b)
  let r = $out[b]
  modifies b.buf, elems(b.buf), $fdata, $flen, $fpos, $out
  returns $out = upd($out, b, urow(r, n, x))
  ensures bufOK(b) && total(b) == n + ulen(x) && (arr(b.buf) == old(arr(b.buf)) || fresh(b.buf))
  ensures [code] $out == upd(old($out), b, urow(r, n, x))
  ensures sameFiles(b)

# ---------- the writer ----------

# the names in the order added and where each is in the list of names; entries
# written to temporary files
ghostvar $names map[int]string aux=index,codesearch/index
ghostvar $noff map[int]int aux=index,codesearch/index
ghostvar $spilled map[int]bool aux=index,codesearch/index

pred nameTable(ix) = 0 <= ix.numName && total(ix.nameIndex) == 4 * ix.numName && total(ix.nameData) >= 0
| && (forall k int :: {$noff[k]} 0 <= k && k < ix.numName ==> r32($out[ix.nameIndex], 4*k) == $noff[k] && 0 <= $noff[k] && $noff[k] + len($names[k]) + 1 == (k + 1 < ix.numName ? $noff[k+1] : total(ix.nameData)) && $noff[k] + len($names[k]) + 1 <= total(ix.nameData) && $out[ix.nameData][$noff[k] + len($names[k])] == 0)
| && (forall k, i int :: {$names[k][i]} 0 <= k && k < ix.numName && 0 <= i && i < len($names[k]) ==> $out[ix.nameData][$noff[k] + i] == $names[k][i])
pred apartB(a, b) = a != b && a.file != b.file && arr(a.buf) != arr(b.buf)
pred buffersOK(ix) = bufOK(ix.nameData) && bufOK(ix.nameIndex) && bufOK(ix.postIndex) && bufOK(ix.main) && apartB(ix.nameData, ix.nameIndex) && apartB(ix.nameData, ix.postIndex) && apartB(ix.nameData, ix.main) && apartB(ix.nameIndex, ix.postIndex) && apartB(ix.nameIndex, ix.main) && apartB(ix.postIndex, ix.main)
| && arr(ix.inbuf) != arr(ix.nameData.buf) && arr(ix.inbuf) != arr(ix.nameIndex.buf) && arr(ix.inbuf) != arr(ix.postIndex.buf) && arr(ix.inbuf) != arr(ix.main.buf)
pred writerOK(ix) = ixOK(ix) && buffersOK(ix) && nameTable(ix) && setOK(ix.trigram) && len(ix.trigram.sparse) == 16777216 && cap(ix.inbuf) >= 1 && cap(ix.post) >= 1 && (forall k int :: {ix.postFile[k]} 0 <= k && k < len(ix.postFile) ==> ix.postFile[k] != nil) && total(ix.main) == 0 && total(ix.postIndex) == 0
pred posted(ix, e) = $spilled[e] || mem(ix.post, e)

func copyFile(dst, src)
  props C03
  use bufSame_def
  requires [dst] bufOK(dst)
  requires [src] bufOK(src)
  requires [apart] apartB(dst, src)
  let n = total(dst)
  let m = total(src)
  modifies dst.buf, src.buf, $fdata, $flen, $fpos, $out
  returns $out = upd($out, dst, put($out[dst], n, $out[src], 0, m))
  ensures [copied] $out == upd(old($out), dst, put(old($out)[dst], n, old($out)[src], 0, m)) && total(dst) == n + m
  ensures bufOK(dst) && bufOK(src) && arr(dst.buf) == old(arr(dst.buf)) && arr(src.buf) == old(arr(src.buf)) && total(src) == m
  ensures forall f ref :: {$flen[f]} {$fdata[f]} {$fpos[f]} f != dst.file && f != src.file ==> $flen[f] == old($flen[f]) && $fdata[f] == old($fdata[f]) && $fpos[f] == old($fpos[f])

func (*IndexWriter).addName(ix, name) (id)
  props C03 C06
  use b4_read b4_keep
  requires ixOK(ix) && buffersOK(ix) && nameTable(ix)
  let n = total(ix.nameData)
  let m = total(ix.nameIndex)
  modifies ix.numName, ix.nameData.buf, ix.nameIndex.buf, elems(ix.nameData.buf), elems(ix.nameIndex.buf), $fdata, $flen, $fpos, $out, $names, $noff, $lastName
  ghost $lastName = name
  returns $names = upd($names, ix.numName - 1, name)
  returns $noff = upd($noff, ix.numName - 1, n)
  ensures [id] id == old(ix.numName) % 4294967296 && ix.numName == old(ix.numName) + 1
  ensures [names] $names == upd(old($names), old(ix.numName), name) && $lastName == name
  ensures [entry] $out == upd(upd(old($out), ix.nameIndex, b4(old($out)[ix.nameIndex], m, n)), ix.nameData, upd(puts(old($out)[ix.nameData], n, name), n + len(name), 0))
  ensures buffersOK(ix)
  ensures [table] nameTable(ix)
  ensures (arr(ix.nameData.buf) == old(arr(ix.nameData.buf)) || fresh(ix.nameData.buf)) && (arr(ix.nameIndex.buf) == old(arr(ix.nameIndex.buf)) || fresh(ix.nameIndex.buf))
  ensures forall f ref :: {$flen[f]} {$fdata[f]} {$fpos[f]} f != ix.nameData.file && f != ix.nameIndex.file ==> $flen[f] == old($flen[f]) && $fdata[f] == old($fdata[f]) && $fpos[f] == old($fpos[f])

# ---------- adding a file ----------

pred tri3(r, j) = r[j]*65536 + r[j+1]*256 + r[j+2]
# t is one of the three-byte sequences of the first n bytes of r
function seen(r row, n int, t int) bool
axiom seen_def: forall r row, n, t int :: {seen(r, n, t)} seen(r, n, t) <==> (exists j int :: {r[j]} 0 <= j && j + 3 <= n && tri3(r, j) == t)
lemma seen_step use seen_def: forall r row, n, m, t int :: {seen(r, n, t), seen(r, m, t)} m == n + 1 && n >= 0 ==> (seen(r, m, t) <==> seen(r, n, t) || (m >= 3 && tri3(r, m - 3) == t))
lemma seen_none use seen_def: forall r row, n, t int :: {seen(r, n, t)} n < 3 ==> !seen(r, n, t)
# the value of the last three bytes (fewer at the beginning)
pred last3(r, n) = (n >= 3 ? r[n-3]*65536 : 0) + (n >= 2 ? r[n-2]*256 : 0) + (n >= 1 ? r[n-1] : 0)

# a stream of bytes
pred bytesOK() = forall k int :: {$stream[k]} 0 <= $stream[k] && $stream[k] <= 255

local extern io.Reader.Read(f, p) (n, err)
  requires f != nil
  modifies elems(p), $rpos
  ensures 0 <= n && n <= len(p) && $rpos == old($rpos) + n && $rpos <= $slen
  ensures forall i int :: {p[i]} 0 <= i && i < n ==> p[i] == $stream[old($rpos) + i]
  ensures forall k int :: {row(p)[k]} k < offset(p) || k >= offset(p) + len(p) ==> row(p)[k] == old(row(p)[k])
  ensures err == io.EOF ==> $rpos == $slen

func validUTF8(c1, c2) (r)
  props C03 C06
  pure
  ensures r <==> ((c1 < 128 && (c2 < 128 || (192 <= c2 && c2 < 248))) || (128 <= c1 && c1 < 192 && c2 < 248) || (192 <= c1 && c1 < 248 && 128 <= c2 && c2 < 192))

func postEntry.trigram(p) (t)
  props C03
  pure
  ensures t == p / 4294967296 % 4294967296
func postEntry.fileid(p) (id)
  props C03
  pure
  ensures id == p % 4294967296
func makePostEntry(trigram, fileid) (p)
  props C03
  pure
  ensures p == trigram * 4294967296 + fileid

func (*IndexWriter).flushPost(ix)
  props C03
  trusted "writes the entries as bytes through unsafe.Pointer; the harness covers it (bounded)"
  requires len(ix.post) > 0
  modifies ix.post, elems(ix.post), ix.postFile, elems(ix.postFile), $spilled
  ensures len(ix.post) == 0 && arr(ix.post) == old(arr(ix.post)) && cap(ix.post) == old(cap(ix.post)) && offset(ix.post) == old(offset(ix.post)) && (arr(ix.postFile) == old(arr(ix.postFile)) || fresh(ix.postFile))
  ensures old(forall k int :: {ix.postFile[k]} 0 <= k && k < len(ix.postFile) ==> ix.postFile[k] != nil) ==> (forall k int :: {ix.postFile[k]} 0 <= k && k < len(ix.postFile) ==> ix.postFile[k] != nil)
  ensures forall e int :: {$spilled[e]} $spilled[e] <==> old($spilled)[e] || memr(old(row(ix.post)), old(offset(ix.post)), old(len(ix.post)), e)

func (*IndexWriter).Add(ix, name, f) (reason)
  props C03 C06
  merge
  use seen_step seen_none
  requires writerOK(ix) && f != nil && $rpos == 0 && $slen >= 0 && bytesOK()
  modifies ix.numName, ix.totalBytes, ix.post, ix.postFile, ix.nameData.buf, ix.nameIndex.buf, ix.trigram.dense, elems(ix.post), elems(ix.postFile), elems(ix.inbuf), elems(ix.nameData.buf), elems(ix.nameIndex.buf), elems(ix.trigram.dense), elems(ix.trigram.sparse), $unsaved, $rpos, $consumed, $lastName, $fdata, $flen, $fpos, $out, $names, $noff, $spilled
  returns $consumed = reason == "" ? f : $consumed
  returns $unsaved = upd($unsaved, ix, 1)
  ensures [own] (arr(ix.post) == old(arr(ix.post)) || fresh(ix.post)) && (arr(ix.postFile) == old(arr(ix.postFile)) || fresh(ix.postFile)) && (arr(ix.nameData.buf) == old(arr(ix.nameData.buf)) || fresh(ix.nameData.buf)) && (arr(ix.nameIndex.buf) == old(arr(ix.nameIndex.buf)) || fresh(ix.nameIndex.buf)) && (arr(ix.trigram.dense) == old(arr(ix.trigram.dense)) || fresh(ix.trigram.dense))
  ensures [indexed] reason == "" ==> ix.numName == old(ix.numName) + 1 && $lastName == name && $names == upd(old($names), old(ix.numName), name)
  ensures [whole] reason == "" ==> $consumed == f && $rpos == $slen
  ensures [refused] reason != "" ==> ix.numName == old(ix.numName) && $names == old($names) && ix.post == old(ix.post) && $spilled == old($spilled)
  ensures [saved] $unsaved == upd(old($unsaved), ix, 1)
  ensures [writer] writerOK(ix)
  ensures [entries] reason == "" ==> (forall e int :: {$spilled[e]} {memr(row(ix.post), offset(ix.post), len(ix.post), e)} 0 <= e && e < 72057594037927936 ==> (posted(ix, e) <==> old(posted(ix, e)) || (e % 4294967296 == old(ix.numName) % 4294967296 && seen($stream, $slen, e / 4294967296))))
  loop 1
    invariant arr(buf) == arr(ix.inbuf) && offset(buf) == offset(ix.inbuf) && cap(buf) == cap(ix.inbuf) && 0 <= i && i <= len(buf)
    invariant n == $rpos - (len(buf) - i) && 0 <= n && n <= 33554432 && $rpos <= $slen && (i >= len(buf) ==> n == $rpos)
    invariant forall k int :: {buf[k]} 0 <= k && k < len(buf) ==> buf[k] == $stream[$rpos - len(buf) + k]
    invariant tv == last3($stream, n)
    invariant setOK(ix.trigram) && len(ix.trigram.dense) <= n && (arr(ix.trigram.dense) == old(arr(ix.trigram.dense)) || fresh(ix.trigram.dense))
    invariant forall t int :: {seen($stream, n, t)} 0 <= t && t < 16777216 ==> (inSet(ix.trigram, t) <==> seen($stream, n, t))
  loop 2
    invariant fileid == old(ix.numName) % 4294967296
    invariant forall t int :: {seen($stream, $slen, t)} 0 <= t && t < 16777216 ==> (inSet(ix.trigram, t) <==> seen($stream, $slen, t))
    invariant cap(ix.post) >= 1 && (arr(ix.post) == old(arr(ix.post)) || fresh(ix.post)) && (arr(ix.postFile) == old(arr(ix.postFile)) || fresh(ix.postFile)) && (forall k int :: {ix.postFile[k]} 0 <= k && k < len(ix.postFile) ==> ix.postFile[k] != nil)
    invariant forall e int :: {$spilled[e]} {memr(row(ix.post), offset(ix.post), len(ix.post), e)} 0 <= e ==> (posted(ix, e) <==> old(posted(ix, e)) || (e % 4294967296 == fileid && (exists j int :: {ix.trigram.dense[j]} 0 <= j && j < $iter && ix.trigram.dense[j] == e / 4294967296)))

func Create(file) (ix)
  props C03 C06 C21
  modifies $unsaved
  returns $unsaved = upd($unsaved, ix, 1)
  ensures [own] ownIx(ix) && ix.numName == 0 && ix.postData == nil && ix.postFile == nil && len(ix.post) == 0 && len(ix.paths) == 0
  ensures [writer] writerOK(ix)
  ensures $unsaved == upd(old($unsaved), ix, 1)

func (*IndexWriter).mergePost(ix, out)
  props C03
  trusted "merges the runs; the harness covers it (bounded)"
  requires bufOK(out) && bufOK(ix.postIndex) && apartB(out, ix.postIndex)
  let n = total(out)
  modifies ix.postData, ix.post, ix.buf, elems(ix.post), elems(ix.postData), out.buf, elems(out.buf), ix.postIndex.buf, elems(ix.postIndex.buf), $fdata, $flen, $fpos, $out
  ensures bufOK(out) && bufOK(ix.postIndex) && apartB(out, ix.postIndex) && (arr(out.buf) == old(arr(out.buf)) || fresh(out.buf)) && (arr(ix.postIndex.buf) == old(arr(ix.postIndex.buf)) || fresh(ix.postIndex.buf))
  ensures total(out) >= n && total(ix.postIndex) >= 0 && (forall i int :: {$out[out][i]} 0 <= i && i < n ==> $out[out][i] == old($out)[out][i])
  ensures forall c ref :: {$out[c]} c != out && c != ix.postIndex ==> $out[c] == old($out)[c]
  ensures forall f ref :: {$flen[f]} {$fdata[f]} {$fpos[f]} f != out.file && f != ix.postIndex.file ==> $flen[f] == old($flen[f]) && $fdata[f] == old($fdata[f]) && $fpos[f] == old($fpos[f])

extern codesearch/index.unmmap(d) (err)
  modifies

func (*IndexWriter).Flush(ix)
  props C03 C21
  use b4_read b4_keep b4_bytes puts_keep same_r32 bufSame_def
  requires writerOK(ix)
  modifies ix.numName, ix.postData, ix.post, ix.buf, ix.nameData.buf, ix.nameIndex.buf, ix.postIndex.buf, ix.main.buf, elems(ix.post), elems(ix.postData), elems(ix.nameData.buf), elems(ix.nameIndex.buf), elems(ix.postIndex.buf), elems(ix.main.buf), $unsaved, $lastName, $fdata, $flen, $fpos, $out, $names, $noff
  let f = ix.main.file
  let nn = total(ix.nameData)
  returns $unsaved = upd($unsaved, ix, 0)
  ensures [saved] $unsaved == upd(old($unsaved), ix, 0)
  ensures [end] ix.numName == old(ix.numName) + 1 && $names == upd(old($names), old(ix.numName), "")
  ensures [table] nameTable(ix)
  ensures [header] forall i int :: {$fdata[f][i]} 0 <= i && i < len(magic) ==> $fdata[f][i] == magic[i]
  ensures [trailer] forall i int :: {trailerMagic[i]} 0 <= i && i < len(trailerMagic) ==> $fdata[f][$flen[f] - len(trailerMagic) + i] == trailerMagic[i]
  ensures [t0] trailerAt(f, 0) == len(magic)
  ensures [t1] trailerAt(f, 1) + total(ix.nameData) == trailerAt(f, 2)
  ensures [t2] trailerAt(f, 2) <= trailerAt(f, 3)
  ensures [t3] trailerAt(f, 3) + 4 * ix.numName == trailerAt(f, 4)
  ensures [t4] trailerAt(f, 4) + total(ix.postIndex) == $flen[f] - len(trailerMagic) - 20
  ensures [names] forall i int :: {$out[ix.nameData][i]} 0 <= i && i < total(ix.nameData) ==> $fdata[f][trailerAt(f, 1) + i] == $out[ix.nameData][i]
  ensures [name-index] forall i int :: {$out[ix.nameIndex][i]} 0 <= i && i < total(ix.nameIndex) ==> $fdata[f][trailerAt(f, 3) + i] == $out[ix.nameIndex][i]
  ensures [post-index] forall i int :: {$out[ix.postIndex][i]} 0 <= i && i < total(ix.postIndex) ==> $fdata[f][trailerAt(f, 4) + i] == $out[ix.postIndex][i]
  loop 1
    invariant bufOK(ix.main) && (arr(ix.main.buf) == old(arr(ix.main.buf)) || fresh(ix.main.buf)) && total(ix.main) >= len(magic)
    invariant forall i int :: {$out[ix.main][i]} 0 <= i && i < len(magic) ==> $out[ix.main][i] == magic[i]
    invariant buffersOK(ix) && nameTable(ix)
  loop 2
    invariant buffersOK(ix) && nameTable(ix)
    invariant off[0] == len(magic) && off[0] <= off[1] && off[1] + total(ix.nameData) == off[2] && off[2] <= off[3] && off[3] + 4 * ix.numName == off[4]
    invariant $iter >= 0 && $iter <= 5 && total(ix.main) == off[4] + total(ix.postIndex) + 4 * $iter
    invariant forall i int :: {$out[ix.main][i]} 0 <= i && i < len(magic) ==> $out[ix.main][i] == magic[i]
    invariant forall i int :: {$out[ix.nameData][i]} 0 <= i && i < total(ix.nameData) ==> $out[ix.main][off[1] + i] == $out[ix.nameData][i]
    invariant forall i int :: {$out[ix.nameIndex][i]} 0 <= i && i < total(ix.nameIndex) ==> $out[ix.main][off[3] + i] == $out[ix.nameIndex][i]
    invariant forall i int :: {$out[ix.postIndex][i]} 0 <= i && i < total(ix.postIndex) ==> $out[ix.main][off[4] + i] == $out[ix.postIndex][i]
    invariant [off0] $iter > 0 ==> r32($out[ix.main], off[4] + total(ix.postIndex)) == off[0]
    invariant [off1] $iter > 1 ==> r32($out[ix.main], off[4] + total(ix.postIndex) + 4) == off[1]
    invariant [off2] $iter > 2 ==> r32($out[ix.main], off[4] + total(ix.postIndex) + 8) == off[2]
    invariant [off3] $iter > 3 ==> r32($out[ix.main], off[4] + total(ix.postIndex) + 12) == off[3]
    invariant [off4] $iter > 4 ==> r32($out[ix.main], off[4] + total(ix.postIndex) + 16) == off[4]
  loop 3
    invariant buffersOK(ix)
  loop 4
    invariant buffersOK(ix) && $iter >= 0

pred trailerAt(f, k) = r32($fdata[f], $flen[f] - len(trailerMagic) - 20 + 4*k)
