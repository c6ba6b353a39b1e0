# C06 C21: building an index directory (index/index.go)
package index

# What was written and is not known to have reached its file (1), by file,
# compressor or index writer; the value the last encoder wrote.
ghostvar $unsaved map[ref]int aux=index,codesearch/index
ghostvar $encoded any aux=index,codesearch/index
# The reader that was consumed to its end last, the name that was given to the
# index last, and (1 + the place in the list) of the excluded files.
ghostvar $consumed any aux=index,codesearch/index
ghostvar $lastName string aux=index,codesearch/index
ghostvar $listedAt map[string]int aux=index,codesearch/index
ghostvar $werr any aux=index,codesearch/index

pred allSaved() = forall f ref :: {$unsaved[f]} $unsaved[f] == 0
pred savedBut(ix) = forall f ref :: {$unsaved[f]} f != ix ==> $unsaved[f] == 0
# errors other than the two that tell Walk to skip something
pred plain(err) = err == nil || (err != filepath.SkipDir && err != filepath.SkipAll)

# the writer under a compressor or an encoder, and the paths of files
function under(g ref) ref
function openedPath(f ref) string
function createdPath(f ref) string
function teeSrc(t any) any
function teeDst(t any) any
function relOf(base, path string) string
pred wref(w) = isType(w, "*os.File") ? unbox(w, "*os.File") : unbox(w, "*gzip.Writer")

extern path/filepath.Rel(base, path) (rel, err)
  modifies
  ensures (err == nil ==> rel == relOf(base, path)) && plain(err)
local extern os.Open(name) (f, err)
  modifies
  ensures (err == nil) == (f != nil) && plain(err) && (f != nil ==> fresh(f) && openedPath(f) == name)
extern os.Create(name) (f, err)
  modifies
  ensures (err == nil) == (f != nil) && plain(err) && (f != nil ==> fresh(f) && createdPath(f) == name)
local extern os.(*File).Close(f) (err)
  requires f != nil
  modifies $unsaved
  ensures plain(err) && $unsaved == (err == nil ? upd(old($unsaved), f, 0) : old($unsaved))
extern os.(*File).Write(f, b) (n, err)
  requires f != nil
  modifies $unsaved
  ensures plain(err) && $unsaved == upd(old($unsaved), f, 1) && 0 <= n && n <= len(b) && (err == nil ==> n == len(b))
extern os.(*File).Sync(f) (err)
  requires f != nil
  modifies
  ensures plain(err)
extern os.Mkdir(name, perm) (err)
  modifies
  ensures plain(err)
extern os.MkdirAll(name, perm) (err)
  modifies
  ensures plain(err)
local extern os.Stat(name) (fi, err)
  modifies
  ensures plain(err) && (err == nil ==> fi != nil)
local extern os.Readlink(name) (s, err)
  modifies
  ensures plain(err)
extern compress/gzip.NewWriter(w) (g)
  requires w != nil
  modifies
  ensures g != nil && fresh(g) && under(g) == wref(w)
extern compress/gzip.(*Writer).Close(g) (err)
  requires g != nil
  modifies $unsaved
  ensures plain(err) && $unsaved == (err == nil ? upd(upd(old($unsaved), under(g), 1), g, 0) : upd(upd(old($unsaved), under(g), 1), g, 1))
extern io.TeeReader(r, w) (t)
  requires r != nil && w != nil
  modifies $unsaved, $stream, $rpos, $slen
  ensures t != nil && teeSrc(t) == r && teeDst(t) == w && $unsaved == upd(old($unsaved), wref(w), 1) && $rpos == 0 && $slen >= 0 && bytesOK()
extern encoding/gob.NewEncoder(w) (e)
  requires w != nil
  modifies
  ensures e != nil && fresh(e) && under(e) == wref(w)
extern encoding/gob.(*Encoder).Encode(e, v) (err)
  requires e != nil
  modifies $unsaved, $encoded
  ensures plain(err) && $unsaved == upd(old($unsaved), under(e), 1) && (err == nil ==> $encoded == v)
local extern encoding/json.NewEncoder(w) (e)
  requires w != nil
  modifies
  ensures e != nil && fresh(e) && under(e) == wref(w)
local extern encoding/json.(*Encoder).Encode(e, v) (err)
  requires e != nil
  modifies $unsaved, $encoded
  ensures plain(err) && $unsaved == upd(old($unsaved), under(e), 1) && (err == nil ==> $encoded == v)

extern unicode/utf8.Valid(b) (r)
  modifies
extern unicode/utf8.DecodeRune(b) (r, n)
  requires len(b) > 0
  pure
  ensures 1 <= n && n <= len(b) && n <= 4
extern unicode/utf8.RuneStart(b) (r)
  pure

extern path/filepath.Walk(root, fn) (err)
  modifies $werr
  ghost $werr = nil
  callback fn(path, info, err) (res)
    requires $werr == nil && plain(err) && (err == nil ==> info != nil)
    modifies $werr
    ensures $werr == (plain(res) ? res : nil)
  ensures err == $werr

func validUTF8IgnoringPartialTrailingRune(p) (r)
  props C06
  modifies
  loop 1
    invariant 0 <= i && i <= n && n == len(p)

func isTextFile(filename) (txt, err)
  props C06
  modifies $stream, $rpos, $slen, $unsaved
  ensures plain(err)
  ensures [kept] forall f ref :: {$unsaved[f]} $unsaved[f] == old($unsaved[f]) || $unsaved[f] == 0

# the file that was indexed under rel is a whole copy of the one at path
pred copied(t, path, dup) = openedPath(unbox(teeSrc(t), "*os.File")) == path && createdPath(under(unbox(teeDst(t), "*gzip.Writer"))) == dup

func addFileToIndex(ix, dst, src, path) (reason, err)
  props C06 C21
  requires writerOK(ix)
  modifies ix.numName, ix.totalBytes, ix.post, ix.postFile, ix.nameData.buf, ix.nameIndex.buf, ix.trigram.dense, elems(ix.post), elems(ix.postFile), elems(ix.inbuf), elems(ix.nameData.buf), elems(ix.nameIndex.buf), elems(ix.trigram.dense), elems(ix.trigram.sparse), $unsaved, $stream, $rpos, $slen, $consumed, $lastName, $fdata, $flen, $fpos, $out, $names, $noff, $spilled
  ensures plain(err)
  ensures [saved C21] err == nil ==> (forall f ref :: {$unsaved[f]} f != ix ==> $unsaved[f] == old($unsaved[f]) || $unsaved[f] == 0)
  ensures [own] (arr(ix.post) == old(arr(ix.post)) || fresh(ix.post)) && (arr(ix.postFile) == old(arr(ix.postFile)) || fresh(ix.postFile)) && (arr(ix.nameData.buf) == old(arr(ix.nameData.buf)) || fresh(ix.nameData.buf)) && (arr(ix.nameIndex.buf) == old(arr(ix.nameIndex.buf)) || fresh(ix.nameIndex.buf)) && (arr(ix.trigram.dense) == old(arr(ix.trigram.dense)) || fresh(ix.trigram.dense))
  ensures [writer] writerOK(ix)
  ensures [indexed] err == nil && reason == "" ==> ix.numName == old(ix.numName) + 1 && $lastName == relOf(src, path)
  ensures [stored] err == nil && reason == "" ==> copied($consumed, path, join3(dst, "raw", relOf(src, path)))
  ensures [excluded] err == nil && reason != "" ==> ix.numName == old(ix.numName)

func addDirToIndex(dst, src, path) (err)
  props C06
  modifies
  ensures plain(err)

func writeExcludedFilesJson(filename, files) (err)
  props C06 C21
  requires [all] listOK(files)
  modifies $unsaved, $encoded
  ensures [saved C21] err == nil ==> (forall f ref :: {$unsaved[f]} $unsaved[f] == old($unsaved[f]) || $unsaved[f] == 0)
  ensures [list] err == nil ==> $encoded == box(files)
  ensures plain(err)

func (*IndexRef).writeManifest(r) (err)
  props C21
  requires [complete] allSaved()
  modifies $unsaved, $encoded
  ensures [written] err == nil ==> allSaved() && $encoded == box(r)

# the excluded files are those in the list, each with a reason
pred listOK(l) = forall f string :: {$listedAt[f]} $listedAt[f] != 0 ==> 1 <= $listedAt[f] && $listedAt[f] <= len(l) && l[$listedAt[f]-1] != nil && l[$listedAt[f]-1].Filename == f && l[$listedAt[f]-1].Reason != ""

# one step of the walk
func indexAllFiles$1(path, info, err) (res)
  props C06 C21
  let rel = relOf(src, path)
  let k = len(excluded)
  requires plain(err) && (err == nil ==> info != nil)
  requires writerOK(ix) && opt != nil
  requires [list] listOK(excluded)
  returns $listedAt = len(excluded) == k + 1 ? upd($listedAt, rel, k + 1) : $listedAt
  modifies excluded, elems(excluded), ix.numName, ix.totalBytes, ix.post, ix.postFile, ix.nameData.buf, ix.nameIndex.buf, ix.trigram.dense, elems(ix.post), elems(ix.postFile), elems(ix.inbuf), elems(ix.nameData.buf), elems(ix.nameIndex.buf), elems(ix.trigram.dense), elems(ix.trigram.sparse), $unsaved, $stream, $rpos, $slen, $consumed, $lastName, $listedAt, $fdata, $flen, $fpos, $out, $names, $noff, $spilled
  ensures [failed] err != nil ==> res == err
  ensures [skip] !plain(res) ==> res == filepath.SkipDir && fiMode(info) & os.ModeDir != 0 && ((exists i int :: {opt.SpecialFiles[i]} 0 <= i && i < len(opt.SpecialFiles) && opt.SpecialFiles[i] == fiName(info)) || (opt.ExcludeDotFiles && fiName(info)[0] == 46))
  ensures [indexed-or-listed] res == nil && fiMode(info) & os.ModeDir == 0 ==> (ix.numName == old(ix.numName) + 1 && $lastName == rel && len(excluded) == k) || (ix.numName == old(ix.numName) && len(excluded) == k + 1 && excluded[k].Filename == rel && excluded[k].Reason != "") || (ix.numName == old(ix.numName) && len(excluded) == k && (exists i int :: {opt.SpecialFiles[i]} 0 <= i && i < len(opt.SpecialFiles) && opt.SpecialFiles[i] == fiName(info)))
  ensures [saved C21] (res == nil || !plain(res)) && old(savedBut(ix)) ==> savedBut(ix)
  ensures [writer] writerOK(ix)
  ensures [list] listOK(excluded)
  ensures arr(excluded) == old(arr(excluded)) || fresh(excluded)
  ensures [own] (arr(ix.post) == old(arr(ix.post)) || fresh(ix.post)) && (arr(ix.postFile) == old(arr(ix.postFile)) || fresh(ix.postFile)) && (arr(ix.nameData.buf) == old(arr(ix.nameData.buf)) || fresh(ix.nameData.buf)) && (arr(ix.nameIndex.buf) == old(arr(ix.nameIndex.buf)) || fresh(ix.nameIndex.buf)) && (arr(ix.trigram.dense) == old(arr(ix.trigram.dense)) || fresh(ix.trigram.dense))

func indexAllFiles(opt, dst, src) (err)
  props C06 C21
  requires opt != nil && allSaved()
  modifies $unsaved, $stream, $rpos, $slen, $consumed, $lastName, $listedAt, $encoded, $werr, $fdata, $flen, $fpos, $out, $names, $noff, $spilled
  assumes forall f string :: {$listedAt[f]} $listedAt[f] == 0
  ensures [saved C21] err == nil ==> allSaved()
  loop 1
    invariant listOK(excluded)
    invariant $werr == nil ==> savedBut(ix)
    invariant ownIx(ix) && fresh(excluded) && writerOK(ix)

func Build(opt, dst, src, url, rev) (r, err)
  props C21
  requires opt != nil
  assumes allSaved()
  modifies $unsaved, $stream, $rpos, $slen, $consumed, $lastName, $listedAt, $encoded, $werr, $fdata, $flen, $fpos, $out, $names, $noff, $spilled
  ensures [built] err == nil ==> r != nil && fresh(r) && r.dir == dst && r.Url == url && r.Rev == rev && r.AutoGeneratedFiles == opt.AutoGeneratedFiles
  ensures [failed] err != nil ==> r == nil
  ensures [manifest] err == nil ==> allSaved() && $encoded == box(r)
