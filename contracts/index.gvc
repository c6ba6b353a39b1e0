# C05 C06 C10 C11 C12 C21: index/index.go
package index

pred indexOK(n) = n.Ref != nil && n.idx != nil && held(n.lck) == 0

monitor Index.lck contents idx
  invariant self.idx != nil

func (*IndexRef).Dir(r) (d)
  props C12
  pure
  ensures d == r.dir

func (*IndexRef).Remove(r) (err)
  props C10 C12
  modifies $removed
  ghost $removed = upd($removed, r, 1)
  ensures [only-this] $removed == upd(old($removed), r, 1)

extern os.RemoveAll(path) (err)
  modifies

func (*IndexRef).Open(r) (n, err)
  props C10 C11
  modifies
  ensures [opened] err == nil ==> n != nil && fresh(n) && n.Ref == r && indexOK(n) && $dead[refid(n)] == 0 && $served[refid(n)] == 0
  ensures [always] err == nil

function join2(a, b string) string
function join3(a, b, c string) string
extern path/filepath.Join(elem) (s)
  modifies
  ensures len(elem) == 2 ==> s == join2(elem[0], elem[1])
  ensures len(elem) == 3 ==> s == join3(elem[0], elem[1], elem[2])

func (*Index).Close(n) (err)
  props C11
  requires held(n.lck) == 0
  modifies $dead
  ghost $dead = upd($dead, refid(n), 1)
  ensures $dead == upd(old($dead), refid(n), 1)

func (*Index).Destroy(n) (err)
  props C10 C11
  requires [not-in-service] $served[refid(n)] == 0
  requires n.Ref != nil && held(n.lck) == 0
  modifies $dead, $removed
  ghost $dead = upd($dead, refid(n), 1)
  ensures [destroyed] $dead == upd(old($dead), refid(n), 1)

func (*Index).GetDir(n) (d)
  props C11
  requires n.Ref != nil
  pure
  ensures d == n.Ref.dir

func Read(dir) (r, err)
  props C12
  modifies $unsaved
  ensures [path] r != nil && fresh(r) && r.dir == dir
  ensures [nothing-on-error] err != nil ==> r.Url == "" && r.Rev == ""

func Open(dir) (n, err)
  props C10 C12
  modifies $unsaved
  ensures [opened] err == nil ==> n != nil && fresh(n) && n.Ref != nil && n.Ref.dir == dir && indexOK(n) && $dead[refid(n)] == 0 && $served[refid(n)] == 0
  ensures [failed] err != nil ==> n == nil

func toStrings(lines) (strs)
  props C05
  modifies
  ensures fresh(strs) && len(strs) == len(lines)
  ensures [texts] forall i int :: {strs[i]} 0 <= i && i < len(strs) ==> strs[i] == str(lines[i])
  loop 1
    invariant 0 <= i && i <= n && forall k int :: {strs[k]} 0 <= k && k < i ==> strs[k] == str(lines[k])

func GetRegexpPattern(pat, ignoreCase) (p)
  props C05
  pure
  ensures p == (ignoreCase ? concat("(?i)(?m)", pat) : concat("(?m)", pat))

func containsString(haystack, needle) (r)
  props C05 C06
  modifies
  ensures [member] r <==> (exists i int :: {haystack[i]} 0 <= i && i < len(haystack) && haystack[i] == needle)
  loop 1
    invariant 0 <= i && (i <= n || i == 0) && n == len(haystack) && (forall k int :: {haystack[k]} 0 <= k && k < i ==> haystack[k] != needle)

# patterns that can be compiled; where the first match of the pattern in a name ends
function validRE(expr string) bool
function nameMatch(expr string, s string) int
function quoted(s string) string

extern codesearch/regexp.QuoteMeta(s) (r)
  pure
  ensures r == quoted(s)
local extern codesearch/regexp.Compile(expr) (re, err)
  modifies
  ensures (err == nil <==> validRE(expr)) && (err == nil ==> re != nil && re.expr == expr && re.Syntax != nil)
local extern codesearch/regexp.(*Regexp).MatchString(re, s, beginText, endText) (e)
  requires re != nil
  modifies
  ensures (beginText && endText) ==> (e >= 0 <==> nameMatch(re.expr, s) >= 0)
local extern codesearch/index.RegexpQuery(re) (q)
  modifies
  ensures q != nil && qwf(q)

# how many of n matching files an answer shows
pred shown(n, off, lim) = (lim > 0 && n - max(off, 0) > lim) ? lim : max(0, n - max(off, 0))
pred patternOf(pat, opt) = opt.IgnoreCase ? concat("(?i)(?m)", opt.LiteralSearch ? quoted(pat) : pat) : concat("(?m)", opt.LiteralSearch ? quoted(pat) : pat)
pred named(opt, s) = (opt.FileRegexp == "" || nameMatch(opt.FileRegexp, s) >= 0) && (opt.ExcludeFileRegexp == "" || nameMatch(opt.ExcludeFileRegexp, s) < 0)

func (*Index).Search(n, pat, opt) (res, err)
  props C05 C10 C11
  merge
  requires indexOK(n)
  requires [context] opt.LinesOfContext <= 9223372036854775807
  assumes nlOK()
  modifies $stream, $slen, $rpos, $text, $pos, $more, $ptri, $pix, $unsaved
  ensures [answer] err == nil ==> res != nil && fresh(res)
  ensures [invalid-pattern] err == nil ==> validRE(patternOf(pat, opt)) && (opt.FileRegexp != "" ==> validRE(opt.FileRegexp)) && (opt.ExcludeFileRegexp != "" ==> validRE(opt.ExcludeFileRegexp))
  ensures [offset-limit] err == nil ==> len(res.Matches) == shown(res.FilesWithMatch, opt.Offset, opt.Limit)
  ensures [names] err == nil ==> (forall j int :: {res.Matches[j]} 0 <= j && j < len(res.Matches) ==> res.Matches[j] != nil && named(opt, res.Matches[j].Filename))
  ensures [nonempty] err == nil ==> (forall j int :: {res.Matches[j]} 0 <= j && j < len(res.Matches) ==> len(res.Matches[j].Matches) > 0)
  ensures [cap] err == nil && opt.MaxResults > 0 ==> (forall j int :: {res.Matches[j]} 0 <= j && j < len(res.Matches) ==> len(res.Matches[j].Matches) <= opt.MaxResults)
  ensures [opened] err == nil ==> res.FilesWithMatch <= res.FilesOpened
  ensures [revision] err == nil ==> res.Revision == n.Ref.Rev
  loop 1
    invariant arr(g.buf) != arr(nl) && (g.buf == nil || fresh(g.buf))
    invariant 0 <= filesFound && filesFound <= filesOpened && filesCollected == len(results) && filesCollected == shown(filesFound, opt.Offset, opt.Limit)
    invariant matchesCollected >= 0 && (opt.MaxResults > 0 ==> matchesCollected <= opt.MaxResults)
    invariant forall j int :: {results[j]} 0 <= j && j < len(results) ==> results[j] != nil && fresh(results[j]) && named(opt, results[j].Filename) && len(results[j].Matches) > 0 && (opt.MaxResults > 0 ==> len(results[j].Matches) <= opt.MaxResults)
    invariant fresh(results) || results == nil
  loop 2
    invariant hasMatch ==> (len(matches) > 0 <==> filesFound >= opt.Offset && (opt.Limit <= 0 || filesCollected < opt.Limit))
    invariant !hasMatch ==> len(matches) == 0
    invariant len(matches) <= matchesCollected && (opt.MaxResults > 0 ==> matchesCollected <= opt.MaxResults) && (opt.MaxResults > 0 && $more ==> matchesCollected < opt.MaxResults)
    invariant matches == nil || fresh(matches)

extern codesearch/index.Open(file) (ix)
  modifies
  ensures ix != nil
extern codesearch/index.(*Index).Close(ix) (err)
  modifies
extern encoding/gob.NewDecoder(r) (d)
  modifies
  ensures d != nil
