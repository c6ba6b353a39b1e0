# C20: version control drivers (vcs)
package vcs

# ---------- the world ----------
# $now counts the commands and driver operations that were carried out; what the
# n-th one was, and what it gave, are functions of n.
ghostvar $now int aux=vcs

# operation n on a driver
function opKind(n int) int
function opDir(n int) string
function opURL(n int) string
function opBy(n int) iface
function opRev(n int) string
function opErr(n int) error
# command n: arguments (the program first), directory, what it printed, whether it succeeded
function argc(n int) int
function arg(n, i int) string
function cmdDir(n int) string
function exitOK(n int) bool
function outOf(n int) string
# whether a path exists at that time
function there(p string, n int) bool
# the default branch detected at that time ("" if unknown)
function detectAt(n int) string

# ---------- vcs.go ----------

local extern vcs.Driver.Pull(d, dir) (rev, err)
  modifies $now
  ensures $now == old($now) + 1 && opKind(old($now)) == 1 && opDir(old($now)) == dir && opBy(old($now)) == d && rev == opRev(old($now)) && err == opErr(old($now))
local extern vcs.Driver.Clone(d, dir, url) (rev, err)
  modifies $now
  ensures $now == old($now) + 1 && opKind(old($now)) == 2 && opDir(old($now)) == dir && opURL(old($now)) == url && opBy(old($now)) == d && rev == opRev(old($now)) && err == opErr(old($now))
extern vcs.Driver.AutoGeneratedFiles(d, dir) (files)
  modifies
extern vcs.Driver.SpecialFiles(d) (files)
  modifies
local extern os.Stat(p) (fi, err)
  modifies
  ensures (err == nil <==> there(p, $now)) && (err == nil ==> fi != nil)

# the constructors registered under vcs.Register (newGit, newHg, newSvn, ...): a driver or an error
function made(f fn, cfg string) iface
extern vcs.drivers(cfg) (d, err)
  modifies
  ensures err == nil ==> d != nil && d == made($callee, str(cfg))

func Register(fn, names)
  props C20
  modifies mapof(drivers)
  ensures [registered] forall i int :: {names[i]} 0 <= i && i < len(names) ==> drivers[names[i]] == fn
  ensures [others] forall n string :: {drivers[n]} old(n in drivers) && !(exists i int :: {names[i]} 0 <= i && i < len(names) && names[i] == n) ==> n in drivers && drivers[n] == old(drivers[n])
  loop 1
    invariant forall i int :: {names[i]} 0 <= i && i < $iter ==> drivers[names[i]] == fn
    invariant forall n string :: {drivers[n]} old(n in drivers) && !(exists i int :: {names[i]} 0 <= i && i < $iter && names[i] == n) ==> n in drivers && drivers[n] == old(drivers[n])

func New(name, cfg) (wd, err)
  props C20
  modifies
  ensures [driver] err == nil ==> wd != nil && wd.Driver != nil
  ensures [own-driver] err == nil ==> name in drivers && wd.Driver == made(drivers[name], str(cfg))
  ensures [failed] err != nil ==> wd == nil

func exists(path) (r)
  props C20
  modifies
  ensures r <==> there(path, $now)

func (*WorkDir).PullOrClone(w, dir, url) (rev, err)
  props C20
  requires w.Driver != nil
  let n = old($now)
  modifies $now
  ensures [once] $now == n + 1 && opBy(n) == w.Driver && opDir(n) == dir
  ensures [present] there(dir, n) ==> opKind(n) == 1
  ensures [absent] !there(dir, n) ==> opKind(n) == 2 && opURL(n) == url
  ensures [revision] rev == opRev(n) && err == opErr(n)

# ---------- commands ----------

function pipeOf(r iface) ref
function startedAt(c ref) int
function splitDir(p string) string
function splitFile(p string) string
function jsonOK(b string) bool

pred logged(n, c) = argc(n) == len(c.Args) && cmdDir(n) == c.Dir && (forall i int :: {arg(n, i)} {c.Args[i]} 0 <= i && i < len(c.Args) ==> arg(n, i) == c.Args[i])

extern os/exec.Command(name, a) (c)
  modifies
  ensures fresh(c) && c != nil && c.Dir == "" && fresh(c.Args) && len(c.Args) == len(a) + 1 && c.Args[0] == name
  ensures forall i int :: {a[i]} {c.Args[i+1]} 0 <= i && i < len(a) ==> c.Args[i+1] == a[i]
extern os/exec.(*Cmd).CombinedOutput(c) (out, err)
  modifies $now
  ensures $now == old($now) + 1 && logged(old($now), c) && (err == nil <==> exitOK(old($now))) && str(out) == outOf(old($now))
extern os/exec.(*Cmd).Output(c) (out, err)
  modifies $now
  ensures $now == old($now) + 1 && logged(old($now), c) && (err == nil <==> exitOK(old($now))) && str(out) == outOf(old($now))
extern os/exec.(*Cmd).Run(c) (err)
  modifies $now
  ensures $now == old($now) + 1 && logged(old($now), c) && (err == nil <==> exitOK(old($now)))
extern os/exec.(*Cmd).StdoutPipe(c) (r, err)
  modifies
  ensures err == nil ==> r != nil && pipeOf(r) == c
extern os/exec.(*Cmd).Start(c) (err)
  modifies $now
  ensures $now == old($now) + 1 && (err == nil ==> logged(old($now), c) && startedAt(c) == old($now)) && (err != nil ==> !exitOK(old($now)))
extern os/exec.(*Cmd).Wait(c) (err)
  modifies
  ensures err == nil <==> exitOK(startedAt(c))
extern io.ReadCloser.Close(r) (err)
  modifies
local extern io.Copy(w, r) (n, err)
  requires isType(w, "*bytes.Buffer")
  modifies $buf
  ensures err == nil ==> $buf == upd(old($buf), unbox(w, "*bytes.Buffer"), old($buf)[unbox(w, "*bytes.Buffer")] + outOf(startedAt(pipeOf(r))))
extern path/filepath.Split(p) (d, f)
  pure
  ensures d == splitDir(p) && f == splitFile(p)
local extern encoding/json.Unmarshal(b, v) (err)
  ensures err == nil <==> jsonOK(str(b))

# command n is prog with that subcommand, in that directory
pred ran(n, prog, sub, dir) = arg(n, 0) == prog && arg(n, 1) == sub && cmdDir(n) == dir
pred last(n) = arg(n, argc(n) - 1)
pred last2(n) = arg(n, argc(n) - 2)
# the outcome of the revision query n
pred answer(n, rev) = exitOK(n) && rev == trimmed(outOf(n))
# a clone of url into dir succeeded as command n
pred cloned(n, prog, sub, dir, url) = exitOK(n) && ran(n, prog, sub, splitDir(dir)) && last2(n) == url && last(n) == splitFile(dir)
pred hasOpt(n, k, v) = (arg(n, 2) == k && arg(n, 3) == v) || (arg(n, 3) == k && arg(n, 4) == v) || (arg(n, 4) == k && arg(n, 5) == v) || (arg(n, 5) == k && arg(n, 6) == v) || (arg(n, 6) == k && arg(n, 7) == v)

# ---------- git ----------

extern vcs.refDetetector.detectRef(d, dir) (r)
  modifies $now
  ensures $now >= old($now) && r == detectAt(old($now))

func newGit(b) (d, err)
  props C20
  modifies
  ensures [driver] err == nil ==> isType(d, "*vcs.GitDriver") && unbox(d, "*vcs.GitDriver").refDetetector != nil
  ensures [options] err == nil && b != nil ==> jsonOK(str(b)) && unbox(d, "*vcs.GitDriver").Ref == decoded(unbox(d, "*vcs.GitDriver").Ref) && unbox(d, "*vcs.GitDriver").DetectRef == decoded(unbox(d, "*vcs.GitDriver").DetectRef)
  ensures [none] err == nil && b == nil ==> unbox(d, "*vcs.GitDriver").Ref == "" && !unbox(d, "*vcs.GitDriver").DetectRef

func (*GitDriver).HeadRev(g, dir) (rev, err)
  props C20
  let n = old($now)
  modifies $now, $buf
  ensures [revision] err == nil ==> $now == n + 1 && answer(n, rev) && ran(n, "git", "rev-parse", dir) && last(n) == "HEAD"

func run(desc, dir, cmd, args) (out, err)
  props C20
  let n = old($now)
  modifies $now
  ensures [ran] $now == n + 1 && out == outOf(n) && cmdDir(n) == dir && arg(n, 0) == cmd && argc(n) == len(args) + 1 && (forall i int :: {args[i]} {arg(n, i+1)} 0 <= i && i < len(args) ==> arg(n, i+1) == args[i])
  ensures [logged-only] err == nil

pred refFor(g, n) = g.Ref != "" ? g.Ref : (g.DetectRef && detectAt(n) != "" ? detectAt(n) : "master")

func (*GitDriver).targetRef(g, dir) (r)
  props C20
  requires g.refDetetector != nil
  modifies $now
  ensures [target] r == refFor(g, old($now))
  ensures [time] $now >= old($now)

# the working copy is brought to the head of the branch, and its revision returned
pred pulled(t, g, at, dir, rev) = answer(t - 1, rev) && ran(t - 1, "git", "rev-parse", dir) && last(t - 1) == "HEAD"
|   && ran(t - 2, "git", "reset", dir) && last(t - 2) == "origin/" + refFor(g, at)
|   && ran(t - 3, "git", "fetch", dir) && last(t - 3) == "+" + refFor(g, at) + ":remotes/origin/" + refFor(g, at)

func (*GitDriver).Pull(g, dir) (rev, err)
  props C20
  requires g.refDetetector != nil
  modifies $now, $buf
  ensures [head] err == nil ==> pulled($now, g, old($now), dir, rev) && $now >= old($now) + 3

func (*GitDriver).Clone(g, dir, url) (rev, err)
  props C20
  requires g.refDetetector != nil
  modifies $now, $buf
  ensures [cloned] err == nil ==> cloned(old($now), "git", "clone", dir, url)
  ensures [head] err == nil ==> pulled($now, g, old($now) + 1, dir, rev)

func (*headBranchDetector).detectRef(d, dir) (r)
  props C20
  modifies $now
  ensures [branch] r != "" ==> r == submatch(outOf(old($now)), 1) && ran(old($now), "git", "remote", dir)
  ensures [time] $now >= old($now)

# the groups of the first match of headBranchRegexp
function submatch(s string, i int) string
extern regexp.(*Regexp).FindStringSubmatch(re, s) (r)
  requires re != nil
  modifies
  ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == submatch(s, i)
extern regexp.MustCompile(s) (r)
  modifies
  ensures r != nil

# the files whose attribute is reported as true, and no others
function tok(s string, i int) string
function toks(s string) int
local extern bytes.Split(s, sep) (r)
  modifies
  ensures fresh(r) && len(r) == toks(str(s)) && (forall i int :: {r[i]} 0 <= i && i < len(r) ==> str(r[i]) == tok(str(s), i))

func (*GitDriver).AutoGeneratedFiles(g, dir) (files)
  props C06 C20
  modifies $now
  ensures [marked] forall k int :: {files[k]} 0 <= k && k < len(files) ==>
|    (exists i int :: {tok(outOf(old($now) + 1), i)} 2 <= i && i < toks(outOf(old($now) + 1)) && tok(outOf(old($now) + 1), i) == "true" && tok(outOf(old($now) + 1), i - 2) == files[k])
  loop 1
    invariant 2 <= i && str(out) == outOf(old($now) + 1)
    invariant forall k int :: {files[k]} 0 <= k && k < len(files) ==>
|     (exists j int :: {tok(str(out), j)} 2 <= j && j < toks(str(out)) && tok(str(out), j) == "true" && tok(str(out), j - 2) == files[k])

# ---------- the other drivers ----------

func newHg(b) (d, err)
  props C20
  modifies
  ensures [driver] err == nil && isType(d, "*vcs.MercurialDriver")
func newBzr(b) (d, err)
  props C20
  modifies
  ensures [driver] err == nil && isType(d, "*vcs.BzrDriver")
func newSvn(b) (d, err)
  props C20
  modifies
  ensures [driver] err == nil ==> isType(d, "*vcs.SVNDriver")
  ensures [options] err == nil && b != nil ==> jsonOK(str(b)) && unbox(d, "*vcs.SVNDriver").Username == decoded(unbox(d, "*vcs.SVNDriver").Username) && unbox(d, "*vcs.SVNDriver").Password == decoded(unbox(d, "*vcs.SVNDriver").Password)
  ensures [none] err == nil && b == nil ==> unbox(d, "*vcs.SVNDriver").Username == "" && unbox(d, "*vcs.SVNDriver").Password == ""
func newLocal(b) (d, err)
  props C20
  modifies
  ensures [driver] err == nil ==> isType(d, "*vcs.LocalDriver")
  ensures [options] err == nil && b != nil ==> jsonOK(str(b)) && (unbox(d, "*vcs.LocalDriver").WatchChanges <==> decoded(unbox(d, "*vcs.LocalDriver").WatchChanges))
  ensures [none] err == nil && b == nil ==> !unbox(d, "*vcs.LocalDriver").WatchChanges

func (*MercurialDriver).HeadRev(g, dir) (rev, err)
  props C20
  let n = old($now)
  modifies $now, $buf
  ensures [revision] err == nil ==> $now == n + 1 && answer(n, rev) && arg(n, 0) == "hg" && cmdDir(n) == dir && (ran(n, "hg", "log", dir) ==> arg(n, 2) == "-r" && arg(n, 3) == ".")
func (*MercurialDriver).Pull(g, dir) (rev, err)
  props C20
  let n = old($now)
  modifies $now, $buf
  ensures [updated] err == nil ==> exitOK(n) && ran(n, "hg", "pull", dir) && last(n) == "-u"
  ensures [revision] err == nil ==> answer($now - 1, rev) && cmdDir($now - 1) == dir && $now == n + 2
func (*MercurialDriver).Clone(g, dir, url) (rev, err)
  props C20
  let n = old($now)
  modifies $now, $buf
  ensures [cloned] err == nil ==> cloned(n, "hg", "clone", dir, url)
  ensures [revision] err == nil ==> answer($now - 1, rev) && cmdDir($now - 1) == dir && $now == n + 2

func (*SVNDriver).HeadRev(g, dir) (rev, err)
  props C20
  let n = old($now)
  modifies $now, $buf
  ensures [revision] err == nil ==> $now == n + 1 && answer(n, rev) && arg(n, 0) == "svnversion" && cmdDir(n) == dir
func (*SVNDriver).Pull(g, dir) (rev, err)
  props C20
  let n = old($now)
  modifies $now, $buf
  ensures [updated] err == nil ==> exitOK(n) && ran(n, "svn", "update", dir) && hasOpt(n, "--username", g.Username) && hasOpt(n, "--password", g.Password)
  ensures [revision] err == nil ==> answer($now - 1, rev) && cmdDir($now - 1) == dir && $now == n + 2
func (*SVNDriver).Clone(g, dir, url) (rev, err)
  props C20
  let n = old($now)
  modifies $now, $buf
  ensures [cloned] err == nil ==> cloned(n, "svn", "checkout", dir, url) && hasOpt(n, "--username", g.Username) && hasOpt(n, "--password", g.Password)
  ensures [revision] err == nil ==> answer($now - 1, rev) && cmdDir($now - 1) == dir && $now == n + 2

func (*BzrDriver).HeadRev(g, dir) (rev, err)
  props C20
  let n = old($now)
  modifies $now, $buf
  ensures [revision] err == nil ==> $now == n + 1 && answer(n, rev) && ran(n, "bzr", "revno", dir)
func (*BzrDriver).Pull(g, dir) (rev, err)
  props C20
  let n = old($now)
  modifies $now, $buf
  ensures [updated] err == nil ==> exitOK(n) && ran(n, "bzr", "pull", dir)
  ensures [revision] err == nil ==> answer($now - 1, rev) && cmdDir($now - 1) == dir && $now == n + 2
func (*BzrDriver).Clone(g, dir, url) (rev, err)
  props C20
  let n = old($now)
  modifies $now, $buf
  ensures [cloned] err == nil ==> cloned(n, "bzr", "branch", dir, url)
  ensures [revision] err == nil ==> answer($now - 1, rev) && cmdDir($now - 1) == dir && $now == n + 2

# the local driver
extern os.Readlink(p) (s, err)
  modifies
  ensures err == nil ==> s == linkOf(p)
function linkOf(p string) string
function hashOf(p string) string
function linked(src, dst string) bool
extern golang.org/x/mod/sumdb/dirhash.HashDir(dir, prefix, h) (s, err)
  modifies
  ensures err == nil ==> s == hashOf(dir)
extern os.Symlink(src, dst) (err)
  modifies
  ensures err == nil ==> linked(src, dst)
extern strings.TrimPrefix(s, p) (r)
  pure
  ensures r == (hasPrefix(s, p) ? s[len(p):len(s)] : s)

func (*LocalDriver).HeadRev(g, dir) (rev, err)
  props C20
  modifies
  ensures [named] !g.WatchChanges && err == nil ==> lastIndexOf(dir, "vcs-") >= 0 && rev == dir[lastIndexOf(dir, "vcs-") + 4:len(dir)]
  ensures [hashed] g.WatchChanges && err == nil ==> rev == hashOf(dir) || rev == hashOf(linkOf(dir))
func (*LocalDriver).Pull(g, dir) (rev, err)
  props C20
  modifies
  ensures [named] !g.WatchChanges && err == nil ==> rev == dir[lastIndexOf(dir, "vcs-") + 4:len(dir)]
  ensures [hashed] g.WatchChanges && err == nil ==> rev == hashOf(dir) || rev == hashOf(linkOf(dir))
func (*LocalDriver).Clone(g, dir, url) (rev, err)
  props C20
  modifies
  ensures [linked] err == nil ==> hasPrefix(url, "file://") && linked(url[7:len(url)], dir)
  ensures [named] !g.WatchChanges && err == nil ==> rev == dir[lastIndexOf(dir, "vcs-") + 4:len(dir)]
