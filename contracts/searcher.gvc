# C10 C11 C12 C13 C14: searcher/searcher.go
package searcher

# thread-local accounts (ghost state)
# $slots: indexing slots this goroutine holds; $served: index objects in service
# (by any searcher); $dead: index objects destroyed; $removed: index directories
# removed through their IndexRef.
ghostvar $slots int perthread
ghostvar $served row zeroinit
ghostvar $dead row zeroinit
ghostvar $removed map[ref]int

pred live(x) = x != nil && $dead[refid(x)] == 0 && indexOK(x)
pred searcherOK(s) = s != nil && s.Repo != nil && s.updateCh != nil && s.shutdownCh != nil && s.doneCh != nil && held(s.lck) == 0 && !closed(s.updateCh) && !closed(s.shutdownCh)

monitor Searcher.lck guards idx
  invariant [serving] live(self.idx) && $served[refid(self.idx)] == 1

onwrite Searcher.idx (s, v, o) $served = upd(upd($served, refid(o), 0), refid(v), 1)


func makeLimiter(n) (l)
  props C13
  requires [positive] n > 0
  modifies
  ensures [capacity] l != nil && fresh(l) && cap(l) == n && sent(l) == 0 && recvd(l) == 0 && !closed(l)

func limiter.Acquire(l)
  props C13
  requires l != nil && !closed(l)
  requires [one-slot-per-job] $slots == 0
  modifies chan(l), $slots
  ghost $slots = $slots + 1
  ensures [taken] sent(l) == old(sent(l)) + 1 && recvd(l) == old(recvd(l)) && $slots == old($slots) + 1

func limiter.Release(l)
  props C13
  requires l != nil
  requires [holding] $slots == 1
  modifies chan(l), $slots
  ghost $slots = $slots - 1
  ensures [returned] recvd(l) == old(recvd(l)) + 1 && sent(l) == old(sent(l)) && $slots == old($slots) - 1

monitor foundRefs.lock contents claimed

func (*foundRefs).claim(r, url, rev) (ref)
  props C12
  requires held(r.lock) == 0 && refsOK(r)
  modifies mapof(r.claimed)
  ensures [matches] ref != nil ==> ref.Url == url && ref.Rev == rev && (exists i int :: {r.refs[i]} 0 <= i && i < len(r.refs) && r.refs[i] == ref)
  ensures [unclaimed-before] ref != nil ==> !locked(r.claimed[ref])
  ensures [claimed-now] ref != nil ==> r.claimed[ref]
  ensures [only-it] forall x *index.IndexRef :: {r.claimed[x]} x != ref ==> (r.claimed[x] <==> locked(r.claimed[x]))
  ensures [none] ref == nil ==> (forall i int :: {r.refs[i]} 0 <= i && i < len(r.refs) && r.refs[i].Url == url && r.refs[i].Rev == rev ==> locked(r.claimed[r.refs[i]]))
  loop 1
    invariant forall i int :: {r.refs[i]} 0 <= i && i < $iter && r.refs[i].Url == url && r.refs[i].Rev == rev ==> locked(r.claimed[r.refs[i]])

pred refsOK(r) = (r.claimed != nil || len(r.refs) == 0) && (forall i int :: {r.refs[i]} 0 <= i && i < len(r.refs) ==> r.refs[i] != nil)

func (*foundRefs).removeUnclaimed(r) (err)
  props C12
  requires held(r.lock) == 0 && refsOK(r)
  modifies mapof(r.claimed), $removed
  ensures [claimed-kept] forall i int :: {r.refs[i]} 0 <= i && i < len(r.refs) && r.claimed[r.refs[i]] ==> $removed[r.refs[i]] == old($removed[r.refs[i]])
  ensures [unclaimed-removed] err == nil ==> (forall i int :: {r.refs[i]} 0 <= i && i < len(r.refs) && !r.claimed[r.refs[i]] ==> $removed[r.refs[i]] == 1)
  ensures [nothing-else] forall x *index.IndexRef :: {$removed[x]} $removed[x] != old($removed[x]) ==> (exists i int :: {r.refs[i]} 0 <= i && i < len(r.refs) && r.refs[i] == x)
  loop 1
    invariant forall i int :: {r.refs[i]} 0 <= i && i < len(r.refs) && r.claimed[r.refs[i]] ==> $removed[r.refs[i]] == old($removed[r.refs[i]])
    invariant forall i int :: {r.refs[i]} 0 <= i && i < $iter && !r.claimed[r.refs[i]] ==> $removed[r.refs[i]] == 1
    invariant forall x *index.IndexRef :: {$removed[x]} $removed[x] != old($removed[x]) ==> (exists i int :: {r.refs[i]} 0 <= i && i < len(r.refs) && r.refs[i] == x)

func (*Searcher).swapIndexes(s, idx) (err)
  props C10 C11
  requires held(s.lck) == 0 && live(idx)
  requires [not-in-service] $served[refid(idx)] == 0
  modifies s.idx, $served, $dead, $removed
  ensures [installed] s.idx == idx && $served[refid(idx)] == 1 && live(idx)

func (*Searcher).Search(s, pat, opt) (res, err)
  props C09 C10 C11
  requires held(s.lck) == 0
  requires [context] opt.LinesOfContext <= 9223372036854775807
  modifies all(Searcher.idx), $stream, $slen, $rpos, $text, $pos, $more, $ptri, $pix
  ensures err == nil ==> res != nil

func (*Searcher).GetExcludedFiles(s) (r)
  props C09 C10 C11
  requires held(s.lck) == 0
  modifies all(Searcher.idx)

extern io/ioutil.ReadFile(f) (b, err)
  modifies

func (*Searcher).Update(s) (ok)
  props C09 C14
  requires s.Repo != nil && s.updateCh != nil && !closed(s.updateCh)
  modifies chan(s.updateCh)
  option nonblocking
  ensures [enabled] ok <==> pushOn(s.Repo)

func (*Searcher).Stop(s)
  props C14
  requires s.shutdownCh != nil && !closed(s.shutdownCh)
  modifies chan(s.shutdownCh)
  option nonblocking

func (*Searcher).Wait(s)
  props C14
  requires s.doneCh != nil
  modifies chan(s.doneCh)

func (*Searcher).completeShutdown(s)
  props C14
  requires s.doneCh != nil
  requires [once] !closed(s.doneCh)
  modifies closing(s.doneCh)
  ensures [signalled] closed(s.doneCh)

func (*Searcher).waitForUpdate(s, delay)
  props C14
  requires searcherOK(s)
  requires s.updateCh != s.shutdownCh
  requires [running] !s.shutdownRequested
  modifies chan(s.updateCh), chan(s.shutdownCh), s.shutdownRequested, chan(any)
  ensures [noted] s.shutdownRequested <==> recvd(s.shutdownCh) > old(recvd(s.shutdownCh))

func (*Searcher).begin(s)
  props C14
  requires searcherOK(s)
  modifies chan(s.updateCh)
  ensures sent(s.updateCh) == old(sent(s.updateCh)) + 1

extern time.After(d) (c)
  modifies
  ensures c != nil && fresh(c)
extern time.Duration.Nanoseconds(d) (n)
  pure

func nextIndexDir(dbpath) (d)
  props C12
  trusted "random name under the database path; collisions with an existing directory are assumed not to happen"
  modifies

func findExistingRefs(dbpath) (r, err)
  props C12
  modifies
  ensures [found] err == nil ==> r != nil && fresh(r) && refsOK(r) && r.claimed != nil && fresh(r.claimed) && held(r.lock) == 0
  loop 1
    invariant forall i int :: {refs[i]} 0 <= i && i < len(refs) ==> refs[i] != nil

extern path/filepath.Glob(p) (m, err)
  modifies

func buildAndOpenIndex(opt, dbpath, vcsDir, idxDir, url, rev) (idx, err)
  props C10 C13
  requires [slot] $slots >= 1
  modifies
  ensures [opened] err == nil ==> live(idx) && fresh(idx) && $served[refid(idx)] == 0
  ensures [failed] err != nil ==> idx == nil

extern os.Stat(p) (fi, err)
  modifies

func reportOnMemory()
  trusted "prints memory statistics"
  modifies
func vcsDirFor(repo) (s)
  trusted "hex sha1 of the URL behind vcs-"
  modifies

extern runtime.GC()
  modifies

func updateAndReindex(s, dbpath, vcsDir, name, rev, wd, opt, lim) (newRev, ok)
  props C10 C13 C14
  requires searcherOK(s) && lim != nil && !closed(lim) && $slots == 0 && wd.Driver != nil
  requires [stop-first] !s.shutdownRequested
  modifies s.idx, $served, $dead, $removed, chan(lim), $slots
  ensures [slot-returned] $slots == 0 && sent(lim) - recvd(lim) == old(sent(lim) - recvd(lim)) && sent(lim) == old(sent(lim)) + 1
  ensures [kept] !ok ==> newRev == rev && $served == old($served) && $dead == old($dead) && $removed == old($removed) && s.idx == old(s.idx)
  ensures [installed] ok ==> live(s.idx) && $served[refid(s.idx)] == 1 && fresh(s.idx)

func newSearcher(dbpath, name, repo, refs, lim) (s, err)
  props C10 C12 C13 C14
  requires [slot] $slots == 1
  requires repo != nil && lim != nil && !closed(lim) && held(refs.lock) == 0 && refsOK(refs)
  modifies mapof(refs.claimed), $served
  ensures [serving] err == nil ==> s != nil && fresh(s) && searcherOK(s) && s.Repo == repo && fresh(s.updateCh) && live(s.idx) && $served[refid(s.idx)] == 1
  ensures [failed] err != nil ==> s == nil

func newSearcher$1()
  props C10 C13 C14
  requires searcherOK(s) && repo != nil && wd != nil && wd.Driver != nil && opt != nil && lim != nil && !closed(lim) && $slots == 0
  requires s.updateCh != s.shutdownCh && s.doneCh != s.shutdownCh && !closed(s.doneCh) && !s.shutdownRequested && s.Repo == repo
  modifies s.idx, s.shutdownRequested, rev, $served, $dead, $removed, $slots, chan(any), closing(s.doneCh)
  ensures [signalled-once] closed(s.doneCh)
  ensures [by-request] s.shutdownRequested || !pollOn(repo) && !pushOn(repo)
  loop 1
    invariant searcherOK(s) && !s.shutdownRequested && !closed(s.doneCh) && $slots == 0 && !closed(lim)

func newSearcherConcurrent(dbpath, name, repo, refs, lim, resultCh)
  props C10 C12 C13
  requires repo != nil && lim != nil && !closed(lim) && held(refs.lock) == 0 && refsOK(refs) && resultCh != nil && !closed(resultCh) && resultCh != lim && $slots == 0
  modifies mapof(refs.claimed), $served, $slots, chan(lim), chan(resultCh)
  ensures [slot-returned] $slots == 0 && sent(lim) - recvd(lim) == old(sent(lim) - recvd(lim))
  ensures [one-result] sent(resultCh) == old(sent(resultCh)) + 1

chan of searcher.searcherResult (v)
  invariant v.err == nil ==> v.searcher != nil && searcherOK(v.searcher)

func New(dbpath, name, repo) (s, err)
  props C13
  requires $slots == 1 && repo != nil
  modifies $served
  ensures err == nil ==> s != nil

func MakeAll(cfg) (searchers, errs, err)
  props C12 C13
  requires cfg.MaxConcurrentIndexers > 0 && $slots == 0
  requires forall k string :: {cfg.Repos[k]} k in cfg.Repos ==> cfg.Repos[k] != nil
  modifies $removed, $slots, $served, chan(any)
  ensures [serving] err == nil ==> searchers != nil && (forall k string :: {searchers[k]} k in searchers ==> searchers[k] != nil && searcherOK(searchers[k]))
  loop 1
    invariant searchers != nil && fresh(searchers) && errs != nil && fresh(errs) && resultCh != nil && !closed(resultCh) && fresh(resultCh) && lim != nil && !closed(lim) && refsOK(refs) && held(refs.lock) == 0 && fresh(refs) && fresh(refs.claimed) && len(searchers) == 0
  loop 2
    invariant forall k string :: {searchers[k]} k in searchers ==> searchers[k] != nil && searcherOK(searchers[k])
  loop 3
    invariant forall k string :: {searchers[k]} k in searchers ==> searchers[k] != nil && searcherOK(searchers[k])
