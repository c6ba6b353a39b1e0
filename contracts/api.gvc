# C08, C09: request parameters and answers (api/api.go)
package api

pred known(idx, k) = idx[k] != nil

func parseAsBool(v) (r)
  props C08
  modifies
  ensures [spellings] r <==> lower(v) == "true" || lower(v) == "1" || lower(v) == "fosho"

func parseAsRepoList(v, idx) (repos)
  props C08 C09
  requires forall k string :: {idx[k]} k in idx ==> idx[k] != nil
  let w = trimmed(v)
  modifies
  ensures [known] forall i int :: {repos[i]} 0 <= i && i < len(repos) ==> known(idx, repos[i])
  ensures [wildcard] w == "*" ==> (forall k string :: {idx[k]} known(idx, k) ==> (exists i int :: {repos[i]} 0 <= i && i < len(repos) && repos[i] == k))
  ensures [named] w != "*" ==> (forall i int :: {repos[i]} 0 <= i && i < len(repos) ==>
|       (exists j int :: {splitAt(w, ",", j)} 0 <= j && j < splitN(w, ",") && splitAt(w, ",", j) == repos[i]))
  ensures [all-named] w != "*" ==> (forall j int :: {splitAt(w, ",", j)} 0 <= j && j < splitN(w, ",") && known(idx, splitAt(w, ",", j)) ==>
|       (exists i int :: {repos[i]} 0 <= i && i < len(repos) && repos[i] == splitAt(w, ",", j)))
  loop 1
    invariant forall i int :: {repos[i]} 0 <= i && i < len(repos) ==> known(idx, repos[i])
    invariant forall k string :: {$visited[k]} $visited[k] ==> (exists i int :: {repos[i]} 0 <= i && i < len(repos) && repos[i] == k)
  loop 2
    invariant forall i int :: {repos[i]} 0 <= i && i < len(repos) ==> known(idx, repos[i]) && (exists j int :: {splitAt(w, ",", j)} 0 <= j && j < $iter && splitAt(w, ",", j) == repos[i])
    invariant forall j int :: {splitAt(w, ",", j)} 0 <= j && j < $iter && known(idx, splitAt(w, ",", j)) ==> (exists i int :: {repos[i]} 0 <= i && i < len(repos) && repos[i] == splitAt(w, ",", j))

func parseAsUintValue(sv, min, max, def) (r)
  props C08
  modifies
  ensures [value] r == (!isUint(sv, 10, 54) ? def : (max != 0 && uintOf(sv, 10) > max ? max : (min != 0 && uintOf(sv, 10) < min ? min : uintOf(sv, 10))))
  ensures [bounds] def <= max && min <= max && max > 0 && min <= def ==> min <= r && r <= max

func parseAsIntValue(sv, min, max, def) (r)
  props C08
  modifies
  ensures [value] r == (!isInt(sv, 10, 64) ? def : (max != 0 && intOf(sv, 10) > max ? max : (min != 0 && intOf(sv, 10) < min ? min : intOf(sv, 10))))
  ensures [bounds] def <= max && min < 0 && max > 0 && min <= def ==> min <= r && r <= max

func parseRangeInt(v, i)
  props C08
  modifies *i
  ensures [value] *i == rangeVal(v)
  ensures [bounds] 0 <= *i && *i < 9223372036854775808

pred rangeVal(v) = (v != "" && isUint(v, 10, 63)) ? uintOf(v, 10) : 0

func parseRangeValue(rv) (b, e)
  props C08
  modifies
  ensures [bounds] 0 <= b && 0 <= e && b < 9223372036854775808 && e < 9223372036854775808
  ensures [value] indexOf(rv, ":") < 0 ==> b == 0 && e == 0
  ensures [value2] indexOf(rv, ":") >= 0 ==> b == rangeVal(str_(rv, 0, indexOf(rv, ":"))) && e == rangeVal(str_(rv, indexOf(rv, ":") + 1, len(rv)))

pred str_(s, i, j) = s[i:j]

# ---------- answers ----------

ghostvar $wrote int
ghostvar $body int
ghostvar $status int
ghostvar $repos []string
function formValue(r *net/http.Request, key string) string

extern net/http.ResponseWriter.Header(w) (h)
  modifies
  ensures h != nil
extern net/http.Header.Set(h, k, v)
  requires h != nil
  modifies
extern net/http.ResponseWriter.WriteHeader(w, code)
  requires [once] $wrote == 0 && $body == 0
  requires [valid] 100 <= code && code <= 999
  modifies $wrote, $status
  ensures $wrote == 1 && $status == code
extern encoding/json.NewEncoder(w) (e)
  modifies
  ensures e != nil
extern encoding/json.(*Encoder).Encode(e, v) (err)
  requires [secrets C16] public(v, config.SecretMessage, "vcs-config")
  requires [once] $body == 0
  modifies $wrote, $status, $body
  ensures err == nil && $body == 1 && $wrote == 1 && $status == (old($wrote) == 0 ? 200 : old($status))
extern fmt.Fprint(w, a) (n, err)
  requires [once] $body == 0
  modifies $wrote, $status, $body
  ensures $body == 1 && $wrote == 1 && $status == (old($wrote) == 0 ? 200 : old($status))
extern net/http.(*Request).FormValue(r, key) (v)
  modifies
  ensures v == formValue(r, key)
# the paths handlers were registered for, by mux
ghostvar $paths map[ref]int
function route(m ref, pattern string) ref

extern net/http.(*ServeMux).HandleFunc(m, pattern, handler)
  modifies $paths
  ensures $paths == upd(old($paths), route(m, pattern), 1)
extern net/http.StatusText(code) (s)
  pure
extern encoding/json.NewDecoder(r) (d)
  modifies
  ensures d != nil
extern time.Time.Sub(t, u) (d)
  pure
extern time.Duration.Seconds(d) (s)
  pure

func writeJson(w, data, status)
  props C09 C16
  requires [secrets C16] public(data, config.SecretMessage, "vcs-config")
  requires w != nil && $wrote == 0 && $body == 0 && 100 <= status && status <= 999
  modifies $wrote, $status, $body
  ensures [one-answer] $wrote == 1 && $body == 1
  ensures [status] $status == status

func writeResp(w, data)
  props C09 C16
  requires [secrets C16] public(data, config.SecretMessage, "vcs-config")
  requires w != nil && $wrote == 0 && $body == 0
  modifies $wrote, $status, $body
  ensures [one-answer] $wrote == 1 && $body == 1 && $status == 200

func writeError(w, err, status)
  props C09 C16
  requires w != nil && err != nil && $wrote == 0 && $body == 0 && 100 <= status && status <= 999
  modifies $wrote, $status, $body
  ensures [one-answer] $wrote == 1 && $body == 1 && $status == status

extern error.Error(err) (s)
  pure

chan of *api.searchResponse (v)
  invariant v != nil && (v.err == nil ==> v.res != nil) && (exists i int :: {$repos[i]} 0 <= i && i < len($repos) && $repos[i] == v.repo)

pred ready(idx, k) = idx[k] != nil && searcherOK(idx[k])
pred allReady(idx) = forall k string :: {idx[k]} k in idx ==> ready(idx, k)

func searchAll$1(repo)
  props C09
  requires opts != nil && ready(idx, repo) && ch != nil && !closed(ch) && opts.LinesOfContext <= 20
  requires exists i int :: {$repos[i]} 0 <= i && i < len($repos) && $repos[i] == repo
  modifies chan(ch), all(searcher.Searcher.idx), $stream, $slen, $rpos, $text, $pos, $more, $ptri, $pix

func searchAll(query, opts, repos, idx, filesOpened, duration) (res, err)
  props C08 C09
  ghost $repos = repos
  requires [effective-options] opts.LinesOfContext <= 20 && opts.Offset >= 0 && opts.Limit >= 0
  requires [known] forall i int :: {repos[i]} 0 <= i && i < len(repos) ==> ready(idx, repos[i])
  modifies *filesOpened, *duration, $repos, all(searcher.Searcher.idx)
  ensures [only-requested] err == nil ==> res != nil && (forall k string :: {res[k]} k in res ==> (exists i int :: {repos[i]} 0 <= i && i < len(repos) && repos[i] == k))
  ensures [with-matches] err == nil ==> (forall k string :: {res[k]} k in res ==> res[k] != nil && res[k].Matches != nil)
  loop 1
    invariant ch != nil && !closed(ch)
  loop 2
    invariant res != nil && fresh(res) && ch != nil
    invariant forall k string :: {res[k]} k in res ==> (exists i int :: {repos[i]} 0 <= i && i < len(repos) && repos[i] == k) && res[k] != nil && res[k].Matches != nil

func Setup(m, idx, defaultMaxResults)
  props C09 C17
  requires allReady(idx)
  modifies $paths
  ensures [routes] routed(m) && (forall x ref :: {$paths[x]} old($paths[x]) == 1 ==> $paths[x] == 1)

pred routed(m) = $paths[route(m, "/api/v1/repos")] == 1 && $paths[route(m, "/api/v1/search")] == 1 && $paths[route(m, "/api/v1/excludes")] == 1 && $paths[route(m, "/api/v1/update")] == 1 && $paths[route(m, "/api/v1/github-webhook")] == 1

func Setup$1(w, r)
  props C09 C16
  requires w != nil && r != nil && $wrote == 0 && $body == 0 && allReady(idx)
  modifies $wrote, $status, $body
  ensures [one-answer] $wrote == 1 && $body == 1 && $status == 200

func Setup$2(w, r)
  props C08 C09 C16
  requires w != nil && r != nil && $wrote == 0 && $body == 0 && allReady(idx)
  requires defaultMaxResults >= 0
  modifies $wrote, $status, $body, $repos, all(searcher.Searcher.idx)
  ensures [one-answer] $wrote == 1 && $body == 1 && $status == 200

func Setup$3(w, r)
  props C09 C16
  requires w != nil && r != nil && $wrote == 0 && $body == 0 && allReady(idx)
  modifies $wrote, $status, $body, all(searcher.Searcher.idx)
  ensures [one-answer] $wrote == 1 && $body == 1
  ensures [not-found] $status == (known(idx, formValue(r, "repo")) ? 200 : 404)

func Setup$4(w, r)
  props C09 C16
  requires w != nil && r != nil && $wrote == 0 && $body == 0 && allReady(idx)
  modifies $wrote, $status, $body, chan(any)
  ensures [one-answer] $wrote == 1 && $body == 1
  ensures [method] r.Method != "POST" <==> $status == 405
  ensures [status] $status == 405 || $status == 403 || $status == 200
  ensures [pushed] $status == 403 ==> (exists k string :: {idx[k]} known(idx, k) && !pushOn(idx[k].Repo))

func Setup$5(w, r)
  props C09 C16
  requires w != nil && r != nil && $wrote == 0 && $body == 0 && allReady(idx)
  modifies $wrote, $status, $body, chan(any)
  ensures [one-answer] $wrote == 1 && $body == 1
  ensures [method] r.Method != "POST" <==> $status == 405
