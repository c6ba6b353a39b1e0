# C15 C16: config/config.go
package config

func optionToBool(val, def) (r)
  props C08 C14 C15
  nilable val
  pure
  ensures r == (val == nil ? def : *val)

func (*Repo).PollUpdatesEnabled(r) (b)
  props C14 C15
  pure
  ensures b == pollOn(r)

func (*Repo).PushUpdatesEnabled(r) (b)
  props C09 C14 C15
  pure
  ensures b == pushOn(r)

pred pollOn(r) = r.EnablePollUpdates == nil || *r.EnablePollUpdates
pred pushOn(r) = r.EnablePushUpdates != nil && *r.EnablePushUpdates

# JSON objects: which names a document gives, and what (decoded) values; the document null
function jhas(doc string, k string) bool
function jval(doc string, k string) iface
function jnull(doc string) bool

local extern encoding/json.Unmarshal(data, v) (err)
  ensures err == nil && isType(v, "*map[string]interface{}") ==> (*unbox(v, "*map[string]interface{}") == nil <==> jnull(str(data)))
  ensures err == nil && isType(v, "*map[string]interface{}") ==> (forall k string :: {jhas(str(data), k)} {dom(*unbox(v, "*map[string]interface{}"))[k]} (jhas(str(data), k) <==> k in *unbox(v, "*map[string]interface{}")) && (jhas(str(data), k) ==> jval(str(data), k) == (*unbox(v, "*map[string]interface{}"))[k]))

extern encoding/json.Marshal(v) (b, err)
  modifies
  ensures err == nil ==> fresh(b) && len(b) > 0
  ensures err == nil && isType(v, "*map[string]interface{}") ==> (jnull(str(b)) <==> *unbox(v, "*map[string]interface{}") == nil)
  ensures err == nil && isType(v, "*map[string]interface{}") ==> (forall k string :: {jhas(str(b), k)} (jhas(str(b), k) <==> k in *unbox(v, "*map[string]interface{}")) && (jhas(str(b), k) ==> jval(str(b), k) == (*unbox(v, "*map[string]interface{}"))[k]))
  ensures [secrets C16] err == nil && public(v, config.SecretMessage, "vcs-config") ==> clean(str(b))

# text that holds no vcs-config option
function clean(s string) bool

# what the JSON decoder makes of a configuration: objects of their own, and no null as options
local extern encoding/json.(*Decoder).Decode(d, v) (err)
  ensures isType(v, "*config.Config") ==> ownRepos(unbox(v, "*config.Config")) && ownPatterns(unbox(v, "*config.Config")) && newRepos(unbox(v, "*config.Config")) && noNull(unbox(v, "*config.Config"))

pred ownRepos(c) = forall m, n string :: {c.Repos[m], c.Repos[n]} m != n && c.Repos[m] != nil ==> c.Repos[m] != c.Repos[n]
pred ownPatterns(c) = forall m, n string :: {c.Repos[m], c.Repos[n]} m != n && c.Repos[m] != nil && c.Repos[n] != nil && c.Repos[m].UrlPattern != nil ==> c.Repos[m].UrlPattern != c.Repos[n].UrlPattern
pred newRepos(c) = forall n string :: {c.Repos[n]} c.Repos[n] != nil ==> fresh(c.Repos[n]) && allocated(c.Repos[n]) && (c.Repos[n].UrlPattern == nil || fresh(c.Repos[n].UrlPattern) && allocated(c.Repos[n].UrlPattern))
pred noNull(c) = forall n string :: {c.Repos[n]} c.Repos[n] != nil && c.Repos[n].VcsConfigMessage != nil ==> !jnull(str(*c.Repos[n].VcsConfigMessage))
pred present(c) = forall n string :: {c.Repos[n]} n in c.Repos ==> c.Repos[n] != nil

# the option k is set by the options m
pred has(m, k) = m != nil && len(*m) > 0 && jhas(str(*m), k)
pred val(m, k) = jval(str(*m), k)

func (*SecretMessage).MarshalJSON(s) (b, err)
  props C16
  nilable s
  modifies
  ensures [empty-object] err == nil && str(b) == "{}"

func (*SecretMessage).UnmarshalJSON(s, b) (err)
  props C16
  modifies *s, elems(*s)
  ensures [kept] err == nil ==> str(*s) == old(str(b))
  ensures [accepted] old(b) != nil ==> err == nil

func (*Repo).VcsConfig(r) (b)
  props C15 C16 C20
  pure
  ensures [own-options] r.VcsConfigMessage == nil ? b == nil : b == *r.VcsConfigMessage

func initRepo(r)
  props C15
  modifies r.MsBetweenPolls, r.Vcs, r.UrlPattern, r.UrlPattern.BaseUrl, r.UrlPattern.Anchor
  ensures [poll] r.MsBetweenPolls == (old(r.MsBetweenPolls) == 0 ? 30000 : old(r.MsBetweenPolls))
  ensures [vcs] r.Vcs == (old(r.Vcs) == "" ? "git" : old(r.Vcs))
  ensures [pattern] r.UrlPattern != nil && (old(r.UrlPattern) == nil ? fresh(r.UrlPattern) : r.UrlPattern == old(r.UrlPattern))
  ensures [url] r.UrlPattern.BaseUrl == (old(r.UrlPattern) == nil || old(r.UrlPattern.BaseUrl) == "" ? "{url}/blob/{rev}/{path}{anchor}" : old(r.UrlPattern.BaseUrl))
  ensures [anchor] r.UrlPattern.Anchor == (old(r.UrlPattern) == nil || old(r.UrlPattern.Anchor) == "" ? "#L{line}" : old(r.UrlPattern.Anchor))

pred globals(c, v) = len(c.VCSConfigMessages) > 0 && v in c.VCSConfigMessages

func mergeVCSConfigs(cfg) (err)
  props C15
  requires present(cfg) && ownRepos(cfg) && noNull(cfg)
  modifies all(Repo.VcsConfigMessage)
  ensures [null-rejected] err == nil ==> (forall v string :: {cfg.VCSConfigMessages[v]} v in cfg.VCSConfigMessages ==> cfg.VCSConfigMessages[v] != nil)
  ensures [untouched] err == nil ==> (forall n string :: {cfg.Repos[n]} n in cfg.Repos && !globals(cfg, cfg.Repos[n].Vcs) ==> cfg.Repos[n].VcsConfigMessage == old(cfg.Repos[n].VcsConfigMessage))
  ensures [options] err == nil ==> (forall n, k string :: {cfg.Repos[n], jhas(str(*cfg.Repos[n].VcsConfigMessage), k)} n in cfg.Repos && globals(cfg, cfg.Repos[n].Vcs) ==>
|       (has(cfg.Repos[n].VcsConfigMessage, k) <==> old(has(cfg.Repos[n].VcsConfigMessage, k)) || jhas(str(*cfg.VCSConfigMessages[cfg.Repos[n].Vcs]), k)))
  ensures [values] err == nil ==> (forall n, k string :: {cfg.Repos[n], jhas(str(*cfg.Repos[n].VcsConfigMessage), k)} n in cfg.Repos && globals(cfg, cfg.Repos[n].Vcs) && has(cfg.Repos[n].VcsConfigMessage, k) ==>
|       val(cfg.Repos[n].VcsConfigMessage, k) == (old(has(cfg.Repos[n].VcsConfigMessage, k)) ? old(val(cfg.Repos[n].VcsConfigMessage, k)) : jval(str(*cfg.VCSConfigMessages[cfg.Repos[n].Vcs]), k)))
  loop 1
    invariant globalConfigVals != nil && fresh(globalConfigVals)
    invariant forall v string :: {$visited[v]} {globalConfigVals[v]} v in globalConfigVals <==> $visited[v]
    invariant forall v string :: {globalConfigVals[v]} v in globalConfigVals ==> cfg.VCSConfigMessages[v] != nil && (globalConfigVals[v] == nil || fresh(globalConfigVals[v]) && allocated(globalConfigVals[v]))
    invariant forall v, k string :: {globalConfigVals[v], jhas(str(*cfg.VCSConfigMessages[v]), k)} {globalConfigVals[v], dom(globalConfigVals[v])[k]} v in globalConfigVals ==> (jhas(str(*cfg.VCSConfigMessages[v]), k) <==> k in globalConfigVals[v]) && (k in globalConfigVals[v] ==> globalConfigVals[v][k] == jval(str(*cfg.VCSConfigMessages[v]), k))
  loop 2
    invariant forall v string :: {globalConfigVals[v]} v in globalConfigVals <==> v in cfg.VCSConfigMessages
    invariant forall v string :: {globalConfigVals[v]} v in globalConfigVals ==> cfg.VCSConfigMessages[v] != nil && (globalConfigVals[v] == nil || fresh(globalConfigVals[v]) && allocated(globalConfigVals[v]))
    invariant forall v, k string :: {globalConfigVals[v], jhas(str(*cfg.VCSConfigMessages[v]), k)} {globalConfigVals[v], dom(globalConfigVals[v])[k]} v in globalConfigVals ==> (jhas(str(*cfg.VCSConfigMessages[v]), k) <==> k in globalConfigVals[v]) && (k in globalConfigVals[v] ==> globalConfigVals[v][k] == jval(str(*cfg.VCSConfigMessages[v]), k))
    invariant forall n string :: {cfg.Repos[n]} n in cfg.Repos && (!$visited[n] || !globals(cfg, cfg.Repos[n].Vcs)) ==> cfg.Repos[n].VcsConfigMessage == old(cfg.Repos[n].VcsConfigMessage)
    invariant forall n, k string :: {cfg.Repos[n], jhas(str(*cfg.Repos[n].VcsConfigMessage), k)} n in cfg.Repos && $visited[n] && globals(cfg, cfg.Repos[n].Vcs) ==>
|       (has(cfg.Repos[n].VcsConfigMessage, k) <==> old(has(cfg.Repos[n].VcsConfigMessage, k)) || jhas(str(*cfg.VCSConfigMessages[cfg.Repos[n].Vcs]), k))
    invariant forall n, k string :: {cfg.Repos[n], jhas(str(*cfg.Repos[n].VcsConfigMessage), k)} n in cfg.Repos && $visited[n] && globals(cfg, cfg.Repos[n].Vcs) && has(cfg.Repos[n].VcsConfigMessage, k) ==>
|       val(cfg.Repos[n].VcsConfigMessage, k) == (old(has(cfg.Repos[n].VcsConfigMessage, k)) ? old(val(cfg.Repos[n].VcsConfigMessage, k)) : jval(str(*cfg.VCSConfigMessages[cfg.Repos[n].Vcs]), k))
  loop 3
    modifies mapof(repoVals)
    invariant repoVals != nil
    invariant forall k string :: {$visited[k]} $visited[k] ==> k in globalVals
    invariant forall k string :: {dom(repoVals)[k]} {$visited[k]} k in repoVals <==> pre(k in repoVals) || $visited[k]
    invariant forall k string :: {repoVals[k]} {dom(repoVals)[k]} k in repoVals ==> repoVals[k] == (pre(k in repoVals) ? pre(repoVals[k]) : globalVals[k])

func initConfig(c) (err)
  props C15
  requires present(c) && ownRepos(c) && noNull(c)
  modifies c.MaxConcurrentIndexers, c.HealthCheckURI, c.ResultLimit, all(Repo.VcsConfigMessage)
  ensures [indexers] err == nil ==> c.MaxConcurrentIndexers == (old(c.MaxConcurrentIndexers) == 0 ? 2 : old(c.MaxConcurrentIndexers)) && c.MaxConcurrentIndexers > 0
  ensures [negative-rejected] old(c.MaxConcurrentIndexers) < 0 ==> err != nil
  ensures [health] err == nil ==> c.HealthCheckURI == (old(c.HealthCheckURI) == "" ? "/healthz" : old(c.HealthCheckURI))
  ensures [limit] err == nil ==> c.ResultLimit == (old(c.ResultLimit) == 0 ? 5000 : old(c.ResultLimit))
  ensures [null-rejected] err == nil ==> (forall v string :: {c.VCSConfigMessages[v]} v in c.VCSConfigMessages ==> c.VCSConfigMessages[v] != nil)
  ensures [untouched] err == nil ==> (forall n string :: {c.Repos[n]} n in c.Repos && !globals(c, c.Repos[n].Vcs) ==> c.Repos[n].VcsConfigMessage == old(c.Repos[n].VcsConfigMessage))
  ensures [options] err == nil ==> (forall n, k string :: {c.Repos[n], jhas(str(*c.Repos[n].VcsConfigMessage), k)} n in c.Repos && globals(c, c.Repos[n].Vcs) ==>
|       (has(c.Repos[n].VcsConfigMessage, k) <==> old(has(c.Repos[n].VcsConfigMessage, k)) || jhas(str(*c.VCSConfigMessages[c.Repos[n].Vcs]), k)))
  ensures [values] err == nil ==> (forall n, k string :: {c.Repos[n], jhas(str(*c.Repos[n].VcsConfigMessage), k)} n in c.Repos && globals(c, c.Repos[n].Vcs) && has(c.Repos[n].VcsConfigMessage, k) ==>
|       val(c.Repos[n].VcsConfigMessage, k) == (old(has(c.Repos[n].VcsConfigMessage, k)) ? old(val(c.Repos[n].VcsConfigMessage, k)) : jval(str(*c.VCSConfigMessages[c.Repos[n].Vcs]), k)))

function isAbs(p string) bool
function absOf(p string) string
function joined(a, b string) string
function dirOf(p string) string

extern path/filepath.IsAbs(p) (r)
  pure
  ensures r == isAbs(p)
local extern path/filepath.Abs(p) (r, err)
  modifies
  ensures err == nil ==> isAbs(r) && r == absOf(p)
extern path/filepath.Dir(p) (r)
  pure
  ensures r == dirOf(p)
local extern path/filepath.Join(elem) (r)
  modifies
  ensures len(elem) == 2 ==> r == joined(elem[0], elem[1])

# the repository r after loading, against what the file gave
pred filled(r) = r.MsBetweenPolls == (decoded(r.MsBetweenPolls) == 0 ? 30000 : decoded(r.MsBetweenPolls))
|   && r.Vcs == (decoded(r.Vcs) == "" ? "git" : decoded(r.Vcs))
|   && r.UrlPattern != nil
|   && r.UrlPattern.BaseUrl == (decoded(r.UrlPattern) == nil || decoded(r.UrlPattern.BaseUrl) == "" ? "{url}/blob/{rev}/{path}{anchor}" : decoded(r.UrlPattern.BaseUrl))
|   && r.UrlPattern.Anchor == (decoded(r.UrlPattern) == nil || decoded(r.UrlPattern.Anchor) == "" ? "#L{line}" : decoded(r.UrlPattern.Anchor))
pred asGiven(r) = r.MsBetweenPolls == decoded(r.MsBetweenPolls) && r.Vcs == decoded(r.Vcs) && r.UrlPattern == decoded(r.UrlPattern)
|   && (r.UrlPattern != nil ==> r.UrlPattern.BaseUrl == decoded(r.UrlPattern.BaseUrl) && r.UrlPattern.Anchor == decoded(r.UrlPattern.Anchor))
pred kept(r) = r.Url == decoded(r.Url) && r.DisplayName == decoded(r.DisplayName) && r.ExcludeDotFiles == decoded(r.ExcludeDotFiles) && r.EnablePollUpdates == decoded(r.EnablePollUpdates)
|   && r.EnablePushUpdates == decoded(r.EnablePushUpdates) && r.AutoGeneratedFiles == decoded(r.AutoGeneratedFiles)

func (*Config).LoadFromFile(c, filename) (err)
  props C15
  requires c.Repos == nil && c.VCSConfigMessages == nil
  modifies c.DbPath, c.Title, c.Repos, c.MaxConcurrentIndexers, c.HealthCheckURI, c.VCSConfigMessages, c.ResultLimit, all(Repo.VcsConfigMessage)
  ensures [title] err == nil ==> c.Title == (decoded(c.Title) == "" ? "Hound" : decoded(c.Title))
  ensures [dbpath] err == nil ==> isAbs(c.DbPath) && c.DbPath == (isAbs(decoded(c.DbPath)) ? decoded(c.DbPath) : absOf(joined(dirOf(filename), decoded(c.DbPath))))
  ensures [indexers] err == nil ==> c.MaxConcurrentIndexers == (decoded(c.MaxConcurrentIndexers) == 0 ? 2 : decoded(c.MaxConcurrentIndexers)) && c.MaxConcurrentIndexers > 0
  ensures [health] err == nil ==> c.HealthCheckURI == (decoded(c.HealthCheckURI) == "" ? "/healthz" : decoded(c.HealthCheckURI))
  ensures [limit] err == nil ==> c.ResultLimit == (decoded(c.ResultLimit) == 0 ? 5000 : decoded(c.ResultLimit))
  ensures [repos] err == nil ==> c.Repos == decoded(c.Repos) && present(c)
  ensures [repo-defaults] err == nil ==> (forall n string :: {c.Repos[n]} n in c.Repos ==> filled(c.Repos[n]) && kept(c.Repos[n]))
  ensures [own-options] err == nil ==> (forall n string :: {c.Repos[n]} n in c.Repos && !globals(c, c.Repos[n].Vcs) ==> c.Repos[n].VcsConfigMessage == decoded(c.Repos[n].VcsConfigMessage))
  ensures [options] err == nil ==> (forall n, k string :: {c.Repos[n], jhas(str(*c.Repos[n].VcsConfigMessage), k)} n in c.Repos && globals(c, c.Repos[n].Vcs) ==>
|       (has(c.Repos[n].VcsConfigMessage, k) <==> decoded(has(c.Repos[n].VcsConfigMessage, k)) || jhas(str(*c.VCSConfigMessages[c.Repos[n].Vcs]), k)))
  loop 1
    invariant forall n string :: {c.Repos[n]} $visited[n] ==> c.Repos[n] != nil && filled(c.Repos[n])
    invariant forall n string :: {c.Repos[n]} n in c.Repos && c.Repos[n] != nil && !$visited[n] ==> asGiven(c.Repos[n])
    invariant forall n string :: {c.Repos[n]} n in c.Repos && c.Repos[n] != nil ==> kept(c.Repos[n]) && c.Repos[n].VcsConfigMessage == decoded(c.Repos[n].VcsConfigMessage)
    invariant ownPatterns(c)
    invariant newRepos(c)

func (*Config).ToJsonString(c) (s, err)
  props C16
  modifies
  ensures [no-secrets] err == nil ==> clean(s)
