# C17: web/web.go
package web

# the answers given to the request at hand: how many, with which status, by which mux
ghostvar $answers int
ghostvar $code int
ghostvar $by ref

monitor Server.lck guards mux

local extern fmt.Fprintln(w, a) (n, err)
  requires w != nil
  modifies $answers, $code, $by
  ensures $answers == old($answers) + 1 && $code == 200 && $by == nil
local extern net/http.Error(w, msg, code)
  requires w != nil
  modifies $answers, $code, $by
  ensures $answers == old($answers) + 1 && $code == code && $by == nil
extern net/http.(*ServeMux).ServeHTTP(m, w, r)
  requires m != nil && w != nil && r != nil
  modifies $answers, $code, $by
  ensures $answers == old($answers) + 1 && $code == 0 && $by == m
extern net/http.(*ServeMux).Handle(m, pattern, h)
  requires m != nil && h != nil
  modifies $paths
  ensures $paths == upd(old($paths), route(m, pattern), 1)
extern net/http.NewServeMux() (m)
  modifies
  ensures m != nil && fresh(m)
extern net/http.ListenAndServe(addr, h) (err)
  modifies

func (*Server).ServeHTTP(s, w, r)
  props C17
  requires w != nil && r != nil && r.URL != nil && s.cfg != nil && held(s.lck) == 0
  modifies $answers, $code, $by, s.mux
  ensures [one-answer] $answers == old($answers) + 1
  ensures [healthy] r.URL.Path == s.cfg.HealthCheckURI ==> $code == 200 && $by == nil
  ensures [not-ready] r.URL.Path != s.cfg.HealthCheckURI && locked(s.mux) == nil ==> $code == 503
  ensures [ready] r.URL.Path != s.cfg.HealthCheckURI && locked(s.mux) != nil ==> $by == locked(s.mux)

func (*Server).serveWith(s, m)
  props C17
  requires held(s.lck) == 0
  requires [complete] m != nil && routed(m) && $paths[route(m, "/")] == 1
  modifies s.mux
  ensures [installed] s.mux == m

func Start(cfg, addr, dev) (s)
  props C17
  requires cfg != nil
  modifies
  ensures [not-ready] s != nil && fresh(s) && s.cfg == cfg && s.mux == nil && s.ch != nil && !closed(s.ch) && held(s.lck) == 0

func Start$1()
  props C17
  requires s != nil && s.cfg != nil && ch != nil && !closed(ch)
  modifies chan(ch)

func (*Server).ServeWithIndex(s, idx) (err)
  props C17
  requires s.cfg != nil && s.ch != nil && held(s.lck) == 0 && allReady(idx)
  modifies s.mux, chan(s.ch), $paths, all(ui.content.tpl)
  ensures [served-on-success] err == nil || s.mux != nil || s.mux == old(s.mux)
