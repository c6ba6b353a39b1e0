# C16 C17: ui/ui.go
package ui

extern ui.renderer.Execute(t, w, data) (err)
  requires [secrets C16] isType(data, "map[string]interface{}") ? cleanMap(unbox(data, "map[string]interface{}")) : public(data, config.SecretMessage, "vcs-config")
  modifies

extern html/template.(*Template).Execute(t, w, data) (err)
  requires [secrets C16] isType(data, "map[string]interface{}") ? cleanMap(unbox(data, "map[string]interface{}")) : public(data, config.SecretMessage, "vcs-config")
  modifies
extern text/template.(*Template).Execute(t, w, data) (err)
  requires [secrets C16] isType(data, "map[string]interface{}") ? cleanMap(unbox(data, "map[string]interface{}")) : public(data, config.SecretMessage, "vcs-config")
  modifies

pred cleanMap(m) = forall k string :: {m[k]} k in m ==> public(m[k], config.SecretMessage, "vcs-config") && (isType(m[k], string) ==> clean(unbox(m[k], string)))

func Asset(name) (a, err)
  trusted "the embedded asset"
  modifies
func AssetInfo(name) (fi, err)
  trusted "the embedded asset"
  modifies
  ensures err == nil ==> fi != nil

extern fmt.Fprintf(w, f, a) (n, err)
  modifies
extern html/template.New(n) (t)
  modifies
  ensures t != nil
extern html/template.(*Template).Parse(t, s) (r, err)
  modifies
  ensures err == nil ==> r != nil
extern html/template.ParseFiles(n) (r, err)
  modifies
  ensures err == nil ==> r != nil
extern text/template.New(n) (t)
  modifies
  ensures t != nil
extern text/template.(*Template).Parse(t, s) (r, err)
  modifies
  ensures err == nil ==> r != nil
extern text/template.ParseFiles(n) (r, err)
  modifies
  ensures err == nil ==> r != nil
extern net/http.NotFound(w, r)
  modifies
extern net/http.ServeContent(w, r, name, t, c)
  modifies
extern net/http.Handler.ServeHTTP(h, w, r)
  modifies
extern io/fs.FileInfo.ModTime(fi) (t)
  pure
extern bytes.NewReader(b) (r)
  modifies
  ensures r != nil
extern net/http.FileServer(d) (h)
  modifies
  ensures h != nil

func renderForDev(w, root, c, cfg, r) (err)
  props C16
  requires w != nil && c != nil && cfg != nil && r != nil
  assumes clean(cfg.Title) && clean(r.Host) && clean(ReactVersion)
  modifies c.tpl

func renderForPrd(w, c, cfg, cfgJson, r) (err)
  props C16
  requires w != nil && c != nil && cfg != nil && r != nil && c.tpl != nil
  requires [clean] clean(cfgJson)
  assumes clean(cfg.Title) && clean(r.Host) && clean(ReactVersion)
  modifies

func (*prdHandler).ServeHTTP(h, w, r)
  props C16
  requires w != nil && r != nil && r.URL != nil && h.cfg != nil && prdOK(h)
  requires [path] len(r.URL.Path) > 0
  modifies

pred prdOK(h) = clean(h.cfgJson) && forall p string :: {h.content[p]} h.content[p] != nil ==> h.content[p].tpl != nil

func newPrdHandler(cfg) (h, err)
  props C16
  requires cfg != nil && (forall p string :: {contents[p]} p in contents ==> contents[p] != nil)
  modifies all(content.tpl)
  ensures [handler] err == nil ==> isType(h, "*ui.prdHandler") && clean(unbox(h, "*ui.prdHandler").cfgJson) && unbox(h, "*ui.prdHandler").cfg == cfg

extern runtime.Caller(skip) (pc, file, line, ok)
  modifies
func assetDir() (dir)
  props C16
  modifies

func newDevHandler(cfg) (h, err)
  props C16
  modifies
  ensures [handler] err == nil && isType(h, "*ui.devHandler") && unbox(h, "*ui.devHandler").cfg == cfg

func (*devHandler).ServeHTTP(h, w, r)
  props C16
  requires w != nil && r != nil && r.URL != nil && h.cfg != nil && h.Handler != nil
  modifies all(content.tpl)

func Content(dev, cfg) (h, err)
  props C16 C17
  requires cfg != nil
  assumes forall p string :: {contents[p]} p in contents ==> contents[p] != nil
  modifies all(content.tpl)
  ensures [handler] err == nil ==> h != nil

extern path/filepath.Abs(p) (a, err)
  modifies
