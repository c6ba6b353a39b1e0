package config

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"testing"
)

func c15Load(file string) (c *Config, err error, crash interface{}) {
	defer func() {
		if r := recover(); r != nil {
			crash = r
		}
	}()
	c = &Config{}
	err = c.LoadFromFile(file)
	return
}

func TestVerifC15(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	dir, err := ioutil.TempDir("", "c15")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	dir, _ = filepath.EvalSymlinks(dir)
	file := filepath.Join(dir, "config.json")
	rounds := 4000
	if vfThorough() {
		rounds = 60000
	}
	some := func() bool { return rng.Intn(2) == 0 }
	vals := []interface{}{"x", "", true, false, 0.0, 7.0, -1.5, nil, []interface{}{"a", 1.0}, map[string]interface{}{"k": "v"}, "sécret<&>\""}
	names := []string{"detect-ref", "ref", "username", "password", "watch-changes", "x", ""}
	opts := func() map[string]interface{} {
		m := map[string]interface{}{}
		for i := rng.Intn(4); i > 0; i-- {
			m[names[rng.Intn(len(names))]] = vals[rng.Intn(len(vals))]
		}
		return m
	}
	evals, distinct := 0, map[string]bool{}
	var samples []string
	for r := 0; r < rounds; r++ {
		doc := map[string]interface{}{}
		title, limit, indexers, health, db := "Hound", 5000, 2, "/healthz", dir
		if some() {
			title = []string{"T", "Hound2", "<b>", "é"}[rng.Intn(4)]
			doc["title"] = title
		} else if some() {
			doc["title"] = ""
		}
		if some() {
			limit = []int{1, -1, 4999, 1 << 40, -7}[rng.Intn(5)]
			doc["result-limit"] = limit
		}
		negative := false
		if some() {
			indexers = []int{1, 2, 3, 1000, -1}[rng.Intn(5)]
			negative = indexers < 0
			doc["max-concurrent-indexers"] = indexers
		}
		if some() {
			health = []string{"/h", "/healthz/x", "h", "/"}[rng.Intn(4)]
			doc["health-check-uri"] = health
		}
		switch rng.Intn(5) {
		case 0:
			doc["dbpath"] = "data"
			db = filepath.Join(dir, "data")
		case 1:
			doc["dbpath"] = "../x/./y"
			db = filepath.Join(filepath.Dir(dir), "x", "y")
		case 2:
			doc["dbpath"] = "/abs/data"
			db = "/abs/data"
		case 3:
			doc["dbpath"] = ""
		}
		kinds := []string{"git", "svn", "hg", "local", "GIT", "nope"}
		global := map[string]map[string]interface{}{}
		if some() {
			g := map[string]interface{}{}
			for i := rng.Intn(4); i > 0; i-- {
				k := kinds[rng.Intn(len(kinds))]
				global[k] = opts()
				g[k] = global[k]
			}
			doc["vcs-config"] = g
		}
		type want struct {
			repo Repo
			opts map[string]interface{} // nil: none
			has  bool
		}
		wants := map[string]want{}
		repos := map[string]interface{}{}
		for i := rng.Intn(5); i > 0; i-- {
			name := []string{"a", "B", "repo c", "é", "", "d/e"}[rng.Intn(6)]
			d := map[string]interface{}{}
			w := Repo{MsBetweenPolls: 30000, Vcs: "git", UrlPattern: &UrlPattern{BaseUrl: "{url}/blob/{rev}/{path}{anchor}", Anchor: "#L{line}"}}
			if some() {
				w.Url = []string{"https://x/y.git", "file:///z", "/"}[rng.Intn(3)]
				d["url"] = w.Url
			}
			if some() {
				w.DisplayName = "name"
				d["display-name"] = w.DisplayName
			}
			if some() {
				w.MsBetweenPolls = []int{1, 30001, 60000, 1 << 33}[rng.Intn(4)]
				d["ms-between-poll"] = w.MsBetweenPolls
			} else if some() {
				d["ms-between-poll"] = 0
			}
			if some() {
				w.Vcs = kinds[rng.Intn(len(kinds))]
				d["vcs"] = w.Vcs
			} else if rng.Intn(4) == 0 {
				d["vcs"] = ""
			}
			if some() {
				p := map[string]interface{}{}
				if some() {
					w.UrlPattern.BaseUrl = "{url}/src/{path}"
					p["base-url"] = w.UrlPattern.BaseUrl
				} else if some() {
					p["base-url"] = ""
				}
				if some() {
					w.UrlPattern.Anchor = "#{filename}-{line}"
					p["anchor"] = w.UrlPattern.Anchor
				}
				d["url-pattern"] = p
			} else if rng.Intn(4) == 0 {
				d["url-pattern"] = nil
			}
			if some() {
				w.ExcludeDotFiles = some()
				d["exclude-dot-files"] = w.ExcludeDotFiles
			}
			if some() {
				b := some()
				w.EnablePollUpdates = &b
				d["enable-poll-updates"] = b
			}
			if some() {
				b := some()
				w.EnablePushUpdates = &b
				d["enable-push-updates"] = b
			}
			if some() {
				w.AutoGeneratedFiles = []string{"a/b", "c"}
				d["auto-generated-files"] = w.AutoGeneratedFiles
			}
			x := want{repo: w}
			if some() {
				x.opts, x.has = opts(), true
				d["vcs-config"] = x.opts
			} else if rng.Intn(4) == 0 {
				d["vcs-config"] = nil
			}
			repos[name] = d
			wants[name] = x
		}
		if len(repos) > 0 || some() {
			doc["repos"] = repos
		}
		text, err := json.Marshal(doc)
		if err != nil {
			t.Fatal(err)
		}
		if r%4 == 3 {
			// broken files: no crash, and nothing half-initialised is accepted
			b := append([]byte{}, text...)
			for i := 1 + rng.Intn(3); i > 0 && len(b) > 0; i-- {
				j := rng.Intn(len(b))
				switch rng.Intn(4) {
				case 0:
					b = append(b[:j], b[j+1:]...)
				case 1:
					b = b[:j]
				case 2:
					b[j] = "{}[]\",:0n"[rng.Intn(9)]
				case 3:
					if k := bytes.IndexByte(b[j:], ':'); k >= 0 {
						b = append(append(append([]byte{}, b[:j+k+1]...), []string{"null,\"q\":", "[],\"q\":", "3,\"q\":", "\"s\",\"q\":", "{},\"q\":"}[rng.Intn(5)]...), b[j+k+1:]...)
					}
				}
			}
			ioutil.WriteFile(file, b, 0600)
			c, err, crash := c15Load(file)
			evals++
			distinct[string(b)] = true
			if crash != nil {
				vfFail(t, "crash", "loading %s crashes: %v", b, crash)
				break
			}
			if err == nil {
				bad := ""
				if c.MaxConcurrentIndexers <= 0 || c.ResultLimit == 0 || c.HealthCheckURI == "" || c.Title == "" || !filepath.IsAbs(c.DbPath) {
					bad = "a top-level default is missing"
				}
				for n, r := range c.Repos {
					if r == nil || r.MsBetweenPolls == 0 || r.Vcs == "" || r.UrlPattern == nil || r.UrlPattern.BaseUrl == "" || r.UrlPattern.Anchor == "" {
						bad = "a default of repository " + n + " is missing"
					}
				}
				if bad != "" {
					vfFail(t, "defaults", "%s is accepted although %s", b, bad)
				}
			}
			continue
		}
		ioutil.WriteFile(file, text, 0600)
		c, err, crash := c15Load(file)
		evals++
		distinct[string(text)] = true
		if len(samples) < 10 && r%300 == 2 {
			samples = append(samples, string(text))
		}
		if crash != nil {
			vfFail(t, "crash", "loading %s crashes: %v", text, crash)
			break
		}
		if negative != (err != nil) {
			vfFail(t, "rejected", "loading %s gives error %v", text, err)
			continue
		}
		if err != nil {
			continue
		}
		bad := func(what string, got, want interface{}) {
			vfFail(t, "value", "%s of %s is %v, expected %v", what, text, got, want)
		}
		if c.Title != title {
			bad("title", c.Title, title)
		}
		if c.ResultLimit != limit {
			bad("result limit", c.ResultLimit, limit)
		}
		if c.MaxConcurrentIndexers != indexers {
			bad("number of indexers", c.MaxConcurrentIndexers, indexers)
		}
		if c.HealthCheckURI != health {
			bad("health check path", c.HealthCheckURI, health)
		}
		if c.DbPath != db {
			bad("dbpath", c.DbPath, db)
		}
		if len(c.Repos) != len(wants) {
			bad("number of repositories", len(c.Repos), len(wants))
		}
		for n, w := range wants {
			g := c.Repos[n]
			if g == nil {
				bad("repository "+n, nil, w.repo)
				continue
			}
			poll := w.repo.EnablePollUpdates == nil || *w.repo.EnablePollUpdates
			push := w.repo.EnablePushUpdates != nil && *w.repo.EnablePushUpdates
			if g.PollUpdatesEnabled() != poll {
				bad("polling of "+n, g.PollUpdatesEnabled(), poll)
			}
			if g.PushUpdatesEnabled() != push {
				bad("pushing to "+n, g.PushUpdatesEnabled(), push)
			}
			cmp := *g
			cmp.VcsConfigMessage = nil
			if !reflect.DeepEqual(cmp, w.repo) {
				a, _ := json.Marshal(cmp)
				b, _ := json.Marshal(w.repo)
				bad("repository "+n, string(a), string(b))
			}
			wo, has := map[string]interface{}{}, w.has
			for k, v := range w.opts {
				wo[k] = v
			}
			if gl, ok := global[w.repo.Vcs]; ok {
				has = true
				for k, v := range gl {
					if _, ok := wo[k]; !ok {
						wo[k] = v
					}
				}
			}
			var go_ map[string]interface{}
			if b := g.VcsConfig(); len(b) > 0 {
				if err := json.Unmarshal(b, &go_); err != nil {
					bad("vcs-config of "+n, string(b), wo)
					continue
				}
			}
			if (go_ != nil) != has || len(go_) != len(wo) || len(wo) > 0 && !reflect.DeepEqual(go_, wo) {
				bad("vcs-config of "+n, fmt.Sprint(go_), wo)
			}
		}
		if t.Failed() {
			break
		}
	}
	// files that cannot be read
	for _, f := range []string{filepath.Join(dir, "none"), dir} {
		if _, err, crash := c15Load(f); err == nil || crash != nil {
			vfFail(t, "unreadable", "loading %s gives error %v, crash %v", f, err, crash)
		}
	}
	ioutil.WriteFile(file, nil, 0600)
	if _, err, crash := c15Load(file); err == nil || crash != nil {
		vfFail(t, "unreadable", "loading an empty file gives error %v, crash %v", err, crash)
	}
	// inconsistent files: rejected with an error
	for _, text := range []string{
		`{"repos":{"a":null}}`,
		`{"repos":{"b":{"url":"u"},"a":null},"vcs-config":{"git":{"x":1}}}`,
		`{"repos":{"a":{"url":"u"}},"vcs-config":{"git":null}}`,
		`{"repos":{"a":{"url":"u"}},"vcs-config":{"git":{"x":1},"hg":null}}`,
		`{"repos":{"a":{"url":"u"}},"vcs-config":{"git":3}}`,
		`{"repos":{"a":{"url":"u"}},"vcs-config":{"hg":["x"]}}`,
		`{"repos":{"a":{"url":"u"}},"vcs-config":{"git":"s"}}`,
		`{"repos":{"a":{"url":"u","vcs-config":3}},"vcs-config":{"git":{"x":1}}}`,
		`{"repos":{"a":{"url":"u","vcs-config":["x"]}},"vcs-config":{"git":{"x":1}}}`,
		`{"repos":{"a":{"url":"u","vcs-config":"s"}},"vcs-config":{"git":{"x":1}}}`,
		`{"repos":{"a":{"url":3}}}`,
		`{"repos":["a"]}`,
		`{"repos":{"a":{"url":"u"}}`,
		`[]`,
		`"s"`,
	} {
		ioutil.WriteFile(file, []byte(text), 0600)
		evals++
		distinct[text] = true
		if _, err, crash := c15Load(file); err == nil || crash != nil {
			vfFail(t, "inconsistent", "loading %s gives error %v, crash %v", text, err, crash)
		}
	}
	vfStat(evals, len(distinct), "generated configuration files: loaded and compared setting by setting with what the file gives; one in four is damaged and must be rejected or completely filled in, without a crash", samples)
}
