package api

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
)

// c09Writer records what a handler does with its response.
type c09Writer struct {
	h        http.Header
	statuses []int
	body     bytes.Buffer
	late     bool
}

func (w *c09Writer) Header() http.Header { return w.h }
func (w *c09Writer) WriteHeader(n int) {
	if w.body.Len() > 0 {
		w.late = true
	}
	w.statuses = append(w.statuses, n)
}
func (w *c09Writer) Write(b []byte) (int, error) {
	if len(w.statuses) == 0 {
		w.statuses = append(w.statuses, 200)
	}
	return w.body.Write(b)
}

type c09Body struct {
	io.Reader
	err error
}

func (b *c09Body) Read(p []byte) (int, error) {
	n, e := b.Reader.Read(p)
	if e == io.EOF && b.err != nil {
		e = b.err
	}
	return n, e
}

func TestVerifC09(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	dir, err := ioutil.TempDir("", "c09")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	cfg := &config.Config{DbPath: dir, MaxConcurrentIndexers: 4, Repos: map[string]*config.Repo{}}
	fakes := map[string]*vfRepo{}
	yes := true
	push := map[string]bool{"a/pushed": true, "b/pushed": true, "c/quiet": false, "d\"quoted": false, "é/ünïcode": true, "broken": false}
	var names []string
	for n, p := range push {
		fs := map[string]string{"x.txt": "common\nonly " + n + "\n", "bin": "\x00\xff\xfe binary", "y.txt": "other <b>&\n"}
		if n == "c/quiet" {
			fs["q.txt"] = "quietword\n"
		}
		if n == "broken" {
			fs["gone.txt"] = "vanished\n"
		}
		f, r := vfNew("fake://c09/"+n, "rev-"+n, fs)
		if p {
			r.EnablePushUpdates = &yes
		}
		fakes[n], cfg.Repos[n] = f, r
		names = append(names, n)
	}
	sort.Strings(names)
	idx, errs, err := searcher.MakeAll(cfg)
	if err != nil || len(idx) != len(names) {
		t.Fatalf("VERIF-FAIL key=setup cannot set up the searchers: %v %v", err, errs)
	}
	// make one repository fail while searching: its stored text is gone
	gone, _ := filepath.Glob(filepath.Join(dir, "idx-*", "raw", "gone.txt"))
	for _, g := range gone {
		os.Remove(g)
	}
	m := http.NewServeMux()
	Setup(m, idx, 100)
	evals := 0
	distinct := map[string]bool{}
	var samples []string

	do := func(method, target, ctype string, body io.Reader) (w *c09Writer, val interface{}, ok bool) {
		evals++
		desc := method + " " + target
		distinct[desc] = true
		if len(samples) < 12 && evals%11 == 1 {
			samples = append(samples, desc)
		}
		w = &c09Writer{h: http.Header{}}
		req := httptest.NewRequest(method, target, body)
		if ctype != "" {
			req.Header.Set("Content-Type", ctype)
		}
		done := make(chan interface{}, 1)
		go func() {
			defer func() { done <- recover() }()
			m.ServeHTTP(w, req)
		}()
		select {
		case p := <-done:
			if p != nil {
				vfFail(t, "crash", "%s: handler crashed: %v", desc, p)
				return w, nil, false
			}
		case <-time.After(20 * time.Second):
			vfFail(t, "hang", "%s: no answer within 20 s", desc)
			return w, nil, false
		}
		if len(w.statuses) != 1 || w.late {
			vfFail(t, "answers", "%s: status written %v times %v", desc, len(w.statuses), w.statuses)
			return w, nil, false
		}
		d := json.NewDecoder(bytes.NewReader(w.body.Bytes()))
		if err := d.Decode(&val); err != nil {
			vfFail(t, "json", "%s: answer is not JSON: %v: %q", desc, err, w.body.String())
			return w, nil, false
		}
		var rest interface{}
		if err := d.Decode(&rest); err != io.EOF {
			vfFail(t, "answers", "%s: more than one JSON value: %q", desc, w.body.String())
			return w, nil, false
		}
		if ct := w.h.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
			vfFail(t, "type", "%s: content type %q", desc, ct)
		}
		return w, val, true
	}
	expect := func(method, target, ctype string, body io.Reader, status int) (interface{}, bool) {
		w, v, ok := do(method, target, ctype, body)
		if !ok {
			return v, false
		}
		if w.statuses[0] != status {
			vfFail(t, "status", "%s %s: status %d, expected %d (%s)", method, target, w.statuses[0], status, w.body.String())
			return v, false
		}
		if status >= 400 {
			mm, _ := v.(map[string]interface{})
			if s, _ := mm["Error"].(string); s == "" {
				vfFail(t, "error-body", "%s %s: error answer without a reason: %s", method, target, w.body.String())
			}
		}
		return v, true
	}

	// repositories
	if v, ok := expect("GET", "/api/v1/repos", "", nil, 200); ok {
		mm, _ := v.(map[string]interface{})
		if len(mm) != len(names) {
			vfFail(t, "repos", "lists %d repositories, expected %d", len(mm), len(names))
		}
		for _, n := range names {
			if mm[n] == nil {
				vfFail(t, "repos", "%s is missing", n)
			}
		}
	}

	// searches: exactly the requested repositories that had matches
	has := func(n, q string) bool {
		switch q {
		case "common":
			return true
		case "quietword":
			return n == "c/quiet"
		case "pushed":
			return n == "a/pushed" || n == "b/pushed"
		}
		return false
	}
	good := []string{}
	for _, n := range names {
		if n != "broken" {
			good = append(good, n)
		}
	}
	for i := 0; i < 120; i++ {
		var req []string
		want := map[string]bool{}
		q := []string{"common", "quietword", "pushed", "nothere"}[rng.Intn(4)]
		for j := rng.Intn(5); j >= 0; j-- {
			n := append(good, "unknown")[rng.Intn(len(good)+1)]
			req = append(req, n)
			if n != "unknown" && has(n, q) {
				want[n] = true
			}
		}
		target := "/api/v1/search?" + url.Values{"q": {q}, "repos": {strings.Join(req, ",")}}.Encode()
		v, ok := expect("GET", target, "", nil, 200)
		if !ok {
			continue
		}
		mm, _ := v.(map[string]interface{})
		res, isMap := mm["Results"].(map[string]interface{})
		if !isMap || mm["Error"] != nil {
			vfFail(t, "results", "%s: no results object: %v", target, v)
			continue
		}
		for n := range want {
			if res[n] == nil {
				vfFail(t, "results", "%s: no results for %s", target, n)
			}
		}
		for n, x := range res {
			if !want[n] {
				vfFail(t, "results", "%s: unexpected results for %s", target, n)
			}
			r, _ := x.(map[string]interface{})
			if r["Revision"] != "rev-"+n {
				vfFail(t, "results", "%s: results of %s carry revision %v", target, n, r["Revision"])
			}
		}
	}
	// failing searches answer with an error body, whichever repository fails
	for _, bad := range []url.Values{
		{"q": {"("}, "repos": {"*"}}, {"q": {"[a"}, "repos": {"a/pushed"}}, {"q": {"common"}, "repos": {"*"}, "files": {"("}},
		{"q": {"common"}, "repos": {"*"}, "excludeFiles": {"*"}}, {"q": {"vanished"}, "repos": {"broken"}}, {"q": {"vanished"}, "repos": {"*"}},
		{"q": {"vanished"}, "repos": {"a/pushed,broken,c/quiet"}}, {"q": {"vanished"}, "repos": {"broken,broken"}, "stats": {"1"}}} {
		target := "/api/v1/search?" + bad.Encode()
		w, v, ok := do("GET", target, "", nil)
		if !ok {
			continue
		}
		mm, _ := v.(map[string]interface{})
		if s, _ := mm["Error"].(string); s == "" || mm["Results"] != nil {
			vfFail(t, "search-error", "%s: a failing search answered %s", target, w.body.String())
		}
	}

	// excludes
	for _, n := range names {
		v, ok := expect("GET", "/api/v1/excludes?repo="+url.QueryEscape(n), "", nil, 200)
		if !ok {
			continue
		}
		l, isList := v.([]interface{})
		if !isList || len(l) != 1 {
			vfFail(t, "excludes", "%s: %v", n, v)
			continue
		}
		f, _ := l[0].(map[string]interface{})
		if f["Filename"] != "bin" || f["Reason"] == "" {
			vfFail(t, "excludes", "%s: %v", n, v)
		}
	}
	for _, n := range []string{"", "unknown", "*", "a/pushed,b/pushed", "A/pushed"} {
		expect("GET", "/api/v1/excludes?repo="+url.QueryEscape(n), "", nil, 404)
	}

	// updates
	for _, meth := range []string{"GET", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS", "post"} {
		for _, ep := range []string{"/api/v1/update?repos=a/pushed", "/api/v1/update", "/api/v1/github-webhook"} {
			expect(meth, ep, "", strings.NewReader(`{"repository":{"full_name":"a/pushed"}}`), 405)
		}
	}
	for i := 0; i < 60; i++ {
		var req []string
		status := 200
		for j := rng.Intn(4); j >= 0; j-- {
			n := append(names, "unknown", "")[rng.Intn(len(names)+2)]
			req = append(req, n)
			if p, known := push[n]; known && !p {
				status = 403
			}
		}
		l := strings.Join(req, ",")
		if i == 0 {
			l, status = "*", 403
		}
		expect("POST", "/api/v1/update?repos="+url.QueryEscape(l), "", nil, status)
		expect("POST", "/api/v1/update", "application/x-www-form-urlencoded", strings.NewReader("repos="+url.QueryEscape(l)), status)
	}
	// an accepted update reaches the repository it names
	settle := func(n string) int {
		last, since := -1, time.Now()
		for time.Since(since) < 60*time.Millisecond {
			_, p := fakes[n].counts()
			if p != last {
				last, since = p, time.Now()
			}
			time.Sleep(5 * time.Millisecond)
		}
		return last
	}
	reach := func(n string, call func()) {
		before := settle(n)
		call()
		if !vfUntil(15*time.Second, func() bool { _, p := fakes[n].counts(); return p > before }) {
			vfFail(t, "update-lost", "an accepted update of %s never pulled it", n)
		}
	}
	for _, n := range []string{"a/pushed", "b/pushed", "é/ünïcode"} {
		n := n
		reach(n, func() { expect("POST", "/api/v1/update?repos="+url.QueryEscape(n), "", nil, 200) })
		b, _ := json.Marshal(map[string]interface{}{"repository": map[string]string{"full_name": n, "name": "x"}})
		reach(n, func() { expect("POST", "/api/v1/github-webhook", "application/json", bytes.NewReader(b), 200) })
	}
	reach("b/pushed", func() { expect("POST", "/api/v1/update?repos=unknown,a/pushed,b/pushed", "", nil, 200) })
	for _, n := range []string{"c/quiet", "d\"quoted"} {
		if _, p := fakes[n].counts(); p != 0 {
			vfFail(t, "update-forbidden", "%s was updated although push updates are disabled", n)
		}
	}

	// webhook bodies
	hook := func(body string, rerr error, status int) {
		expect("POST", "/api/v1/github-webhook", "application/json", &c09Body{strings.NewReader(body), rerr}, status)
	}
	for _, n := range names {
		b, _ := json.Marshal(map[string]interface{}{"zen": 1, "repository": map[string]interface{}{"id": 5, "full_name": n}})
		st := 200
		if !push[n] {
			st = 403
		}
		hook(string(b), nil, st)
	}
	for _, b := range []string{`{}`, `{"repository":{}}`, `{"repository":null}`, `null`, `{"repository":{"full_name":"nope"}}`, `{"repository":{"full_name":"*"}}`, `{"repository":{"name":"a/pushed"}}`, `{"repository":{"full_name":null}}`} {
		hook(b, nil, 404)
	}
	for _, b := range []string{``, ` `, `{`, `{"repository":`, `{"repository":{"full_name":"a/pushed"`, `[]`, `5`, `"x"`, `{"repository":5}`, `{"repository":{"full_name":5}}`, `{"repository":[{"full_name":"a/pushed"}]}`, "\x00", `{repository:1}`, `nul`, `{"repository":{"full_name":"a/pushed"}]`} {
		hook(b, nil, 400)
	}
	hook(`{"repository":{"full_name":"a/pu`, fmt.Errorf("connection reset"), 400)
	hook(``, io.ErrUnexpectedEOF, 400)
	full := `{"repository":{"full_name":"a/pushed","name":"x"}}`
	for i := 1; i < len(full); i++ {
		hook(full[:i], nil, 400)
	}
	// random parameters never crash a handler
	eps := []string{"/api/v1/search", "/api/v1/excludes", "/api/v1/update", "/api/v1/repos", "/api/v1/github-webhook"}
	keys := []string{"q", "repos", "rng", "files", "excludeFiles", "i", "literal", "limit", "ctx", "stats", "repo"}
	vals := []string{"", "*", "1", "-1", "a/pushed", "c/quiet", ":", "1:", ":1", "\xff", "\\", "(", ".*", "\\b", "^$", "é", "99999999999999999999", "%zz", "common", "a\nb"}
	for i := 0; i < 400; i++ {
		v := url.Values{}
		for j := rng.Intn(6); j >= 0; j-- {
			v.Add(keys[rng.Intn(len(keys))], vals[rng.Intn(len(vals))])
		}
		do([]string{"GET", "POST"}[rng.Intn(2)], eps[rng.Intn(len(eps))]+"?"+v.Encode(), "", strings.NewReader(vals[rng.Intn(len(vals))]))
	}
	// a malformed query string is answered too
	do("GET", "/api/v1/search?q=%zz&repos=*", "", nil)
	vfStat(evals, len(distinct), "requests to the real handlers over real searchers; status, number of answers and JSON form compared with the statement", samples)
}
