package web

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
)

// c17Writer counts the answers written to it.
type c17Writer struct {
	h       http.Header
	status  []int
	body    bytes.Buffer
	late    int
	written bool
}

func (w *c17Writer) Header() http.Header { return w.h }
func (w *c17Writer) WriteHeader(s int) {
	if w.written {
		w.late++
	}
	w.written = true
	w.status = append(w.status, s)
}
func (w *c17Writer) Write(b []byte) (int, error) {
	if !w.written {
		w.WriteHeader(200)
	}
	return w.body.Write(b)
}

func c17Do(s *Server, method, path string) (*c17Writer, interface{}) {
	w := &c17Writer{h: http.Header{}}
	u, _ := url.Parse("http://h" + path)
	if u == nil {
		u = &url.URL{Path: path}
	}
	r := httptest.NewRequest(method, "http://h/", nil)
	r.URL = u
	r.RequestURI = path
	var crash interface{}
	func() {
		defer func() { crash = recover() }()
		s.ServeHTTP(w, r)
	}()
	return w, crash
}

func TestVerifC17(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	rounds := 12
	if vfThorough() {
		rounds = 150
	}
	evals, distinct := 0, map[string]bool{}
	var samples []string
	var mu sync.Mutex
	for round := 0; round < rounds && !t.Failed(); round++ {
		health := []string{"/healthz", "/", "/api/v1/repos", "/h/ealth", "/é"}[round%5]
		cfg := &config.Config{Title: "vErIfTiTlE", HealthCheckURI: health, ResultLimit: 5000,
			Repos: map[string]*config.Repo{"r1": {Url: "https://x/r1"}}}
		s := Start(cfg, "127.0.0.1:0", false)
		if s == nil {
			vfFail(t, "start", "Start returns nil")
			break
		}
		hs := httptest.NewServer(s)
		paths := []string{"/", "/api/v1/repos", "/api/v1/search?q=x&repos=zz", "/api/v1/excludes?repo=zz", "/js/none.js", "/nope", health, health + "?x=1", health + "/", strings.ToUpper(health), "/open_search.xml", "/excluded_files.html", "//", "/x/../healthz", "/api/v1/update"}
		check := func(method, p string, before, after bool, st int, body string) {
			up, _ := url.Parse("http://h" + p)
			mu.Lock()
			evals++
			distinct[fmt.Sprint(health, method, p, before, after)] = true
			mu.Unlock()
			ish := up != nil && up.Path == health
			switch {
			case ish:
				if st != 200 || method != "HEAD" && body != "👍\n" {
					vfFail(t, "health", "%s %s (health path %s, ready %v) answers %d %q", method, p, health, before, st, body)
				}
			case !after && st != 503:
				vfFail(t, "early", "%s %s answers %d before the indexes are ready", method, p, st)
			case before && st == 503:
				vfFail(t, "late", "%s %s answers %d although the indexes are ready", method, p, st)
			}
			if before && !ish {
				switch {
				case p == "/" && method == "GET":
					if st != 200 || !strings.Contains(body, "vErIfTiTlE") {
						vfFail(t, "served", "GET / answers %d %.60q when ready", st, body)
					}
				case p == "/api/v1/repos" && method == "GET":
					if st != 200 || !strings.Contains(body, `"https://x/r1"`) {
						vfFail(t, "served", "GET %s answers %d %.200q when ready", p, st, body)
					}
				case p == "/nope" || p == "/js/none.js" || strings.HasPrefix(p, "/api/v1/excludes"):
					if st != 404 {
						vfFail(t, "served", "%s %s answers %d when ready", method, p, st)
					}
				}
			}
		}
		var called, ready int32 // ServeWithIndex was called; some request was served
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			lr := rand.New(rand.NewSource(rng.Int63()))
			go func(g int) {
				defer wg.Done()
				left := 20
				for left > 0 && !t.Failed() {
					p := paths[lr.Intn(len(paths))]
					method := []string{"GET", "GET", "GET", "POST", "HEAD"}[lr.Intn(5)]
					before := atomic.LoadInt32(&ready) != 0
					if before {
						left--
					}
					if g%2 == 0 {
						w, crash := c17Do(s, method, p)
						after := atomic.LoadInt32(&called) != 0
						if crash != nil {
							vfFail(t, "crash", "%s %s crashes: %v", method, p, crash)
							return
						}
						if len(w.status) != 1 || w.late > 0 {
							vfFail(t, "answers", "%s %s is answered with the statuses %v", method, p, w.status)
							return
						}
						check(method, p, before, after, w.status[0], w.body.String())
						if p == "/nope" && w.status[0] != 503 {
							atomic.StoreInt32(&ready, 1)
						}
					} else {
						req, _ := http.NewRequest(method, hs.URL+p, nil)
						res, err := (&http.Client{CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}).Do(req)
						after := atomic.LoadInt32(&called) != 0
						if err != nil {
							vfFail(t, "answers", "%s %s fails: %v", method, p, err)
							return
						}
						b, _ := ioutil.ReadAll(res.Body)
						res.Body.Close()
						check(method, p, before, after, res.StatusCode, string(b))
					}
				}
			}(g)
		}
		time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
		atomic.StoreInt32(&called, 1)
		done := make(chan error, 1)
		go func() {
			done <- s.ServeWithIndex(map[string]*searcher.Searcher{"r1": {Repo: cfg.Repos["r1"]}})
		}()
		fin := make(chan bool)
		go func() { wg.Wait(); close(fin) }()
		select {
		case <-fin:
		case <-time.After(60 * time.Second):
			vfFail(t, "stuck", "the server does not become ready within a minute (health path %s)", health)
			hs.Close()
			return
		}
		select {
		case err := <-done:
			vfFail(t, "returned", "ServeWithIndex returns %v while the server is listening", err)
		default:
		}
		// one in-flight request must not keep others from being answered
		for _, m := range []string{"GET", "OPTIONS", "DELETE"} {
			for _, p := range paths {
				w, crash := c17Do(s, m, p)
				if crash != nil || len(w.status) != 1 {
					vfFail(t, "answers", "%s %s: crash %v, statuses %v", m, p, crash, w.status)
					continue
				}
				check(m, p, true, true, w.status[0], w.body.String())
			}
		}
		hs.Close()
		samples = append(samples, fmt.Sprintf("health path %s, 6 clients over %d paths through the transition", health, len(paths)))
	}
	// an address that cannot be listened on is reported
	s := Start(&config.Config{HealthCheckURI: "/healthz"}, "256.0.0.1:http-none", false)
	errs := make(chan error, 1)
	go func() { errs <- s.ServeWithIndex(nil) }()
	select {
	case err := <-errs:
		if err == nil {
			vfFail(t, "listen", "an address that cannot be listened on gives no error")
		}
	case <-time.After(20 * time.Second):
		vfFail(t, "listen", "an address that cannot be listened on is not reported")
	}
	vfStat(evals, len(distinct), "requests by concurrent clients through the transition to ready, under the race detector; status and body compared with what the state at the start and at the end of the request allows, answers counted", samples)
}
