package web

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
)

func TestVerifC16Served(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	dir, err := ioutil.TempDir("", "c16")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	evals := 0
	for r := 0; r < 6; r++ {
		secret := fmt.Sprintf("sEcReT%d", rng.Int63())
		file := filepath.Join(dir, "c.json")
		ioutil.WriteFile(file, []byte(fmt.Sprintf(`{"dbpath":"d","vcs-config":{"git":{"g":"%s"}},"repos":{"a":{"url":"u1","vcs":"svn","vcs-config":{"password":"%s"}},"b":{"url":"u2"}}}`, secret, secret)), 0600)
		cfg := &config.Config{}
		if err := cfg.LoadFromFile(file); err != nil {
			t.Fatal(err)
		}
		s := Start(cfg, "127.0.0.1:0", r == 5)
		go s.ServeWithIndex(map[string]*searcher.Searcher{"a": {Repo: cfg.Repos["a"]}, "b": {Repo: cfg.Repos["b"]}})
		get := func(p string) (int, string) {
			w := httptest.NewRecorder()
			s.ServeHTTP(w, httptest.NewRequest("GET", p, nil))
			return w.Code, w.Body.String()
		}
		for i := 0; i < 1000; i++ {
			if c, _ := get("/api/v1/repos"); c != 503 {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		for _, p := range []string{"/api/v1/repos", "/", "/excluded_files.html", "/open_search.xml", "/api/v1/excludes?repo=zz"} {
			c, b := get(p)
			evals++
			if strings.Contains(b, secret) {
				vfFail(t, "disclosed", "the answer to %s contains a VCS option: %.600s", p, b)
			}
			if p == "/api/v1/repos" && (c != 200 || !strings.Contains(b, `"u1"`) || !strings.Contains(b, `"u2"`)) {
				vfFail(t, "repos", "%s answers %d %s", p, c, b)
			}
			if p == "/" && (c != 200 || !strings.Contains(b, "u1")) {
				vfFail(t, "page", "the page does not contain the repositories (status %d)", c)
			}
		}
	}
	vfStat(evals, evals, "pages and endpoints that serialise the repositories, searched for the secret", nil)
}
