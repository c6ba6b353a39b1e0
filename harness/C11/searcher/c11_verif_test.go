package searcher

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
)

// Searches, readings of the excluded files and index replacements at the same time,
// under the race detector, including the operations that fail.
func TestVerifC11(t *testing.T) {
	dir, err := ioutil.TempDir("", "c11")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	files := func(k int) map[string]string {
		fs := map[string]string{}
		for i := 0; i < 40; i++ {
			fs[fmt.Sprintf("f%d", i)] = fmt.Sprintf("marker gen%d\n", k)
		}
		return fs
	}
	yes := true
	fake, repo := vfNew("fake://c11/x", "rev0", files(0))
	repo.EnablePushUpdates = &yes
	cfg := &config.Config{DbPath: dir, MaxConcurrentIndexers: 1, Repos: map[string]*config.Repo{"x": repo}}
	all, errs, err := MakeAll(cfg)
	if err != nil || all["x"] == nil {
		t.Fatalf("VERIF-FAIL key=setup %v %v", err, errs)
	}
	s := all["x"]
	var stop int32
	var wg sync.WaitGroup
	var n int64
	spin := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				f()
				atomic.AddInt64(&n, 1)
			}
		}()
	}
	for i := 0; i < 2; i++ {
		spin(func() {
			r, err := s.Search("marker", &index.SearchOptions{})
			if err != nil || len(r.Matches) != 40 {
				vfFail(t, "torn", "a search during replacements failed: %v", err)
				atomic.StoreInt32(&stop, 1)
			}
		})
	}
	spin(func() {
		if _, err := s.Search("(", &index.SearchOptions{}); err == nil {
			vfFail(t, "no-error", "no error for a malformed pattern")
			atomic.StoreInt32(&stop, 1)
		}
	})
	spin(func() {
		if _, err := s.Search("x", &index.SearchOptions{FileRegexp: "["}); err == nil {
			vfFail(t, "no-error", "no error for a malformed file pattern")
			atomic.StoreInt32(&stop, 1)
		}
	})
	spin(func() {
		if e := s.GetExcludedFiles(); !strings.HasPrefix(e, "[") {
			vfFail(t, "excluded", "excluded files during replacements: %q", e)
			atomic.StoreInt32(&stop, 1)
		}
	})
	gens := 12
	if vfThorough() {
		gens = 80
	}
	for k := 1; k <= gens && atomic.LoadInt32(&stop) == 0; k++ {
		fake.set(fmt.Sprintf("rev%d", k), files(k), nil)
		want := fmt.Sprintf("rev%d", k)
		s.Update()
		if !vfUntil(40*time.Second, func() bool {
			s.Update()
			r, err := s.Search("marker", &index.SearchOptions{Limit: 1})
			return err == nil && r.Revision == want
		}) {
			vfFail(t, "deadlock", "generation %d was not served within 40 s", k)
			break
		}
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	// an error while reading leaves the lock free: the next replacement goes through
	exc, _ := filepath.Glob(filepath.Join(dir, "idx-*", "excluded_files.json"))
	for _, e := range exc {
		os.Remove(e)
	}
	s.GetExcludedFiles()
	raws, _ := filepath.Glob(filepath.Join(dir, "idx-*", "raw", "f3"))
	for _, e := range raws {
		os.Remove(e)
	}
	if _, err := s.Search("marker", &index.SearchOptions{}); err == nil {
		vfFail(t, "no-error", "no error although a stored file is missing")
	}
	fake.set("last", files(1), nil)
	if !vfUntil(40*time.Second, func() bool {
		s.Update()
		r, err := s.Search("marker", &index.SearchOptions{})
		return err == nil && r.Revision == "last"
	}) {
		vfFail(t, "lock-left", "after failing operations the index could not be replaced any more")
	}
	s.Stop()
	s.Wait()
	vfStat(int(n), gens, "operations on a real searcher during index replacements, under the race detector", []string{"search", "malformed search", "excluded files", "update"})
}
