package searcher

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
)

func c10Files(k int) map[string]string {
	fs := map[string]string{}
	for i := 0; i < 3+k%4; i++ {
		fs[fmt.Sprintf("d%d/f%d.txt", i%2, i)] = fmt.Sprintf("marker generation_%d end\nother\n", k)
	}
	fs["skip.bin"] = fmt.Sprintf("\xff\xfe\x00 gen %d", k)
	return fs
}

// c10Check searches once and compares the whole answer with the generation its revision names.
func c10Check(s *Searcher) (int, string) {
	r, err := s.Search("marker", &index.SearchOptions{LinesOfContext: 1})
	if err != nil {
		return -1, fmt.Sprintf("search failed: %v", err)
	}
	var k int
	if n, _ := fmt.Sscanf(r.Revision, "rev%d", &k); n != 1 {
		return -1, fmt.Sprintf("revision %q", r.Revision)
	}
	if len(r.Matches) != 3+k%4 {
		return -1, fmt.Sprintf("revision %s: %d files match, expected %d", r.Revision, len(r.Matches), 3+k%4)
	}
	for _, f := range r.Matches {
		if len(f.Matches) != 1 || f.Matches[0].Line != fmt.Sprintf("marker generation_%d end", k) {
			return -1, fmt.Sprintf("revision %s: %s has %q", r.Revision, f.Filename, f.Matches[0].Line)
		}
	}
	return k, ""
}

func TestVerifC10(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	rounds, steps := 3, 14
	if vfThorough() {
		rounds, steps = 12, 60
	}
	evals := 0
	distinct := map[string]bool{}
	var samples []string
	for r := 0; r < rounds; r++ {
		dir, err := ioutil.TempDir("", "c10")
		if err != nil {
			t.Fatal(err)
		}
		yes := true
		fake, repo := vfNew(fmt.Sprintf("fake://c10/%d", r), "rev0", c10Files(0))
		repo.EnablePushUpdates = &yes
		cfg := &config.Config{DbPath: dir, MaxConcurrentIndexers: 1, Repos: map[string]*config.Repo{"r": repo}}
		all, errs, err := MakeAll(cfg)
		if err != nil || all["r"] == nil {
			t.Fatalf("VERIF-FAIL key=setup %v %v", err, errs)
		}
		s := all["r"]
		time.Sleep(20 * time.Millisecond) // let the loop take its start signal
		var stop int32
		var wg sync.WaitGroup
		var searches int64
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				last := 0
				for atomic.LoadInt32(&stop) == 0 {
					k, msg := c10Check(s)
					if msg == "" && k < last {
						msg = fmt.Sprintf("generation went back from %d to %d", last, k)
					}
					if msg != "" {
						vfFail(t, "torn", "a search while updating: %s", msg)
						return
					}
					last = k
					atomic.AddInt64(&searches, 1)
					if i == 0 {
						var l []interface{}
						if e := s.GetExcludedFiles(); json.Unmarshal([]byte(e), &l) != nil || len(l) != 1 {
							vfFail(t, "excluded", "excluded files while updating: %q", e)
							return
						}
					}
				}
			}(i)
		}
		served := 0
		gen := 0
		wait := func(why string, f func() bool) bool {
			if !vfUntil(20*time.Second, f) {
				vfFail(t, "stuck", "%s", why)
				return false
			}
			return true
		}
		hist := ""
		ok := true
		for st := 0; st < steps && ok; st++ {
			op := rng.Intn(6)
			if st < 6 {
				op = st
			}
			ops := func() int { c, p := fake.counts(); return c + p }
			before := ops()
			pulled := func() bool { return ops() > before }
			hist += fmt.Sprintf("%d ", op)
			evals++
			distinct[hist] = true
			upd := func(why string) {
				s.Update()
				ok = wait(fmt.Sprintf("history %s: %s: no pull", hist, why), pulled)
			}
			switch op {
			case 0: // a good update
				gen++
				fake.set(fmt.Sprintf("rev%d", gen), c10Files(gen), nil)
				upd("update")
			case 1: // the pull fails, a later update is attempted again
				gen++
				fake.set(fmt.Sprintf("rev%d", gen), c10Files(gen), fmt.Errorf("pull failed"))
				upd("failing pull")
				time.Sleep(30 * time.Millisecond)
				if k, msg := c10Check(s); msg != "" || k != served {
					vfFail(t, "after-failure", "history %s: after a failed pull generation %d is served, expected %d (%s)", hist, k, served, msg)
				}
				fake.set(fmt.Sprintf("rev%d", gen), c10Files(gen), nil)
				before = ops()
				upd("update after failure")
			case 2: // the build fails: the working copy vanishes under the walk
				gen++
				fake.set(fmt.Sprintf("rev%d", gen), c10Files(gen), nil)
				bad := &c10Gone{}
				bad.arm(fake)
				upd("failing build")
				ok = ok && wait("the sabotaged pull never ended", bad.done)
				time.Sleep(60 * time.Millisecond)
				if k, msg := c10Check(s); msg != "" || k != served {
					vfFail(t, "after-failure", "history %s: after a failed build generation %d is served, expected %d (%s)", hist, k, served, msg)
				}
				before = ops()
				upd("update after failed build")
			case 3: // the replaced index cannot be removed
				gen++
				idxs, _ := filepath.Glob(filepath.Join(dir, "idx-*"))
				var ro []string
				for _, d := range idxs {
					p := filepath.Join(d, "stuck")
					os.MkdirAll(p, 0755)
					ioutil.WriteFile(filepath.Join(p, "x"), nil, 0644)
					os.Chmod(p, 0555)
					ro = append(ro, p)
				}
				fake.set(fmt.Sprintf("rev%d", gen), c10Files(gen), nil)
				upd("update with a stuck old index")
				ok = ok && wait(fmt.Sprintf("history %s: the new index is never served when the old one cannot be removed", hist), func() bool { k, _ := c10Check(s); return k == gen })
				for _, p := range ro {
					os.Chmod(p, 0755)
				}
			case 4: // nothing new
				upd("update without news")
				time.Sleep(20 * time.Millisecond)
			case 5: // two updates in a row
				gen += 2
				fake.set(fmt.Sprintf("rev%d", gen-1), c10Files(gen-1), nil)
				upd("first of two updates")
				fake.set(fmt.Sprintf("rev%d", gen), c10Files(gen), nil)
				before = ops()
				upd("second of two updates")
			}
			if !ok {
				break
			}
			ok = wait(fmt.Sprintf("history %s: generation %d is never served", hist, gen), func() bool { k, _ := c10Check(s); return k == gen })
			served = gen
			time.Sleep(15 * time.Millisecond) // until the loop is idle again
			if k, msg := c10Check(s); msg != "" || k != served {
				vfFail(t, "served", "history %s: generation %d served, expected %d: %s", hist, k, served, msg)
			}
			if e := s.GetExcludedFiles(); !strings.Contains(e, "skip.bin") {
				vfFail(t, "excluded", "history %s: excluded files of the served index: %q", hist, e)
			}
		}
		if len(samples) < 12 {
			samples = append(samples, "history "+hist)
		}
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
		evals += int(searches)
		s.Stop()
		s.Wait()
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() {
				os.Chmod(p, 0755)
			}
			return nil
		})
		os.RemoveAll(dir)
	}
	vfStat(evals, len(distinct), "histories of updates, failing pulls, failing builds and failing removals of the real update loop, with concurrent searches whose whole answer is compared with the revision it names", samples)
}

// c10Gone removes the working copy once, right after a pull, so that it cannot be walked.
type c10Gone struct{ n int32 }

func (g *c10Gone) done() bool { return atomic.LoadInt32(&g.n) > 0 }

func (g *c10Gone) arm(f *vfRepo) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.after = func(dir string) {
		if atomic.AddInt32(&g.n, 1) == 1 {
			os.RemoveAll(dir)
		}
	}
}
