package searcher

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/hound-search/hound/config"
)

// c13Gauge counts jobs that are inside a pull or clone.
type c13Gauge struct{ cur, max, total int64 }

func (g *c13Gauge) in() {
	n := atomic.AddInt64(&g.cur, 1)
	for {
		m := atomic.LoadInt64(&g.max)
		if n <= m || atomic.CompareAndSwapInt64(&g.max, m, n) {
			break
		}
	}
	atomic.AddInt64(&g.total, 1)
}
func (g *c13Gauge) out() { atomic.AddInt64(&g.cur, -1) }

func TestVerifC13(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	rounds := 6
	if vfThorough() {
		rounds = 40
	}
	evals := 0
	distinct := map[string]bool{}
	var samples []string
	for r := 0; r < rounds; r++ {
		bound := 1 + r%3
		dir, err := ioutil.TempDir("", "c13")
		if err != nil {
			t.Fatal(err)
		}
		g := &c13Gauge{}
		yes := true
		const n = 9
		cfg := &config.Config{DbPath: dir, MaxConcurrentIndexers: bound, Repos: map[string]*config.Repo{}}
		fakes := map[string]*vfRepo{}
		files := map[string]string{}
		for i := 0; i < 150; i++ {
			files[fmt.Sprintf("d%d/f%d", i%7, i)] = "marker text\n"
		}
		failing := 0
		desc := fmt.Sprintf("bound %d:", bound)
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("r%d", i)
			f, rp := vfNew(fmt.Sprintf("fake://c13/%d/%d", r, i), "rev0", files)
			rp.EnablePushUpdates = &yes
			f.onOp = func() {
				g.in()
				time.Sleep(time.Duration(2+i%3) * time.Millisecond)
				g.out()
			}
			switch k := rng.Intn(8); {
			case k == 0:
				f.pullErr = fmt.Errorf("clone failed")
				failing++
				desc += " clone-fails"
			case k == 1:
				f.after = func(d string) { os.RemoveAll(d) }
				failing++
				desc += " build-fails"
			case k == 2:
				rp.Vcs = "no-such-vcs"
				failing++
				desc += " unknown-vcs"
			default:
				desc += " ok"
			}
			fakes[name], cfg.Repos[name] = f, rp
		}
		type result struct {
			all  map[string]*Searcher
			errs map[string]error
			err  error
		}
		ch := make(chan result, 1)
		go func() {
			a, e, err := MakeAll(cfg)
			ch <- result{a, e, err}
		}()
		var res result
		select {
		case res = <-ch:
		case <-time.After(60 * time.Second):
			t.Fatalf("VERIF-FAIL key=starved startup did not finish within 60 s (%s): a slot was not returned", desc)
		}
		evals++
		distinct[desc] = true
		if len(samples) < 12 {
			samples = append(samples, desc)
		}
		if res.err != nil {
			vfFail(t, "startup", "%s: %v", desc, res.err)
		}
		if len(res.errs) != failing || len(res.all) != n-failing {
			vfFail(t, "startup", "%s: %d searchers, %d errors", desc, len(res.all), len(res.errs))
		}
		if m := atomic.LoadInt64(&g.max); m > int64(bound) {
			vfFail(t, "startup-bound", "%s: %d jobs at once during startup", desc, m)
		}
		time.Sleep(20 * time.Millisecond)
		// updates: failing ones first, then good ones, all at once
		wave := func(kind string, rev string, mode int) {
			atomic.StoreInt64(&g.max, 0)
			before := map[string]int{}
			for name, s := range res.all {
				f := fakes[name]
				f.mu.Lock()
				f.rev, f.pullErr, f.after = rev, nil, nil
				switch mode {
				case 1:
					f.pullErr = fmt.Errorf("pull failed")
				case 2:
					// the working copy vanishes once, so that it cannot be walked
					var once int32
					f.after = func(d string) {
						if atomic.AddInt32(&once, 1) == 1 {
							os.RemoveAll(d)
						}
					}
				}
				f.mu.Unlock()
				c, p := f.counts()
				before[name] = c + p
				_ = s
			}
			for _, s := range res.all {
				s.Update()
			}
			for name := range res.all {
				f := fakes[name]
				if !vfUntil(30*time.Second, func() bool { c, p := f.counts(); return c+p > before[name] }) {
					vfFail(t, "starved", "%s: %s: the update of %s never ran", desc, kind, name)
					return
				}
			}
			if mode == 0 {
				for name, s := range res.all {
					if !vfUntil(30*time.Second, func() bool {
						s.lck.RLock()
						defer s.lck.RUnlock()
						return s.idx.Ref.Rev == rev
					}) {
						vfFail(t, "starved", "%s: %s: %s was never updated", desc, kind, name)
						return
					}
				}
			} else {
				time.Sleep(60 * time.Millisecond)
			}
			if m := atomic.LoadInt64(&g.max); m > int64(bound) {
				vfFail(t, "update-bound", "%s: %s: %d jobs at once", desc, kind, m)
			}
			evals++
			distinct[desc+kind] = true
		}
		wave("good updates", "rev1", 0)
		for i := 0; i < bound+1; i++ {
			wave("failing pulls", fmt.Sprintf("revf%d", i), 1)
		}
		wave("good updates after failing pulls", "rev2", 0)
		for i := 0; i < bound+1; i++ {
			wave("failing builds", fmt.Sprintf("revb%d", i), 2)
		}
		wave("good updates after failing builds", "rev3", 0)
		for i := 0; i < bound+1; i++ {
			wave("updates without news", "rev3", 3)
		}
		wave("good updates at the end", "rev4", 0)
		for _, s := range res.all {
			s.Stop()
		}
		for _, s := range res.all {
			s.Wait()
		}
		os.RemoveAll(dir)
	}
	vfStat(evals, len(distinct), "startups and waves of updates of the real searchers with jobs counted inside the version control driver and in the database directory", samples)
}

// Builds overlap a lot and nothing fails: the number of indexes being built at once is bounded too.
func TestVerifC13Builds(t *testing.T) {
	dir, err := ioutil.TempDir("", "c13b")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	yes := true
	files := map[string]string{}
	for i := 0; i < 500; i++ {
		files[fmt.Sprintf("f%d", i)] = "marker text\n"
	}
	const bound = 2
	cfg := &config.Config{DbPath: dir, MaxConcurrentIndexers: bound, Repos: map[string]*config.Repo{}}
	fakes := map[string]*vfRepo{}
	for i := 0; i < 8; i++ {
		f, rp := vfNew(fmt.Sprintf("fake://c13b/%d", i), "rev0", files)
		rp.EnablePushUpdates = &yes
		fakes[fmt.Sprint(i)], cfg.Repos[fmt.Sprint(i)] = f, rp
	}
	done := map[string]bool{}
	var stop int32
	var wg sync.WaitGroup
	maxBuild := 0
	wg.Add(1)
	go func() {
		defer wg.Done()
		for atomic.LoadInt32(&stop) == 0 {
			ds, _ := filepath.Glob(filepath.Join(dir, "idx-*"))
			building := []string{}
			for _, d := range ds {
				if done[d] {
					continue
				}
				if _, err := os.Stat(filepath.Join(d, "metadata.gob")); err == nil {
					done[d] = true
				} else if _, err := os.Stat(filepath.Join(d, "raw")); err == nil {
					building = append(building, d)
				}
			}
			// still being built after all were seen: they overlap
			n := 0
			for _, d := range building {
				_, e1 := os.Stat(filepath.Join(d, "raw"))
				_, e2 := os.Stat(filepath.Join(d, "metadata.gob"))
				if e1 == nil && e2 != nil {
					n++
				}
			}
			if n > maxBuild {
				maxBuild = n
			}
		}
	}()
	all, errs, err := MakeAll(cfg)
	if err != nil || len(all) != 8 {
		t.Fatalf("VERIF-FAIL key=setup %v %v", err, errs)
	}
	time.Sleep(20 * time.Millisecond)
	for k := 1; k <= 3; k++ {
		for name := range all {
			fakes[name].set(fmt.Sprintf("rev%d", k), files, nil)
		}
		for _, s := range all {
			s.Update()
		}
		for name, s := range all {
			s := s
			if !vfUntil(60*time.Second, func() bool {
				s.lck.RLock()
				defer s.lck.RUnlock()
				return s.idx.Ref.Rev == fmt.Sprintf("rev%d", k)
			}) {
				t.Fatalf("VERIF-FAIL key=starved %s was never updated to generation %d", name, k)
			}
		}
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	if maxBuild > bound {
		vfFail(t, "build-bound", "%d indexes were being built at once, the bound is %d", maxBuild, bound)
	}
	for _, s := range all {
		s.Stop()
	}
	for _, s := range all {
		s.Wait()
	}
	vfStat(32, 4, "builds in progress, seen in the database directory", []string{fmt.Sprintf("at most %d builds at once under a bound of %d", maxBuild, bound)})
}
