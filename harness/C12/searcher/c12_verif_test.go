package searcher

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
)

func TestVerifC12(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	rounds := 40
	if vfThorough() {
		rounds = 400
	}
	evals := 0
	distinct := map[string]bool{}
	var samples []string
	base, err := ioutil.TempDir("", "c12")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(base)
	for r := 0; r < rounds; r++ {
		dir := filepath.Join(base, fmt.Sprint(r))
		os.MkdirAll(dir, 0755)
		urls := []string{fmt.Sprintf("fake://c12/%d/a", r), fmt.Sprintf("fake://c12/%d/b", r), fmt.Sprintf("fake://c12/%d/c", r)}
		revs := []string{"r1", "r2"}
		type found struct {
			url, rev, word string
			valid          bool
		}
		dirs := map[string]found{}
		desc := ""
		for i := rng.Intn(7); i > 0; i-- {
			f := found{urls[rng.Intn(3)], revs[rng.Intn(2)], fmt.Sprintf("prebuilt%dx%d", r, i), true}
			d := filepath.Join(dir, fmt.Sprintf("idx-%04d%x", rng.Intn(10000), i))
			src := filepath.Join(base, "src")
			os.RemoveAll(src)
			os.MkdirAll(src, 0755)
			ioutil.WriteFile(filepath.Join(src, "f"), []byte("marker "+f.word+"\n"), 0644)
			if _, err := index.Build(&index.IndexOptions{}, d, src, f.url, f.rev); err != nil {
				t.Fatalf("VERIF-FAIL key=setup %v", err)
			}
			kind := "good"
			man := filepath.Join(d, "metadata.gob")
			b, _ := ioutil.ReadFile(man)
			switch rng.Intn(7) {
			case 0:
				kind, f.valid = "no manifest", false
				os.Remove(man)
			case 1:
				n := rng.Intn(len(b))
				kind, f.valid = fmt.Sprintf("manifest cut to %d of %d bytes", n, len(b)), false
				ioutil.WriteFile(man, b[:n], 0644)
			case 2:
				kind, f.valid = "manifest garbage", false
				ioutil.WriteFile(man, []byte("garbage"), 0644)
			}
			dirs[d] = f
			desc += fmt.Sprintf("[%s %s %s] ", f.url[len(f.url)-1:], f.rev, kind)
		}
		// things that are not index directories
		keep := []string{filepath.Join(dir, "keep.txt"), filepath.Join(dir, "index-old"), filepath.Join(dir, "xidx-1"), filepath.Join(dir, "other", "idx-5")}
		for _, k := range keep {
			os.MkdirAll(filepath.Dir(k), 0755)
			ioutil.WriteFile(k, []byte("keep"), 0644)
		}
		cfg := &config.Config{DbPath: dir, MaxConcurrentIndexers: 1 + rng.Intn(4), Repos: map[string]*config.Repo{}}
		cur := map[string]string{}
		for i, u := range urls {
			if rng.Intn(4) == 0 {
				continue
			}
			rev := revs[rng.Intn(2)]
			cur[u] = rev
			word := fmt.Sprintf("marker current%dx%s\n", r, rev)
			fake, repo := vfNew(u, rev, map[string]string{"f": word})
			if rng.Intn(6) == 0 {
				fake.pullErr = fmt.Errorf("clone failed")
			}
			cfg.Repos[fmt.Sprintf("repo%d", i)] = repo
			if rng.Intn(3) == 0 {
				// the same repository under a second name
				c := *repo
				cfg.Repos[fmt.Sprintf("repo%dbis", i)] = &c
			}
		}
		for n, rp := range cfg.Repos {
			desc += n + "=" + rp.Url[len(rp.Url)-1:] + "@" + cur[rp.Url] + " "
		}
		all, errs, err := MakeAll(cfg)
		evals++
		distinct[desc] = true
		if len(samples) < 12 {
			samples = append(samples, desc)
		}
		if err != nil {
			vfFail(t, "startup", "%s: startup failed: %v", desc, err)
			continue
		}
		if len(all)+len(errs) != len(cfg.Repos) {
			vfFail(t, "startup", "%s: %d searchers and %d errors for %d repositories", desc, len(all), len(errs), len(cfg.Repos))
		}
		used := map[string]string{}
		want := map[string]int{} // reusable directories by url and revision
		for _, f := range dirs {
			if f.valid {
				want[f.url+"@"+f.rev]++
			}
		}
		reused := map[string]int{}
		needed := map[string]int{}
		for n, s := range all {
			d := s.idx.GetDir()
			if o := used[d]; o != "" {
				vfFail(t, "shared", "%s: %s and %s serve the same index directory", desc, o, n)
			}
			used[d] = n
			key := s.Repo.Url + "@" + cur[s.Repo.Url]
			needed[key]++
			res, err := s.Search("marker", &index.SearchOptions{})
			if err != nil || len(res.Matches) != 1 {
				vfFail(t, "unservable", "%s: %s cannot be searched: %v", desc, n, err)
				continue
			}
			line := res.Matches[0].Matches[0].Line
			if res.Revision != cur[s.Repo.Url] {
				vfFail(t, "wrong-rev", "%s: %s serves revision %s", desc, n, res.Revision)
			}
			if f, old := dirs[d]; old {
				reused[key]++
				if !f.valid {
					vfFail(t, "garbage-served", "%s: %s serves a directory without a valid manifest", desc, n)
				}
				if f.url+"@"+f.rev != key {
					vfFail(t, "wrong-ref", "%s: %s serves an index recorded for %s@%s", desc, n, f.url, f.rev)
				}
				if line != "marker "+f.word {
					vfFail(t, "wrong-content", "%s: %s answers %q", desc, n, line)
				}
			} else if line != fmt.Sprintf("marker current%dx%s", r, cur[s.Repo.Url]) {
				vfFail(t, "wrong-content", "%s: %s answers %q", desc, n, line)
			}
			if errs[n] != nil {
				vfFail(t, "startup", "%s: %s has a searcher and an error", desc, n)
			}
		}
		for k, n := range needed {
			exp := want[k]
			if n < exp {
				exp = n
			}
			if reused[k] != exp {
				vfFail(t, "not-reused", "%s: %d of %d matching indexes reused for %s", desc, reused[k], exp, k)
			}
		}
		// exactly the unclaimed directories are gone
		left, _ := filepath.Glob(filepath.Join(dir, "idx-*"))
		sort.Strings(left)
		for _, d := range left {
			if used[d] == "" {
				if _, old := dirs[d]; old {
					vfFail(t, "not-deleted", "%s: unclaimed %s is still there", desc, filepath.Base(d))
				}
			}
		}
		for d, n := range used {
			if _, err := os.Stat(filepath.Join(d, "metadata.gob")); err != nil {
				vfFail(t, "deleted-live", "%s: the index of %s was deleted", desc, n)
			}
		}
		for _, k := range keep {
			if _, err := os.Stat(k); err != nil {
				vfFail(t, "deleted-other", "%s: %s was deleted", desc, strings.TrimPrefix(k, dir))
			}
		}
		for n, rp := range cfg.Repos {
			if all[n] != nil {
				if _, err := os.Stat(filepath.Join(dir, vcsDirFor(rp))); err != nil {
					vfFail(t, "deleted-other", "%s: the working copy of %s was deleted", desc, n)
				}
			}
		}
		for _, s := range all {
			s.Stop()
		}
		for _, s := range all {
			s.Wait()
		}
	}
	vfStat(evals, len(distinct), "startups of the real MakeAll over random directories of complete, broken and foreign indexes", samples)
}
