package index

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"
)

// A search that has started is finished on the whole index although the index is
// closed or destroyed meanwhile, and every lock is free again afterwards.
func TestVerifC11Index(t *testing.T) {
	dir, err := ioutil.TempDir("", "c11")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	src := filepath.Join(dir, "src")
	os.MkdirAll(src, 0755)
	const n = 1200
	for i := 0; i < n; i++ {
		ioutil.WriteFile(filepath.Join(src, fmt.Sprintf("f%04d", i)), []byte("marker line\nother\n"), 0644)
	}
	evals := 0
	rounds := 3
	if vfThorough() {
		rounds = 12
	}
	for r := 0; r < rounds; r++ {
		ref, err := Build(&IndexOptions{}, filepath.Join(dir, fmt.Sprintf("idx%d", r)), src, "u", "r")
		if err != nil {
			t.Fatalf("VERIF-FAIL key=setup %v", err)
		}
		ix, err := ref.Open()
		if err != nil {
			t.Fatalf("VERIF-FAIL key=setup %v", err)
		}
		// error paths leave the lock free
		for _, o := range []struct {
			pat string
			opt SearchOptions
		}{{"(", SearchOptions{}}, {"x", SearchOptions{FileRegexp: "("}}, {"x", SearchOptions{ExcludeFileRegexp: "("}}} {
			o := o
			if _, err := ix.Search(o.pat, &o.opt); err == nil {
				vfFail(t, "no-error", "no error for %q %+v", o.pat, o.opt)
			}
			evals++
		}
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				res, err := ix.Search("marker", &SearchOptions{})
				if err != nil || len(res.Matches) != n {
					vfFail(t, "search-destroyed", "a search that had started before the index was destroyed: %v, %v of %d files", err, res != nil && len(res.Matches) == n, n)
				}
			}()
		}
		// wait until all three hold the lock
		held := false
		for i := 0; i < 20000 && !held; i++ {
			if ix.lck.TryLock() {
				ix.lck.Unlock()
				time.Sleep(20 * time.Microsecond)
			} else {
				held = true
			}
		}
		if !held {
			vfFail(t, "search-unlocked", "searches of %d files ran without ever holding the lock of the index", n)
			wg.Wait()
			continue
		}
		time.Sleep(10 * time.Millisecond) // let the other searches in
		// no acquisition while holding the same lock: a waiting writer must not stop them
		done := make(chan error, 1)
		go func() {
			if r%2 == 0 {
				done <- ix.Destroy()
			} else {
				done <- ix.Close()
			}
		}()
		select {
		case err := <-done:
			if err != nil {
				vfFail(t, "destroy", "destroying the index: %v", err)
			}
		case <-time.After(60 * time.Second):
			t.Fatalf("VERIF-FAIL key=deadlock the index could not be destroyed within 60 s")
		}
		wg.Wait()
		evals += 4
		if !ix.lck.TryLock() {
			vfFail(t, "lock-left", "the lock is still held after every operation returned")
		}
		if r%2 == 0 {
			if _, err := os.Stat(ref.Dir()); err == nil {
				vfFail(t, "destroy", "the destroyed index is still there")
			}
		}
	}
	vfStat(evals, rounds*7, "searches of a real index overlapping its destruction, under the race detector", []string{"3 searches of 1200 files, then Destroy"})
}
