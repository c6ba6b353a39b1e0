package searcher

import (
	"fmt"
	"io/ioutil"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/hound-search/hound/config"
)

type c14Env struct {
	t    *testing.T
	dir  string
	fake *vfRepo
	s    *Searcher
}

var c14N int

func c14New(t *testing.T, push, poll bool, ms int) *c14Env {
	dir, err := ioutil.TempDir("", "c14")
	if err != nil {
		t.Fatal(err)
	}
	c14N++
	fake, repo := vfNew(fmt.Sprintf("fake://c14/%d", c14N), "rev", map[string]string{"f": "marker\n"})
	repo.EnablePushUpdates, repo.EnablePollUpdates, repo.MsBetweenPolls = &push, &poll, ms
	cfg := &config.Config{DbPath: dir, MaxConcurrentIndexers: 1, Repos: map[string]*config.Repo{"r": repo}}
	all, errs, err := MakeAll(cfg)
	if err != nil || all["r"] == nil {
		t.Fatalf("VERIF-FAIL key=setup %v %v", err, errs)
	}
	time.Sleep(5 * time.Millisecond) // let the loop take its start signal
	return &c14Env{t, dir, fake, all["r"]}
}

func (e *c14Env) pulls() int { _, p := e.fake.counts(); return p }

// within runs f, which must not block.
func (e *c14Env) within(what string, d time.Duration, f func()) bool {
	ch := make(chan bool)
	go func() { f(); close(ch) }()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		vfFail(e.t, "blocked", "%s did not return within %s", what, d)
		return false
	}
}

func (e *c14Env) end() { os.RemoveAll(e.dir) }

func TestVerifC14(t *testing.T) {
	evals := 0
	distinct := map[string]bool{}
	note := func(s string) { evals++; distinct[s] = true }
	rep := 25
	if vfThorough() {
		rep = 200
	}
	const long = 20 * time.Second
	modes := []struct {
		push, poll bool
		ms         int
	}{{true, false, 0}, {true, true, 5}, {false, true, 5}, {true, true, 100000}, {false, true, 100000}, {false, false, 0}}

	// Stop on an idle loop, several times, several waiters
	for _, m := range modes {
		e := c14New(t, m.push, m.poll, m.ms)
		ok := e.within("Stop on an idle searcher", long, func() {
			for i := 0; i < 5; i++ {
				e.s.Stop()
			}
		})
		ok = ok && e.within("Wait by three waiters", long, func() {
			var wg sync.WaitGroup
			for i := 0; i < 3; i++ {
				wg.Add(1)
				go func() { e.s.Wait(); wg.Done() }()
			}
			wg.Wait()
		})
		ok = ok && e.within("Stop, Wait and Update after the end", long, func() { e.s.Stop(); e.s.Wait(); e.s.Update(); e.s.Update(); e.s.Stop() })
		n := e.pulls()
		time.Sleep(30 * time.Millisecond)
		if e.pulls() != n {
			vfFail(t, "after-stop", "a stopped searcher (%+v) still pulls", m)
		}
		note(fmt.Sprintf("idle stop %+v", m))
		e.end()
	}

	// Update: accepted exactly when push is on; never lost when idle; never blocks
	for _, m := range modes[:5] {
		e := c14New(t, m.push, m.poll, m.ms)
		if e.s.Update() != m.push {
			vfFail(t, "accepted", "Update with %+v returned %v", m, !m.push)
		}
		if m.push {
			for i := 0; i < rep; i++ {
				// until the loop is idle
				last := e.pulls()
				time.Sleep(3 * time.Millisecond)
				for m.ms != 5 && e.pulls() != last {
					last = e.pulls()
					time.Sleep(3 * time.Millisecond)
				}
				last = e.pulls()
				many := 1 + i%4
				if !e.within("Update", long, func() {
					for j := 0; j < many; j++ {
						e.s.Update()
					}
				}) {
					break
				}
				if !vfUntil(long, func() bool { return e.pulls() > last }) {
					vfFail(t, "update-lost", "%d update requests on an idle loop (%+v) led to no pull", many, m)
					break
				}
				note(fmt.Sprintf("update %+v x%d", m, many))
			}
		} else if m.ms == 100000 {
			n := e.pulls()
			e.s.Update()
			time.Sleep(30 * time.Millisecond)
			if e.pulls() != n {
				vfFail(t, "accepted", "a refused update was performed")
			}
		}
		if m.ms == 5 {
			// polling goes on by itself, also after failures
			e.fake.set("rev", map[string]string{"f": "x"}, fmt.Errorf("pull failed"))
			n := e.pulls()
			if !vfUntil(long, func() bool { return e.pulls() > n+2 }) {
				vfFail(t, "poll-stopped", "polling stopped after a failing pull (%+v)", m)
			}
		}
		e.s.Stop()
		e.within("Wait", long, e.s.Wait)
		e.end()
	}

	// requests and shutdown while an update is in progress
	for i := 0; i < rep; i++ {
		m := modes[i%3]
		e := c14New(t, m.push, m.poll, m.ms)
		in := make(chan bool, 100)
		gate := make(chan bool)
		e.fake.mu.Lock()
		e.fake.onOp = func() { in <- true; <-gate }
		e.fake.mu.Unlock()
		if m.push {
			e.s.Update()
		}
		select {
		case <-in:
		case <-time.After(long):
			t.Fatalf("VERIF-FAIL key=update-lost no update started (%+v)", m)
		}
		stopFirst := i%2 == 0
		pend := i%5 != 4
		ok := e.within("Update and Stop during an update", long, func() {
			if stopFirst {
				e.s.Stop()
			}
			if pend {
				for j := 0; j < 3; j++ {
					e.s.Update()
				}
			}
			e.s.Stop()
			e.s.Stop()
		})
		if !ok {
			close(gate)
			continue
		}
		done := make(chan bool)
		go func() { e.s.Wait(); close(done) }()
		select {
		case <-done:
			vfFail(t, "early", "Wait returned while an update was in progress")
		case <-time.After(2 * time.Millisecond):
		}
		n := e.pulls()
		if m.ms == 5 {
			time.Sleep(8 * time.Millisecond) // a poll is due as well
		}
		close(gate)
		select {
		case <-done:
		case <-time.After(long):
			vfFail(t, "not-stopped", "the loop did not end after the update in progress (%+v, stop first %v, pending %v)", m, stopFirst, pend)
		}
		time.Sleep(2 * time.Millisecond)
		if e.pulls() != n {
			vfFail(t, "extra-update", "%d more updates were made after the shutdown request (%+v, stop first %v, pending %v)", e.pulls()-n, m, stopFirst, pend)
		}
		note(fmt.Sprintf("stop during update %+v %v %v", m, stopFirst, pend))
		e.end()
	}

	// a request made during an update is carried out afterwards; many collapse
	for i := 0; i < 5; i++ {
		e := c14New(t, true, false, 0)
		in := make(chan bool, 100)
		gate := make(chan bool)
		e.fake.mu.Lock()
		e.fake.onOp = func() { in <- true; <-gate }
		e.fake.mu.Unlock()
		e.s.Update()
		select {
		case <-in:
		case <-time.After(long):
			t.Fatalf("VERIF-FAIL key=update-lost no update started")
		}
		e.within("Update during an update", long, func() {
			for j := 0; j < 50; j++ {
				e.s.Update()
			}
		})
		n := e.pulls()
		close(gate)
		if !vfUntil(long, func() bool { return e.pulls() > n }) {
			vfFail(t, "update-lost", "requests made during an update led to no further update")
		}
		note("update during update")
		e.s.Stop()
		e.within("Wait", long, e.s.Wait)
		e.end()
	}

	// a stop races with an update request on an idle loop: at most that one update
	for i := 0; i < rep; i++ {
		e := c14New(t, true, false, 0)
		n := e.pulls()
		if i%2 == 0 {
			e.s.Stop()
			e.s.Update()
		} else {
			e.s.Update()
			e.s.Stop()
		}
		e.within("Wait", long, e.s.Wait)
		if e.pulls() > n+1 {
			vfFail(t, "extra-update", "%d updates after a stop request", e.pulls()-n)
		}
		note("stop races update")
		e.end()
	}
	vfStat(evals, len(distinct), "schedules of Stop, Wait, Update and polls against the real update loop, with updates held in progress by the driver", []string{"idle stop", "stop during update", "update during update", "stop races update"})
}
