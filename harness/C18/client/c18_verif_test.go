package client

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/hound-search/hound/index"
)

// Every increasing list of match positions in a text of n lines with consistent
// contexts, exhaustively for small n and randomly beyond.
func TestVerifC18(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rng := rand.New(rand.NewSource(seed))
	evals, distinct := 0, 0
	var samples []string
	fails := 0
	check := func(n int, lines []int, before, after func(i int) int) {
		evals++
		var ms []*index.Match
		want := map[int]string{}
		hit := map[int]bool{}
		desc := fmt.Sprintf("n=%d matches=", n)
		overlap := false
		for i, ln := range lines {
			m := &index.Match{LineNumber: ln, Line: fmt.Sprintf("L%d", ln)}
			b, a := before(i), after(i)
			for k := ln - b; k < ln; k++ {
				if k >= 1 {
					m.Before = append(m.Before, fmt.Sprintf("L%d", k))
					want[k] = fmt.Sprintf("L%d", k)
				}
			}
			want[ln] = m.Line
			hit[ln] = true
			for k := ln + 1; k <= ln+a && k <= n; k++ {
				m.After = append(m.After, fmt.Sprintf("L%d", k))
				want[k] = fmt.Sprintf("L%d", k)
			}
			ms = append(ms, m)
			desc += fmt.Sprintf("%d(-%d+%d) ", ln, len(m.Before), len(m.After))
			if i > 0 && ln-lines[i-1] <= a+b {
				overlap = true
			}
		}
		if overlap {
			distinct++
			if len(samples) < 3 {
				samples = append(samples, desc)
			}
		}
		fail := func(key, f string, a ...interface{}) {
			if fails < 5 {
				t.Errorf("VERIF-FAIL key=%s %s: %s", key, desc, fmt.Sprintf(f, a...))
			}
			fails++
		}
		defer func() {
			if e := recover(); e != nil {
				fail("panic", "panic %v", e)
			}
		}()
		in, _ := json.Marshal(ms)
		bs := coalesceMatches(ms)
		if out, _ := json.Marshal(ms); string(in) != string(out) {
			fail("modified", "the matches were changed: %s -> %s", in, out)
		}
		got := map[int]string{}
		last := 0
		for _, b := range bs {
			if len(b.Lines) != len(b.Matches) || len(b.Lines) == 0 {
				fail("shape", "block has %d lines, %d marks", len(b.Lines), len(b.Matches))
				return
			}
			for j, l := range b.Lines {
				k := b.Start + j
				if k <= last {
					fail("order", "line %d comes after line %d", k, last)
					return
				}
				last = k
				if _, dup := got[k]; dup {
					fail("dup", "line %d twice", k)
				}
				got[k] = l
				if b.Matches[j] != hit[k] {
					fail("mark", "line %d marked %v, want %v", k, b.Matches[j], hit[k])
				}
			}
		}
		for k, l := range want {
			if got[k] != l {
				fail("text", "line %d: got %q want %q", k, got[k], l)
			}
		}
		for k, l := range got {
			if want[k] != l {
				fail("extra", "line %d: got %q, not delivered", k, l)
			}
		}
	}
	top := 9
	if os.Getenv("VERIF_TIER") == "thorough" {
		top = 13
	}
	for n := 1; n <= top; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			var lines []int
			for i := 0; i < n; i++ {
				if mask&(1<<i) != 0 {
					lines = append(lines, i+1)
				}
			}
			for b := 0; b <= 3; b++ {
				for a := 0; a <= 3; a++ {
					check(n, lines, func(int) int { return b }, func(int) int { return a })
				}
			}
		}
	}
	for r := 0; r < 20000; r++ {
		n := 1 + rng.Intn(60)
		var lines []int
		p := 1 + rng.Intn(6)
		for i := 1; i <= n; i++ {
			if rng.Intn(p) == 0 {
				lines = append(lines, i)
			}
		}
		bs, as := make([]int, len(lines)), make([]int, len(lines))
		c := rng.Intn(8)
		for i := range lines {
			bs[i], as[i] = c, c
			if i > 0 && bs[i] >= lines[i]-lines[i-1] && rng.Intn(2) == 0 {
				bs[i] = lines[i] - lines[i-1] - 1 // the server cuts the context at the previous match
			}
		}
		check(n, lines, func(i int) int { return bs[i] }, func(i int) int { return as[i] })
	}
	st, _ := json.Marshal(map[string]interface{}{"evaluations": evals, "distinct": distinct,
		"rule":    fmt.Sprintf("all sets of match lines in up to %d lines with contexts 0..3, and random longer ones; non-trivial: two matches whose contexts touch", top),
		"samples": samples})
	fmt.Println("VERIF-STAT " + string(st))
}
