package index

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
)

// Random small file sets over a tiny alphabet; every query is compared with a
// direct evaluation over the texts.
func TestVerifC02(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rng := rand.New(rand.NewSource(seed))
	rounds := 60
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 600
	}
	dir, err := ioutil.TempDir("", "c02")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	evals, distinct, fails := 0, 0, 0
	var samples []string
	for r := 0; r < rounds; r++ {
		n := rng.Intn(40)
		if r%10 == 0 {
			n = 200 + rng.Intn(200) // file id gaps above 127: two-byte deltas
		}
		var texts []string
		ix := Create(filepath.Join(dir, fmt.Sprintf("x%d", r)))
		for i := 0; i < n; i++ {
			l := rng.Intn(30)
			b := make([]byte, l)
			for j := range b {
				b[j] = "abcd"[rng.Intn(4)]
			}
			if n > 100 && rng.Intn(10) > 0 {
				b = nil
			}
			texts = append(texts, string(b))
			ix.Add(fmt.Sprintf("f%d", i), strings.NewReader(string(b)))
		}
		ix.Flush()
		rd := Open(filepath.Join(dir, fmt.Sprintf("x%d", r)))
		tri := func() string {
			b := make([]byte, 3)
			for j := range b {
				b[j] = "abcde"[rng.Intn(4+rng.Intn(2))]
			}
			return string(b)
		}
		var gen func(d int) *Query
		gen = func(d int) *Query {
			switch k := rng.Intn(10); {
			case k == 0:
				return &Query{Op: QAll}
			case k == 1:
				return &Query{Op: QNone}
			}
			q := &Query{Op: QAnd}
			if rng.Intn(2) == 0 {
				q.Op = QOr
			}
			for i := rng.Intn(4); i > 0; i-- {
				q.Trigram = append(q.Trigram, tri())
			}
			if d > 0 {
				for i := rng.Intn(3); i > 0; i-- {
					q.Sub = append(q.Sub, gen(d-1))
				}
			}
			if len(q.Trigram)+len(q.Sub) == 0 {
				q.Trigram = append(q.Trigram, tri())
			}
			return q
		}
		var sat func(q *Query, s string) bool
		sat = func(q *Query, s string) bool {
			switch q.Op {
			case QAll:
				return true
			case QNone:
				return false
			case QAnd:
				for _, x := range q.Trigram {
					if !strings.Contains(s, x) {
						return false
					}
				}
				for _, x := range q.Sub {
					if !sat(x, s) {
						return false
					}
				}
				return true
			}
			for _, x := range q.Trigram {
				if strings.Contains(s, x) {
					return true
				}
			}
			for _, x := range q.Sub {
				if sat(x, s) {
					return true
				}
			}
			return false
		}
		for k := 0; k < 60; k++ {
			q := gen(3)
			evals++
			var want []uint32
			for i, s := range texts {
				if sat(q, s) {
					want = append(want, uint32(i))
				}
			}
			if len(want) > 0 && len(want) < n {
				distinct++
				if len(samples) < 3 {
					samples = append(samples, fmt.Sprintf("files=%d query=%s files=%v", n, q, want))
				}
			}
			bad := func(key, how string, got []uint32, want []uint32) {
				if len(got) == len(want) {
					same := true
					for i := range got {
						same = same && got[i] == want[i]
					}
					if same {
						return
					}
				}
				if fails < 4 {
					t.Errorf("VERIF-FAIL key=%s texts=%q %s: got %v want %v", key, texts, how, got, want)
				}
				fails++
			}
			func() {
				defer func() {
					if e := recover(); e != nil {
						if fails < 4 {
							t.Errorf("VERIF-FAIL key=panic texts=%q query %s: panic %v", texts, q, e)
						}
						fails++
					}
				}()
				bad("query", "query "+q.String(), rd.PostingQuery(q), want)
			}()
			// the list operations one by one
			var list []uint32
			for i := 0; i < n; i++ {
				if rng.Intn(3) == 0 {
					list = append(list, uint32(i))
				}
			}
			x := tri()
			tc := uint32(x[0])<<16 | uint32(x[1])<<8 | uint32(x[2])
			var has, and, or []uint32
			set := map[uint32]bool{}
			for _, v := range list {
				set[v] = true
			}
			for i, s := range texts {
				if strings.Contains(s, x) {
					has = append(has, uint32(i))
					if set[uint32(i)] {
						and = append(and, uint32(i))
					}
					set[uint32(i)] = true
				}
			}
			for v := range set {
				or = append(or, v)
			}
			sort.Slice(or, func(i, j int) bool { return or[i] < or[j] })
			bad("list", "list "+x, rd.PostingList(tc), has)
			bad("or", fmt.Sprintf("or %s %v", x, list), rd.PostingOr(append([]uint32(nil), list...), tc), or)
			bad("and", fmt.Sprintf("and %s %v", x, list), rd.PostingAnd(append([]uint32(nil), list...), tc), and)
		}
		rd.Close()
		ix.Close()
		os.Remove(filepath.Join(dir, fmt.Sprintf("x%d", r)))
	}
	st, _ := json.Marshal(map[string]interface{}{"evaluations": evals, "distinct": distinct,
		"rule":    "random query trees over random small texts, compared with direct evaluation; non-trivial: some but not all files satisfy it",
		"samples": samples})
	fmt.Println("VERIF-STAT " + string(st))
}
