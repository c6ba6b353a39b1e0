package index

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	goregexp "regexp"
	"strings"
	"testing"
)

func c04Text(rng *rand.Rand, kind int) string {
	switch kind {
	case 0: // tiny
		return c04From(rng, "ab\n", rng.Intn(14))
	case 1:
		return c04From(rng, "aabb \n\n", rng.Intn(60))
	case 2: // with carriage returns and longer runes
		return c04From(rng, "ab\r\né€\t", rng.Intn(40))
	case 3: // numbered lines
		var b strings.Builder
		for i := rng.Intn(40); i > 0; i-- {
			fmt.Fprintf(&b, "%s%d\n", []string{"", "a", "bb ", "ab"}[rng.Intn(4)], i)
		}
		if rng.Intn(2) == 0 {
			b.WriteString("tail")
		}
		return b.String()
	case 4: // only newlines and matches on neighbouring lines
		return strings.Repeat("\n", rng.Intn(5)) + strings.Repeat("a\n", rng.Intn(8)) + strings.Repeat("\n", rng.Intn(4))
	}
	return ""
}

func c04From(rng *rand.Rand, alpha string, n int) string {
	rs := []rune(alpha)
	b := make([]rune, n)
	for i := range b {
		b[i] = rs[rng.Intn(len(rs))]
	}
	return string(b)
}

type c04Line struct {
	text          string
	no            int
	before, after []string
}

// c04Want is the reading of the statement: the lines that match, in order.
func c04Want(text string, re *goregexp.Regexp, nctx int) []c04Line {
	lines := strings.Split(text, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	var res []c04Line
	last := 0 // lines up to here are reported already or before a reported one
	for i, l := range lines {
		if !re.MatchString(l) {
			continue
		}
		x := c04Line{text: l, no: i + 1}
		from := i - nctx
		if from < last {
			from = last
		}
		x.before = lines[from:i]
		to := i + 1 + nctx
		if to > len(lines) {
			to = len(lines)
		}
		x.after = lines[i+1 : to]
		last = i + 1
		res = append(res, x)
	}
	return res
}

func c04Same(a []string, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func TestVerifC04(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	dir, err := ioutil.TempDir("", "c04")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	src := filepath.Join(dir, "src")
	os.MkdirAll(src, 0755)
	texts := map[string]string{}
	n := 400
	if vfThorough() {
		n = 4000
	}
	for i := 0; i < n; i++ {
		texts[fmt.Sprintf("f%05d", i)] = c04Text(rng, i%5)
	}
	for i, s := range []string{"", "\n", "\n\n", "a", "a\n", "\na", "\n\na\n\n", "a\n\n", "a\na", "b\n\n\na\n\n\nb\n\na"} {
		texts[fmt.Sprintf("g%02d", i)] = s
	}
	// long lines (few of them, or the file is not indexed)
	for i, sz := range []int{3000, 5000, 17000, 70000} {
		var b strings.Builder
		for k := 0; k < 60; k++ {
			switch {
			case k%20 == 7+i:
				b.WriteString(strings.Repeat("z y", sz/3) + "\n")
			case k%20 == 8+i || k%20 == 6+i || k%20 == 10+i:
				fmt.Fprintf(&b, "a %d b\n", k)
			default:
				fmt.Fprintf(&b, "c%d\n", k)
			}
		}
		texts[fmt.Sprintf("fl%d", i)] = b.String()
	}
	// around the sizes of the buffer, which doubles as it fills
	for i, sz := range []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 - 1, 1 << 21, 1<<21 + 1, 3<<20 + 7, 1<<22 + 1} {
		var b strings.Builder
		k := 0
		for b.Len() < sz-40 {
			k++
			if k%997 == 0 {
				fmt.Fprintf(&b, "a mark %d\n", k)
			} else {
				b.WriteString("zz zz zz zz zz zz zz\n")
			}
		}
		for b.Len() < sz-1 {
			b.WriteByte('z')
		}
		b.WriteString([]string{"a", "\n"}[i%2])
		texts[fmt.Sprintf("h%02d", i)] = b.String()
	}
	for name, s := range texts {
		if err := ioutil.WriteFile(filepath.Join(src, name), []byte(s), 0644); err != nil {
			t.Fatal(err)
		}
	}
	ref, err := Build(&IndexOptions{}, filepath.Join(dir, "idx"), src, "u", "r")
	if err != nil {
		t.Fatalf("VERIF-FAIL key=setup %v", err)
	}
	ix, err := ref.Open()
	if err != nil {
		t.Fatalf("VERIF-FAIL key=setup %v", err)
	}
	defer ix.Close()
	pats := []string{"a", "b", "ab", "^a", "a$", "^$", "^a$", "[ab]b", "a|b", "a b", "", "^", "$", "a.*b", "é", "a mark [0-9]+", "bb?", "(a|^)b", "\\bab\\b", "[^a\\n]", "^ ", " $", "a$|^b", "\\Ba", "tail", ".", "1$", "mark 9970$"}
	evals := 0
	distinct := map[string]bool{}
	var samples []string
	for _, nctx := range []uint{0, 1, 2, 3, 7, 20} {
		for pi, p := range pats {
			big := (nctx == 1 || nctx == 20) && (p == "a mark [0-9]+" || p == "mark 9970$" || p == "a$")
			if nctx > 2 && pi%3 != int(nctx)%3 {
				continue
			}
			re := goregexp.MustCompile("(?m)" + p)
			filter := ""
			if !big {
				filter = "^[fg]"
			}
			res, err := ix.Search(p, &SearchOptions{LinesOfContext: nctx, FileRegexp: filter})
			if err != nil {
				vfFail(t, "error", "pattern %q: %v", p, err)
				continue
			}
			got := map[string][]*Match{}
			for _, f := range res.Matches {
				if got[f.Filename] != nil {
					vfFail(t, "twice", "pattern %q: %s is reported twice", p, f.Filename)
				}
				got[f.Filename] = f.Matches
			}
			for name, text := range texts {
				if !big && name[0] == 'h' {
					continue
				}
				evals++
				want := c04Want(text, re, int(nctx))
				ms := got[name]
				desc := func() string {
					if len(text) > 300 {
						return fmt.Sprintf("pattern %q context %d on %s (%d bytes)", p, nctx, name, len(text))
					}
					return fmt.Sprintf("pattern %q context %d on %q", p, nctx, text)
				}
				if len(want) > 0 {
					distinct[desc()] = true
				}
				if len(samples) < 12 && evals%1777 == 5 {
					samples = append(samples, desc())
				}
				if len(ms) != len(want) {
					var g, w []int
					for _, m := range ms {
						g = append(g, m.LineNumber)
					}
					for _, m := range want {
						w = append(w, m.no)
					}
					if len(g) > 20 {
						g = g[:20]
					}
					if len(w) > 20 {
						w = w[:20]
					}
					vfFail(t, "lines", "%s: %d lines reported %v, expected %d %v", desc(), len(ms), g, len(want), w)
					continue
				}
				for i, w := range want {
					m := ms[i]
					if m.LineNumber != w.no || m.Line != w.text {
						vfFail(t, "line", "%s: match %d is line %d %.60q, expected %d %.60q", desc(), i, m.LineNumber, m.Line, w.no, w.text)
						break
					}
					if !c04Same(m.Before, w.before) {
						vfFail(t, "before", "%s: before line %d: %.100q, expected %.100q", desc(), w.no, m.Before, w.before)
						break
					}
					if !c04Same(m.After, w.after) {
						vfFail(t, "after", "%s: after line %d: %.100q, expected %.100q", desc(), w.no, m.After, w.after)
						break
					}
				}
			}
		}
	}
	vfStat(evals, len(distinct), "searches of a real index over generated texts, every reported line compared with a line by line reading by Go's regexp", samples)
}
