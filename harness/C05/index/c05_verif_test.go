package index

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	goregexp "regexp"
	"sort"
	"strings"
	"testing"
)

func TestVerifC05(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	base, err := ioutil.TempDir("", "c05")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(base)
	rounds, per := 6, 500
	if vfThorough() {
		rounds, per = 40, 2000
	}
	evals := 0
	distinct := map[string]bool{}
	var samples []string
	for r := 0; r < rounds; r++ {
		src := filepath.Join(base, fmt.Sprintf("src%d", r))
		texts := map[string]string{}
		for i := 2 + rng.Intn(14); i > 0; i-- {
			name := []string{"a", "b", "dir/a", "dir/b", "x/y/c", "Dir2/A"}[rng.Intn(6)] + []string{".go", ".js", "_test.go", "", ".GO"}[rng.Intn(5)]
			var b strings.Builder
			for j := rng.Intn(6); j > 0; j-- {
				b.WriteString([]string{"foo\n", "bar\n", "Foo bar\n", "f.o\n", "\n", "needle foo\n", "a+b\n", "aab\n"}[rng.Intn(8)])
			}
			texts[name] = b.String()
		}
		var auto []string
		for n, s := range texts {
			os.MkdirAll(filepath.Dir(filepath.Join(src, n)), 0755)
			ioutil.WriteFile(filepath.Join(src, n), []byte(s), 0644)
			if rng.Intn(4) == 0 {
				auto = append(auto, n)
			}
		}
		auto = append(auto, "not/there.go")
		ref, err := Build(&IndexOptions{AutoGeneratedFiles: auto}, filepath.Join(base, fmt.Sprintf("idx%d", r)), src, "u", "the rev")
		if err != nil {
			t.Fatalf("VERIF-FAIL key=setup %v", err)
		}
		ix, err := ref.Open()
		if err != nil {
			t.Fatalf("VERIF-FAIL key=setup %v", err)
		}
		// the order of the index is the order in which the tree is walked
		var names []string
		filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
			if !fi.IsDir() {
				rel, _ := filepath.Rel(src, p)
				names = append(names, rel)
			}
			return nil
		})
		for k := 0; k < per; k++ {
			pat := []string{"foo", "fo", "f.o", "o", "bar", "^", "a+b", "needle", "FOO", "zzz", "", "foo|bar", "o$"}[rng.Intn(13)]
			o := SearchOptions{}
			if rng.Intn(3) == 0 {
				o.IgnoreCase = true
			}
			if rng.Intn(4) == 0 {
				o.LiteralSearch = true
			}
			fileRe := []string{"", "", "", "\\.go$", "^a", "a", "dir/", "(?i)a\\.go", "^b$|js$", "zz", "test", "^"}
			o.FileRegexp = fileRe[rng.Intn(len(fileRe))]
			o.ExcludeFileRegexp = fileRe[rng.Intn(len(fileRe))]
			if rng.Intn(2) == 0 {
				o.Offset = rng.Intn(5)
			}
			if rng.Intn(2) == 0 {
				o.Limit = rng.Intn(5)
			}
			if rng.Intn(2) == 0 {
				o.MaxResults = rng.Intn(8) - 1
			}
			rp := pat
			if o.LiteralSearch {
				rp = goregexp.QuoteMeta(pat)
			}
			if o.IgnoreCase {
				rp = "(?i)" + rp
			}
			re := goregexp.MustCompile("(?m)" + rp)
			desc := fmt.Sprintf("pattern %q options %+v over %q", pat, o, texts)
			evals++
			distinct[desc] = true
			if len(samples) < 12 && evals%97 == 3 {
				samples = append(samples, fmt.Sprintf("pattern %q options %+v", pat, o))
			}
			res, err := ix.Search(pat, &o)
			if err != nil {
				vfFail(t, "error", "%s: %v", desc, err)
				continue
			}
			type fm struct {
				name  string
				lines []string
			}
			var want []fm
			found, collected, matches, lower, upper := 0, 0, 0, 0, 0
			for _, n := range names {
				if o.FileRegexp != "" && !goregexp.MustCompile(o.FileRegexp).MatchString(n) {
					continue
				}
				if o.ExcludeFileRegexp != "" && goregexp.MustCompile(o.ExcludeFileRegexp).MatchString(n) {
					continue
				}
				if o.MaxResults > 0 && matches >= o.MaxResults {
					continue
				}
				upper++
				all := c05Lines(texts[n], re)
				if len(all) == 0 {
					continue
				}
				lower++
				found++
				if found-1 < o.Offset || (o.Limit > 0 && collected >= o.Limit) {
					continue
				}
				if o.MaxResults > 0 && matches+len(all) > o.MaxResults {
					all = all[:o.MaxResults-matches]
				}
				matches += len(all)
				collected++
				want = append(want, fm{n, all})
			}
			if len(res.Matches) != len(want) {
				vfFail(t, "files", "%s: %d files, expected %d", desc, len(res.Matches), len(want))
				continue
			}
			for i, w := range want {
				g := res.Matches[i]
				var ls []string
				for _, m := range g.Matches {
					ls = append(ls, m.Line)
				}
				if g.Filename != w.name || strings.Join(ls, "\n") != strings.Join(w.lines, "\n") || len(ls) != len(w.lines) {
					vfFail(t, "matches", "%s: file %d is %s with %q, expected %s with %q", desc, i, g.Filename, ls, w.name, w.lines)
					break
				}
				gen := false
				for _, a := range auto {
					gen = gen || a == w.name
				}
				if g.AutoGenerated != gen {
					vfFail(t, "auto", "%s: %s auto generated %v, recorded %q", desc, w.name, g.AutoGenerated, auto)
				}
			}
			if res.FilesWithMatch != found {
				vfFail(t, "count", "%s: FilesWithMatch %d, expected %d", desc, res.FilesWithMatch, found)
			}
			if res.FilesOpened < lower || res.FilesOpened > upper {
				vfFail(t, "opened", "%s: FilesOpened %d, expected from %d to %d", desc, res.FilesOpened, lower, upper)
			}
			if (rp == "^" || rp == "" || rp == "o" || rp == "fo" || rp == "o$") && res.FilesOpened != upper {
				// the pattern is too short for the trigram index: every file that passes is opened
				vfFail(t, "opened", "%s: FilesOpened %d, expected %d", desc, res.FilesOpened, upper)
			}
			if res.Revision != "the rev" {
				vfFail(t, "rev", "%s: revision %q", desc, res.Revision)
			}
		}
		for _, bad := range []SearchOptions{{FileRegexp: "("}, {ExcludeFileRegexp: "["}, {FileRegexp: "a**", ExcludeFileRegexp: "a"}, {FileRegexp: "zz", ExcludeFileRegexp: "?"}} {
			o := bad
			if res, err := ix.Search("foo", &o); err == nil || res != nil {
				vfFail(t, "bad-pattern", "options %+v give no error", bad)
			}
			evals++
		}
		for _, p := range []string{"(", "[a", "a**", "\\", "(?<", "x{2,1}"} {
			if res, err := ix.Search(p, &SearchOptions{}); err == nil || res != nil {
				vfFail(t, "bad-pattern", "pattern %q gives no error", p)
			}
			if _, err := ix.Search(p, &SearchOptions{LiteralSearch: true}); err != nil {
				vfFail(t, "literal", "literal pattern %q: %v", p, err)
			}
			evals += 2
		}
		ix.Close()
	}
	sort.Strings(samples)
	vfStat(evals, len(distinct), "searches with random options over real indexes, compared with a direct reading of the options", samples)
}

func c05Lines(text string, re *goregexp.Regexp) []string {
	lines := strings.Split(text, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	var r []string
	for _, l := range lines {
		if re.MatchString(l) {
			r = append(r, l)
		}
	}
	return r
}
