package api

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
)

type c08Match struct {
	Line       string
	LineNumber int
	Before     []string
	After      []string
}
type c08Resp struct {
	Results map[string]struct {
		Matches []struct {
			Filename string
			Matches  []c08Match
		}
		FilesWithMatch int
		FilesOpened    int
	}
	Stats *struct{ FilesOpened, Duration int }
	Error string
}

func c08Get(m *http.ServeMux, v url.Values) (r c08Resp, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	w := httptest.NewRecorder()
	m.ServeHTTP(w, httptest.NewRequest("GET", "/api/v1/search?"+v.Encode(), nil))
	err = json.Unmarshal(w.Body.Bytes(), &r)
	return
}

func c08Digits(s string) (*big.Int, bool) {
	if s == "" {
		return nil, false
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return nil, false
		}
	}
	n, ok := new(big.Int).SetString(s, 10)
	return n, ok
}

func c08Uint(s string, bits uint) (uint64, bool) {
	n, ok := c08Digits(s)
	if !ok || n.BitLen() > int(bits) {
		return 0, false
	}
	return n.Uint64(), true
}

func c08Int(s string) (int64, bool) {
	neg := strings.HasPrefix(s, "-")
	d := s
	if neg || strings.HasPrefix(s, "+") {
		d = s[1:]
	}
	n, ok := c08Digits(d)
	if !ok {
		return 0, false
	}
	if neg {
		n.Neg(n)
	}
	if !n.IsInt64() {
		return 0, false
	}
	return n.Int64(), true
}

func TestVerifC08(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	dir, err := ioutil.TempDir("", "c08")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)

	files := map[string]string{}
	for i := 0; i < 25; i++ {
		files[fmt.Sprintf("f%02d.txt", i)] = "needle one\nplain\nneedle two\n"
	}
	var ctx strings.Builder
	for i := 1; i <= 120; i++ {
		if i == 60 {
			ctx.WriteString("the ctxmark line\n")
		} else {
			fmt.Fprintf(&ctx, "line %d\n", i)
		}
	}
	files["z_ctx.txt"] = ctx.String()
	files["z_lit.txt"] = "axb\n"
	big_ := strings.Repeat("manymark\n", 100020)
	files["z_many.txt"] = big_
	cfg := &config.Config{DbPath: dir, MaxConcurrentIndexers: 4, Repos: map[string]*config.Repo{}}
	names := []string{"alpha", "Beta", "gamma delta", "*x", "e,f"}
	for i, n := range names {
		fs := map[string]string{"a.txt": "needle\n"}
		if i == 0 {
			fs = files
		}
		_, cfg.Repos[n] = vfNew("fake://c08/"+n, "rev", fs)
	}
	idx, _, err := searcher.MakeAll(cfg)
	if err != nil || len(idx) != len(names) {
		t.Fatalf("VERIF-FAIL key=setup cannot set up the searchers: %v (%d)", err, len(idx))
	}
	evals := 0
	distinct := map[string]bool{}
	var samples []string
	note := func(s string) {
		evals++
		distinct[s] = true
		if len(samples) < 12 && evals%17 == 1 {
			samples = append(samples, s)
		}
	}
	for _, def := range []int{7, 3} {
		m := http.NewServeMux()
		Setup(m, idx, def)

		// repository lists
		tok := append([]string{"", "*", " ", "nosuch", "alpha ", " alpha", "ALPHA", "e", "f", "beta", "**"}, names...)
		lists := []string{"", "*", " * ", "\t*\n", "* ,", "*,alpha", "alpha,alpha", ",", ",,alpha,,", " alpha,Beta ", "alpha, Beta"}
		for i := 0; i < 150; i++ {
			n := 1 + rng.Intn(4)
			var p []string
			for j := 0; j < n; j++ {
				p = append(p, tok[rng.Intn(len(tok))])
			}
			lists = append(lists, strings.Join(p, ","))
		}
		for _, l := range lists {
			want := map[string]bool{}
			w := strings.TrimSpace(l)
			if w == "*" {
				for _, n := range names {
					want[n] = true
				}
			} else {
				for _, p := range strings.Split(w, ",") {
					for _, n := range names {
						if n == p {
							want[n] = true
						}
					}
				}
			}
			r, err := c08Get(m, url.Values{"repos": {l}, "q": {"needle"}})
			note("repos=" + l)
			if err != nil || r.Error != "" {
				vfFail(t, "repos", "repos=%q: %v %s", l, err, r.Error)
				continue
			}
			var got, exp []string
			for k := range r.Results {
				got = append(got, k)
			}
			for k := range want {
				exp = append(exp, k)
			}
			sort.Strings(got)
			sort.Strings(exp)
			if strings.Join(got, "|") != strings.Join(exp, "|") {
				vfFail(t, "repos", "repos=%q resolved to %q, expected %q", l, got, exp)
			}
		}

		// booleans
		for _, b := range []string{"", "true", "TRUE", "True", "tRuE", "1", "fosho", "FoSho", "FOSHO", "0", "false", "False", "yes", "on", "t", "y", "2", "11", "-1", "true ", " true", "01", "truE1", "foshoo"} {
			l := strings.ToLower(b)
			want := l == "true" || l == "1" || l == "fosho"
			r, err := c08Get(m, url.Values{"repos": {"alpha"}, "q": {"AXB"}, "i": {b}})
			note("i=" + b)
			if err != nil || (len(r.Results["alpha"].Matches) > 0) != want {
				vfFail(t, "bool", "i=%q: ignore case applied=%v, expected %v (%v)", b, len(r.Results["alpha"].Matches) > 0, want, err)
			}
			r, err = c08Get(m, url.Values{"repos": {"alpha"}, "q": {"a.b"}, "literal": {b}})
			note("literal=" + b)
			if err != nil || (len(r.Results["alpha"].Matches) == 0) != want {
				vfFail(t, "bool", "literal=%q: literal applied=%v, expected %v (%v)", b, len(r.Results["alpha"].Matches) == 0, want, err)
			}
			r, err = c08Get(m, url.Values{"repos": {"alpha"}, "q": {"axb"}, "stats": {b}})
			note("stats=" + b)
			if err != nil || (r.Stats != nil) != want {
				vfFail(t, "bool", "stats=%q: stats given=%v, expected %v (%v)", b, r.Stats != nil, want, err)
			}
		}

		// ranges
		bounds := []string{"", "0", "1", "2", "5", "24", "25", "26", "100", "-1", "+1", "x", "1.5", "1e1", " 1", "007", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "4294967296", "0x10", "1_0"}
		rngs := []string{"", ":", "5", "::", "1:2:3", "5-10", "1:"}
		for i := 0; i < 120; i++ {
			rngs = append(rngs, bounds[rng.Intn(len(bounds))]+":"+bounds[rng.Intn(len(bounds))])
		}
		for _, rv := range rngs {
			var off, lim uint64
			if i := strings.Index(rv, ":"); i >= 0 {
				if n, ok := c08Uint(rv[:i], 63); ok {
					off = n
				}
				if n, ok := c08Uint(rv[i+1:], 63); ok {
					lim = n
				}
			}
			r, err := c08Get(m, url.Values{"repos": {"alpha"}, "q": {"needle"}, "rng": {rv}, "limit": {"100000"}})
			note("rng=" + rv)
			if err != nil || r.Error != "" {
				vfFail(t, "rng", "rng=%q: %v %s", rv, err, r.Error)
				continue
			}
			want := 0
			if off < 25 {
				want = 25 - int(off)
			}
			if lim > 0 && lim < uint64(want) {
				want = int(lim)
			}
			ms := r.Results["alpha"].Matches
			if len(ms) != want {
				vfFail(t, "rng", "rng=%q: %d files returned, expected %d", rv, len(ms), want)
				continue
			}
			for i, f := range ms {
				if f.Filename != fmt.Sprintf("f%02d.txt", int(off)+i) {
					vfFail(t, "rng", "rng=%q: file %d is %s", rv, i, f.Filename)
					break
				}
			}
		}

		// context
		ctxs := []string{"", "0", "1", "2", "3", "19", "20", "21", "22", "55", "59", "60", "100", "-1", "-20", "+3", "x", "2.5", "3 ", "18014398509481983", "18014398509481984", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "9223372036854775808", "007", "0x5", "2147483648"}
		for i := 0; i < 30; i++ {
			ctxs = append(ctxs, fmt.Sprint(rng.Intn(70)))
		}
		for _, c := range ctxs {
			want := uint64(2)
			if n, ok := c08Uint(c, 54); ok {
				want = n
				if want > 20 {
					want = 20
				}
			}
			v := url.Values{"repos": {"alpha"}, "q": {"ctxmark"}, "ctx": {c}}
			r, err := c08Get(m, v)
			note("ctx=" + c)
			if err != nil || len(r.Results["alpha"].Matches) != 1 || len(r.Results["alpha"].Matches[0].Matches) != 1 {
				vfFail(t, "ctx", "ctx=%q: no single match (%v %s)", c, err, r.Error)
				continue
			}
			x := r.Results["alpha"].Matches[0].Matches[0]
			if uint64(len(x.Before)) != want || uint64(len(x.After)) != want {
				vfFail(t, "ctx", "ctx=%q: %d lines before and %d after, expected %d", c, len(x.Before), len(x.After), want)
			}
		}

		// result limit
		lims := []string{"", "1", "2", "6", "8", "49", "50", "51", "x", "1.0", "-1", "-2", "-100", "0", "+4", "-9223372036854775808", "-9223372036854775809", "9223372036854775808", "99999999999999999999", "1 ", "007", "1e3"}
		for i := 0; i < 30; i++ {
			lims = append(lims, fmt.Sprint(rng.Intn(60)-3))
		}
		check := func(q, l string, total int64) {
			want, ok := c08Int(l)
			if !ok {
				want = int64(def)
			} else if want > 100000 {
				want = 100000
			}
			if want <= 0 || want > total {
				want = total
			}
			r, err := c08Get(m, url.Values{"repos": {"alpha"}, "q": {q}, "limit": {l}, "ctx": {"0"}})
			note("limit=" + l)
			got := int64(0)
			for _, f := range r.Results["alpha"].Matches {
				got += int64(len(f.Matches))
			}
			if err != nil || got != want {
				vfFail(t, "limit", "limit=%q (default %d): %d matches returned, expected %d (%v %s)", l, def, got, want, err, r.Error)
			}
		}
		for _, l := range lims {
			check("needle", l, 50)
		}
		for _, l := range []string{"99999", "100000", "100001", "2147483648", "9223372036854775807", "9223372036854775808", "0", "-1"} {
			check("manymark", l, 100020)
		}
	}
	vfStat(evals, len(distinct), "requests to the real search handler over real searchers; each parameter's effect compared with an independent reading of the documentation", samples)
}
