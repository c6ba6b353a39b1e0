package client

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"regexp"
	"strings"
	"testing"
	"unsafe"

	"github.com/hound-search/hound/ansi"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
)

func c19Colorer(on bool) *ansi.Colorer {
	c := &ansi.Colorer{}
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Bool {
			*(*bool)(unsafe.Pointer(f.UnsafeAddr())) = on
		}
	}
	return c
}

// c19Ranges splits a coloured text into the text and its coloured ranges.
func c19Ranges(s string) (text string, ranges [][]int, ok bool) {
	open := -1
	re := regexp.MustCompile(`^\x1b\[[0-9;]*m`)
	for len(s) > 0 {
		if m := re.FindString(s); m != "" {
			if m == "\x1b[0m" {
				if open < 0 {
					return "", nil, false
				}
				if open < len(text) {
					ranges = append(ranges, []int{open, len(text)})
				}
				open = -1
			} else {
				if open >= 0 {
					return "", nil, false
				}
				open = len(text)
			}
			s = s[len(m):]
			continue
		}
		text += s[:1]
		s = s[1:]
	}
	return text, ranges, open < 0
}

func c19Text(rng *rand.Rand, n int) string {
	var b strings.Builder
	for i := rng.Intn(n + 1); i > 0; i-- {
		b.WriteString([]string{"a", "b", "c", "é", " ", "%", "[", "m", "\t", "\xff", "ab"}[rng.Intn(11)])
	}
	return b.String()
}

func TestVerifC19(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	rounds := 3000
	if vfThorough() {
		rounds = 50000
	}
	crash := func(key, what string, f func()) {
		defer func() {
			if r := recover(); r != nil {
				vfFail(t, key, "%s crashes: %v", what, r)
			}
		}()
		f()
	}
	evals, distinct := 0, map[string]bool{}
	var samples []string
	pats := []string{"a", "ab", "a|b", "^", "$", "a*", "", "é", ".", "(?i)B+", "a b", "^a", "b$", "x", "[^a]", "\\b"}
	on, off := c19Colorer(true), c19Colorer(false)
	for r := 0; r < rounds && !t.Failed(); r++ {
		p := pats[rng.Intn(len(pats))]
		re := regexp.MustCompile(p)
		line := c19Text(rng, 20)
		evals += 2
		distinct[p+"\x00"+line] = true
		crash("crash", fmt.Sprintf("highlighting %q in %q", p, line), func() {
			if g := hiliteMatches(off, re, line); g != line {
				vfFail(t, "off", "highlighting %q in %q without colour gives %q", p, line, g)
			}
			g := hiliteMatches(on, re, line)
			text, ranges, ok := c19Ranges(g)
			var want [][]int
			for _, x := range re.FindAllStringIndex(line, -1) {
				if x[0] < x[1] {
					want = append(want, x)
				}
			}
			if !ok || text != line || len(ranges) != len(want) || len(want) > 0 && !reflect.DeepEqual(ranges, want) {
				vfFail(t, "on", "highlighting %q in %q gives %q: text %q, coloured %v, expected %v", p, line, g, text, ranges, want)
			}
		})
		if len(samples) < 8 && r%300 == 4 {
			samples = append(samples, fmt.Sprintf("%q in %q", p, line))
		}
		// URL shortening
		var u strings.Builder
		for i := rng.Intn(8); i > 0; i-- {
			u.WriteString([]string{"/", "/", "//", "a", "b.git", ".git", "https://", "git@h:", "é", ".", " "}[rng.Intn(11)])
		}
		url := u.String()
		evals++
		distinct[url] = true
		crash("crash", fmt.Sprintf("shortening %q", url), func() {
			g := repoNameFromUrl(url)
			if strings.Contains(url, "/") {
				last := url[strings.LastIndex(url, "/")+1:]
				if !strings.HasSuffix(g, strings.TrimSuffix(last, ".git")) {
					vfFail(t, "name", "%q is shortened to %q", url, g)
				}
			}
			name := c19Text(rng, 3)
			repos := map[string]*config.Repo{"a": {Url: url}, "b": nil, "c": {Url: url, DisplayName: "dn" + name}}
			for _, k := range []string{"a", "b", "c", "d", ""} {
				n := repoNameFor(repos, k)
				if k == "c" && n != "dn"+name || (k == "b" || k == "d" || k == "") && n != k || k == "a" && n != g && !(g == "" && n == "a") {
					vfFail(t, "display", "repository %q of %q is displayed as %q", k, url, n)
				}
			}
			repoNameFor(nil, "x")
		})
		host, owner, name := "https://h"+c19Plain(rng), c19Plain(rng), c19Plain(rng)
		for _, x := range []string{"", ".git"} {
			full := host + "/p/" + owner + "/" + name + x
			if g := repoNameFromUrl(full); g != owner+"/"+name {
				vfFail(t, "name", "%q is shortened to %q", full, g)
			}
		}
		// a whole answer, printed to a file: colour is off, so the text must be exact
		if r%10 == 0 {
			ctx := rng.Intn(3)
			var ms []*index.Match
			want := ""
			fn := "dir/" + c19Plain(rng) + ".go"
			lno := 1
			for i := 1 + rng.Intn(4); i > 0; i-- {
				m := &index.Match{LineNumber: lno + ctx + rng.Intn(3), Line: c19Text(rng, 10), Before: []string{}, After: []string{}}
				for k := ctx; k > 0; k-- {
					l := c19Text(rng, 5)
					m.Before = append(m.Before, l)
					n := fmt.Sprint(m.LineNumber - k)
					want += n + "-" + strings.Repeat(" ", 6-len(n)) + l + "\n"
				}
				n := fmt.Sprint(m.LineNumber)
				want += n + ":" + strings.Repeat(" ", 6-len(n)) + m.Line + "\n"
				for k := 1; k <= ctx; k++ {
					l := c19Text(rng, 5)
					m.After = append(m.After, l)
					n := fmt.Sprint(m.LineNumber + k)
					want += n + "-" + strings.Repeat(" ", 6-len(n)) + l + "\n"
				}
				if ctx > 0 {
					want += "--\n"
				} // every match is far from the next one: one block each
				lno = m.LineNumber + 3*ctx + 5 + rng.Intn(4000)
				ms = append(ms, m)
			}
			want = "h/n\n" + fn + "\n" + want + "\n"
			f, err := ioutil.TempFile("", "c19")
			if err != nil {
				t.Fatal(err)
			}
			res := &Response{Results: map[string]*index.SearchResponse{"k": {Matches: []*index.FileMatch{{Filename: fn, Matches: ms}}}}}
			crash("crash", "printing an answer", func() {
				err = NewAckPresenter(f).Present(re, ctx, map[string]*config.Repo{"k": {Url: "x://o/h/n.git"}}, res)
			})
			b, _ := ioutil.ReadFile(f.Name())
			f.Close()
			os.Remove(f.Name())
			evals++
			if err != nil || string(b) != want {
				vfFail(t, "print", "an answer of %d matches with context %d is printed as %q, expected %q", len(ms), ctx, b, want)
			}
		}
	}
	// answers of a server
	bodies := []string{`{}`, `null`, `{"a":null}`, `{"a":{"url":"/"}}`, `{"a":{"url":""},"":{"url":"//"}}`, `[]`, `x`, ``, `{"a":`, `{"a":{"url":"https://h/o/r.git","vcs-config":{}}}`, `{"a":{"url":"u","vcs-config":null,"url-pattern":null}}`}
	search := []string{`{"Results":{}}`, `{"Results":null}`, `{}`, `null`, `{"Results":{"a":{"Matches":[],"FilesWithMatch":0,"FilesOpened":0,"Duration":0,"Revision":"x"}}}`,
		`{"Results":{"a":{"Matches":[{"Filename":"f","Matches":[{"Line":"aé","LineNumber":3,"Before":["x"],"After":[]}]}]}},"Stats":{"FilesOpened":1,"Duration":2}}`,
		`{"Results":{"a":{"Matches":null}}}`, `{"Results":{"a":{"Matches":[{"Filename":"","Matches":null}]}}}`, `[]`, `x`, ``, `{"Results":{"a":`}
	for i, rb := range bodies {
		for j, sb := range search {
			for _, code := range []int{200, 500} {
				var got *http.Request
				srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					if strings.HasSuffix(r.URL.Path, "/repos") {
						fmt.Fprint(w, rb)
						return
					}
					got = r
					w.WriteHeader(code)
					fmt.Fprint(w, sb)
				}))
				what := fmt.Sprintf("the answers %q and %q with status %d", rb, sb, code)
				crash("crash", what, func() {
					cfg := &Config{Host: strings.TrimPrefix(srv.URL, "http://"), HttpHeaders: map[string]string{"Host": "hh", "X-A": "b"}}
					res, repos, err := SearchAndLoadRepos(cfg, "a b&c", "*", "f.go", 3, true, false)
					evals++
					wantErr := i == 5 || i == 6 || i == 7 || i == 8 || j >= 8 || code != 200
					if (err != nil) != wantErr {
						vfFail(t, "load", "%s give error %v", what, err)
					}
					q := got.URL.Query()
					if q.Get("q") != "a b&c" || q.Get("repos") != "*" || q.Get("files") != "f.go" || q.Get("ctx") != "3" || q.Get("i") != "true" || q.Get("stats") != "false" || got.Host != "hh" || got.Header.Get("X-A") != "b" {
						vfFail(t, "request", "the request is %s to %s with %v", got.URL, got.Host, got.Header)
					}
					if err == nil {
						f, _ := ioutil.TempFile("", "c19")
						defer os.Remove(f.Name())
						defer f.Close()
						if err := NewAckPresenter(f).Present(regexp.MustCompile("a"), 1, repos, res); err != nil {
							vfFail(t, "print", "%s cannot be printed: %v", what, err)
						}
						if err := NewGrepPresenter(f).Present(regexp.MustCompile("a"), 1, repos, res); err != nil {
							vfFail(t, "print", "%s cannot be printed: %v", what, err)
						}
					}
				})
				srv.Close()
			}
		}
	}
	vfStat(evals, len(distinct), "random patterns, lines, URLs and answers; highlighting is taken apart into text and coloured ranges, printed answers are compared with the expected text", samples)
}

func c19Plain(rng *rand.Rand) string {
	b := make([]byte, 1+rng.Intn(6))
	for i := range b {
		b[i] = "abcxyz-_0."[rng.Intn(9)]
	}
	return string(b)
}
