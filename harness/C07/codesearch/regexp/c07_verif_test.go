package regexp

import (
	"fmt"
	"math/rand"
	goregexp "regexp"
	"regexp/syntax"
	"strings"
	"testing"
)

// c07Want reads the answer off Go's regexp. The pattern cannot match a newline.
func c07Want(std *goregexp.Regexp, b string, beginText, endText bool) int {
	t, off := b, 0
	if !beginText {
		t, off = "\n"+t, 1
	}
	if !endText {
		t += "\n"
	}
	for _, loc := range std.FindAllStringIndex(t, -1) {
		s := loc[0] - off
		if s < 0 {
			continue
		}
		if s > len(b) {
			break
		}
		if i := strings.IndexByte(b[s:], '\n'); i >= 0 {
			return s + i
		}
		return len(b)
	}
	return -1
}

func TestVerifC07(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	rounds := 16000
	if vfThorough() {
		rounds = 60000
	}
	fixed := []string{"", "a", "^", "$", "^$", "\\b", "\\B", "\\bab\\b", "a\\b", "\\Ba", "\\Aa", "a\\z", "\\A", "\\z", "\\A\\z", "(?-m:^a)", "(?-m:a$)", "(?i)straße", "(?i)k", "(?i)ſ", "[^a\\n]", ".", ".*", ".+b", "é", "[à-ü]", "(a|ab)(c|bcd)", "\\x{10FFFF}", "[\\x{0}-\\x{10FFFF}&&[^\\n]]", "\\d+\\.\\d+", "(a*)*b", "(?:aa|b)*$", "\\b$", "$\\b", "^\\b", "a$|^b", "[[:alpha:]]+", "\\pL[^\\pN\\n]", "[^\\pL\\n]$", "[Àà]b", "[Kk]", "(?i)[a-k]", "(?i)[à-ö]x", "(?i:\\.)", "a.c", "a{0}b", "(|a)$"}
	evals, distinct := 0, map[string]bool{}
	var samples []string
	type held struct {
		p   string
		re  *Regexp
		std *goregexp.Regexp
		syn *syntax.Regexp
	}
	var pool []held
	for r := 0; r < rounds+len(fixed); r++ {
		p := ""
		if r < len(fixed) {
			p = fixed[r]
		} else {
			p = vfPattern(rng, 1+rng.Intn(4))
		}
		p = []string{"(?m)", "(?m)", "(?i)(?m)", ""}[rng.Intn(4)] + p
		std, err := goregexp.Compile(p)
		if err != nil {
			if _, err := Compile(p); err == nil && r < len(fixed) {
				vfFail(t, "accepts", "pattern %q is accepted", p)
			}
			continue
		}
		syn, err := syntax.Parse(p, syntax.Perl)
		if err != nil || std.MatchString("\n") && goregexp.MustCompile("^(?:"+p+")$").MatchString("\n") && strings.Contains(p, "(?s") {
			continue
		}
		re, err := Compile(p)
		if err != nil {
			vfFail(t, "rejects", "pattern %q is rejected: %v", p, err)
			continue
		}
		pool = append(pool, held{p, re, std, syn})
		if len(pool) > 30 {
			pool = pool[1:]
		}
		for k := 0; k < 14; k++ {
			// earlier patterns with warm caches, too
			h := pool[len(pool)-1]
			if k > 9 {
				h = pool[rng.Intn(len(pool))]
			}
			text := ""
			switch k % 5 {
			case 0:
				text = vfRandText(rng, rng.Intn(10))
			case 1:
				text = vfRandText(rng, rng.Intn(8)) + vfMatching(rng, h.syn) + vfRandText(rng, rng.Intn(8))
			case 2:
				text = vfRandText(rng, rng.Intn(8)) + "\n" + vfMatching(rng, h.syn) + "\n" + vfMatching(rng, h.syn)
			case 3:
				text = vfMatching(rng, h.syn)
			case 4:
				text = vfRandText(rng, rng.Intn(60))
			}
			if strings.Contains(strings.ToLower(h.p), "\\b") && strings.IndexFunc(text, func(r rune) bool { return r >= 0x80 }) >= 0 {
				// the matcher looks for word boundaries between bytes, Go's regexp between runes
				continue
			}
			bt, et := rng.Intn(3) > 0, rng.Intn(3) > 0
			want := c07Want(h.std, text, bt, et)
			// the text lies inside a larger buffer whose bytes must not matter
			buf := []byte("a\nb" + text + "\nab a")
			b := buf[3 : 3+len(text)]
			got := h.re.Match(b, bt, et)
			gots := h.re.MatchString(text, bt, et)
			evals += 2
			desc := fmt.Sprintf("pattern %q on %q (begin %v, end %v)", h.p, text, bt, et)
			distinct[desc] = true
			if len(samples) < 12 && evals%1001 == 6 {
				samples = append(samples, desc)
			}
			if got != want {
				vfFail(t, "match", "%s: Match gives %d, expected %d", desc, got, want)
			}
			if gots != want {
				vfFail(t, "match", "%s: MatchString gives %d, expected %d", desc, gots, want)
			}
			if string(buf) != "a\nb"+text+"\nab a" {
				vfFail(t, "write", "%s: the text was changed", desc)
			}
			if h.re.String() != h.p {
				vfFail(t, "source", "%q prints as %q", h.p, h.re.String())
			}
		}
	}
	// every character as a pattern, against every character
	texts := []string{"", "é", "É", "ß", "ſ", "K", "\xff", "\xc3"}
	for c := 0; c < 128; c++ {
		texts = append(texts, string(rune(c)), "z"+string(rune(c))+"Z")
	}
	for c := rune(1); c < 256; c++ {
		q := goregexp.QuoteMeta(string(c))
		for _, p := range []string{q, "(?i)" + q, "(?i)[" + "\\x{" + fmt.Sprintf("%x", c) + "}-\\x{" + fmt.Sprintf("%x", c+1) + "}]", "z(?i:" + q + ")"} {
			std, err := goregexp.Compile(p)
			if err != nil || c == 10 || c == 9 {
				continue
			}
			re, err := Compile(p)
			if err != nil {
				vfFail(t, "rejects", "pattern %q is rejected: %v", p, err)
				continue
			}
			for _, text := range texts {
				want := c07Want(std, text, true, true)
				got, gots := re.Match([]byte(text), true, true), re.MatchString(text, true, true)
				evals += 2
				if got != want || gots != want {
					vfFail(t, "match", "pattern %q on %q: Match gives %d, MatchString %d, expected %d", p, text, got, gots, want)
				}
			}
		}
	}
	vfStat(evals, len(distinct), "pairs of a generated pattern and text, with warm and cold caches, compared with the first matching line according to Go's regexp", samples)
}
