package index

import (
	"fmt"
	"math/rand"
	goregexp "regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"testing"
)

func c01Sat(q *Query, tri map[string]bool) bool {
	switch q.Op {
	case QAll:
		return true
	case QNone:
		return false
	case QAnd:
		for _, t := range q.Trigram {
			if !tri[t] {
				return false
			}
		}
		for _, s := range q.Sub {
			if !c01Sat(s, tri) {
				return false
			}
		}
		return true
	}
	for _, t := range q.Trigram {
		if tri[t] {
			return true
		}
	}
	for _, s := range q.Sub {
		if c01Sat(s, tri) {
			return true
		}
	}
	return false
}

func TestVerifC01(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	rounds := 20000
	if vfThorough() {
		rounds = 100000
	}
	pats := []string{"", "a", "ab", "abc", "abcd", "abc|abd", "(abc|abd)ef", "abcde|bcdef|cdefg", "a.c", "abc.*def", "(ab|cd)+", "(abc)+", "(abc)*d", "(abc)?def", "[a-c][a-c][a-c]", "[a-z]bc", "(?i)abc", "(?i)hello world", "(?i:k)elvin", "straße",
		"(a|b|c|d|e|f|g|h)(a|b|c|d|e|f|g|h)(a|b|c)", "(foo|bar)(baz|quux)", "^abc$", "\\bfoo\\b", "a{3}", "(ab){2,4}", "(abcdef|abcxyz)", "(xabc|yabc)", "(abc|abcd|abcde)", "[é€]xy", "日本語", "(日|本)(語|文)x", "(a|ab)(c|bcd)(d*)", "abc(|def)", "(|abc)", "(?:a|b|c|d|e|f|g|h|i|j|k|l|m|n|o|p)xyz", "[^a\\n]bcd", "a\\nb", "abc\\n+def", "[^x]yz", "\\s+foo", "foo\\W+bar", "(foo.*bar|bar.*foo)", "(abc|(def|ghi)jkl)mno", "x(abc|abd|abe|abf)y", "(abcabc|abcabd)?z"}
	// repetitions of everything, with something before and after
	for _, atom := range []string{"a", "ab", "abc", "[ab]", "[a-d]", "(?:ab|c)", "(?:abc|d)", "(?:ab|cd|ef)", "(?:a|)", "a?", "(?:ab)?", "(?:[ab]c)", ".", "(?:a.)", "(?:a*b)", "(?i:k)", "é"} {
		if len(atom) > 1 && atom[0] != '(' && atom[0] != '[' {
			atom = "(?:" + atom + ")"
		}
		for _, q := range []string{"", "?", "*", "+", "{0}", "{1}", "{2}", "{3}", "{0,1}", "{0,2}", "{1,2}", "{1,3}", "{2,3}", "{2,}", "{3,}", "{1,}", "{2,4}"} {
			pats = append(pats, atom+q, "x"+atom+q+"y", "wx"+atom+q+"yz", atom+q+"y", "x"+atom+q, atom+q+atom, "(?:"+atom+q+"|xyz)v", "u(?:xyz|"+atom+q+")", "(?:"+atom+q+"x){2,3}")
		}
	}
	evals, distinct := 0, map[string]bool{}
	var samples []string
	restrictive := 0
	for r := 0; r < rounds+len(pats); r++ {
		var p string
		if r < len(pats) {
			p = pats[r]
		} else {
			p = vfPattern(rng, 1+rng.Intn(4))
		}
		p = []string{"(?m)", "(?i)(?m)", ""}[rng.Intn(3)] + p
		re, err := syntax.Parse(p, syntax.Perl)
		if err != nil {
			continue
		}
		std, err := goregexp.Compile(p)
		if err != nil {
			continue
		}
		q := RegexpQuery(re)
		if q.Op != QAll {
			restrictive++
		}
		for k := 0; k < 12; k++ {
			text := vfMatching(rng, re)
			switch k % 4 {
			case 1:
				text = vfRandText(rng, rng.Intn(6)) + text + vfRandText(rng, rng.Intn(6))
			case 2:
				text = "\n" + text + "\n"
			case 3:
				text = vfRandText(rng, rng.Intn(40))
			}
			if !std.MatchString(text) {
				continue
			}
			evals++
			distinct[p+"\x00"+text] = true
			if len(samples) < 12 && evals%501 == 7 {
				samples = append(samples, fmt.Sprintf("%q on %q", p, text))
			}
			tri := map[string]bool{}
			for i := 0; i+3 <= len(text); i++ {
				tri[text[i:i+3]] = true
			}
			if !c01Sat(q, tri) {
				var ts []string
				for x := range tri {
					ts = append(ts, x)
				}
				sort.Strings(ts)
				vfFail(t, "hidden", "pattern %q matches %q but its query %v is not satisfied by the trigrams %q", p, text, q, strings.Join(ts, "|"))
			}
		}
	}
	if restrictive < rounds/20 {
		vfFail(t, "useless", "only %d of %d queries restrict anything", restrictive, rounds)
	}
	vfStat(evals, len(distinct), "pairs of a generated pattern and a text it matches according to Go's regexp; the text's trigrams must satisfy RegexpQuery", samples)
}
