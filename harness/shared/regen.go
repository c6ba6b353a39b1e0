//imports: math/rand regexp/syntax strings
// vfPattern makes a pattern that cannot match a newline.
func vfPattern(rng *rand.Rand, depth int) string {
	if depth <= 0 || rng.Intn(4) == 0 {
		switch rng.Intn(16) {
		case 0:
			return "[a-c]"
		case 1:
			return "[^a\\n]"
		case 2:
			return "."
		case 3:
			return "é"
		case 4:
			return []string{"\\d", "\\w", "[ab]", "[A-Za-z0-9_]", "[a-e]", "[ace]", "[é€]", "[\\x{430}-\\x{434}]", "[a-z&&[^x]]", "[x\\x{10000}-\\x{10010}]"}[rng.Intn(8)]
		case 5:
			return []string{"^", "$", "\\b", "\\B", "\\A", "\\z"}[rng.Intn(6)]
		case 6:
			return "(?i:" + string("abkS"[rng.Intn(4)]) + ")"
		default:
			n := 1 + rng.Intn(4)
			b := make([]byte, n)
			for i := range b {
				b[i] = "abcdeAB0_ "[rng.Intn(10)]
			}
			return string(b)
		}
	}
	switch rng.Intn(9) {
	case 0, 1, 2:
		n := 2 + rng.Intn(3)
		s := ""
		for i := 0; i < n; i++ {
			s += vfPattern(rng, depth-1)
		}
		return s
	case 3, 4:
		n := 2 + rng.Intn(3)
		if rng.Intn(6) == 0 {
			n = 5 + rng.Intn(8)
		}
		var p []string
		for i := 0; i < n; i++ {
			p = append(p, vfPattern(rng, depth-1))
		}
		return "(" + strings.Join(p, "|") + ")"
	case 5:
		return "(?:" + vfPattern(rng, depth-1) + ")*"
	case 6:
		return "(?:" + vfPattern(rng, depth-1) + ")?"
	case 7:
		return "(?:" + vfPattern(rng, depth-1) + ")+"
	default:
		return "(?:" + vfPattern(rng, depth-1) + ")" + []string{"{2}", "{1,3}", "{0,2}", "{2,}", "*?", "??"}[rng.Intn(6)]
	}
}

// vfMatching makes a text that the pattern is likely to match.
func vfMatching(rng *rand.Rand, re *syntax.Regexp) string {
	switch re.Op {
	case syntax.OpLiteral:
		var b strings.Builder
		for _, r := range re.Rune {
			s := string(r)
			if re.Flags&syntax.FoldCase != 0 && rng.Intn(2) == 0 {
				if rng.Intn(2) == 0 {
					s = strings.ToUpper(s)
				} else {
					s = strings.ToLower(s)
				}
			}
			b.WriteString(s)
		}
		return b.String()
	case syntax.OpCharClass:
		if len(re.Rune) == 0 {
			return ""
		}
		i := rng.Intn(len(re.Rune)/2) * 2
		lo, hi := re.Rune[i], re.Rune[i+1]
		if hi-lo > 200 && rng.Intn(3) > 0 {
			hi = lo + 200
		}
		r := lo + rune(rng.Int63n(int64(hi-lo)+1))
		if r == '\n' || r >= 0xd800 && r < 0xe000 {
			r = lo
		}
		return string(r)
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return []string{"a", "z", "é", "€", " ", "\t", "\U00010000", "0"}[rng.Intn(8)]
	case syntax.OpCapture:
		return vfMatching(rng, re.Sub[0])
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat:
		lo, hi := 0, 3
		switch re.Op {
		case syntax.OpPlus:
			lo = 1
		case syntax.OpQuest:
			hi = 1
		case syntax.OpRepeat:
			lo, hi = re.Min, re.Max
			if hi < 0 {
				hi = lo + 2
			}
		}
		var b strings.Builder
		for n := lo + rng.Intn(hi-lo+1); n > 0; n-- {
			b.WriteString(vfMatching(rng, re.Sub[0]))
		}
		return b.String()
	case syntax.OpConcat:
		var b strings.Builder
		for _, s := range re.Sub {
			b.WriteString(vfMatching(rng, s))
		}
		return b.String()
	case syntax.OpAlternate:
		return vfMatching(rng, re.Sub[rng.Intn(len(re.Sub))])
	}
	return ""
}

func vfRandText(rng *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString([]string{"a", "b", "c", "A", "B", "d", "e", "0", "_", " ", "\n", "é", "k", "S"}[rng.Intn(14)])
	}
	return b.String()
}
