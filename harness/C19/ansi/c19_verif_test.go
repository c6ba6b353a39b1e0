package ansi

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"regexp"
	"testing"
)

func TestVerifC19Ansi(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	rounds := 20000
	if vfThorough() {
		rounds = 300000
	}
	re := regexp.MustCompile(`^\x1b\[[0-9]+(;[0-9]+)*m`)
	f, err := ioutil.TempFile("", "c19")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	off := NewFor(f)
	evals := 0
	for r := 0; r < rounds && !t.Failed(); r++ {
		b := make([]byte, rng.Intn(40))
		for i := range b {
			b[i] = "ab m[;0\x1b\n\xff\xc3\xa9%s"[rng.Intn(14)]
		}
		s := string(b)
		fg, bg := Color(rng.Intn(9)), Color(rng.Intn(9))
		fs, bs := Style(rng.Intn(32)), Style(rng.Intn(32))
		evals += 4
		for _, c := range []*Colorer{off, {false}} {
			if g := c.FgBg(s, fg, fs, bg, bs); g != s {
				vfFail(t, "off", "FgBg of %q without colour gives %q", s, g)
			}
			if g := c.Fg(s, fg, fs); g != s {
				vfFail(t, "off", "Fg of %q without colour gives %q", s, g)
			}
		}
		on := &Colorer{true}
		for i, g := range []string{on.FgBg(s, fg, fs, bg, bs), on.Fg(s, fg, fs)} {
			m := re.FindString(g)
			if m == "" || g != m+s+"\x1b[0m" {
				vfFail(t, "on", "%q in colour (%d: %d %d %d %d) gives %q", s, i, fg, fs, bg, bs, g)
			}
		}
	}
	vfStat(evals, rounds, "texts with random colours and styles, colour on and off", []string{fmt.Sprint("random texts with escapes, colours 0..8, styles 0..31")})
}
