package config

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
)

func TestVerifC16(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	dir, err := ioutil.TempDir("", "c16")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "config.json")
	rounds := 1500
	if vfThorough() {
		rounds = 20000
	}
	evals, distinct := 0, map[string]bool{}
	var samples []string
	for r := 0; r < rounds; r++ {
		secret := fmt.Sprintf("sEcReT%dz%d", r, rng.Int63())
		var val interface{} = secret
		for i := rng.Intn(3); i > 0; i-- {
			if rng.Intn(2) == 0 {
				val = []interface{}{val, "x"}
			} else {
				val = map[string]interface{}{"k": val}
			}
		}
		key := []string{"password", "username", "", "k", "e" + secret}[rng.Intn(5)]
		vcs := []string{"", "git", "svn", "local", "nope"}[rng.Intn(5)]
		own := map[string]interface{}{key: val}
		d := map[string]interface{}{"url": "https://host/x"}
		if vcs != "" {
			d["vcs"] = vcs
		}
		if vcs == "" {
			vcs = "git"
		}
		doc := map[string]interface{}{"repos": map[string]interface{}{"a": d, "b": map[string]interface{}{"url": "u", "vcs": vcs}}, "dbpath": "data"}
		global := map[string]interface{}{}
		where := rng.Intn(3)
		if where != 1 {
			d["vcs-config"] = own
		}
		if where != 0 {
			global = map[string]interface{}{"g": val, key: val}
			doc["vcs-config"] = map[string]interface{}{vcs: global}
		}
		text, _ := json.Marshal(doc)
		if rng.Intn(3) == 0 {
			var b bytes.Buffer
			json.Indent(&b, text, " ", "\t")
			text = b.Bytes()
		}
		ioutil.WriteFile(file, text, 0600)
		var c Config
		if err := c.LoadFromFile(file); err != nil {
			vfFail(t, "load", "%s: %v", text, err)
			continue
		}
		evals++
		distinct[string(text)] = true
		if len(samples) < 10 && r%100 == 5 {
			samples = append(samples, string(text))
		}
		// loaded intact
		want := map[string]map[string]interface{}{"a": {}, "b": {}}
		for n, w := range want {
			if n == "a" && where != 1 {
				for k, v := range own {
					w[k] = v
				}
			}
			for k, v := range global {
				if _, ok := w[k]; !ok {
					w[k] = v
				}
			}
			got := map[string]interface{}{}
			if b := c.Repos[n].VcsConfig(); len(b) > 0 {
				json.Unmarshal(b, &got)
			}
			if !reflect.DeepEqual(got, w) {
				vfFail(t, "lost", "options of %s in %s are loaded as %v", n, text, got)
			}
		}
		// never serialised
		s, err := c.ToJsonString()
		if err != nil {
			vfFail(t, "serialise", "%s: %v", text, err)
			continue
		}
		var outs []string
		outs = append(outs, s)
		for _, v := range []interface{}{c.Repos, c, &c, c.Repos["a"], *c.Repos["a"], []interface{}{c.Repos["b"]}, map[string]interface{}{"r": c.Repos}} {
			b, err := json.Marshal(v)
			if err != nil {
				vfFail(t, "serialise", "%s: %v", text, err)
			}
			outs = append(outs, string(b))
		}
		for _, o := range outs {
			if strings.Contains(o, secret) {
				vfFail(t, "disclosed", "options of %s appear in %s", text, o)
				break
			}
		}
		// what is sent can be read back by the client
		var back map[string]*Repo
		if err := json.Unmarshal([]byte(s), &back); err != nil || len(back) != 2 || back["a"].Url != "https://host/x" {
			vfFail(t, "unreadable", "%s is serialised as %s", text, s)
		}
		if t.Failed() {
			break
		}
	}
	// a repository's vcs-config that is not an object (and with which no
	// global one is merged) is loaded as written and not disclosed either
	for i, v := range []string{`"sEcReT7"`, `[{"password":"sEcReT7"}]`, `["sEcReT7","x"]`, `7340011947`, ` 7340011947 `, `-7340011947.5`, `[7340011947]`, `[[], "sEcReT7"]`,
		` { "password" : "sEcReT7" } `, `{"":["sEcReT7"]}`, `"{sEcReT7}"`, `"\"sEcReT7\""`, `"\u0073EcReT7 sEcReT7"`, "\n\t[\n7340011947 ]", `{}`, `[]`, `""`, `true`, `false`, `0`} {
		for _, g := range []string{``, `,"vcs-config":{}`, `,"vcs-config":{"svn":{"g":"sEcReT7"}}`} {
			text := fmt.Sprintf(`{"repos":{"a":{"url":"https://host/x","vcs-config":%s},"b":{"url":"u"}},"dbpath":"data"%s}`, v, g)
			ioutil.WriteFile(file, []byte(text), 0600)
			var c Config
			if err := c.LoadFromFile(file); err != nil {
				vfFail(t, "load", "%s: %v", text, err)
				continue
			}
			evals++
			distinct[text] = true
			var want, got interface{}
			json.Unmarshal([]byte(v), &want)
			if err := json.Unmarshal(c.Repos["a"].VcsConfig(), &got); err != nil || !reflect.DeepEqual(want, got) {
				vfFail(t, "lost", "options of a in %s are loaded as %s", text, c.Repos["a"].VcsConfig())
			}
			s, err := c.ToJsonString()
			outs := []string{s}
			for _, v := range []interface{}{c.Repos, c, &c, c.Repos["a"], *c.Repos["a"]} {
				b, e := json.Marshal(v)
				if e != nil {
					err = e
				}
				outs = append(outs, string(b))
			}
			if err != nil {
				vfFail(t, "serialise", "%s: %v", text, err)
			}
			var none struct {
				A struct {
					V json.RawMessage `json:"vcs-config"`
				} `json:"a"`
			}
			json.Unmarshal([]byte(s), &none)
			for _, o := range outs {
				if strings.Contains(o, "EcReT7") || strings.Contains(o, "7340011947") || (i >= 14 && string(none.A.V) == v && v != `{}`) {
					vfFail(t, "disclosed", "options of %s appear in %s", text, o)
					break
				}
			}
		}
	}
	vfStat(evals, len(distinct), "configurations with secret VCS options at random places, loaded and serialised", samples)
}
