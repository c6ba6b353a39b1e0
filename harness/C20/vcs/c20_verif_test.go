package vcs

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
)

type c20Env struct {
	t   *testing.T
	dir string
	n   int
}

func (e *c20Env) fresh() string {
	e.n++
	return filepath.Join(e.dir, fmt.Sprintf("d%d", e.n))
}

func (e *c20Env) git(dir string, args ...string) string {
	c := exec.Command("git", args...)
	c.Dir = dir
	out, err := c.CombinedOutput()
	if err != nil {
		e.t.Fatalf("git %v in %s: %v %s", args, dir, err, out)
	}
	return strings.TrimSpace(string(out))
}

// commit makes a commit on a branch of a repository and returns its revision.
func (e *c20Env) commit(dir, branch, file, text string) string {
	e.git(dir, "checkout", "-q", "-B", branch)
	os.MkdirAll(filepath.Dir(filepath.Join(dir, file)), 0700)
	ioutil.WriteFile(filepath.Join(dir, file), []byte(text), 0600)
	e.git(dir, "add", "-A", "-f")
	e.git(dir, "commit", "-q", "-m", "c", "--allow-empty")
	return e.git(dir, "rev-parse", "HEAD")
}

func c20Crash(t *testing.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			vfFail(t, "crash", "%s crashes: %v", what, r)
		}
	}()
	f()
}

func TestVerifC20(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	log.SetOutput(ioutil.Discard)
	dir, err := ioutil.TempDir("", "c20")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	os.Setenv("HOME", dir)
	for k, v := range map[string]string{"GIT_CONFIG_NOSYSTEM": "1", "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@b", "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@b", "GIT_TERMINAL_PROMPT": "0", "GIT_CEILING_DIRECTORIES": dir, "XDG_CONFIG_HOME": dir, "LANG": "C", "LC_ALL": "C"} {
		os.Setenv(k, v)
	}
	os.Unsetenv("GIT_DIR")
	e := &c20Env{t: t, dir: dir}
	evals, distinct := 0, map[string]bool{}
	var samples []string
	note := func(s string) {
		evals++
		distinct[s] = true
		if len(samples) < 12 {
			samples = append(samples, s)
		}
	}
	rounds := 6
	if vfThorough() {
		rounds = 60
	}
	// git: the branch that is used
	for r := 0; r < rounds && !t.Failed(); r++ {
		up := e.fresh()
		os.Mkdir(up, 0700)
		e.git(up, "init", "-q")
		revs := map[string]string{}
		branches := []string{"master", "dev", "feature/x", "trunk"}
		for _, b := range branches {
			revs[b] = e.commit(up, b, "f", fmt.Sprint(b, r))
		}
		head := branches[rng.Intn(4)]
		e.git(up, "checkout", "-q", head)
		for _, o := range []struct {
			cfg  interface{}
			want string
		}{
			{nil, "master"}, {map[string]interface{}{}, "master"},
			{map[string]interface{}{"detect-ref": true}, head},
			{map[string]interface{}{"detect-ref": false}, "master"},
			{map[string]interface{}{"ref": "dev"}, "dev"},
			{map[string]interface{}{"ref": "feature/x", "detect-ref": true}, "feature/x"},
			{map[string]interface{}{"ref": "trunk", "detect-ref": false, "other": 1}, "trunk"},
		} {
			var cfg []byte
			if o.cfg != nil {
				cfg, _ = json.Marshal(o.cfg)
			}
			what := fmt.Sprintf("git with options %s on a repository whose default branch is %s", cfg, head)
			note(what)
			c20Crash(t, what, func() {
				wd, err := New("git", cfg)
				if err != nil {
					vfFail(t, "new", "%s: %v", what, err)
					return
				}
				work := e.fresh()
				for step := 0; step < 3; step++ {
					if step == 2 {
						for _, b := range branches {
							revs[b] = e.commit(up, b, "f", fmt.Sprint(b, r, rng.Int63()))
							e.git(up, "checkout", "-q", head)
						}
						// local changes must not survive
						ioutil.WriteFile(filepath.Join(work, "f"), []byte("changed"), 0600)
					}
					rev, err := wd.PullOrClone(work, "file://"+up)
					evals++
					if err != nil || rev != revs[o.want] {
						vfFail(t, "rev", "%s: step %d gives revision %q, error %v; branch %s is at %s (all: %v)", what, step, rev, err, o.want, revs[o.want], revs)
						return
					}
					if h := e.git(work, "rev-parse", "HEAD"); h != rev {
						vfFail(t, "rev", "%s: revision %s is reported, the working copy is at %s", what, rev, h)
					}
					if h, err := wd.HeadRev(work); err != nil || h != rev {
						vfFail(t, "rev", "%s: HeadRev gives %s, %v", what, h, err)
					}
					b, _ := ioutil.ReadFile(filepath.Join(work, "f"))
					if w := e.git(up, "show", o.want+":f"); string(b) != w {
						vfFail(t, "content", "%s: step %d checks out %q, branch %s has %q", what, step, b, o.want, w)
					}
				}
			})
		}
	}
	// git: the default branch is asked for at every pull, not only once
	for r := 0; r < 2 && !t.Failed(); r++ {
		up := e.fresh()
		os.Mkdir(up, 0700)
		e.git(up, "init", "-q")
		revs := map[string]string{}
		for _, b := range []string{"master", "dev", "trunk"} {
			revs[b] = e.commit(up, b, "f", fmt.Sprint(b, r))
		}
		c20Crash(t, "git with a changing default branch", func() {
			wd, err := New("git", []byte(`{"detect-ref": true}`))
			if err != nil {
				vfFail(t, "new", "%v", err)
				return
			}
			work := e.fresh()
			hist := ""
			for step, head := range [][]string{{"dev", "trunk", "!", "trunk", "master", "dev"}, {"trunk", "!", "!", "dev"}}[r] {
				hist += " " + head
				note("git with detect-ref, default branches over time (! cannot be reached):" + hist)
				if head == "!" {
					os.Rename(up, up+".away")
					wd.PullOrClone(work, "file://"+up)
					os.Rename(up+".away", up)
					continue
				}
				e.git(up, "checkout", "-q", head)
				rev, err := wd.PullOrClone(work, "file://"+up)
				if err != nil || rev != revs[head] {
					vfFail(t, "rev", "git with detect-ref, default branches over time (! cannot be reached)%s: step %d gives revision %q, error %v, expected %s", hist, step, rev, err, revs[head])
					return
				}
			}
		})
	}
	// git: errors, special and generated files
	{
		wd, _ := New("git", nil)
		for _, u := range []string{"file://" + filepath.Join(dir, "none"), filepath.Join(dir, "none2"), ""} {
			c20Crash(t, "cloning", func() {
				note("git clone of " + strings.Replace(u, dir, "", 1))
				if rev, err := wd.PullOrClone(e.fresh(), u); err == nil {
					vfFail(t, "error", "cloning %q gives revision %q and no error", u, rev)
				}
			})
		}
		d := e.fresh()
		os.Mkdir(d, 0700)
		note("git pull in a directory that is no repository")
		if rev, err := wd.PullOrClone(d, "file://"+dir); err == nil {
			vfFail(t, "error", "pulling in a directory that is no repository gives revision %q and no error", rev)
		}
		if rev, err := wd.HeadRev(filepath.Join(dir, "none")); err == nil {
			vfFail(t, "error", "the revision of a directory that does not exist is %q", rev)
		}
		up := e.fresh()
		os.Mkdir(up, 0700)
		e.git(up, "init", "-q")
		for _, f := range []string{"a.gen", "d/b.gen", "c.go", "e f.gen", "x.gen"} {
			e.commit(up, "master", f, f)
		}
		e.commit(up, "master", ".gitattributes", "*.gen linguist-generated=true\nx.gen -linguist-generated\nc.go linguist-generated=false\n")
		got := wd.AutoGeneratedFiles(up)
		sort.Strings(got)
		note("git generated files")
		if want := []string{"a.gen", "d/b.gen", "e f.gen"}; !reflect.DeepEqual(got, want) {
			vfFail(t, "generated", "the generated files are %q, expected %q", got, want)
		}
		if !reflect.DeepEqual(wd.SpecialFiles(), []string{".git"}) {
			vfFail(t, "special", "the special files of git are %q", wd.SpecialFiles())
		}
	}
	// the other programs: stand-ins that record the call
	bin := filepath.Join(dir, "bin")
	os.Mkdir(bin, 0700)
	rec := filepath.Join(dir, "calls")
	for _, p := range []string{"git", "hg", "svn", "svnversion", "bzr"} {
		ioutil.WriteFile(filepath.Join(bin, p), []byte(`#!/bin/sh
{ printf '%s' "`+p+`"; printf '\t%s' "$PWD" "$@"; printf '\n'; } >> "$C20_REC"
for a in "$@"; do case "$C20_FAIL" in "`+p+` $a") exit 3;; esac; done
case "$C20_FAIL" in "`+p+`") exit 3;; esac
for a in "$@"; do case "$a" in clone|branch|checkout) for last; do :; done; mkdir -p "$last";; esac; done
case "`+p+` $1" in "svnversion "*|"hg log"|"bzr revno"|"git rev-parse") printf '  rev%s\n ' "$C20_REV";; esac
exit 0
`), 0700)
	}
	os.Setenv("PATH", bin+":"+os.Getenv("PATH"))
	os.Setenv("C20_REC", rec)
	type prog struct {
		names         []string
		cfg           string
		clone, pull   []string // the call that changes the working copy
		words         []string // words the call must contain
		cFail, pFail  string
		rFail         string
		special       string
	}
	progs := []prog{
		{[]string{"hg", "mercurial"}, "", []string{"hg", "clone"}, []string{"hg", "pull", "-u"}, nil, "hg clone", "hg pull", "hg log", ".hg"},
		{[]string{"svn", "subversion"}, `{"username":"us er","password":"p%w"}`, []string{"svn", "checkout"}, []string{"svn", "update"}, []string{"us er", "p%w"}, "svn checkout", "svn update", "svnversion", ".svn"},
		{[]string{"bzr"}, "", []string{"bzr", "branch"}, []string{"bzr", "pull"}, nil, "bzr branch", "bzr pull", "bzr revno", ".bzr"},
		{[]string{"git"}, `{"ref":"q"}`, []string{"git", "clone"}, []string{"git", "fetch"}, nil, "git clone", "", "git rev-parse", ".git"},
	}
	calls := func() [][]string {
		b, _ := ioutil.ReadFile(rec)
		os.Remove(rec)
		var out [][]string
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			if l != "" {
				out = append(out, strings.Split(l, "\t"))
			}
		}
		return out
	}
	// find returns the call whose program and arguments contain all words
	find := func(cs [][]string, words []string) []string {
	next:
		for _, c := range cs {
			if c[0] != words[0] {
				continue
			}
			for _, w := range words[1:] {
				ok := false
				for _, a := range c[2:] {
					ok = ok || a == w
				}
				if !ok {
					continue next
				}
			}
			return c
		}
		return nil
	}
	for _, p := range progs {
		for _, name := range p.names {
			var cfg []byte
			if p.cfg != "" {
				cfg = []byte(p.cfg)
			}
			c20Crash(t, name, func() {
				wd, err := New(name, cfg)
				if err != nil {
					vfFail(t, "new", "%s: %v", name, err)
					return
				}
				work, url := e.fresh(), "proto://host/"+name
				os.Setenv("C20_FAIL", "")
				os.Setenv("C20_REV", "1")
				calls()
				rev, err := wd.PullOrClone(work, url)
				cs := calls()
				note(name + " clone")
				c := find(cs, append(append(append([]string{}, p.clone...), p.words...), url))
				if err != nil || rev != "rev1" || c == nil {
					vfFail(t, "clone", "%s: cloning %s gives %q, %v with the calls %q", name, url, rev, err, cs)
				} else if c[len(c)-1] != work && filepath.Join(c[1], c[len(c)-1]) != work {
					vfFail(t, "directory", "%s: cloning into %s calls %q", name, work, c)
				}
				os.Setenv("C20_REV", "2")
				rev, err = wd.PullOrClone(work, url)
				cs = calls()
				note(name + " pull")
				c = find(cs, append(append([]string{}, p.pull...), p.words...))
				if err != nil || rev != "rev2" || c == nil || c[1] != work || find(cs, p.clone) != nil {
					vfFail(t, "pull", "%s: pulling in %s gives %q, %v with the calls %q", name, work, rev, err, cs)
				}
				for _, x := range cs {
					if x[0] != p.clone[0] && x[0] != "svnversion" || x[1] != work {
						vfFail(t, "driver", "%s: pulling in %s calls %q", name, work, x)
					}
				}
				for _, f := range []struct{ fail, dir string }{{p.cFail, ""}, {p.rFail, ""}, {p.pFail, work}, {p.rFail, work}} {
					if f.fail == "" {
						continue
					}
					d := f.dir
					if d == "" {
						d = e.fresh()
					}
					os.Setenv("C20_FAIL", f.fail)
					rev, err := wd.PullOrClone(d, url)
					note(name + " failing: " + f.fail)
					if err == nil {
						vfFail(t, "error", "%s: %q fails, but the update gives revision %q and no error (calls %q)", name, f.fail, rev, calls())
					}
					calls()
				}
				os.Setenv("C20_FAIL", "")
				if sf := wd.SpecialFiles(); !reflect.DeepEqual(sf, []string{p.special}) {
					vfFail(t, "special", "the special files of %s are %q", name, sf)
				}
			})
		}
	}
	// unknown drivers and options that cannot be read
	for _, n := range []string{"", "GIT", "cvs", "git ", "mercurial2"} {
		note("driver " + n)
		c20Crash(t, "driver "+n, func() {
			if wd, err := New(n, nil); err == nil {
				vfFail(t, "unknown", "driver %q gives %T and no error", n, wd.Driver)
			}
		})
	}
	for _, n := range []string{"git", "svn", "subversion", "local"} {
		for _, c := range []string{"x", "[]", `{"ref":1,"username":1,"watch-changes":1}`, ""} {
			note("options " + n + c)
			c20Crash(t, "options", func() {
				if _, err := New(n, []byte(c)); err == nil {
					vfFail(t, "options", "the options %q of %s are accepted", c, n)
				}
			})
		}
	}
	// registration
	Register(func(c []byte) (Driver, error) { return &SVNDriver{Username: string(c)}, nil }, "c20a", "c20b")
	Register(func(c []byte) (Driver, error) { return nil, fmt.Errorf("c20 error") }, "c20c")
	for _, n := range []string{"c20a", "c20b"} {
		if wd, err := New(n, []byte("opt"+n)); err != nil || reflect.TypeOf(wd.Driver) != reflect.TypeOf(&SVNDriver{}) || wd.Driver.(*SVNDriver).Username != "opt"+n {
			vfFail(t, "register", "a driver registered as %s is not the one that is used", n)
		}
	}
	if wd, err := New("c20c", nil); err == nil || wd != nil {
		vfFail(t, "register", "the error of a driver is lost")
	}
	// local
	c20Crash(t, "local", func() {
		src := e.fresh()
		os.MkdirAll(filepath.Join(src, "s"), 0700)
		ioutil.WriteFile(filepath.Join(src, "s", "a"), []byte("1"), 0600)
		for _, watch := range []bool{false, true} {
			cfg, _ := json.Marshal(map[string]interface{}{"watch-changes": watch, "ignored-files": []string{".x", "y"}})
			wd, err := New("local", cfg)
			if err != nil {
				vfFail(t, "local", "%v", err)
				return
			}
			if !reflect.DeepEqual(wd.SpecialFiles(), []string{".x", "y"}) {
				vfFail(t, "special", "the special files of local are %q", wd.SpecialFiles())
			}
			work := filepath.Join(dir, fmt.Sprintf("vcs-%v", watch))
			rev, err := wd.PullOrClone(work, "file://"+src)
			note(fmt.Sprintf("local, watching %v", watch))
			b, _ := ioutil.ReadFile(filepath.Join(work, "s", "a"))
			if err != nil || rev == "" || string(b) != "1" {
				vfFail(t, "local", "linking %s gives %q, %v; content %q", src, rev, err, b)
				continue
			}
			again, err := wd.PullOrClone(work, "file://"+src)
			if err != nil || again != rev {
				vfFail(t, "local", "an unchanged directory (watching %v) has revision %q and then %q, %v", watch, rev, again, err)
			}
			ioutil.WriteFile(filepath.Join(src, "s", "a"), []byte("2"), 0600)
			changed, err := wd.PullOrClone(work, "file://"+src)
			if err != nil || (changed != rev) != watch {
				vfFail(t, "local", "a changed directory (watching %v) has revision %q and then %q, %v", watch, rev, changed, err)
			}
			ioutil.WriteFile(filepath.Join(src, "s", "a"), []byte("1"), 0600)
		}
		wd, _ := New("local", nil)
		for _, u := range []string{src, "", "https://x/y"} {
			if rev, err := wd.PullOrClone(e.fresh(), u); err == nil {
				vfFail(t, "error", "a local repository at %q gives %q and no error", u, rev)
			}
		}
	})
	vfStat(evals, len(distinct), "real git repositories with four branches through clone, pull and upstream changes under every branch option; stand-ins recording the calls of the other programs, each failing in turn; driver names and options", samples)
}
