package index

import (
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"unicode/utf8"

	csindex "github.com/hound-search/hound/codesearch/index"
)

type c06Entry struct {
	kind string // file, dir, link, fifo
	data string
}

// c06Check compares an index with the tree it was built from.
func c06Check(t *testing.T, desc, src, dst string, opt *IndexOptions, tree map[string]c06Entry) bool {
	tri := csindex.Open(filepath.Join(dst, "tri"))
	defer tri.Close()
	in := map[string]int{}
	for _, id := range tri.PostingQuery(&csindex.Query{Op: csindex.QAll}) {
		in[tri.Name(id)]++
	}
	raw, err := ioutil.ReadFile(filepath.Join(dst, "excluded_files.json"))
	if err != nil {
		vfFail(t, "excluded", "%s: %v", desc, err)
		return false
	}
	var ex []ExcludedFile
	if err := json.Unmarshal(raw, &ex); err != nil {
		vfFail(t, "excluded", "%s: the list of excluded files is not readable: %v", desc, err)
		return false
	}
	out := map[string]int{}
	for _, e := range ex {
		out[e.Filename]++
		if strings.TrimSpace(e.Reason) == "" {
			vfFail(t, "reason", "%s: %s is excluded without a reason", desc, e.Filename)
		}
	}
	ok := true
	for rel, e := range tree {
		if e.kind == "dir" {
			continue
		}
		skip := false
		parts := strings.Split(rel, "/")
		for i, p := range parts {
			special := false
			for _, s := range opt.SpecialFiles {
				special = special || s == p
			}
			if special {
				skip = true
			}
			if i < len(parts)-1 && opt.ExcludeDotFiles && p[0] == '.' {
				skip = true
			}
		}
		n := in[rel] + out[rel]
		switch {
		case skip && n != 0:
			vfFail(t, "special", "%s: %q should be skipped by rule", desc, rel)
			ok = false
		case !skip && n != 1:
			vfFail(t, "lost", "%s: %q (%s) is %d times in the index and %d times excluded", desc, rel, e.kind, in[rel], out[rel])
			ok = false
		}
		if in[rel] > 0 {
			f, err := os.Open(filepath.Join(dst, "raw", rel))
			if err != nil {
				vfFail(t, "stored", "%s: %q is indexed but not stored: %v", desc, rel, err)
				ok = false
				continue
			}
			z, err := gzip.NewReader(f)
			var b []byte
			if err == nil {
				b, err = ioutil.ReadAll(z)
			}
			f.Close()
			if err != nil || string(b) != e.data {
				vfFail(t, "stored", "%s: the stored text of %q differs from the file (%v)", desc, rel, err)
				ok = false
			}
			if e.kind == "file" && !utf8.ValidString(e.data) {
				vfFail(t, "binary", "%s: %q is not text but indexed", desc, rel)
			}
			if e.kind != "file" {
				vfFail(t, "irregular", "%s: %q (%s) is indexed", desc, rel, e.kind)
			}
		}
		delete(in, rel)
		delete(out, rel)
	}
	for n := range in {
		vfFail(t, "invented", "%s: %q is indexed but not in the tree", desc, n)
		ok = false
	}
	for n := range out {
		vfFail(t, "invented", "%s: %q is excluded but not in the tree", desc, n)
		ok = false
	}
	return ok
}

func TestVerifC06(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	base, err := ioutil.TempDir("", "c06")
	if err != nil {
		t.Fatal(err)
	}
	defer func() {
		filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
			if fi != nil && fi.IsDir() {
				os.Chmod(p, 0755)
			}
			return nil
		})
		os.RemoveAll(base)
	}()
	// every distinct run of three bytes counts once, and there are a lot of them
	var manytri strings.Builder
	for manytri.Len() < 90000 {
		fmt.Fprintf(&manytri, "%c%c%c", 33+rng.Intn(90), 33+rng.Intn(90), 33+rng.Intn(90))
		if manytri.Len()%60 < 3 {
			manytri.WriteByte('\n')
		}
	}
	contents := []string{"", "hello world\n", "no newline", "a\nb\n", "\x00\x01\x02", "ok then \xff\xfe", strings.Repeat("x", 2047) + "é\n", strings.Repeat("x", 2048),
		strings.Repeat("text line\n", 300) + "\xff bad after the peeked part\n", strings.Repeat("text line\n", 300) + "zero \x00 byte\n", strings.Repeat("y", 2500) + "\n", strings.Repeat("y", 2500), "short\n" + strings.Repeat("z", 3000) + "\n",
		manytri.String(), "\n\n\n", "é€\n", strings.Repeat("x", 2046) + "\xe2\x82\xac tail\n", strings.Repeat("x", 2045) + "\xc3", "\xef\xbb\xbfbom\n"}
	comps := []string{"a", "b.txt", ".hidden", ".git", "special", "sub dir", "é", "excluded_files.json", "tri", "raw", "-x", "metadata.gob", "..data", "q'uo\"te", "new\nline", "a.go", "README"}
	rounds := 150
	if vfThorough() {
		rounds = 1500
	}
	evals := 0
	distinct := map[string]bool{}
	var samples []string
	for r := 0; r < rounds; r++ {
		src := filepath.Join(base, fmt.Sprintf("s%d", r), []string{"src", ".srv", ".git", "special"}[rng.Intn(4)])
		dst := filepath.Join(base, fmt.Sprintf("d%d", r))
		os.MkdirAll(src, 0755)
		tree := map[string]c06Entry{}
		dirs := []string{"."}
		unreadable := ""
		for i := rng.Intn(14); i > 0; i-- {
			rel := filepath.Join(dirs[rng.Intn(len(dirs))], comps[rng.Intn(len(comps))])
			if _, dup := tree[rel]; dup {
				continue
			}
			p := filepath.Join(src, rel)
			switch k := rng.Intn(12); {
			case k < 3:
				os.Mkdir(p, 0755)
				tree[rel] = c06Entry{"dir", ""}
				dirs = append(dirs, rel)
			case k == 3:
				os.Symlink([]string{"nowhere", "a", "..", "/etc/hostname", "."}[rng.Intn(5)], p)
				tree[rel] = c06Entry{"link", ""}
			case k == 4 && rng.Intn(3) == 0:
				syscall.Mkfifo(p, 0644)
				tree[rel] = c06Entry{"fifo", ""}
			default:
				d := contents[rng.Intn(len(contents))]
				ioutil.WriteFile(p, []byte(d), 0644)
				tree[rel] = c06Entry{"file", d}
			}
		}
		if r%10 == 9 && os.Geteuid() != 0 {
			// one entry that cannot be read
			var all []string
			for rel, e := range tree {
				if e.kind == "file" || e.kind == "dir" {
					all = append(all, rel)
				}
			}
			sort.Strings(all)
			if len(all) > 0 {
				unreadable = all[rng.Intn(len(all))]
				os.Chmod(filepath.Join(src, unreadable), 0)
			}
		}
		opt := &IndexOptions{ExcludeDotFiles: rng.Intn(2) == 0, SpecialFiles: [][]string{nil, {".git"}, {".git", "special"}}[rng.Intn(3)]}
		desc := fmt.Sprintf("options %+v, root %s, tree", *opt, filepath.Base(src))
		var ks []string
		for rel, e := range tree {
			ks = append(ks, fmt.Sprintf(" %q=%s:%.12q", rel, e.kind, e.data))
		}
		sort.Strings(ks)
		desc += strings.Join(ks, "")
		if unreadable != "" {
			desc += fmt.Sprintf(" unreadable %q", unreadable)
		}
		evals++
		distinct[desc] = true
		if len(samples) < 12 && r%13 == 1 {
			samples = append(samples, fmt.Sprintf("%.300s", desc))
		}
		from := src
		if rng.Intn(5) == 0 {
			from = src + "-link"
			os.Symlink(src, from)
		}
		_, err := Build(opt, dst, from, "url", "rev")
		if err != nil {
			if unreadable == "" {
				vfFail(t, "build-error", "%s: %v", desc, err)
			}
		} else {
			if unreadable != "" && tree[unreadable].kind == "dir" {
				// what is below it cannot be known: only fine if it is skipped by rule
				skipped := false
				for _, p := range strings.Split(unreadable, "/") {
					if opt.ExcludeDotFiles && p[0] == '.' {
						skipped = true
					}
					for _, s := range opt.SpecialFiles {
						skipped = skipped || s == p
					}
				}
				if !skipped {
					vfFail(t, "unreadable", "%s: the build succeeds although %q cannot be read", desc, unreadable)
				}
				continue
			}
			c06Check(t, desc, src, dst, opt, tree)
		}
		os.RemoveAll(dst)
	}
	// a tree that is not there
	if _, err := Build(&IndexOptions{}, filepath.Join(base, "dx"), filepath.Join(base, "nowhere"), "u", "r"); err == nil {
		vfFail(t, "missing-tree", "the build of a tree that does not exist succeeds")
	}
	// a file beyond the size limit
	src := filepath.Join(base, "big")
	os.MkdirAll(src, 0755)
	f, _ := os.Create(filepath.Join(src, "big"))
	line := []byte(strings.Repeat("0123456789abcdef ", 60) + "\n")
	for n := 0; n < 1<<25+10; n += len(line) {
		f.Write(line)
	}
	f.Close()
	ioutil.WriteFile(filepath.Join(src, "z"), []byte("after\n"), 0644)
	dst := filepath.Join(base, "dbig")
	if _, err := Build(&IndexOptions{}, dst, src, "u", "r"); err != nil {
		vfFail(t, "build-error", "a file of more than 32 MB: %v", err)
	} else {
		big, _ := ioutil.ReadFile(filepath.Join(src, "big"))
		c06Check(t, "a file of more than 32 MB", src, dst, &IndexOptions{}, map[string]c06Entry{"big": {"file", string(big)}, "z": {"file", "after\n"}})
	}
	evals += 2
	vfStat(evals, len(distinct), "builds of generated trees, the index and the list of excluded files compared with the tree", samples)
}
