package index

import (
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	csindex "github.com/hound-search/hound/codesearch/index"
)

// The child builds one index with a limit on the size of any file it writes.
func TestVerifC21Child(t *testing.T) {
	src, dst := os.Getenv("C21_SRC"), os.Getenv("C21_DST")
	if src == "" {
		t.Skip()
	}
	var lim uint64
	fmt.Sscan(os.Getenv("C21_LIMIT"), &lim)
	if lim > 0 {
		signal.Ignore(syscall.SIGXFSZ)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	_, err := Build(&IndexOptions{AutoGeneratedFiles: []string{"x", "y"}}, dst, src, "the url", "the rev")
	if err != nil {
		os.Exit(3)
	}
	os.Exit(0)
}

// c21Complete says what is missing in an index that is marked usable.
func c21Complete(dst string, files map[string]string, bin int) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("reading the index crashes: %v", p)
		}
	}()
	b, err := ioutil.ReadFile(filepath.Join(dst, "tri"))
	if err != nil || len(b) < 16 || string(b[len(b)-16:]) != "\ncsearch trailr\n" {
		return fmt.Sprintf("the trigram index is not complete (%v, %d bytes)", err, len(b))
	}
	tri := csindex.Open(filepath.Join(dst, "tri"))
	defer tri.Close()
	ids := tri.PostingQuery(&csindex.Query{Op: csindex.QAll})
	if len(ids) != len(files) {
		return fmt.Sprintf("the trigram index lists %d of %d files", len(ids), len(files))
	}
	for _, id := range ids {
		n := tri.Name(id)
		f, err := os.Open(filepath.Join(dst, "raw", n))
		if err != nil {
			return err.Error()
		}
		z, err := gzip.NewReader(f)
		var b []byte
		if err == nil {
			b, err = ioutil.ReadAll(z)
		}
		f.Close()
		if err != nil || string(b) != files[n] {
			return fmt.Sprintf("the stored text of %s is not complete (%v)", n, err)
		}
	}
	if l := tri.PostingQuery(&csindex.Query{Op: csindex.QAnd, Trigram: []string{"mar", "ark", "rke"}}); len(l) != len(files) {
		return fmt.Sprintf("the posting lists find %d of %d files", len(l), len(files))
	}
	var ex []ExcludedFile
	e, err := ioutil.ReadFile(filepath.Join(dst, "excluded_files.json"))
	if err == nil {
		err = json.Unmarshal(e, &ex)
	}
	if err != nil || len(ex) != bin {
		return fmt.Sprintf("the list of excluded files is not complete (%v, %d of %d)", err, len(ex), bin)
	}
	return ""
}

func TestVerifC21(t *testing.T) {
	if os.Getenv("C21_SRC") != "" {
		t.Skip()
	}
	rng := rand.New(rand.NewSource(vfSeed()))
	base, err := ioutil.TempDir("", "c21")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(base)
	src := filepath.Join(base, "src")
	files := map[string]string{}
	os.MkdirAll(filepath.Join(src, "d"), 0755)
	for i := 0; i < 40; i++ {
		n := fmt.Sprintf("d/f%02d", i)
		var b strings.Builder
		fmt.Fprintf(&b, "marker %d\n", i)
		// incompressible, so that the stored files have different sizes
		for j := rng.Intn(300); j > 0; j-- {
			fmt.Fprintf(&b, "%x\n", rng.Int63())
		}
		files[n] = b.String()
		ioutil.WriteFile(filepath.Join(src, n), []byte(b.String()), 0644)
	}
	bin := 30
	for i := 0; i < bin; i++ {
		ioutil.WriteFile(filepath.Join(src, fmt.Sprintf("bin%02d", i)), []byte("\xff\xfe"), 0644)
	}
	evals := 0
	var samples []string
	check := func(desc, dst string, code int) {
		evals++
		if len(samples) < 12 && evals%7 == 1 {
			samples = append(samples, fmt.Sprintf("%s: exit %d", desc, code))
		}
		ref, err := Read(dst)
		if code == 0 && err != nil {
			vfFail(t, "no-manifest", "%s: the build succeeded but left no readable manifest: %v", desc, err)
		}
		if code != 0 && err == nil {
			vfFail(t, "early-manifest", "%s: the build did not succeed (exit %d) but left a manifest", desc, code)
		}
		if err == nil {
			if ref.Url != "the url" || ref.Rev != "the rev" {
				vfFail(t, "fields", "%s: the manifest records %q %q", desc, ref.Url, ref.Rev)
			}
			if m := c21Complete(dst, files, bin); m != "" {
				vfFail(t, "incomplete", "%s: the index has a manifest but %s", desc, m)
			}
		}
	}
	run := func(desc string, limit int, kill time.Duration) int {
		dst := filepath.Join(base, fmt.Sprintf("dst%d", evals))
		tmp := filepath.Join(base, fmt.Sprintf("tmp%d", evals))
		os.MkdirAll(tmp, 0755)
		c := exec.Command(os.Args[0], "-test.run", "TestVerifC21Child$")
		c.Env = append(os.Environ(), "C21_SRC="+src, "C21_DST="+dst, fmt.Sprintf("C21_LIMIT=%d", limit), "TMPDIR="+tmp)
		if err := c.Start(); err != nil {
			t.Fatalf("VERIF-FAIL key=setup %v", err)
		}
		if kill > 0 {
			time.Sleep(kill)
			c.Process.Kill()
		}
		c.Wait()
		code := c.ProcessState.ExitCode()
		if kill > 0 && code != 0 {
			// killed at any point: what is there decides
			ref, err := Read(dst)
			evals++
			if err == nil {
				if m := c21Complete(dst, files, bin); m != "" || ref.Url != "the url" || ref.Rev != "the rev" {
					vfFail(t, "incomplete", "%s: the index has a manifest but %s", desc, m)
				}
			}
		} else {
			check(desc, dst, code)
		}
		os.RemoveAll(dst)
		os.RemoveAll(tmp)
		return code
	}
	t0 := time.Now()
	if code := run("no limit", 0, 0); code != 0 {
		vfFail(t, "build-error", "the build without any fault fails (exit %d)", code)
	}
	dur := time.Since(t0)
	limits := []int{1, 16, 100, 500, 1000, 1024, 1500, 1800, 2000, 2200, 2500, 3000, 3500, 4096, 5000, 8192, 12000, 20000, 50000, 100000, 200000, 400000, 1 << 20, 1 << 24}
	for i := 0; i < 12; i++ {
		limits = append(limits, 1+rng.Intn(6000))
	}
	if vfThorough() {
		for i := 0; i < 300; i++ {
			limits = append(limits, 1+rng.Intn(150000))
		}
	}
	for _, l := range limits {
		run(fmt.Sprintf("no file may grow beyond %d bytes", l), l, 0)
	}
	// one file whose stored text is much larger than everything else there is to write
	src0, files0, bin0 := src, files, bin
	for _, n := range []int{40000, 300000} {
		src, bin = filepath.Join(base, fmt.Sprintf("big%d", n)), 1
		os.MkdirAll(src, 0755)
		b := []byte("marker\n")
		for len(b) < n {
			b = append(b, "01\n"[rng.Intn(41)/20])
		}
		files = map[string]string{"f": string(b), "g": "marker\n"}
		for f, x := range files {
			ioutil.WriteFile(filepath.Join(src, f), []byte(x), 0644)
		}
		ioutil.WriteFile(filepath.Join(src, "bin"), []byte("\xff\xfe"), 0644)
		for _, l := range []int{900, 1500, 2500, 4000, n / 16, n / 10, n / 2} {
			run(fmt.Sprintf("a file of %d bytes, no file may grow beyond %d bytes", n, l), l, 0)
		}
	}
	src, files, bin = src0, files0, bin0
	kills := 25
	if vfThorough() {
		kills = 300
	}
	for i := 0; i < kills; i++ {
		d := time.Duration(rng.Int63n(int64(dur))) + time.Millisecond
		run(fmt.Sprintf("killed after %s", d), 0, d)
	}
	// a place that is taken already
	for _, what := range []string{"excluded_files.json", "metadata.gob", "raw", "."} {
		dst := filepath.Join(base, "taken")
		os.RemoveAll(dst)
		if what == "." {
			ioutil.WriteFile(dst, []byte("x"), 0644)
		} else {
			os.MkdirAll(filepath.Join(dst, what, "sub"), 0755)
		}
		_, err := Build(&IndexOptions{}, dst, src, "the url", "the rev")
		evals++
		if err == nil {
			vfFail(t, "no-error", "the build succeeds although %s is taken", what)
		}
		if _, err := Read(dst); err == nil {
			vfFail(t, "early-manifest", "the build fails because %s is taken but leaves a manifest", what)
		}
	}
	// a file that cannot be written at all, or whose contents do not fit
	child := func(dst string) int {
		tmp := filepath.Join(base, "tmpchild")
		os.MkdirAll(tmp, 0755)
		defer os.RemoveAll(tmp)
		c := exec.Command(os.Args[0], "-test.run", "TestVerifC21Child$")
		c.Env = append(os.Environ(), "C21_SRC="+src, "C21_DST="+dst, "C21_LIMIT=0", "TMPDIR="+tmp)
		c.Run()
		return c.ProcessState.ExitCode()
	}
	if f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil {
		_, err = f.Write([]byte("x"))
		f.Close()
		for _, what := range []string{"excluded_files.json", "metadata.gob", "tri"} {
			if err == nil {
				break
			}
			dst := filepath.Join(base, "full_"+what)
			os.MkdirAll(dst, 0755)
			if os.Symlink("/dev/full", filepath.Join(dst, what)) != nil {
				continue
			}
			evals++
			if code := child(dst); code == 0 {
				vfFail(t, "no-error", "the build succeeds although nothing can be written to %s", what)
			}
			os.Remove(filepath.Join(dst, what))
			if _, err := Read(dst); err == nil {
				vfFail(t, "early-manifest", "nothing can be written to %s but the build leaves a manifest", what)
			}
		}
	}
	{
		src = filepath.Join(base, "longname")
		long := strings.Repeat("n", 250)
		os.MkdirAll(src, 0755)
		ioutil.WriteFile(filepath.Join(src, long), []byte("marker\n"), 0644)
		ioutil.WriteFile(filepath.Join(src, "short"), []byte("marker\n"), 0644)
		dst := filepath.Join(base, "deep")
		for len(dst)+101 < 3880 {
			dst = filepath.Join(dst, strings.Repeat("d", 100))
		}
		if n := 3880 - len(dst) - 1; n > 0 {
			dst = filepath.Join(dst, strings.Repeat("d", n))
		}
		if os.MkdirAll(dst, 0755) == nil {
			evals++
			code := child(dst)
			_, err := Read(dst)
			if code == 0 || err == nil {
				files, bin = map[string]string{"short": "marker\n", long: "marker\n"}, 0
				m := c21Complete(dst, files, bin)
				if (code == 0) != (err == nil) || m != "" {
					vfFail(t, "incomplete", "a file whose stored copy cannot be created (the path is too long): exit %d, manifest error %v, %s", code, err, m)
				}
			}
		}
		os.RemoveAll(filepath.Join(base, "deep"))
		src, files, bin = src0, files0, bin0
	}
	// an unreadable file
	if os.Geteuid() != 0 {
		p := filepath.Join(src, "zz")
		ioutil.WriteFile(p, []byte("x\n"), 0)
		dst := filepath.Join(base, "unreadable")
		_, err := Build(&IndexOptions{}, dst, src, "the url", "the rev")
		_, rerr := Read(dst)
		evals++
		if (err == nil) != (rerr == nil) {
			vfFail(t, "early-manifest", "build error %v, manifest error %v", err, rerr)
		}
		os.Remove(p)
	}
	// what the manifest records
	before := time.Now().Add(-time.Second)
	dst := filepath.Join(base, "good")
	ref, err := Build(&IndexOptions{AutoGeneratedFiles: []string{"p", "q"}}, dst, src, "u ü", "r\x00v")
	if err != nil {
		vfFail(t, "build-error", "%v", err)
	} else {
		for i := 0; i < 2; i++ {
			if ref.Url != "u ü" || ref.Rev != "r\x00v" || ref.Time.Before(before) || ref.Time.After(time.Now().Add(time.Second)) ||
				strings.Join(ref.AutoGeneratedFiles, ",") != "p,q" || ref.Dir() != dst {
				vfFail(t, "fields", "the manifest records %+v", ref)
			}
			if ref, err = Read(dst); err != nil {
				vfFail(t, "fields", "%v", err)
				break
			}
		}
		// cut anywhere, it is not a manifest any more
		b, _ := ioutil.ReadFile(filepath.Join(dst, "metadata.gob"))
		for n := 0; n < len(b); n++ {
			ioutil.WriteFile(filepath.Join(dst, "metadata.gob"), b[:n], 0644)
			evals++
			r, err := Read(dst)
			if err == nil {
				vfFail(t, "cut", "a manifest cut to %d of %d bytes is accepted", n, len(b))
			}
			if r == nil || r.Url != "" || r.Rev != "" || r.Dir() != dst {
				vfFail(t, "cut", "a manifest cut to %d of %d bytes gives %+v", n, len(b), r)
			}
			if _, err := Open(dst); err == nil {
				vfFail(t, "cut", "an index whose manifest is cut to %d of %d bytes is opened", n, len(b))
			}
		}
	}
	vfStat(evals, evals, "builds of one tree with a write fault at a chosen size, a kill at a random time or a place taken; manifests cut at every byte", samples)
}
