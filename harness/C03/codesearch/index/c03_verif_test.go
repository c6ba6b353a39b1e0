package index

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"unsafe"
)

// c03Reader hands out its text in pieces of random sizes.
type c03Reader struct {
	rng *rand.Rand
	s   string
	max int
}

func (r *c03Reader) Read(b []byte) (int, error) {
	if len(r.s) == 0 {
		return 0, io.EOF
	}
	n := 1 + r.rng.Intn(r.max)
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], r.s)
	r.s = r.s[n:]
	if len(r.s) == 0 && r.rng.Intn(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// c03Limit makes the writer spill after n entries; reports whether it could.
func c03Limit(ix *IndexWriter, n int) bool {
	f := reflect.ValueOf(ix).Elem().FieldByName("post")
	if !f.IsValid() || f.Kind() != reflect.Slice || f.Type().Elem().Kind() != reflect.Uint64 {
		return false
	}
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.MakeSlice(f.Type(), 0, n))
	return true
}

type c03File struct{ name, text string }

// c03Check compares the file with what was added, byte by byte and then through the reader.
func c03Check(t *testing.T, what, path string, paths []string, files []c03File) {
	data, err := ioutil.ReadFile(path)
	if err != nil {
		vfFail(t, "missing", "%s: %v", what, err)
		return
	}
	lists := map[uint32][]uint32{}
	for i, f := range files {
		seen := map[uint32]bool{}
		for j := 0; j+3 <= len(f.text); j++ {
			v := uint32(f.text[j])<<16 | uint32(f.text[j+1])<<8 | uint32(f.text[j+2])
			if !seen[v] {
				seen[v] = true
				lists[v] = append(lists[v], uint32(i))
			}
		}
	}
	var keys []uint32
	for k := range lists {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	var want bytes.Buffer
	var off [5]uint32
	want.WriteString("csearch index 1\n")
	off[0] = uint32(want.Len())
	for _, p := range paths {
		want.WriteString(p + "\x00")
	}
	want.WriteByte(0)
	off[1] = uint32(want.Len())
	var nameIndex, postIndex bytes.Buffer
	w32 := func(b *bytes.Buffer, v uint32) { binary.Write(b, binary.BigEndian, v) }
	for _, f := range append(append([]c03File{}, files...), c03File{}) {
		w32(&nameIndex, uint32(want.Len())-off[1])
		want.WriteString(f.name + "\x00")
	}
	off[2] = uint32(want.Len())
	var v [10]byte
	for _, k := range append(keys, 1<<24-1) {
		tri := []byte{byte(k >> 16), byte(k >> 8), byte(k)}
		postIndex.Write(tri)
		w32(&postIndex, uint32(len(lists[k])))
		w32(&postIndex, uint32(want.Len())-off[2])
		want.Write(tri)
		last := ^uint32(0)
		for _, id := range lists[k] {
			want.Write(v[:binary.PutUvarint(v[:], uint64(id-last))])
			last = id
		}
		want.WriteByte(0)
	}
	off[3] = uint32(want.Len())
	want.Write(nameIndex.Bytes())
	off[4] = uint32(want.Len())
	want.Write(postIndex.Bytes())
	for _, o := range off {
		w32(&want, o)
	}
	want.WriteString("\ncsearch trailr\n")
	if !bytes.Equal(data, want.Bytes()) {
		i := 0
		for i < len(data) && i < want.Len() && data[i] == want.Bytes()[i] {
			i++
		}
		vfFail(t, "layout", "%s: the index file has %d bytes, expected %d; the first difference is at %d (sections at %v)", what, len(data), want.Len(), i, off)
		return
	}
	ix := Open(path)
	defer ix.Close()
	for i, f := range files {
		if g := ix.Name(uint32(i)); g != f.name {
			vfFail(t, "name", "%s: file %d is named %q, added as %q", what, i, g, f.name)
		}
	}
	for _, k := range keys {
		g := ix.PostingList(k)
		if fmt.Sprint(g) != fmt.Sprint(lists[k]) {
			vfFail(t, "list", "%s: trigram %#x is listed for %v, occurs in %v", what, k, g, lists[k])
			return
		}
	}
	for _, k := range []uint32{0, 0x616161, 0x7f7f7f, 0xffffff, 0x0a0a0a} {
		if len(lists[k]) == 0 && len(ix.PostingList(k)) != 0 {
			vfFail(t, "list", "%s: trigram %#x is listed for %v, occurs nowhere", what, k, ix.PostingList(k))
		}
	}
}

func TestVerifC03(t *testing.T) {
	rng := rand.New(rand.NewSource(vfSeed()))
	dir, err := ioutil.TempDir("", "c03")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	tmp := filepath.Join(dir, "tmp")
	os.Mkdir(tmp, 0700)
	os.Setenv("TMPDIR", tmp)
	rounds := 120
	if vfThorough() {
		rounds = 1500
	}
	evals, spills, distinct := 0, 0, map[string]bool{}
	var samples []string
	run := func(what string, limit int, paths []string, files []c03File, max int) {
		path := filepath.Join(dir, "ix")
		ix := Create(path)
		if limit > 0 && c03Limit(ix, limit) {
			spills++
		}
		ix.AddPaths(paths)
		var kept []c03File
		for _, f := range files {
			r := ix.Add(f.name, &c03Reader{rng, f.text, max})
			if r == "" {
				kept = append(kept, f)
			} else if !strings.HasPrefix(f.name, "bad") {
				vfFail(t, "reject", "%s: text file %q of %d bytes is not indexed: %s", what, f.name, len(f.text), r)
				return
			}
			if r == "" && strings.HasPrefix(f.name, "bad") {
				vfFail(t, "accept", "%s: %q is indexed", what, f.name)
				return
			}
		}
		ix.Flush()
		ix.Close()
		c03Check(t, what, path, paths, kept)
		evals += len(files)
		distinct[fmt.Sprint(what, limit, len(files))] = true
		left, _ := ioutil.ReadDir(tmp)
		if len(left) != 0 {
			vfFail(t, "litter", "%s: %d temporary files are left behind, for example %s", what, len(left), left[0].Name())
			os.RemoveAll(tmp)
			os.Mkdir(tmp, 0700)
		}
		os.Remove(path)
	}
	alph := []string{"abcd", "ab", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,;(){}[]\n\t", "\x00\x01\x7f\n~"}
	for r := 0; r < rounds; r++ {
		al := alph[rng.Intn(len(alph))]
		n := rng.Intn(30)
		if r%12 == 3 {
			n = 150 + rng.Intn(300)
		}
		var files []c03File
		for i := 0; i < n; i++ {
			l := rng.Intn(60)
			if rng.Intn(20) == 0 {
				l = 16380 + rng.Intn(10)
			}
			b := make([]byte, l)
			for j := range b {
				b[j] = al[rng.Intn(len(al))]
				if j%80 == 79 {
					b[j] = '\n'
				}
			}
			text := string(b)
			name := fmt.Sprintf("d%d/f%d é", i%3, i)
			switch rng.Intn(25) {
			case 0:
				text += "é€\U00010000"
			case 1:
				name, text = "bad"+name, text+"x\x80"
			case 2:
				name, text = "bad"+name, text+"\xff\xff"+text
			case 3:
				name, text = "bad"+name, strings.Repeat(strings.Repeat("a", 2001)+"\n", 1+rng.Intn(3))
			case 4:
				text = strings.Repeat(strings.Repeat("b", 1999)+"\n", 1+rng.Intn(3))
			case 5:
				name = strings.Repeat("x", 300) + name
			}
			files = append(files, c03File{name, text})
		}
		var paths []string
		for i := rng.Intn(3); i > 0; i-- {
			paths = append(paths, fmt.Sprintf("/p%d", i))
		}
		limit := 0
		if rng.Intn(3) > 0 {
			limit = 1 + rng.Intn(400)
			if rng.Intn(3) == 0 {
				limit = 1 + rng.Intn(20)
			}
		}
		if n > 100 && limit < 50 && limit > 0 {
			limit += 50
		}
		what := fmt.Sprintf("round %d: %d files over %q, spilling at %d entries", r, n, al, limit)
		if len(samples) < 12 && r%10 == 1 {
			samples = append(samples, what)
		}
		run(what, limit, paths, files, []int{1, 7, 100, 20000}[rng.Intn(4)])
		if t.Failed() {
			break
		}
	}
	// the writer's own limit, and a name table larger than its buffers
	if !t.Failed() {
		var files []c03File
		al := alph[2]
		nf := 500
		if vfThorough() {
			nf = 1100
		}
		for i := 0; i < nf; i++ {
			b := make([]byte, 19500)
			for j := range b {
				b[j] = al[rng.Intn(len(al))]
			}
			files = append(files, c03File{strings.Repeat("n", 600) + fmt.Sprint(i), string(b)})
		}
		what := fmt.Sprintf("%d files of 19500 random characters each", nf)
		samples = append(samples, what)
		run(what, 0, []string{"/p"}, files, 20000)
	}
	if spills < rounds/4 && !t.Failed() {
		fmt.Println("the writer's limit could not be lowered")
	}
	vfStat(evals, len(distinct), "files added to an index writer (random texts, piecewise readers, lowered and real spill limits); the index file is compared byte by byte with one laid out from the texts, and read back", samples)
}
