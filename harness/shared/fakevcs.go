//imports: fmt io/ioutil os path/filepath sync time github.com/hound-search/hound/config github.com/hound-search/hound/vcs
// A version control driver held in memory, registered with the real vcs
// package, so that the real searchers can be driven through their real code.

type vfRepo struct {
	mu      sync.Mutex
	url     string
	files   map[string]string
	rev     string
	pullErr error
	clones  int
	pulls   int
	onOp    func() // called inside Clone and Pull
	dirs    []string
	after   func(dir string) // called when the files are in place
}

var vfMu sync.Mutex
var vfRepos = map[string]*vfRepo{}
var vfOnce sync.Once

type vfDriver struct{ cfg string }

func vfGet(url string) *vfRepo {
	vfMu.Lock()
	defer vfMu.Unlock()
	return vfRepos[url]
}

func (d *vfDriver) sync(r *vfRepo, dir string) (string, error) {
	r.mu.Lock()
	op := r.onOp
	r.mu.Unlock()
	if op != nil {
		op()
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.dirs = append(r.dirs, dir)
	if r.pullErr != nil {
		return "", r.pullErr
	}
	// what is there already is left alone
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			rel, _ := filepath.Rel(dir, p)
			if _, ok := r.files[rel]; !ok {
				os.Remove(p)
			}
		}
		return nil
	})
	if err := os.MkdirAll(dir, 0755); err != nil {
		return "", err
	}
	for n, c := range r.files {
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0755)
		if b, err := ioutil.ReadFile(p); err == nil && string(b) == c {
			continue
		}
		if err := ioutil.WriteFile(p, []byte(c), 0644); err != nil {
			return "", err
		}
	}
	if r.after != nil {
		r.after(dir)
	}
	return r.rev, nil
}

func (d *vfDriver) Clone(dir, url string) (string, error) {
	r := vfGet(url)
	if r == nil {
		return "", fmt.Errorf("no such fake repository %s", url)
	}
	r.mu.Lock()
	r.clones++
	r.mu.Unlock()
	os.MkdirAll(dir, 0755)
	ioutil.WriteFile(dir+".url", []byte(url), 0644)
	return d.sync(r, dir)
}

func (d *vfDriver) Pull(dir string) (string, error) {
	u, err := ioutil.ReadFile(dir + ".url")
	if err != nil {
		return "", err
	}
	r := vfGet(string(u))
	if r == nil {
		return "", fmt.Errorf("no such fake repository %s", u)
	}
	r.mu.Lock()
	r.pulls++
	r.mu.Unlock()
	return d.sync(r, dir)
}

func (d *vfDriver) HeadRev(dir string) (string, error) {
	u, err := ioutil.ReadFile(dir + ".url")
	if err != nil {
		return "", err
	}
	r := vfGet(string(u))
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.rev, nil
}

func (d *vfDriver) SpecialFiles() []string                { return []string{".special"} }
func (d *vfDriver) AutoGeneratedFiles(dir string) []string { return nil }

// vfNew makes a fake repository and the configuration of it.
func vfNew(url, rev string, files map[string]string) (*vfRepo, *config.Repo) {
	vfOnce.Do(func() {
		vcs.Register(func(c []byte) (vcs.Driver, error) { return &vfDriver{string(c)}, nil }, "verif-fake")
	})
	r := &vfRepo{url: url, rev: rev, files: files}
	vfMu.Lock()
	vfRepos[url] = r
	vfMu.Unlock()
	no := false
	return r, &config.Repo{Url: url, Vcs: "verif-fake", EnablePollUpdates: &no, EnablePushUpdates: &no,
		UrlPattern: &config.UrlPattern{BaseUrl: "x", Anchor: "y"}}
}

func (r *vfRepo) set(rev string, files map[string]string, err error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.rev, r.files, r.pullErr = rev, files, err
}

func (r *vfRepo) counts() (int, int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.clones, r.pulls
}

func vfUntil(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		if f() {
			return true
		}
		time.Sleep(2 * time.Millisecond)
	}
	return f()
}
