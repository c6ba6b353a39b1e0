From c207352f2bf8f9833b51dd228026e6198449d374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 01/18] fix: ignore range bounds that do not fit in an int

A bound of 2^63 or more was accepted and wrapped to a negative offset or limit.
---
 api/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index b7aef0e..340823b 100644
--- a/api/api.go
+++ b/api/api.go
@@ -154,7 +154,8 @@ func parseRangeInt(v string, i *int) {
 		return
 	}
 
-	vi, err := strconv.ParseUint(v, 10, 64)
+	// 63 bits, so that the value always fits in an int.
+	vi, err := strconv.ParseUint(v, 10, 63)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From c5bebada2a5286957c6353f96899e30183b645d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 02/18] fix: report an unknown repository as not found in
 /api/v1/excludes

The handler dereferenced a nil searcher and panicked.
---
 api/api.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 340823b..12b0587 100644
--- a/api/api.go
+++ b/api/api.go
@@ -235,7 +235,15 @@ func Setup(m *http.ServeMux, idx map[string]*searcher.Searcher, defaultMaxResult
 
 	m.HandleFunc("/api/v1/excludes", func(w http.ResponseWriter, r *http.Request) {
 		repo := r.FormValue("repo")
-		res := idx[repo].GetExcludedFiles()
+		srch := idx[repo]
+		if srch == nil {
+			writeError(w,
+				fmt.Errorf("No such repository: %s", repo),
+				http.StatusNotFound)
+			return
+		}
+
+		res := srch.GetExcludedFiles()
 		w.Header().Set("Content-Type", "application/json;charset=utf-8")
 		w.Header().Set("Access-Control-Allow", "*")
 		fmt.Fprint(w, res)
-- 
2.43.0


From 56a8b31598332bdd47cf4927fb50eaf9666f6549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 03/18] fix: do not destroy the live index when the replaced
 one cannot be removed

swapIndexes installs the new index before it destroys the old one. When that
failed, the new index was destroyed too although it was already in service, so
every later search of the repository failed.
---
 searcher/searcher.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 791ce81..9103eb6 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -379,12 +379,9 @@ func updateAndReindex(
 		return rev, false
 	}
 
+	// The new index is live even if the one it replaced could not be removed.
 	if err := s.swapIndexes(idx); err != nil {
-		log.Printf("failed index swap (%s): %s", name, err)
-		if err := idx.Destroy(); err != nil {
-			log.Printf("failed to destroy index (%s): %s\n", name, err)
-		}
-		return rev, false
+		log.Printf("failed to destroy replaced index (%s): %s", name, err)
 	}
 
 	return newRev, true
-- 
2.43.0


From 733073f6c2e9e38c449329376aa13c42cdacee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 04/18] fix: hold the lock while reading the excluded files of
 the live index

GetExcludedFiles read s.idx, and the directory it names, while an update could
replace and delete it.
---
 searcher/searcher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 9103eb6..85446af 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -137,6 +137,9 @@ func (s *Searcher) Search(pat string, opt *index.SearchOptions) (*index.SearchRe
 // Get the excluded files as a JSON string. This is only used for returning
 // the data directly to clients (thus JSON).
 func (s *Searcher) GetExcludedFiles() string {
+	s.lck.RLock()
+	defer s.lck.RUnlock()
+
 	path := filepath.Join(s.idx.GetDir(), "excluded_files.json")
 	dat, err := ioutil.ReadFile(path)
 	if err != nil {
-- 
2.43.0


From f81afc66ad667d5ce4ee79a1def4ca38f31c29b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 05/18] fix: note a shutdown request where it is received

Stop set shutdownRequested after sending the request, so that the update loop
could receive the request, see the flag still unset, update once more and then
wait for ever (besides racing on the flag).
---
 searcher/searcher.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 85446af..0973dc5 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -168,7 +168,6 @@ func (s *Searcher) Update() bool {
 func (s *Searcher) Stop() {
 	select {
 	case s.shutdownCh <- empty{}:
-		s.shutdownRequested = true
 	default:
 	}
 }
@@ -195,6 +194,15 @@ func (s *Searcher) waitForUpdate(delay time.Duration) {
 	case <-s.updateCh:
 	case <-tch:
 	case <-s.shutdownCh:
+		s.shutdownRequested = true
+		return
+	}
+
+	// a shutdown request takes precedence over an update that is due as well
+	select {
+	case <-s.shutdownCh:
+		s.shutdownRequested = true
+	default:
 	}
 }
 
-- 
2.43.0


From 32dcd7872beb48b18343b2e78bb39d062ed43deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 06/18] fix: reuse an existing index directory for one
 repository only

Two repositories with the same URL and revision both claimed the same index
directory; the first update of one of them then deleted the index the other
was serving.
---
 searcher/searcher.go | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 0973dc5..193a846 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -69,29 +69,23 @@ func (l limiter) Release() {
 }
 
 /**
- * Find an Index ref for the repo url and rev, returns nil if no such
- * ref exists.
+ * Find an Index ref for the repo url and rev that is not in use yet and claim
+ * it for reuse, returns nil if no such ref exists. A claimed ref will not be
+ * garbage collected at the end of startup.
  */
-func (r *foundRefs) find(url, rev string) *index.IndexRef {
+func (r *foundRefs) claim(url, rev string) *index.IndexRef {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
 	for _, ref := range r.refs {
-		if ref.Url == url && ref.Rev == rev {
+		if ref.Url == url && ref.Rev == rev && !r.claimed[ref] {
+			r.claimed[ref] = true
 			return ref
 		}
 	}
 	return nil
 }
 
-/**
- * Claim a ref for reuse. This ensures they ref will not be garbage
- * collected at the end of startup.
- */
-func (r *foundRefs) claim(ref *index.IndexRef) {
-	r.lock.Lock()
-	defer r.lock.Unlock()
-
-	r.claimed[ref] = true
-}
-
 /**
  * Delete the directorires associated with all IndexRefs that were
  * found in the dbpath but were not claimed during startup.
@@ -435,12 +429,11 @@ func newSearcher(
 	}
 
 	var idxDir string
-	ref := refs.find(repo.Url, rev)
+	ref := refs.claim(repo.Url, rev)
 	if ref == nil {
 		idxDir = nextIndexDir(dbpath)
 	} else {
 		idxDir = ref.Dir()
-		refs.claim(ref)
 	}
 
 	idx, err := buildAndOpenIndex(
-- 
2.43.0


From 7807187d3eafad5a4e1e2c0c55f308f00c35a522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 07/18] fix: do not report a line after the final newline

A pattern that matches the empty string found one more, empty, line at the end
of every file that ends in a newline.
---
 index/grep.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/grep.go b/index/grep.go
index d8af164..e7ad46b 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -156,6 +156,11 @@ func (g *grepper) grep2(
 		// start of matched line.
 		str := bytes.LastIndex(buf[:m], nl) + 1
 
+		// what follows the final newline is not a line.
+		if str == len(buf) {
+			return nil
+		}
+
 		//end of previous line
 		endl := str - 1
 		if endl < 0 {
-- 
2.43.0


From 99e525bc1daa4a9cd271619111a83e26974347e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 08/18] fix: keep an empty first line in the context before a
 match

The lines before a match were cut off without the newline that ends them, so
that an empty line at the beginning could not be told from no line.
---
 index/grep.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/index/grep.go b/index/grep.go
index e7ad46b..03a5dee 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -89,13 +89,15 @@ func lastNLines(buf []byte, n int) [][]byte {
 		return nil
 	}
 
+	// the newline that ends the last line does not begin another one.
+	if buf[len(buf)-1] == '\n' {
+		buf = buf[:len(buf)-1]
+	}
+
 	r := make([][]byte, n)
 	for i := 0; i < n; i++ {
 		m := bytes.LastIndex(buf, nl)
 		if m < 0 {
-			if len(buf) == 0 {
-				return r[n-i:]
-			}
 			r[n-i-1] = buf
 			return r[n-i-1:]
 		}
@@ -161,12 +163,6 @@ func (g *grepper) grep2(
 			return nil
 		}
 
-		//end of previous line
-		endl := str - 1
-		if endl < 0 {
-			endl = 0
-		}
-
 		//end of current line
 		end := m + 1
 		if end > len(buf) {
@@ -178,7 +174,7 @@ func (g *grepper) grep2(
 		more, err := fn(
 			bytes.TrimRight(buf[str:end], "\n"),
 			lineno+1,
-			lastNLines(buf[:endl], nctx),
+			lastNLines(buf[:str], nctx),
 			firstNLines(buf[end:], nctx))
 		if err != nil {
 			return err
-- 
2.43.0


From 58c4f11e275e8b4a858c0bf9c91fcfb7ad016115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 09/18] fix: exclude files whose name matches at position 0

MatchString returns the end of the first matching line, which is 0 when that
line of the name is empty.
---
 index/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/index.go b/index/index.go
index f84d933..531f86d 100644
--- a/index/index.go
+++ b/index/index.go
@@ -196,7 +196,7 @@ func (n *Index) Search(pat string, opt *SearchOptions) (*SearchResponse, error)
 		}
 
 		// reject files that match the exclude file pattern
-		if excludeFre != nil && excludeFre.MatchString(name, true, true) > 0 {
+		if excludeFre != nil && excludeFre.MatchString(name, true, true) >= 0 {
 			continue
 		}
 
-- 
2.43.0


From ae3d94817ac65ebccb75e156669079c0ca854161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 10/18] fix: report walk errors instead of crashing while
 indexing

filepath.Walk passes a nil FileInfo when a file cannot be examined (for example
when it was deleted meanwhile), which the callback dereferenced.
---
 index/index.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/index.go b/index/index.go
index 531f86d..477f6af 100644
--- a/index/index.go
+++ b/index/index.go
@@ -387,6 +387,10 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 	}
 
 	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
+		if err != nil {
+			return err
+		}
+
 		name := info.Name()
 		rel, err := filepath.Rel(src, path) //nolint
 		if err != nil {
-- 
2.43.0


From cf338c44af69591aa1f749a5271af345467f5a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:53 +0000
Subject: [PATCH 11/18] fix: index a repository whose own directory is hidden
 or special

With exclude-dot-files a repository in a directory such as ~/.config was
skipped as a whole and an empty index was built.
---
 index/index.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/index.go b/index/index.go
index 477f6af..0b1f4dc 100644
--- a/index/index.go
+++ b/index/index.go
@@ -397,6 +397,11 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 			return err
 		}
 
+		// The root is not subject to the rules for the files in it.
+		if rel == "." && info.IsDir() {
+			return nil
+		}
+
 		// Is this file considered "special", this means it's not even a part
 		// of the source repository (like .git or .svn).
 		if containsString(opt.SpecialFiles, name) {
-- 
2.43.0


From 9bbd35caa815bd309f3427a93e6ce5cc9dc3a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 12/18] fix: report errors of completing the files of an index

The compressed copy of a file is only written out when it is closed; these
errors (a full disk, say) were dropped, so that an index with truncated files
was taken into service.
---
 index/index.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/index/index.go b/index/index.go
index 0b1f4dc..f6986bf 100644
--- a/index/index.go
+++ b/index/index.go
@@ -93,9 +93,12 @@ func (r *IndexRef) writeManifest() error {
 	if err != nil {
 		return err
 	}
-	defer w.Close()
 
-	return gob.NewEncoder(w).Encode(r)
+	if err := gob.NewEncoder(w).Encode(r); err != nil {
+		w.Close()
+		return err
+	}
+	return w.Close()
 }
 
 func (r *IndexRef) Open() (*Index, error) {
@@ -307,7 +310,7 @@ func validUTF8IgnoringPartialTrailingRune(p []byte) bool {
 	return true
 }
 
-func addFileToIndex(ix *index.IndexWriter, dst, src, path string) (string, error) {
+func addFileToIndex(ix *index.IndexWriter, dst, src, path string) (reason string, err error) {
 	rel, err := filepath.Rel(src, path)
 	if err != nil {
 		return "", err
@@ -324,10 +327,18 @@ func addFileToIndex(ix *index.IndexWriter, dst, src, path string) (string, error
 	if err != nil {
 		return "", err
 	}
-	defer w.Close()
+	defer func() {
+		if cerr := w.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	g := gzip.NewWriter(w)
-	defer g.Close()
+	defer func() {
+		if cerr := g.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	return ix.Add(rel, io.TeeReader(r, g)), nil
 }
@@ -352,9 +363,12 @@ func writeExcludedFilesJson(filename string, files []*ExcludedFile) error {
 	if err != nil {
 		return err
 	}
-	defer w.Close()
 
-	return json.NewEncoder(w).Encode(files)
+	if err := json.NewEncoder(w).Encode(files); err != nil {
+		w.Close()
+		return err
+	}
+	return w.Close()
 }
 
 func containsString(haystack []string, needle string) bool {
-- 
2.43.0


From 0a02911860494b3e9b2f75f8d58cf9596361f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 13/18] fix: give a reason when a file is not indexed because
 of a read error

Add returned the empty string, which says that the file was indexed, so the
file was neither in the index nor in the list of excluded files.
---
 codesearch/index/write.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codesearch/index/write.go b/codesearch/index/write.go
index f056e35..744d956 100644
--- a/codesearch/index/write.go
+++ b/codesearch/index/write.go
@@ -144,10 +144,10 @@ func (ix *IndexWriter) Add(name string, f io.Reader) string {
 						break
 					}
 					log.Printf("%s: %v\n", name, err)
-					return ""
+					return fmt.Sprintf("Read error: %v", err)
 				}
 				log.Printf("%s: 0-length read\n", name)
-				return ""
+				return "0-length read"
 			}
 			buf = buf[:n]
 			i = 0
-- 
2.43.0


From f2368b53398f3312f56977fde43e0972666a50cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 14/18] fix: do not crash on a repository URL whose only slash
 is the first character

---
 client/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/client.go b/client/client.go
index ef37bd3..5beda88 100644
--- a/client/client.go
+++ b/client/client.go
@@ -45,6 +45,10 @@ func repoNameFromUrl(uri string) string {
 		name = name[:len(name)-4]
 	}
 
+	if ax == 0 {
+		return name
+	}
+
 	bx := strings.LastIndex(uri[:ax-1], "/")
 	if bx < 0 {
 		return name
-- 
2.43.0


From 7765d91f7d79387b8c8724291d2288818d3b6b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 15/18] fix: reject null repositories and null vcs-config
 entries with an error

---
 config/config.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index c978c00..409ed69 100644
--- a/config/config.go
+++ b/config/config.go
@@ -3,6 +3,7 @@ package config
 import (
 	"encoding/json"
 	"errors"
+	"fmt"
 	"os"
 	"path/filepath"
 )
@@ -147,6 +148,10 @@ func mergeVCSConfigs(cfg *Config) error {
 
 	globalConfigVals := make(map[string]map[string]interface{}, globalConfigLen)
 	for vcs, configBytes := range cfg.VCSConfigMessages {
+		if configBytes == nil {
+			return fmt.Errorf("vcs-config for %s is null", vcs)
+		}
+
 		var configVals map[string]interface{}
 		if err := json.Unmarshal(*configBytes, &configVals); err != nil {
 			return err
@@ -212,7 +217,10 @@ func (c *Config) LoadFromFile(filename string) error {
 		c.DbPath = path
 	}
 
-	for _, repo := range c.Repos {
+	for name, repo := range c.Repos {
+		if repo == nil {
+			return fmt.Errorf("configuration of repo %s is null", name)
+		}
 		initRepo(repo)
 	}
 
-- 
2.43.0


From 29ec4fcede479e5745279e035120933389e3e230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:08 +0000
Subject: [PATCH 16/18] fix: reject a negative max-concurrent-indexers with an
 error

---
 config/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config/config.go b/config/config.go
index 409ed69..3b14856 100644
--- a/config/config.go
+++ b/config/config.go
@@ -129,6 +129,10 @@ func initConfig(c *Config) error {
 		c.MaxConcurrentIndexers = defaultMaxConcurrentIndexers
 	}
 
+	if c.MaxConcurrentIndexers < 0 {
+		return fmt.Errorf("max-concurrent-indexers is negative: %d", c.MaxConcurrentIndexers)
+	}
+
 	if c.HealthCheckURI == "" {
 		c.HealthCheckURI = defaultHealthCheckURI
 	}
-- 
2.43.0


From 6137b1463aa22d3054f6bfdcb5dd02edbdba682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:50 +0000
Subject: [PATCH 17/18] fix: do not return the decoded part of a broken
 manifest

---
 index/index.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/index/index.go b/index/index.go
index f6986bf..fdabfb0 100644
--- a/index/index.go
+++ b/index/index.go
@@ -502,7 +502,8 @@ func Read(dir string) (*IndexRef, error) {
 	defer r.Close()
 
 	if err := gob.NewDecoder(r).Decode(m); err != nil {
-		return m, err
+		// whatever was decoded before the error is not to be relied on
+		return &IndexRef{dir: dir}, err
 	}
 
 	return m, nil
-- 
2.43.0


From e21ee38699590d21b48f7dee7774582248f76f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 18/18] fix: do not overwrite the exact strings of a regexp
 while computing its query

alternate computed the prefixes and the suffixes of exact|other with
union on the exact set itself, which reuses its storage: the second call
overwrote the result of the first, and the trigrams added to the query
were taken from the overwritten strings, so that files which match the
pattern were left out.
---
 codesearch/index/regexp.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codesearch/index/regexp.go b/codesearch/index/regexp.go
index a5686af..ebf5a99 100644
--- a/codesearch/index/regexp.go
+++ b/codesearch/index/regexp.go
@@ -604,8 +604,9 @@ func alternate(x, y regexpInfo) (out regexpInfo) {
 	if x.exact.have() && y.exact.have() {
 		xy.exact = x.exact.union(y.exact, false)
 	} else if x.exact.have() {
-		xy.prefix = x.exact.union(y.prefix, false)
-		xy.suffix = x.exact.union(y.suffix, true)
+		// union reuses its receiver's storage, and x.exact is needed three times.
+		xy.prefix = x.exact.copy().union(y.prefix, false)
+		xy.suffix = x.exact.copy().union(y.suffix, true)
 		x.addExact()
 	} else if y.exact.have() {
 		xy.prefix = x.prefix.union(y.exact, false)
-- 
2.43.0

