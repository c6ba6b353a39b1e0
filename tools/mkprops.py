#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (one source of truth for titles/statements/anchors).
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
p("C01","The trigram pre-filter never hides a matching file",
 "For every accepted search pattern, any text that the pattern matches also satisfies the trigram query derived from that pattern (whether or not the text is the only one indexed), so that no indexed file containing a match is discarded before it is searched. Simplifications of the query (merging, factoring, shortening the trigram sets) may only make it more permissive, never stricter.",
 ["inputs"],"every regular expression the search accepts and every text",
 "Tests compare the derived query with about forty literal expected strings; whether each approximation step is sound for all patterns is a universally quantified statement over regular expressions and texts.",
 ["codesearch/index/regexp.go"],
 [("RegexpQuery/analyze and the concat/alternate/simplify algebra","codesearch/index/regexp.go"),("Query and/or combination and trigram factoring","codesearch/index/regexp.go: andOr, implies, trigramsImply")],
 [("regexpInfo","canEmpty/exact/prefix/suffix/match approximations of a sub-expression","codesearch/index/regexp.go")],["search results"])
p("C02","Posting lists answer trigram queries exactly",
 "Evaluating a trigram query against an index returns, in strictly increasing order and without duplicates, exactly the files whose recorded trigrams satisfy the query: conjunctions intersect, disjunctions unite, an unrestricted query yields every file and an unsatisfiable one none. This holds for every combination of posting lists, whether or not a restricting list is supplied.",
 ["inputs"],"every query tree and every index content (posting lists of any length)",
 "The tests intersect a handful of lists over a three-file index; the merges and the binary search over the posting table have to be right for every length and overlap.",
 ["codesearch/index/read.go"],
 [("postingList/postingAnd/postingOr/mergeOr/postingQuery","codesearch/index/read.go"),("postReader delta decoding, findList binary search","codesearch/index/read.go")],
 [],["which files a search opens"])
p("C03","The trigram index on disk round-trips what was added",
 "Every file added to an index writer is stored under the name it was given in the order added, and after reading the index back each file is listed under exactly the set of three-byte sequences it contains (no missing and no extra entries), regardless of how much was added, how often the writer had to spill to temporary files, and the order in which entries were buffered and sorted. The file header, the section offsets in the trailer and the per-file name table always agree with the data written.",
 ["inputs"],"every sequence of added files, including ones large enough to force spills",
 "Tests build two tiny indexes and compare one golden file; spills, radix sort passes and merging of spilled runs are never exercised.",
 ["codesearch/index/write.go","codesearch/index/read.go","codesearch/sparse/set.go"],
 [("IndexWriter.Add/Flush/flushPost/mergePost","codesearch/index/write.go"),("sortPost radix sort and postHeap k-way merge","codesearch/index/write.go"),("sparse set","codesearch/sparse/set.go")],
 [("post entries","(trigram, file id) packed in 64 bits","codesearch/index/write.go")],[])
p("C04","A grep reports exactly the matching lines, correctly numbered, in order",
 "Searching the text of a file reports every line that matches the pattern and no other line, each exactly once, in order of appearance (the text after a reported line is searched afresh, and its start counts as a beginning of text), with its true text, its true line number and exactly the available context lines around it (up to the requested number; fewer only at the start and end of the file and, before a match, where the previously reported match is closer than that). This is independent of file size, buffering, and how matches fall relative to each other.",
 ["inputs"],"every text, every pattern, every number of context lines",
 "The tests grep one fixed text with a few patterns; buffer growth, empty lines, missing final newlines and adjacent matches are unbounded input dimensions.",
 ["index/grep.go"],
 [("grepper.grep2 and its line bookkeeping","index/grep.go"),("firstNLines/lastNLines/countLines context extraction","index/grep.go")],
 [],["Lines/LineNumber/Before/After in the search response"])
p("C05","Search options select exactly the files and matches they describe",
 "Given the candidate files, a search reports matches from exactly those files whose name matches the file filter (if any) and does not match the exclude filter (if any); offset skips that many matching files and limit caps the number of files returned; a result cap of N stops the search of a repository once N matching lines have been reported in total (a cap of zero or less is no cap), and the reported number of files with matches and of files opened are the true counts of what was examined until then. An option left empty imposes no restriction, and an invalid pattern yields an error rather than results.",
 ["inputs","configurations"],"every index content and every combination of search options",
 "Tests run one search with default options; option combinations and their interaction with the counters are untested.",
 ["index/index.go"],
 [("Index.Search file loop, filters, counters and collection","index/index.go")],
 [],["SearchResponse Matches, FilesWithMatch, FilesOpened"])
p("C06","Every file of a repository is indexed or listed as excluded with a reason",
 "When a repository is indexed, every regular file found outside the special and hidden files and directories that are skipped by rule ends up either in the index (with its content stored for searching under the same relative name) or in the list of excluded files with a non-empty reason, never in neither or both; unreadable, oversized, binary or unusual files never abort the build silently or disappear. A failure to read the directory tree or to store a file makes the build fail with an error instead of producing an incomplete index.",
 ["inputs","fault_sequences"],"every directory tree and every failing file operation",
 "Tests index the source directory itself, in which every file is well-formed and readable.",
 ["index/index.go","codesearch/index/write.go"],
 [("indexAllFiles walk callback and addFileToIndex","index/index.go"),("IndexWriter.Add rejection reasons","codesearch/index/write.go"),("isTextFile / containsString","index/index.go")],
 [],["/api/v1/excludes, search results"])
p("C07","The line matcher gives the regular expression's answer for every input",
 "For any pattern and any text the matcher reports the end of the first line that contains a match, or that there is none, where lines end at newlines, a pattern never matches a newline (a negated character class does not either), and word boundaries lie between ASCII word and other bytes. The answer depends only on the pattern, the text and the two boundary flags: earlier calls with other inputs, warm or cold internal caches and cache resets never change it. It never reads outside the text it is given.",
 ["inputs","histories"],"every pattern, every text and every history of earlier matches with the same compiled expression",
 "Tests use a fresh expression per case and short texts, so cached states from earlier inputs, cache flushes and boundary conditions are hardly exercised.",
 ["codesearch/regexp/match.go","codesearch/regexp/regexp.go","codesearch/sparse/set.go"],
 [("matcher.match lazy DFA with cached transitions","codesearch/regexp/match.go"),("dstate encoding/decoding and step computation","codesearch/regexp/match.go: nstate.enc/dec, computeNext")],
 [("dstate.next","cached transition per byte or nil","codesearch/regexp/match.go")],["Regexp.Match result"])
p("C08","API parameters are parsed and clamped to safe values",
 "For every query string, a repository list resolves to exactly the named known repositories (all of them only when the wildcard is given; an empty list names none, unknown names are left out), boolean parameters are true exactly for the documented spellings, and numeric parameters never become negative, wrap around or crash: malformed values fall back to the documented default and context/limit values stay within their documented minimum and maximum (a zero or negative result limit means no limit).",
 ["inputs"],"every request parameter value",
 "One test checks four range strings; overflow, malformed and boundary values are not covered.",
 ["api/api.go"],
 [("parseAsBool/parseAsIntValue/parseAsUintValue/parseRangeInt/parseRangeValue/parseAsRepoList","api/api.go")],
 [],["effective SearchOptions for a request"])
p("C09","Every API request gets exactly one well-formed answer",
 "For every request to the API, the server writes one complete JSON answer with the right status: an unknown repository named to the excludes or the webhook endpoint is reported as not found (unknown names in a repository list are ignored), disallowed methods as not allowed, disabled webhooks as forbidden, malformed bodies as bad requests, search failures as an error body; no request makes a handler crash or answer twice. A successful search answer contains results for exactly the requested repositories that had matches.",
 ["inputs","histories"],"every request, repository set and search outcome",
 "No test issues a request to any endpoint.",
 ["api/api.go"],
 [("Setup handlers, writeJson/writeResp/writeError, searchAll","api/api.go")],
 [],["HTTP status and body"])
p("C10","A repository stays searchable on one consistent index across updates",
 "Once a repository is searchable it stays so: each search is answered entirely from one complete index, an update either installs a completely built and opened index or leaves the previous one in service untouched, and the index in service is never deleted. Whatever fails while updating (pull, build, open, removal of the old index), the next search still succeeds and a later update is attempted again.",
 ["schedules","histories","fault_sequences"],"every interleaving of searches and updates and every failure while updating",
 "No test performs an update, let alone a failing or concurrent one.",
 ["searcher/searcher.go","index/index.go"],
 [("updateAndReindex/buildAndOpenIndex/swapIndexes","searcher/searcher.go"),("Index.Destroy/Close","index/index.go")],
 [("Searcher.idx","the index that serves searches","searcher/searcher.go")],[])
p("C11","The served index is only touched under its lock",
 "Every access to the index a repository currently serves happens while holding that repository's lock (shared for reading, exclusive for replacing), every acquired lock is released on every path including errors, and an index's internal resources are only used while its own lock is held. No acquisition is attempted while already holding the same lock.",
 ["schedules"],"every interleaving of searches, listings, updates and shutdown",
 "The tests are single-threaded and a race needs an unlucky schedule to show up.",
 ["searcher/searcher.go","index/index.go"],
 [("Searcher.lck","searcher/searcher.go: Search, GetExcludedFiles, swapIndexes"),("Index.lck","index/index.go: Search, Destroy, Close")],
 [],[])
p("C12","Startup reuses each index at most once and deletes only unclaimed ones",
 "At startup every existing index directory is used by at most one repository, only when both the repository URL and the revision recorded in it match what that repository needs, and after startup exactly the index directories that no repository claimed are deleted and nothing else. A directory without a valid manifest is treated as garbage and never served.",
 ["configurations","histories","schedules"],"every set of configured repositories and every content of the database directory",
 "No test starts a server on an existing database directory.",
 ["searcher/searcher.go","index/index.go"],
 [("findExistingRefs/foundRefs find, claim and removeUnclaimed","searcher/searcher.go"),("index.Read manifest loading","index/index.go")],
 [("foundRefs.claimed","index directories in use","searcher/searcher.go")],[])
p("C13","Indexing concurrency stays within its bound and slots are always returned",
 "At no time do more indexing or update jobs run than the configured maximum, and every job that starts returns its slot exactly once however it ends, so that no failing repository can starve the others.",
 ["schedules","fault_sequences"],"every number of repositories, interleaving and failure",
 "No test runs the indexing pipeline with failures or with more repositories than slots.",
 ["searcher/searcher.go"],
 [("limiter Acquire/Release pairing in newSearcherConcurrent and updateAndReindex","searcher/searcher.go")],
 [("limiter","counting semaphore","searcher/searcher.go")],[])
p("C14","Shutdown stops and reports every repository without blocking",
 "Asking a repository to stop never blocks and makes its update loop finish after at most the update in progress, after which its completion is signalled exactly once; a forced update request never blocks the requester, is never lost while the loop is idle, and any number of requests collapse into at least one update. Waiting for shutdown returns once the loop has finished.",
 ["schedules","histories"],"every interleaving of stop, update and the polling loop",
 "No test runs the update loop.",
 ["searcher/searcher.go"],
 [("Stop/Wait/completeShutdown/Update/waitForUpdate","searcher/searcher.go"),("shutdownCh, doneCh, updateCh buffering","searcher/searcher.go")],
 [],[])
p("C15","Configuration defaults fill exactly what was left out",
 "After loading a configuration every setting that was given keeps its given value and every setting left out (a zero or empty value counts as left out, where the setting has no separate notion of being unset) has its documented default (poll interval, VCS type, URL pattern, indexer count, title, health-check path, polling switches, result limit); a global VCS option applies to a repository exactly when the repository does not set that option itself, and the database path is absolute. A configuration that cannot be read or is inconsistent is rejected with an error, never a crash.",
 ["configurations"],"every configuration file",
 "Tests load one sample configuration and check three fields.",
 ["config/config.go"],
 [("LoadFromFile, initConfig, initRepo, mergeVCSConfigs","config/config.go")],
 [],["effective configuration"])
p("C16","Credentials in VCS options are never disclosed to clients",
 "Serialising the repositories for the API or the web page never includes the VCS-specific options of a repository (which can hold passwords), whatever they contain, while loading them from the configuration file keeps them intact.",
 ["inputs","configurations"],"every repository configuration",
 "No test serialises a repository that has VCS options.",
 ["config/config.go","api/api.go","ui/content.go"],
 [("SecretMessage MarshalJSON/UnmarshalJSON","config/config.go"),("Config.ToJsonString","config/config.go")],
 [],["/api/v1/repos, embedded page configuration"])
p("C17","The web front reports readiness truthfully",
 "The health-check path always answers OK, even before indexing has finished; every other path answers service-unavailable until the indexes are ready and is served by the real handlers from then on, and the transition is visible to requests already in flight without a data race. Each request receives exactly one answer.",
 ["schedules","inputs"],"every request path and every timing relative to readiness",
 "No test starts the web server.",
 ["web/web.go","ui/ui.go"],
 [("Server.ServeHTTP / serveWith / Start","web/web.go")],
 [("Server.mux","nil until ready","web/web.go")],[])
p("C18","The command line client merges match contexts without losing or repeating lines",
 "Combining the matches of one file into blocks yields blocks in increasing line order in which every line delivered by the server appears exactly once with its own text and number, is marked as a match exactly if the server reported it as a match, and different blocks never overlap. Holds for any number of matches with overlapping, adjacent or disjoint contexts.",
 ["inputs"],"every list of matches in increasing order with consistent contexts",
 "Tests check nine hand-written overlaps; arbitrary chains of three and more overlapping matches are not covered.",
 ["client/coalesce.go"],
 [("coalesceMatches and Block construction/merging","client/coalesce.go")],
 [],["hound command output"])
p("C19","Client presentation keeps the text intact and never fails on a valid answer",
 "Printing results changes nothing but colour: with colour off, formatting is the identity, and with colour on removing the colour sequences gives back the original text in which exactly the matched ranges are coloured. Shortening a repository URL to a display name and loading the answer never crash, whatever URL or repository name the server returns.",
 ["inputs"],"every line, pattern, colour setting, repository URL and name",
 "Tests check two ANSI strings; highlighting and the URL shortening are untested.",
 ["ansi/ansi.go","client/ack.go","client/grep.go","client/client.go"],
 [("Formatter/Colorer","ansi/ansi.go"),("hiliteMatches","client/ack.go"),("repoNameFromUrl","client/client.go")],
 [],["hound command output"])
p("C20","Each repository is fetched by its own driver, branch and directory",
 "A repository is pulled when its working copy already exists and cloned otherwise, by the driver registered under its configured type with its own options; the branch used is the configured one, else the detected default when detection is enabled, else the documented fallback. The revision recorded is the one the driver reported; an unknown driver name is an error, never replaced by another driver; a clone or revision query that fails is an error, while a git update command that fails is logged and the revision of the current working copy is used.",
 ["configurations","fault_sequences"],"every VCS configuration and every command failure",
 "Tests run git against its own repository and check the target reference for four cases.",
 ["vcs/vcs.go","vcs/git.go","vcs/hg.go","vcs/svn.go","vcs/bzr.go","vcs/local.go"],
 [("Register/New/PullOrClone","vcs/vcs.go"),("targetRef, headBranchDetector","vcs/git.go")],
 [],[])
p("C21","An index directory with a manifest is complete",
 "The manifest that marks an index directory as usable is written only after the trigram index, the stored file contents and the list of excluded files have been written completely and without an error; if a step before it fails the build reports an error and writes no manifest, a failure to write the manifest itself is reported too, and a directory whose build failed is never served. The manifest records the URL, revision and time the build was given.",
 ["crash_points","fault_sequences"],"every failing step and every crash point during a build",
 "No test injects a failure or crash into a build.",
 ["index/index.go"],
 [("Build/indexAllFiles ordering, IndexRef.writeManifest","index/index.go")],
 [],["database directory content"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
