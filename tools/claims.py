CLAIMS = {
 "C02": ("proof", "Every function of the posting-list reader is under contract and all obligations are discharged; assumes a well-formed index file (tableOK/listsOK, the writer's side is C03) and a well-formed query tree."),
 "C04": ("proof", "The grep loop (grep2, grep2File, Grep2/fillFrom buffering, context extraction) is under contract and all obligations are discharged, against an abstract matcher (its own contract is C07's bounded harness); newline counting by the nlc axioms."),
 "C05": ("proof", "Index.Search and its helpers are under contract and discharged: names, offset, limit, cap, invalid patterns; the regexp compiler is a specified external; that every candidate is examined is checked by the bounded harness."),
 "C09": ("proof", "All handlers of api/api.go, searchAll and its goroutines are under contract (one answer, status, only requested repositories) and discharged; net/http and JSON encoding are specified externals; encoding an answer is assumed not to fail."),
 "C10": ("proof", "Search, swapIndexes, updateAndReindex, the update loop and newSearcher are under contract with index liveness as ghost state (in service / destroyed) and discharged; the shared index is reasoned about through the invariant of its lock."),
 "C11": ("proof", "Monitor invariants on Searcher.lck and Index.lck: every access to guarded fields generates a lock-held obligation, every acquisition a not-already-held obligation, every exit a released obligation; all discharged. sync.RWMutex semantics assumed; the harness runs under the race detector."),
 "C12": ("proof", "claim, removeUnclaimed, findExistingRefs, Read and their use in MakeAll/newSearcher are under contract and discharged; file-system calls are specified externals; that MakeAll removes after all starts are finished is also exercised by the harness."),
 "C08": ("proof", "All parameter parsing functions and the search handler's use of them are under contract and discharged; strconv, strings and the map iteration are specified externals."),
 "C13": ("proof", "The limiter and every function that starts an indexing or update job are under contract (slots as a counting resource) and discharged; assumes Go channel semantics as specified in the contracts."),
 "C14": ("proof", "Stop, Update, Wait and the update loop are under contract over channel ghost state and discharged; assumes Go channel semantics as specified in the contracts; termination of a single update is assumed."),
 "C18": ("proof", "All functions of client/coalesce.go are under contract and all obligations are discharged; assumes matches in increasing order with consistent contexts, which is what the server sends (C04)."),
 "C15": ("proof", "Every function that reads, merges and writes the configuration is under contract and discharged; the JSON decoder is a specified external that creates distinct fresh objects."),
 "C16": ("proof", "Every function that sends configuration data out (repository list, templates, excludes) is under contract: what is handed to an encoder or template carries no vcs-config value; discharged. html/template, encoding/json and the MarshalJSON dispatch are specified externals."),
 "C17": ("proof", "The routing functions, the start-up handler and ServeWithIndex are under contract and discharged; net/http's mux and server are specified externals."),
 "C19": ("proof", "Colorer.Fg/FgBg, hiliteMatches, lineNumber, repoNameFromUrl and repoNameFor are under contract and discharged; regexp, fmt and bytes.Buffer are specified externals; the Present loops and loading the answer are checked by the bounded harness only."),
 "C20": ("proof", "Every driver (git, hg, svn, bzr, local), Register, New and PullOrClone are under contract over a log of the commands run, and discharged; os/exec, dirhash and JSON decoding are specified externals."),
 "C03": ("proof", "sparse.Set, the buffered writer, the variable-length code, Add (exact set of three-byte sequences and posted entries), addName, copyFile, Create and Flush (header, trailer, sections) are under contract and discharged; flushPost, sortPost and mergePost (unsafe casts, mmap) have trusted contracts, covered by the bounded harness."),
 "C06": ("proof", "The walk callback, addFileToIndex, addDirToIndex, indexAllFiles, isTextFile and IndexWriter.Add are under contract and discharged; file-system and compression calls are specified externals that may fail at any time; Walk is assumed to visit every entry."),
 "C21": ("proof", "Build, indexAllFiles, addFileToIndex, writeExcludedFilesJson, writeManifest and Flush are under contract with 'not known to have reached its file' as ghost state and discharged; file-system calls are specified externals that may fail at any time."),
 "C07": ("proof", "The matcher (init, addq, stepEmpty, stepByte, computeNext, cache, match, matchString, Compile, sparse.Set) is under contract and discharged: its answer is the one given by the byte program's instructions, for every history of cached states. enc/dec of states and toByteProg (and regexp/syntax) have trusted contracts, covered by the bounded harness."),
 "C01": ("other", "RegexpQuery, analyze (with fold, over the parsed pattern) and every operation on trigram queries and exact/prefix/suffix sets (stringSet, simplifySet, simplify, concat, alternate, and, or, andTrigrams, implies) are under contract and discharged: every word of the pattern that the text contains satisfies the query. andOr (merging and factoring two queries in place) has a trusted contract and is bounded: checked by the harness only. What the words of a parsed pattern are (regexp/syntax) is assumed."),
}
NA = {}
