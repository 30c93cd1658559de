#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the lines stay consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))
HOOK = "guarded re-export only (feature posy_sim): posy is a binary-only crate, so its internals need a `pub` path"
KV = "src/kvstore.rs"; HT = "src/package_db/http/http.rs"; UG = "src/package_db/http/ureq_glue.rs"
LZ = "src/package_db/http/lazy_remote_file.rs"; DB = "src/package_db/package_db.rs"; BW = "src/package_db/build_wheel.rs"
FE = "src/package_db/simple_api/fetch.rs"; PI = "src/package_db/simple_api/project_info.rs"
EN = "src/env.rs"; TR = "src/tree.rs"; AF = "src/vocab/artifact_formats.rs"; RS = "src/resolve.rs"; SS = "src/seek_slice.rs"; AH="src/vocab/artifact_hash.rs"

prop("C01", "A cached blob is read whole or not at all",
 "For every key of the on-disk blob cache, shared by any number of processes, a lookup returns either nothing or exactly the complete bytes of the most recent successfully committed write of that key, however operations interleave and wherever a process is killed. A write that was abandoned, failed, or whose process died before its commit is never visible, and a removed entry stays absent until the next commit. Distinct keys never affect one another.",
 ["schedules", "crash_points", "histories"], "all interleavings of lookups, conditional fills, locked overwrites and removals by several processes, with a kill between any two system calls",
 "test_kvfilestore_basics/overwrite run one thread in one process with no crash; the quantifier over interleavings and kill points is untouched ('XX TODO: seriously need some tests that validate the locking').",
 [KV], [("temporary file in the store's tmp directory, renamed over the entry at commit", KV), ("exclusive per-key lock file", KV)],
 ["KVFileStore::get / get_or_set / lock return values", "contents of the entry file"], [("entry file", "current value of a key", KV), ("lock file", "flock'ed for the duration of lookup/mutation", KV)], HOOK)
prop("C02", "Power loss or failed sync never publishes a torn cache entry",
 "After a power failure at any instant, in which unsynced file data may be lost, zeroed or torn and directory changes survive as any prefix of their order, every key of the blob cache holds either nothing or one complete value that was written for exactly that key. If the disk reports that data could not be made durable, the write is reported as failed and is not published. After restart the cache is usable again for every key.",
 ["crash_points", "fault_sequences", "histories"], "all power-loss points in all histories of fills, overwrites and removals, all subsets of unsynced writes, all prefixes of unsynced directory operations, and sync failures",
 "unit tests cannot cut power; nothing exercises what the file system may legally lose.",
 [KV], [("data sync before the atomic rename", KV)], ["KVFileStore::get after a simulated power cycle"], [("unsynced data", "page cache content that has not been synced", "operating system")], HOOK)
prop("C03", "One producer per cache key; the others wait and reuse its result",
 "A key's lock is held by at most one process at a time and is released when its holder finishes or dies; waiting for it survives signal interruption. The producer of a get-or-create call runs only if the key has no entry, so concurrent callers of the same key run it exactly once when it succeeds and all obtain the same value. Merely probing for an absent key creates no files or directories.",
 ["schedules", "crash_points", "fault_sequences"], "all interleavings of concurrent get-or-create calls and lock holders on shared and distinct keys, for file and directory stores, with kills, producer failures and EINTR at any point",
 "the existing tests are single threaded and never contend for a lock.",
 [KV, "src/util.rs"], [("flock on <key>.lock taken before the existence check and held through commit", KV), ("retry of interrupted system calls", "src/util.rs")], ["producer invocation intervals", "return values", "file tree after a probe"], [], HOOK)
prop("C04", "A cached directory appears complete or not at all",
 "For every key of the on-disk directory store, an entry is visible only with the complete tree its producer made, however callers interleave and wherever a process is killed. Once published, an entry is never modified, replaced or removed by later callers, and its path is the same for every caller. A producer that failed or was killed leaves the key absent, and the next caller can produce it.",
 ["schedules", "crash_points", "fault_sequences"], "all interleavings of callers on shared keys, a kill between any two system calls of the producer or of the publication, and I/O errors at any call",
 "test_kvdirstore_basics runs one caller, once, with no failure.",
 [KV], [("tree produced in a private temporary directory and renamed into place under the key's lock", KV)], ["tree under the path returned by KVDirStore::get_or_set"], [], HOOK)
prop("C05", "A failed cache operation reports failure and poisons nothing",
 "When a system call made by a cache operation fails (I/O error, full disk, descriptor exhaustion, short or interrupted transfer), the operation either still has its complete correct effect or returns an error without changing the stored value; it does not panic, report false success, or return wrong data. A process that survives leaves no temporary files behind, and once the fault is gone the same operation succeeds.",
 ["fault_sequences", "inputs"], "any system call of any operation on file and directory stores failing with any documented error, short reads/writes of any length, one fault or several",
 "no existing test injects a failing system call.",
 [KV, "src/util.rs"], [("error propagation and drop-based clean-up of temporary files", KV)], ["return values", "file tree afterwards"], [], HOOK)
prop("C06", "An opened cache entry keeps the content it had when opened",
 "A reader obtained from the blob cache keeps yielding exactly the bytes the entry had when it was opened, for any sequence of reads and seeks, even while other processes overwrite or remove the entry, and after the lock has been released. Readers obtained separately do not disturb each other's position.",
 ["schedules", "histories"], "all interleavings of a slow reader (reads and seeks) with overwrites, removals and refills by other processes",
 "test_kvfilestore_overwrite checks one fixed two-handle sequence.",
 [KV, SS], [("entries are replaced by rename, never modified in place", KV), ("bounded window over the entry file for cached bodies", SS)], ["bytes read through detached readers"], [], HOOK)

prop("C10", "Content pinned by hash is delivered and cached only if it matches",
 "A download whose hash is pinned either returns bytes with exactly that digest or fails, whatever the server, network, or other processes do; bytes that do not match are never left where a later request could return them. A matching copy already in the cache is served without the network. After a bad or interrupted download, a later attempt against a healthy server succeeds.",
 ["fault_sequences", "schedules", "crash_points", "inputs"], "all corruptions, truncations, resets, error pages, redirects and stalls of the transfer, crashes of the downloading process, and concurrent downloaders of the same or different hashes",
 "tests download fixed good content once or compare one mismatching hash; they cannot cover corruption points, concurrent processes or crashes.",
 [HT, AH, KV], [("digest checked while streaming, before the entry is committed", HT), ("by-hash store keyed by the digest", KV)], ["bytes returned by the hashed fetch", "by-hash cache contents", "requests seen by the server"], [], HOOK)
prop("C11", "The HTTP cache never serves stale or foreign content",
 "Every response is one the origin really gave for that same method and URL; it is answered from the cache without contacting the origin only while its caching headers, and the request's, still allow it at the current time. Once expired it is revalidated or refetched, a changed resource yields the new content, and an unchanged one is confirmed and keeps its content. A response the origin marked as not storable is never reused.",
 ["histories", "schedules", "fault_sequences", "configurations"], "all histories of requests, content changes, caching headers, clock advances and jumps, process restarts and concurrent processes sharing the cache",
 "the unit tests have a handful of header combinations against a live wall clock; histories over time, content changes and several processes are not reached.",
 [HT, SS, KV], [("stored cache policy consulted before use and after revalidation", HT), ("cache key made of method and URL", HT)], ["response body/status/headers", "requests seen by the origin and their validators"], [("policy + body file", "one cache entry", HT)], HOOK)
prop("C12", "Cache modes are honoured",
 "A cache-only request never causes network traffic: it returns content that is validly cached or reports that it is not cached. A no-store request always goes to the origin and neither reads nor writes any cache entry. A default-mode fetch leaves storable content in the cache so that a following cache-only fetch of it succeeds while it is still usable.",
 ["histories", "configurations", "fault_sequences"], "all histories of fetches in the three modes, for pinned and unpinned content, over cache states left by earlier requests, failures and crashes",
 "tests check single transitions with one server; not arbitrary histories or states left by failures.",
 [HT, DB], [("mode checked before any request is sent", HT)], ["requests seen by the origin", "file tree of the cache", "return values"], [], HOOK)
prop("C13", "A transfer that was cut short never passes for a complete one",
 "A body that is read to its end without error is exactly the body the origin sent, for every way of framing and fragmenting it. A transfer that is cut, reset, stalls beyond the timeout, or fails while being stored is reported as an error and leaves no cache entry that a later request would use in place of the real content. The next attempt against a healthy origin gets the true content.",
 ["fault_sequences", "inputs", "crash_points"], "all cut points and fragmentations of all framings (declared length, chunked, compressed), local disk errors while storing, and kills in mid-transfer",
 "no test interrupts a transfer.",
 [HT, UG, KV], [("body copied into a temporary entry that is committed only after the copy succeeded", HT)], ["bytes/errors from the body reader", "subsequent requests"], [], HOOK)
prop("C14", "Transient network failures are retried, a bounded number of times",
 "A request that fails transiently (name lookup, connect, connection dropped before a response, or status 500, 503, 520, 527) is tried again up to five more times with pauses growing from 250 ms to 4 s, and succeeds if one of those attempts succeeds. Any other status is returned at once without retry and unaltered. Every request returns within a bounded time even if the server never answers.",
 ["fault_sequences", "schedules"], "all sequences of per-attempt outcomes (refusals, resets, name-lookup failures, statuses, stalls) and latencies",
 "retry timing and sequences need a controllable clock and network; no test covers them.",
 [UG], [("retry loop with fixed pause table", UG), ("read/write/connect timeouts", UG)], ["attempt times and outcomes at the simulated origin", "result and elapsed simulated time"], [("pause table", "250, 500, 1000, 2000, 4000 ms", UG)], HOOK)
prop("C15", "Redirects are followed, bounded, and attributed to the right URL",
 "A GET follows up to five redirects (301, 302, 303, 307, 308; absolute or relative targets) and yields the final resource together with the URL it really came from; a longer or cyclic chain is an error. Cached and uncached hops behave the same, on first and on repeated requests. Requests other than GET are not redirected silently to another resource.",
 ["histories", "configurations", "fault_sequences"], "all chains up to and beyond the limit, mixes of redirect codes, relative/absolute targets, cacheability of each hop, repetition over time, and transient failures on any hop",
 "one test follows one simple chain; combinations with caching, repetition and failures are not reached.",
 [HT], [("bounded redirect loop above the cache", HT)], ["body and URL of the final response", "requests seen by the origin"], [], HOOK)
prop("C16", "A lazily read remote file is indistinguishable from the whole file",
 "Reading and seeking in a remote file through range requests gives, for every sequence of operations, exactly the bytes of the file, or an error, never wrong bytes, a panic or an endless loop, whatever the server does with range requests (ignores them, refuses them, answers short, fails, or the connection drops). If the server cannot serve ranges the whole file is used instead. Only what is needed is transferred when ranges are supported.",
 ["inputs", "fault_sequences", "histories"], "all read/seek sequences on files of all sizes, against servers with every kind of range support and failures at any request",
 "the unit tests use a few offsets against a well-behaved local server.",
 [LZ, HT], [("fixed-size range requests with locally cached chunks", LZ), ("fallback to a full download", HT)], ["bytes/positions/errors from the reader", "requests seen by the server"], [], HOOK)

prop("C20", "Unpacking an archive never touches anything outside its destination",
 "Whatever names, link targets, entry kinds and ordering a wheel, Python-runtime or source archive contains, unpacking it creates, modifies or deletes nothing outside the destination directory, and leaves no link inside it that leads outside. Existing files elsewhere keep their content. An archive that attempts it is rejected or the offending entry is neutralised.",
 ["inputs", "fault_sequences"], "all hostile archives (.., absolute names, link chains, links then files through them, odd separators, duplicates, hard links, devices) with errors at any call",
 "tests cover a few hand-written link cases on one platform; containment is a property of every sequence of file-system calls.",
 [TR, AF], [("path normalisation that rejects escaping names", TR), ("links validated as a set and created last", TR), ("files created exclusively", TR)], ["every mutation of the simulated file system"], [], HOOK)
prop("C21", "Unpacked files equal the archive's, or unpacking fails",
 "A successful unpack produces exactly the files the archive describes, at the places its format prescribes, with their exact content and executability, regardless of how reads and writes are split up. If anything goes wrong while reading the archive or writing the tree (I/O error, full disk, truncation or corruption), unpacking reports failure instead of leaving a silently incomplete result.",
 ["inputs", "fault_sequences"], "all archives in the supported formats, all splits of reads and writes, a failure at any system call, and corruption or truncation at any byte",
 "tests unpack a few fixed archives with no failures.",
 [AF, TR], [("checksummed archive readers and error propagation", TR), ("mapping of archive directories to install directories", AF)], ["tree produced in the simulated file system vs. a reference unpacker"], [], HOOK)
prop("C22", "Installed packages are whole, shared and never disturbed",
 "Any number of processes may create environments from the same forest, be killed at any instant or hit I/O errors: every environment that is returned as ready has each of its packages completely installed, and stays so. Later or concurrent environments reuse an existing install instead of reinstalling or altering it. After a crash, simply asking again gives a complete environment.",
 ["schedules", "crash_points", "fault_sequences"], "all interleavings and kill points of concurrent environment creations over overlapping package sets, with I/O errors",
 "there are no concurrent or crash tests of environment creation.",
 [EN, KV, AF], [("unpack into a temporary directory, then rename under the key's lock", KV), ("forest keyed by artifact hash", EN)], ["tree under the paths listed by the returned environment", "requests seen by the index"], [], HOOK)
prop("C23", "An environment contains exactly the pinned artifacts",
 "For each pinned package the environment holds one artifact whose hash is among the pin's hashes and whose tags suit the platform, the most preferred such artifact when several qualify, or one built from the pinned source archive when none does; otherwise creation fails. If an artifact's own metadata contradicts what the pin was resolved from, or the index no longer offers a pinned hash, creation fails rather than substituting something else. This holds whatever the index offers by then and whatever faults occur on the way.",
 ["histories", "inputs", "fault_sequences"], "all pins, all later states of the index (artifacts added, replaced, re-listed under other hashes, removed), all platforms, and faults in between",
 "no test creates an environment against a changing or hostile index.",
 [EN, HT, DB], [("artifact selection by pinned hash and tag preference", EN), ("metadata comparison before install", EN)], ["installed trees", "errors from environment creation"], [], HOOK)

prop("C30", "A resolution satisfies every requirement",
 "Every successful resolution pins, for the requested Python and packages, versions that the index offers and that together satisfy every requested requirement and every applicable dependency (with its extras, markers, Python constraints and pre-release policy) declared by the pinned artifacts, with pins for nothing unreachable. When no such set exists the resolution fails; when faults stop it from finding out, it fails rather than pin something wrong.",
 ["inputs", "fault_sequences", "histories"], "all package universes and requirement sets, served by indexes over a faulty network from caches in any state",
 "resolve.rs has no test with a package universe; the input space and the fault space are unbounded.",
 [RS, DB], [("version solver fed with each artifact's metadata", RS)], ["pins returned vs. the universe's ground truth"], [], HOOK)
prop("C31", "Resolution is a function of its inputs and the index",
 "Resolving the same request against the same index contents gives the identical result whatever the state of the caches (cold, warm, filled by other processes, recovered from crashes), the randomisation of hash tables, network delays, or transient faults that were overcome. Pins preferred by the caller are kept whenever they remain valid. Otherwise the newest acceptable versions are chosen the same way each time.",
 ["schedules", "configurations", "fault_sequences"], "all cache states, hash seeds, delays, index response orders and transient fault patterns for each input",
 "a unit test sees one hash seed and one cache state.",
 [RS, DB], [("ordered maps and sorting before choosing", DB), ("memoised index view per session", DB)], ["blueprints from repeated resolutions"], [], HOOK)
prop("C32", "An index that cannot be consulted is an error, not an absence",
 "If any configured index fails to answer properly about a package (error status, broken transfer, unreachable, unusable page) the operation fails; only an explicit not-found means the index lacks the package. The candidate set is the union over all indexes. Within one session a package always shows the same candidates even if the index changes meanwhile.",
 ["fault_sequences", "histories"], "all assignments of failures to index requests and all index changes during a session",
 "no test has an index that fails or changes part-way.",
 [DB, FE, PI], [("status handling in the index client", FE), ("per-session memo of index answers", DB)], ["candidates and errors returned to the resolver"], [], HOOK)
prop("C33", "Package metadata always comes from that package's own artifacts",
 "The metadata used for a package version is exactly the metadata carried by one of the artifacts listed for it (or produced by building its source archive), whichever way it was obtained: from a cache, by partial download, by full download or by a build. Faults, crashes and other processes sharing the cache may make it unavailable but never different, partial or someone else's, and it is not downloaded again while cached.",
 ["histories", "fault_sequences", "crash_points", "schedules"], "all orders of metadata lookups over packages by several processes sharing caches, with network and disk faults and kills",
 "no test covers the metadata cache or its interaction with failures.",
 [DB, LZ, AF], [("metadata cache keyed by artifact hash", DB), ("lazy zip reading of the metadata member", LZ)], ["metadata returned", "contents of the metadata cache"], [], HOOK)

prop("C40", "A source package is built once, correctly, and failures do not stick",
 "A package built from source yields exactly the metadata and wheel its build backend produced, in an environment that has the build requirements it asked for. The result is kept and reused, so concurrent and later requests for the same source and target do not build again. A build that fails, or is killed at any point, leaves nothing that later passes for a result, and the next attempt succeeds. A result made for one Python or platform is never a reason for a request for another to fail.",
 ["schedules", "crash_points", "fault_sequences", "histories"], "all interleavings, kills and failures of builds requested by several processes; all backend behaviours (static or dynamic requirements, with or without separate metadata step)",
 "no test runs a build.",
 [BW, "data-files/build-frontend.py", KV, EN], [("per-source build directory under a lock", BW), ("step-wise build loop with results published by rename", BW)], ["build steps run by the simulated backend", "wheel cache contents", "wheel installed"], [], HOOK)
prop("C41", "Builds that need themselves fail instead of hanging",
 "If building a package requires, directly or through other packages' builds, that same package to be built, the operation ends with an error naming the loop, in one process and without waiting forever. Packages without such a loop are never rejected as loops.",
 ["programs", "schedules", "histories"], "all build-requirement graphs over source packages, with and without binary alternatives, from cold and warm caches",
 "no test has build requirements.",
 [BW, EN], [("stack of packages being built", BW)], ["result of resolve/environment creation; simulated-time progress"], [], HOOK)
prop("C42", "Once faults stop, every operation finishes",
 "Any number of processes sharing the same caches and forest make progress: no fault history leaves behind a lock, file or state that makes a later operation wait forever or fail for good. After the last fault each resolve, install, fetch or cache operation completes successfully within a bounded simulated time. No panic occurs on the way.",
 ["schedules", "crash_points", "fault_sequences"], "all fault histories (kills, disk and network faults, clock jumps) followed by a quiet period, for several concurrent processes",
 "liveness after faults is unobservable to unit tests.",
 [KV, UG, HT, EN, DB], [("locks tied to open descriptors, dropped by the kernel with the process", KV), ("timeouts on every network wait", UG)], ["completion of operations in simulated time; deadlock detection"], [], HOOK)

NA = [
 ("N01", "Version ordering and specifier matching follow PEP 440", "Versions are totally ordered as PEP 440 prescribes, and a specifier admits exactly the versions PEP 440 says, including the range form used by the solver.", ["inputs"], "src/vocab/specifier.rs", "version ranges computed from specifiers"),
 ("N02", "Requirement syntax is parsed and printed faithfully", "Every valid PEP 508 requirement parses to its meaning and printing then reparsing it gives the same requirement; invalid ones are rejected.", ["inputs"], "src/vocab/requirement.rs", "PEG grammar"),
 ("N03", "Environment markers evaluate as PEP 508 prescribes", "Every marker expression evaluates to the value PEP 508 prescribes for the given environment.", ["inputs"], "src/vocab/requirement.rs", "marker evaluator"),
 ("N04", "Package names and extras compare by normal form", "Two spellings of a package name or extra are the same exactly when their PEP 503 normal forms are equal, and the given spelling is preserved for display.", ["inputs"], "src/vocab/package_name.rs", "normalisation"),
 ("N05", "Artifact file names are parsed exactly", "Every wheel, sdist and pybi file name parses into its components and back to itself; malformed names are rejected.", ["inputs"], "src/vocab/artifact_name.rs", "regular expressions for names"),
 ("N06", "Platform tags expand to exactly the compatible set, in order", "A platform expands to every compatible tag in preference order and nothing else.", ["inputs"], "src/platform_tags/expand.rs", "tag expansion tables"),
 ("N07", "Metadata files parse without loss", "RFC822-style metadata, core metadata and entry points parse to exactly the fields they contain, or are rejected.", ["inputs"], "src/vocab/rfc822ish.rs", "header grammar"),
 ("N08", "Index pages are parsed exactly", "Every project link of a simple-index page is understood with its URL, hash, yanked state and Python requirement, relative to the right base; other links are ignored.", ["inputs"], "src/package_db/simple_api/html.rs", "HTML sink"),
 ("N09", "Script launchers and environment variables are well formed", "Generated launchers and environment variables make the installed scripts, and only this environment's packages, available to the started command.", ["inputs"], "src/trampolines/mod.rs", "launcher generation"),
]
for id, t, s, over, f, m in NA:
    prop(id, t, s, over, "all inputs", "tests sample a few inputs of an unbounded space", [f], [(m, f)], ["return value"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for p in P: fh.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
