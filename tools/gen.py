#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None,
         technique=None, level=None, note=None, claimed=False):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe or [], state=state or [], technique=technique, level=level,
                  note=note, claimed=claimed))

prop("P01", "Cache entries: computed once, never torn, under any concurrency",
  "However many processes or threads use one cache directory at once, every get-or-compute, lookup, overwrite, removal and abandoned write of an entry behaves as if the operations had run one after another. In particular a missing entry is computed by at most one caller, everyone who obtains it reads the same complete value, and a caller keeps reading the value it was handed even if the entry is replaced or removed meanwhile. No interleaving deadlocks.",
  ["schedules"], "all interleavings at file-system operations of 2-3 concurrent users, 1-2 operations each on keys that share directories, up to a preemption bound",
  "The unit tests use the store from one thread only; the source says 'seriously need some tests that validate the locking'. Races need particular interleavings.",
  ["src/kvstore.rs", "src/util.rs"],
  [("per-key lock file, flock(2)", "src/kvstore.rs lock()"), ("write to a temporary file, rename into place", "src/kvstore.rs LockedWrite::commit")],
  technique="stateless model checking of the real store: controlled scheduler over libc-interposed file operations, preemption-bounded DFS, linearizability oracle",
  level="model_checking", note="Exhaustive within the preemption bound for the listed scenarios, on the real code; trusts that a single system call is atomic and that flock between threads with separate opens equals flock between processes.", claimed=True)

prop("P02", "Cache entries survive crashes: absent or complete",
  "If the process is killed or the machine loses power at any moment while a cache is in use, then afterwards every entry is either absent or holds exactly one complete value that some caller stored under that key, and an entry that was not being changed is intact. The cache opens and every entry can again be read, computed and replaced.",
  ["crash_points", "histories"], "every operation history up to a depth x every file-system operation (and the middle of every write) as the moment of death x every disk state a power failure may leave",
  "No test crashes anything; torn states exist only between particular system calls or after unsynced writes are lost.",
  ["src/kvstore.rs"],
  [("sync before rename", "src/kvstore.rs LockedWrite::commit"), ("temporary file in the same file system", "src/kvstore.rs KVFileLock::begin")],
  technique="exhaustive crash-point enumeration on the real store (libc interposition) plus exhaustive enumeration of post-power-failure disks from the logged operations",
  level="fault_enumeration", note="Every crash point of every history up to the depth; the power-failure model persists directory operations in order and loses any subset of unsynced data.", claimed=True)

prop("P03", "Failed or faulty cache writes never damage entries",
  "When computing a value fails, a write is abandoned, or any file operation returns an I/O error, the affected entry keeps its previous value or its absence (or, if the error came after the switch, holds the complete new value); success is only reported when the entry really holds the value handed to the caller. Interrupted or short system calls are absorbed. The cache stays usable afterwards.",
  ["fault_sequences", "histories"], "every operation history x every placement of up to the bound of I/O faults on its file-system operations",
  "Tests only see a file system that never fails.",
  ["src/kvstore.rs", "src/util.rs"],
  [("errors propagate before the rename", "src/kvstore.rs get_or_set/commit"), ("retry of interrupted locks", "src/util.rs retry_interrupted")],
  technique="exhaustive deviation-bounded fault injection at the system-call boundary of the real store against a reference map",
  level="fault_enumeration", note="All single faults (thorough: all pairs) over all listed histories.", claimed=True)

prop("P04", "Installed trees are write-once and appear whole",
  "An unpacked directory stored under a key is filled in by exactly one caller, becomes visible only when it is complete, and is never altered afterwards, whatever concurrent callers, failing fill-ins, I/O errors or process deaths occur. After any of those, the entry is absent or complete and asking for it again succeeds.",
  ["schedules", "crash_points", "fault_sequences"], "all interleavings of 2-3 users up to a preemption bound, and every placement of faults and process deaths on the file operations of each history",
  "The one test stores one directory once, from one thread, with nothing failing.",
  ["src/kvstore.rs", "src/env.rs"],
  [("per-key lock", "src/kvstore.rs KVDirStore::lock"), ("fill a temporary directory, then rename", "src/kvstore.rs KVDirStore::get_or_set")],
  technique="stateless model checking (controlled scheduler) and exhaustive fault/crash enumeration on the real directory store",
  level="model_checking", note="Exhaustive within the bounds; process death only (the store does not sync unpacked files, so power loss is out of scope).", claimed=True)

def main():
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"],
                            "hook_needed": "posy_verif (the harness is compiled into the crate)"},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bin/build",
        "hooks": {"guard": "posy_verif (rustc --cfg)",
                  "enable": "bin/build: cargo rustc --bin posy -- --cfg posy_verif, with POSY_VERIF_HARNESS=/verif/harness/main.rs",
                  "source_commits": HOOKS},
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"bin/check {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough bin/check {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        } for p in P if p["claimed"]],
        "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "no check yet")} for p in P if not p["claimed"]],
    }
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")

HOOKS = ["9fcbfa9", "e2d95c5", "46612d7", "a80b1e1"]
NA = {}

prop("P05", "Artifacts are only handed out if their bytes match the hash",
  "Whatever a server or cache delivers (wrong, truncated, extended or interrupted bodies, redirects, HTTP errors, concurrent or earlier failed attempts), an artifact requested with an expected hash is either returned with exactly the bytes having that hash or refused with an error, and never remains in the cache otherwise. After a refused download a later good one succeeds, and once cached it is served without the network. A cache-only request never touches the network.",
  ["inputs", "fault_sequences", "histories"], "every sequence of up to a bound of (request mode, server behaviour) steps over one shared cache, including all I/O faults on the cache",
  "The tests never download an artifact with a hash; wrong answers from servers appear only in combinations with the state of the cache.",
  ["src/package_db/http/http.rs", "src/vocab/artifact_hash.rs", "src/kvstore.rs", "src/package_db/package_db.rs"],
  [("HashChecker", "src/vocab/artifact_hash.rs"), ("get_or_set keyed by the hash", "src/package_db/http/http.rs get_hashed")])

prop("P06", "The HTTP cache never changes what a client sees",
  "For every sequence of requests, time steps and origin changes, a response obtained through the cache has the status, headers and complete body that HTTP caching allows: fresh stored content or what the origin serves now, never another URL's, another representation's, a truncated or an invented body. Responses that must not be stored are not, redirects are followed to the right place and a bounded number of times, requests demanding revalidation are revalidated, and uncacheable or failing answers do not break later requests.",
  ["histories", "inputs", "fault_sequences"], "every sequence up to a depth of (request kind, clock step, origin change, origin failure) against each class of caching headers",
  "The tests send a handful of fixed sequences; staleness depends on time and on earlier responses.",
  ["src/package_db/http/http.rs", "src/package_db/http/ureq_glue.rs", "src/kvstore.rs"],
  [("http-cache-semantics policy stored with the body", "src/package_db/http/http.rs")])

prop("P07", "Random-access remote reads return the server's exact bytes",
  "Reading a remote file lazily through range requests yields, for every sequence of seeks and reads, exactly what the same operations on the full file yield, for every server that conforms to HTTP (with or without range support, short final ranges, rounding up ranges, empty files). A server that misbehaves (wrong or inconsistent ranges, changing lengths, broken connections) causes an error, never wrong bytes, and never an abort of the program.",
  ["inputs", "histories", "fault_sequences"], "every seek/read sequence up to a depth over boundary offsets x file sizes around the chunk size x server behaviours, with up to a bound of misbehaving answers",
  "One randomized test samples reads on one well-behaved server.",
  ["src/package_db/http/lazy_remote_file.rs", "src/package_db/http/http.rs"],
  [("loaded-range map", "src/package_db/http/lazy_remote_file.rs")])

prop("P08", "A slice of a stream behaves as a file of its own",
  "A window onto part of a larger stream behaves for every sequence of seeks (from start, end, current position) and reads exactly like a file holding just those bytes: same data, same end-of-file, same positions, including seeking to its very end and empty windows. Positions before its start or invalid are refused and leave the position alone; bytes outside the window are never returned.",
  ["inputs", "histories"], "every sequence of seek/read operations up to a depth over all windows of a small stream and boundary offsets",
  "The test does a few fixed seeks; empty windows and the exact end never appear.",
  ["src/seek_slice.rs"],
  [("bounds arithmetic", "src/seek_slice.rs")])

prop("P09", "Unpacking an archive never touches anything outside its target",
  "Unpacking any zip, tar, wheel or pybi archive, however hostile its member names, member types, symlinks, duplicates or their order, creates, changes or reads nothing outside the target directory, and leaves in it no symlink that leads outside. Names that are absolute, escape upwards, or are not portable are refused with an error; harmless archives are accepted.",
  ["inputs"], "every archive of up to a bound of members over an alphabet of names, types and link targets, in every order, for every archive kind",
  "The tests unpack one or two well-formed archives and check a few bad names in isolation; escapes need combinations of members.",
  ["src/tree.rs", "src/vocab/artifact_formats.rs"],
  [("path normalization", "src/tree.rs NicePathBuf"), ("write-tree abstraction", "src/tree.rs WriteTreeFS")])

prop("P10", "Unpacking and installing reproduces archives faithfully",
  "Every file of a well-formed sdist, wheel or pybi ends up exactly once, with exactly its bytes and executability, at the place its format prescribes: wheel root files in the library directory named by the wheel, data categories in the environment's corresponding directories, scripts with a python shebang as launchers running the same code. Directory entries, empty files and any member order make no difference; unsupported or malformed archives are refused.",
  ["inputs"], "every archive of up to a bound of members over an alphabet of locations, contents, modes, directory entries and orders",
  "The tests unpack one archive of each kind.",
  ["src/tree.rs", "src/vocab/artifact_formats.rs", "src/trampolines/mod.rs"],
  [("category mapping", "src/vocab/artifact_formats.rs WheelTreeFilter"), ("zip/tar traversal", "src/tree.rs")])

prop("P11", "Versions and specifiers follow PEP 440",
  "For every pair of valid versions the ordering and equality, and for every specifier and version the membership decision, are those of PEP 440, including epochs, pre-, post-, dev- and local parts, wildcards and the compatible-release operator. The ranges used for solving contain exactly the same versions as the specifiers they come from. Texts that are not valid versions or specifiers are refused.",
  ["inputs"], "all versions and specifiers of a grid covering every component's boundary values, all pairs and all operators",
  "The tests list a few dozen triples; ranges disagree with specifiers only for particular combinations of suffixes.",
  ["src/vocab/version.rs", "src/vocab/specifier.rs"],
  [("next/prev version arithmetic", "src/vocab/version.rs"), ("specifier to range conversion", "src/vocab/specifier.rs to_ranges")])

prop("P12", "Requirements and markers mean what PEP 508 says",
  "Every valid requirement text parses to its name, extras, specifiers and marker; printing and re-parsing yields an equivalent requirement. A marker evaluates, in every environment, to the value PEP 508 gives it (version comparison where both sides are versions, string comparison otherwise, and/or/parenthesis precedence, every operator, extras); a variable that has no value is an error wherever the answer depends on it. Texts outside the grammar are refused.",
  ["inputs"], "every requirement and marker of a bounded grammar depth x all assignments of the variables over a small set of values",
  "Tests list examples; precedence, quoting and version/string fallback interact.",
  ["src/vocab/reqparse.rs", "src/vocab/requirement.rs"],
  [("PEG grammar", "src/vocab/reqparse.rs"), ("marker evaluation", "src/vocab/requirement.rs")])

prop("P13", "Resolution is sound and complete",
  "When resolution succeeds, the chosen set contains the requested packages with at most one version of each, every dependency whose marker holds (including those brought by the extras in use) is satisfied by the chosen version, the interpreter satisfies every package's python requirement, and nothing unneeded is included. When resolution fails, no such set exists for the chosen interpreter. Every pinned package comes with its artifacts' hashes and the metadata that was used.",
  ["inputs"], "all package universes of a bounded shape (packages, versions, dependency edges with ranges, markers and extras, python requirements) compared with brute force over all selections",
  "No unit test resolves anything; conflicts need backtracking over particular combinations.",
  ["src/resolve.rs"],
  [("pubgrub with extras as separate packages", "src/resolve.rs")])

prop("P14", "Resolution prefers the documented candidates",
  "Among the versions that can be used, resolution takes the newest, except that versions hinted by an earlier pin are kept whenever they still fit; pre-releases are used only if allowed, required by a pin, or if nothing else exists as documented; yanked releases are never chosen unless pinned exactly as documented; and only package versions with an artifact for the target python, and interpreter versions with an artifact for a target platform (the first platform that has one, by its most specific artifact), are considered. The result does not depend on the order in which an index lists files. The lock names the file that its metadata is from.",
  ["inputs"], "all candidate lists of a bounded shape x allow-pre settings x pins x yanked marks x listing orders",
  "No unit test resolves anything; the preferences interact.",
  ["src/resolve.rs", "src/package_db/package_db.rs"],
  [("candidate sorting and filtering", "src/resolve.rs fetch_and_sort_versions")])

prop("P15", "Installing from a lock uses only locked artifacts and metadata",
  "Making an environment from a lock installs, for every pin, only an artifact (wheel, interpreter or source archive) whose hash the lock lists, choosing the most specific compatible binary for the first usable platform, and builds from a locked source archive only when no binary fits. If no listed artifact is available or the installed package's metadata differs from what the lock was computed from, installing fails instead. The result has exactly the locked packages on its path, and is the same and complete after earlier attempts died or hit an I/O error at any point, and for installations made at the same time.",
  ["inputs", "configurations", "crash_points", "schedules"], "all small sets of artifacts (tags, hashes present or absent or altered in index and lock, sdists) per pin x platform lists; every file operation of an installation as a crash or fault point; schedules of two installations",
  "No test installs an environment.",
  ["src/env.rs", "src/package_db/package_db.rs", "src/platform_tags"],
  [("hash membership test", "src/env.rs pick_pinned_binary"), ("metadata comparison", "src/env.rs get_env")])

prop("P16", "Platform tags: exactly the compatible tags, best first",
  "For every supported platform the set of accepted wheel and interpreter tags is exactly what the platform tag specifications allow (older glibc/musl/macOS versions and their aliases in, newer or foreign ones out, universal binaries for their members), and a more specific or newer tag always ranks above a less specific or older one; the python and ABI tags follow the interpreter's own tag list. A compressed tag set matches if and only if one of its expansions does.",
  ["inputs"], "all platform strings over ranges of versions and architectures x all tags of the same ranges",
  "Snapshot tests cover one or two platforms.",
  ["src/platform_tags"],
  [("tag expansion", "src/platform_tags/expand.rs"), ("ranking", "src/platform_tags/platform.rs")])

prop("P17", "Names of packages, extras and artifacts parse canonically",
  "Two spellings of a package or extra name are the same if and only if PEP 503 normalization makes them equal, and invalid names are refused. A file name parses as a wheel, interpreter archive or source archive exactly when its format's rules allow, into the right name, version, build number, tags and type, and printing it gives an equivalent file name back. Build numbers and tags order and compare as specified.",
  ["inputs"], "all names up to a length over an alphabet of separators and letters; all file names composed of a grid of components",
  "The tests parse a few examples.",
  ["src/vocab/package_name.rs", "src/vocab/extra.rs", "src/vocab/artifact_name.rs"],
  [("normalization regex", "src/vocab/package_name.rs"), ("file name parsing", "src/vocab/artifact_name.rs")])

prop("P18", "Index pages are read correctly and in combination",
  "From every index page the project's artifacts are read with their exact absolute URL (relative to page or base address), hash, python requirement, yank status and metadata marker; unusable entries are skipped without losing the others. Versions from all configured indexes are merged, and each artifact is attributed to its own version and project, whatever the spelling of its name.",
  ["inputs"], "all pages of up to a bound of links over an alphabet of attributes, URL forms, base elements and malformed entries; all pairs of pages over two indexes",
  "One page from each format is tested.",
  ["src/package_db/simple_api", "src/package_db/package_db.rs"],
  [("HTML sink", "src/package_db/simple_api/html.rs"), ("merge", "src/package_db/package_db.rs")])

prop("P19", "Package metadata is read exactly",
  "Every well-formed metadata file (core metadata, wheel and interpreter descriptions) yields exactly its fields and body: folded lines, repeated fields, any field order, line endings, and absent optional fields included; a missing or duplicated single-use field or malformed line is refused. Reading a file assembled from given fields gives these fields back.",
  ["inputs"], "all metadata files of up to a bound of fields over an alphabet of names, values, foldings, line endings and bodies",
  "A few files are tested.",
  ["src/vocab/rfc822ish.rs", "src/vocab/core_metadata.rs"],
  [("PEG grammar", "src/vocab/rfc822ish.rs")])

prop("P20", "Entry points and installed commands work as declared",
  "Every entry-points file that the specification allows is read into exactly its groups, names, modules and attributes (extras are allowed and have no effect); invalid lines are refused. Each console or GUI script so declared, installed into an environment and started, runs the declared function once with the environment's own interpreter, passes the arguments unchanged and returns its exit status.",
  ["inputs"], "all entry-points files of up to a bound of lines over an alphabet of sections, names and references; all argument vectors of a small set run through installed launchers",
  "Two example files are parsed; no launcher is run.",
  ["src/vocab/entry_points.rs", "src/trampolines/mod.rs", "src/vocab/artifact_formats.rs"],
  [("line parsing", "src/vocab/entry_points.rs"), ("launcher templates", "src/trampolines/mod.rs")])

prop("P21", "Building from source terminates, and builds are reused safely",
  "Resolving or installing packages that must be built from source always comes to an end: cyclic build requirements (of any length, through metadata or through wheels, within one or several packages) and failing or misbehaving build backends lead to an error, never to a hang or endless recursion. A build backend is called as PEP 517 prescribes, its build requirements (static and dynamic) are present, and the built wheel is accepted only if its name, version and tags fit.",
  ["configurations", "fault_sequences"], "all build-dependency graphs over a bounded number of source packages x all outcomes of each backend hook",
  "No test builds anything.",
  ["src/package_db/build_wheel.rs", "src/package_db/data-files/build-frontend.py", "src/env.rs", "src/package_db/package_db.rs"],
  [("build stack", "src/package_db/build_wheel.rs WheelBuilder::new"), ("hook protocol", "src/package_db/data-files/build-frontend.py")])

prop("P22", "Locally built wheels and cached metadata are trustworthy",
  "A wheel or metadata file kept from an earlier build or download is used again only for the same source artifact, and is always complete: process deaths, I/O errors, temporary directories on another file system, and failed builds at any point leave nothing that later passes for a finished result. A later request returns the same result as a fresh build would, choosing among several kept wheels the most compatible one; so do requests made at the same time, which finish in every schedule.",
  ["crash_points", "fault_sequences", "histories"], "every file operation of a build-and-cache history as a crash or fault point, with the temporary directory on the same or another file system",
  "No test builds or caches wheels.",
  ["src/package_db/build_wheel.rs", "src/package_db/package_db.rs"],
  [("move into the cache under its lock", "src/package_db/build_wheel.rs")])

prop("P23", "Lock files round-trip",
  "Writing any lock produced by the resolver and reading it back yields an equal lock (names, versions, hashes, metadata, platforms), so that installing from a stored lock is the same as installing right after resolving; every value type inside it prints to text that parses back to an equal value. The same goes for briefs. Text that is not a valid lock is refused.",
  ["inputs"], "all locks over a grid of value boundaries; all single-character and single-field corruptions of a sample",
  "Only some value types are round-tripped, on one example each.",
  ["src/resolve.rs", "src/vocab"],
  [("serde via display/parse", "src/util.rs, src/vocab")])

prop("P24", "Malformed outside data gives errors, never a crash or stray writes",
  "Whatever an index page, file name, hash, version, specifier, requirement, metadata file or archive contains, processing it ends in a result or an error: it never aborts the program, overflows, or loops, and it never makes the program read or write outside its cache, store and target directories.",
  ["inputs"], "all strings up to a length over per-grammar alphabets, all single edits of valid inputs, and numeric extremes, for every parser reachable from outside data",
  "Tests try a few invalid inputs per parser.",
  ["src/vocab", "src/package_db/simple_api", "src/kvstore.rs"],
  [("fallible parsing", "src/vocab")])

def claim(id, technique, level, note):
    p = next(p for p in P if p["id"] == id)
    p.update(technique=technique, level=level, note=note, claimed=True)

claim("P05", "exhaustive enumeration of request/server-behaviour histories, file faults and two-client interleavings on the real download code, against a model of the hash cache",
  "model_checking", "Real HTTP over loopback with an origin scripted by the harness; exhaustive for the listed alphabets and depths.")
claim("P06", "explicit-state exploration of request/clock/origin histories on the real HTTP cache against an RFC 9111 model; fault enumeration and controlled scheduling for stores",
  "model_checking", "Exhaustive for the listed header classes and depths; virtual clock; the freshness oracle allows what RFC 9111 allows and requires reuse only for explicit lifetimes.")
claim("P07", "exhaustive enumeration of seek/read sequences x server behaviours (deviation-bounded bad answers) on the real lazy file against a byte array",
  "model_checking", "One misbehaving answer at every position among the first responses; lies that cannot be noticed (altered bytes under a truthful label) are excluded.")
claim("P08", "exhaustive enumeration of operation sequences on the real stream window against a byte array",
  "model_checking", "All windows of a stream of 5 (thorough: 6) bytes, all sequences of 4 (5) operations from boundary offsets and numeric extremes.")
claim("P11", "exhaustive enumeration of a version x specifier grid on the real code against an independent PEP 440 decision procedure",
  "model_checking", "All pairs of the grid; the reference procedure was itself compared with python's packaging library on two million decisions (tools/oracle-p11.py).")
claim("P12", "exhaustive enumeration of bounded requirement and marker texts x environments on the real parser and evaluator against a reference parser and evaluator",
  "model_checking", "All token sequences up to the depth, all comparisons of the value set in all environments.")
claim("P16", "exhaustive enumeration of core tags x artifact tags x descriptions on the real platform code against an independent reading of PEP 425/600/656 and the platform rules",
  "model_checking", "All pairs of the tag grid; tags whose status the specifications leave open (macosx_11_3, fat3, 10.x on arm64) are not judged.")
claim("P17", "exhaustive enumeration of names and file names up to a bound on the real parsers against independent reference parsers",
  "model_checking", "All strings up to the length bound over the grammar's alphabet, all combinations of file-name fields.")
claim("P18", "exhaustive enumeration of index pages up to a bound of links x base elements x layouts, and of index behaviour pairs and histories, on the real reader and package database against a hand-resolved list",
  "model_checking", "All link sequences up to the bound; a base after the first link, garbled hashes and #egg= fragments are not judged.")
claim("P19", "exhaustive enumeration of metadata files up to a bound of fields on the real reader against an independent reference reader",
  "model_checking", "All sequences of fields and raw lines up to the bound, over the value alphabet; every reader (core, wheel, interpreter).")
claim("P23", "exhaustive enumeration of values, locks and briefs over boundary grids, and of all single-node and single-character corruptions of a sample, on the real serialization code",
  "model_checking", "All markers of up to three comparisons over a (strided) set of comparisons; JSON and TOML stand for the storage format, which posy has not fixed.")

claim("P24", "exhaustive enumeration of token sequences, single (and double) edits, number lengths, repetitions and archive damages on every real parser of outside data, under a file-operation monitor where names reach the file system",
  "model_checking", "All token sequences up to the bound; every single edit of the seeds; every byte position of small archives; repetition at one place at a time.")

claim("P09", "exhaustive enumeration of archives of up to two (links: three, thorough four) hostile members on the real unpackers, unprivileged, under a monitor that resolves every path given to a system call through the real file system",
  "model_checking", "All member combinations of the alphabet for zips, tars and wheels, command names and interpreter-supplied directories; reserved Windows device names are not judged.")
claim("P10", "exhaustive enumeration of archives of up to three (thorough: four) members, of wheel layouts and descriptions, and of scripts run by themselves and through their launchers, on the real unpackers against trees computed by hand",
  "model_checking", "All member sequences over the alphabet; header files of wheels and archives with unusual spellings of true/false are not judged.")
claim("P20", "exhaustive enumeration of entry-point files up to a bound of lines and of tokens on the real parser against an independent reference, and of argument vectors x return values x module shapes x names x ways of starting on really installed and run launchers",
  "model_checking", "All line and token sequences up to the bound; launchers are run with the system's python behind marked interpreters; the Windows launchers' code is run, not the Windows programs.")
claim("P13", "exhaustive enumeration of package universes (packages x versions x needs with ranges, markers, extras and python requirements x requests), each served by a local index, resolved by the real resolver and compared with brute force over all selections",
  "model_checking", "All universes of the shapes within the bounds; completeness is relative to the interpreter chosen first; a package without a requested extra may be used or passed over.")
claim("P14", "exhaustive enumeration of candidate lists (versions x files' yanks, python requirements and hashes x listing orders) x pins x pre-release settings x requirements, and of interpreter releases x platform lists, resolved by the real resolver from a local index and compared with the documented preference",
  "model_checking", "All single candidates and, counted through, every n-th combination of two and three; ambiguous preferences (next above or newest when a pin cannot be kept; pre-releases when nothing else is usable) accept either.")
claim("P15", "exhaustive enumeration of index-and-lock situations (sets of wheels and interpreters x their relation to index and lock x source archive x platform lists), metadata pairs, histories of installations and index changes, and selections of packages, each installed by the real code from a local index; python is run in the results; every file operation of an installation made to fail, then again; all schedules of two installations within preemption bounds",
  "model_checking", "Sets of up to three files (thorough: four) of 9 wheel tags and 6 interpreter tags; when the best listed file is not what its hash says, installing has to fail.")
claim("P21", "exhaustive enumeration of build graphs (packages x kinds of release x build, dynamic and run-time needs), of all outcomes of every backend hook x kinds of pyproject.toml and archive, and of packages built with other versions of themselves, each resolved and installed twice by the real code in processes of their own that run scripted backends",
  "model_checking", "All graphs of three packages with up to 4 build needs (thorough 9), chains and rings to 6; backends that never return are out of scope; the python that runs them is the system's, with the environment's packages.")
claim("P22", "exhaustive enumeration of crash and fault points: every file operation of posy and of its build frontend while building, followed by another request; of failing hook calls; of histories of installations, resolutions and removals with two pythons and replaced archives; and stateless exploration of all schedules of two requests with bounded preemptions at the locks",
  "model_checking", "One fault per request; histories of 3 to 4 steps (thorough 4 to 5); schedules with one (thorough two) preemptions at lock operations; a lost machine isn't considered for what backends write.")

main()
