#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (single source for both)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "crates/symbolicator-sources/src/"
P = []
CHECKS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), check=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": None},
    })
    if check:
        tech, level, note = check
        CHECKS.append({"property": id, "quick_cmd": f"./check {id}", "thorough_cmd": f"VERIF_TIER=thorough ./check {id}",
                       "evidence_file": f"evidence/{id}.json", "technique": tech, "level": level, "level_note": note})
    else:
        NA.append({"property": id, "reason": na})


ENUM = "bounded exhaustive enumeration of the real code against an independent reference model"

prop("C01", "Every source layout yields exactly the documented locations, best first",
     "For every object identity, requested file type, directory layout and file name casing, the locations tried in a symbol source "
     "are exactly those the layout documents for that kind of file (identifiers and names spelled and cased as documented), in order of preference, "
     "each followed by its compressed (last character replaced by an underscore) variant where the layout has one. "
     "An identity that lacks what a location needs yields no location for it, and no input makes the computation fail. "
     "The kinds of files looked up for an object (or its sources) are all those which its platform can use.",
     ["inputs", "configurations"], "all identities (with/without code id, code file, debug id, debug file, including unusual and empty ones) x 18 file types x 7 layouts x 3 casings",
     "The unit tests check one identity per file type and platform; the product of layouts, casings, missing parts and unusual names is not sampled.",
     [S + "paths.rs", S + "types.rs", S + "filetype.rs", S + "index.rs", "docs/advanced/symbol-server-compatibility.md"],
     [("get_directory_paths", S + "paths.rs"), ("SourceLocationIter", S + "remotefile.rs")],
     observe=["SourceLocationIter"],
     check=(ENUM, "exploration", "Every identity/file type/layout/casing of the stated product is executed on the real crate and compared with a reference written from the documentation; names and ids outside the alphabets are not covered."))

prop("C02", "A symbol server request path names exactly one object, whatever its casing",
     "Every path a symbol-server client derives from an object identity is parsed back (for any file name casing) to the same kind of file with the same identifiers and name, "
     "and is therefore looked up as that object; a path that is no symbol server path is rejected without failing.",
     ["inputs"], "all identities with symbol-server paths x 3 casings, and all short strings over path pieces",
     "Tests parse a dozen fixed paths; parsing must be the inverse of building for every identity and must reject every other string.",
     [S + "paths.rs", "crates/symbolicator/src/endpoints/proxy.rs"],
     [("parse_symstore_path", S + "paths.rs")], observe=["parse_symstore_path", "/symbols proxy endpoint"],
     check=(ENUM, "exploration", "Round trip of every enumerated identity through the real path builder and parser, and all short strings over a token alphabet against an independent grammar."))

prop("C03", "Source filters admit exactly the files they describe",
     "A source is searched for a file exactly if its file type list contains the type (an empty list admits every type), "
     "and one of its path patterns matches the code file or debug file (no patterns admit every object; matching ignores case and treats both slashes alike). "
     "A source whose filter requires a checksum is never searched for portable PDBs without a checksum.",
     ["configurations", "inputs"], "all filters (type lists, patterns up to a length, checksum flag) x all identities over a path alphabet",
     "Tests sample a few patterns; the decision is over all pattern/path/type combinations.",
     [S + "sources.rs", S + "types.rs", S + "filetype.rs"],
     [("SourceFilters::is_allowed", S + "sources.rs")], observe=["SourceFilters::is_allowed"],
     check=(ENUM, "exploration", "All patterns up to the length bound over {*,?,letters,both slashes,[..]} against an independent matcher, all type subsets up to a size; glob syntax beyond this alphabet is not covered."))

prop("C04", "A symbol server's index decides which of its files are requested",
     "Reading index files in any order and in any number yields exactly the union of their well-formed entries, written and read back unchanged. "
     "A source with an index is asked exactly for those locations the index lists (in the usual preference order), a source without one for all of them.",
     ["inputs", "histories"], "all histories of index files built from a line alphabet, and all lookups of the enumerated identities against them",
     "The tests read one fixture; the result must hold for every line content, order, merge history and identity.",
     [S + "index.rs", S + "remotefile.rs", S + "paths.rs"],
     [("SourceIndex", S + "index.rs"), ("SourceLocationIter", S + "remotefile.rs")], observe=["SourceIndex", "SourceLocationIter"],
     check=("explicit-state exploration of index histories, every transition executed on the real code", "model_checking",
            "Every reachable index state within the history bound is built with the real code and compared with a set model, then queried with every identity; alphabets bound the line contents."))

prop("C05", "File URIs address exactly the configured root plus the file's location",
     "For every source and every location produced for an object, the resulting URI, bucket key or path denotes the source's root followed by exactly that location (special characters stay part of the path, a query of the root survives). "
     "Distinct locations or distinct roots never give the same URI.",
     ["inputs", "configurations"], "all source roots of all kinds x all producible locations",
     "Tests cover a few joins; composition must be right for every character a file name may contain.",
     [S + "remotefile.rs", S + "sources/http.rs", S + "sources/s3.rs", S + "sources/gcs.rs", S + "sources/filesystem.rs"],
     [("SourceLocation::to_url / prefix", S + "remotefile.rs"), ("RemoteFileUri", S + "remotefile.rs")], observe=["RemoteFile::uri", "HttpRemoteFile::url", "S3RemoteFile::key", "FilesystemRemoteFile::path"],
     check=(ENUM, "exploration", "Every producible location joined with every root; URIs parsed and decoded by the check and compared structurally; injectivity over all pairs via a map."))

prop("C06", "Source configurations survive a round trip and take the documented defaults",
     "Every valid source configuration, written in JSON or YAML, is read with exactly the given settings, missing settings take their documented defaults, and writing it out and reading it again changes nothing that affects where and how files are fetched. "
     "An invalid configuration is rejected instead of being read as something else.",
     ["configurations"], "product of source kinds, layouts, casings, filters, credentials, header and flag settings, plus single-field corruptions",
     "Tests deserialize a few literals; every combination of fields and defaults must agree with the documentation.",
     [S + "sources.rs", S + "sources/http.rs", S + "sources/s3.rs", S + "sources/gcs.rs", S + "types.rs", S + "filetype.rs", "docs/advanced/symbol-lookup.md"],
     [("serde derives of SourceConfig", S + "sources.rs")], observe=["SourceConfig deserialization"],
     check=(ENUM, "exploration", "Product of documented settings written with the documented spelling and read by the real deserializer; observed through the public fields and the file locations they lead to."))

prop("C07", "No symbol name can address a file outside the configured source",
     "Whatever names and identifiers an object reference carries, every location tried for it is a non-empty relative path without parent, current, empty or absolute components, so that the file, key or URL addressed lies below the configured root of the source.",
     ["inputs"], "all identities over hostile names (parent, current, absolute, encoded, drive, URL-like) and degenerate identifiers x layouts x casings x source kinds",
     "No test feeds a hostile file name; containment must hold for every name in an untrusted crash report.",
     [S + "paths.rs", S + "types.rs", S + "remotefile.rs", S + "sources/filesystem.rs"],
     [("valid_file_name", S + "types.rs"), ("get_directory_paths", S + "paths.rs")], observe=["SourceLocationIter", "RemoteFile::uri"],
     check=(ENUM, "exploration", "Every location of the hostile identity product is resolved against roots of every source kind and checked for containment with an independent path/URL normaliser."))

SY = "crates/symsorter/src/"
prop("C08", "Symsorter stores every debug file where symbolicator looks it up",
     "After a successful run the output directory holds, below the prefix, exactly the objects of the inputs (also from archives and fat files) that carry an identifier: each under the path of the unified layout by which symbolicator looks that object up, "
     "unchanged (after decompression), with metadata giving its name, architecture and format, and with the bundle and reference files of the requested bundle ids; the number of stored files is reported. "
     "Broken input is an error (skipped with --ignore-errors), anything else is ignored; inputs are never modified, and a bundle id that is no file name is refused.",
     ["inputs", "configurations"], "all inputs of a file alphabet (all object formats, archives, broken files), alone and in combination, x all options",
     "symsorter has almost no tests; the store must be right for every mix of inputs and options and must agree with the lookup code of another crate.",
     [SY + "app.rs", SY + "utils.rs", SY + "config.rs", S + "paths.rs"],
     [("sort_files / process_file", SY + "app.rs"), ("get_target_filename", SY + "utils.rs"), ("get_directory_paths", S + "paths.rs")], observe=["output directory, exit code and output of the symsorter binary"],
     check=("bounded exhaustive execution of the real binary against a reference store", "exploration",
            "Every input alone under the option product and every pair (thorough: triple) under selected options; objects are synthesised, sizes small; ELF files without build id and Breakpad files are stored under an id symbolicator does not look up and are excluded from the lookup comparison."))

prop("C09", "The symsorter store depends neither on schedule nor on what was there",
     "Whatever the order and interleaving in which files with the same identity are processed, exactly one of them is stored, whole and with its own metadata, and everything with another identity is stored as well. "
     "Sorting into an existing store never changes a file that is already there, adds what is missing, and lists a stored object under every bundle that brought it.",
     ["schedules", "histories"], "all interleavings of the workers' file system operations up to a preemption bound, all histories of runs over a store",
     "Tests are sequential on one input; the outcome depends on which worker gets there first.",
     [SY + "app.rs"],
     [("process_file", SY + "app.rs"), ("sort_files", SY + "app.rs")],
     state=[("CLAIMED_TARGETS", "targets some worker of this run takes care of", SY + "app.rs")],
     observe=["output directory of the symsorter binary"],
     check=("stateless model checking of the real binary under a controlled scheduler (every file system operation of every worker is a scheduling point) plus exhaustive run histories", "model_checking",
            "All schedules within the preemption bound for each set of competing inputs; operations between two file system calls are atomic in this exploration, memory-level races are not covered."))

prop("C10", "A crash or I/O error never leaves a damaged file in the symsorter store",
     "If symsorter is killed at any point, or any file system operation fails or the disk fills up, every file found under its final name is complete and correct, a failure is reported, and running the same command again succeeds and yields the same debug files as a run without the fault.",
     ["crash_points", "fault_sequences"], "every file system operation of the run x kill before, torn write, one-time error, everything failing from there on",
     "No test interrupts a run; a torn file would be skipped as existing by every later run and served forever.",
     [SY + "app.rs"],
     [("process_file", SY + "app.rs")], observe=["output directory after kill, error and repeated run"],
     check=("exhaustive crash-point and fault enumeration on the real binary", "fault_enumeration",
            "Every file system operation of each run is a crash point (also half-done writes); thorough adds a second fault during the repeated run. Power failure (loss of written data) is not modelled."))

W = "crates/wasm-split/src/main.rs"
prop("C11", "wasm-split gives both output files the same build id and loses nothing",
     "The main output consists of exactly the sections of the input, in order and unchanged, without debug sections (and names) if stripping was asked for, plus a build id if there was none and the location of the debug file if one was named; "
     "the debug output consists of all sections and the same build id. An existing build id is kept (also when running it again on its output), a given one used, otherwise it is a fresh random UUID; it is printed unless quiet. "
     "An explicit output is always written and leaves the input untouched, and damaged input is an error that writes nothing.",
     ["inputs", "configurations"], "all section sequences up to a length x all 128 option combinations, all truncations of a module",
     "wasm-split has no tests at all.",
     [W],
     [("main", W), ("is_strippable_section", W)], observe=["output files, exit code and output of the wasm-split binary"],
     check=("bounded exhaustive execution of the real binary against a reference", "exploration",
            "All sequences over 16 section kinds up to length 3 (thorough: 4); outputs parsed by the check's own section parser. Build id sections that are not length-prefixed are not covered."))

prop("C12", "A failing wasm-split never destroys the module or its debug data",
     "If wasm-split is killed at any point or any file system operation fails, the module given with in-place modification is either the original or the complete result whose debug file is complete, an input with a separate output is untouched, the debug data exists in one of the files, "
     "success is reported only if all outputs are complete, and repeating the command on the original yields the regular result.",
     ["crash_points", "fault_sequences"], "every file system operation x kill, torn write, one-time error, everything failing from there on x options",
     "No test interrupts the tool.",
     [W],
     [("replace_module / write_module", W)], observe=["files after kill, error and repeated run"],
     check=("exhaustive crash-point and fault enumeration on the real binary", "fault_enumeration",
            "Every file system operation under all options for five modules; power failure is not modelled."))

prop("C13", "Cached cloud credentials are shared only between identical configurations",
     "Two sources are treated as using the same cloud credentials exactly if all settings which authenticate them (region or endpoint, provider, access key and secret; or account and private key) are the same, whatever their values.",
     ["configurations"], "all pairs of S3 and GCS credentials over small alphabets per field",
     "No test compares credentials; a shared cached client is a matter of every pair of configurations.",
     [S + "sources/s3.rs", S + "sources/gcs.rs", "crates/symbolicator-service/src/download/s3.rs", "crates/symbolicator-service/src/download/gcs.rs"],
     [("Eq and Hash of S3SourceKey", S + "sources/s3.rs"), ("Eq and Hash of GcsSourceKey", S + "sources/gcs.rs")], observe=["equality and hash of the credential types"],
     check=(ENUM, "exploration", "All pairs over the field alphabets: equality, hash agreement and map lookups."))

prop("C14", "A file is public, built in and blocked with the source it belongs to",
     "For every file of every kind of source, its source identifier, visibility, host, kind and whether it is built in are those of the source it was listed for: only identifiers beginning with `sentry:` are built in, built-in files are told by their identifier and all others by the kind of source, files of Sentry are never public, "
     "and everything but built-in buckets may use the shared cache.",
     ["configurations", "inputs"], "all source kinds x identifiers near the built-in ones x visibility x hosts and buckets x locations",
     "No test asks these of all kinds; scopes, blocking and shared caches rely on them for every file.",
     [S + "remotefile.rs", S + "sources.rs", S + "sources/http.rs"], [("RemoteFile", S + "remotefile.rs")], observe=["accessors of RemoteFile"],
     check=(ENUM, "exploration", "Six locations, seven hosts and twelve identifiers; the host of Sentry and local files is free."))


prop("C15", "Names of types and files given for a module are understood, never fatal",
     "The documented names of object types, and only those, stand for their type; every other text is an unknown type, in whatever format and with whatever escapes it is written, and never an error; types are shown under the same names. "
     "The name of a module's file is the last component of its path with either separator, and it is used for look-ups exactly if it names a file, has at most 255 bytes and no control characters.",
     ["inputs"], "all strings over the letters of type names and near misses, as JSON and YAML; all paths over separators, dots, letters, control and multi-byte characters up to a length",
     "Tests try four names; events from clients carry anything.",
     [S + "types.rs"], [("ObjectType", S + "types.rs"), ("ObjectId", S + "types.rs"), ("Glob", S + "types.rs")], observe=["ObjectType, ObjectId and Glob"],
     check=(ENUM, "exploration", "Strings of five letters and paths of six parts (thorough: six and seven); names up to 256 bytes."))


CA = "crates/symbolicator-service/src/caching/"
SVCNOTE = " Third-party crates that are not installed (moka, reqwest, ...) are replaced by models of their documented behaviour."

prop("C20", "Concurrent requests for the same item share one computation",
     "At any time at most one computation of an item runs, however many clients ask for it; it runs exactly as long as a client waits for it, and every client which still waits when it ends gets its outcome. "
     "A client that goes away or a computation that panics harms nobody else: the item is computed for those who remain. An item that is stored is never computed again.",
     ["schedules", "histories"], "all orders of arriving, leaving and answered clients and of computations ending in content, errors, internal errors and panics, with and without disk and memory",
     "Tests start a handful of requests and wait; cancellation and hand-over depend on the order of events.",
     [CA + "memory.rs"], [("Cacher::compute_memoized", CA + "memory.rs")],
     state=[("cache", "the in-memory cache with its running initialisers", CA + "memory.rs")], observe=["Cacher::compute_memoized", "number of computations"],
     check=("explicit-state exploration of the real cache on a controlled executor and clock, against a reference model", "model_checking",
            "All event orders for three clients (thorough: four); the coalescing of moka itself is a model of its documented behaviour." + SVCNOTE))

prop("C21", "A crash or failing write never turns into a wrong cache entry",
     "If the process is killed at any point or any file operation fails, no later request gets content that no computation produced, or the answer of an item to be replaced by a newer one: each file found under the name of an entry is complete. "
     "Files are never modified under their final name, the request itself is answered correctly or with an internal error, and nothing is left in the way of later requests.",
     ["crash_points", "fault_sequences"], "every file system operation of each history x kill before and within, failing, torn write; followed by requests of a restarted process",
     "No test interrupts a process or lets an operation fail.",
     [CA + "memory.rs", CA + "fs.rs", CA + "cache_error.rs"], [("persist_tempfile", CA + "memory.rs"), ("write_metadata", CA + "fs.rs"), ("CacheError::write", CA + "cache_error.rs")],
     observe=["answers of the restarted process", "files of the cache"],
     check=("exhaustive crash-point and fault enumeration on the real code with intercepted file operations", "fault_enumeration",
            "Every mutating file operation of every history; power failure (loss of written data) is not modelled." + SVCNOTE))

prop("C22", "What a cache returns later is what was computed",
     "For every content and every error, an item read back from disk by this or another process equals what the computation returned: content byte for byte, errors with their kind and details. "
     "Internal errors are never stored; leftovers of a failed computation never become content.",
     ["inputs", "histories"], "all contents of an alphabet (empty, like a marker, large), all error kinds with all details of an alphabet, all short byte strings as files",
     "Tests store one value per error kind; the text format has to be unambiguous for every value.",
     [CA + "cache_error.rs", CA + "memory.rs", CA + "fs.rs"], [("CacheError::write / from_bytes", CA + "cache_error.rs"), ("cache_contents_from_bytes", CA + "fs.rs")],
     observe=["answers of a second process over the same directory"],
     check=(ENUM, "exploration", "All contents and details of the alphabets through the real store and load paths." + SVCNOTE))

prop("C23", "Entries are used exactly as long as their configuration says",
     "Content is used as long as it was used within max_unused_for (each use, noted at least once an hour, extends that), missing or failed items for retry_misses_after (retry_misses_after_public if they come from a public source), malformed ones for retry_malformed_after from their creation, and no duration means for ever. "
     "Then the item is computed anew; memory, disk and clean-up agree on this.",
     ["histories", "configurations"], "all histories of requests, waits around each limit and restarts up to a depth x all configurations of an alphabet",
     "Tests use real waiting of a second or two; limits interact over hours, through memory, disk and restarts.",
     [CA + "fs.rs", CA + "memory.rs", CA + "config.rs"], [("check_expiry / compute_expiration_time", CA + "fs.rs"), ("ExpirationTime", CA + "fs.rs")],
     state=[("mtime", "last use or creation of an entry", CA + "fs.rs"), ("time_created", "creation of an entry", CA + "metadata.rs")], observe=["number of computations over virtual time"],
     check=("explicit-state exploration of the real cache under a virtual clock against a reference model", "model_checking",
            "All histories up to the depth; tolerances: one second of stored times, one hour for noting a use and for memory." + SVCNOTE))

prop("C24", "Clean-up removes exactly what is expired, also beside a running server",
     "A clean-up deletes the expired entries of each cache (by that cache's configuration) with their metadata and the directories that got empty, and nothing else; a dry run deletes nothing, and a failing operation never costs a live entry. "
     "A request beside a clean-up is answered as without it, whatever their interleaving.",
     ["schedules", "fault_sequences", "configurations"], "all trees of up to two entries (thorough: three) x failing operation x dry run; all caches x configurations; all interleavings of a request and a clean-up at file operations with bounded preemptions",
     "Tests clean one tree without failures and nothing beside it.",
     [CA + "cleanup.rs", CA + "fs.rs", CA + "memory.rs"], [("cleanup_directory_recursive", CA + "cleanup.rs"), ("persist_tempfile", CA + "memory.rs")], observe=["remaining files", "answers of the request"],
     check=("stateless model checking of the real code under a controlled scheduler at file operations, fault enumeration", "model_checking",
            "All schedules with at most 2 (thorough: 3) preemptions; clean-up itself runs on one thread." + SVCNOTE))

prop("C25", "Entries of older versions bridge an upgrade and are renewed in the background",
     "A lookup answers from the current version, else at once from the first usable compatible older version, never from an incompatible one; what is answered from an older version is computed anew in the background, once per item and at most as many at a time as the category of the cache allows. "
     "However such a refresh ends (content, error, internal error, panic), its slot is free again; its outcome then replaces the entries of all older versions, and without an outcome they stay.",
     ["histories", "configurations"], "all contents of the current, two compatible and one incompatible version x outcomes x limits; all orders of requests and refreshes for three items up to a depth",
     "Tests do one upgrade; slots, deduplication and failures only show in sequences.",
     [CA + "memory.rs", CA + "mod.rs", "crates/symbolicator-service/src/caches/versions.rs"], [("lookup_local_cache / spawn_refresh", CA + "memory.rs"), ("Caches::from_config", CA + "mod.rs")],
     state=[("refreshes", "items being refreshed", CA + "memory.rs"), ("max_lazy_refreshes", "free slots", CA + "fs.rs")], observe=["answers, running computations, files"],
     check=("explicit-state exploration of the real cache on a controlled executor against a reference model", "model_checking",
            "All states of the versions and all event orders up to the depth." + SVCNOTE))

prop("C26", "A shared cache only saves work, it never changes an answer",
     "Whatever the shared cache does (content, misses, errors, broken or stalling responses, crashes while storing), a request is answered within a minute with either the complete shared content of exactly this item and version or the outcome of its own computation. "
     "Every newly computed content is offered to the shared cache under that item's name, without delaying requests and with the configured number of concurrent uploads; nothing else is uploaded, and existing objects are never replaced.",
     ["fault_sequences", "schedules", "histories"], "all responses of an alphabet x outcomes of the computation; all orders of requests and ends of uploads; all histories of two instances; all failing operations and crash points of a store; all interleavings of two instances with bounded preemptions",
     "Tests fetch and store one file; partial responses and failures in between are not sampled.",
     [CA + "shared_cache/mod.rs", CA + "memory.rs"], [("SharedCacheService::fetch / store / upload_worker", CA + "shared_cache/mod.rs"), ("Cacher::compute", CA + "memory.rs")],
     state=[("upload queue", "pending uploads", CA + "shared_cache/mod.rs")], observe=["answers, requests to the shared cache, shared files"],
     check=("explicit-state exploration and fault enumeration of the real code on a controlled executor, clock and network", "model_checking",
            "All responses, orders and schedules within the bounds; the random drop of 95 % of refresh uploads is bypassed by repetition." + SVCNOTE))

DL = "crates/symbolicator-service/src/download/"
prop("C27", "A reported download is the complete file, every failure is reported",
     "A download reported as successful left exactly the bytes the server sent for the file, however the response is chunked and whatever fails on the disk. "
     "Failures have their kind (missing, forbidden with reason, timeout, other failure with reason), only failures that may pass are attempted again, at most three times, and no download takes longer than configured.",
     ["fault_sequences", "inputs"], "all sequences of responses of an alphabet to the requests of a download; each failing, short or full file operation; sizes x chunk sizes around the buffers; timeouts x slow responses",
     "Tests download two files from a server that works.",
     [DL + "mod.rs", DL + "destination.rs", DL + "http.rs", DL + "filesystem.rs"], [("DownloadService::download / dispatch_download", DL + "mod.rs"), ("WriteStream", DL + "destination.rs")],
     state=[("attempts", "responses so far", DL + "mod.rs")], observe=["result and downloaded file", "requests", "virtual time"],
     check=("explicit-state exploration and fault enumeration of the real code against a reference model, on a controlled executor, clock, network and file system", "model_checking",
            "All response sequences within the alphabet; the HTTP client is a stand-in." + SVCNOTE))
prop("C28", "A download in parts yields the file or an error, in any order",
     "Downloading in ranges is invisible: if the server answers the requests of an attempt correctly, the download succeeds with exactly the file, in whatever order the parts arrive; "
     "if it ignores ranges, replies with other ranges, a changed size, or incomplete or too long parts, the result is the file or an error, never a file put together from pieces that do not fit. At most four further requests are made.",
     ["schedules", "fault_sequences", "inputs"], "all file sizes up to a bound; all single and double deviations of the server from the protocol at any request of any attempt; all orders in which responses and their pieces arrive",
     "Tests download from a server that implements ranges correctly.",
     [DL + "mod.rs", DL + "partial.rs", DL + "destination.rs"], [("do_download_reqwest_range", DL + "mod.rs"), ("split, BytesContentRange", DL + "partial.rs"), ("FileMultiStreamDestination", DL + "destination.rs")],
     state=[("parts", "bytes written so far", DL + "destination.rs")], observe=["result and downloaded file", "ranges requested"],
     check=("explicit-state exploration of the real code on a controlled executor and network", "model_checking",
            "All deviations and orders within the bounds, with ranges of some bytes instead of 64 MiB (cfg vmc)." + SVCNOTE))

prop("C29", "A compressed file is delivered decompressed, a damaged one is reported",
     "A fetched file that arrives in a supported compression (zlib, gzip with any number of members, zstd, a zip archive of one file, cab) is handed out as the decompressed content, decompressed exactly once, at the start of the file and without leaving temporary files; "
     "any other file is handed out as it arrived. A truncated or corrupted one, an archive of several files, and a failing disk are reported and never yield a different content.",
     ["inputs", "fault_sequences"], "all formats and levels x contents; all truncations and single bit flips of small files; each failing, short or full file operation",
     "Tests decompress one intact file per format.",
     [DL + "compression.rs", DL + "fetch_file.rs"], [("maybe_decompress_file", DL + "compression.rs"), ("fetch_file", DL + "fetch_file.rs")],
     observe=["result and content of the file"],
     check=("exhaustive fault enumeration (damage and disk faults) on the real code", "fault_enumeration",
            "All formats; damage exhaustive for files below 120 (400) bytes; cabextract is a stand-in." + SVCNOTE))

prop("C30", "A failing host is blocked when configured, and only then",
     "A host is blocked exactly while the configuration says so: after the configured number of failed downloads within the time window (give or take a bucket) and for the configured time; blocked downloads fail at once without a request and do not count. "
     "Only download errors and timeouts of custom HTTP sources count, per host; other hosts, other kinds of sources, hosts on the never-block list and configurations without deny list are never affected, and downloads under way end normally.",
     ["histories", "configurations", "schedules"], "all histories of failing and successful downloads and pauses up to a depth x configurations; all outcomes; all pairs of sources; all orders of the ends of concurrent downloads",
     "Tests register failures directly for one host without time passing.",
     [DL + "mod.rs"], [("HostDenyList", DL + "mod.rs"), ("DownloadService::download", DL + "mod.rs")],
     state=[("failures per host", "counts per bucket of time", DL + "mod.rs"), ("blocked hosts", "until when", DL + "mod.rs")], observe=["result and number of requests of each download"],
     check=("explicit-state exploration of the real code on a controlled executor, clock and network", "model_checking",
            "All histories of 5-6 (7) steps for eight configurations; the expiring map is a stand-in for moka." + SVCNOTE))

prop("C31", "The index of a symbol server is complete and hides no file",
     "The index of a source is the union of all segments up to the last identifier the server named, or empty while something failed; an incomplete index is never used, whatever the order of failures, uploads, pauses and restarts. "
     "Failures are forgotten after some minutes, uploads are seen after about a day, and what was fetched well is not fetched again in between. With an index, exactly the files in it are requested; sources without index or with another layout request all.",
     ["histories", "fault_sequences", "configurations"], "all histories of requests, uploads, failures, recoveries, pauses and restarts up to a depth x kinds of failures x cache on disk; forms of the last id; all kinds of sources and layouts",
     "Tests fetch one index that never changes, without failures.",
     [DL + "index.rs", DL + "mod.rs"], [("SourceIndexService", DL + "index.rs"), ("list_files", DL + "mod.rs")],
     state=[("last id", "number of segments the server named", DL + "index.rs"), ("segments", "what was fetched", DL + "index.rs")], observe=["files visible through the index", "requests to the server", "files listed for a module"],
     check=("explicit-state exploration of the real code on a controlled executor, clock and network", "model_checking",
            "All histories of 5-6 (7) steps for four pairs of failures, with and without cache on disk; the in-memory caches are stand-ins for moka." + SVCNOTE))

prop("C32", "Cached files and failures are not seen from other scopes",
     "A file, or the failure to get it, that was cached for one scope is never the answer to a request of another scope, unless the source is public. Sources with another id, kind or place, and other files, never share either. "
     "Requests that agree in all of this share one download, also after a restart. The same holds for indexes of symbol servers and for source files.",
     ["histories", "configurations", "inputs"], "all pairs of requests over scopes, source ids, kinds, places, visibility and files x outcome of the first x restart; all triples about one file; all pairs of indexes",
     "Tests ask each source from one scope.",
     [S + "objects/mod.rs", S + "caching/cache_key.rs", DL + "index.rs"], [("ObjectsActor::fetch_file_metas", S + "objects/mod.rs"), ("CacheKey::from_scoped_file", S + "caching/cache_key.rs")],
     state=[("caches", "what was downloaded, by key", S + "caching/cache_key.rs")], observe=["object found by each request", "requests to the servers"],
     check=("explicit-state exploration of the real code on a controlled executor, clock and network", "model_checking",
            "Scopes are plain names; the scope named global is not told apart from the global scope." + SVCNOTE))

prop("C33", "The best file of a module is used, whatever the order of answers",
     "Of the files listed for a module, the one used is the best for the purpose (full debug information before symbols), in the order of sources when equal; a failed file is used only if no suitable one is found, and files without the features never. "
     "The candidates name each file once with its outcome and features, and each source that listed nothing; merging keeps what is known. From a universal binary the slice with the identifier is used.",
     ["inputs", "schedules", "configurations"], "all outcomes of 3 (4) files x purposes; all orders of their arrival; all combinations of up to three of seven kinds of sources; all sequences of 3 (4) changes of candidates; all universal binaries of up to three slices",
     "Tests use one or two sources with fixed outcomes.",
     [S + "objects/mod.rs", S + "objects/candidates.rs", S + "objects/data_cache.rs"], [("select_meta", S + "objects/mod.rs"), ("AllObjectCandidates", S + "objects/candidates.rs"), ("fetch_object_file", S + "objects/data_cache.rs")],
     state=[("lookups", "outcome of each listed file", S + "objects/mod.rs"), ("candidates", "what is reported", S + "objects/candidates.rs")], observe=["selected file", "reported candidates"],
     check=("explicit-state exploration of the real code on a controlled executor, clock and network", "model_checking",
            "Object files are Breakpad files, source bundles and Mach-O files without content." + SVCNOTE))


prop("C34", "Requests carry their own credentials, and those are renewed in time",
     "A request to a server carries exactly the credentials, headers, region and endpoint configured for its own source, whatever was downloaded before or at the same time; a Sentry token is not sent where it was not asked for. "
     "Tokens of GCS accounts and lists of Sentry files are used until they expire, without further requests, and never longer or by another account; failures to get them are not kept. A list has exactly the files of the wanted types. The answers of S3 are told apart: missing, denied, timed out, failed.",
     ["histories", "configurations", "fault_sequences"], "all histories of downloads by three accounts (one after the other, together, abandoned), pauses and failures of the token endpoint up to a depth; the same for lists of Sentry files; all pairs of 114 files of all kinds of sources; all pairs of answers of S3",
     "Tests need real credentials and skip otherwise; 'TODO: Test credential caching.'",
     [DL + "gcs.rs", DL + "sentry.rs", DL + "s3.rs", DL + "http.rs", S + "utils/gcs.rs"], [("GcsDownloader::get_token", DL + "gcs.rs"), ("SentryDownloader::list_files", DL + "sentry.rs"), ("S3Downloader::get_s3_client", DL + "s3.rs")],
     state=[("tokens", "per account, with the time of their end", DL + "gcs.rs"), ("lists", "per URL and token", DL + "sentry.rs"), ("clients", "per region and keys", DL + "s3.rs")], observe=["requests with their headers or configuration", "result and content of each download"],
     check=("explicit-state exploration of the real code on a controlled executor, clock and network", "model_checking",
            "All histories of 5 steps; the in-memory caches are stand-ins for moka, signatures are readable text." + SVCNOTE))

J = "crates/symbolicator-js/src/"
N = "crates/symbolicator-native/src/"

prop("C35", "A JavaScript file and its map are found by precedence, whatever is cached",
     "For each minified file and its source map, the file used is the first one of the documented order which is there: by debug id before by address, in artifact bundles (newest first) before individual files before the web, with each form of an address in order; "
     "a debug id given for the module, else in the file, names its map. The answer does not depend on what earlier requests, also of other releases, have left in the caches, and Sentry is asked for exactly the files that are missing.",
     ["inputs", "histories", "configurations"], "all sets of up to three uploaded files of each kind and place x references and debug ids x answers of Sentry x histories of requests on shared caches",
     "Tests know one arrangement at a time and always start with empty caches.",
     [J + "lookup.rs", J + "bundle_lookup.rs", J + "api_lookup.rs", J + "sourcemap_cache.rs", J + "utils.rs"],
     [("SourceMapLookup", J + "lookup.rs"), ("FileInBundleCache", J + "bundle_lookup.rs"), ("SentryLookupApi", J + "api_lookup.rs")],
     observe=["SourceMapService::symbolicate_js", "requests"],
     check=(ENUM, "exploration", "Up to three artifacts and three requests; the format of converted source maps is a stand-in." + SVCNOTE))

prop("C36", "Only what is allowed is fetched from the web, and secrets stay where they belong",
     "A file is requested from the web exactly if scraping is on, its address is of the web and one of the allowed origins has its scheme, host, port and path, and it lies outside of reserved networks unless these are allowed, however it is reached. "
     "Each attempt is recorded with its outcome and leads to the documented error; configured headers go to the web only, Sentry's token to Sentry only, certificates are checked as configured, and files are fetched once an hour.",
     ["inputs", "configurations", "histories"], "all pairs of patterns x addresses; kinds of addresses of minified files, maps and sources x settings x answers; edges of reserved networks x ways to get there; histories of waits",
     "Tests match a dozen patterns and use one local server.",
     [J + "lookup.rs", J + "api_lookup.rs", "crates/symbolicator-service/src/utils/http.rs", "crates/symbolicator-service/src/caches/sourcefiles.rs"],
     [("ArtifactFetcher::scrape", J + "lookup.rs"), ("is_valid_origin, is_external_ip, create_client", "crates/symbolicator-service/src/utils/http.rs")],
     observe=["SourceMapService::symbolicate_js", "is_valid_origin", "requests"],
     check=(ENUM, "exploration", "Lists of two patterns, 12 kinds of addresses and three waits of eight lengths." + SVCNOTE))

prop("C37", "JavaScript frames are mapped to what their source map says",
     "Each frame of a mapped file gets the line, column, file and name that its map has for the last token up to its position, and no panic or wrong neighbour for any position; the function is that of the scope or, if useless, of the call site. "
     "Addresses of sources are joined with that of their map, names of modules leave out what is documented, lines of context are those around the line and shortened around the column at characters. Frames that cannot be mapped stay as they were, with their error.",
     ["inputs"], "all sets of tokens on a grid x positions; all pairs of names of scopes, tokens and frames; all function names, paths and lines up to a length",
     "Tests compare a few recorded stack traces.",
     [J + "symbolication.rs", J + "utils.rs", "crates/symbolicator-service/src/source_context.rs"],
     [("symbolicate_js_frame", J + "symbolication.rs"), ("join_paths, generate_module, fold_function_name", J + "utils.rs"), ("get_context_lines", "crates/symbolicator-service/src/source_context.rs")],
     observe=["SourceMapService::symbolicate_js"],
     check=(ENUM, "exploration", "Nine positions of tokens, paths of four parts; the format of converted source maps is a stand-in." + SVCNOTE))


prop("C38", "Frames are symbolicated with the module and line of their address",
     "A frame gets the function, file, line and inlined callers that the symbols of its own module have for its address: modules are found by address or by index, whatever their order, size, gaps or position in the address space. "
     "Addresses of callers are moved into the call, those of the crashing or first frame and those already adjusted are not; frames found by scanning the stack that no symbol covers are left out, others stay with the reason why they are not symbolicated; positions of the original frames are kept. The name of the first module changes only where files are looked for.",
     ["inputs"], "all lists of up to three modules by address and size x addresses at their boundaries; all frames by position, adjustment, signal and registers x architectures; all traces of up to three frames by outcome and trust; rules of renaming",
     "Tests have a handful of recorded stack traces without overlaps, gaps or borders.",
     [N + "symbolication/module_lookup.rs", N + "symbolication/symbolicate.rs", N + "symbolication/native.rs", N + "interface.rs"], [("ModuleLookup::lookup_cache", N + "symbolication/module_lookup.rs"), ("symbolicate_stacktrace", N + "symbolication/symbolicate.rs"), ("symbolicate_native_frame", N + "symbolication/native.rs")],
     state=[("modules", "sorted by address, with their caches", N + "symbolication/module_lookup.rs")], observe=["frames of the response"],
     check=("exhaustive enumeration of requests to the real code, on a controlled executor and network, compared with a reference lookup", "model_checking",
            "Up to three modules and frames; symbol caches and demangling are stand-ins with a readable format." + SVCNOTE))


prop("C39", "Modules report what became of their files; private ones stay in their project",
     "The status, features, architecture and candidates of a module say what became of the files it needs: found, missing, denied, failed, timed out, malformed or unused, each module by its own files. "
     "Symbol maps and line mappings of all sources complete the symbols of the module with its identifier, the first source that has a good one first, and failures of them do not spoil the symbols. "
     "Later requests see new files once the old outcome expired. What a project gets from private sources is never used for another project, also where the completed symbols are public.",
     ["inputs", "fault_sequences", "histories"], "all outcomes of the files of three modules; all outcomes of property list, symbol map and two line mappings, public and private, at once and after a day; all pairs of projects by what they may see, orders of requests and private kinds of files",
     "Tests check single recorded modules; no test has two projects, or a symbol map that fails.",
     [N + "caches/symcaches.rs", N + "caches/bitcode.rs", N + "caches/il2cpp.rs", N + "caches/derived.rs", N + "symbolication/module_lookup.rs", "crates/symbolicator-service/src/objects/mod.rs"], [("SymCacheActor::fetch", N + "caches/symcaches.rs"), ("BitcodeService::fetch_bcsymbolmap", N + "caches/bitcode.rs"), ("Il2cppService::fetch_line_mapping", N + "caches/il2cpp.rs"), ("derive_from_object_handle", N + "caches/derived.rs")],
     state=[("caches", "of files and symcaches, per scope", N + "caches/symcaches.rs")], observe=["modules and frames of the response"],
     check=("exhaustive enumeration of outcomes and histories on the real code, on a controlled executor, clock and network", "model_checking",
            "Three modules, two projects, two or three requests; symbol caches and line mappings are stand-ins with a readable format." + SVCNOTE))


prop("C40", "Source context comes from the module's own files and no project sees another's",
     "A frame shows the lines around its line from the file its own module's source bundle embeds or links to, or none if there is no such line; only http and https links are followed, and headers go only to allowed origins. "
     "Each followed link is reported with its outcome by a module that has it. Context changes nothing else in the response. What was fetched with the headers of one project is not shown to another.",
     ["inputs", "configurations", "histories"], "all kinds of bundles and links x outcomes x scraping; three modules in three orders x what they link to x outcomes x a dropped frame; all pairs of projects by headers, allowed origins and scope of the bundle x orders of requests",
     "Tests fetch one linked file of one module, once.",
     [N + "symbolication/source_context.rs", N + "symbolication/module_lookup.rs", "crates/symbolicator-service/src/source_context.rs", "crates/symbolicator-service/src/caches/sourcefiles.rs"], [("SymbolicationActor::apply_source_context", N + "symbolication/source_context.rs"), ("ModuleLookup::try_set_source_context", N + "symbolication/module_lookup.rs"), ("get_context_lines", "crates/symbolicator-service/src/source_context.rs")],
     state=[("source files", "per scope and URL", "crates/symbolicator-service/src/caches/sourcefiles.rs")], observe=["frames and modules of the response", "requests to the servers of links"],
     check=("exhaustive enumeration of requests and histories on the real code, on a controlled executor and network", "model_checking",
            "Up to three modules, two projects, three requests; source bundles are real, symbol caches a stand-in." + SVCNOTE))


prop("C41", "Minidumps give complete, correctly unwound and symbolicated stack traces",
     "Processing a minidump reports its system, crash reason and requesting thread, all its modules with their identifiers, use and status, and all threads with the walk that the unwind information found for the modules (each asked for once, by its identifiers) allows, up to 256 frames. "
     "The order in which files arrive does not matter. An unreadable dump is an error, and is kept for diagnosis only if a cache directory is configured. A rule for the first module is applied to that module only.",
     ["inputs", "configurations", "schedules"], "modules by identifiers, names, use and outcome, alone and in threes; walks of up to four frames; systems, exceptions and requesting threads; ways a dump is unreadable; orders of replies for three modules; rewriting rules",
     "Tests process three fixed dumps.",
     [N + "symbolication/process_minidump.rs", N + "symbolication/native.rs", N + "caches/cficaches.rs"], [("SymbolicationActor::process_minidump", N + "symbolication/process_minidump.rs"), ("stackwalk", N + "symbolication/process_minidump.rs"), ("SymbolicatorSymbolProvider::load_cfi_module", N + "symbolication/process_minidump.rs")],
     state=[("unwind files loaded in one walk", "a map with notification of waiters", N + "symbolication/process_minidump.rs")], observe=["response", "requests to the source", "kept dumps"],
     check=("exhaustive enumeration of dumps, replies and their orders on the real code, on a controlled executor and network", "model_checking",
            "Dumps of up to three modules and three threads in the format of a stand-in of the minidump crates, which walks all threads at the same time." + SVCNOTE))


prop("C42", "Client-side stack traces in a minidump replace exactly their threads",
     "A stack-trace stream of a minidump, at whatever offset it lies, gives the threads it names the frames it lists, with names from its symbol bytes; threads it does not name, or names with no frames, keep their walk. "
     "Any malformed stream, whatever its lengths, version or ranges, is ignored as a whole or in the part that is out of range, never a panic, and never changes the rest of the response.",
     ["inputs"], "streams of up to two threads and two frames with all ranges at and beyond the limits; all lengths, versions and alignments; pairs of threads of dump and stream",
     "A test reads one well-formed stream.",
     [N + "symbolication/minidump_stacktraces.rs", N + "symbolication/process_minidump.rs"], [("parse_stacktraces_from_minidump", N + "symbolication/minidump_stacktraces.rs"), ("merge_clientside_with_processed_stacktraces", N + "symbolication/process_minidump.rs")],
     observe=["stack traces of the response"],
     check=("exhaustive enumeration of streams on the real code", "model_checking",
            "Streams are binary and read by the real code; the dump around them is in the format of a stand-in of the minidump crates." + SVCNOTE))


prop("C43", "Apple crash reports give the system, crash and threads they describe",
     "Processing an Apple crash report reports its timestamp, system, crash and reason, exactly its images as modules and exactly its threads with their frames in order, the crashed one marked; what the report leaves out is absent. "
     "Any other bytes are an error, never a panic.",
     ["inputs"], "combinations of what a report says of the system and the crash; lists of up to two images and two threads; prefixes of a report",
     "Tests process two reports.",
     [N + "symbolication/apple.rs"], [("SymbolicationActor::process_apple_crash_report", N + "symbolication/apple.rs")],
     observe=["response"],
     check=("exhaustive enumeration of reports on the real code", "model_checking",
            "Reports are read by a stand-in of the parser's crate, as JSON of the same structure." + SVCNOTE))


prop("C44", "JVM events are deobfuscated by the right mapping and keep what no mapping knows",
     "Every frame, exception and class name of an event is mapped by the first of its mapping files that knows it, inlined frames expanded in order; what none knows stays as it was. Frames keep their in-app flag, index and other fields. "
     "Source context comes from the source bundles, by class and package. Every mapping file that is missing, invalid or has no lines is reported once, in order, and no file makes the request fail.",
     ["inputs", "configurations"], "lists of up to three mapping files and outcomes x frames by class, method, line, signature, file and package; exceptions and class names; source bundles x frames by path, class and line",
     "Tests map a dozen frames with two mapping files.",
     ["crates/symbolicator-proguard/src/symbolication.rs", "crates/symbolicator-proguard/src/service.rs"], [("ProguardService::symbolicate_jvm", "crates/symbolicator-proguard/src/symbolication.rs"), ("ProguardService::download_proguard_file", "crates/symbolicator-proguard/src/service.rs")],
     observe=["response"],
     check=("exhaustive enumeration of events, files and outcomes on the real code", "model_checking",
            "Mapping files are read by a stand-in of the proguard crate, which is also asked for the expected answers; source bundles are real." + SVCNOTE))


prop("C45", "Requests are limited, polled and forgotten as promised, whatever they do",
     "A request is refused exactly when max_concurrent_requests others are running, however submissions, ends and panics interleave. Every poll of an accepted request gives its own result: pending with its id before its end, then the same result for 90 s to everyone who asks, a time-out after 15 minutes, an internal error to those who waited for one that panicked, and nothing for unknown ids. "
     "Lists of candidates are in the result exactly if asked for.",
     ["histories", "schedules"], "histories of four (five) submissions of five kinds, polls with and without a time limit, replies, waiters and passing time x limits; one submission interrupted at each of its instructions by another one or by the end of a request",
     "Tests poll one request several times.",
     ["crates/symbolicator/src/service.rs"], [("RequestService::create_symbolication_request", "crates/symbolicator/src/service.rs"), ("RequestService::get_response", "crates/symbolicator/src/service.rs")],
     state=[("current_requests", "number of running requests", "crates/symbolicator/src/service.rs"), ("requests", "results by id until 90 s after their end", "crates/symbolicator/src/service.rs")], observe=["accepted or refused", "results of polls"],
     check=("exhaustive exploration of histories, and of all interruptions of a submission, on the real code on a controlled executor and clock", "model_checking",
            "Interruptions: one, at any instruction of the program (those of the C library: thorough), by stepping the processor; any finish happens on the executor's thread." + SVCNOTE))

prop("C46", "What is asked over HTTP is what the service does, and errors say what was wrong",
     "A POST of any kind starts exactly the request its fields, form and query stand for, with the documented default for each one that is missing: same result, same downloads, same cache files as that request made directly. "
     "Broken fields give 400, large ones 413, missing uploads 400, no room 503, each with a detail, and leave no trace; unknown fields are ignored. Bodies up to 100 MiB (5 MiB for symbolicate) are accepted and larger ones not; polls give 200 or 404. "
     "The proxy serves whole objects by their symstore names, from the default sources, only if enabled.",
     ["inputs", "histories", "configurations"], "all combinations of the fields of five kinds of request; every defect of a field with each of another one; body and field sizes around the limits; all lists of four polls; all paths and methods; files, outcomes and methods by proxy",
     "Tests ask each endpoint once or twice.",
     ["crates/symbolicator/src/endpoints/symbolicate.rs", "crates/symbolicator/src/endpoints/symbolicate_js.rs", "crates/symbolicator/src/endpoints/symbolicate_jvm.rs", "crates/symbolicator/src/endpoints/minidump.rs", "crates/symbolicator/src/endpoints/applecrashreport.rs", "crates/symbolicator/src/endpoints/multipart.rs", "crates/symbolicator/src/endpoints/proxy.rs", "crates/symbolicator/src/endpoints/requests.rs", "crates/symbolicator/src/endpoints/error.rs"],
     [("create_app", "crates/symbolicator/src/endpoints/mod.rs"), ("handle_minidump_request", "crates/symbolicator/src/endpoints/minidump.rs")],
     state=[("request", "fields of the body or form, query, and size", "crates/symbolicator/src/endpoints/symbolicate.rs"), ("caches", "files left by a request", "crates/symbolicator/src/endpoints/minidump.rs")], observe=["status and body of answers", "requests to sources", "cache files"],
     check=("exhaustive enumeration of requests over HTTP on the real code, each compared with the service asked directly", "model_checking",
            "axum is a stand-in: how it reads HTTP itself, JSON errors of its extractors, and its limits are modelled." + SVCNOTE))


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "./check --build", "checks": CHECKS, "not_applicable": NA,
         "hooks": {"guard": "cfg vmc", "enable": "RUSTFLAGS=--cfg vmc (set by ./check)", "source_commits": ["60e01f8"]},
         "notes": "One hook in /repo (the size at which downloads are split into ranges); otherwise the checks compile /repo's own sources (path dependencies and #[path] targets of harness crates in /verif/mc and /verif/mc-svc)."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
