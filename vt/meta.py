"""Check configuration: case counts per tier, build variant, coverage rule."""
CHECKS = {
    "C01": dict(technique="ASan/UBSan build + reference-model monitor over random histories", note="no violation on the histories executed; numpy is the reference",
                quick=3000, thorough=12000, level="exploration", floor={"writes": 1500, "reads": 4000},
                rule="one case = one dataset specification (all format x dtype x codec triples once, then random) driven "
                     "through a random history of array/strided/scalar/chunk writes via the Python and C++ interfaces next "
                     "to a numpy array; non-trivial = more than one chunk; distinct by specification and history",
                assumptions=["numpy is the reference for array semantics", "sanitized build of the same sources"]),
}


def add(p, **k):
    CHECKS[p] = k


add("C02", technique="ASan/UBSan build + model of stored chunks compared with the files after every step",
    note="no violation on the histories executed; one known finding (64-bit fill values)",
    quick=1600, thorough=16000, level="exploration",
    floor={"existence_queries": 8000, "fill_overwrites": 500, "chunks_absent": 3000, "chunks_present": 3000, "foreign_fills": 200},
    rule="one case = one dataset (format x dtype cycled, fill values incl. NaN, infinities, extremes) and a history biased to partial "
         "writes into fresh chunks and to overwriting stored chunks with the fill value; after every step chunk existence is compared "
         "with the files (or shard index entries) on disk and with the reference; non-trivial = more than one chunk")
add("C03", technique="offline checker: independent decoder/encoder of the formats against the real code",
    note="trusts the codec libraries of Python, zarr-python and tensorstore",
    quick=6000, thorough=24000, level="exploration",
    floor={"independent_decodes": 400, "chunks_decoded": 3000, "foreign_reads": 1200, "library_reads": 100, "library_written_reads": 100},
    rule="one case = (a) a random z5 write history decoded from the files by an independent decoder (and zarr-python/tensorstore), "
         "(b) a dataset made by an independent encoder (spelling variants, garbage padding, shuffled shards) read and partially "
         "rewritten by z5, or (c) a dataset written by zarr-python/tensorstore read by z5; non-trivial = more than one chunk",
    assumptions=["numcodecs, zlib/gzip/bz2/lzma of the Python library, zarr-python and tensorstore implement the formats correctly"])
add("C04", technique="offline shard validator after every operation + concurrent stress under ASan/UBSan",
    note="interleavings are those the OS scheduler produced",
    quick=2400, thorough=24000, level="exploration",
    floor={"shard_validations": 4000, "inner_chunks_decoded": 20000, "chunk_removals": 200, "clears": 200, "concurrent_rounds": 250, "concurrent_writes": 3000, "concurrent_reads": 2000},
    rule="one case = a sharded dataset under a random history; after every operation all shard files are parsed by an independent "
         "validator (checksum, bounds, overlap, exact entries) and decoded against the reference; every fourth case instead runs 2-6 "
         "threads on disjoint inner chunks of the same shards plus a reader, through one handle",
    assumptions=["interleavings are those the OS scheduler produced"])
add("C05", technique="structural corruption (fault injection into files) under ASan/UBSan with must-raise oracle",
    note="corruption classes listed in DESIGN.md; arbitrary bit flips inside blosc payloads excluded",
    quick=4000, thorough=40000, level="exploration",
    floor={"corruptions": 3000, "reported": 8000, "damaged_reads": 15000, "damaged_queries": 20000, "writes_to_unreadable_shards": 200},
    rule="one case = one dataset (format x codec x dtype cycled) damaged three times in one of 20 structural ways (truncation, zeroing, "
         "extension, header fields, index entries with recomputed checksum, wrong-size streams, bit flips) and then read, queried and "
         "partially overwritten through both interfaces under ASan/UBSan; must-raise classes are asserted",
    assumptions=["c-blosc itself is not robust to arbitrary bit flips in its payload: blosc damage is limited to truncation and size fields"])
add("C06", technique="invalid-request generator with byte-level file/array snapshots as oracle, under ASan/UBSan",
    note="request kinds listed in DESIGN.md",
    quick=2500, thorough=30000, level="exploration",
    floor={"invalid_requests": 20000, "invalid_creations": 8000, "border_requests": 3000},
    rule="one case = one dataset given 30 random invalid requests out of 26 kinds (region outside, wrapped, zero, rank, dtype, chunk index, "
         "payload size; Python and C++), or one container given 25 invalid creations; after each the caller's arrays and (hashes of) all "
         "files are compared with the state before; then valid border requests must succeed")
add("C16", technique="round-trip and library-exchange monitor around the real codec classes under ASan/UBSan",
    note="sizes up to a few MB; trusts the codec libraries (zlib, bz2, lzma, numcodecs, libzstd)",
    quick=1200, thorough=12000, level="exploration", bins=[dict(name="zlibstock", variant="asan", opt=None)],
    floor={"compressions": 3000, "library_decodes": 3000, "library_streams": 4000, "concurrent_uses": 200, "stock_round_trips": 300, "datasets": 100},
    rule="one case = one codec x option value x dtype (all cycled) with 4-5 inputs from one element to megabytes of 7 data kinds: z5 round trip from "
         "exact-size heap buffers, decoding by the codec's own library, decoding of library streams (other levels, multi member, multi frame, flushed), "
         "too small output buffers, and concurrent use of one compressor object; every 10th case the stock zlib back end")
add("C17", technique="arbitrary-precision reference monitor on the geometry classes and on far-away I/O under ASan/UBSan",
    note="all regions of small shapes are enumerated; coordinates up to 2^63-1 are sampled",
    quick=10000, thorough=100000, level="exploration",
    floor={"regions": 20000, "overlaps": 50000, "blocks": 10000, "dataset_chunks": 3000, "far_writes": 1000, "far_reads": 1500},
    rule="one case = (a) all regions of one small shape x block shape (1-d exhaustively up to 13 x 15, 2-d/3-d sampled), (b) regions of shapes with "
         "axes up to 2^63-1, or (c) a dataset with axes up to 2^60 with I/O at far corners; everything compared with Python integers; "
         "non-trivial = more than one block")
add("C14", technique="differential monitor: every index applied to the dataset and to a numpy array, under ASan/UBSan",
    note="no violation on the indices executed; numpy is the reference",
    quick=2400, thorough=30000, level="exploration",
    floor={"index_reads": 30000, "array_assignments": 5000, "scalar_assignments": 3000, "bad_indices": 5000, "clamped_indices": 1500, "scalar_reads": 1000, "empty_reads": 3000, "direct": 1500},
    rule="one case = one dataset (format x dtype cycled, random shape and chunks) with 60 random indices (13 kinds of axis index, ellipsis anywhere, "
         "partial tuples) read or assigned in 8 shapes of the right-hand side next to numpy, unsupported indices of 13 kinds; the whole dataset is "
         "compared after every assignment")
add("C15", technique="per-chunk state model next to chunk, varlen and array access, under ASan/UBSan",
    note="no violation on the histories executed",
    quick=2000, thorough=20000, level="exploration",
    floor={"chunk_writes_py": 3000, "chunk_writes_cpp": 3000, "varlen_writes": 2500, "varlen_reads": 2000, "varlen_region_reads": 500, "missing_chunk_reads": 10000,
           "chunk_reads": 10000, "edge_chunk_reads": 2000, "chunk_removals": 1000, "partial_varlen_writes": 200},
    rule="one case = one dataset under 30 random steps (chunk writes, varlen writes of 0..5000 elements, region writes, removals, reopen) biased to "
         "border chunks and to the same chunk again; after each step existence, varlen flag, chunk content (both interfaces), padding, header shape and "
         "the bytes of varlen files are compared with a model; non-trivial = more than one chunk")
add("C18", technique="independent decoder as oracle for the utilities on stored chunks, under ASan/UBSan",
    note="one known finding (NaN in unique)",
    quick=3000, thorough=30000, level="exploration",
    floor={"unique_calls": 5000, "trivial_runs": 4000, "chunks_removed": 4000, "chunks_kept": 10000, "removals": 1500, "foreign_datasets": 500, "varlen_chunks": 300},
    rule="one case = (a) one dataset (format x codec x dtype cycled; written by z5 or by an independent encoder with padded/full edge chunks) whose unique "
         "values, counts and trivial chunks (whole, nearly trivial, given value; any thread count) are compared with the independently decoded elements of "
         "the stored chunks, or (b) a container of 3-8 datasets removed one by one in four ways with byte-level snapshots of everything else")
add("C07", technique="ThreadSanitizer and ASan builds of stress programs with owner models; Python threads on z5py objects",
    note="interleavings are those the OS scheduler produced with the injected delays",
    quick=500, thorough=12000, level="exploration",
    bins=[dict(name="pario", variant="tsan"), dict(name="pario", variant="asan", **{"as": "pario_asan"})],
    floor={"processes_tsan": 400, "processes_asan": 400, "rounds_one_handle": 180, "rounds_handles": 180, "rounds_datasets": 100, "stable_reads": 10000,
           "chunks_compared": 800, "own_datasets": 800, "writes": 10000, "py_rounds": 75},
    rule="one case = one random scenario run once under ThreadSanitizer and once under ASan/UBSan with delays injected at file operations: parallel vs serial "
         "access of two datasets, 2-8 threads owning disjoint slabs of chunks through one handle or several handles next to readers of data nobody writes, "
         "threads creating/using/removing datasets of their own, or Python threads on z5py objects; every owner keeps a model of its data and all are compared "
         "through a fresh handle at the end",
    assumptions=["compression libraries are not instrumented by ThreadSanitizer"])
add("C08", technique="event-log monitors of pool and loops under ThreadSanitizer and ASan; iteration logs against the grid; failing parallel I/O",
    note="interleavings are those the OS scheduler produced",
    quick=800, thorough=12000, level="exploration",
    bins=[dict(name="pool", variant="tsan"), dict(name="pool", variant="asan", **{"as": "pool_asan"})],
    floor={"processes": 1000, "loops": 10000, "throwing_loops": 2500, "loops_on_several_threads": 5000, "distinct_thread_orders": 5000, "tasks": 50000,
           "future_exceptions": 5000, "destructions": 3000, "discarded": 2000, "visits": 3000, "failing_loops": 300},
    rule="one case = (a) one pool scenario run under ThreadSanitizer and under ASan: 24 loops over all overloads and iterator kinds with random thread "
         "counts, item counts, durations and throwing items, queues with several producers and waiters, or destruction with queued tasks; the callee logs "
         "calls, thread ids and overlaps, the caller checks them after the loop; (b) chunk/block iteration logs against the grid; (c) parallel reads/writes "
         "over damaged chunks")

add("C09", technique="fault injection into the file operations of one call (preloaded shim) with a whole-container state oracle, under ASan/UBSan",
    note="faults are injected at the libc calls z5 makes; what the kernel loses after a successful close is out of scope",
    quick=640, thorough=8000, level="fault_enumeration", shim=True,
    floor={"faults": 5000, "writes_raised": 4000, "reads_raised": 500, "repeats": 4000, "other_chunks": 10000, "fault_write": 400, "fault_close": 400,
           "fault_open-read": 500, "fault_read": 500, "fault_rename": 400, "fault_mkdir": 80, "fault_unlink": 200},
    rule="one case = a container with datasets (target: N5, Zarr v2, v3, sharded cycled), groups and attributes, and one operation (60 kinds: array/scalar/"
         "chunk writes, clears, attribute set/update/delete, creating/requiring/removing nodes and containers, reads and queries) repeated in fresh copies with "
         "one fault each (operation number x {fail once, fail from then on, short write} x 7 errnos; opens, reads, writes, closes, renames, mkdir, unlink, rmdir, "
         "stat, opendir); returned normally = complete effect or true value, raised = everything else is as before and repeating succeeds")
add("C19", technique="process killed at every mutating file operation (preloaded shim, forked writer) with a whole-container state oracle, under ASan/UBSan",
    note="death of the process at libc calls; power loss and reordering by the kernel are out of scope",
    quick=400, thorough=6000, level="fault_enumeration", shim=True,
    floor={"crashes": 3000, "repeats": 3000, "other_chunks": 10000, "target_old": 2000, "target_new": 1000, "earlier_operations": 2000, "fully_enumerated": 150},
    rule="one case = a container with datasets (target: N5, Zarr v2, v3, sharded cycled), groups and attributes and a history of 1-4 operations (array, scalar, "
         "chunk writes, clears, attributes, creating and removing nodes; 1-4 threads) run by a forked process that dies before or half way through its n-th mutating "
         "file operation, for every n (sampled beyond 16); afterwards a new reader compares everything with the model of the completed operations, target chunks "
         "with their old and new value, and the interrupted operation is repeated")
add("C10", technique="round-trip monitor over raw metadata files + generated foreign documents with must-refuse / must-open oracle",
    note="documents are mutations of conforming ones by the listed features",
    quick=8000, thorough=80000, level="exploration",
    floor={"views": 6000, "data_histories": 400, "refusals": 2000, "control_reads": 500, "versions": 200},
    rule="one case = (a) one dataset specification (format x dtype x codec cycled, wide option values, via z5py or C++) whose raw metadata is decoded "
         "independently and whose reopened attributes (z5py and C++, modes r, r+, a) are compared with the request before and after data is written, "
         "or (b) a conforming foreign dataset whose metadata document has one feature that z5 does not support (about 130 kinds over the three formats; must "
         "be refused by both interfaces, files unchanged) or one permitted omission/extra/spelling (must open with the right values and data); "
         "distinct by specification and document")
add("C11", technique="dictionary model next to the attributes of every node of a container, compared with z5py and with the raw JSON after every step",
    note="no violation on the histories executed; integers beyond 64 bit excluded",
    quick=900, thorough=30000, level="exploration",
    floor={"checks": 12000, "op_set": 1800, "op_update": 1200, "op_reserved": 300, "op_invalid": 500, "thread_rounds": 60, "decoded_checks": 1200, "reopened": 900},
    rule="one case = a container (format cycled) with root, groups and datasets and a random history of up to 40 attribute operations (every method of a mutable mapping, "
         "nested/unicode/extreme values, reserved keys, unserializable values, other tools' edits, data writes, reopening, stale handles, custom encoder/decoder) on 1-4 of "
         "the nodes; after each step the node (and at random another one) is compared with its model through z5py and in the raw JSON, metadata and data included; every "
         "10th case one thread per node")
add("C12", technique="byte-level container snapshots around every mutating call in every mode, for objects obtained in every way",
    note="no violation on the calls executed",
    quick=700, thorough=14000, level="exploration",
    floor={"read_only_calls": 20000, "openings": 300, "inherited_calls": 4000, "bad_modes": 20, "writable_calls": 300},
    rule="one case = (a) a filled container (format cycled) opened in mode r: every mutating call (about 40: attributes, groups, datasets, data, chunks, removal; z5py, the "
         "bound C++ functions and C++ datasets) on every node, obtained in up to 8 ways (nested, pickled, visited, required, parent, file), must raise and leave the "
         "container bit-identical, or (b) one of 6 modes x 7 states of the path opened in 4 spellings: existence, truncation and content as the mode says, neighbours "
         "untouched, and the mode inherited by files, groups and datasets (also pickled once and twice)")
add("C13", technique="tree model next to random hierarchy histories, compared with the API, the directory tree and the container's surroundings",
    note="no violation on the histories executed; chunk directories of datasets are not probed as keys",
    quick=1200, thorough=24000, level="exploration",
    floor={"disk_checks": 20000, "api_checks": 5000, "nodes_compared": 50000, "duplicates": 3000, "mismatches": 3000, "escapes": 800, "blocked": 2000, "absent_lookups": 10000, "pickled": 1000, "spellings": 10000},
    rule="one case = a container (format cycled) under 10-45 random operations (create, require, delete, recreate, reopen, pickle, attributes, data; duplicate, mismatching, "
         "missing, blocked, escaping and odd names) on root or any group under nested names in four spellings; after each step the directory tree is compared with the "
         "model, regularly keys/len/iter/items/visits/membership/opened nodes with specification, data and attributes; everything next to the container must stay as it was")
add("C20", technique="differential monitor: the S3 back end on an instrumented in-memory service next to the filesystem back end, with request fault injection, under ASan/UBSan",
    note="the AWS SDK and the service are replaced by stand-ins with the documented semantics",
    quick=700, thorough=8000, level="exploration", s3=True, bins=[dict(name="cloud", variant="asan", inc=["s3stub"])],
    floor={"operations": 6000, "states_compared": 2500, "objects_compared": 30000, "faults": 5000, "faults_reported": 3000, "retries": 3000,
           "reads": 500, "readonly_rounds": 20, "large_removals": 20, "pickles": 100, "missing_containers": 400, "damaged_objects": 100,
           "foreign_reads": 500, "n5_s3_operations": 400, "n5_s3_varlen": 100, "gcs_refusals": 100},
    rule="one case = one zarr v2/v3 container at a random bucket prefix (with sibling objects) under a random history of hierarchy, attribute, dataset and chunk "
         "operations run on S3File and on the filesystem File; outcomes and results are compared after every operation, all objects with all files every third; "
         "then (half of the cases) every sampled request of an operation fails in one of six ways: the operation must raise, or have its full effect and the right "
         "result, and repeating it must succeed; every tenth case an n5 history over the C++ interface; distinct by seed and format",
    assumptions=["the stand-in service implements the documented behaviour of S3 and its SDK"])
add("C21", technique="multi-process history monitor: forked writers and readers on one container, reads judged against shared-memory registers of started and completed operations (regular-register oracle), injected delays at file operations, under ASan/UBSan",
    note="processes of one machine on a local file system with atomic rename; no violation on the interleavings observed",
    quick=1800, thorough=60000, level="exploration", shim=True,
    floor={"chunks_judged_during_writes": 15000, "distinguishing_reads": 15000, "saw_a_write_in_progress_or_done_since": 5000, "existence_judged": 8000,
           "attributes_judged_during_writes": 800, "listings_judged_during_writes": 1000, "nodes_judged": 4000, "writes": 50000, "processes": 4000, "datasets_read": 400},
    rule="one case = a container on which 2-6 participants (forked processes, some sharing one as threads) run at the same time after a barrier, with random delays at file "
         "operations in half of the cases: (a) 1-4 writers of disjoint chunks / shards (whole, partial, scalar, clearing, chunk writes, 1-4 threads, 12-80 operations each) and "
         "1-2 readers (regions, chunks, existence, reopening) whose every chunk must equal one version between the last one completed before and the last one started by the end of the "
         "read, never an earlier one than seen before; or (b) writers of disjoint names and attribute documents (create, delete, set, update, remove) and observers (listings, "
         "membership, opening, attributes, a dataset nobody writes) judged likewise; the final state is the union of all; distinct by specification and plan")
add("C22", technique="resource monitor: descriptors, threads, heap (sanitizer allocator) and files over repetitions of every operation, with damage and I/O faults",
    note="growth below 16 bytes per repetition and leaks that do not recur when the operation is repeated are not seen",
    quick=400, thorough=6000, level="exploration", shim=True,
    floor={"operations": 4500, "op_fine": 1600, "op_refused": 900, "op_damaged": 900, "op_fault": 900, "op_codec": 600, "failed": 4500, "succeeded": 4500},
    rule="one case = one container and dataset (format x codec cycled) or one codec object; 9 operations that succeed, 5 that are refused, 5 on damaged chunk or "
         "shard files and 5 with failing system calls are each repeated 6 times after 3 warm-up repetitions; a growth of descriptors, threads, files of the container or "
         "heap by one unit per repetition must recur in 3 further windows to count; distinct by specification and index",
    assumptions=["what is held once per process, thread or object (caches, codec contexts) is not a leak"])
