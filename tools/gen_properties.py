import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
I="include/z5/"
p("C01","Reading any region returns exactly what was last written there",
"For every dataset (N5, Zarr v2, Zarr v3, sharded or not; any numeric dtype, codec, rank, shape and chunking), after any sequence of array, scalar and chunk writes the value read at every position equals the value most recently written at it, no matter how the reading region is aligned to chunks, shards and the dataset border, how many threads are used, whether the dataset was reopened in between, or how the caller's array is laid out in memory (row-major, column-major, strided, sub-view). A write changes exactly the requested region and a read writes exactly the requested part of the caller's array; all of it without memory errors or undefined behaviour.",
["inputs","histories","configurations"],"All formats x dtypes x codecs x ranks/shapes/chunk/shard shapes x histories of writes x read regions x memory layouts x thread counts.",
"Tests read back whole arrays or a handful of fixed regions for fixed shapes (100^3, 10^3 chunks); the claim is over all alignments, histories and layouts, including overlapping partial writes, edge chunks and reopened handles.",
[I+"multiarray/array_access.hxx",I+"multiarray/array_util.hxx",I+"multiarray/broadcast.hxx",I+"multiarray/array_view.hxx",I+"util/blocking.hxx",I+"generic/dataset.hxx",I+"generic/sharded_dataset.hxx","src/python/lib/dataset.cxx"],
[("read/writeSubarray: split into blocks, complete-vs-partial overlap, read-modify-write",I+"multiarray/array_access.hxx"),("copyBufferToView / copyViewToBuffer strided copies",I+"multiarray/array_util.hxx"),("Blocking::getCoordinatesInRoi",I+"util/blocking.hxx"),("writeScalar",I+"multiarray/broadcast.hxx")],
obs=["z5py.Dataset.__getitem__/__setitem__/write_subarray/read_subarray","z5::multiarray::readSubarray/writeSubarray/writeScalar"])
p("C02","Unwritten data reads as the fill value and existence is consistent",
"Every position never written reads as the dataset's fill value (zero for N5 and when none is given), for every dtype including NaN, infinities, negative and extreme integers, in array reads, partial reads that also cover written chunks, and after partial writes into a fresh chunk. Whether a chunk exists on disk never changes what is read: a chunk whose whole content is the fill value may be absent (writing it over stored data removes that data), any chunk holding another value is present, and the existence query agrees with what is stored.",
["inputs","histories"],"All formats x dtypes x fill values x write histories; every position and every chunk.",
"Tests use a few fill values on int/float Zarr v2 arrays, never fill elision histories (write data, overwrite with fill, partial writes) across formats and shards.",
[I+"generic/dataset.hxx",I+"generic/sharded_dataset.hxx",I+"util/format_data.hxx",I+"metadata.hxx",I+"multiarray/array_access.hxx","src/python/module/z5py/dataset.py"],
[("all-fill check before a chunk is stored; erase",I+"generic/dataset.hxx"),("missing chunk -> fill region of view",I+"multiarray/array_access.hxx"),("fill value parse/serialise incl. NaN/Infinity",I+"metadata.hxx")],
obs=["reads","files in the dataset directory","chunk_exists"])
p("C03","Stored datasets conform to the N5 / Zarr v2 / Zarr v3 on-disk formats",
"What z5 stores is byte-for-byte decodable by an independent implementation of the format (metadata keys and values, chunk keys and separators, endianness, axis order, header, edge-chunk padding or clipping, codec stream, shard index and checksum, fill value) to exactly the array that z5 reads back. Conversely, data stored by other conforming writers within z5's supported feature set (either dimension separator, v2 and default v3 key encodings, either Zarr v2 byte order where accepted, missing chunks, sharding with inner chunks in any order) reads in z5 as exactly the same array.",
["inputs","configurations"],"All formats, dtypes, codecs, shapes, chunk and shard shapes, separators and write orders; both directions.",
"Interop tests cover a few fixed shapes with int/float and raw/gzip/blosc; edge chunks, dtypes, codecs, sharding and separators vary jointly and a symmetric bug in read and write passes every round-trip test.",
[I+"metadata.hxx",I+"types/types.hxx",I+"filesystem/handle.hxx",I+"util/format_data.hxx",I+"util/sharding.hxx",I+"util/crc32c.hxx",I+"compression/zlib_compressor.hxx",I+"compression/blosc_compressor.hxx"],
[("metadata toJson/fromJson for the three formats",I+"metadata.hxx"),("chunk key construction",I+"filesystem/handle.hxx"),("chunk header + endian conversion",I+"util/format_data.hxx"),("shard index layout and crc32c",I+"util/sharding.hxx")],
obs=["bytes of chunk, shard and metadata files","zarr-python, tensorstore and an independent decoder"])
p("C04","Writing into a shard never loses or alters its other inner chunks",
"In a sharded Zarr v3 dataset, writing, overwriting or clearing any inner chunk or region leaves every other inner chunk of the same and of other shards unchanged, in any order and under concurrent multi-threaded writes through one dataset handle. After every operation each shard file is a valid shard: its index checksum is correct, entries lie inside the file and do not overlap, entries are present exactly for the inner chunks with non-fill content, edge shards hold only inner chunks inside the array, and a shard with no content does not exist.",
["histories","schedules","configurations"],"All histories of writes over inner chunks, shard/chunk shapes, codecs, thread interleavings.",
"Tests write whole sharded arrays and a few partial regions; loss of a neighbour needs particular write orders, overlapping regions, elision inside a shard or an interleaving.",
[I+"generic/sharded_dataset.hxx",I+"util/sharding.hxx",I+"util/crc32c.hxx",I+"multiarray/array_access.hxx"],
[("shard read-modify-write under a mutex",I+"generic/sharded_dataset.hxx"),("per-shard grouping of writes",I+"multiarray/array_access.hxx"),("shard assembly / index parse",I+"util/sharding.hxx")],
state=[("shardMutex_","serialises read-modify-write of shards through one dataset object",I+"generic/sharded_dataset.hxx")],
obs=["shard file bytes after each operation","inner chunk reads"])
p("C05","Damaged chunk and shard data is reported, never mis-accessed",
"Reading a chunk, header or shard file whose bytes were truncated, extended with a wrong size, zeroed, or changed so that its structure is inconsistent (header dimensions or element count, shard index offsets, sizes or checksum, compressed stream cut short, decoded size that does not match) either raises an error or returns a result of the correct shape; it never reads or writes memory out of bounds, aborts, hangs or invokes undefined behaviour. In particular missing bytes are never silently presented as data: a truncated raw chunk, a truncated compressed stream and a shard with a broken index raise. A shard whose index is unreadable is never overwritten by a partial write: the write raises and the file's bytes stay as they were.",
["inputs","fault_sequences"],"All truncation points, header/index field values and sizes for all formats and codecs, on read, partial write and chunk-level access.",
"There are no tests on damaged files; the space of damaged inputs is unbounded and errors show as memory corruption that only instrumentation sees.",
[I+"util/format_data.hxx",I+"util/sharding.hxx",I+"generic/dataset.hxx",I+"generic/sharded_dataset.hxx",I+"compression/blosc_compressor.hxx",I+"compression/zlib_compressor.hxx",I+"compression/xz_compressor.hxx",I+"compression/bzip2_compressor.hxx",I+"compression/lz4_compressor.hxx",I+"compression/zstd_compressor.hxx",I+"compression/raw_compressor.hxx"],
[("header parsing and size checks",I+"util/format_data.hxx"),("shard index bounds + crc check",I+"util/sharding.hxx"),("decompress output bounds",I+"compression/")],
obs=["ASan/UBSan reports","exceptions","file bytes before/after"])
p("C06","Invalid requests are rejected without any side effect",
"A read, write, scalar write or chunk access whose region lies outside the dataset, has a zero or wrapped-around extent, wrong rank, wrong dtype or a mismatching array or chunk size raises an error before anything is changed: neither the files on disk nor the caller's array are modified. Likewise creating a dataset with an invalid specification (rank mismatch, zero or non-dividing shard/chunk shape, unknown dtype or compressor, unsupported codec for the format) raises and leaves the container as it was, and a valid request is never rejected.",
["inputs"],"All offsets, shapes, ranks, dtypes and chunk ids, including values near the integer limits, and all creation specifications.",
"Tests check a few out-of-range slices; the claim covers every coordinate including overflow-prone ones, for every API entry, plus the absence of side effects which tests never look at.",
[I+"dataset.hxx",I+"multiarray/array_access.hxx",I+"generic/dataset.hxx",I+"generic/sharded_dataset.hxx",I+"metadata.hxx",I+"handle.hxx","src/python/lib/dataset.cxx","src/python/module/z5py/dataset.py"],
[("checkRequestShape/checkRequestType/checkChunk",I+"dataset.hxx"),("createDatasetMetadata validation",I+"metadata.hxx")],
obs=["exceptions","directory snapshots","guard values in the caller's array"])
p("C07","Parallel array I/O equals serial I/O and is free of data races",
"Reading, writing or scalar-filling any region with any number of threads gives the same dataset content and the same array as one thread. Threads of one process that use one or several dataset objects on disjoint chunks (disjoint shards when the objects differ), readers of data nobody is writing, and users of different datasets, all at the same time, never race, corrupt each other's data, deadlock or observe anything but the values written.",
["schedules","inputs","configurations"],"All interleavings of concurrent calls on shared dataset handles, thread counts, formats, codecs and regions.",
"Tests compare n_threads=8 with one thread on one shape; races depend on the schedule and remain invisible without a race detector.",
[I+"multiarray/array_access.hxx",I+"multiarray/broadcast.hxx",I+"generic/dataset.hxx",I+"generic/sharded_dataset.hxx",I+"util/threadpool.hxx",I+"compression/","src/python/lib/dataset.cxx"],
[("per-thread buffers in *Mt variants",I+"multiarray/array_access.hxx"),("thread-safe compressors",I+"compression/"),("shardMutex_",I+"generic/sharded_dataset.hxx"),("GIL release around I/O","src/python/lib/dataset.cxx")],
obs=["ThreadSanitizer reports","content after concurrent histories"])
p("C08","Thread pool and for-each run every task exactly once and report errors",
"For every number of threads and tasks, a parallel for-each calls the function exactly once for every item with a thread id below the number of threads, at most one call at a time per thread id, returns only after all calls finished, and runs on the calling thread when one thread is asked for; iterating chunks or blocks visits each chunk of the dataset (or of the region of interest) exactly once. When calls throw, one of the thrown exceptions reaches the caller after the started work has finished and the pool stays usable; enqueued tasks run exactly once with their result or exception delivered through the future, and destruction never deadlocks or leaks a running thread.",
["schedules","inputs","histories"],"All thread counts, item counts, iterator categories, exception positions and schedules.",
"Tests exercise no exceptions, no skewed item counts and only a few thread counts; lost or duplicated items and missed exceptions are schedule- and remainder-dependent.",
[I+"util/threadpool.hxx",I+"util/for_each.hxx"],
[("ThreadPool worker loop/enqueue/destructor",I+"util/threadpool.hxx"),("parallel_foreach_impl block split",I+"util/threadpool.hxx"),("parallel_for_each_chunk / _block",I+"util/for_each.hxx")],
obs=["event log (item, tid, start, end) recorded by the caller's function","ThreadSanitizer"])
p("C09","Failed I/O is always reported and damages nothing else",
"If the operating system refuses or cuts short any file operation (open, read, write, flush on close, mkdir, unlink; ENOSPC, EIO, EACCES) while z5 writes or reads chunks, shards, metadata or attributes, or creates or removes datasets and groups, the call raises instead of returning success unless its full effect is in place: a call that returns normally has stored everything, and a read that returns normally has returned the true data. Chunks, datasets and attributes the failed operation did not target keep their content, and the object stays usable once the condition is gone.",
["fault_sequences","histories"],"Every failing file operation (n-th call, errno, short count) x every operation x format.",
"The tests inject no faults; each I/O call site is a separate failure point.",
[I+"filesystem/store.hxx",I+"filesystem/attributes.hxx",I+"filesystem/metadata.hxx",I+"filesystem/handle.hxx",I+"filesystem/factory.hxx",I+"multiarray/array_access.hxx",I+"util/threadpool.hxx"],
[("stream state checks after write/close",I+"filesystem/store.hxx"),("json write",I+"filesystem/attributes.hxx"),("exceptions propagated from pool tasks",I+"util/threadpool.hxx")],
obs=["interposed libc calls","return value/exception","content re-read by a fault-free process"])
p("C10","Dataset metadata round-trips and unsupported metadata is refused",
"Reopening a dataset gives exactly the shape, chunks, shards, dtype, codec with its options, fill value, key encoding and format it was created with (chunk lengths beyond the shape limited to it by the Python constructors), and opening, reading or writing data never alters the stored metadata. Metadata by other tools that uses features z5 does not support (unknown dtype, byte order, array order, filter, compressor, codec chain, chunk grid or key encoding, non-dividing shards) is refused when the dataset is opened rather than read as wrong data, and containers of format versions it does not support (zarr other than 2 and 3, N5 major versions above 4) are refused by z5py.File, while optional fields that are absent take the format's default and unknown extra fields are ignored.",
["inputs","configurations"],"All dataset specifications and all metadata documents for the three formats.",
"Tests round-trip a few specifications; the option space (dtype x codec x options x fill x separators x shards) and foreign documents are not covered.",
[I+"metadata.hxx",I+"generic/metadata.hxx",I+"filesystem/metadata.hxx",I+"types/types.hxx",I+"factory.hxx",I+"filesystem/factory.hxx","src/python/module/z5py/dataset.py"],
[("toJson*/fromJson* of the metadata",I+"metadata.hxx"),("codec option mapping",I+"types/types.hxx"),("readMetadata dispatch on format",I+"filesystem/metadata.hxx")],
obs=["attributes of the reopened dataset","raw metadata file"])
p("C11","Attributes behave as a persistent dictionary and never touch the metadata",
"For files, groups and datasets of every format, attributes set, updated, read, listed, tested and deleted behave as a dictionary of JSON values: a read returns the last value set with the same type, keys not touched keep their values, deleted and never-set keys are absent, and the same dictionary is seen after reopening. The attributes of one object are independent of every other object's, reserved metadata keys of a dataset cannot be set or deleted and are not listed as attributes, and no attribute operation changes a dataset's metadata or data.",
["histories","inputs"],"All histories of attribute operations over all JSON values and object kinds.",
"Tests set and read a few scalar values on fresh objects; interleavings with metadata living in the same file (N5, Zarr v3), nested/unicode values and deletions are not covered.",
["src/python/module/z5py/attribute_manager.py",I+"attributes.hxx",I+"generic/attributes.hxx",I+"filesystem/attributes.hxx"],
[("read-modify-write of the JSON attribute file",I+"generic/attributes.hxx"),("reserved key protection","src/python/module/z5py/attribute_manager.py")],
obs=["z5py attrs","raw JSON files"])
p("C12","File modes are honoured: read-only never mutates, w- never overwrites",
"Opened in mode 'r' a container is never changed on disk by any operation, through the file, its groups, datasets or attributes: every mutating call raises. 'r' and 'r+' require the container to exist, 'w-'/'x' require that it does not and never touch an existing one, 'a' keeps existing content and creates the container if missing, and 'w' starts from an empty container; an object obtained from a file inherits its mode.",
["inputs","histories"],"All modes x container states x operations x formats.",
"Tests check few (mode, call) pairs and only that an exception is raised, not that the directory is bit-identical.",
[I+"util/file_mode.hxx",I+"filesystem/handle.hxx",I+"handle.hxx",I+"filesystem/attributes.hxx",I+"filesystem/metadata.hxx",I+"generic/dataset.hxx","src/python/module/z5py/file.py","src/python/module/z5py/group.py"],
[("FileMode::canWrite/canCreate/...",I+"util/file_mode.hxx"),("checks in create/remove/write",I+"filesystem/handle.hxx"),("mode handling in File","src/python/module/z5py/file.py")],
obs=["recursive snapshot of the container directory (names, bytes)","exceptions"])
p("C13","Groups and datasets form a consistent persistent hierarchy",
"Any sequence of creating, requiring, opening, listing, visiting, testing and deleting groups and datasets (nested keys included, in every format) behaves like a tree of named nodes: exactly the created and not deleted names exist, membership tests, key lists, length, iteration and visits agree with each other and with what can be opened, nodes open with the kind and specification they were created with, also after reopening or pickling; a visit stops at the first result that is not None and returns it. Creating an existing name raises and changes nothing, require returns the existing node or raises on mismatch, deleting removes that node's subtree and nothing else, and every key denotes a node inside the container: no operation writes or deletes outside the container's directory.",
["histories","inputs"],"All sequences of hierarchy operations over nested keys in every format.",
"Tests build small fixed trees; the claim is over histories (delete and recreate, group vs dataset under one name, nested create, prefix names, leading slashes).",
["src/python/module/z5py/group.py","src/python/module/z5py/file.py",I+"filesystem/handle.hxx",I+"factory.hxx",I+"filesystem/factory.hxx"],
[("Group.create_group/require_group/__getitem__/visititems","src/python/module/z5py/group.py"),("keys/in/remove",I+"filesystem/handle.hxx")],
obs=["z5py API","directory tree"])
p("C14","Dataset indexing follows numpy basic-indexing semantics",
"For every index of integers, slices (steps of one, open, negative, beyond the end), ellipsis, partial tuples and zero-length selections on a dataset, reading returns the same values, shape and dtype as the same index on the equivalent numpy array, and assignment of a scalar or an array of matching shape (up to leading or trailing singleton dimensions) changes the same elements as it would in numpy. Unsupported indices (steps, too many indices, out-of-range integers, index arrays or boolean masks) raise without side effects; a slice start or stop that is more than the axis length below zero selects nothing or raises instead of being clamped. Converting a dataset to a numpy array (also of another type) gives its whole content.",
["inputs","histories"],"All indices x shapes x dtypes x formats; reads and assignments.",
"Tests use some tens of literal indices on one 3-D shape.",
["src/python/module/z5py/shape_utils.py","src/python/module/z5py/dataset.py","src/python/lib/dataset.cxx"],
[("normalize_slices / sliceToStartStop / int_to_start_stop / rectify_shape","src/python/module/z5py/shape_utils.py"),("__getitem__/__setitem__","src/python/module/z5py/dataset.py")],
obs=["z5py.Dataset vs numpy array with the same index"])
p("C15","Chunk-level access agrees with array access, including N5 varlen chunks",
"A chunk written through the chunk interface is returned identically by the chunk interface and by array reads of that region, and the other way round, for every chunk including edge chunks, in every format; reading a missing chunk through the chunk interface reports absence. N5 variable-length chunks return exactly the element sequence written (any length) and are reported as varlen, are never silently presented as array data, and overwriting between varlen and ordinary chunks leaves only the last written form.",
["inputs","histories"],"All chunk positions (interior, edge), dtypes, codecs, formats, varlen lengths and interleavings with array access.",
"Tests write/read one chunk of a fixed dataset and a varlen chunk of one length.",
[I+"generic/dataset.hxx",I+"generic/sharded_dataset.hxx",I+"util/format_data.hxx","src/python/lib/dataset.cxx","src/python/module/z5py/dataset.py"],
[("writeChunk/readChunk with (varlen) header",I+"generic/dataset.hxx"),("data_to_buffer/buffer_to_data, header helpers",I+"util/format_data.hxx")],
obs=["write_chunk/read_chunk/chunk_exists vs array API"])
p("C16","Every codec is lossless within bounds for every input",
"For each compressor (raw, blosc with all its codecs/shuffles, zlib/gzip, bzip2, xz, lz4, zstd) with every accepted option value, every dtype and every input size from one element to many internal buffers, compressible or random, decompression of the compressed bytes yields the input bit for bit, never touches memory outside its buffers, and one compressor object used by many threads at once behaves as in one thread. The stream is a standard stream of that codec that the codec's own library decodes to the same bytes and streams made by that library (other levels, multi-member or multi-block where the format allows) decode in z5.",
["inputs","configurations","schedules"],"All codecs x options x dtypes x sizes x contents; concurrent use of one object.",
"Codec tests use one fixed array size and default levels, so buffer-boundary sizes, incompressible data and foreign streams are not reached.",
[I+"compression/zlib_compressor.hxx",I+"compression/blosc_compressor.hxx",I+"compression/bzip2_compressor.hxx",I+"compression/xz_compressor.hxx",I+"compression/lz4_compressor.hxx",I+"compression/zstd_compressor.hxx",I+"compression/raw_compressor.hxx",I+"generic/dataset.hxx"],
[("compress/decompress with output growth and bounds",I+"compression/")],
obs=["compress/decompress outputs","ASan/UBSan","Python reference codecs"])
p("C17","Chunk geometry is exact for every shape, chunk size and region",
"For every shape, chunk shape and region of interest with coordinates up to the 64-bit range, the set of chunks reported to overlap the region is exactly the set that does; for each, the overlap in chunk and in request coordinates, completeness flag and clipped chunk shape are exact, the overlaps tile the region without gaps or overlap, and linear chunk ids and grid coordinates are inverse to each other. Chunk-iteration helpers and the shapes of chunks and shards derived from this geometry agree with it, with no integer overflow or undefined behaviour.",
["inputs"],"All shapes, chunk shapes, ROIs, ranks 1-6, magnitudes up to the limits of the types.",
"Tests check one or two 3-D blockings with small values.",
[I+"util/blocking.hxx",I+"dataset.hxx",I+"handle.hxx",I+"util/util.hxx",I+"util/sharding.hxx"],
[("Blocking::{getBlocksOverlappingRoi,getCoordinatesInRoi,getBlockShape,...}",I+"util/blocking.hxx"),("Chunk::boundedChunkShape/chunk id",I+"handle.hxx")],
obs=["Blocking queries vs arbitrary-precision reference"])
p("C18","Dataset utilities compute and change exactly what they say",
"For every dataset, unique values and their counts (any thread count) are exactly those of the dataset's elements in the chunks that are stored (absent chunks are skipped, positions outside the dataset's shape never count), removing trivial chunks removes exactly the stored chunks that hold one single value (or the given value when restricted to it) and leaves all others readable, and removing a dataset deletes all of it and nothing else. Parallel chunk/block iteration and multi-threaded removal give the same result as serial ones.",
["inputs","histories","schedules"],"All dataset contents, formats, shapes with edge chunks, and thread counts.",
"Utility tests use one random 3-D dataset with evenly dividing chunks.",
[I+"util/functions.hxx",I+"util/for_each.hxx","src/python/lib/util.cxx"],
[("unique/uniqueWithCounts per-thread merge",I+"util/functions.hxx"),("removeTrivialChunks, removeDataset",I+"util/functions.hxx")],
obs=["utility results vs numpy","directory snapshots"])
p("C19","A writer killed at any point leaves everything else readable",
"If the process dies at any system call while writing a region, creating a dataset or group, setting an attribute or deleting a chunk or dataset, then every chunk, shard, dataset, group and attribute the interrupted operation was not targeting still has its old content, data and metadata of the dataset under write outside the interrupted call's target chunks still read as before, and operations that had returned before the crash are fully visible. Each interrupted target chunk reads as its old value, its new value, or raises an error; repeating the write afterwards succeeds and restores the full content.",
["crash_points","histories"],"Every crash point (each mutating system call) of each operation, all formats, sharded and plain.",
"No test kills a writer; each system call is a separate crash point.",
[I+"filesystem/store.hxx",I+"filesystem/attributes.hxx",I+"filesystem/metadata.hxx",I+"filesystem/factory.hxx",I+"generic/dataset.hxx",I+"generic/sharded_dataset.hxx"],
[("one file per chunk/shard, written by a single stream",I+"filesystem/store.hxx"),("metadata written only at creation",I+"filesystem/factory.hxx")],
obs=["container re-read by a fresh process after the crash"])
p("C20","Object-store containers behave as on disk; request failures are never absence",
"A zarr v2 or v3 container in S3 gives the same results, the same errors and the same stored objects (keys and contents) as the same history of operations on a filesystem container: hierarchy, datasets (plain and sharded), chunks, attributes, file modes, pickling, listings of any length, whatever the page size of the service. It touches no object outside of its key prefix, also not objects whose keys share the prefix as text, and mode 'r' sends no modifying request. If any request fails (server error, denied, network, lost reply, truncated body, one key of a batched deletion), the operation raises or has had its full effect and result; a failure is never read as absence, fill values or an empty listing, no other object changes, and repeating the operation succeeds. The GCS back end is not implemented: each of its operations raises.",
["inputs","histories","fault_sequences"],"All operations of S3File and of the C++ S3 back end on an in-memory service, zarr v2/v3 (n5 through C++), each request of an operation failing in six ways.",
"The tests for these backends need a server and the SDK and do not run here; no test lets a request fail.",
[I+"s3/",I+"gcs/",I+"generic/","src/python/module/z5py/file.py"],
[("low-level object IO, isNotFound",I+"s3/handle.hxx"),("ChunkStore",I+"s3/store.hxx"),("format detection, chunk key configuration",I+"s3/factory.hxx"),("S3File","src/python/module/z5py/file.py")],
obs=["objects of the bucket vs files of the same history","request log of the service","results vs numpy"])
p("C21","Processes sharing a container never see or cause torn or lost data",
"Processes (and their threads) that use one container on a filesystem at the same time, each through objects of its own and with disjoint targets (chunks of plain datasets, shards of sharded ones, names of nodes, attribute documents), all succeed, and the final state is as if they had run one after the other. Whoever reads at the same time sees of every chunk, attribute document and name a state between the last completed and the last started operation on it, never a mixture, damaged data or an older state than seen before; data, metadata and nodes that nobody changes are always seen as they are. Only reading a chunk (shard) whose file is being removed may raise.",
["schedules","histories","inputs"],"Every interleaving of writers, readers and observers in different processes; all formats, sharded and plain.",
"No test runs two processes on one container; the interleavings of file operations decide.",
[I+"filesystem/",I+"generic/dataset.hxx",I+"generic/sharded_dataset.hxx",I+"multiarray/array_access.hxx","src/python/module/z5py/"],
[("files are replaced by renaming",I+"filesystem/replace_file.hxx"),("reading and writing of chunk files",I+"filesystem/store.hxx"),("attribute documents",I+"filesystem/attributes.hxx"),("directories of nodes and chunks",I+"filesystem/handle.hxx")],
obs=["values read vs registers of started and completed operations","final content vs the union of all plans","leftover files"])
p("C22","Operations give back the resources they acquired, also when they fail",
"No operation holds on to what it used: however often reads, writes, chunk and attribute accesses, creation, deletion, listing, opening and pickling are repeated, the process' open file descriptors, threads and heap and the files in the container do not grow with the number of repetitions. This holds for operations that succeed, for those that are refused because of their arguments, mode or metadata, for those that meet damaged chunk, shard or metadata files in any codec, and for those during which system calls fail.",
["histories","inputs","fault_sequences"],"Every operation x outcome (success, refusal, damaged data, I/O fault) x format x codec x thread count, repeated arbitrarily often.",
"Tests run each operation a few times, almost only where it succeeds, and look at results, never at what remains allocated, open or on disk.",
[I+"compression/",I+"filesystem/store.hxx",I+"filesystem/replace_file.hxx",I+"filesystem/metadata.hxx",I+"util/threadpool.hxx","src/python/lib/"],
[("stream contexts of the codecs (init/end)",I+"compression/"),("temporary file removed on failure",I+"filesystem/replace_file.hxx"),("joining of worker threads",I+"util/threadpool.hxx"),("ownership across the Python boundary","src/python/lib/dataset.cxx")],
obs=["/proc/self/fd and /proc/self/task","bytes allocated","files in the container"])
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
