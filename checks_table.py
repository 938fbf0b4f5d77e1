"""Per-property settings of the checks: configurations, level, texts for
MANIFEST.json and the evidence files."""

BOTH = ["native", "pure"]
NAT = ["native"]

# id -> dict(configs, level, technique, rule, note)
T = {}


def add(pid, technique, rule, note, configs=NAT, level="exploration"):
    T[pid] = dict(configs=configs, level=level, technique=technique, rule=rule, note=note)


GEN = "Random cases from seeded proptest strategies (8 shards, ChaCha seeded from VERIF_SEED, property, sub-check and shard), shrunk on failure. "
TRUST = " Bounded by the generated sizes and counts given in the evidence; absence of violations is not a proof."

add("C01", "property-based testing: encode/decode round trip over generated chunks, codecs and stream fragmentation",
    GEN + "Cases: chunk shape (rank 0-8, counts around 256/8192/65536), element type, byte order, codec and parameter, data kind, reader and writer fragmentation, previous buffer size, grid position; through the codec directly and through a filesystem hierarchy. Non-trivial: the chunk has at least one element.",
    "Exact bit comparison of write/read for both codec builds (native C and pure Rust)." + TRUST, BOTH)
add("C02", "property-based differential testing against independently configured codec implementations and a reference byte layout",
    GEN + "Cases as for C01; stored bytes are decoded by a decoder set up in the harness (LZ4: the other implementation of the two in use) and compared with a reference encoding of the elements; bytes encoded by the harness with random valid encoder parameters are read back. Non-trivial: at least one element.",
    "The reference element encoding is 10 lines of harness code; gzip/bzip2/xz decoders are the flate2/bzip2/xz2 libraries called directly." + TRUST, BOTH)
add("C16", "fuzzing by structured mutation of encoded chunks, with a crash, element-count and short-stream oracle",
    GEN + "Cases: an encoded chunk with 1-3 truncations, bit flips, overwritten or inserted bytes, or replaced by random bytes, or read with another codec; well-formed streams one or more bytes too short or too long; damaged chunk files read through the store; chunk shapes of 2^32 and more elements over small stored values. Non-trivial: the bytes differ from the intact value (or the stream length from the chunk's) and the chunk is not empty.",
    "Panics are caught in-process, aborts by the parent process." + TRUST, BOTH)
add("C24", "fault injection: enumerated failure offsets of the sink over generated writes",
    GEN + "Each case is one write (chunk, array, group, attributes, region; any codec) repeated with the sink failing (error, zero-length write, failing flush) after every byte offset (values up to 160 bytes) or at both ends, buffer boundaries and sampled offsets; also with RLIMIT_FSIZE on the real filesystem. Non-trivial: the stored value is not empty.",
    "A success report is checked by reading the accepted bytes back." + TRUST, BOTH, level="fault_enumeration")
add("C30", "property-based testing of typed access against the type-match predicate",
    GEN + "Cases: declared type (core, extension with/without fallback, raw), accessing Rust type (half matching), chunk shape, codec, element-count error; each runs write_chunk, write_ndarray (whole and partial chunk), read_chunk, read_chunk_into and read_ndarray of a stored chunk. Sub-check raw: raw element types of 1-4 bytes through a chunk type of the user's own, writing (with the stored bytes compared) and reading, against declared core, raw and extension types. Sub-check many: 2^32 + n elements as a chunk of n. Every case is non-trivial.",
    "Success must coincide with the type match for every access path." + TRUST)
add("C31", "property-based testing of codec names and configurations, with write/read round trip",
    GEN + "Cases: codec x configuration value over the i64 range (boundaries favoured) or absent, parsed from JSON and, if accepted, used for a round trip; codec names in all letter cases and with edits. Non-trivial: the configuration was accepted, or any name case.",
    "Documented in-range settings must be accepted and work; others may be refused but must not panic or lose data." + TRUST, BOTH)
add("C04", "property-based testing of chunk keys and URIs against a reference key and the files actually created",
    GEN + "Cases: node path (0-3 components, odd names, slash decorations), rank 0-10, coordinates over the u64 range, separator; a second chunk derived by digit moves, reversals, other coordinates or paths for injectivity; on disk, the file created by a write is compared with key and URI, and bytes placed there are read back. Every case is non-trivial.",
    "A fixed set of separators ('/', '.', longer and unusual ones, empty and digits); injectivity is not judged for the last two." + TRUST)
add("C09", "property-based testing of grid geometry against exact 128-bit arithmetic and brute-force element cover",
    GEN + "Cases: array and chunk lengths of rank 0-9, small (every element's chunk enumerated) or over the whole u64/u32 ranges (powers of two and maxima favoured), grid positions around the extent and of other ranks. Counts are compared when they fit 64 bits. Every case is non-trivial.",
    "Chunk lengths of zero are excluded: they define no grid." + TRUST)
add("C10", "property-based testing of coordinate iteration against brute-force enumeration",
    GEN + "Cases: arrays of rank 0-7 and a region (inside, across, outside, empty), small (every chunk filtered element-wise) or with u64 lengths and u32 chunks; every item, the reported length before each item and after the end, nth. Non-trivial: at least one chunk intersects.",
    "Regions whose chunk count exceeds 64 bits are excluded." + TRUST)
add("C11", "property-based testing of box algebra against point sets and exact interval arithmetic",
    GEN + "Cases: pairs of boxes of rank 0-9 over the u64 range (touching, overlapping, disjoint, empty), ends representable; small ones also as explicit point sets obtained by slicing an array. Every case is non-trivial.",
    "Boxes whose end exceeds u64 are excluded." + TRUST)
add("C05", "model-based stateful property-based testing of region and chunk histories",
    GEN + "Cases: an array (rank 0-8, zero-length and huge dimensions, both layouts, separators, five codecs, any type, fill value) and 1-13 operations (region write from C/F/permuted/strided/reversed arrays, chunk write, delete, region read, chunk read) on the in-memory store or the filesystem, against an element map; all elements of the window and all touched and neighbouring chunks are compared at the end. Non-trivial: at least one non-empty region write.",
    "Arrays up to 2^63 elements per dimension, accessed in a window of at most 40." + TRUST)
add("C06", "property-based testing of chunk layout against a reference linearisation, and differential testing against chunks encoded by the harness",
    GEN + "Cases: an array as for C05; chunk views of generated chunks; chunks laid out and placed in the store by the harness read through regions; region writes observed through whole-chunk reads and (raw codec) the stored bytes. Non-trivial: at least two chunk dimensions longer than one (and a stored chunk).",
    "The reference linearisation is 8 lines of harness code." + TRUST)
add("C07", "property-based testing of in-place region reads with sentinel targets",
    GEN + "Cases: a sparse array as for C05 and 1-5 reads (inside, overhanging, outside, empty; C/F/permuted/strided/reversed targets with prior content; no, fresh or shared buffer holding anything); region, target and array mismatches in rank or shape. Non-trivial: a stored element is read, or any mismatch.",
    "Elements of stored chunks beyond the array's edge are not compared: the property leaves them open." + TRUST)
add("C08", "property-based testing of fill value conversion against a reference conversion, and of sparse regions",
    GEN + "Cases: element type x JSON fill value (null, boolean, boundary and random integers, floats, non-finite strings, other strings, arrays, objects), converted alone and in sparse arrays read (also beyond the edge) and partially written. Every conversion is non-trivial; a region case is if the fill value is accepted.",
    "Floats that are not exactly representable may take either neighbouring value; JSON floats for integer types may be refused or taken exactly." + TRUST)
add("C12", "property-based testing: metadata documents stored, loaded and compared with the generated document",
    GEN + "Cases: complete array documents (rank 0-9, u64 lengths, core/raw/extension types, separators, five codecs over their options' ranges, any JSON fill value, extensions, attributes), also with defaults left out, members reordered and other white space; metadata made by the constructor; float fill values and attributes. Every case is non-trivial.",
    "Floats that serde_json's default parser alters are a known finding, listed by an instance and excluded from generation." + TRUST)
add("C13", "property-based testing and enumeration of short data type strings against a reference grammar",
    GEN + "Cases: pairs of characters of a 34-character alphabet, each extended by every one and two further characters; random and edited type strings; other JSON values and extension types; the Rust type of each kind. Every case is non-trivial (JSON strings excepted among the other values).",
    "Spellings the documentation leaves open (byte order on one-byte types, leading zeros, no bits) may be refused or accepted." + TRUST)
add("C14", "fuzzing by structured mutation of metadata documents, with a crash and validity oracle",
    GEN + "Cases: an entry point, array or group document with 1-2 edits (truncation, byte edits, insertions, any value replaced by another type, members dropped, renamed or added, deep nesting, random bytes); every operation that looks at the document is run, and metadata that loads is used (geometry, iteration, keys, fill values, reads). Non-trivial: the entry point is malformed, or the node document differs from the generated one.",
    "Positional JSON arrays in place of objects are not judged." + TRUST)
add("C15", "property-based testing of version and extension acceptance against a reference predicate",
    GEN + "Cases: entry points with numeric versions (1-3 components) or non-version text, extension lists of 0-5 entries, metadata suffixes, populated or not, opened both ways; array documents with extension lists. Every case is non-trivial.",
    "Version requirements (ranges, wildcards, pre-releases) in place of a version are not judged." + TRUST)
HIST = "names that extend, cut or resemble one another and metadata file names, eight metadata key suffixes, three handles, a component-wise and a literal-key in-memory store and the filesystem"
add("C03", "model-based stateful property-based testing of chunk histories over several arrays and handles",
    GEN + "Cases: 1-24 operations, mostly chunk writes, overwrites, deletes and reads on arrays of rank 0-3 (also huge), with " + HIST + ". Every chunk is read back at the end, and the stored files are compared with those of writing each value alone. Non-trivial: at least one chunk write.",
    "Values are compared with a map model." + TRUST)
add("C17", "model-based stateful property-based testing of node creation, existence and removal",
    GEN + "Cases: 1-14 operations (creations, removals, reopenings, attributes) with " + HIST + "; after each, existence of every node, ancestor, relative and look-alike path. Non-trivial: at least two changes.",
    "Creating an array at an implicit group or a node below an array may succeed or fail; emptied directories may remain." + TRUST)
add("C18", "model-based stateful property-based testing of listings",
    GEN + "Cases: 1-14 operations with " + HIST + "; after each, listings of every node, ancestor and, finally, relatives. Non-trivial: at least two changes.",
    "Emptied directories may remain listed on the filesystem." + TRUST)
add("C19", "model-based stateful property-based testing of removal with whole-store comparison",
    GEN + "Cases: 1-16 operations with removals of nodes, subtrees, the root and missing paths, with " + HIST + "; after a removal the store is compared key by key, removed nodes, attributes and chunks are looked for, and finally everything removed is created again. Non-trivial: a removal that removed something and left something (or removed the root).",
    "Paths with '..' components and paths spelled like chunk keys are excluded." + TRUST)
add("C20", "model-based stateful property-based testing of attributes with comparison of the rest of the document and store",
    GEN + "Cases: 1-16 operations setting one or several attributes (any JSON, colliding keys, keys named like metadata fields) on nodes with planted unknown members, with " + HIST + "; float attributes. Non-trivial: attributes set on an existing node.",
    "Floats that serde_json's default parser alters are a known finding, listed by an instance and excluded from generation." + TRUST)
add("C21", "metamorphic property-based testing: the same history in canonical and decorated path spellings, and pairs of different paths",
    GEN + "Cases: 1-14 operations run on two stores, one with leading, trailing and repeated slashes in every path; all results and the stores' contents are compared after each operation. Pairs of paths that differ in a component are used side by side. Non-trivial: a spelling with extra slashes; a pair of different paths.",
    "'.' and '..' components are not judged." + TRUST)
add("C23", "stateful property-based testing with store snapshots around refused and reading operations",
    GEN + "Cases: 1-18 operations of which many must be refused (element type, element count, rank, fill value, existing or missing node, climbing path) or only read or set current attributes, with " + HIST + "; the store is compared byte for byte before and after. Non-trivial: a refused operation or an update to current values took place.",
    "Out-of-grid chunk reads abort by assertion and are excluded." + TRUST)
add("C28", "differential stateful property-based testing of two store implementations in lockstep, with an access log",
    GEN + "Cases: 1-18 operations run on the filesystem store and an in-memory store (component-wise or literal keys, short reads and writes); results and stored contents are compared after each, and each key accessed is checked against those the operation names. Non-trivial: at least two changing operations.",
    "Paths climbing above the root and emptied directories are not compared." + TRUST)
add("C22", "fuzzing of path, prefix, key and separator strings with traps around the hierarchy's root",
    GEN + "Cases: 1-6 of 26 operations on strings of up to 8 components ('..', '.', empty, names, an absolute path outside) and chunk separators containing '..', on a hierarchy 14 directories deep among look-alike documents and chunks; everything outside the root is compared, results are searched for content from outside, URIs are normalised. Non-trivial: the string (or separator) contains '..' or an absolute path.",
    "Run as an unprivileged user; the depth exceeds the number of '..' components. Symbolic links are not followed up." + TRUST)
add("C25", "property-based testing of lock states by probes, held locks and injected schedules around an intercepted flock",
    GEN + "Cases: a chunk, array document or group document (sizes below and above the buffers), 15 operations. held: another party holds a shared or exclusive lock (and replaces the value in pieces) while the operation runs on a thread; use: probes from other file descriptions while a reader, set closure or chunk serialisation is in progress, and after success or failure; load: threads set and read attributes of one document with random pauses at locks. Every case is non-trivial.",
    "Locks are flock locks, as the store uses; the intercepted flock makes the same system call. Values being created for the first time: known finding." + TRUST)
add("C26", "concurrency stress with generated per-thread programs, injected pauses and self-describing values",
    GEN + "Cases: 2-7 threads with 1-11 actions each (write, read, region write of whole chunks, region read) over 1-4 chunks of 1-2 arrays that exist, shared or separate handles, pauses at lock operations and within chunk serialisation, five codecs, chunks up to 40 KB. Non-trivial: several threads write one chunk, or there are readers and writers.",
    "Schedules are sampled. A replay repeats the case 800 times." + TRUST)
add("C27", "model-based stateful property-based testing of the store traits",
    GEN + "Cases: 1-23 operations (set, erase, erase_prefix, get, list, list_prefix, list_dir) on keys of up to 4 components that extend one another, in varied spellings, on the filesystem store and (for the default listing methods) in-memory stores. Non-trivial: a non-empty listing took place.",
    "Setting a key below another key, and emptied directories, are up to the filesystem." + TRUST)
add("C29", "stateful property-based testing of opening and creating over generated sites, with directory snapshots",
    GEN + "Cases: nothing, a missing parent, an empty directory, a directory with other files, a file, or a hierarchy with a valid entry point in varied form; 1-5 open / open_or_create calls (absolute, relative, trailing slash) with content written in between through some handles. Every case in which something is opened, created or refused is non-trivial.",
    "Concurrent creation is judged by C38." + TRUST)
add("C32", "model-based stateful property-based testing among foreign files, links and pipes",
    GEN + "Cases: 1-14 operations on a filesystem hierarchy, before which 1-5 foreign files (names that are not Unicode, hidden, or resemble metadata documents), dangling links, links to outside files and directories and pipes are put into its directories, or directories of nodes or chunks are moved away and replaced by links; after each operation existence, listings, attributes and metadata of all nodes are compared with a model, and foreign entries and everything outside with what they were. Non-trivial: an operation took place with something foreign in place.",
    "Removing a node whose own directory is a link is only judged by the hierarchy's content; an unreadable pipe would show as a hanging case." + TRUST)
add("C33", "concurrency stress with generated per-thread programs and injected pauses at file operations, judged by a clock",
    GEN + "Cases: 2-6 threads with 1-5 actions each (delete, read, test, list, remove, erase by prefix, create beside) over 1-3 chunks of 1-2 arrays, shared or separate handles, with pauses before opening, locking, unlinking and removing directories. An observation is compared with when each removal began and ended. Non-trivial: several threads remove one chunk, or something is removed and looked at.",
    "Schedules are sampled. A replay repeats the case 800 times. Nothing is written to a chunk that is removed: its first value is not atomic (known finding of C25)." + TRUST)
add("C34", "model-based property-based testing of region operations among damaged chunks, with an access log",
    GEN + "Cases: an array as for C05 with some chunks stored, of which some are replaced by values with too few elements, and 1-4 region reads (new array, view, shared buffer) and writes (all memory orders, overhanging or not), in memory (with an access log) or on the filesystem; the store is compared key by key after each. Non-trivial: a write of at least one element, or a read with damaged chunks in or beside it.",
    "Whether a chunk at the edge, of which all elements inside the array are written, is read is left open." + TRUST)
add("C35", "fault injection: enumeration of failing system calls under generated operations, by interposed libc calls",
    GEN + "Each case is one of 31 operations (every trait method of hierarchies and stores) on a generated filesystem hierarchy, with one of seven errno values: first it runs undisturbed, counting its calls (stat, open, read, write, truncate, flock, unlink, rmdir, mkdir, opendir, readdir); then it is repeated on the same tree with the first, second, ... call failing (once, or that and all later calls), for operations of over 40 calls a sample of them; half of the cases also run with short reads and writes. Non-trivial: the operation makes at least one of these calls.",
    "Failures of close, and of following a symbolic link while listing, are not injected." + TRUST, level="fault_enumeration")
add("C36", "property-based testing of all operations on a hierarchy without write permission against the same with permission",
    GEN + "Cases: a generated hierarchy and 1-11 operations (as for C35), each run first with permission (the tree restored after it) and then with every file 0444 and directory 0555, as an unprivileged user; the tree is compared after each. Non-trivial: an operation that reads, or that changes the tree with permission.",
    "Run as an unprivileged user; the check fails to start if it has permission." + TRUST)
add("C37", "differential property-based testing of stored streams against encoders configured here",
    GEN + "Cases: gzip, bzip2, LZ4 or xz with a setting in its documented range (or the default), created directly or loaded from a hierarchy, and 2-40 KB of text with repetitions; the setting shown in the stored stream's header and the stream's size are compared with those of an encoder configured in the harness. Every case is non-trivial.",
    "The size may differ slightly, as encoders divide their input differently. Of LZ4, only the maximum block size is compared." + TRUST, BOTH)
add("C38", "concurrency stress with generated per-thread programs, and enumerated preemption of one creation by another at intercepted system calls",
    GEN + "crowd: 2-7 threads open_or_create a hierarchy (nothing there, an empty directory, an entry point without content, a hierarchy with another suffix), then open it again and create 0-5 groups, arrays (shared paths, each thread's own metadata) and nodes of their own with attributes and a chunk, with random pauses at file operations; judged by a clock and by the final tree. step: an opening or creation with another one run just before its n-th system call. Non-trivial: all of crowd; of step, those where the call is reached.",
    "A group that another thread is creating may be seen without content (known finding of C25). Creating a group and an array at one path at once is not judged. A replay of crowd repeats the case 800 times." + TRUST)
add("C39", "enumerated preemption of one operation by another at intercepted system calls, judged against both sequential orders",
    GEN + "Each case is a pair of operations (of 30 kinds, as for C35) on a generated filesystem hierarchy. Both orders are run first; then, for every system call of the first operation (a sample if over 40), the tree is restored and the second operation, through another handle, runs on another thread just before that call, until it ends or waits for a lock. If each changes at most one key, results and the store must be those of one of the orders; otherwise neither may fail unless it does in an order, reads of single keys give the answer of an order, and each key has its value of an order. Non-trivial: at least one of the operations changes something and the pair is judged.",
    "Not judged: pairs that change the same key, unless both overwrite or remove it; creations in directories that the other removes; a reader may see a first value empty (known finding of C25). One preemption per run." + TRUST)
add("C40", "crash-point enumeration: the stored state between any two system calls of generated operations, examined and continued by another handle",
    GEN + "Each case is one of 14 changing operations on a generated filesystem hierarchy, run once; whenever a system call may have changed something, the whole tree is recorded before the next call (a sample if over 24 states), and once more with a long write cut between pages. Each recorded state is put in place, compared file by file with the states before and after the operation, asked everything about all nodes and chunks, and the operation is run again on it. Non-trivial: at least one intermediate state.",
    "The end of the process, not of the machine: what a completed system call stored stays stored. A value being written may be incomplete, if reading it is an error." + TRUST, level="fault_enumeration")
NOT_APPLICABLE = {}
