#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

LIB, ST, FS, CH, DT, ND, CO = ("src/lib.rs", "src/storage.rs", "src/store/filesystem.rs",
    "src/chunk.rs", "src/data_type.rs", "src/ndarray.rs", "src/compression/mod.rs")
CODECS = [CO] + ["src/compression/%s.rs" % c for c in ("raw", "gzip", "bzip", "lz", "lz_pure", "xz")]

p("C01", "A written chunk reads back bit-for-bit, for every type, byte order and codec",
  "For every supported element type, declared byte order, chunk shape (including zero dimensions) and compression codec with any valid configuration, a chunk that was written successfully reads back with exactly the same element bits and the same grid position. This holds whether it is read into a fresh chunk, into a reused chunk buffer of any previous size, or into a caller-provided slice, and from any reader or into any writer that delivers or accepts its bytes in arbitrarily small pieces.",
  ["inputs", "configurations"],
  "all element types x byte orders x chunk shapes and lengths x codecs and their parameters x element values (incl. NaN payloads) x reader/writer fragmentation x enabled codec implementations (native and pure-Rust)",
  "The tests round-trip native-endian random data for a handful of shapes with default codec settings only; batching boundaries, declared non-native byte orders, codec parameters, large chunks, reused buffers and fragmented IO are not reached.",
  [CH] + CODECS,
  [("vec_data_chunk_impl! read_data/write_data", CH), ("DefaultChunkReader/DefaultChunkWriter", CH), ("Compression::encoder/decoder", CO)],
  ["DefaultChunkWriter::write_chunk", "DefaultChunkReader::read_chunk", "HierarchyWriter::write_chunk", "HierarchyReader::read_chunk", "read_chunk_into"])

p("C02", "Stored chunk bytes are exactly the declared encoding, readable by others",
  "The bytes stored for a chunk, decompressed by an independent implementation of the declared codec, are exactly the chunk's elements in order, each in the array's declared byte order (booleans as one byte 0 or 1), with no header, padding or trailing data. Conversely a chunk stored by an independent encoder with those conventions, using any valid codec parameters, is read back as exactly those elements (a boolean is true unless its byte is 0).",
  ["inputs", "configurations"],
  "all element types x byte orders x element values x codecs and parameters, in both directions against independent encoders/decoders",
  "A few fixed 12-byte big-endian i16 vectors are compared per codec; other types, the little-endian and f16/bool/64-bit paths, non-default parameters and longer data are not.",
  [CH] + CODECS,
  [("write_data/read_data per element type", CH), ("encoder/decoder", CO)],
  ["stored chunk value", "read_chunk"])

p("C03", "Chunks form a map from (array, grid coordinate) to chunk value",
  "Over any history of chunk writes, overwrites, deletes and reads on any number of arrays, through any mix of handles on the same hierarchy, reading a grid coordinate returns the last chunk successfully written there, or nothing if it was never written or has since been deleted; no operation on one coordinate or array affects any other. Deleting reports that the chunk is absent afterwards and is idempotent. Overwriting with a smaller encoding leaves no trace of the old value.",
  ["histories", "inputs"],
  "all sequences of write/overwrite/delete/read/reopen over several arrays, ranks, separators, coordinates up to large values, and codecs",
  "The tests write one chunk, read it and delete it; multi-chunk histories, aliasing between coordinates or arrays, overwrite length changes and several handles are not reached.",
  [ST, FS, CH],
  [("get_chunk_key", ST), ("write_chunk/read_chunk/delete_chunk", ST), ("set (truncate after lock)", FS), ("erase", FS)],
  ["HierarchyReader::read_chunk", "HierarchyWriter::write_chunk", "HierarchyWriter::delete_chunk"])

p("C04", "Chunk keys are canonical, injective, and where the chunk is stored",
  "The storage key of a chunk is the data root, the node path, and 'c' followed by the decimal grid coordinates joined by the array's declared separator; distinct (array, coordinate) pairs get distinct keys. The chunk URI names the file under the hierarchy's root in which that chunk is actually stored, whether or not it exists yet.",
  ["inputs"],
  "all node paths, ranks 0 to above 6, coordinates over the full u64 range, separators '/' and '.'",
  "Two literal keys and one literal URI are checked; ranks above the inline capacity, the '.' separator, large coordinates, the root node and the actual file location are not.",
  [ST, FS],
  [("get_chunk_key", ST), ("FilesystemHierarchy::uri/get_path", FS)],
  ["get_chunk_key", "HierarchyReader::get_chunk_uri", "files under the hierarchy root"])

p("C05", "Region reads return the last value written to each element",
  "After any history of region writes (at any in-bounds offset and shape, aligned to chunks or not, from arrays of any memory order) interleaved with whole-chunk writes and deletes, reading any region returns, for every element inside the array, the last value written to it, or the fill value if none was written since its chunk was last deleted. Elements outside a written region, in the same or other chunks, are never altered, and this holds for both chunk memory layouts.",
  ["histories", "inputs"],
  "all array/chunk shapes of rank 0..5 (incl. zero-length and huge extents), memory layouts, source strides, regions, and sequences of region writes, chunk writes and deletes",
  "One aligned-ish region is written once to an empty array and read back in one layout; overlapping partial writes over existing chunks, row-major arrays, fill values and deletes are never combined.",
  [ND, ST, CH],
  [("write_ndarray read-modify-write of partial chunks", ND), ("read_ndarray_into_with_buffer", ND), ("bounded_coord_iter", ND)],
  ["ZarrNdarrayReader::read_ndarray", "ZarrNdarrayWriter::write_ndarray"])

p("C06", "In-chunk element order follows the declared memory layout",
  "The element at a given coordinate inside a chunk is stored at the linear position given by the array's declared layout: last dimension fastest for \"C\", first dimension fastest for \"F\". This holds identically for region writes observed through whole-chunk reads, whole-chunk writes observed through region reads, and for the array views of a chunk, and a full-array read of chunks produced by another implementation yields each element at its coordinate.",
  ["inputs", "configurations"],
  "all ranks, chunk shapes, layouts, regions, and element types",
  "Only one column-major literal pattern and one row-major fixture exist; rectangular chunks of several ranks in both layouts and partial regions are not covered.",
  [ND, CH, LIB],
  [("shape_ndarray_shape / as_ndarray / into_ndarray", ND), ("extend_from_array in write_ndarray", ND)],
  ["read_chunk", "read_ndarray", "write_chunk", "write_ndarray", "SliceDataChunk::as_ndarray", "VecDataChunk::into_ndarray"])

p("C07", "Reading into an existing array fills only stored in-bounds elements",
  "Reading a region into a caller's array of any memory order or strides sets exactly the in-bounds elements whose chunks are stored to their values and leaves every element belonging to an unstored chunk at its prior value (region elements beyond the array's edge in a stored chunk are unspecified); with a reusable chunk buffer, whatever it held before, the result is the same. A region whose rank or shape differs from the array's or target's is rejected with an error and the target is left unchanged; elements of the caller's storage outside the view are never touched.",
  ["inputs", "histories"],
  "all regions (aligned, partial, overhanging the array, fully outside, empty), target orders and strides, sparsity patterns, buffer states, sequences of reads sharing one buffer",
  "One C-ordered zero target over fully stored chunks and one out-of-bounds read are tested; sparse chunks, strided targets, stale buffers and regions outside the array are not.",
  [ND],
  [("read_ndarray_into / read_ndarray_into_with_buffer", ND), ("BoundingBox::intersect", ND)],
  ["ZarrNdarrayReader::read_ndarray_into", "read_ndarray_into_with_buffer"])

p("C08", "Unwritten elements take the declared fill value, for every element type",
  "The effective fill value of an array is the metadata's fill value converted to the element type by numeric value (floats including half precision, and the strings \"NaN\", \"Infinity\", \"-Infinity\"), or zero/false when it is null or absent. Region reads return it for every element of a chunk that is not stored, including elements of the requested region beyond the array, and a region write into an unstored chunk stores it for the chunk's remaining elements; a fill value the element type cannot represent is an error, never a wrapped or altered value.",
  ["inputs", "configurations"],
  "all element types x fill values (null, absent, in range, boundary, out of range, wrong JSON kind, non-finite strings) x sparse regions",
  "No test reads an element through a non-null fill value; metadata with a \"NaN\" fill is parsed but never used.",
  [LIB, ND, DT],
  [("get_effective_fill_value", LIB), ("read_ndarray Array::from_elem", ND), ("write_ndarray missing-chunk branch", ND)],
  ["ArrayMetadata::get_effective_fill_value", "read_ndarray", "write_ndarray then read_chunk"])

p("C09", "Chunk grid geometry is exact for every shape",
  "For every array and chunk shape, the grid extent in each dimension is the ceiling of array length over chunk length, the chunk count is their product, and a grid position is in bounds exactly when its rank matches and each coordinate is below the extent. Every array element lies in exactly one in-bounds chunk's bounds, and element and chunk-element counts are the products of the shapes.",
  ["inputs"],
  "all ranks (0 to above 6), array lengths over the u64 range incl. 0, chunk lengths from 1 to u32::MAX, grid positions near and far from the boundary",
  "One 3-d example with one in-bounds and one out-of-bounds position is checked.",
  [LIB, ND],
  [("u64_ceil_div / get_grid_extent / get_num_chunks / in_bounds", LIB), ("get_chunk_bounds", ND)],
  ["ArrayMetadata::get_grid_extent", "get_num_chunks", "in_bounds", "get_chunk_bounds", "get_num_elements", "get_chunk_num_elements"])

p("C10", "Chunk iteration visits exactly the chunks that intersect, once, in order",
  "Iterating all chunk coordinates yields every in-bounds grid position exactly once in row-major order; iterating the coordinates of a region yields exactly those in-bounds chunks that contain an element of both the region and the array, and nothing when that intersection is empty. At every point of the iteration the reported remaining length equals the number of coordinates still to come, including after the last one.",
  ["inputs"],
  "all shapes and ranks (incl. rank 0 and zero-length dimensions) and regions inside, overhanging, touching, empty and outside the array",
  "One 3-d full iteration compared as a set; region iteration, order, length accounting, empty and outside regions are untested.",
  [ND],
  [("coord_iter / bounded_coord_iter / CoordIterator", ND)],
  ["ArrayMetadata::coord_iter", "ArrayMetadata::bounded_coord_iter"])

p("C11", "Bounding-box intersection, union and translation are exact set geometry",
  "Intersecting boxes gives exactly the set of common elements (and reports empty when there are none, regardless of argument order); the union of non-empty boxes is the smallest box containing both; ends, shape conversions and slice conversions agree with offset and shape; subtracting an offset translates the box without changing its shape.",
  ["inputs"],
  "all pairs of boxes of equal rank, incl. empty, touching, nested, disjoint and large offsets",
  "One 2-d example each for intersect and union.",
  [ND],
  [("BoundingBox::intersect/union/end/is_empty/Sub/to_ndarray_slice", ND)],
  ["BoundingBox public API"])

p("C12", "Array metadata survives store round-trips and matches the documented JSON",
  "Any array metadata (with chunk lengths of at least one), stored by creating an array and loaded through any handle, equals what was stored: shape, chunk shape, separator, memory layout, data type (core, raw or extension with fallback), compressor and its configuration, fill value, extensions and attributes; what could not be loaded again is refused. The stored document uses the documented field names and values (the compressor is omitted exactly when it is the default, and an absent compressor, compressor option or fill value reads as its default), so an independently written document loads to the same metadata.",
  ["inputs", "configurations"],
  "all shapes, ranks, data types incl. raw and extension types, codecs and configurations, fill values, attributes and optional fields present or absent",
  "One document is parsed and one metadata value round-tripped; raw and extension types, layouts, separators, codec configurations and optional fields are not.",
  [LIB, DT, ST] + CODECS,
  [("serde derives on ArrayMetadata / CompressionType / Order", LIB), ("create_array / get_array_metadata", ST)],
  ["HierarchyWriter::create_array", "HierarchyReader::get_array_metadata", "stored metadata document"])

p("C13", "Data type strings round-trip and every other string is rejected",
  "Every core data type serializes to its documented string (bool; i1/u1; [<>] with i/u/f and size; r<bits>) and parses back to the same type, element size and byte order; sizes match the Rust type that reads them. Every string that is not a valid data type is rejected with an error and never aborts the program.",
  ["inputs"],
  "all data types, all short strings over the relevant alphabet, arbitrary unicode strings, and JSON values of other kinds",
  "Three valid strings are parsed; serialization, raw types and every invalid string are untested.",
  [DT],
  [("Serialize/Deserialize for DataType", DT), ("size_of / endian / data_type_match!", DT)],
  ["serde_json to/from DataType and ExtensibleDataType", "DataType::size_of", "DataType::endian", "effective_type"])

p("C14", "Malformed metadata is reported as an error and never aborts",
  "Whatever bytes are stored as the entry point, array metadata or group metadata document, opening the hierarchy, loading metadata, testing existence, reading or setting attributes, listing and creating nodes either succeed or return an error, and never panic. An entry point or array metadata document that is malformed or lacks a required field (or declares a chunk length of zero) is never accepted as if it were complete, metadata that loads can be used for geometry queries and reads without a panic, and attributes are neither listed from nor set in a node document that is not a JSON object.",
  ["inputs", "fault_sequences"],
  "arbitrary bytes, truncations, mutations and type-confused variants of valid documents for all three document kinds",
  "No test feeds an invalid document.",
  [LIB, ST, FS, DT],
  [("serde_json::from_reader in get_array_metadata / list_attributes / set_attributes", ST), ("read_entry_point_metadata", FS), ("DataTypeVisitor", DT)],
  ["FilesystemHierarchy::open/open_or_create", "get_array_metadata", "list_attributes", "set_attributes", "exists", "array_exists"])

p("C15", "Unsupported versions and must-understand extensions are refused",
  "A hierarchy opens exactly when its entry point declares a format version compatible with the supported one and no extension that must be understood; array metadata loads only if it carries no must-understand extension. Optional unknown extensions are ignored and preserved; a refused open modifies nothing on disk.",
  ["inputs", "configurations"],
  "all version suffixes, extension lists (positions, counts, must_understand combinations), for open, open_or_create and array loading",
  "No test has any extension or a non-3.0 version.",
  [LIB, FS, ST],
  [("must_understand checks", FS), ("get_array_metadata extension check", ST), ("get_version / VERSION", LIB)],
  ["FilesystemHierarchy::open", "open_or_create", "get_version", "get_array_metadata"])

p("C16", "Damaged or truncated chunk data is an error or data, never an abort",
  "Reading a chunk whose stored bytes are truncated, corrupted, empty or arbitrary either returns an error or a chunk of exactly the declared number of elements, and never panics; when the decompressed stream holds fewer bytes than the chunk needs, or the array declares chunks of more elements than a chunk can count, an error is always returned. A failed read leaves the store unchanged and later reads of other chunks unaffected; a region write that needs to read such a chunk fails and leaves it as it is.",
  ["inputs", "fault_sequences"],
  "all codecs, element types, truncation points, bit flips and arbitrary byte strings; both codec implementations",
  "Only an empty raw buffer is read in one test.",
  [CH] + CODECS,
  [("DefaultChunkReader::read_chunk / read_exact", CH), ("decoder construction", CO)],
  ["read_chunk", "read_chunk_into", "read_ndarray"])

p("C17", "Node creation and existence follow a simple model over any history",
  "Over any history of group and array creations, removals and reopenings, a path exists exactly when a group or array was created there, or at some descendant (an implicit group), and not removed since; it is an array exactly when an array was created there. Creating a group again is a no-op that keeps its attributes; creating an array where a node exists, or a group where an array exists, fails and changes nothing; parents never need to exist, and sibling names that extend one another do not interfere. (A parent directory emptied by removals may remain on the filesystem as an empty implicit group.)",
  ["histories", "inputs"],
  "all sequences of create_group/create_array/remove/exists/array_exists/reopen over nested paths incl. the root, names with dots, unicode, and names that are prefixes of one another",
  "A single create per backend is tested; conflicts, implicit parents, dotted or prefix-related names and histories are not.",
  [ST, FS, LIB],
  [("create_group / create_array / exists", ST), ("array_metadata_key / group_metadata_key / add_extension", LIB)],
  ["HierarchyReader::exists", "array_exists", "create_group", "create_array"])

p("C18", "Listing a group returns exactly its children",
  "Listing a path returns, without duplicates, exactly the names of the nodes that are its direct children: explicit groups, arrays and implicit groups implied by deeper nodes; it never returns metadata file names, truncated names, grandchildren or nodes of other groups. This holds for the root and for any metadata key suffix the entry point declares. (A parent directory emptied by removals may remain on the filesystem as an empty implicit group.)",
  ["histories", "inputs", "configurations"],
  "all tree shapes, name lengths and characters (dots, prefixes of one another, names ending in array/group), metadata key suffixes, and creation/removal histories",
  "The only listing test lists one symlinked directory; no explicit node is ever listed.",
  [ST, FS],
  [("list_nodes", ST), ("list_dir", FS)],
  ["HierarchyLister::list_nodes"])

p("C19", "Removing a node removes its whole subtree and nothing else",
  "After removing a path, neither it nor any descendant exists, none of their chunks or attributes can be read, and re-creating any of them starts empty; every node, attribute and chunk outside that subtree, including siblings whose names extend the removed name and ancestors, is unchanged. Removing the root (remove_all) leaves no node or chunk behind but keeps the hierarchy openable; removing a missing path changes nothing.",
  ["histories"],
  "all trees of groups and arrays with chunks and attributes, all removal targets, repeated and interleaved with re-creation",
  "remove is called once in a test for cleanup, with nothing checked afterwards.",
  [ST, FS, LIB],
  [("HierarchyWriter::remove / remove_all", ST), ("erase / erase_prefix", FS)],
  ["remove", "remove_all", "exists", "read_chunk", "list_attributes", "list_nodes"])

p("C20", "Attributes merge by top-level key and survive everything else",
  "A node's attributes equal the top-level-key merge, in order, of everything set on it since creation (values exact, nested objects replaced not merged), starting from those given at creation. Setting attributes changes nothing else: array shape, type, chunking, compressor, fill value, extensions, unknown metadata fields, chunks and other nodes keep their values; attributes that could not be loaded again are refused; setting or listing on a node that does not exist is an error that creates nothing.",
  ["histories", "inputs"],
  "all sequences of set_attribute/set_attributes over groups and arrays with arbitrary JSON values, unicode and empty keys, interleaved with reopen, chunk IO and other nodes' updates",
  "One literal sequence of merges is tested on one group and one array; preservation of the rest of the metadata is not.",
  [ST],
  [("set_attributes / merge_top_level / list_attributes", ST)],
  ["list_attributes", "set_attribute", "set_attributes", "get_array_metadata"])

p("C21", "Equivalent path spellings name the same node",
  "Leading, trailing and repeated slashes in a path never change which node, metadata document, chunk or listing it names, for every operation that takes a path; paths that differ in any component name different nodes.",
  ["inputs"],
  "all paths and slash decorations, over every path-taking operation, each pair of operations using different spellings",
  "Two spellings of one path are checked for two read operations.",
  [LIB, ST, FS],
  [("canonicalize_path", LIB), ("get_path component normalization", FS)],
  ["all HierarchyReader/Writer/Lister operations"])

p("C22", "No path or key reaches outside the hierarchy's root directory",
  "For every path, prefix or key string given to any operation of a filesystem hierarchy, any file or directory read, listed, created, modified or deleted, and any URI returned, lies lexically inside the hierarchy's root; a string whose '..' components would at any point climb above the root is refused with an error and has no effect on anything outside it.",
  ["inputs"],
  "all path strings with any mix of '..', '.', slashes, absolute prefixes and ordinary components, over every store and hierarchy operation",
  "Six literal keys are checked on a private helper; paths that climb out and back in, or that start by climbing, are not.",
  [FS, LIB],
  [("FilesystemHierarchy::get_path", FS)],
  ["ReadableStore/WriteableStore/ListableStore::* on FilesystemHierarchy", "Hierarchy operations", "the directory tree around the root"])

p("C23", "Rejected operations and reads leave the store byte-identical",
  "An operation that is refused because of its arguments (wrong element type, wrong number of elements, node already exists, node missing, wrong rank, invalid path or fill value) leaves every stored document and chunk byte-for-byte as it was, including the one it targeted. Reading, listing, existence tests, opening an existing hierarchy and setting attributes to their current values never change the store either.",
  ["inputs", "histories"],
  "all refused or read-only operations applied to arbitrary populated stores",
  "Tests check that some operations return an error but never what the store holds afterwards.",
  [ST, CH, FS],
  [("element type and count checks before the store is opened for writing", ST), ("check_array_type / write_chunk length check", CH), ("set", FS)],
  ["full content of the store before and after"])

p("C24", "A write that reports success has stored everything",
  "If the underlying writer or filesystem fails at any byte while a chunk, metadata document or attribute update is being written, including in the final flush of the codec or buffer, the operation returns an error and does not panic; when it returns success, every byte has been accepted and the value reads back complete.",
  ["fault_sequences", "inputs"],
  "all codecs, element types and sizes x every byte offset at which the sink starts failing (or accepting zero bytes) x chunk, array, group and attribute writes, incl. file size limits on the real filesystem",
  "No test injects a write error.",
  [CH, ST, FS, "src/compression/lz.rs"],
  [("DefaultChunkWriter::write_chunk finishing the encoder", CH), ("set closures flushing their buffered writer", ST), ("Drop-finished encoders", "src/compression/lz.rs")],
  ["write_chunk", "create_array", "create_group", "set_attributes", "write_ndarray over failing sinks"])

p("C25", "Values are locked while read or written, so no partial value is seen",
  "On the filesystem store a value (chunk or node metadata document) read through the store is held under a shared lock and a value being written, replaced or erased under an exclusive one, for as long as the reader or writer is in use: while another party holds a conflicting lock, readers do not return data, and writers and erasers do not change, truncate or unlink the value. Readers do not exclude one another, and locks are released when the operation ends, also when it fails.",
  ["schedules", "histories"],
  "all pairs of (lock held by another party, operation attempted) over chunk, metadata, attribute and removal operations, and histories of operations with interposed lock probes",
  "The tests are single-threaded and never hold a lock.",
  [FS],
  [("lock_shared in get", FS), ("lock_exclusive then set_len in set", FS), ("lock_exclusive in erase / erase_prefix", FS)],
  ["advisory lock state of the value's file", "file content while a lock is held"])

p("C26", "Concurrent chunk access from many threads loses and mixes nothing",
  "When any number of threads write and read chunks of the same arrays through shared or separate handles, every read of an existing chunk returns one complete written value that had not been replaced by a later write before the read began, writes to different chunks never affect each other, and after all threads finish each chunk holds exactly the last value one of its writers wrote.",
  ["schedules", "histories"],
  "all assignments of chunk writes/reads/region writes to threads over shared and separate handles, codecs and value sizes (interleavings sampled from the OS scheduler)",
  "No test uses more than one thread.",
  [FS, ST, ND],
  [("file locks in get/set", FS), ("create_dir_all for concurrent parents", FS)],
  ["read_chunk", "write_chunk", "final content of each chunk"])

p("C27", "Store listing enumerates exactly the keys present",
  "Over any history of store writes and erasures, listing everything or a directory prefix returns each present key under it exactly once, spelled so that it can be read back, and listing one level returns exactly the keys and sub-prefixes directly under it; erasing a prefix removes exactly the keys under it, erasing a key removes exactly that key, and both report absence truthfully and idempotently.",
  ["histories", "inputs"],
  "all sets of keys of any depth, prefixes with and without trailing slash, set/erase/erase_prefix histories",
  "No test calls list, list_prefix, list_dir or erase_prefix directly.",
  [ST, FS],
  [("ListableStore::list/list_prefix", ST), ("list_dir / erase / erase_prefix", FS)],
  ["ListableStore, ReadableStore and WriteableStore methods of FilesystemHierarchy"])

p("C28", "Hierarchy semantics do not depend on the storage backend",
  "Any history of hierarchy, chunk and region operations gives the same results (values, presence, success or failure) on any conforming implementation of the store traits as on the filesystem store, and leaves the same keys with equivalent content. Each operation reads and writes only the keys of the nodes and chunks it names.",
  ["histories", "configurations"],
  "all operation histories, run in lockstep over an in-memory store and the filesystem store, with the in-memory store recording every key touched",
  "Only the filesystem store is tested.",
  [ST, LIB, ND],
  [("blanket HierarchyReader/Writer/Lister implementations over store traits", ST)],
  ["operation results on both stores", "recorded key accesses"])

p("C29", "Opening and creating hierarchies is idempotent and preserves content",
  "Creating a hierarchy at a path without one writes an entry point document that declares the supported format, after which it can be opened by any handle; opening or creating over an existing hierarchy leaves every file byte-identical and gives a handle that sees everything previously written. Opening a path that holds no hierarchy fails and creates nothing.",
  ["histories", "inputs"],
  "all pre-existing directory states (missing, nested missing, empty, unrelated files, populated hierarchy, custom suffix/extensions), and sequences of open/open_or_create between other operations",
  "One create followed by one open is tested.",
  [FS, LIB],
  [("open / open_or_create / read_entry_point_metadata", FS), ("EntryPointMetadata::default", LIB)],
  ["FilesystemHierarchy::open", "FilesystemHierarchy::open_or_create", "zarr.json"])

p("C30", "Typed access is allowed exactly when the element type matches",
  "Writing chunks or regions, or reading stored ones, with a Rust element type succeeds only if the array's effective data type (the core type, or an extension type's fallback) has the same kind and width, in either byte order; every other combination is refused with an error for every codec, as is any access to an extension type without a fallback. A chunk whose element count differs from the chunk shape's product is refused, however large either is.",
  ["inputs", "configurations"],
  "all ordered pairs of (declared type incl. raw and extension types, accessing Rust type), byte orders and element counts",
  "No test reads or writes with a mismatched type; one short write is checked.",
  [CH, DT],
  [("check_array_type / eq_modulo_endian", CH), ("effective_type", DT)],
  ["read_chunk", "read_chunk_into", "write_chunk", "read_ndarray", "write_ndarray"])

p("C31", "Codec names and configurations are stable, defaulted and always usable",
  "Every enabled codec prints a name that parses back (in any letter case) to that codec with default settings, and unknown names are errors. Every configuration accepted from metadata, including omitted options and out-of-range numbers, either yields a working lossless codec or an error when used, and never panics.",
  ["inputs", "configurations"],
  "all codecs, names and letter cases, configuration values over the whole integer range, both feature configurations",
  "Only default configurations are used; names and parsing are untested.",
  CODECS,
  [("Display / FromStr / Default for CompressionType", CO), ("effective level/block size", "src/compression/gzip.rs")],
  ["CompressionType Display/FromStr/serde", "write_chunk/read_chunk with each configuration"])

p("C32", "Foreign files and symbolic links do not disturb a filesystem hierarchy",
  "Files in a filesystem hierarchy's directories that are neither documents nor chunks (editor backups, hidden files, names that are not Unicode, pipes, symbolic links that lead nowhere) never make an operation on nodes or chunks fail or panic, never appear as nodes, and stay as they are until a node above them is removed. Directories of nodes and chunks that are reached through a symbolic link behave as if they were in its place. Removing a node also removes foreign files and links below it, and never changes or removes what those links lead to.",
  ["inputs", "histories"],
  "all placements of foreign files, links, pipes and relocated directories over any tree, interleaved with any history of node, attribute and chunk operations",
  "One test lists one symbolic link to an array; foreign files, dangling links and removal of links are not tested.",
  [FS, ST],
  [("list_dir / erase_prefix", FS), ("list_nodes / remove", ST)],
  ["list_nodes", "exists", "remove", "delete_chunk", "read_chunk", "list / list_prefix", "the directories around the hierarchy"])

p("C33", "Concurrent removal never fails, resurrects or invents anything",
  "When any number of threads delete chunks, remove arrays or groups, erase prefixes, read, test and list the same nodes through shared or separate handles while others create nodes beside them, no operation fails because of another (a lookup of a removed node's metadata may report that it is missing): a read returns the chunk's complete value or nothing, never the value once a removal has ended, never nothing before one has begun; deletion reports absence; listings contain everything that is not being removed; and at the end exactly what nobody removed is left.",
  ["schedules", "histories"],
  "all interleavings of removals, deletions, reads, existence tests, listings and creations of sibling nodes over chunks and nodes that are not rewritten",
  "No test removes anything concurrently.",
  [FS, ST],
  [("get / erase / erase_prefix / list_dir", FS), ("remove / delete_chunk", ST)],
  ["delete_chunk", "remove", "erase_prefix", "read_chunk", "read_ndarray", "list_nodes", "list_prefix", "exists"])

p("C34", "Region operations touch exactly the chunks they intersect",
  "Reading a region changes nothing and depends only on the chunks holding an element of the region that lies in the array: whatever else is stored, damaged values included, it succeeds with the same result; if one of the region's own chunks can not be decoded, it fails rather than return anything. Writing a region stores only chunks holding such an element, each with the new elements in place and the others kept, and depends on the previous value of a chunk only if part of that chunk is not overwritten: a damaged chunk that is overwritten entirely is replaced. If the previous value that is needed can not be decoded, the write fails, that chunk is left as it was, and every other chunk of the region is either as it was or completely written.",
  ["inputs", "histories"],
  "all arrays, chunk shapes, regions (inside, overhanging, outside, empty), sets of stored, missing and damaged chunks, and sequences of region operations with shared buffers",
  "Tests read and write a few regions of intact arrays; no test has a damaged chunk in or beside a region.",
  [ND, ST],
  [("read_ndarray_into_with_buffer / write_ndarray / bounded_coord_iter", ND), ("read_chunk_into / write_chunk", ST)],
  ["read_ndarray", "read_ndarray_into(_with_buffer)", "write_ndarray", "the stored keys and values"])

p("C35", "A failing system call yields an error, never absence or another answer",
  "When a system call made by an operation on a filesystem hierarchy fails (I/O error, no permission, no space, no memory, too many files, interruption), once or persistently, the operation either returns an error or ends exactly as it would have without the failure. It never panics, never answers that a node, key or chunk is missing (neither as a result nor by an error that says so), never omits entries from a listing, and never reports a value that is incomplete. An operation that returns an error leaves no lock held and changes no key that it does not concern; a key that it concerns keeps its value, has its new one, or holds one that is visibly incomplete; and when the failure is over, repeating a read, write, deletion, removal or opening ends as it would have at first. Reads and writes that transfer less than asked for make no difference.",
  ["inputs", "fault_sequences"],
  "all operations of the hierarchy and store traits on any hierarchy, and every point at which one of their system calls can fail, with any error",
  "No test injects a failure of the filesystem.",
  [FS, ST, LIB],
  [("open / open_or_create / get_attributes / get / exists / list_dir / set / erase / erase_prefix", FS), ("all operations", ST), ("array_exists", LIB)],
  ["every operation of HierarchyReader, HierarchyLister, HierarchyWriter, ReadableStore, ListableStore, WriteableStore", "FilesystemHierarchy::open(_or_create)"])

p("C36", "Hierarchies without write permission can be read, and are not changed",
  "On a filesystem hierarchy whose files and directories may only be read, opening it (with open or open_or_create), testing, listing, reading attributes, metadata, chunks and regions give the same answers as with write permission. Operations that would change something return an error and change nothing; none reports success without effect.",
  ["inputs", "histories"],
  "all hierarchies and sequences of operations",
  "All tests run with write permission.",
  [FS, ST],
  [("open / open_or_create / get / list_dir / set / erase / erase_prefix", FS), ("all operations", ST)],
  ["every operation of HierarchyReader, HierarchyLister, HierarchyWriter and the store traits", "FilesystemHierarchy::open(_or_create)"])

p("C37", "Codec settings declared in array metadata take effect on what is stored",
  "A chunk is stored with the codec settings its array's metadata declares, be it new or loaded: gzip with the declared level (the default one for -1 or none), bzip2 with the declared block size, LZ4 with the smallest of its maximum block sizes that is at least the declared one, xz with the declared preset. The headers of the stored streams show the setting where the format records it, and the streams are as long as those of an encoder with that setting.",
  ["inputs"],
  "all codecs, all settings in their documented ranges or omitted, and any content, in both codec builds",
  "Tests use default settings, and only read back what they wrote.",
  ["src/compression/gzip.rs", "src/compression/bzip.rs", "src/compression/lz.rs", "src/compression/lz_pure.rs", "src/compression/xz.rs"],
  [("get_effective_level / encoder", "src/compression/gzip.rs"), ("get_effective_block_size / encoder", "src/compression/bzip.rs"), ("get_effective_block_size / encoder", "src/compression/lz.rs"), ("get_effective_preset / encoder", "src/compression/xz.rs")],
  ["write_chunk", "create_array / get_array_metadata", "the stored bytes"])

p("C38", "Hierarchies and nodes can be created by many at the same time",
  "Any number of threads and processes may call open_or_create on one path at the same time, whether or not a hierarchy (or an entry point document still without content) is there: all succeed with the same metadata, the entry point document is in the end the one a single creation leaves (an existing one is not changed), and from the end of the first on, the hierarchy can be opened. Nodes created at the same time, in directories that are new or not, are all there in the end, with the metadata, attributes and chunks written to them; creating one group several times at once always succeeds; of several creations of one array, at least one succeeds and the others report that it exists, none succeeds after another has ended, and the array has the whole metadata of one that succeeded.",
  ["schedules", "histories"],
  "all interleavings of opening, creating and reopening one hierarchy, and of creating groups and arrays at the same and at other paths, by any number of threads and handles",
  "No test creates anything concurrently.",
  [FS, ST],
  [("open_or_create / set", FS), ("create_group / create_array", ST)],
  ["FilesystemHierarchy::open(_or_create)", "create_group", "create_array", "list_nodes", "get_array_metadata", "list_attributes"])

p("C39", "Of two operations at the same time, each acts as if alone",
  "When two operations run on one filesystem hierarchy at the same time, from any threads or processes, the outcome is that of one after the other, if each changes at most one key and they do not change the same one (or both overwrite or delete it): both results and what is stored agree with one of the two orders, at whatever point one overtakes the other. If one of them changes several keys (removals, region writes), neither fails because of the other, a chunk or document read meanwhile is as before or as after, and every key ends with the value it has in one of the orders. (Creating nodes or chunks in a directory that the other removes, and updating one attribute document or part of one chunk twice at once, are not covered; a value set for the first time may be seen empty.)",
  ["schedules", "inputs"],
  "all pairs of operations of the hierarchy and store traits, on any hierarchy, with one overtaking the other at any system call",
  "No test runs two different operations at the same time.",
  [FS, ST],
  [("get / set / erase / erase_prefix / exists / list_dir", FS), ("all operations", ST)],
  ["every operation of HierarchyReader, HierarchyLister, HierarchyWriter, ReadableStore, ListableStore, WriteableStore", "FilesystemHierarchy::open(_or_create)"])

p("C40", "A process that ends at any moment leaves a hierarchy that can be used",
  "If a process ends at any system call of an operation on a filesystem hierarchy, others can open the hierarchy and use it: every key that the operation does not concern is unchanged; every key it concerns is as before, as after the operation, or recognisably incomplete (reading it is an error, never other data or a panic); nodes, listings, attributes and chunks whose values are complete are answered as before or as after. Nothing is left behind that blocks others: running the operation again ends as if it had not been interrupted, and a node whose document is incomplete can be removed and created again.",
  ["crash_points", "inputs"],
  "all changing operations of the hierarchy and store traits, on any hierarchy, ending before any system call",
  "No test interrupts an operation.",
  [FS, ST],
  [("set / erase / erase_prefix / open_or_create", FS), ("all changing operations", ST)],
  ["every changing operation of HierarchyWriter and WriteableStore", "FilesystemHierarchy::open_or_create"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
