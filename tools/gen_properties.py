#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

B = "src/osm/pbf/"; A = "src/osm/apidb_dump/"; M = "src/osm/model/"

prop("C01", "Sequential PBF write then read returns the same elements",
 "Every ordered sequence of nodes, ways and relations (possibly with several versions of an object, deleted objects, or types that are absent) written to an .osm.pbf file element by element or in lists, and closed, is read back as exactly that sequence. Every field survives: id, version, timestamp, changeset, uid, user, visibility, coordinate, tags (with order and duplicates), way refs and relation members with type, id, role and order. This holds for both compression types.",
 ["inputs", "histories"],
 "All element sequences sorted by (type, id, version) with coordinates on the 1e-7 degree grid, whole-second timestamps, |ids| < 2^61, any UTF-8 strings; any mix of write_element/write_elements calls; any length, including around multiples of the 8000-element block limit.",
 "The existing tests push one or two regional extracts through a pipe and compare only counts of nodes/ways/relations; no field is compared, and shapes absent from Niue (no ways, extreme ids, odd strings, exact block-limit lengths) never occur.",
 [B+"writer.rs", B+"element_accumulator.rs", B+"osm_data.rs", B+"dense_group_builder.rs", B+"ways_group_builder.rs", B+"relations_group_builder.rs", B+"string_table_builder.rs", B+"element_iterator.rs"],
 [("accumulate into single-type blocks", B+"element_accumulator.rs ElementAccumulator::add"), ("delta/granularity encoding", B+"dense_group_builder.rs, ways_group_builder.rs, relations_group_builder.rs"), ("decoding", B+"osm_data.rs OsmData::new"), ("final flush", B+"writer.rs Writer::close")],
 ["elements yielded by reading the produced file"],
 [("pending block", "elements not yet written", B+"element_accumulator.rs ElementAccumulator.elements")])

prop("C02", "File header information survives write and read",
 "The header information given to a PBF writer - bounding box, required and optional features, writing program, source, and the replication timestamp, sequence number and base URL, each present or absent - is what a reader of the produced file reports. Bounding box edges on the nanodegree grid come back exactly. The convenience constructor of the writer declares the schema and dense-nodes features, and the history feature exactly when the file is said to contain history.",
 ["inputs"],
 "All header values: every combination of present/absent fields, any strings, any i64 replication numbers, every bounding box with edges k*1e-9 degrees within the world; both compression types and both writers.",
 "The tests compare only the header of the Niue file, whose values are few and whose bounding box happens to be unaffected by rounding.",
 [B+"osm_header.rs", B+"file_info.rs", B+"writer.rs", B+"parallel_writer.rs"],
 [("header encode/decode", B+"osm_header.rs OsmHeader::serialize/from_bytes"), ("feature declaration", B+"writer.rs Writer::new")],
 ["reader info() of the produced file"])

prop("C03", "The reader decodes every conforming PBF file by the format's rules",
 "For any .osm.pbf file that conforms to the published format and uses only supported required features and raw or zlib blobs, reading yields exactly the elements the format defines, in file order. This includes any granularity, date granularity and coordinate offsets, dense or plain nodes, several groups per block, empty blocks, absent optional metadata (missing visibility means visible), any string-table layout, index data, and unknown block types, which are skipped.",
 ["inputs"],
 "All conforming files: independently encoded with arbitrary choices at every point where the format leaves freedom to the writer, including unknown protobuf fields and field order.",
 "The tests read two files produced by one tool (osmium), which always makes the same encoding choices: granularity 100, zero offsets, dense nodes, one group per block, no plain nodes.",
 [B+"osm_data.rs", B+"blob_iterator.rs", B+"file_block.rs", B+"element_iterator.rs", B+"osm_header.rs", B+"generated/prost-osmpbf.rs"],
 [("block framing", B+"blob_iterator.rs BlobIterator::next"), ("blob decompression", B+"file_block.rs FileBlock::read_blob_data"), ("primitive decoding", B+"osm_data.rs OsmData::read_dense/read_nodes/read_ways/read_relations/read_info")],
 ["elements yielded by reading an independently encoded file"])

prop("C04", "Files produced by the PBF writers conform to the format",
 "Every file produced by the sequential or the parallel PBF writer from an ordered element stream is accepted by an independent decoder of the published format, which recovers exactly the written elements and header. The file starts with one header block; every data block holds 1 to 8000 elements (or the configured block size) of a single type, sorted by type, id and version across the file; sizes declared in the file are exact and below the format limits; string index 0 is the reserved empty string.",
 ["inputs", "configurations"],
 "All ordered element streams x both compression types x both writers x any block size of the parallel writer.",
 "Tests only read files back with the library itself, so an encoding mistake mirrored in the decoder, or a violation of a limit the library's reader ignores, is invisible.",
 [B+"writer.rs", B+"parallel_writer.rs", B+"file_block.rs", B+"osm_data.rs", B+"dense_group_builder.rs", B+"ways_group_builder.rs", B+"relations_group_builder.rs", B+"string_table_builder.rs", B+"osm_header.rs", B+"element_accumulator.rs"],
 [("block serialisation", B+"file_block.rs FileBlock::serialize"), ("group encoding", B+"osm_data.rs OsmData::serialize"), ("block splitting", B+"element_accumulator.rs and parallel_writer.rs split_file_block")],
 ["bytes of the produced file"])

prop("C05", "Parallel iteration delivers exactly the file's elements, once each",
 "For any PBF file and any positive number of tasks, parallel iteration invokes the callback exactly once for every element that sequential iteration yields, with identical content, and no other element except sentinels, of which there is exactly one after the elements of each data block on the thread that processed it. It returns only after every callback has finished, and the object counts reported for the file equal the sequential counts.",
 ["schedules", "inputs", "configurations"],
 "All files (any block structure, many small blocks, empty blocks), all task counts from 1 up to more tasks than blocks, all thread schedules.",
 "The existing test counts elements of one small file with 4 tasks; it would not see a duplicated plus a lost element, a changed element, or an early return that happens only under some schedules.",
 [B+"reader.rs", B+"parallel_element_iteration_command.rs", B+"blob_desc.rs", B+"blob_iterator.rs"],
 [("work distribution", B+"reader.rs Reader::parallel_for_each"), ("per-block callback loop", B+"parallel_element_iteration_command.rs execute"), ("counting", B+"reader.rs Reader::count_objects")],
 ["callback invocations, return of the call, count_objects"])

prop("C06", "The parallel writer restores order and writes everything exactly once",
 "Elements fed to the parallel PBF writer, one by one or in lists, in an order in which no element arrives more than (ordering buffer size - block size) positions late, produce after close a file that contains exactly those elements, once each and unchanged, sorted by type, id and version, preceded by the given header. This holds for every buffer and block size, compression type, and scheduling of the internal threads; sentinels in the stream are ignored.",
 ["schedules", "inputs", "configurations"],
 "All bounded-displacement permutations of element streams, all batchings into write_element/write_elements calls, buffer and block sizes, interleaved sentinels, all interleavings of ordering, encoding and writing threads.",
 "The test pipes one file with already near-ordered data and huge buffers through it and compares counts; block boundaries, permutation limits, slow-then-fast blocks and field contents are not exercised.",
 [B+"parallel_writer.rs", M+"element.rs", B+"writer.rs"],
 [("ordering buffer", B+"parallel_writer.rs flush_sorted_top/flush_all_sorted/split_file_block"), ("blob re-ordering by index", B+"parallel_writer.rs WriteBlobCommand::execute"), ("pool shutdown order", B+"parallel_writer.rs ParallelWriter::close")],
 ["elements read from the produced file"],
 [("ordering buffer", "elements not yet assigned to a block", B+"parallel_writer.rs ELEMENT_ORDERING_BUFFER"), ("blob buffer", "encoded blocks waiting for their turn", B+"parallel_writer.rs BLOB_ORDERING_BUFFER")])

prop("C07", "The parallel writer never silently writes an unordered or partial file",
 "Whatever order elements arrive in and however small the ordering buffer is, if every call on the parallel PBF writer including close reports success, the file is complete and sorted by type, id and version. If the order cannot be restored the writer reports a failure instead of success.",
 ["inputs", "schedules", "configurations"],
 "All permutations (including ones far outside the buffer's reach), all batchings, buffer sizes from 0 up, block sizes from 1 up.",
 "No test ever feeds an order the buffer cannot repair, so the guard that is supposed to detect this is never executed.",
 [B+"parallel_writer.rs"],
 [("lost-order detection", B+"parallel_writer.rs assert_order / set_current_min_element"), ("error reporting", B+"parallel_writer.rs ParallelWriter::close")],
 ["results of the writer calls, elements of the produced file"],
 [("order watermark", "the last element handed over for writing", B+"parallel_writer.rs CURRENT_MIN_ELEMENT")])

prop("C08", "Element comparison is a total order matching the PBF file order",
 "Comparison of elements is a total order consistent with equality: antisymmetric, transitive and total, with equality exactly when type, id and version agree. It orders nodes before ways before relations before sentinels, and within a type by id and then version, both numerically. Sorting any list of elements therefore never fails and yields file order, and the type predicates agree with the actual type.",
 ["inputs"],
 "All triples and lists of elements, including sentinels, negative and extreme ids and versions, equal keys with different content.",
 "No test compares two elements.",
 [M+"element.rs"],
 [("comparison", M+"element.rs Ord/PartialEq for Element"), ("predicates", M+"element.rs same_type/is_node/is_way/is_relation/is_sentinel")],
 ["results of cmp, eq, sort and the predicates"])

prop("C09", "Damaged or foreign PBF input is rejected, never silently read as partial data",
 "For a PBF file that is truncated inside a block (also while it is being read), has a damaged length, block header, compressed payload or string reference, holds changesets, which the model has no place for, or is not a PBF file at all, opening or reading it fails (an error result where the API returns one, otherwise a panic in the caller); iteration never ends normally having delivered fewer or different elements than the bytes define (a block whose type was changed to an unknown one is skipped, as the format demands). Opening never panics, no input makes a call hang or abort the process or allocate beyond the format's limits, and a file cut exactly between blocks reads as the blocks before the cut.",
 ["inputs", "fault_sequences"],
 "All truncation points of all valid files; all single-byte changes inside framing, compressed data; out-of-range references and inconsistent array lengths in structurally valid messages; arbitrary bytes; for sequential and parallel reading.",
 "The tests try one text file, a directory and a missing path; no truncated or corrupted PBF is ever read.",
 [B+"blob_iterator.rs", B+"file_block_iterator.rs", B+"file_block.rs", B+"osm_data.rs", B+"reader.rs", B+"element_iterator.rs"],
 [("framing checks", B+"blob_iterator.rs BlobIterator::next"), ("payload checks", B+"file_block.rs zlib_decode/read_blob_data"), ("reference checks", B+"osm_data.rs OsmData::new")],
 ["result of opening and reading the damaged file"])

prop("C10", "Files requiring unsupported features are refused, all others are opened",
 "Opening a PBF file succeeds exactly when every required feature it lists is one the reader reports as supported, whatever their order, number or repetition; the error names the unsupported features. Optional features never prevent opening, and feature matching is exact (case, prefix and whitespace matter).",
 ["inputs"],
 "All lists of required and optional features built from supported names, near-misses of supported names and arbitrary strings.",
 "One unit test checks the set-difference helper on three literals; the gate itself, from file to error, is untested.",
 [B+"reader.rs", B+"osm_header.rs", B+"file_info.rs"],
 [("feature gate", B+"reader.rs Reader::verify_supported_features/find_missing_features"), ("feature decoding", B+"osm_header.rs OsmHeader::from_bytes")],
 ["result of opening the file"])

prop("C11", "Bounding boxes are the exact extremes of the node coordinates",
 "The bounding box calculated for a PBF file is the exact minimum and maximum of longitude and latitude over all its nodes, wherever in the file or in a block they occur and however the work is scheduled; a file without nodes gives an error. Merging points and boxes computes the componentwise minimum and maximum, independent of order. Parsing accepts exactly 'left,bottom,right,top' with optional whitespace and in-range values, and rejects everything else.",
 ["inputs", "schedules"],
 "All files (nodes in any block and group position, one to many blocks, nodes on any side of the equator/meridian), all sequences of merges, all strings.",
 "One test compares the calculator's output for Niue, which lies in a single quadrant, with one literal; parsing is tested on one valid and one invalid string.",
 [B+"bounding_box_calculator.rs", B+"calc_bounding_box_command.rs", M+"bounding_box.rs", B+"osm_data.rs"],
 [("per-block minimum/maximum and merge", B+"calc_bounding_box_command.rs execute"), ("box algebra", M+"bounding_box.rs merge_point/merge_bounding_box"), ("parsing", M+"bounding_box.rs FromStr")],
 ["calc() result, getters after merges, parse result"])

prop("C12", "API database dump write then read returns the same elements",
 "Every ordered sequence of elements written as an API database dump and closed, then read back from that directory, yields the same nodes, ways and relations in order of type, id and version, with a sentinel after each type. All fields survive: id, version, timestamp, changeset, uid, user name, visibility, coordinate, the set of tags, way refs in order, and relation members with type, id, role and order, for any text in tags, roles and user names.",
 ["inputs", "histories"],
 "All element sequences sorted by (type, id, version) in the database's domain (positive ids, versions from 1, unique tag keys per object, one user per changeset, one name per user, no NUL characters).",
 "The dump-reading tests fail in this checkout because fixture files are missing, and even where they run they compare counts only; text escaping and member order are never compared.",
 [A+"write/writer.rs", A+"write/table_data_writers.rs", A+"read/reader.rs", A+"read/element_iterator.rs", A+"read/table_reader.rs", A+"read/table_pkey.rs", A+"read/node_relations_reader.rs", A+"read/way_relations_reader.rs", A+"read/relation_relations_reader.rs", A+"sql.rs"],
 [("row writing and escaping", A+"write/writer.rs"), ("sorting by key", A+"read/table_pkey.rs"), ("merge join of tables", A+"read/*_relations_reader.rs"), ("unescaping", A+"read/table_reader.rs")],
 ["elements yielded by the dump reader"])

prop("C13", "History tables of the dump hold exactly the rows the elements define",
 "In a dump written from an ordered element stream, the history tables for nodes, ways, relations, their tags, way nodes and relation members contain exactly one well-formed PostgreSQL COPY text row per object version, tag, ref or member, with the column values the element defines (coordinates in 1e-7 degrees, UTC timestamps to the second, visibility, version, 1-based sequence numbers, null redaction, unescaped text equal to the original). All other tables are empty, every table file named in the table of contents exists and ends with the end-of-data marker.",
 ["inputs", "histories"],
 "All ordered element streams including deleted versions, untagged objects, empty ways and relations, arbitrary Unicode and control characters (except NUL) in text.",
 "The dump-writing test compares line counts with a fixture's counts; no column of any row is checked.",
 [A+"write/writer.rs", A+"write/table_data_writer.rs", A+"write/table_data_writers.rs", A+"write/toc.rs", A+"sql.rs", M+"coordinate.rs"],
 [("row formatting", A+"write/writer.rs write_node/write_way/write_relation"), ("file terminators", A+"write/table_data_writer.rs close"), ("table to file mapping", A+"write/toc/mapping.json, toc.dat")],
 ["bytes of the table files"])

prop("C14", "Current tables hold exactly the newest version of each live object",
 "In a dump written from an ordered element stream, the current tables for nodes, ways and relations contain exactly one row for each object whose newest version is visible, with that version's values, and nothing for objects whose newest version is deleted. The current tag, way-node and member tables contain exactly the tags, refs and members of those newest versions, in order, and nothing of any older or deleted version.",
 ["inputs", "histories"],
 "All histories: any number of versions per object, deletions and undeletions at any point, tags/refs/members added and dropped between versions, first and last objects of each type.",
 "Tests compare total counts for one extract; a stale tag from an older version or a resurrected deleted object keeps most counts plausible and no row is compared.",
 [A+"write/current_object.rs", A+"write/writer.rs"],
 [("pending newest version", A+"write/current_object.rs set_last_line/set_last_lines"), ("final flush", A+"write/writer.rs flush_current_object_lines")],
 ["bytes of the current_* table files"],
 [("pending row(s)", "newest version seen so far of the current object", A+"write/current_object.rs last_line/last_lines")])

prop("C15", "The dump reader depends on table contents only, not on dump layout",
 "For any PostgreSQL directory-format dump of the needed tables, the dump reader yields exactly the elements the rows define, in order of type, id and version with tags, refs and members attached to the right version and refs and members in sequence order. The result does not depend on the physical order of rows in a table, the order of columns, which file number a table uses, other tables in the dump, or which of PostgreSQL's equivalent escape forms a text value uses.",
 ["inputs", "configurations"],
 "All permutations of rows and columns, file numberings, extra tables, escape spellings, fractional-second timestamps, null redactions; objects with and without tags, refs, members; several versions per object.",
 "The reading tests cannot run on this checkout's fixture and use one dump layout; row order there is already sorted.",
 [A+"read/reader.rs", A+"read/table_def.rs", A+"read/table_fields.rs", A+"read/table_pkey.rs", A+"read/table_reader.rs", A+"read/node_relations_reader.rs", A+"read/way_relations_reader.rs", A+"read/relation_relations_reader.rs", A+"read/element_iterator.rs", A+"sql.rs"],
 [("table of contents scan", A+"read/reader.rs get_table_def_strings"), ("column mapping", A+"read/table_fields.rs"), ("external sort", A+"read/reader.rs sort_tables, table_pkey.rs"), ("merge join", A+"read/*_relations_reader.rs")],
 ["elements yielded by the dump reader"])

prop("C16", "A dump's users and changesets tables cover exactly what elements reference",
 "In a written dump, the users table has exactly one row per distinct user id among the written elements, carrying that user's name as display name for any text, and the changesets table exactly one row per distinct changeset id, referring to the user who made it; changeset tags refer only to listed changesets. Both tables are ordered by id, every row has the full set of columns and unique e-mail, so foreign keys of the dump are satisfied.",
 ["inputs", "histories"],
 "All element streams: users and changesets shared between elements, types and versions, in any order of ids, arbitrary user names (spaces, tabs, newlines, backslashes, Unicode), any number of users.",
 "No test looks into the users or changesets tables beyond their line counts.",
 [A+"write/writer.rs", A+"write/table_data_writers.rs"],
 [("user and changeset indexes", A+"write/table_data_writers.rs user_index/changeset_user_index, flush_buffers"), ("row writing", A+"write/writer.rs write_users/write_changesets")],
 ["bytes of the users, changesets and changeset_tags table files"])

prop("C17", "Node tiles are the OSM quadtile of the coordinate",
 "The tile value of every node row in a written dump is the 32-bit interleaving (longitude bit before latitude bit, most significant first) of the longitude and latitude scaled and rounded to 16 bits each, as the OSM database defines it. It is defined for the whole world including the poles, the antimeridian and the equator, equal in history and current tables, and depends on the coordinate only.",
 ["inputs"],
 "All coordinates on the 1e-7 degree grid within the world, with emphasis on cell boundaries, extremes and points near zero.",
 "No test computes or compares a tile.",
 [A+"sql.rs", A+"write/writer.rs"],
 [("tile computation", A+"sql.rs calculate_tile")],
 ["tile column of the nodes and current_nodes table files"])

prop("C18", "Failures of callbacks and of I/O are never reported as success",
 "If a callback of parallel iteration returns an error or panics for any element, the iteration call returns an error. If creating an output, or writing any byte of it, fails, then at the latest close of the PBF writer, parallel PBF writer or dump writer reports failure; none of these calls hangs, and a run in which every call succeeded has written the complete output. Likewise, if opening or reading a file fails at any point, the reading call fails (an error, or a panic where the interface has no other way), and no such failure is taken for the end of the data.",
 ["fault_sequences", "schedules", "inputs"],
 "Errors injected at any callback invocation with any number of tasks; write failures injected at any byte offset of the output file(s) and at creation time; failures of any single call that opens, reads or writes a file, and of all from there on.",
 "No test injects a fault.",
 [B+"reader.rs", B+"parallel_element_iteration_command.rs", B+"writer.rs", B+"parallel_writer.rs", A+"write/writer.rs", A+"write/table_data_writer.rs", A+"write/table_data_writers.rs"],
 [("error collection from worker threads", B+"reader.rs parallel_for_each, parallel_writer.rs close"), ("write error propagation", B+"writer.rs write_blob, "+A+"write/table_data_writer.rs close")],
 ["results of the calls, size and content of the output"])

prop("C19", "Timestamp formatting gives the UTC ISO 8601 second, or an error",
 "Converting a timestamp in microseconds to ISO 8601 yields the UTC calendar date and time in the form YYYY-MM-DDThh:mm:ssZ, rounding down to the whole second before and after 1970 alike, correct across leap years and century rules. Timestamps outside the representable range give an error, never a panic or a wrong date; the conversion is monotonic.",
 ["inputs"],
 "All i64 values, with emphasis on second, day, month, leap-year and range boundaries and on negative values.",
 "The unit tests check timestamp 0 and one out-of-range value.",
 ["src/osm/converters/mod.rs"],
 [("conversion", "src/osm/converters/mod.rs timestamp_to_iso8601_seconds")],
 ["returned string or error"])

prop("C20", "Thread-local accumulators neither lose, duplicate nor mix elements",
 "An accumulator returns, on each thread, exactly the elements added to that accumulator on that thread since the last retrieval on it, in the order added, and retrieval leaves it empty. Distinct accumulators and distinct threads never see each other's elements, whatever the interleaving and the capacity.",
 ["histories", "schedules", "inputs"],
 "All sequences of add and retrieve operations over several accumulators and several threads, reuse of an accumulator after retrieval, capacities from 0 up.",
 "Only the parallel pipe test uses an accumulator, one instance, comparing counts at the end.",
 [B+"thread_local_accumulator.rs"],
 [("per-thread per-instance storage", B+"thread_local_accumulator.rs ACCUMULATORS, add/elements")],
 ["elements() results per thread and accumulator"])

prop("C21", "Elements survive conversion between PBF and API database dump",
 "Converting a PBF file to an API database dump and the dump back to PBF, with the library's documented pipelines and with either PBF writer, yields a PBF file with the same elements in the same order, up to the order of tags within an element. Converting the result again changes nothing, and the dump read directly agrees with the PBF at every step.",
 ["inputs", "histories", "configurations"],
 "All ordered element sequences in the database's domain, including full histories; both PBF writers; both compression types.",
 "The pipe tests between the formats compare counts, and the dump-to-PBF direction does not run on this checkout.",
 [A+"write/writer.rs", A+"read/element_iterator.rs", B+"writer.rs", B+"parallel_writer.rs", B+"reader.rs"],
 [("pipeline PBF to dump", "examples/pbf-to-apidb.rs"), ("pipeline dump to PBF", "examples/apidb-to-pbf.rs")],
 ["elements of the final file"])

prop("C22", "Output is a deterministic function of input and configuration",
 "Writing the same header and the same element calls with the same configuration twice yields byte-identical PBF files, for the sequential and the parallel writer, independent of thread scheduling and of other work in the process. Re-reading a file and writing it again with the same writer and compression reproduces it byte for byte. A dump written twice is identical except for the clock columns of users and changesets.",
 ["schedules", "inputs", "configurations"],
 "All element streams and batchings, repeated executions under different CPU load and schedules, both writers, both compression types.",
 "No test compares output bytes; schedule-dependent output would still have the right counts.",
 [B+"parallel_writer.rs", B+"writer.rs", B+"string_table_builder.rs", B+"osm_data.rs", A+"write/writer.rs", A+"write/table_data_writers.rs"],
 [("blob ordering by index", B+"parallel_writer.rs WriteBlobCommand"), ("insertion-ordered string table", B+"string_table_builder.rs"), ("id-ordered user/changeset output", A+"write/table_data_writers.rs")],
 ["bytes of the produced files"])

prop("C23", "Independent readers and writers in one process do not affect each other",
 "Any number of PBF readers, parallel iterations, sequential and parallel PBF writers, dump writers and dump readers (with a temporary directory each) used at the same time from different threads, or interleaved on one thread, or one after the other, each behave as if alone: every output file contains exactly its own elements in order and every reader yields exactly its own file.",
 ["schedules", "histories", "configurations"],
 "All interleavings of several pipelines with different data, block sizes, buffer sizes and compression types in one process, including abandoned ones, sequential reuse of paths and reopened readers.",
 "Tests run each pipeline alone (the runner even serialises tests); shared thread-local or global state is never contended.",
 [B+"parallel_writer.rs", B+"thread_local_accumulator.rs", B+"reader.rs", B+"writer.rs", A+"write/writer.rs"],
 [("per-instance thread pools and thread-local state", B+"parallel_writer.rs thread_local!, from_file_info"), ("per-iterator file handles", B+"blob_iterator.rs")],
 ["elements of each output file"])

prop("C24", "Copying a PBF file block by block preserves header and elements",
 "Reading a conforming PBF file through the low-level block interface and writing each block unchanged to a new file with either compression type yields a file with the same header information and the same elements in the same order, whatever mix of types and groups the source's blocks contain. Compression type affects size only, never content.",
 ["inputs", "configurations"],
 "All conforming source files with coordinates on the 1e-7 degree grid and whole-second timestamps (what the writer's fixed granularity can express), including ones with several groups of different types in one block and empty blocks; all changes of compression type.",
 "The uncompressed round-trip tests rewrite elements of one extract whose blocks are all single-type, and compare counts.",
 [B+"writer.rs", B+"file_block.rs", B+"file_block_iterator.rs", B+"osm_data.rs", B+"compression_type.rs"],
 [("block write", B+"writer.rs write_file_block"), ("block serialisation", B+"file_block.rs FileBlock::serialize, osm_data.rs OsmData::serialize")],
 ["elements and header of the copy"])

prop("C25", "Incomplete or inconsistent API database dumps are never read as less",
 "If an API database dump lacks its table of contents, a needed table, column or table file, if any of these is cut short, if a row has missing, surplus or malformed values in what elements are made of (undecodable or NULL text and numbers beyond the element model included), or if an element's changeset or its user is not in the dump, then opening or reading fails with an error or a panic in the caller. The same holds if the temporary sorted copies cannot be written completely, and whatever an earlier use left in the temporary directory. Tag, way-node and member rows that belong to no element are refused or ignored, without effect on any element, and no such input makes reading hang.",
 ["inputs", "fault_sequences"],
 "All dumps as in C15 with one piece of damage of a listed kind at any place: any cut of any file, any row, any column, any reference; fresh and used temporary directories; write failures of temporary files at any size.",
 "No test reads a dump at all.",
 [A+"read/reader.rs", A+"read/table_reader.rs", A+"read/table_def.rs", A+"read/table_fields.rs", A+"read/node_relations_reader.rs", A+"read/way_relations_reader.rs", A+"read/relation_relations_reader.rs", A+"read/element_iterator.rs", A+"sql.rs"],
 [("completeness of tables", A+"read/reader.rs Reader::sort_tables"), ("row parsing", A+"read/table_reader.rs"), ("joins", A+"read/*_relations_reader.rs"), ("references", A+"read/element_iterator.rs")],
 ["result of opening, elements delivered until the end or failure"])

prop("C26", "Memory and open files are bounded by buffers, not by the amount of data",
 "Reading elements or blocks of a PBF file, writing one, copying blocks, writing a dump and iterating over an opened dump hold only a bounded number of blocks or elements at once, so peak heap use does not grow with the length of the stream (for a fixed set of users and changesets). Parallel iteration, counting and the bounding box hold about one decoded block per task, and the parallel writer holds no more than its ordering buffer, the blocks in work and its bounded queues, however the elements are split into calls and however fast they are delivered. Nor does the number of files open at a time grow with the data. Readers and writers that are closed or dropped leave nothing behind.",
 ["inputs", "histories", "configurations", "schedules"],
 "All streams of any length: files larger than memory are the normal case for this library; all block sizes, buffer sizes, list lengths, element kinds and sizes, numbers of tasks.",
 "The fixtures are small enough to fit in memory many times, and no test measures memory.",
 [B+"element_iterator.rs", B+"file_block_iterator.rs", B+"blob_iterator.rs", B+"element_accumulator.rs", B+"parallel_writer.rs", B+"reader.rs", A+"write/writer.rs", A+"write/table_data_writers.rs", A+"read/table_reader.rs"],
 [("block at a time", B+"element_iterator.rs, blob_iterator.rs"), ("bounded work queues", B+"reader.rs parallel_for_each, parallel_writer.rs create_thread_pool"), ("ordering buffer", B+"parallel_writer.rs AddElementCommand, AddElementsCommand"), ("streaming joins", A+"read/node_relations_reader.rs")],
 ["heap in use over time"])

prop("C27", "Reading changes nothing, and writing changes only its target",
 "Reading a PBF file or a dump, in any sequence of complete, partial, alternating, parallel and failed operations on one reader, its clones and further readers, never modifies the input, and every operation's result depends on the file alone, not on what the reader was used for before. Writers replace the whole previous content of their target, and no operation creates, changes or removes any other file, except inside the temporary directory given to the dump reader. Finished operations leave no open file, thread or temporary file behind, and all this holds for any path the operating system accepts.",
 ["inputs", "histories", "configurations"],
 "All files and dumps; all histories of operations on readers; all names and spellings of paths (bytes that are no UTF-8, relative paths, symbolic links); whatever was at or beside the target before.",
 "Tests use each reader once, write to fresh paths with plain names, and look at nothing else.",
 [B+"reader.rs", B+"blob_iterator.rs", B+"blob_desc.rs", B+"writer.rs", B+"parallel_writer.rs", A+"read/reader.rs", A+"read/table_def.rs", A+"read/table_reader.rs", A+"write/writer.rs", A+"write/table_data_writer.rs", A+"write/toc.rs"],
 [("opening of inputs", B+"blob_iterator.rs BlobIterator::new, blob_desc.rs"), ("creation of outputs", B+"writer.rs, "+A+"write/table_data_writer.rs"), ("sorted copies", A+"read/table_def.rs build_sorted_path, reader.rs sort_tables"), ("joining of pools", B+"reader.rs parallel_for_each, parallel_writer.rs shutdown")],
 ["results of operations, directory trees before and after, open files and threads of the process"])

prop("C28", "Values finer than the formats hold become the nearest they can hold",
 "A coordinate finer than the PBF writers' step of 100 nanodegrees is written as the nearest multiple of it, whether the element is serialized by the sequential or the parallel writer, copied in a block of finer granularity, or came through a dump; a header bounding box edge is written as the nearest nanodegree. A time within a second is written as that whole second, and nothing else of the element changes. Writing again what was read back changes nothing more.",
 ["inputs", "configurations"],
 "All elements with coordinates in range at any distance from the grid and any times from 1970 on in milliseconds; nodes of any other metadata among and beside them (so that the delta encoding runs over rounded values); all four ways of writing.",
 "Test data come from files on the grid, so that rounding, truncation and accumulated error look the same.",
 [B+"dense_group_builder.rs", B+"ways_group_builder.rs", B+"relations_group_builder.rs", B+"osm_header.rs", B+"osm_data.rs", A+"write/writer.rs", A+"read/table_reader.rs"],
 [("delta encoding of coordinates and times", B+"dense_group_builder.rs, ways_group_builder.rs, relations_group_builder.rs"), ("header box", B+"osm_header.rs"), ("dump values", A+"write/writer.rs")],
 ["values read back"])

prop("C29", "Filtering pipelines keep exactly the elements that pass",
 "A program that reads a sorted PBF file, drops, keeps or strips elements by what the model's accessors say, and writes the rest, produces a file with exactly those elements in the file's order and the header it gave: the input's own or the default one, with any fields set. This holds for the sequential pipeline and for the parallel one, where callbacks collect elements in a thread-local accumulator until the sentinel and hand them to a shared parallel writer, for any number of tasks and any delays, provided the ordering buffer can hold the elements; with a smaller buffer the result is the same or a failure. A failing callback fails the iteration, and the writer can still be closed. Pipelines can be chained, also through a dump.",
 ["inputs", "histories", "schedules", "configurations"],
 "All sorted files of unique (type, id, version) in blocks of any lengths; all filters; all chains; all task counts, buffer, block and accumulator sizes and schedules.",
 "The examples are not run by tests. The tests of copying compare counts of one extract and read and write in one fixed configuration.",
 [B+"reader.rs", B+"thread_local_accumulator.rs", B+"parallel_writer.rs", B+"writer.rs", B+"file_info.rs", A+"write/writer.rs", A+"read/element_iterator.rs", M+"element.rs"],
 [("block ends", B+"reader.rs parallel_for_each (Element::Sentinel)"), ("collection per thread", B+"thread_local_accumulator.rs"), ("restoring the order", B+"parallel_writer.rs"), ("header fields", B+"file_info.rs with_* setters")],
 ["elements and header of the output, counts made by callbacks, results of the calls"])

prop("C30", "The sequential writer writes all it accepts or refuses it",
 "Whatever elements in whatever order and in whatever mixture of single and list calls, sentinels and intermediate closes are handed to the sequential PBF writer: each call either succeeds or refuses (an error or a panic), and when the final close succeeds, the file holds exactly the elements of the calls that succeeded, in the order in which they were handed over; nothing is dropped, duplicated, moved or left over. Elements in order of their types are never refused, whatever their ids, unless a single one exceeds the size a block of the format can have; such an element is refused and never written as a file that cannot be read.",
 ["inputs", "histories", "configurations"],
 "All sequences of elements, also unsorted, interleaved and repeated; all divisions into calls; runs around multiples of the block size of 8000; elements of sizes around the limit of 32 MiB and beyond.",
 "Tests copy one sorted extract through the writer and never hand it anything else.",
 [B+"writer.rs", B+"element_accumulator.rs", B+"file_block.rs", B+"osm_data.rs"],
 [("states of types", B+"element_accumulator.rs add"), ("splitting and refusing large blocks", B+"file_block.rs serialize, serialize_split"), ("flushing", B+"writer.rs close")],
 ["elements of the output against the calls' results"])
prop("C31", "Bounding boxes and coordinates hold exactly what they are made of",
 "A bounding box parses from a text exactly if it consists of four numbers separated by commas with optional white space, left and right within -180..180 and bottom and top within -90..90, and then has these sides in this order; any other text is an error and never a panic. Building a box from points and merging points and boxes, in any order and with repetitions, gives exactly the smallest and largest longitudes and latitudes. The default box is the whole world. A coordinate made of a multiple of 10^-7 degrees gives that multiple back.",
 ["inputs", "histories"],
 "All texts; all lists of points, all orders of merging; all multiples of 10^-7 degrees in range.",
 "Tests parse one valid and one invalid text and merge nothing.",
 [M+"bounding_box.rs", M+"coordinate.rs"],
 [("parsing", M+"bounding_box.rs from_str"), ("merging", M+"bounding_box.rs merge_point, merge_bounding_box"), ("rounding", M+"coordinate.rs lat7, lon7")],
 ["results of parsing, sides of boxes, lat7 and lon7"])

prop("C32", "Parallel iteration runs as many callbacks at once as there are tasks",
 "While a parallel iteration has that many blocks left, as many callbacks as tasks are in progress at the same time, each on a thread of its own and never more, so that callbacks may wait for each other and a slow one does not hold up the rest. Iterations over one reader or file may run at the same time in several threads, and callbacks may themselves use the library: open and read files, read, count or iterate in parallel with the same reader, compute the bounding box. None of this deadlocks, and every iteration delivers every element once.",
 ["schedules", "configurations", "histories"],
 "All numbers of tasks and blocks; all points at which callbacks wait for each other; all nested uses; several iterations at once.",
 "The tests' callbacks only count, and would pass if the callbacks ran one after another on one thread.",
 [B+"reader.rs", B+"bounding_box_calculator.rs"],
 [("pool of tasks threads, shared callback", B+"reader.rs parallel_for_each"), ("state per thread", B+"reader.rs thread locals")],
 ["threads that call the callback, meetings of threads within it, elements delivered, results of nested calls"])
prop("C33", "The PBF side is the same without the apidb feature",
 "Built without its default feature apidb, the library still compiles, and everything it does with PBF files - header, elements, counts, bounding box, parallel iteration, formatted times, both writers and copying of blocks - gives the same results and byte-identical files, and fails on the same inputs, as in the build with the feature.",
 ["inputs", "configurations"],
 "All PBF files, conforming and damaged; all writer configurations.",
 "Tests are run with the default features only.",
 ["Cargo.toml", "src/osm/mod.rs", B+"reader.rs", B+"writer.rs", B+"parallel_writer.rs"],
 [("feature gate", "Cargo.toml [features], src/osm/mod.rs")],
 ["results and output files of two builds of one program"])

prop("C34", "A dump obeys the schema it carries",
 "The rows of a written dump satisfy every constraint that the SQL in its own table of contents declares, so that it can be restored: each table's data has declared columns, every value is of the column's type (integers in range, booleans, real dates, members of enumerations), no not-null column is null, primary keys and unique indexes have no duplicates, and every foreign key finds its row. This holds whether the elements were built by the caller, came from a PBF file or from another dump, provided the elements themselves are consistent (user names differ, tag keys are unique per object, live ways refer to live nodes).",
 ["inputs", "histories"],
 "All consistent ordered element streams of any source, with any history of versions and deletions.",
 "No test restores a dump or looks at a constraint; a duplicate e-mail or a value outside an enumeration shows only when PostgreSQL refuses the dump.",
 [A+"write/writer.rs", A+"write/table_data_writers.rs", A+"write/current_object.rs", A+"write/toc.rs", A+"sql.rs"],
 [("rows", A+"write/writer.rs"), ("declared schema", A+"write/toc/toc.dat"), ("live objects", A+"write/current_object.rs")],
 ["table files of the written dump against the SQL in its toc.dat"])

prop("C35", "Short, interrupted and slow system calls make no difference",
 "Writing and reading PBF files and dumps has the same outcome when the operating system transfers fewer bytes than asked for (as on network and user-space file systems), interrupts calls by signals (EINTR) or delays them: no call of the library fails because of it, every written file has the same content, and everything read is the same, in sequential and parallel operation.",
 ["schedules", "fault_sequences", "inputs"],
 "All ways of cutting short, interrupting and delaying the individual calls that open, read and write files; all inputs and configurations.",
 "On a local file system every read and write is complete, so tests never see a short one.",
 [B+"file_block.rs", B+"blob_iterator.rs", B+"writer.rs", B+"parallel_writer.rs", A+"read/reader.rs", A+"read/table_reader.rs", A+"write/table_data_writer.rs"],
 [("exact reads and complete writes", B+"file_block.rs from_blob_desc, "+B+"writer.rs write_blob"), ("buffered line reading and writing", A+"read/table_reader.rs, "+A+"write/table_data_writer.rs")],
 ["results and output files with and without disturbed system calls"])

prop("C36", "Time grows in proportion to the data",
 "The work of writing and reading a PBF file, copying it block by block, writing a dump and iterating over an opened dump, and the time of parallel writing (with a fixed ordering buffer and block size), parallel iteration, counting and computing a bounding box, grow (nearly) linearly with the data in every respect: number of elements, of blocks (also of those to skip), of tags, references, members and distinct roles of one object, of versions of one object, of distinct strings, users and changesets, length of a text.",
 ["inputs", "configurations"],
 "All data of any size and shape; files of billions of elements and relations of tens of thousands of members are normal.",
 "The fixtures are small: with them quadratic work is not slower than linear work.",
 [B+"string_table_builder.rs", B+"writer.rs", B+"parallel_writer.rs", B+"reader.rs", B+"blob_iterator.rs", B+"osm_data.rs", B+"element_iterator.rs", B+"dense_group_builder.rs", A+"write/writer.rs", A+"write/current_object.rs", A+"read/table_reader.rs", A+"read/relation_relations_reader.rs", A+"sql.rs"],
 [("string index", B+"string_table_builder.rs"), ("single pass joins", A+"read/*_relations_reader.rs"), ("user and changeset indexes", A+"write/table_data_writers.rs")],
 ["CPU time of the calling thread on data of one and of eight times the size; for parallel operations the time that passes, on data of one and of sixteen times the size"])

prop("C37", "A dump holds the same whatever the order elements are written in",
 "The history tables, the users and the changesets of a dump are a function of the set of elements written: elements may come with their types mixed, in several ordered parts, with versions of an object exchanged or in any other order. Reading such a dump yields the elements in order of type, id and version. If the elements of each type come in order of id and version, however the types are mixed, the current tables too hold exactly the newest version of each live object.",
 ["inputs", "histories"],
 "Any element set in the domain of the database, in any order; streams of joined or parallel sources are not in order.",
 "Tests write sorted streams only.",
 [A+"write/writer.rs", A+"write/current_object.rs", A+"write/table_data_writers.rs", A+"read/reader.rs", A+"read/element_iterator.rs"],
 [("per-type state of the writer", A+"write/writer.rs"), ("sorting of tables", A+"read/reader.rs")],
 ["rows of the tables of the dump, elements read from it"])

prop("C38", "Elements and file information hold exactly what they are given",
 "A node, way, relation, tag, member or file information reports through its accessors exactly the values it was made of or that were set later, coordinates and bounding boxes to the bit; a clone is independent of its original; taking the tags or the user name out of an element yields them and leaves everything else as it was, setting one field of a file information leaves the others; type predicates, feature queries and equality of tags and members agree with the values.",
 ["inputs", "histories"],
 "Any values and any sequence of making, cloning, taking and setting.",
 "No test looks at the model types by themselves; the tests that use them compare a few fields.",
 ["src/osm/model/node.rs", "src/osm/model/way.rs", "src/osm/model/relation.rs", "src/osm/model/tag.rs", "src/osm/model/coordinate.rs", "src/osm/model/element.rs", "src/osm/model/bounding_box.rs", B+"file_info.rs"],
 [("accessors and take_*", "src/osm/model/*.rs"), ("setters", B+"file_info.rs")],
 ["values of accessors after each step of a history"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
