#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list is easy to review)."""
import json, os
P = "src/osm/pbf/"; A = "src/osm/apidb_dump/"; M = "src/osm/model/"
def m(*xs): return [{"name": n, "where": w} for n, w in xs]
props = []
def add(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    props.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [], "mechanism": m(*mech), "observe_at": observe, "hook_needed": hook}})

SCHED = "cfg(osm_io_mc): resolves std to a controlled-scheduler shim (src/lib.rs)"

add("C01", "Sequential PBF write then read returns exactly what was written",
 "For every sequence of nodes, then ways, then relations handed to the sequential PBF writer (one by one, as lists, or any mix, with either compression; any of the three kinds may be absent), once the header is written and the writer closed, reading the file yields the same elements in the same order, none lost, repeated or altered. Every field survives: id, version, changeset, uid, user name, visible flag, tags in order, way refs in order, relation members in order with kind and role, coordinates to 1e-7 degree, timestamps to the whole second.",
 ["inputs", "programs", "configurations"],
 "all element sequences and call patterns over a small alphabet with boundary values, lengths around the block-size boundaries, both compressions",
 "the tests compare two fixture files by counts and analysis digests; they do not reach block boundaries, list calls, missing kinds, negative or large ids, empty strings or extreme deltas",
 [P+"writer.rs", P+"element_accumulator.rs", P+"osm_data.rs", P+"dense_group_builder.rs", P+"ways_group_builder.rs", P+"relations_group_builder.rs", P+"string_table_builder.rs", P+"file_block.rs"],
 [("ElementAccumulator::add/elements", P+"element_accumulator.rs"), ("OsmData::serialize and read_*", P+"osm_data.rs"), ("delta coding", P+"dense_group_builder.rs")],
 ["Writer::write_element/write_elements/close", "Reader::elements"])

add("C02", "Written PBF files are structurally valid for any other PBF reader",
 "Every file produced by the sequential or the parallel writer can be decoded by an independent decoder of the published format: the header block comes first and only once, length fields are exact, declared uncompressed sizes are exact, every string reference points inside the string table whose entry 0 is blank and is never used as a tag key or value, and per-element parallel arrays have equal lengths. Each data block holds elements of exactly one kind, is never empty, and holds at most 8000 elements (sequential writer) or the configured block size (parallel writer); the elements found by the independent decoder are those that were written.",
 ["inputs", "programs", "configurations"],
 "all element sequences and call patterns of the bounded alphabet, both writers, both compressions, counts around block boundaries",
 "the existing tests only read files back with this crate's own reader, so an encoder error mirrored in the decoder is invisible",
 [P+"osm_data.rs", P+"file_block.rs", P+"writer.rs", P+"parallel_writer.rs", P+"string_table_builder.rs"],
 [("FileBlock::serialize", P+"file_block.rs"), ("StringTableBuilder", P+"string_table_builder.rs"), ("split_file_block", P+"parallel_writer.rs")],
 ["bytes of the output file"])

add("C03", "The PBF reader understands every valid encoding of the same data",
 "However a valid file encodes its elements (dense or plain nodes, with or without metadata, any granularity, coordinate offsets or date granularity, optional fields absent, several groups per block in any order, empty blocks or groups, raw or zlib blobs, index data present, unknown blob types or unknown fields in between), sequential iteration yields exactly the elements encoded, in file order, with their values. The same holds each time an iterator is created from the same reader, also when iterators are interleaved.",
 ["inputs", "programs"],
 "all combinations of encoding choices over small element sets, produced by an independent encoder",
 "the fixtures were written by one producer with one set of encoding choices; the writer of this crate produces only one of the valid shapes",
 [P+"osm_data.rs", P+"file_block.rs", P+"blob_iterator.rs", P+"element_iterator.rs", P+"file_block_iterator.rs", P+"reader.rs"],
 [("OsmData::new, read_dense/read_nodes/read_ways/read_relations/read_info", P+"osm_data.rs"), ("ElementIterator", P+"element_iterator.rs")],
 ["Reader::elements", "Reader::blocks"])

add("C04", "File header information survives writing and reading",
 "Whatever header information is given to either PBF writer (bounding box, required and optional features, writing program, source, replication timestamp, sequence number and base URL, each present or absent), opening the written file reports exactly the same values, absent ones as absent and the bounding box equal to the nanodegree. The bytes of the header block, decoded independently, carry those same values in the right fields.",
 ["inputs", "configurations"],
 "all presence/absence combinations of the header fields with boundary values, both writers, both compressions, both construction calls",
 "the tests set at most a writing program and never compare header fields after a round trip",
 [P+"osm_header.rs", P+"file_info.rs", P+"writer.rs", P+"parallel_writer.rs", P+"reader.rs"],
 [("OsmHeader::serialize/from_bytes", P+"osm_header.rs"), ("Writer::new", P+"writer.rs")],
 ["Reader::info", "bytes of the header block"])

add("C05", "A file is opened if and only if its required features are supported",
 "Opening a PBF file succeeds exactly when every feature its header requires is among the reader's supported features; an unsupported one makes opening fail with an error (not a panic) that names it. Optional features, whatever they are, never prevent opening, and a file whose first block is not a header is refused.",
 ["inputs"],
 "all lists of required and optional features up to a length, including near misses of supported names, duplicates and permutations",
 "a unit test tries three lists on the private helper; no test opens a file with an unsupported feature",
 [P+"reader.rs", P+"osm_header.rs"],
 [("Reader::verify_supported_features", P+"reader.rs")],
 ["Reader::new result"])

add("C06", "Parallel iteration delivers every element exactly once, under every schedule",
 "For every file, number of tasks and thread schedule, parallel iteration calls the callback exactly once for each element of the file with the values that sequential iteration yields, and with one sentinel after the elements of each data block, on the thread that received that block's elements in file order, and returns only after all calls are finished. Object counts equal those of sequential iteration.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of the iteration pool (up to partial-order equivalence) on small files, tasks 1 to 3, plus sweeps over file sizes around the queue capacity",
 "the tests run one file under whatever schedule the machine produces and compare totals",
 [P+"reader.rs", P+"parallel_element_iteration_command.rs", P+"blob_iterator.rs"],
 [("Reader::parallel_for_each", P+"reader.rs"), ("ParallelElementIterationCommand::execute", P+"parallel_element_iteration_command.rs")],
 ["callback invocations", "Reader::count_objects"], hook=SCHED)

add("C07", "Parallel iteration reports every failure and always returns",
 "If a callback invocation fails with an error or panics, or a block cannot be read or decoded, parallel iteration returns an error under every thread schedule: it never reports success, never panics in the caller, and never hangs. Once it has returned, no callback is running or called any more. The same holds for object counting and for bounding box calculation over damaged blocks.",
 ["schedules", "fault_sequences", "inputs"],
 "every position and subset of failing callback invocations, every kind of damage in every block, all interleavings of small pools",
 "no test makes a callback fail or reads a damaged block in parallel",
 [P+"reader.rs", P+"parallel_element_iteration_command.rs", P+"calc_bounding_box_command.rs", P+"bounding_box_calculator.rs"],
 [("error propagation through command results and pool join", P+"reader.rs")],
 ["Reader::parallel_for_each/count_objects result", "BoundingBoxCalculator::calc result"], hook=SCHED)

add("C08", "Parallel writer output is complete, sorted and independent of schedule",
 "For every sequence of elements displaced by no more than the ordering buffer can restore (at most buffer size minus block size plus one greater elements come before any element), handed over by any mix of single and list calls, sentinels included, the closed file holds exactly the submitted elements (sentinels excluded), each once with all field values intact, in the canonical order: nodes, ways, relations, each by id and version. The bytes of the file are the same under every thread schedule.",
 ["schedules", "inputs", "configurations", "programs"],
 "all interleavings (up to partial-order equivalence) of the ordering, encoding and writing threads for small writes; all permutations and call patterns for small element sets; several buffer and block sizes",
 "the tests run one fixture through under the machine's schedule and never compare order or bytes",
 [P+"parallel_writer.rs"],
 [("flush_sorted_top/flush_all_sorted/split_file_block", P+"parallel_writer.rs"), ("blob ordering buffer", P+"parallel_writer.rs"), ("close order of pools", P+"parallel_writer.rs")],
 ["bytes of the output file after close"], hook=SCHED)

add("C09", "Loss of order in the parallel writer is always reported, never silent",
 "If elements arrive so late that the ordering buffer has already released a greater element, the parallel writer reports an error from a write call or from close; whenever every call succeeds the file is sorted. In either case all calls return: no schedule hangs.",
 ["schedules", "inputs", "configurations"],
 "all permutations of small element sets against all small buffer and block sizes, under all schedules of the writer's threads for selected ones",
 "no test submits elements beyond the buffer's reach",
 [P+"parallel_writer.rs"],
 [("assert_order / current minimum", P+"parallel_writer.rs")],
 ["ParallelWriter::write_element/write_elements/close results", "order of the output file"], hook=SCHED)

add("C10", "Failure to write output is always reported and never hangs",
 "If creating or writing an output file fails at any point, then a call on the sequential PBF writer, the parallel PBF writer or the database dump writer, at the latest close, returns an error; no call hangs, and a run in which every call succeeded has all its data in the files when close returns.",
 ["fault_sequences", "schedules", "programs"],
 "every single output system call of small runs failed in turn (error, or short write then error), for each writer, plus files that cannot be created",
 "no test injects an output error",
 [P+"writer.rs", P+"parallel_writer.rs", A+"write/writer.rs", A+"write/table_data_writer.rs", A+"write/table_data_writers.rs"],
 [("error propagation of write_all/flush", P+"writer.rs"), ("TableDataWriter flush", A+"write/table_data_writer.rs")],
 ["results of write_header/write_element/write_elements/close"], hook=SCHED)

add("C11", "The calculated bounding box is exact",
 "The bounding box calculated for a file is the smallest one containing all node coordinates of the file, for every placement of nodes in blocks and groups, under every thread schedule, and regardless of ways and relations or of the box declared in the header. A file without nodes gives an error rather than a panic or an invented box.",
 ["schedules", "inputs"],
 "all small sets of extreme and equal coordinates over small block layouts; all interleavings for two or three blocks",
 "one test computes the box of one fixture",
 [P+"bounding_box_calculator.rs", P+"calc_bounding_box_command.rs", M+"bounding_box.rs"],
 [("CalcBoundingBoxCommand::execute", P+"calc_bounding_box_command.rs"), ("merge_point/merge_bounding_box", M+"bounding_box.rs")],
 ["BoundingBoxCalculator::calc"], hook=SCHED)

add("C12", "A truncated or damaged PBF file never passes for a complete one",
 "If a PBF file is cut at any byte other than a block boundary, or a length field, block body or checksum in it is damaged so that a block is unreadable, then opening or reading it fails visibly (an error, or a panic of a sequential iterator) in both sequential and parallel reading. The same holds if a call to the operating system fails while the file is read, unless the result is complete all the same. It never ends as a normal, shorter result, and reading never hangs or exhausts memory (the format protects the contents of compressed blocks only, so altered contents of an uncompressed block that still form a valid block are outside this).",
 ["crash_points", "inputs"],
 "every truncation point of small files (the crash points of a writer), every damaged value of every length and type byte, every failing call while reading, both reading modes",
 "the tests open a missing file, a directory and a text file only",
 [P+"blob_iterator.rs", P+"file_block.rs", P+"file_block_iterator.rs", P+"reader.rs"],
 [("BlobIterator::next", P+"blob_iterator.rs"), ("FileBlock::from_blob_desc", P+"file_block.rs")],
 ["Reader::new/elements/parallel_for_each/count_objects"])

add("C13", "Database dump write then read returns exactly what was written",
 "For every history of elements handed to the database dump writer, ordered by kind with the versions of each object together and ascending, after close, reading the dump yields the same elements, ordered by kind, id and version, with id, version, changeset, uid, user name, visible flag, refs and members with roles in their order, and the same set of tags; coordinates to 1e-7 degree and timestamps to the second. Text is preserved byte for byte, whatever it contains except NUL (spaces, tabs, newlines, carriage returns, backslashes, quotes, non-ASCII).",
 ["inputs", "histories"],
 "all small histories over an alphabet of elements and texts with every special character of the dump's text format",
 "one test pipes one fixture into a dump and compares nothing but success; no test reads back what was written",
 [A+"write/writer.rs", A+"write/table_data_writers.rs", A+"sql.rs", A+"read/table_fields.rs", A+"read/element_iterator.rs", A+"read/node_relations_reader.rs", A+"read/way_relations_reader.rs", A+"read/relation_relations_reader.rs", A+"read/user_record.rs"],
 [("text escaping", A+"sql.rs"), ("merge of sorted tables", A+"read/element_iterator.rs")],
 ["apidb Reader::elements after Writer::close"])

add("C14", "Current tables of a dump hold exactly the latest state of the history",
 "For every history written to a dump, the current_* tables contain, for each object whose latest version is visible, exactly that version with its tags, refs and members, and nothing of earlier versions or of objects whose latest version is deleted, while the history tables contain every version once. The visibility, version, changeset, timestamp and coordinates in the current tables are those of the latest version.",
 ["histories", "inputs"],
 "all small version histories (creation, change, deletion, restoration) of one to three objects per kind",
 "no test looks at the contents of the current tables",
 [A+"write/writer.rs", A+"write/current_object.rs"],
 [("current object flush on change of id and at close", A+"write/writer.rs"), ("CurrentObject", A+"write/current_object.rs")],
 ["current_* table files of the dump"])

add("C15", "Dumps conform to the database's load format and are referentially complete",
 "Every table file named by the dump's table of contents exists, ends with the end-of-data marker, and each of its rows parses in the database's text load format with the columns of its table in the declared order. Every changeset and user referenced by an element has exactly one row with the right id and name, every tag, ref and member row belongs to an existing object version with consecutive sequence numbers, and the tile of each node is the one derived from its coordinates.",
 ["inputs", "histories"],
 "all dumps of the bounded histories and texts of C13 and C14, parsed by an independent parser of the load format",
 "loading requires a database; no test parses the files",
 [A+"write/writer.rs", A+"write/table_data_writers.rs", A+"write/table_data_writer.rs", A+"write/toc.rs", A+"sql.rs"],
 [("row formatting", A+"write/writer.rs"), ("table writers and toc", A+"write/table_data_writers.rs")],
 ["files of the dump directory"])

add("C16", "Reading a dump does not depend on the physical order of its rows",
 "Reading a database dump yields the same elements whatever the order of rows in its table files, of tables and columns listed in its table of contents, and of relation members, way nodes and tags among each other: refs and members follow their sequence numbers. Elements come by kind, id and version with one sentinel after each kind; objects without tags, refs or members are not lost, and rows never migrate to another object or version.",
 ["inputs", "configurations"],
 "all permutations of rows of small tables, and of columns and table entries, produced by an independent dump generator",
 "the fixture dump has its rows in one order",
 [A+"read/reader.rs", A+"read/table_reader.rs", A+"read/table_pkey.rs", A+"read/element_iterator.rs", A+"read/node_relations_reader.rs", A+"read/way_relations_reader.rs", A+"read/relation_relations_reader.rs", A+"read/table_fields.rs", A+"read/table_def.rs"],
 [("TablePkey sort keys", A+"read/table_pkey.rs"), ("relation readers", A+"read/")],
 ["apidb Reader::elements"])

add("C17", "Elements have one total order: kind, then id, then version",
 "Comparison of elements is a total order consistent with equality: nodes before ways before relations, within a kind by id and then by version, and sentinels after everything. Sorting any list gives the same sequence of keys as sorting the keys themselves, and equality means same kind, id and version.",
 ["inputs"],
 "all pairs and triples over kinds, boundary ids and versions; all permutations of small lists",
 "no test compares elements",
 [M+"element.rs"],
 [("Ord and PartialEq for Element", M+"element.rs")],
 ["Element comparison operators, sort"])

add("C18", "A parallel copy pipeline loses nothing and pipelines do not interfere",
 "Copying a file with parallel iteration, per-thread accumulation flushed at every sentinel, and a shared parallel writer yields a file with exactly the source's elements in canonical order, for every thread schedule. Two writers or two accumulators, alive at the same time or one after the other, never see each other's elements, settings or output.",
 ["schedules", "histories", "configurations"],
 "interleavings of reader, ordering, encoding and writing threads on small files; all interleaved call sequences on two writers and on two accumulators up to a length",
 "the pipeline test runs one fixture once and compares counts",
 [P+"parallel_writer.rs", P+"thread_local_accumulator.rs", P+"reader.rs"],
 [("thread-local state of pools", P+"parallel_writer.rs"), ("ThreadLocalAccumulator", P+"thread_local_accumulator.rs")],
 ["output files", "ThreadLocalAccumulator::elements"], hook=SCHED)

add("C19", "The parallel writer's ordering buffer stays within its bound",
 "Once the parallel writer has worked off the calls made so far, it holds back at most as many elements as its ordering buffer size; everything beyond that has been written to the file, smallest first. This holds for single and list calls of any length.",
 ["schedules", "programs", "configurations"],
 "all call sequences of single and list writes up to a bound, for several buffer and block sizes, observed when all threads are idle",
 "no test observes the file before close",
 [P+"parallel_writer.rs"],
 [("flush when the ordering buffer exceeds its size", P+"parallel_writer.rs")],
 ["output file when all threads are idle"], hook=SCHED)

add("C20", "Short reads, short writes and interruptions do not change any result",
 "If the operating system returns fewer bytes than asked for, or interrupts a call, at any read or write, the results of reading and writing PBF files and dumps are the same as without it. Written files are byte for byte the same and the elements read are the same.",
 ["fault_sequences"],
 "a short transfer or interruption at every single input and output call of small runs, and at all of them at once",
 "tests run on a local file system which always transfers everything",
 [P+"writer.rs", P+"blob_iterator.rs", P+"file_block.rs", A+"write/table_data_writer.rs", A+"read/table_reader.rs"],
 [("write_all/read_exact", P+"writer.rs")],
 ["output files", "elements read"])

add("C21", "Bounding box parsing, merging and comparison of coordinates are exact",
 "A bounding box string is accepted exactly when it consists of four comma-separated numbers, left, bottom, right, top, within longitude and latitude range, with optional white space, and yields those numbers; anything else is an error, never a panic. Merging a point or a box gives the smallest box containing both, in any order of merges, and integer coordinates round to the nearest 1e-7 degree.",
 ["inputs"],
 "all strings of up to five parts over an alphabet of numbers and malformed tokens; all small sets of points merged in all orders",
 "two unit tests try one accepted and one rejected string",
 [M+"bounding_box.rs", M+"coordinate.rs"],
 [("FromStr", M+"bounding_box.rs"), ("merge_*", M+"bounding_box.rs")],
 ["BoundingBox and Coordinate API"])

add("C22", "Reading never changes its input",
 "No reading operation on a PBF file or a database dump (opening, sequential or parallel iteration, counting, bounding box calculation, abandoned iteration) creates, changes or removes anything in the input; the dump reader leaves files only in the temporary directory it was given, and repeated reads give the same elements.",
 ["programs", "inputs"],
 "all sequences of reading operations up to a length, complete or abandoned part way, on small inputs",
 "tests do not compare inputs before and after",
 [P+"reader.rs", A+"read/reader.rs", A+"read/table_reader.rs"],
 [("sorting into the temporary directory", A+"read/table_reader.rs")],
 ["content of the input file or directory"])

add("C23", "A dump that cannot be read completely never passes for a complete one",
 "If a call to the operating system fails while a database dump is read, or a table file is missing, cut off at any byte, contains bytes that are not text, or has a row with too few columns, then opening the dump or iterating over it fails visibly (an error or a panic). Reading that does not fail yields exactly the elements of the complete dump.",
 ["fault_sequences", "crash_points", "inputs"],
 "every system call failed in turn for small dumps (once, or from there on, or after a part of the transfer), every truncation point of every table file, every damaged separator and text byte",
 "the tests read one intact fixture dump",
 [A+"read/reader.rs", A+"read/table_reader.rs", A+"read/table_def.rs", A+"read/node_relations_reader.rs", A+"read/way_relations_reader.rs", A+"read/relation_relations_reader.rs"],
 [("check of the end marker and of the sorted size", A+"read/reader.rs"), ("TableIterator::next", A+"read/table_reader.rs")],
 ["apidb Reader::new/elements"])

add("C24", "Conversions between PBF and database dumps lose and invent nothing",
 "For every history of elements, reading a PBF file and handing the elements to the database dump writer gives a dump that describes exactly those elements, and reading a dump (by this or another program) and handing everything its reader yields to the sequential or the parallel PBF writer gives a valid file with exactly the elements of the dump, in canonical order. All fields survive, tags as a set, coordinates to 1e-7 degree and timestamps to the second. Sentinels, which the dump reader yields after each kind, are not elements: a writer given them anywhere, single or in lists, writes the same as without them.",
 ["inputs", "histories"],
 "all histories of two objects and all combinations of kinds, every value class and pair of classes, texts special to either format, block-size boundaries, each PBF to dump to PBF to dump and from foreign dumps, by four ways of writing; all placements of sentinels",
 "the examples convert one fixture each and compare nothing; tests do not combine the two formats",
 [P+"writer.rs", P+"element_accumulator.rs", P+"parallel_writer.rs", A+"write/writer.rs", A+"read/element_iterator.rs", "examples/apidb-to-pbf.rs", "examples/pbf-to-apidb.rs"],
 [("ElementIterator::next", A+"read/element_iterator.rs"), ("write_element", A+"write/writer.rs"), ("ElementAccumulator::add", P+"element_accumulator.rs")],
 ["dump directory", "output file"])

add("C25", "Block iteration and block-wise copying are faithful",
 "Iterating over the blocks of a valid PBF file yields its header and then each data block in file order, empty ones included and blobs of unknown types left out; each data block holds exactly the elements encoded in it, and its bounding box is the smallest containing its nodes, none if there are no nodes. Handing these blocks to a sequential writer's block-writing call, with either compression, gives a valid file with the same header information and the same blocks, within a block grouped by kind. Bytes handed over as a blob are written as they are, with the length of the blob's header before them.",
 ["inputs"],
 "all encodings of C03 and all headers of C04, read block by block and copied with both compressions, the copy judged by the independent decoder and by reading it again",
 "no test uses the block-level interface",
 [P+"reader.rs", P+"file_block_iterator.rs", P+"file_block.rs", P+"osm_data.rs", P+"osm_header.rs", P+"writer.rs"],
 [("Reader::blocks", P+"reader.rs"), ("Writer::write_file_block/write_blob", P+"writer.rs"), ("FileBlock::serialize", P+"file_block.rs")],
 ["Reader::blocks", "output file"])

add("C26", "Microsecond timestamps convert to ISO 8601 text exactly or give an error",
 "For every number of microseconds since 1970 within the calendar's range (years -262143 to 262142), the conversion gives the UTC date and time of the second it lies in, the fraction dropped towards the past, as YYYY-MM-DDThh:mm:ssZ, with a sign before years outside 0 to 9999. Outside that range it is an error, never a panic or a wrong text.",
 ["inputs"],
 "every day of the years 0 to 9999 at eight points of it, every second of eighteen days, both ends of every year of the range, values around and beyond both ends",
 "two unit tests try zero and the largest number",
 ["src/osm/converters/mod.rs"],
 [("timestamp_to_iso8601_seconds", "src/osm/converters/mod.rs")],
 ["timestamp_to_iso8601_seconds"])

add("C27", "Earlier work leaves no trace in later results",
 "For every history of operations over the same places (PBF files and dumps written completely or abandoned, read completely or in part, files overwritten or cut by others, one temporary directory used for several dumps one after another), each completed writing leaves exactly what it would leave in an empty place, and each reading yields exactly what the file or dump holds at that time. Iterators of one dump reader, and readers with temporary directories of their own, can be opened and advanced in any order without influence on one another.",
 ["histories", "programs"],
 "all sequences of up to four operations out of eleven on a file and out of eleven on dumps; all orders in which two iterators or readers are opened and advanced to the end, and of three in part",
 "each test works in a fresh directory",
 [P+"writer.rs", P+"parallel_writer.rs", P+"reader.rs", A+"write/writer.rs", A+"write/table_data_writer.rs", A+"read/reader.rs", A+"read/table_def.rs", A+"read/element_iterator.rs"],
 [("File::create", P+"writer.rs"), ("TableDataWriter::new", A+"write/table_data_writer.rs"), ("sort_tables", A+"read/reader.rs")],
 ["output file", "dump directory", "apidb Reader::elements"])

add("C28", "Memory in use does not grow with the length of the data",
 "For blocks of a given size, iterating over elements or blocks of a PBF file, copying its blocks, writing elements one by one or in lists with the sequential writer or the dump writer, and iterating over an opened dump take no more memory for a long input than for a short one (with a bounded number of users and changesets). Reading in parallel (parallel_for_each, count_objects, BoundingBoxCalculator) takes at most what one block per task takes, in every schedule. The parallel writer holds no more than its ordering buffer and its queues, whatever the relative speed of its threads, as long as each of them gets its turn.",
 ["inputs", "schedules"],
 "all shapes of data x ways of processing it x numbers of tasks x orders and relative speeds of the threads, each for a short and a long input",
 "tests read small files and look at results, never at memory",
 [P+"reader.rs", P+"element_iterator.rs", P+"file_block_iterator.rs", P+"blob_iterator.rs", P+"parallel_element_iteration_command.rs", P+"bounding_box_calculator.rs", P+"element_accumulator.rs", P+"writer.rs", P+"parallel_writer.rs", A+"write/writer.rs", A+"read/element_iterator.rs"],
 [("Reader::parallel_for_each", P+"reader.rs"), ("ElementAccumulator::add", P+"element_accumulator.rs"), ("flush_sorted_top", P+"parallel_writer.rs")],
 ["the allocator"])

add("C29", "A close that reports success tells the truth, whatever calls came before",
 "For every sequence of calls on a sequential PBF writer, a parallel PBF writer or a database dump writer (header, elements, lists, close; in any order and number, also after close and after calls that failed because the operating system refused to write), no call hangs, and whenever close reports success the output is valid and holds exactly the elements of all calls that succeeded so far. Calls that cannot keep this, such as elements without a header, a second header, or elements after close, are refused by an error (or a panic), at the latest by close, or have no effect.",
 ["histories", "fault_sequences", "schedules"],
 "all sequences of up to five or six calls, each with every failing write of its run; for the parallel writer all sequences of up to four calls, under all schedules",
 "tests make each call once, in the right order, on a disk that works",
 [P+"writer.rs", P+"parallel_writer.rs", P+"element_accumulator.rs", A+"write/writer.rs", A+"write/table_data_writers.rs", A+"write/table_data_writer.rs", A+"write/current_object.rs"],
 [("Writer::close", P+"writer.rs"), ("ParallelWriter::write_header", P+"parallel_writer.rs"), ("ParallelWriter::close", P+"parallel_writer.rs"), ("Writer::close", A+"write/writer.rs")],
 ["output file", "dump directory", "write(2)"])

add("C30", "Names, paths and surroundings do not change any result",
 "Whatever name the operating system accepts (spaces, quotes, pattern and shell characters, line breaks, names that are not UTF-8, of up to 255 bytes), and however the path is spelled (absolute, relative, with ., .. and repeated slashes, through symbolic links), PBF files and dump directories written to it hold what was given, and reading them gives it back; missing output and temporary directories are made, including their parents. Neither the name of the temporary directory, nor the number of processors, nor the local time zone changes any result: all times in a dump are in UTC.",
 ["configurations"],
 "all combinations of special names, spellings of the path, roles of the place and whether it exists",
 "tests use a few plain names under one directory, in the time zone of the machine that runs them",
 [P+"writer.rs", P+"reader.rs", P+"parallel_writer.rs", P+"file_block_iterator.rs", A+"write/writer.rs", A+"write/table_data_writers.rs", A+"write/table_data_writer.rs", A+"read/reader.rs", A+"read/element_iterator.rs", A+"read/table_reader.rs", A+"read/table_iterator.rs"],
 [("Writer::from_element_iterator / new", P+"writer.rs"), ("Reader::new", A+"read/reader.rs"), ("Writer::new", A+"write/writer.rs")],
 ["paths given", "num_cpus", "TZ"])

add("C31", "Numbers of threads and sizes change speed and layout, never contents",
 "Whatever number of tasks or processors reads a PBF file, and whatever the size of the parallel writer's ordering buffer and blocks, the capacity of an accumulator, the length of the lists in which elements are handed over, and the compression level of a dump, the same elements are delivered or written, in valid blocks of at most the size asked for. A setting that cannot be honoured (no tasks, blocks of no elements, more memory than there is) is refused by an error or a panic. No setting makes a call wait forever.",
 ["configurations", "inputs"],
 "all combinations of small, critical and largest sizes with small data, and of selected sizes with data longer than the queues between the threads",
 "tests use one plausible value of each setting",
 [P+"reader.rs", P+"bounding_box_calculator.rs", P+"parallel_writer.rs", P+"thread_local_accumulator.rs", P+"element_accumulator.rs", P+"writer.rs", A+"write/writer.rs"],
 [("Reader::parallel_for_each", P+"reader.rs"), ("split_file_block / flush_sorted_top", P+"parallel_writer.rs"), ("ThreadLocalAccumulator::elements", P+"thread_local_accumulator.rs")],
 ["parameters of constructors and calls", "num_cpus"])

add("C32", "No operation leaves threads or open files behind",
 "Once an operation has returned and the objects it returned are dropped, no thread it started is left and no file it opened is open: whether it succeeded, failed because of its input, a callback or the operating system, or was abandoned at any point (an iterator not drained, a writer not closed). Nor does the number of files that are open at a time grow with the number of blocks or elements: reading in parallel opens at most one file per task besides the one that is looked through.",
 ["fault_sequences", "inputs", "histories"],
 "all operations x inputs (right, cut at every byte, damaged in 34 ways, missing) x failing calls, and all stages at which a writer or iterator is dropped",
 "tests end before leftovers matter, and do not look for them",
 [P+"reader.rs", P+"bounding_box_calculator.rs", P+"parallel_writer.rs", P+"blob_iterator.rs", P+"file_block.rs", P+"writer.rs", A+"write/table_data_writers.rs", A+"read/reader.rs", A+"read/element_iterator.rs"],
 [("Reader::parallel_for_each", P+"reader.rs"), ("BoundingBoxCalculator::calc", P+"bounding_box_calculator.rs"), ("ParallelWriter::drop", P+"parallel_writer.rs")],
 ["threads", "file descriptors"])

add("C33", "Elements, texts and blocks of any size survive every path",
 "Elements with any number of tags, references or members and texts of any length, blocks in which any number of different texts occur, files of any number of elements and of blocks, and dumps of any number of users, changesets and elements keep all their values when written by any of the writers and read by any of the readers. Elements that together exceed the size the PBF format allows for a block are divided among several blocks, and a single element that exceeds it is refused by an error: no written file breaks the limit.",
 ["inputs", "configurations"],
 "all sizes around every power of two (to 2^17 quick, 2^20 thorough) and all small ones, for each part of an element, each kind and each path, and for the elements and blocks of a file; blocks from below to far above the limits of the format",
 "tests use the elements of a small region, all of them small",
 [P+"string_table_builder.rs", P+"dense_group_builder.rs", P+"ways_group_builder.rs", P+"relations_group_builder.rs", P+"osm_data.rs", P+"file_block.rs", P+"writer.rs", P+"parallel_writer.rs", A+"sql.rs", A+"write/writer.rs", A+"write/table_data_writers.rs", A+"read/table_reader.rs", A+"read/element_iterator.rs"],
 [("StringTableBuilder::add", P+"string_table_builder.rs"), ("FileBlock::serialize", P+"file_block.rs"), ("TableIterator::next", A+"read/table_reader.rs")],
 ["Reader::elements", "output file", "dump directory"])

add("C34", "Operations at the same time do not influence each other",
 "Several operations at the same time in different threads (reading a PBF file by iteration or in parallel, counting, calculating the bounding box, writing with either PBF writer, writing and reading dumps), on different places or reading the same input, with readers of their own or a shared one, give what each gives alone, whatever the order of their steps. So does an operation within the callback of parallel iteration. No such combination hangs.",
 ["schedules", "histories"],
 "all pairs and triples of operations x all points at which one gives way to the other; all schedules of two small parallel operations on one reader, one file or two",
 "tests run one operation at a time",
 [P+"reader.rs", P+"bounding_box_calculator.rs", P+"parallel_element_iteration_command.rs", P+"file_block.rs", P+"writer.rs", P+"parallel_writer.rs", A+"write/writer.rs", A+"write/table_data_writers.rs", A+"read/reader.rs", A+"read/element_iterator.rs", A+"read/table_def.rs"],
 [("Reader::parallel_for_each", P+"reader.rs"), ("BoundingBoxCalculator::calc", P+"bounding_box_calculator.rs"), ("Reader::new", A+"read/reader.rs"), ("Writer::close", A+"write/writer.rs")],
 ["threads of the caller", "read(2), write(2), open(2)"])

add("C35", "Every value the database allows can be read from a dump",
 "A dump that another program made of a database with the same schema is read whatever values its columns hold: NULL where the schema allows it, the whole range of numbers, times with or without fractions, all values of enumerations, any text; the elements are those that the rows describe, and a value that an element cannot hold makes reading fail visibly. Columns, tables and entries of the table of contents of which the reader does not know change nothing.",
 ["inputs"],
 "all values of the representative set of each column's type x rows, all pairs of them within a table, all subsets of the columns that may be NULL; ids, versions and sequence numbers at the ends of their range; strange columns and tables at every place",
 "tests read one dump, made by this program's writer",
 [A+"read/reader.rs", A+"read/table_reader.rs", A+"read/table_fields.rs", A+"read/table_pkey.rs", A+"read/changeset_record.rs", A+"read/user_record.rs", A+"read/element_iterator.rs", A+"read/relation_member_record.rs", A+"sql.rs"],
 [("TableReader::create_changeset", A+"read/table_reader.rs"), ("TableReader::create_user", A+"read/table_reader.rs"), ("Reader::get_table_def_strings", A+"read/reader.rs"), ("TableFields::new", A+"read/table_fields.rs")],
 ["dump directory"])

add("C36", "Elements, file infos, boxes and blocks are plain values",
 "Elements, tags, file infos, coordinates, bounding boxes and blocks hold exactly what they were made with or last set to: an accessor gives it back, taking a part out gives that part and leaves all others and empties nothing else, an element made again from its parts is the same element, and whatever is done to one value changes no other, neither the clone nor the original nor what a writer was given. The same holds for each after any sequence of such operations, and what is written is what the accessors then say. A file info says that a feature is required or optional exactly when that feature is in its list; the default box is that of the whole world and the default block holds no elements.",
 ["histories", "inputs"],
 "all sequences up to length 4 of the operations on pools of elements; all sequences up to 3 of the setters of a file info; all sequences up to 4 of looking at, emptying and writing blocks; all boxes and points over the representative coordinates",
 "tests construct a value once and read it once",
 [M+"element.rs", M+"node.rs", M+"way.rs", M+"relation.rs", M+"tag.rs", M+"coordinate.rs", M+"bounding_box.rs", P+"file_info.rs", P+"osm_data.rs", P+"file_block.rs"],
 [("Node::take_tags", M+"node.rs"), ("FileInfo::with_bounding_box", P+"file_info.rs"), ("OsmData::take_elements", P+"osm_data.rs"), ("BoundingBox::merge_point", M+"bounding_box.rs")],
 ["accessors", "output file"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in props:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
print(len(props))
