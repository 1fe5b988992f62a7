#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the properties)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "No damaged hive can crash the caller",
 "Whatever bytes a crash, a torn, lost, stale or misdirected sector write, a truncated load or flipped bits leave in the buffer, and whenever the damage happens between two calls, every public operation (open, validate, navigate, look up, iterate, read data, clear volatile subkeys) returns a value, nothing, or an NtHiveError. It never panics, aborts, overflows an integer in a checked build, or exhausts the stack.",
 ["fault_sequences", "inputs", "histories"],
 "every committed hive, every sequence of storage faults applied to it before or during a session, every sequence of public calls on it",
 "All 11 tests read one pristine 156 KiB hive file; no test feeds a single damaged byte, and the set of damaged images is unbounded.",
 ["src/hive.rs", "src/key_node.rs", "src/key_value.rs", "src/big_data.rs", "src/leaf.rs", "src/index_root.rs", "src/subkeys_list.rs", "src/key_values_list.rs", "src/string.rs", "src/helpers.rs"],
 [("checked sub-range arithmetic for every structure", "src/helpers.rs byte_subrange"), ("cell header validation before any cell is used", "src/hive.rs cell_range_from_data_offset"), ("signature validation of each record", "src/key_node.rs, src/key_value.rs, src/subkeys_list.rs, src/big_data.rs"), ("bounded recursion of the mutable walk", "src/key_node.rs KeyNodeMut::clear_volatile_subkeys")],
 [("hive bytes", "base block and bins, untrusted", "src/hive.rs Hive")],
 ["every public method of Hive, KeyNode, KeyValue, the iterators, KeyValueData, NtHiveNameString"])

prop("C02", "Every call does bounded work, also on cyclic or hostile images",
 "On any image, including one whose references form cycles or share subtrees, every call finishes: one step of an iterator does a constant amount of work, finding a subkey does work logarithmic in the number of subkeys per path component, finding a value does work linear in the number of values, and clearing volatile subkeys does work at most proportional to the size of the image. Reading a value's data does work at most proportional to the data that exists in the image for it. The work of a call never depends on a size or count field that the image cannot back with bytes.",
 ["fault_sequences", "inputs"],
 "every committed hive, every storage fault on it including redirected references, every public call",
 "The tests run each operation once on a small well-formed tree and measure no work; cycles, shared subtrees and inflated counts never occur in the test hive.",
 ["src/key_node.rs", "src/leaf.rs", "src/index_root.rs", "src/key_values_list.rs", "src/big_data.rs", "src/hive.rs"],
 [("binary search over leaves and index roots", "src/key_node.rs binary_search_subkey_in_index_root, binary_search_subkey_in_leaf"), ("non-empty leaves below an index root", "src/leaf.rs LeafItemRanges::from_index_root_item_range"), ("counts checked against the cell before iterating", "src/leaf.rs, src/index_root.rs, src/key_values_list.rs, src/big_data.rs"), ("recursive clear with cycle protection", "src/key_node.rs KeyNodeMut::clear_volatile_subkeys")],
 observe=["accesses to the byte store and executed basic blocks per public call"])

prop("C03", "A hive that opens with validation is a committed hive",
 "If the operating system that writes the hive crashes at any instant of its flush (sequence number bumped, dirty sectors written, second sequence number bumped, with any subset of the in-flight sectors lost or torn), then opening the file that is left with validation either fails or exposes exactly the last committed state or exactly the state being committed, never a mixture. A file whose flush had completed, or had not started, always opens with validation, and one that is rejected can still be opened without validation.",
 ["crash_points", "histories", "fault_sequences"],
 "every history of registry changes and flushes, every crash point inside a flush, every subset and tearing of the in-flight sectors",
 "No test opens a hive whose flush was interrupted: the only hive in the tests is clean, so the sequence number and checksum checks never decide anything.",
 ["src/hive.rs"],
 [("sequence number comparison", "src/hive.rs validate_sequence_numbers"), ("XOR-32 checksum over the base block", "src/hive.rs validate_checksum"), ("opt-out", "src/hive.rs Hive::without_validation")],
 [("primary and secondary sequence number", "equal only when no flush is in progress", "src/hive.rs HiveBaseBlock"), ("checksum", "XOR-32 of the first 508 bytes", "src/hive.rs HiveBaseBlock")],
 ["Hive::new", "Hive::validate", "Hive::without_validation"])

prop("C04", "Validation rejects exactly the damaged headers, and names the reason",
 "Opening with validation succeeds if and only if the buffer holds a complete header with the right signature, equal sequence numbers, major version 1 and minor version at least 3, primary file type, in-memory file format, a bins size that is a multiple of 4096 and is present in the buffer, clustering factor 1, and a checksum equal to the XOR of the 127 preceding dwords (0 stored as 1, 0xFFFFFFFF as 0xFFFFFFFE). A rejection is one of the rules that the header really breaks, with the values that are really there. Validating later a hive opened without validation gives the same verdict as opening it with validation.",
 ["fault_sequences", "inputs"],
 "every header a writer can produce and every truncation, bit flip, torn or overwritten field in it, with or without a checksum that matches the damage",
 "Every test header is valid, so seven of the eight rules never fail in a test and no rejection value is ever looked at.",
 ["src/hive.rs", "src/error.rs"],
 [("the eight header rules", "src/hive.rs Hive::validate and validate_*"), ("length check", "src/hive.rs Hive::without_validation")],
 [("base block", "4096-byte header", "src/hive.rs HiveBaseBlock")],
 ["Hive::new", "Hive::without_validation", "Hive::validate", "Hive::major_version", "Hive::minor_version"])

prop("C05", "A committed registry tree reads back exactly",
 "After any history of creating and deleting keys and values, setting data, types, names and class names, rearranging the on-disk index structures, flushing and rebooting, walking the hive from its root yields exactly the committed tree: every key once and in index order, every value once and in list order, with its name, class name, data type, data size and all data bytes. This holds for every supported format version (1.3 and up), for every subkey index form (li, lf, lh, ri), for names in either stored encoding, and for data stored in the value record, in one cell, or in a segmented big data record.",
 ["histories", "configurations", "crash_points"],
 "every history of registry operations and flushes, in every format version and index layout",
 "The tests look at a fixed handful of keys and values of one hive written once by one Windows version; they never enumerate the tree nor compare it with what was written.",
 ["src/hive.rs", "src/key_node.rs", "src/key_value.rs", "src/key_values_list.rs", "src/subkeys_list.rs", "src/leaf.rs", "src/index_root.rs", "src/big_data.rs", "src/string.rs"],
 [("cell resolution", "src/hive.rs cell_range_from_data_offset"), ("subkey iteration", "src/leaf.rs LeafKeyNodes, src/index_root.rs IndexRootKeyNodes"), ("value iteration", "src/key_values_list.rs KeyValues"), ("data forms", "src/key_value.rs KeyValue::data, src/big_data.rs BigDataSlices")],
 observe=["Hive::root_key_node", "KeyNode::subkeys", "KeyNode::values", "KeyNode::name", "KeyNode::class_name", "KeyValue::name", "KeyValue::data", "KeyValue::data_size", "KeyValue::data_type"])

prop("C06", "Lookups find exactly what is there, ignoring case the Windows way",
 "In every committed state, asking a key for a subkey or a value by name finds the entry whose name equals the given one after mapping each UTF-16 code unit to upper case (Basic Multilingual Plane, one to one), whatever the stored encoding and letter case, and finds nothing when no such entry exists; the entry found is the same one enumeration yields. A path lookup equals the component-by-component lookups, with empty components ignored. Subkeys are enumerated in strictly ascending order of the exposed name comparison.",
 ["histories", "inputs", "configurations"],
 "every history of key and value creations and deletions, every index layout it can leave, every lookup name in any letter case, present or absent",
 "The tests look up 512 ASCII names and five others in one fixed index layout; they cover a dozen of the 1185 case mappings and no layout with uneven or single-entry leaves.",
 ["src/key_node.rs", "src/string.rs", "src/leaf.rs", "src/index_root.rs"],
 [("two-level binary search", "src/key_node.rs binary_search_subkey_in_index_root, binary_search_subkey_in_leaf"), ("case-insensitive comparison", "src/string.rs cmp_iter, BMP_UPPERCASE_TABLE"), ("path split", "src/key_node.rs subpath"), ("linear value search", "src/key_node.rs value")],
 observe=["KeyNode::subkey", "KeyNode::subpath", "KeyNode::value", "NtHiveNameString comparisons"])

prop("C07", "Typed value readers return the whole value or an error",
 "For every stored value, reading it as a string, list of strings, 32-bit or 64-bit number gives the exact interpretation of its complete data (text up to the first NUL, lists up to the first empty string, undecodable UTF-16 replaced), and gives the same result however the data is spread over cells and segments, also when a character straddles two segments. When the type does not fit, a fixed-size number has another length, or any part of the data is damaged or missing, the reader returns an error: it never returns truncated, shifted, spliced or foreign data. After an error or the end, a list of strings yields nothing more.",
 ["histories", "fault_sequences", "inputs"],
 "every value a writer can commit, in each storage form, and every storage fault that hits its record, cells, segment list or segments",
 "The tests read nine healthy values; only one of them spans segments, its text is ASCII, and none is damaged.",
 ["src/key_value.rs", "src/big_data.rs"],
 [("string decoding", "src/key_value.rs utf16le_to_string_lossy, RegMultiSZStrings"), ("number decoding", "src/key_value.rs dword_data, qword_data"), ("segment concatenation", "src/big_data.rs BigDataSlices, src/key_value.rs KeyValueData::into_vec")],
 observe=["KeyValue::string_data", "KeyValue::multi_string_data", "KeyValue::dword_data", "KeyValue::qword_data", "KeyValueData::into_vec"])

prop("C08", "Damage stays where it is: other reads are exact, affected reads say so",
 "After storage faults in some structures of a hive, every read that does not depend on a damaged byte returns exactly what it would return without the damage, and iteration yields an error for each entry that cannot be read and goes on with the entries after it. A read that does depend on damaged bytes returns an error whenever those bytes are not a well-formed structure that fits its cell and the buffer; it never reports such an entry as absent, skips it silently, or returns another entry in its place.",
 ["fault_sequences", "histories"],
 "every committed hive, every set of storage faults on it, every read",
 "No test reads a hive with damage in it, so neither the containment nor the reporting of damage is ever exercised.",
 ["src/hive.rs", "src/key_node.rs", "src/key_value.rs", "src/key_values_list.rs", "src/subkeys_list.rs", "src/leaf.rs", "src/index_root.rs", "src/big_data.rs"],
 [("per-item results of the iterators", "src/helpers.rs iter_try, src/leaf.rs, src/index_root.rs, src/key_values_list.rs, src/big_data.rs"), ("cell allocation, alignment and size checks", "src/hive.rs cell_range_from_data_offset"), ("error propagation in searches", "src/key_node.rs")],
 observe=["all read operations on a damaged image"])

prop("C09", "Errors name the faulty bytes",
 "When an operation fails, the error tells the truth about the image: its offset, counted from the first byte of the hive, is the position of the record, field or cell at fault on the path of that operation, and the values it quotes are those found there or the space really left. If a single field of an otherwise intact hive was damaged, the offset lies in the damaged structure or field, and the same failing call gives the same error wherever the buffer is located in memory.",
 ["fault_sequences", "inputs"],
 "every committed hive, every storage fault, every failing read",
 "No test provokes an error on a damaged hive, so no offset or quoted value in any error is ever compared with the file.",
 ["src/error.rs", "src/hive.rs", "src/key_node.rs", "src/key_value.rs", "src/key_values_list.rs", "src/subkeys_list.rs", "src/leaf.rs", "src/index_root.rs", "src/big_data.rs"],
 [("absolute offsets of fields and cells", "src/hive.rs offset_of_field, offset_of_data_offset"), ("error construction at each check", "all parsing modules")],
 observe=["NtHiveError returned by any operation"])

prop("C10", "Clearing volatile subkeys is complete, minimal and restartable",
 "When clearing volatile subkeys succeeds, the volatile subkey count of every key reachable from the root is zero and no other bit of the buffer has changed. At every instant of the operation, and when it fails on damage or is cut off at any point, the buffer differs from the original at most in such counts being zero already, so all reads return the same as before and running it again completes it. It fails exactly when a key on the way cannot be read.",
 ["crash_points", "histories", "fault_sequences"],
 "every committed hive with any volatile counts, every instant of the operation as a cut-off point, every storage fault on the keys it visits",
 "The one test calls it on the test hive, whose counts are all zero, and only checks that it returns Ok; it looks at no byte of the result.",
 ["src/hive.rs", "src/key_node.rs", "src/leaf.rs", "src/index_root.rs", "src/subkeys_list.rs"],
 [("recursive mutable walk", "src/key_node.rs KeyNodeMut::clear_volatile_subkeys"), ("mutable iteration", "src/leaf.rs LeafKeyNodesMut, src/index_root.rs IndexRootKeyNodesMut")],
 [("volatile_subkey_count", "the only field written", "src/key_node.rs KeyNodeHeader")],
 ["Hive::clear_volatile_subkeys and the buffer bytes"])

prop("C11", "Shared readers never disturb each other, under any interleaving",
 "When any number of threads read one hive at the same time, with keys, values and iterators cloned and handed from thread to thread, every call returns exactly what it returns when the same calls are made by one thread alone, whatever the interleaving, also inside calls and also when calls fail on damage.",
 ["schedules", "histories", "fault_sequences"],
 "every number of threads, every assignment of calls and handles to threads, every interleaving down to the steps inside a call",
 "All tests are single-threaded and use one handle at a time; no schedule is ever varied.",
 ["src/hive.rs", "src/key_node.rs", "src/key_value.rs", "src/leaf.rs", "src/index_root.rs", "src/key_values_list.rs", "src/big_data.rs"],
 [("no interior mutability or global state; all handles borrow the hive immutably", "whole crate"), ("iterators keep their own cursor", "src/leaf.rs, src/index_root.rs, src/key_values_list.rs, src/big_data.rs, src/key_value.rs")],
 observe=["results of all read operations per thread"])

prop("C12", "Results depend on the hive bytes and nothing else",
 "The result of every operation, including every error it reports, is a function of the bytes of the hive alone: it does not depend on where the buffer lies in memory or how it is aligned, on the kind of byte slice that holds it, on what was opened, read or failed before at the same or another place, or on which calls were made earlier on the same hive.",
 ["histories", "configurations", "fault_sequences"],
 "every image, damaged or not, every placement and backing of it, every history of earlier hives and calls",
 "The tests open the same file in a fresh heap buffer each time and never twice in different surroundings, so no dependency on address or history can show.",
 ["src/hive.rs", "src/key_value.rs", "src/key_node.rs", "src/string.rs", "src/leaf.rs", "src/index_root.rs"],
 [("unaligned on-disk structures", "repr(packed) structures with zerocopy in all modules"), ("offsets relative to the base block", "src/hive.rs offset_of_field"), ("no global state", "whole crate")],
 observe=["all operations, compared across placements and histories"])

prop("C13", "Iterators keep the iterator contract in every state",
 "For the iterators over subkeys, values, big data segments and strings, at any point of any mix of calls (next, nth with any argument, size_hint, len, count, last, clone, dropped half-way) on damaged or intact hives: nth equals repeated next, count and last equal what exhausting a clone yields, size_hint and len bound resp. equal the items still to come, a clone continues independently from the same point, and once an iterator has returned None it returns None for ever.",
 ["histories", "fault_sequences"],
 "every interleaved sequence of iterator calls on every committed or damaged hive",
 "The tests only call next (and collect) from the start to the end on healthy lists; nth, last, count, size_hint and clone are never called from outside, least of all in the middle, past the end or with damaged items.",
 ["src/leaf.rs", "src/index_root.rs", "src/subkeys_list.rs", "src/key_values_list.rs", "src/big_data.rs", "src/key_value.rs"],
 [("hand-written nth, last, count, size_hint, ExactSizeIterator, FusedIterator", "src/leaf.rs, src/index_root.rs, src/subkeys_list.rs, src/key_values_list.rs, src/big_data.rs"), ("RegMultiSZStrings", "src/key_value.rs")],
 observe=["SubKeyNodes", "IndexRootKeyNodes", "LeafKeyNodes", "KeyValues", "BigDataSlices", "RegMultiSZStrings"])

prop("C14", "Reading needs no heap, and owned copies only what exists",
 "Opening, validating, navigating, looking up, iterating, comparing and printing names, reading raw data and numbers, and clearing volatile subkeys never allocate memory, on intact or damaged hives, so they work while every allocation fails; names and raw data are slices of the caller's buffer itself. Operations that return owned strings or vectors allocate at most in proportion to the data bytes really present in the image for that value or name, whatever sizes damaged fields claim.",
 ["fault_sequences", "inputs", "histories"],
 "every committed or damaged hive, every operation, an allocator that fails at any point",
 "The tests run with a working allocator and measure no allocation; damaged size fields, which drive over-allocation, never occur.",
 ["src/key_value.rs", "src/big_data.rs", "src/string.rs", "src/key_node.rs", "src/hive.rs"],
 [("zero-copy handles holding byte ranges", "whole crate"), ("owned readers", "src/key_value.rs into_vec, string_data, multi_string_data; src/string.rs to_string_checked, to_string_lossy")],
 observe=["allocator calls during each public operation"])

prop("C15", "The readhive tool survives faulty storage",
 "The readhive example prints the complete tree below the root exactly as committed, however the operating system splits, interrupts or delays its reads and writes. If opening or reading the file fails, or the bytes it gets are damaged or cut short, it ends with a non-zero exit status and a message, or with exactly the listing those bytes stand for; it never panics or crashes.",
 ["fault_sequences", "schedules", "crash_points"],
 "every committed hive, every sequence of short reads, interrupted calls, I/O errors and premature end of file, every storage fault in the file",
 "The example is only compiled, never run, by the tests.",
 ["examples/readhive.rs", "src/hive.rs", "src/key_node.rs", "src/key_value.rs"],
 [("file reading and error reporting", "examples/readhive.rs main"), ("tree walk", "examples/readhive.rs process_subkey")],
 observe=["standard output, exit status of the readhive process"])

prop("C16", "Name comparison is a total order on all strings",
 "For any two names, in either encoding or as string slices, the comparison operators agree with each other and with equality, are antisymmetric and transitive, and compare as the sequences of upper-cased UTF-16 code units do.",
 ["inputs"], "every pair and triple of strings",
 "The tests compare about fifteen pairs of strings.",
 ["src/string.rs"], [("cmp_iter and the comparison traits", "src/string.rs")],
 observe=["PartialEq, PartialOrd, Ord of NtHiveNameString"])

prop("C17", "Behaviour is independent of endianness and word size",
 "On every platform Rust supports, big-endian and 32-bit ones included, every operation gives the same results for the same hive bytes.",
 ["configurations"], "every target platform",
 "The tests run on one little-endian 64-bit target.",
 ["src/hive.rs", "src/key_node.rs", "src/key_value.rs", "src/helpers.rs"], [("little-endian zerocopy types, checked arithmetic", "all modules")],
 observe=["all operations on another target"])

prop("C18", "Handles cannot outlive or alias the hive they read",
 "No safe program can use a key, value, name, data slice or iterator after the hive or its buffer is gone or while the hive is being modified, and a handle obtained through another handle stays valid as long as the hive itself.",
 ["programs"], "every safe Rust program using the crate",
 "A test can only contain programs that compile.",
 ["src/lib.rs", "src/key_node.rs", "src/key_value.rs"], [("lifetimes on all handles, forbid(unsafe_code)", "src/lib.rs, all handle types")],
 observe=["the compiler's verdict"])

prop("C19", "Every feature configuration behaves the same",
 "The no_std, alloc and std configurations of the crate all build, and operations available in several configurations give the same results in each.",
 ["configurations"], "every feature combination",
 "The tests run with all features on.",
 ["Cargo.toml", "src/lib.rs"], [("cfg(feature) on owned-data functions", "src/key_value.rs, src/string.rs")],
 observe=["builds and results per configuration"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
