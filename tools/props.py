#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "exhaustive bounded exploration of the real code (stateless model checking, branching by choices), against a reference model"
P = []
def p(id, title, statement, over, quant, why, files, mech, technique=SEQ, note="", bounds=""):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why, files=files.split(), mech=mech, technique=technique, note=note))

p("C01", "What is written to a write-ahead log is read back, in order",
  "For every sequence of records appended to a log, reading the log from its start returns exactly these records, byte for byte and in order, and then reports the end. This holds for records of any length, empty ones and ones spanning several 32 KiB blocks included, wherever block boundaries fall.",
  "histories inputs", "all sequences of record lengths and contents",
  "The tests write a few short records; whether fragmentation and reassembly agree depends on where each record meets a block boundary, after any history of earlier records.",
  "src/db/log_writer.rs src/db/log_reader.rs src/util/crc.rs src/util/coding.rs",
  [("fragmentation into blocks", "src/db/log_writer.rs add_record, emit_physical_record"), ("reassembly", "src/db/log_reader.rs read_next, read_record")])
p("C02", "After a crash a log yields exactly the records that reached the device whole",
  "If a log is cut off at any byte, reading it returns every record that lies completely before the cut, in order, and nothing else, and then reports the end of the log rather than an error or a partial record. If unwritten sectors of the unfinished tail read as zeros, no record is invented and every record before the damage is returned. When adding a record succeeds, the record has been written to the device and flushed, so that a crash from then on cannot take it away.",
  "crash_points histories", "all crash points and torn sectors of all histories within bounds",
  "The tests never cut a log; each crash point of each history is a different input to recovery.",
  "src/db/log_reader.rs src/db/log_writer.rs",
  [("torn tail is taken as the end", "src/db/log_reader.rs read_next"), ("append only writing", "src/db/log_writer.rs")])
p("C03", "Damage to a log is detected and never becomes a record",
  "If bytes of a log are changed, swapped or zeroed, a reader that verifies checksums returns only records that were written, each at most once and in the written order, and all records before the first damage. It reports damage inside the log as a corruption, and never crashes, loops or reads outside its buffers.",
  "inputs fault_sequences", "all single damages and pairs of damages to all logs within bounds",
  "The tests read only intact logs; what a damaged header or body does depends on which byte and bit it is.",
  "src/db/log_reader.rs src/util/crc.rs",
  [("checksum over type and data", "src/db/log_reader.rs read_next; src/util/crc.rs"), ("type sequence check", "src/db/log_reader.rs read_record")])
p("C04", "A log survives short writes and reads, interruptions and device errors",
  "When the device takes or gives fewer bytes than asked or is interrupted, the log written and the records read are the same as with a perfect device. When it fails, the failing call reports an I/O error (a failure while opening a reader, the first read), everything acknowledged before and after stays readable, and reading never returns a wrong record.",
  "fault_sequences histories", "all sequences of device answers with a bounded number of deviations",
  "The tests use in-memory or ordinary files that never answer short or fail.",
  "src/db/log_writer.rs src/db/log_reader.rs src/util/status.rs",
  [("write loop", "src/db/log_writer.rs emit_physical_record"), ("read loop", "src/db/log_reader.rs read_block")])
p("C05", "The bytes of a log are those of the LevelDB log format",
  "Every log written is byte for byte the LevelDB format: 32 KiB blocks, 7 byte headers of masked CRC-32C, little-endian length and fragment type, and block ends too short for a header filled with zeros. Every log in that format is read back correctly, whoever wrote it.",
  "inputs histories", "all sequences of record lengths",
  "The tests check one log's checksum and length bytes at most; a matching error in writer and reader passes every round trip.",
  "src/db/log_writer.rs src/db/log_reader.rs",
  [("header layout", "src/db/log_writer.rs emit_physical_record"), ("header parsing", "src/db/log_reader.rs read_next")])
p("C06", "Reading a log from an offset yields the records that start there",
  "A log reader given a start offset returns, in order, exactly the records whose first fragment starts at or after that offset, never a partial or invented record, and then reports the end. This holds for every offset up to the end of the log, also in the middle of a fragment or of a block's trailer.",
  "inputs", "all start offsets into all logs within bounds",
  "The tests always read from offset 0.",
  "src/db/log_reader.rs",
  [("skip to the block of the offset", "src/db/log_reader.rs new"), ("skip fragments before the offset", "src/db/log_reader.rs read_next")])
p("C07", "Integers, lengths and buffers encode as in LevelDB and decode to themselves",
  "Every sequence of fixed 32 and 64 bit integers, variable length 32 and 64 bit integers, raw buffers and length-prefixed slices encodes to the LevelDB encoding, whatever container it is written to, and decodes to the same values with the position just after each. Fixed integers are little-endian, variable length ones use 7 bits per byte, least significant first, in the fewest bytes.",
  "inputs histories", "all values and sequences of values",
  "The tests try some dozens of values; encodings change length at every power of 128 and differ by container.",
  "src/util/coding.rs",
  [("encoders", "src/util/coding.rs Encoder"), ("decoders", "src/util/coding.rs Decoder")])
p("C08", "Checked decoding and encoding never leave the buffer",
  "Whatever bytes a checked decoder is given, each read either returns the value the bytes encode or fails, leaving the position where it was, and never touches memory outside the buffer; truncated or over-long variable length integers and length prefixes beyond the end fail. A checked write into a fixed-size buffer that lacks room fails and changes neither the buffer nor the position, nor any byte outside.",
  "inputs histories", "all byte strings and sequences of reads and writes within bounds",
  "Reading outside a buffer usually goes unnoticed in a test, and malformed inputs are hardly tried.",
  "src/util/coding.rs",
  [("length checks", "src/util/coding.rs check_length"), ("varint termination", "src/util/coding.rs get_varint")])
p("C09", "Checksums are CRC-32C, whatever the data, its alignment or its splits",
  "The checksum of any byte string is its CRC-32C, independent of its length, where it lies in memory, and whether it is computed at once or extended piece by piece. Masking is LevelDB's, and unmasking a masked checksum gives it back for all 32 bit values.",
  "inputs configurations", "all data, alignments and splits; all 32 bit values",
  "The tests use a few vectors of fixed length; the implementation has separate paths by alignment and length.",
  "src/util/crc.rs",
  [("table driven extension", "src/util/crc.rs extend"), ("mask and unmask", "src/util/crc.rs")])
p("C10", "Hash codes are those of LevelDB",
  "The hash code of any byte string with any seed is LevelDB's, for every length, every byte value and every memory alignment. Strings, byte slices, byte vectors and slices of the same bytes hash alike.",
  "inputs", "all byte strings and seeds",
  "The tests have a few vectors; lengths modulo 4 and bytes above 127 take different paths.",
  "src/util/hash.rs", [("hash loop and tail", "src/util/hash.rs hash_code")])
p("C11", "A bloom filter never denies a key it was built from",
  "For every set of keys, duplicates, empty keys and keys of arbitrary bytes included, and every bits-per-key setting, the filter built from the keys answers that each of them may be present. Lookups in any filter, malformed or empty ones included, never crash or read outside it.",
  "inputs configurations", "all key sets and settings within bounds",
  "The tests build a handful of filters; one lost bit shows only for particular keys, sizes and settings.",
  "src/util/filter_policy_bloom.rs src/util/hash.rs",
  [("bit setting and probing", "src/util/filter_policy_bloom.rs create_filter, key_may_match")])
p("C12", "Bloom filters are LevelDB's, bit for bit, with its false positive rate",
  "The filter for a list of keys is that of LevelDB's builtin bloom filter with 0.69 times the bits per key, rounded to the nearest number from 1 to 30, as probe count: same size, bits, trailing probe count and reserved encodings, so that filters are interchangeable. With 10 bits per key at most 2 % of the keys not in a filter are reported as possibly present.",
  "inputs configurations", "all key counts and settings within bounds",
  "The tests only ask for keys they added; filters written by another version are never read.",
  "src/util/filter_policy_bloom.rs src/util/hash.rs",
  [("probe sequence by rotated hash", "src/util/filter_policy_bloom.rs"), ("probe count", "src/util/filter_policy_bloom.rs new")])
p("C13", "Filter blocks lose no key and have LevelDB's layout",
  "For every sequence of data block starts and key additions, the finished filter block is laid out as LevelDB's: one filter per 2 KiB of data offsets, then the offset array, its position and the base of 11. Every key added for a data block may match in the filter found for that block's offset.",
  "histories inputs", "all sequences of block starts and additions within bounds",
  "The tests build two blocks with a toy hash; filters are generated by offsets, which may skip or repeat 2 KiB ranges.",
  "src/table/filter_block.rs",
  [("filter generation per 2 KiB", "src/table/filter_block.rs start_block, generate_new_filter, finish")],
  note="Builds with cfg(level_db_mc), which makes the module public.")
p("C14", "The bytewise comparator is the total lexicographic order of unsigned bytes",
  "The default comparator orders any two byte strings lexicographically by unsigned bytes, a proper prefix before the longer string. It never refuses a pair, is antisymmetric and transitive, and says equal only for identical strings.",
  "inputs", "all pairs and triples of byte strings within bounds",
  "The tests compare a few ASCII strings; bytes above 127, zero bytes and prefixes are where orders differ.",
  "src/util/comparator.rs", [("compare", "src/util/comparator.rs compare")])
p("C15", "Shortened separator and successor keys still separate",
  "For keys start < limit the shortest separator s satisfies start <= s < limit and is not longer than start; when start is not less than limit it is start itself. The short successor of a key is at least the key and not longer; both are the keys LevelDB chooses.",
  "inputs", "all pairs of keys within bounds",
  "The tests try a few pairs; a wrong separator misplaces every key between two blocks, and only for some byte differences.",
  "src/util/comparator.rs", [("find_shortest_separator, find_short_successor", "src/util/comparator.rs")])
p("C16", "A slice behaves as the byte string it holds",
  "A slice holds exactly the bytes it was made from, and size, emptiness, equality, order, prefix test, indexing, ranges, prefix removal, text conversion and merging with or without a joiner are those of a byte string. Out of range accesses are refused, and slices never share or leak memory.",
  "inputs histories", "all byte strings and sequences of operations within bounds",
  "The tests use short texts; ranges, prefixes and embedded zero or high bytes are hardly tried.",
  "src/util/slice.rs", [("owned byte vector", "src/util/slice.rs")])
p("C17", "An arena slice holds its bytes for as long as the arena lives",
  "Bytes copied into an arena are returned unchanged by every slice made of them, whatever is allocated later from the same arena, until the arena is dropped. Sub-slices are exactly the requested ranges and ranges outside are refused, text and bytes are read back as given, and copies made of a slice outlive the arena.",
  "histories inputs", "all sequences of creations within bounds",
  "The existing tests hardly touch this type; stale or overlapping memory shows only after particular later allocations.",
  "src/util/unsafe_slice.rs src/util/arena.rs", [("copy into the arena", "src/util/unsafe_slice.rs new_with_arena")])
p("C18", "Arena memory is exclusive, stays put, is accounted for and is returned",
  "Every region an arena hands out has the requested size, overlaps no other and keeps its bytes until the arena is dropped, whatever is requested later. Memory usage is the sum of the blocks obtained, small requests share 4096 byte blocks, requests of over a quarter block get their own, and dropping the arena returns everything.",
  "histories inputs", "all sequences of request sizes within bounds",
  "Overlap needs a particular sequence of sizes around the block boundaries and goes unnoticed unless all earlier regions are re-read.",
  "src/util/arena.rs", [("block policy", "src/util/arena.rs allocate, allocate_fallback")],
  note="Two findings are recorded in known_findings.txt.")
p("C19", "A skip list is the ordered set of the keys inserted",
  "Whatever keys are inserted in whatever order, a skip list contains exactly these, iterates them in strictly increasing comparator order, and reports their number; inserting a key that is there already changes nothing. This holds for every outcome of the random tower heights and every comparator; a key that cannot be compared is refused with an error, and a refused insertion changes nothing.",
  "histories configurations", "all insertion sequences and all tower heights within bounds",
  "Tower heights are random: a test sees one of exponentially many shapes per run.",
  "src/db/skip_list.rs", [("search and linking by level", "src/db/skip_list.rs insert, seek")])
p("C20", "A skip list cursor stands where its moves put it",
  "A cursor over a skip list is valid exactly when it stands on an element, moves to the first, the last and the next element in key order, and returns that element's key. Insertions in between never make it skip, repeat or lose elements beyond its position.",
  "histories configurations", "all move sequences over all lists and tower heights within bounds",
  "The tests walk one list from the front; the empty list, the last element and moves after insertions are not tried.",
  "src/db/skip_list.rs", [("Iter", "src/db/skip_list.rs iter, next, seek_to_last")])
p("C21", "A skip list returns all memory, and its keys live as long as it does",
  "Dropping a skip list returns every block of memory it took, whatever was inserted or refused, and nothing is freed twice or used after it was freed. Keys obtained from the list or a cursor stay readable until both list and arena are gone.",
  "histories configurations", "all insertion sequences, tower heights and orders of release within bounds",
  "No test looks at memory; leaks and double frees are silent.",
  "src/db/skip_list.rs", [("Drop", "src/db/skip_list.rs")])
p("C22", "The cache answers like a map",
  "As long as nothing is evicted, looking up a key in the cache returns the value last inserted for it, or nothing if it was never inserted, was erased or pruned. This holds for any number of entries, across table growth, and for keys that share hash bucket, shard or the whole hash; the total charge is the sum of the charges held.",
  "histories inputs", "all operation sequences over colliding keys, and all fill levels within bounds",
  "The tests use a few keys; chains in one bucket need keys with chosen hashes, and removals depend on the position in the chain.",
  "src/util/cache.rs", [("hash table chains and resizing", "src/util/cache.rs HandleTable"), ("sharding", "src/util/cache.rs ShardLRUCache")])
p("C23", "The cache stays below its capacity and gives up its oldest entries first",
  "After every insertion the charge held in each of the 32 shards is below the shard's equal share of the capacity, rounded up. Entries are given up in the order of their last insertion, only as many as needed for that, and an entry charged the share or more is not kept; lookups do not change the order, and erasing and pruning give their charge back.",
  "histories configurations", "all sequences of insertions, erasures and prunings for all small capacities",
  "The tests never fill a cache; the victim depends on the whole history of the shard.",
  "src/util/cache.rs", [("eviction loop", "src/util/cache.rs insert, lru_remove")])
p("C24", "A cached value lives exactly as long as the cache or a reader holds it",
  "A value obtained from the cache stays usable after it is evicted, replaced, erased, pruned or the cache is dropped, and is destroyed exactly once, when the last holder lets go. Values no longer in the cache and not held are destroyed at once, and dropping the cache returns all its memory.",
  "histories", "all operation sequences and release orders within bounds",
  "No test holds a value across an eviction or counts destructions; leaks and double frees are silent.",
  "src/util/cache.rs", [("reference counting by Arc, raw handles", "src/util/cache.rs")])
CNOTE = "Exhaustive within the preemption bound and the programs printed and written to the evidence file, on the real code and its real locks; interleavings are sequentially consistent, weak memory is covered as data races (vector clocks) only."
CONC = "stateless model checking of the real multi-threaded code under a controlled scheduler: all schedules within a preemption bound"
p("C25", "Threads may share a cache",
  "Any number of threads may insert into, look up in and measure one shared cache at once: the answers are those of some order of the calls that respects their times, each shard's charge being read at some moment of a total. No call waits for ever, and no thread sees a value torn, half inserted or already destroyed. A cache can be shared or sent exactly if its values may be shared.",
  "schedules histories", "all schedules with up to 2 or 3 preemptions of all programs of two or three threads within bounds",
  "The threaded tests run a few schedules of the millions; a lookup beside an eviction goes wrong in a window of some instructions.",
  "src/util/cache.rs", [("a read-write lock for each shard", "src/util/cache.rs ShardLRUCache insert, lookup, total_charge"), ("values handed out by Arc under the lock", "src/util/cache.rs look_up")],
  technique=CONC, note=CNOTE)
p("C26", "A mutex lock excludes, whichever handle is used",
  "All handles taken from one mutex lock exclude each other: at any moment at most one guard exists, what one holder wrote the next one sees, and no thread waits for ever. try_lock is refused only while a thread holds or takes the lock; after a holder panics every handle reports it and still gives access to the value. The value lives until the last handle and the owner are gone, and no longer.",
  "schedules histories", "all schedules with up to 3 preemptions of all programs of two or three threads within bounds",
  "One test counts with threads and sees one schedule; refusals, panics and the release of the last handle are not tested.",
  "src/util/mutex_lock.rs", [("handles share one Arc<Mutex>", "src/util/mutex_lock.rs get_lock, lock, try_lock")],
  technique=CONC, note=CNOTE)
p("C27", "A memtable stores each entry in LevelDB's form",
  "Adding a key and value with a sequence number and type stores one entry: the length of the internal key, the key, the tag of sequence number and type, the length of the value and the value, as LevelDB encodes them. All entries added stay stored unchanged, and adding never blocks, fails or overruns its memory.",
  "histories inputs", "all sequences of additions and all key and value lengths within bounds",
  "The tests never add to a memtable; lengths change their encoding at powers of 128.",
  "src/db/mem_table.rs src/db/db_format.rs src/util/coding.rs", [("add", "src/db/mem_table.rs add")])
p("C28", "Lookup keys and tags have LevelDB's encoding",
  "A lookup key for any user key and sequence number yields the memtable key (length, user key, tag) and the internal key (user key, tag) exactly as LevelDB encodes them, the tag being the sequence number shifted by 8 bits plus the type. Value types convert to and from their numbers, and other numbers are refused.",
  "inputs", "all key lengths and sequence numbers around encoding boundaries",
  "There are no tests for these encodings; they change at key lengths of 120 and 16376 and with every bit of the sequence number.",
  "src/db/db_format.rs", [("LookupKey, pack_sequence_and_type", "src/db/db_format.rs")])
p("C29", "A version edit's record says exactly what was set and added",
  "Encoding a version edit into an empty buffer yields LevelDB's record of exactly the comparator name, numbers, deleted files and new files that were set since it was made or cleared, and of all compaction pointers, which a clear keeps as in LevelDB, with the values given last and pointers and files in the order given. Encoding does not change the edit, and file descriptions and record tags keep the values they are given.",
  "histories inputs", "all sequences of settings, additions, deletions and clears within bounds",
  "One test encodes one number and checks nothing; which fields appear depends on the history.",
  "src/db/version_edit.rs src/db/file_meta_data.rs", [("encode_to and the has flags", "src/db/version_edit.rs")])
p("C30", "A linked list is a sequence",
  "After any sequence of additions at the front, the back and given positions, a linked list holds these elements in that order, each found by its position for reading and for writing, and reports its length. Positions outside are refused and change nothing, and dropping the list frees every element once, however long it is.",
  "histories", "all sequences of additions within bounds",
  "The tests build one or two lists; a broken backward link shows only for particular positions and later operations.",
  "src/util/linked_list.rs", [("doubly linked nodes", "src/util/linked_list.rs")])
p("C31", "A histogram's report is that of the values added",
  "After any sequence of additions of numbers from 0 to 1e100, merges and clears, a histogram's text reports the count, average, standard deviation, minimum, median and maximum of the values, and the count and shares of every non-empty LevelDB bucket. Merging equals adding the other's values and leaves the other unchanged, and clearing equals starting anew.",
  "histories inputs", "all operation sequences within bounds, all bucket boundaries",
  "The tests add two values; a wrong bucket boundary or a field forgotten in merge or clear shows only in particular sequences.",
  "src/util/histogram.rs", [("add, merge, clear, percentile", "src/util/histogram.rs")])
p("C32", "The random number generator is reproducible and keeps its ranges",
  "For every seed the generator yields the fixed sequence of its recurrence (seeds 0 and 2147483647 count as 1), with draws between 1 and 2147483647. A uniform draw below n is the draw modulo n, one-in-n is true when that is 0, and a skewed draw of n is below two to the n.",
  "inputs histories", "all 2^32 seeds, all request sequences within bounds",
  "The tests look at two seeds; out of range values occur for few of the 2^32 states.",
  "src/util/random.rs", [("recurrence and reduction", "src/util/random.rs next")])
p("C33", "A status keeps its kind and message",
  "A status made in any way reports exactly the kind it was made with through every query, and its message is the one given, two messages being joined by a colon and a space and an empty second one dropped; a success has no message. Kinds convert to distinct texts and to and from their numbers, other numbers are refused, and I/O errors become I/O statuses with their text.",
  "inputs", "all kinds, constructors and message pairs of a set",
  "The tests try some constructors; the properties range over all kinds, constructors and accessors together.",
  "src/util/status.rs", [("Status, LevelError", "src/util/status.rs")])
p("C34", "The array macro yields exactly the elements asked for",
  "For every element expression and length, arr! yields an array of exactly that many elements, each made by evaluating the expression anew, in order; a path names an element macro, which is called with each index in turn and the variables capacity and default_length in scope. When making an element fails, those made before are destroyed once and none is made after. non_null_new_uncheck! evaluates its operand once and yields that pointer.",
  "inputs", "all lengths up to 65 and around powers of two up to 1025, forms of length, kinds of element expression and failing elements of a set",
  "The macro is used once, with one length and two elements; nothing tests other lengths, forms of literals or expressions.",
  "custom_proc_macro/src/lib.rs src/util/cache.rs", [("arr, non_null_new_uncheck", "custom_proc_macro/src/lib.rs"), ("the shards of a cache", "src/util/cache.rs ShardLRUCache new_with_capacity")])
exec(open(os.path.join(R, "tools", "props_extra.py")).read()) if os.path.exists(os.path.join(R, "tools", "props_extra.py")) else None

P.sort(key=lambda x: x["id"])
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"], quantifier=dict(over=x["over"], text=x["quant"]),
            why_tests_cant=x["why"], anchors=dict(files=x["files"], mechanism=[dict(name=a, where=b) for a, b in x["mech"]],
            hook_needed="cfg(level_db_mc)" if any(y.startswith("src/table") or y.startswith("src/traits") for y in x["files"]) else None)), ensure_ascii=False) + "\n")
for x in P: assert len(x["title"]) <= 80, x["id"]
M = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="level_db_mc", enable="RUSTFLAGS='--cfg level_db_mc' (env.sh); without it the code is as before", source_commits=["a467dd6dfe983d293f162a05fc1815cbbf8fff5d"] + globals().get("HOOKS", [])),
    checks=[dict(property=x["id"], quick_cmd=f"./check.sh {x['id']} quick", thorough_cmd=f"./check.sh {x['id']} thorough", technique=x["technique"], level="model_checking",
        level_note=(x["note"] + " " if x["note"] else "") + "Exhaustive within the bounds printed and written to the evidence file, on the real code compiled with AddressSanitizer; the reference model and the bounds are trusted." if x["technique"] == SEQ else x["note"]) for x in P],
    not_applicable=[])
json.dump(M, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
