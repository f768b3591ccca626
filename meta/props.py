"""Single source of truth for properties.jsonl (written by bin/gen-meta)."""

def P(id, title, statement, over, text, why, files, mech, observe, state=None, **kw):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": "none"}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}

PROPS = [
# ---------------------------------------------------------------- concurrency
P("C01", "SPSC queue: lossless FIFO hand-off under every schedule",
  "With one producer and one consumer thread running in any interleaving, the single-producer/single-consumer queue delivers exactly the accepted items, each once, in the order they were enqueued, and never holds more than its capacity. An enqueue is refused only when the queue is full and a dequeue reports empty only when nothing enqueued earlier is pending. Every item is fully visible to the consumer when it is dequeued (the hand-off itself is free of data races).",
  ["schedules", "histories", "configurations"],
  "all interleavings of one producer and one consumer at memory-access granularity, all queue sizes and all wrap-arounds",
  "The test runs a few timed free-running threads on x86 only; it cannot enumerate schedules, wrap-around positions or weaker memory orders.",
  ["inc/fast/spsc_bounded_queue.h"],
  [("SPSCQ_ENQ", "inc/fast/spsc_bounded_queue.h"), ("SPSCQ_DEQ", "inc/fast/spsc_bounded_queue.h")],
  "return value and dequeued item of each enqueue/dequeue call",
  [("rd/wr indices", "consumer / producer positions"), ("slots", "queued items")]),
P("C02", "MPMC bounded queue is a linearizable FIFO",
  "For any number of producer and consumer threads in any interleaving, the multi-producer/multi-consumer queue's successful non-blocking operations behave as if each took effect atomically between its call and its return on one bounded first-in first-out queue. A refusal is exact (full or empty at some instant of the call) unless a successful opposite operation overlaps it. No accepted item is lost, duplicated, invented or seen half-written, and when no operation is in progress the reported size, full and empty indications match the contents.",
  ["schedules", "histories", "configurations"],
  "all interleavings of producers/consumers at memory-access granularity, all capacities and wrap-arounds",
  "The test free-runs threads and checks only aggregate order; specific preemption points (between reservation and publication) are essentially never hit.",
  ["inc/fast/mpmc_bounded_queue.h"],
  [("__mpmc_q_enq/__mpmc_q_deq", "inc/fast/mpmc_bounded_queue.h")],
  "call/return history of enqueue, dequeue, size, full, empty"),
P("C03", "MPMC queue blocking variants never lose, reorder or strand items",
  "The waiting enqueue completes exactly when its item has entered the queue and the waiting dequeue completes exactly when it has removed the item at its position; used together by any number of threads they form a linearizable bounded FIFO. A waiting call whose condition becomes permanently satisfiable (space or items available) always completes.",
  ["schedules", "histories"],
  "all interleavings of waiting and non-waiting producers/consumers",
  "Existing tests do not exercise the waiting variants at all.",
  ["inc/fast/mpmc_bounded_queue.h"],
  [("__mpmc_q_enq_wait/__mpmc_q_deq_wait", "inc/fast/mpmc_bounded_queue.h")],
  "call/return history; absence of stuck calls"),
P("C04", "Ring buffer bulk and burst operations are atomic and FIFO",
  "For any mix of single/multi producer and consumer threads, each ring operation behaves as one atomic step on a bounded FIFO: a bulk (fixed) operation moves all requested items contiguously or nothing, and a burst (variable) operation moves the largest number that space or contents permit (not counting opposite operations still in progress) and reports it. Items are never lost, duplicated, reordered or visible before they are completely written.",
  ["schedules", "histories", "configurations"],
  "all interleavings of SP/MP producers and SC/MC consumers, all burst sizes, capacities and index wrap-arounds",
  "The test free-runs threads with fixed batch sizes; reservation/commit windows between producers are not enumerable that way.",
  ["inc/fast/ringbuf.h"],
  [("__rte_ring_mp_do_enqueue, __rte_ring_mc_do_dequeue, sp/sc variants", "inc/fast/ringbuf.h")],
  "return values and item arrays of enqueue/dequeue bulk/burst calls, count/free_count/full/empty at quiescence"),
P("C05", "Blocking sync queue: bounded FIFO with no lost wakeups",
  "Any number of threads may enqueue into and dequeue from the blocking queue: items come out exactly once in global enqueue order, the queue never holds more than its declared size, an enqueue blocks only while it is full and a dequeue only while it is empty. No schedule loses a wake-up or deadlocks while matching work exists, and a signal handled by a waiting thread changes nothing.",
  ["schedules", "histories"],
  "all interleavings of producers and consumers at lock/semaphore operations",
  "Only a smoke test through the job/work managers exists; schedules around the semaphore/mutex hand-off are not explored.",
  ["inc/fast/syncq.h"],
  [("SYNCQ_ENQ/SYNCQ_DEQ", "inc/fast/syncq.h")],
  "call/return history and stuck threads"),
P("C06", "Job manager runs every job exactly once and drains before returning",
  "Every job submitted to the shared-queue job manager is executed exactly once by one of its workers, whatever the number of workers and the schedule. Waiting for completion returns only after every submitted job has finished and reports how many jobs failed.",
  ["schedules", "histories", "configurations"],
  "all interleavings of submitters and workers, worker counts, job counts, failing jobs",
  "No stable test drives the job manager; a free-running test could not enumerate schedules anyway.",
  ["src/posix/job.c", "inc/posix/job.h"],
  [("job_manager_submit / job_manager_wait / worker loop", "src/posix/job.c")],
  "which jobs ran, how often, before wait returned; returned failure count"),
P("C07", "Work manager keeps per-thread order and drains before returning",
  "Work submitted for a specific thread runs on that thread in submission order and exactly once; work submitted without a thread is distributed round-robin and the thread that will run it is reported to the submitter. Waiting for completion returns only after all submitted work has finished and reports how many items failed.",
  ["schedules", "histories", "configurations"],
  "all interleavings of the submitter and the workers, worker counts, routing choices",
  "No stable test drives the work manager.",
  ["src/posix/work.c", "inc/posix/work.h"],
  [("work_submit / work_manager_wait / worker loop", "src/posix/work.c")],
  "per-worker execution log, returned thread index, returned failure count"),
P("C08", "Locked hash table: operations are atomic and always release locks",
  "With the table's mutex locking enabled, concurrent insert, replace, probe, lookup and remove calls from any threads behave as if executed one at a time on a map, in every interleaving. Every operation, on every path including duplicate keys, missing keys and memory exhaustion, releases every lock it acquired, so no schedule deadlocks and no reader sees a half-updated entry.",
  ["schedules", "histories"],
  "all interleavings of concurrent operations on shared and distinct buckets including while the table is resized",
  "The hash table test uses the no-op lock manager on one thread.",
  ["src/hashtable/hashtab.c", "src/hashtable/hashtab_iter.c", "src/posix/cmutex.c", "inc/utils/lockmgr.h"],
  [("bucket/table locking in insert/find/remove/resize", "src/hashtable/hashtab.c")],
  "call/return history, lock acquire/release events through the lock-manager callbacks"),
# ---------------------------------------------------------------- hash tables & allocators
P("H01", "General hash table implements a map across any history",
  "For every sequence of insert, insert-if-absent, replace, lookup, remove and remove-if operations, across any number of table resizes and any hash distribution, results equal those of a mathematical map from keys to values. The table reports its exact number of entries and counts exactly what was done, and each replaced or removed value, and at deletion each remaining one, is handed to the user's destructor exactly once. An operation the allocator has no memory for reports it and leaves the map as it was; an insertion that only fails to enlarge the table succeeds.",
  ["histories", "configurations", "inputs"],
  "all operation sequences, key sets, hash functions including fully colliding ones, initial sizes and fill limits",
  "The test inserts one word list once; it never interleaves removal, replacement and growth.",
  ["src/hashtable/hashtab.c", "inc/utils/hashtab.h"],
  [("hash_table_insert/probe/replace/lookup/remove/remove_if/resize", "src/hashtable/hashtab.c")],
  "return values, values returned, destructor calls, reported node count"),
P("H02", "Hash table iteration visits every live entry exactly once",
  "Every full-table iterator, sorted iterator and apply/remove-if traversal visits exactly the entries present, each once, the sorted one in the order of the caller's comparison function. A per-bucket iterator visits, each once, all entries whose hash equals that of the given key and nothing that is not in the table. Traversals do not alter the contents unless they remove entries, and remove-if removes exactly the entries its predicate selects.",
  ["histories", "inputs"],
  "all table contents, after all histories, at all table sizes",
  "Only one traversal of one table is exercised.",
  ["src/hashtable/hashtab_iter.c", "src/hashtable/hashtab.c"],
  [("iterators", "src/hashtable/hashtab_iter.c")],
  "sequence of entries produced by the traversal"),
P("H03", "Fast integer-keyed hash table implements a map across any history",
  "For every sequence of probe-or-insert, replace, find and remove operations with non-zero keys and non-null values, across growth and bucket overflow, results equal those of a map. The reported entry count is exact, resizing never loses or duplicates an entry, and a workload whose number of live entries stays bounded keeps the table's memory bounded.",
  ["histories", "inputs", "configurations"],
  "all operation sequences and key sets incl. keys engineered to collide",
  "Tests insert then look up fixed sets; removal interleaved with growth and heavy collisions are not covered.",
  ["src/hashtable/fast-ht.c", "inc/utils/fast-ht.h"],
  [("ht_probe/ht_replace/ht_find/ht_remove/resize", "src/hashtable/fast-ht.c")],
  "return values, table size statistics"),
P("M01", "Fixed-size pool hands out disjoint, aligned, reusable blocks",
  "Blocks obtained from a memory pool never overlap each other while live, are aligned, have the full requested size usable, and keep the contents their owner wrote. A released block becomes available again, a pool with a configured maximum never hands out more live blocks than that and can always hand out that many, and a pool built on caller memory never touches bytes outside it. Everything a pool took from its provider is given back when the pool ends or cannot be made. The objects of an object pool are born and die exactly once, and a manager stacked on a pool never gives less than was asked for.",
  ["histories", "configurations", "inputs"],
  "all allocate/free sequences and pool configurations (block size, min units, max blocks, caller memory)",
  "The test uses a few fixed configurations and frees in simple orders.",
  ["src/mempool.c", "inc/utils/mempool.h"],
  [("mempool_alloc / mempool_free / chunk growth", "src/mempool.c")],
  "addresses returned, contents preserved, exhaustion"),
P("M02", "Arena allocations are disjoint, aligned and stable until release",
  "Every allocation from an arena is aligned, has the full requested size, does not overlap any other allocation of the same arena, and keeps its contents until the whole arena is released. Allocation sizes larger than the arena's block size succeed as well.",
  ["histories", "inputs", "configurations"],
  "all allocation size sequences and chunk sizes",
  "The test makes a small fixed number of allocations.",
  ["src/arena.c", "inc/utils/arena.h"],
  [("arena_alloc", "src/arena.c")],
  "addresses returned and contents preserved"),
P("M03", "Memory managers hand every request to their provider and its answer back",
  "Whatever functions a memory manager is made from, each request reaches exactly one provider once, with the manager's context and the size or block given, and what the provider answers is what the caller gets; a manager without a release function accepts releases and does nothing, the default one reports exhausted memory as nothing, and the checking one never returns without memory.",
  ["inputs", "faults", "histories"],
  "every kind of manager, every history of requests and releases, memory running out at any of them",
  "No test covers it.",
  ["src/memmgr.c", "inc/utils/memmgr.h"],
  [("managers", "src/memmgr.c")],
  "calls seen by the providers and values returned"),
# ---------------------------------------------------------------- filters
P("B01", "Bloom filters never report a stored element as absent",
  "For standard, counting and scalable Bloom filters of any capacity and error rate, every element that has been added (and for counting filters not removed as often as added) is reported as possibly present after any history of additions and probes. The filter reports exactly how many elements it holds.",
  ["histories", "inputs", "configurations"],
  "all add/probe histories, capacities, error rates, growth of the scalable filter",
  "Tests check a few sizes with one add phase followed by one probe phase.",
  ["src/hashtable/bloom.c", "inc/utils/bloom.h"],
  [("standard/counting/scalable add, find", "src/hashtable/bloom.c")],
  "membership answers, size"),
P("B02", "Counting Bloom removal never damages other elements",
  "Removing an element that was added undoes exactly one addition, and removing an element that the filter reports absent changes nothing. After any mix of additions (any number of times per element) and removals of previously added elements, every element with more additions than removals is still reported present.",
  ["histories", "inputs"],
  "all add/remove histories incl. many duplicates and removals of absent elements",
  "Tests never add an element hundreds of times nor remove absent elements.",
  ["src/hashtable/bloom.c"],
  [("counting filter add/remove", "src/hashtable/bloom.c")],
  "membership answers after each step, size"),
P("B03", "Xor filters contain every key they were built from",
  "A static xor filter of either fingerprint width built from any set of distinct keys, of any size from one upward, reports every one of those keys as present and answers every probe deterministically. Building never touches memory outside the filter.",
  ["inputs", "configurations"],
  "all key sets and sizes, both fingerprint widths",
  "Tests build a handful of large random sets; small sets are never built.",
  ["src/hashtable/xorfilter.c", "inc/utils/xorfilter.h"],
  [("construction by peeling, lookup", "src/hashtable/xorfilter.c")],
  "membership answers, sanitizer reports"),
P("B04", "Saved filters load back identically and damaged files are refused",
  "A Bloom or xor filter written to disk and loaded again, in memory or memory-mapped, answers every probe exactly like the original and has the same parameters. A file in which any byte was altered, or which was truncated or extended, is refused with an error instead of yielding a filter, and so is a load for which memory, a mapping or a descriptor cannot be had; a refused load keeps nothing.",
  ["inputs", "configurations", "fault_sequences"],
  "all filters, all single- and multi-byte corruptions, all truncations",
  "Tests only do an undamaged round trip.",
  ["src/hashtable/bloom_marshal.c", "src/hashtable/xorfilter_marshal.c"],
  [("marshal/unmarshal with checksum", "src/hashtable/bloom_marshal.c")],
  "membership vectors before/after; error codes"),
P("B05", "Saving a filter replaces the destination file atomically",
  "If saving a filter is interrupted at any point, or any of its system calls fails, the destination path holds either the complete previous contents or the complete new filter, never a mixture or a partial file. A failed save reports an error and a reported success means the new filter is in place.",
  ["crash_points", "fault_sequences"],
  "every system call of the save operation failing or being the last one executed",
  "No test injects a failure or crash.",
  ["src/hashtable/bloom_marshal.c", "src/hashtable/xorfilter_marshal.c"],
  [("write temp file + rename", "src/hashtable/bloom_marshal.c")],
  "destination file contents after each injected crash/fault, return code"),
P("B06", "Constant database lookups find every record and survive damaged files",
  "For every constant database file, a lookup yields exactly the value of the first record stored under the key, and reports every other key as absent, including keys that share their hash, their table or their start position with others, keys with hash zero, empty keys and values, and completely filled tables. In a damaged or truncated file every lookup ends with an error or with data inside the file, and files too short to be a database are refused.",
  ["inputs", "configurations", "fault_sequences"],
  "all lists of records and table loads, all hash collisions, all damages to index, tables, records and length",
  "No test covers the reader.",
  ["src/cdb_read.c", "src/cdb_reader.h"],
  [("cdb_find", "src/cdb_read.c"), ("cdb_read_init", "src/cdb_read.c")],
  "value, length and error code of every lookup"),
# ---------------------------------------------------------------- containers
P("V01", "Vectors behave as mathematical sequences",
  "For every sequence of vector operations (push and pop at both ends, reserve, append, copy, swap, sort, shuffle, random sampling), the vector's contents and length are those of the corresponding mathematical sequence, and no operation reads or writes outside the vector's storage. Shuffling permutes and sampling selects existing elements only.",
  ["histories", "inputs"],
  "all operation sequences incl. empty and self-sized operands and growth boundaries",
  "The test runs one scripted sequence.",
  ["inc/fast/vect.h"],
  [("VECT_* macros", "inc/fast/vect.h")],
  "contents after each operation"),
P("V02", "Linked lists behave as mathematical sequences",
  "For every sequence of operations on singly and doubly linked lists (insert at head/tail/before/after, remove any/head/tail, append or prepend another list), forward traversal yields exactly the expected sequence, backward traversal its reverse, and a removed element is no longer reached. Head, tail and emptiness reports agree with the sequence.",
  ["histories"],
  "all operation sequences on both list families",
  "The test runs one scripted sequence.",
  ["inc/fast/list.h", "inc/fast/llist.h"],
  [("SL_*/DL_* macros", "inc/fast/list.h")],
  "traversals after each operation"),
P("V03", "Bitsets behave as sets of bit positions",
  "For every history of set, clear, test, copy, complement, union, intersection, difference and symmetric difference on bitsets of any size, each bit position's value is that of the corresponding set, and operations never affect other positions or other bitsets.",
  ["histories", "inputs", "configurations"],
  "all operation sequences and sizes incl. multiples of the word size and neighbours",
  "The test covers few sizes and operations.",
  ["inc/fast/bitset.h"],
  [("bitset_*", "inc/fast/bitset.h")],
  "all bits after each operation"),
P("V04", "Circular queue behaves as a bounded FIFO",
  "For every sequence of enqueue, dequeue, flush and initialise operations on the single-threaded circular queue of any capacity, dequeues return the accepted items in order, refusals happen exactly when full (enqueue) or empty (dequeue), and the size, full and empty reports are exact across wrap-around.",
  ["histories", "configurations"],
  "all operation sequences and capacities",
  "No stable test covers it.",
  ["inc/fast/queue.h"],
  [("FQ_* macros", "inc/fast/queue.h")],
  "return values and reports"),
P("V05", "Priority queue always yields the extremal element",
  "For every sequence of insertions, extractions and removals at a position, the heap's extraction returns an element that is extremal under the caller's ordering among those present, and the multiset of stored elements is exactly inserted minus removed ones.",
  ["histories", "inputs"],
  "all operation sequences incl. duplicates, empty and single-element heaps",
  "No stable test covers it.",
  ["inc/utils/minheap.h"],
  [("insert/remove/sift", "inc/utils/minheap.h")],
  "returned elements and remaining multiset"),
P("V06", "Growable byte buffer preserves everything appended",
  "For every sequence of byte and block appends, reserves and resets, the growable buffer's contents equal the concatenation of everything appended since the last reset, across any number of reallocations, and its capacity is never below its length.",
  ["histories", "inputs"],
  "all append sequences and initial capacities",
  "No test uses it.",
  ["inc/fast/buf.h"],
  [("fast_buf_*", "inc/fast/buf.h")],
  "contents and length after each operation"),
# ---------------------------------------------------------------- text
P("T01", "String splitting returns exactly the delimited fields",
  "Splitting any string by any delimiter set yields exactly the fields between delimiters, in order and without altering their bytes, with a trailing empty field omitted; on request surrounding white space is dropped and runs of delimiters are collapsed. The fixed-array variant gives the same answer when the array is large enough, fails otherwise, and never writes outside the array.",
  ["inputs", "configurations"],
  "all strings, delimiter sets, both collapse modes, all array sizes",
  "Tests check a table of a dozen strings.",
  ["src/strsplit.c", "src/bits.h"],
  [("strsplit / strsplit_quick", "src/strsplit.c")],
  "returned fields"),
P("T02", "CSV and argument splitting honour quoting for every input",
  "Splitting a separated-value line or a command line into words treats quoted sections (either quote character) as a single unit with the quotes removed, unescapes an escaped quote in separated-value lines, and reports an unterminated quote or a too-small output array as an error. No input makes the splitter read or write outside the given string or array.",
  ["inputs", "configurations"],
  "all strings over delimiters, quotes, escapes and ordinary characters, all array sizes",
  "Tests check a table of strings.",
  ["src/strsplit_csv.c", "src/splitargs.c"],
  [("strsplit_csv / strsplitargs", "src/strsplit_csv.c")],
  "returned fields or error"),
P("T03", "Escaping round-trips and unescaping decodes every sequence",
  "For every string, every set of characters to escape and every escape character that is outside that set and is not a letter or digit, unescaping the escaped string gives back the original. Unescaping decodes each documented escape form (named, octal, decimal, hexadecimal) to the byte it denotes and leaves everything else unchanged.",
  ["inputs"],
  "all byte strings without NUL, escape sets and escape characters",
  "Tests check a few fixed strings.",
  ["src/escape.c", "src/unescape.c"],
  [("gstr_escape / gstr_unescape", "src/escape.c")],
  "result string"),
P("T04", "Number and size parsing is exact or reports an error",
  "Parsing a number in any supported base returns the exact value denoted by the text (two's complement for a minus sign), or an error if the text is malformed or the value does not fit in 64 bits or in the requested integer type. Parsing a size with unit suffix returns exactly the number times the unit, or an error if the product does not fit or the suffix is unknown; no input is silently wrapped or truncated.",
  ["inputs"],
  "all strings, bases and suffixes, especially values around the overflow boundary",
  "Tests check a table of values; the overflow boundary of each suffix is not enumerated.",
  ["src/strtosize.c", "inc/utils/strutils.h"],
  [("strtou64 / strtosize", "src/strtosize.c")],
  "return code and value"),
P("T05", "Binary-text codecs round-trip and respect output bounds",
  "Hexadecimal and base-64 encodings decode back to the original bytes for every input and every way of splitting the input into blocks, encoded text is the standard base-64 text apart from line breaks, and invalid hexadecimal text is rejected. No codec writes beyond the output size it was given.",
  ["inputs", "configurations"],
  "all byte strings, block partitions and output sizes",
  "Tests check fixed samples, mostly whole buffers.",
  ["src/str2hex.c", "src/b64_encode.c", "src/b64_decode.c"],
  [("str2hex", "src/str2hex.c"), ("base64_encode_block/decode_block", "src/b64_encode.c")],
  "encoded/decoded bytes, canaries"),
P("T06", "Growable strings behave as mathematical strings",
  "For every sequence of growable-string operations (append, copy, truncate, trim, chop, unquote, duplicate, compare, read line), the contents and length equal those of the corresponding mathematical string and the text is always properly terminated within its storage. Operations never alter other strings.",
  ["histories", "inputs"],
  "all operation sequences and contents incl. growth boundaries",
  "Only escaping and variable expansion are tested.",
  ["src/gstring.c", "inc/utils/gstring.h"],
  [("gstr_*", "src/gstring.c")],
  "contents, length, capacity after each operation"),
P("T07", "Variable expansion substitutes every reference exactly once",
  "Expanding variables in any template replaces each plain or braced reference by the value the lookup supplies for exactly that name, turns an escaped dollar sign into a literal one, copies all other text unchanged, and never re-expands substituted text. Unknown names and malformed references are reported as errors.",
  ["inputs"],
  "all templates and lookup tables",
  "Tests check a table of templates.",
  ["src/gstring_var.c"],
  [("gstr_varexp", "src/gstring_var.c")],
  "result text or error"),
P("T08", "Line reading returns every line of any stream",
  "Reading a text stream line by line returns, in order, the content of every line ended by CR, LF or CR-LF, without the line break and NUL-terminated within the given buffer (an empty line has length zero), also a last line without a line break, and reports an over-long line or a read error as an error instead of overflowing. No input makes it write outside the buffer it was given.",
  ["inputs", "histories", "configurations"],
  "all byte streams and buffer sizes",
  "No stable test covers it.",
  ["src/freadline.c"],
  [("freadline", "src/freadline.c")],
  "returned lines, canaries"),
P("T09", "String utilities stay in bounds and compute the documented result",
  "Bounded copy, directory-name extraction, trimming, quote removal and case-insensitive comparison produce the documented result for every input string and buffer size: always terminated, truncated exactly when the buffer is too small and reported as such. None of them writes outside its buffer.",
  ["inputs", "configurations"],
  "all strings and buffer sizes",
  "Tests check small tables.",
  ["src/strcopy.c", "src/strlcpy.c", "src/dirname.c", "src/strtrim.c", "src/strunquote.c", "src/strcasecmp.c"],
  [("strcopy, dirname, strtrim, strunquote, strcasecmp", "src/")],
  "result strings, return codes, canaries"),
P("T10", "Pattern matchers find exactly the occurrences of the pattern",
  "For every non-empty pattern and every text, the Boyer-Moore, turbo Boyer-Moore and Rabin-Karp searches return exactly the positions at which the pattern occurs, in increasing order, and the Knuth-Morris-Pratt search returns exactly the leftmost non-overlapping occurrences. None reads outside the pattern or the text.",
  ["inputs"],
  "all patterns and texts incl. periodic, overlapping, longer-than-text and long patterns",
  "The test compares against one naive run on one file.",
  ["inc/utils/strmatch.h"],
  [("kmp_search, boyer_moore_search, rabin_karp_search", "inc/utils/strmatch.h")],
  "returned offsets"),
P("T11", "Sizes, hex dumps and progress bars shown to people state the exact data",
  "A byte count shown in human units uses the largest fitting binary unit (up to EB) with the exact integer part and the exact two decimal digits below it, is always NUL terminated within the buffer, and is exact for every 64-bit value. A hex dump has one line per 16 bytes in the layout of hexdump -C: offset or address, every byte in order in hex, and its printable form; each line is handed to the writer once, the first writer error stops the dump and is returned unchanged, and a dump to a file reports write failures as a negative error. A progress bar writes nothing unless its descriptor is a terminal; on a terminal of any width it shows the accumulated count, the total, the exact whole percentage (at most 100) and a bar of constant width filled in that proportion, erases the previous line before redrawing, and never crashes for any total, increment or width.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all 64-bit sizes and buffer sizes; all byte sequences and writer failures; all terminal widths, totals and increment histories",
  "Tests print dumps and bars for a human to look at; nothing is compared and no output error is injected.",
  ["src/humanize.c", "src/hexdump.c", "src/progbar.c"],
  [("humanize_size", "src/humanize.c"), ("hex_dump_write, fhexdump", "src/hexdump.c"), ("progressbar_init, progressbar_update", "src/progbar.c")],
  "text produced, calls of the writer, bytes received by the terminal, return codes"),
P("T12", "Configuration files parse to the exact tree of sections and entries, and lookups find it",
  "Opening a configuration file yields exactly the sections and key/value entries its text states, in order, nested by indentation (a tab advances to the next multiple of 4), whatever the line ends (LF, CR, CR LF), with empty lines, lines of white space, comments and backslash continuations handled, and lines of any length; a file with entries indented below an entry is refused. Looking up a section or entry by path, from the root or from any section, finds the first match of every component or reports absence; printing a tree shows exactly its content; numbers and booleans in entries parse to their exact 64-bit value (with binary unit suffixes) or are reported as errors, never silently truncated. Closing releases all memory.",
  ["inputs", "histories"],
  "all file texts, all paths, all number texts; all load/lookup/close histories",
  "No test links the parser at all (it did not link).",
  ["src/configfile.c", "inc/utils/configfile.h"],
  [("config_open, config_close", "src/configfile.c"), ("config_get_section, config_get_entry", "src/configfile.c"), ("config_parse_int, config_parse_uint, config_parse_bool", "src/configfile.c")],
  "tree, lookup results, values and return codes, live memory after close"),
P("T13", "Compression sessions hand over every byte exactly once, whatever the buffer and the consumer",
  "For every way to cut the input into pieces, every output buffer size and every consumer that takes any part of what it is offered, a compressing session that ends without error has handed its consumer a stream that decompresses to exactly the bytes fed, and an uncompressing session fed a whole stream has handed over exactly the original bytes, the end of the stream being reported when it is reached (bytes after it change nothing). What the consumer leaves is offered again first and contiguously, never more than the buffer holds; a consumer that takes nothing or fails ends the call with an error and corrupts nothing; damaged streams are never passed off as complete. Ending a session, also after errors, releases its memory.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all data, splits, buffer sizes, levels, window sizes and consumer behaviours; every damaged or truncated stream; every allocation failure",
  "No test uses this interface.",
  ["src/zbuf_c.c", "src/zbuf_unc.c", "inc/zlib/zbuf.h"],
  [("z_buf_compress, z_buf_compress_end", "src/zbuf_c.c"), ("z_buf_uncompress, z_buf_uncompress_end", "src/zbuf_unc.c")],
  "bytes offered to and taken by the output processor, return codes, live allocations after the end"),
P("T14", "Command lines are taken apart exactly as their option descriptions say",
  "For every option description and every argument vector, getopt and getopt_long report exactly the options present, in order, each with its argument, and afterwards the index of the first remaining argument: clustered short options separately, required and optional arguments attached or following, long options by exact name or unique abbreviation (an exact name is never ambiguous), unknown, ambiguous or incomplete options as errors with the offending option character. By default all non-option arguments end up behind the options in their original order, \"--\" ends the options, and the modes that stop at the first non-option or report it in place do so; no argument is lost, duplicated or altered, and parsing can be started over at any point.",
  ["inputs", "histories", "configurations"],
  "all short and long option descriptions of the grammar, all argument vectors, all points of starting over",
  "No test links this implementation.",
  ["src/getopt_long.c", "inc/getopt_long.h"],
  [("getopt_long", "src/getopt_long.c"), ("getopt_internal", "src/getopt_long.c"), ("permute_args", "src/getopt_long.c")],
  "return values, optarg, optopt, long option index, optind and the final order of the arguments"),
P("T15", "Parsers generated from an option table fill in exactly what the command line says",
  "For every option table accepted by mkgetopt.py (all types, optional arguments, defaults, place holders, prefixes, with and without help, version and argument permutation) the generated code compiles, and for every command line the generated parser leaves every option at its default or at the exact value its last occurrence gave it, with presence recorded exactly for the options given; numbers that do not fit their type and malformed sizes are reported and never stored truncated, callbacks run once per occurrence with their argument, and the remaining arguments are handed over complete and in order.",
  ["inputs", "configurations"],
  "all tables of the described grammar, all command lines; every integer and size up to and beyond the limits of its type",
  "No test covers the generator.",
  ["tools/mkgetopt.py", "src/getopt_long.c"],
  [("gen_c_parse / templates", "tools/mkgetopt.py")],
  "the filled structure, presence flags, callback calls, number of errors and remaining arguments"),
P("T16", "Every diagnostic is one complete line, in order with the program's other output",
  "For every message, warn, die and error write to the standard error stream exactly the program name (when set), the formatted text, the error's description and number (when one is given, of either sign) and one terminating newline, whatever the length of the text or the newlines in it (too long texts are cut, the rest of the line is kept), behind everything the program wrote to its standard output before; die and error with a status end the program with that status, the others return.",
  ["inputs", "histories"],
  "all texts (empty, ending in newline, longer than the buffer), error numbers, statuses and interleavings with other output",
  "No test calls them.",
  ["src/error.c", "inc/error.h"],
  [("error", "src/error.c"), ("warn", "src/error.c"), ("die", "src/error.c")],
  "bytes reaching the output, exit status"),
# ---------------------------------------------------------------- data formats
P("D01", "Packing and unpacking round-trip within buffer bounds",
  "For every template and matching arguments, unpacking what was packed with the same template returns the same values, the packed bytes follow the declared byte order and widths, and the reported length is exact. A buffer that is too small or a malformed template is reported as an error and nothing outside the buffer is read or written. Memory running out while unpacking is reported as well, and every piece taken before is in the caller's hands.",
  ["inputs", "configurations", "faults"],
  "all templates (counts, wildcards, byte orders, strings, padding), argument values and buffer sizes",
  "Tests check one template per type with ample buffers.",
  ["src/pack.c", "inc/utils/pack.h", "inc/fast/encdec.h"],
  [("Pack / Unpack", "src/pack.c")],
  "packed bytes, unpacked values, return codes"),
P("D02", "UUID and ULID text forms are faithful and ordered by time",
  "Converting a UUID or ULID to text and back gives the same identifier for every value, malformed text is rejected without touching memory beyond the 16-byte result, and generated identifiers carry the correct version marks (UUID) or the current millisecond time in their leading bytes (ULID), the rest being fresh bytes of the system's random source; when there are none an error is returned, never an identifier. ULIDs generated at a later millisecond compare greater than earlier ones both as bytes and as text.",
  ["inputs", "histories"],
  "all identifiers, all candidate texts, all clock values, failures of the clock and the random source",
  "Tests generate a few identifiers and do not check order or malformed text.",
  ["src/uuid.c", "src/ulid.c"],
  [("uuid_*, ulid_*", "src/ulid.c")],
  "identifier bytes, text, return codes"),
P("D03", "IPv4 text parsing accepts exactly valid addresses and masks",
  "Parsing a dotted-quad address succeeds exactly for four decimal fields of 0 to 255 and yields the denoted address; parsing an address with prefix length or dotted mask yields the denoted mask for every length 0 to 32. Formatting and parsing are inverse, and a mask converts to a prefix length exactly when its one bits are contiguous from the top.",
  ["inputs"],
  "all strings over digits, dots and slash; all 33 prefix lengths; all masks",
  "Tests check a table of strings.",
  ["src/parse-ip.c"],
  [("parse_ipv4, parse_ipv4_and_mask, mask_to_cidr4, str_ipv4", "src/parse-ip.c")],
  "return codes and values"),
P("D04", "Random generator streams stay private per process and thread",
  "The cryptographic random generator never gives the same stream to two threads or to a parent and its forked child, never returns the same keystream bytes twice, and refreshes its key from system entropy before its use budget is exhausted. Bounded random numbers are always below the bound and every output request is filled completely.",
  ["schedules", "histories", "inputs"],
  "all sequences of requests, forks and threads; all request sizes and bounds",
  "No test forks or inspects the keystream bookkeeping.",
  ["src/arc4random.c"],
  [("stir / rekey / consume / fork detection", "src/arc4random.c")],
  "output bytes vs a model driven by intercepted entropy and pid"),
P("D05", "Pseudo-random generators produce their published sequences from every seed",
  "From every non-zero seed each pseudo-random generator (splitmix64, xorshift64*, xorshift128+, xorshift1024*, xoroshiro128+, romu quad, trio and duo) produces exactly the sequence of the published algorithm for as long as it is drawn, so the same seed always reproduces the same stream and re-seeding restarts it. A zero seed draws a fresh, non-zero state from system entropy. The random fraction generator returns the low 52 bits of such a stream as a number that is at least 0 and less than 1.",
  ["inputs", "histories"],
  "all seeds, all interleavings of seeding and drawing, any number of draws",
  "Tests print or time the streams and compare them with nothing.",
  ["src/prng/", "inc/utils/splitmix.h"],
  [("splitmix64", "inc/utils/splitmix.h"), ("xs64star, xs128plus, xs1024star", "src/prng/xorshift.c"), ("xoro128plus", "src/prng/xoroshiro.c"), ("romu", "src/prng/romu-rand.c"), ("frand", "src/prng/frand.c")],
  "every value drawn, generator words after seeding"),
P("D06", "Hash functions compute their published function of every byte given, however placed or split",
  "Each non-cryptographic hash function (FNV-1a 32/64, fast-hash 32/64, SipHash-2-4, MurmurHash3 32/128/x64-128, SuperFastHash, FNV1A-Yorikke, CityHash 64/128, xxHash 32/64) returns the value of the published function for every byte sequence and seed: it depends on every byte of the input and on nothing else - not on the alignment of the buffer nor on memory around it, which it does not read. Feeding a message to a streaming hash in any number of pieces gives the hash of the whole message, digests may be taken at any point without disturbing the stream, and the canonical xxHash forms are big-endian and convert back unchanged.",
  ["inputs", "histories"],
  "all byte sequences, lengths, seeds, alignments and splits into pieces",
  "Tests time the functions or compare one table for one of them.",
  ["src/hashfunc/"],
  [("hash functions", "src/hashfunc/"), ("siphash24_update", "src/hashfunc/siphash24.c"), ("XXH32_update, XXH64_update", "src/hashfunc/xxhash.c")],
  "hash values"),
P("D07", "Byte order, alignment and time unit helpers are exact for every value",
  "For every value the byte order conversions of both host kinds deliver exactly the value's bytes in the order they name (compile time constants and run time values alike, and back again without loss), the encoders and decoders of numbers and doubles put exactly these bytes into place and no other, rounding up or down to an alignment yields the nearest multiple on the right side, the next power of two is the smallest not below, an index is kept exactly when it lies inside its bound and becomes zero otherwise, durations of every integer type count the units they name, and the clock readings are the system clock's in the unit asked for.",
  ["inputs"],
  "every 16, 32 and 64 bit value, alignment, bound and unit",
  "No test covers them; they are used throughout.",
  ["inc/fast/swab.h", "inc/fast/encdec.h", "inc/fast/byteorder.h", "inc/fast/little-endian.h", "inc/fast/big-endian.h", "inc/utils/typeutils.h", "inc/utils/nospec.h", "inc/utils/utils.h", "inc/fast/tmutils.h"],
  [("conversion macros", "inc/fast/little-endian.h"), ("_ALIGN_UP, NEXTPOW2", "inc/utils/typeutils.h"), ("array_index_nospec", "inc/utils/nospec.h")],
  "results of the macros and templates"),
P("D08", "Random bytes from the system are passed on whole, in order and only once",
  "However few bytes the system delivers at a time and however often it is interrupted, a request for random bytes or numbers is filled completely with successive bytes from the system, none repeated, left out or written beyond the buffer, and any other failure is reported with its number instead of unfilled memory.",
  ["inputs", "faults", "histories"],
  "every request size and every sequence of partial, interrupted and failing reads",
  "No test covers it.",
  ["src/posix/sysrand.cpp", "inc/utils/random.h"],
  [("generator", "src/posix/sysrand.cpp")],
  "bytes delivered, errors, descriptors"),
# ---------------------------------------------------------------- system
P("S01", "Log rotation keeps exactly the newest copies in order",
  "Rotating a file with a limit of n saved copies makes the current file copy 0, shifts every existing copy up by one and drops only the copies beyond the limit, whatever subset of copies exists beforehand; size-based rotation rotates only files larger than the limit. If rotation is interrupted or a rename fails at any point, no copy within the limit is lost or overwritten by an older one.",
  ["histories", "crash_points", "fault_sequences", "configurations"],
  "all subsets of pre-existing copies, all limits, all rotation histories, all interruption points",
  "The test performs one simple sequence and injects no failure.",
  ["src/rotatefile.c", "inc/utils/rotatefile.h"],
  [("rotate_filename, rotate_filename_by_size", "src/rotatefile.c")],
  "directory contents after each call / crash"),
P("S02", "Creating a directory hierarchy is idempotent and complete",
  "After a successful call the full directory path exists with every missing component created, calling it again succeeds, components that already exist are left untouched, and nothing outside the requested path is created. If some component exists but is not a directory the call fails with an error.",
  ["inputs", "histories", "fault_sequences"],
  "all path shapes (absolute, relative, repeated and trailing slashes) over all pre-existing trees",
  "The test creates one tree.",
  ["src/mkdirhier.c"],
  [("mkdirhier", "src/mkdirhier.c")],
  "directory tree and return code"),
P("S03", "Tree walk reports every file exactly once in the documented order",
  "Walking a directory tree visits every entry below the given roots exactly once, each directory before and after its contents, with the correct kind, depth and path, and honours the caller's sort order, skip requests and symbolic-link policy. The walk never leaves the process in a different working directory when it finishes, and memory running out at any point is reported without anything being lost or kept open.",
  ["inputs", "configurations", "faults"],
  "all trees, option combinations and per-entry instructions, memory running out at any allocation",
  "The test prints one walk without checking it.",
  ["src/fts.c", "src/ftw.c", "inc/fts.h"],
  [("fts_open/fts_read/fts_set/fts_children", "src/fts.c")],
  "sequence of visited entries"),
P("S04", "Passwords are read without showing them and the terminal is always given back",
  "Reading a password from a terminal shows nothing of what is typed, asks as often as it should (and for a confirmation when one is wanted, starting over at most twice), and in every outcome leaves the terminal's settings and the open files as they were; from a terminal or any other input the result is exactly the typed line without its line end, both entries agree when a confirmation was asked for, disagreement to the last is refused as such, and the end of input is an error and never an empty success.",
  ["inputs", "histories", "faults"],
  "every sequence of lines and passwords, every kind of input, end of input at any point",
  "No test covers it; it needs a terminal and a typist.",
  ["src/readpass.c", "inc/utils/readpass.h"],
  [("reader", "src/readpass.c")],
  "results, prompts, terminal echo and settings, open files, unread input"),
P("S05", "Memory mapped files show the file, stay inside it and are given back",
  "Through any history of requests a mapping shows exactly the file's bytes at its offset, what is written through shared mappings is what every other mapping and the file then hold, the same range is mapped only once, a request reaching past the end is refused without effect (or makes the file exactly that long, with zeros, where growing was asked for), locking covers the whole pages documented, a refusal names the file and the system's reason, and unmapping or destroying the object, and every failure, releases everything it took.",
  ["inputs", "histories", "faults"],
  "every file, flag combination, request and sequence of requests, including offsets near the ends of their types and failing system calls",
  "The one test maps a whole file once, writes and reads it back.",
  ["src/posix/mmap.cpp", "inc/utils/mmap.h"],
  [("mappings", "src/posix/mmap.cpp"), ("bookkeeping", "inc/utils/mmap.h")],
  "bytes through mappings and in the file, exceptions, descriptors and mapped memory"),
P("S06", "System errors carry their number and their text, however long",
  "Every error number becomes a value with that number and the system's text for it behind the caller's prefix, and exceptions report the number and the formatted text followed by the error's text, complete whenever it fits and otherwise cut, never beyond their own storage.",
  ["inputs"],
  "every error number, prefix and message of any length",
  "No test throws one with a long message or looks at the text.",
  ["src/posix/syserror.cpp", "src/sysexception.cpp", "inc/syserror.h"],
  [("error values", "src/posix/syserror.cpp"), ("exceptions", "src/sysexception.cpp")],
  "error numbers and texts"),
P("S07", "Interface and host addresses are complete, grouped and filtered, and failures are never successes",
  "Whatever the system reports and in whatever order, listing interfaces yields each interface having a wanted address exactly once with exactly its wanted addresses, asking for a name yields the wildcard, numeric, interface or resolver's addresses in that order of precedence, a name that cannot be resolved and every failing system call is reported as an error, printed addresses never exceed their buffer, and nothing is leaked.",
  ["inputs", "faults"],
  "every list of interfaces and addresses, name, kind mask, resolver answer and failure, buffer size",
  "The one test lists the interfaces of the machine it runs on and checks nothing.",
  ["src/c_resolve.c", "inc/utils/resolve.h"],
  [("lookups", "src/c_resolve.c")],
  "results, addresses, texts, descriptors and memory"),
P("S08", "Becoming a daemon leaves one process, detached from everything of the caller",
  "After asking to become a daemon exactly one process returns successfully: it neither leads a session nor belongs to the caller's, works in the directory asked for (or the default), has the documented file mode mask, standard files that read as empty and discard what is written whichever of them were open before, and no other open file more than before, while the original process has ended normally; if no process can be created exactly one process sees that error.",
  ["faults", "inputs"],
  "every directory, set of standard files open at the start, mask and failing process creation",
  "No test covers it: the caller's process ends.",
  ["src/daemon.c", "inc/utils/daemon.h"],
  [("daemonize", "src/daemon.c")],
  "processes, sessions, directory, mask and open files afterwards"),
P("S09", "Threads are bound to exactly the processor asked for",
  "Binding a thread, the caller or the process to a processor leaves it allowed on that processor alone and no other thread changed; a processor that does not exist is refused, by the calls that can report it with the error number, and changes nothing; the number of processors reported is the number in service.",
  ["inputs", "histories"],
  "every processor number, existing or not, on machines of any size, from and for any thread",
  "No test covers it; the result depends on the machine.",
  ["src/posix/linux_cpu.c", "inc/utils/cpu.h"],
  [("binding", "src/posix/linux_cpu.c")],
  "processor sets held by the scheduler, results"),
]
