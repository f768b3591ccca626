MC = "TLA+ specification model-checked with TLC; code bound by replaying TLC-generated behaviours and validating recorded traces"
def C(note, technique=MC, level="model_checking"):
    return {"technique": technique, "level": level, "note": note}
HIST = "TLA+ specification: every call/return history recorded from systematically explored interleavings of the real code is checked by TLC to be a behaviour of the specification"
CONC = " Real code runs under a deterministic scheduler (every shared access/synchronisation call is a scheduling point): small client programs exhaustively, larger ones preemption-bounded and random; all distinct histories go to TLC. A vector-clock race detector that honours the written memory orders, lock misuse, use-after-free and stuck threads are events no specification behaviour contains."
CLAIMS = {
 "C01": C("SPSC queue against the linearizable bounded FIFO specification, exact refusals. LongQ: queues of every size up to 131072 in single-threaded histories." + CONC, HIST),
 "C02": C("MPMC queue non-blocking operations against the linearizable bounded FIFO specification (spurious refusals only while a successful opposite operation overlaps). LongQ: queues of every size up to 131072 in single-threaded histories." + CONC, HIST),
 "C03": C("MPMC waiting operations; stuck threads are accepted only where the specification blocks. LongQ: queues of every size up to 131072 in single-threaded histories." + CONC, HIST),
 "C04": C("Ring buffer bulk and burst operations, SP/MP x SC/MC. LongQ: queues of every size up to 131072 in single-threaded histories." + CONC, HIST),
 "C05": C("Sync queue: exact bounded FIFO, stuck threads only where the specification blocks (lost wake-ups). LongQ: queues of every size up to 131072 in single-threaded histories." + CONC, HIST),
 "C06": C("Job manager against the job-set specification. LongJ: up to 300 threads and 70000 jobs." + CONC, HIST),
 "C07": C("Work manager against the per-worker FIFO specification. LongJ: up to 300 threads and 70000 jobs." + CONC, HIST),
 "C08": C("Mutex-locked hash table against the atomic map specification incl. destructor calls, remove_if/apply/statistics and resizes." + CONC, HIST),
 "H01": C("Transition cover and all operation sequences of length 4 over small key sets with colliding and non-colliding hashes and forced resizes; long seeded histories. LongT: up to 70000 entries."),
 "H02": C("Vanilla, sorted and bucket iterators over every reachable small table and in long seeded histories, incl. restart, past-end and iterator memory. LongT: up to 70000 entries."),
 "H03": C("Integer-keyed table against the map specification: transition cover, all sequences of a length, long histories with colliding keys, table growth bounded under churn. LongT: up to 70000 entries."),
 "M01": C("Pool against the disjoint-block specification; owners' contents re-checked after every call, caller-memory pools fenced. LongT: up to 70000 entries."),
 "M02": C("Arena against the disjoint-block specification; contents of every allocation re-checked until release. LongT: up to 70000 entries."),
 "B01": C("Bloom filter histories (all kinds, capacities, error rates, growth) against the multiset specification: no stored element is ever absent, element count exact. LongT: up to 70000 entries."),
 "B02": C("Counting filter add/remove histories incl. saturation and absent removals against the multiset specification. LongT: up to 70000 entries."),
 "B03": C("All small key sets, random sets of every size and both widths: every key found, answers deterministic, memory checked. Sizes past 8 and 16 bits."),
 "B04": C("Save/load/damage histories: specification state of the file (good, bad, none) decides acceptance; every single-byte alteration and truncation of many files. Sizes past 8 and 16 bits."),
 "B05": C("Every system call of a save failing or being the last; the recorded calls drive a file-system model in the specification (cached and durable contents) whose destination must always be old or new. Sizes past 8 and 16 bits."),
 "B06": C("The file format as a specification, with the theorem that lookups in the file of a list of records find exactly the records: every key in every small database with chosen hash collisions, larger ones with the real hash function, damaged files judged by the specified lookup."),
 "V01": C("Vector operations as sequences, three element types: transition cover, every operation sequence of length 3, seeded histories. Sizes past 8 and 16 bits."),
 "V02": C("Four list families as sequences: transition cover and random specification behaviours, forward and backward traversals compared."),
 "V03": C("Bitsets as sets, sizes around word boundaries. Sizes past 8 and 16 bits."),
 "V05": C("Heap as a multiset with positions, three element/ordering types."),
 "V06": C("Byte buffer as a byte sequence. Sizes past 8 and 16 bits."),
 "V04": C("Every transition of the bounded queue model (sizes 2-4 quick, 2-5 thorough, all wrap positions) is replayed into static and dynamic queues; seeded long histories on sizes up to 16; all results validated by TLC."),
 "T01": C("Splitting automata: every string over a small alphabet with every delimiter set and array size, seeded long strings, all byte values."),
 "T02": C("Quoting automata for separated values and command words: every string over a small alphabet, seeded strings, all byte values."),
 "T03": C("Unescape automaton; escape checked as its inverse: every short text, every byte in every escape form, seeded texts."),
 "T04": C("Number grammar with exact 64-bit limb arithmetic: every short text, limits of every base and suffix, typed parses."),
 "T05": C("Stream transducers over every block split; buffer sizes around the exact bound with fenced buffers; every byte value."),
 "T06": C("String variables as sequences, all variables compared after every call: transition cover, random specification behaviours, seeded histories."),
 "T07": C("Left-to-right expansion with the recorded lookups compared: every short template in every small environment, seeded templates."),
 "T08": C("Stream state as set of possible remainders: every short stream, every buffer-size sequence, read errors."),
 "T09": C("Every short text and buffer size, seeded texts; buffers of exact size."),
 "T10": C("Every small pattern and text, seeded periodic patterns, three element types, exact-size buffers."),
 "T11": C("Sizes in exact 64-bit arithmetic, hex dump lines, and the progress bar as a state machine on a real pseudo terminal: sizes around every unit, every short session with failing writers, every terminal width, seeded values. Sizes past 8 and 16 bits."),
 "T12": C("The file grammar, the tree and its lookups, and the number syntax in 64-bit arithmetic as a specification: every short text, every sequence of lines, every lookup in every small tree, every short number, limits and suffixes, seeded files; live memory measured after close. Sizes past 8 and 16 bits."),
 "T13": C("Sessions as a state machine over what the consumer is offered and takes (zlib itself given): every short session with refusing and partial consumers and failing allocations, every buffer size and split, every damaged bit, seeded sessions; live memory counted through the session's allocator. Sizes past 8 and 16 bits."),
 "T14": C("The meaning of a command line as a specification (with the theorem that no argument is lost or made up): every short command line in every mode, every combination of long options and abbreviations, every order of options and other arguments, parsing abandoned and started over, seeded command lines. Sizes past 8 and 16 bits."),
 "T15": C("The meaning of an option table as a specification on top of the command line specification (theorems: every form of an option means the same, options commute, operands change nothing, numbers are read exactly up to their limits); generated parsers for a table with every type and for seeded tables and directives, every option with every argument in every form, seeded command lines."),
 "T16": C("Program output and diagnostics as a state machine: every message after every other over small texts, names, error numbers and statuses, texts of every length around the limits of the buffer, seeded interleavings with buffered output. Sizes past 8 and 16 bits."),
 "D07": C("Conversions, alignments, powers of two, bounded indexes and units over 64 bit words specified by what they mean; every macro on every word around every power of two, constants folded at compile time, seeded words; time units for int and 64 bit arguments, clock readings."),
 "S04": C("The dialogue as a function of the lines left to read; every few lines from files, a terminal on standard input, the controlling terminal and a missing one, with and without confirmation, a pseudo terminal with a typist; seeded sessions."),
 "S05": C("File as a partial function of its non-zero bytes with a set of mappings; every request on small files, every short history of mapping, writing and unmapping, seeded histories, failing system calls, requests near the ends of the types; memory and descriptors accounted for. Whether writes without the shared flag reach the file is left open (the header and the existing test disagree)."),
 "S06": C("The whole text specified, of which only the end may be missing; every error number, text lengths around every boundary, seeded texts."),
 "D08": C("Position in the system's stream with a script for every read; every short script against every small request, seeded histories through the class and the C functions. Sizes past 8 and 16 bits."),
 "S07": C("Lookups as functions of the list the system reports (a stand-in); every list of three entries, every name class with every mask and resolver answer, texts with every buffer size, seeded systems with failures; memory and descriptors accounted for."),
 "S08": C("Three processes with their sessions and ends as a small transition system; the real call from every combination of open standard files, directory, mask and failing fork, judged from inside the remaining process and from the caller."),
 "M03": C("Numbered blocks with a record of the provider calls each request causes; every short history of every kind of manager, seeded long ones, memory running out anywhere."),
 "S09": C("Processor sets of every thread under a scheduler that records; every short history of bindings on machines of several sizes, seeded long ones."),
 "D01": C("Template grammar and byte layout as a specification: every short template, every truncation, seeded templates and buffers; exact-size buffers. Sizes past 8 and 16 bits."),
 "D02": C("Identifier text as exact bit-level specification with order and faithfulness theorems; generation driven by intercepted clock and entropy."),
 "D03": C("Address and mask grammar: every short text over several alphabets, every prefix length and field value, every contiguous and near-contiguous mask, seeded texts."),
 "D04": C("Streams per process and thread as a specification (own entropy, use budget, no output window ever repeated): real threads and forks incl. recycled process ids, intercepted entropy; results compared with copies of the process under other buffer contents and other entropy."),
 "D05": C("The generators as specified state machines over 64-bit words (anchored to published values): every short history of seeding and drawing, seeded streams of hundreds of values, entropy intercepted."),
 "D06": C("Fourteen hash functions written out over bytes (anchored to published values): every length up to 140 at every alignment in buffers of exact size, every way to feed a stream up to 66 bytes in four pieces, seeded inputs. Sizes past 8 and 16 bits."),
 "S01": C("Log and copies as a partial function: every subset of copies x limit, every call of a rotation failing or being the last, seeded histories with obstacles, decoy names and names at the length limit."),
 "S02": C("Directory tree with path resolution (., .., links): every small tree and path shape, seeded trees, failures and races at every mkdir; idempotence checked on the specification."),
 "S03": C("Tree walk as a stack machine over a tree with links: every small tree under every option combination, every instruction (again, follow, skip) at every point and through child lists, seeded trees incl. unreadable directories, long paths, directories moved away under the walk, memory running out at every allocation; descriptors, working directory and memory checked. Sizes past 8 and 16 bits."),
}
NOT_APPLICABLE = {}
NOTES = "TLA+/TLC. Run bin/check <id> quick|thorough. See DESIGN.md."
