#!/usr/bin/env python3
"""Authoring source of properties.jsonl (run by hand: python3 tools/mkprops.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
             observe_at=observe or [], hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "Shared bit vectors answer rank/select queries exactly under concurrency",
  "Once a bit vector (plain, with a rank/select index with or without select hints, or with a separate select directory over it) has been built, any number of threads may query it at the same time without locking. Every bit access, bit-field or word read, rank, select, predecessor and successor query, for ones and for zeros, returns exactly the answer defined by the stored bits, whatever the interleaving of the readers and whatever other structures were built, queried and destroyed before in the same process.",
  ["schedules", "inputs", "histories"],
  "all bit sequences x all interleavings of two or more readers, at the granularity of single memory accesses x all preceding build/query/destroy histories of the process",
  "The tests are single-threaded and query one object at a time on a few fixed bit patterns; no schedule is ever explored and no state carried from one object or query to the next is exercised.",
  ["bit_vector.hpp", "rs_bit_vector.hpp", "rs_bit_vector.cpp", "darray.hpp", "broadword.hpp", "tables.hpp"],
  [("const queries that keep no state between calls", "bit_vector.hpp: bit_vector; rs_bit_vector.hpp: rank/select/select0; darray.hpp: select"),
   ("block/sub-block rank pairs and select hints built once", "rs_bit_vector.cpp: build_indices"),
   ("block, sub-block and overflow inventories", "darray.hpp: darray constructor, flush_cur_block")],
  observe=["bit_vector::operator[]/get_bits/get_word/get_word56/predecessor*/successor*", "rs_bit_vector::rank/rank0/select/select0/num_ones/num_zeros", "darray0/darray1::select/num_positions"])

p("C02", "Shared trees, range-minimum and top-k structures answer exactly concurrently",
  "Once a balanced-parentheses vector, a range-minimum (Cartesian tree) structure or a top-k vector has been built, any number of threads may query it at the same time without locking, and every matching-parenthesis, enclosing, excess, excess-minimum, range-minimum (leftmost on ties) and top-k (by decreasing value, then increasing position) query returns exactly the answer defined by the stored sequence. This holds for every interleaving of the readers, also while some reader fails for lack of memory, and whatever other structures were built, queried and destroyed before in the same process.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "all balanced sequences / value arrays x all interleavings of the readers x allocation failures in individual readers x all preceding build/query/destroy histories",
  "The tests check a few fixed shapes sequentially (one random array per size, one comparator); concurrent readers, failing readers and reuse of the process for many structures are never exercised.",
  ["bp_vector.hpp", "bp_vector.cpp", "cartesian_tree.hpp", "topk_vector.hpp"],
  [("block minima and superblock min-tree searched without mutable state", "bp_vector.cpp: find_close/find_open/search_min_tree/excess_rmq"),
   ("DFUDS reduction of range minimum to excess minimum", "cartesian_tree.hpp: rmq"),
   ("per-call priority queue", "topk_vector.hpp: enumerator, topk")],
  observe=["bp_vector::find_close/find_open/enclose/excess/excess_rmq", "cartesian_tree::rmq", "topk_vector::topk/operator[]"])

p("C03", "Shared compressed sequences are read exactly under concurrency",
  "Once a compressed sequence (Elias-Fano sequence or list, Elias-Fano compressed list, gamma-coded vector with or without stored low bit, nibble vector) has been built, any number of threads may read it at the same time without locking, and every element access, size, rank, select, gap, range, predecessor and successor query returns exactly the answer defined by the stored values. This holds for every interleaving of the readers and whatever other structures were built, queried and destroyed before in the same process.",
  ["schedules", "inputs", "histories"],
  "all value sequences (zeros, duplicates, values up to the 64-bit limit, all densities) x all interleavings of the readers x all preceding build/query/destroy histories",
  "The tests read each structure sequentially on 31-bit random values at one size; Elias-Fano lists, nibble vectors, very wide values and any concurrent reading are not tested.",
  ["elias_fano.hpp", "elias_fano_list.hpp", "elias_fano_compressed_list.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "nibble_vector.hpp", "darray64.hpp", "darray.hpp"],
  [("high/low bits split with select directories on the high bits", "elias_fano.hpp: select/rank/delta/select_range"),
   ("bounded-gap select directory", "darray64.hpp: builder, select"),
   ("unary length + binary remainder decoding", "gamma_vector.hpp, gamma_bit_vector.hpp: retrieve_value")],
  observe=["elias_fano::operator[]/rank/select/predecessor1/successor1/delta/select_range/num_ones", "elias_fano_list::operator[]/sum/size", "elias_fano_compressed_list::operator[]", "gamma_vector::operator[]", "gamma_bit_vector::operator[]", "nibble_vector::operator[]"])

p("C04", "Cursors yield their own sequence under any interleaving and operation order",
  "A cursor over a shared structure (bit, unary, Elias-Fano select, gamma and top-k enumerators), started at any valid position and driven by any sequence of its operations that stays within the content, returns exactly what the stored content defines for that start and sequence. Neither other cursors, copies made of it in mid-course, repositioning, nor concurrent queries of the same or other structures, in any interleaving, change what it yields.",
  ["schedules", "histories", "inputs"],
  "all interleavings of several cursors driven by several threads x all operation sequences (next, take, skip, skip to zero, copy, restart) x all contents; the skip to a zero is specified for a cursor that has not just consumed a one",
  "The tests restart the enumerator before nearly every step, start most of them at position 0 only, never mix the kinds of operation on one cursor, and never run two cursors at once.",
  ["bit_vector.hpp", "elias_fano.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "topk_vector.hpp", "forward_enumerator.hpp"],
  [("per-cursor word buffer with position", "bit_vector.hpp: enumerator::next/take/skip_zeros, unary_enumerator"),
   ("chunked low-bits buffer", "elias_fano.hpp: select_enumerator"),
   ("paired high/low cursors", "gamma_vector.hpp, gamma_bit_vector.hpp: forward_enumerator"),
   ("per-enumerator heap of disjoint ranges", "topk_vector.hpp: enumerator::next")],
  observe=["the values returned by each cursor operation", "position()"])

p("C05", "Structures built in parallel threads do not interfere with each other",
  "Threads that build, index, freeze, map, query and destroy structures of their own, sharing no object, get exactly the result each would get alone: every structure built answers according to its own input and its frozen image is byte-for-byte the image of a build done alone. This holds for every interleaving of the threads.",
  ["schedules", "inputs"],
  "all interleavings, at the granularity of single memory accesses, of concurrent constructions / freezes / maps / destructions of all structure kinds",
  "No test runs two builds at once; a hidden shared scratch area or lazily initialised table would pass every test.",
  ["bit_vector.hpp", "rs_bit_vector.cpp", "bp_vector.cpp", "darray.hpp", "darray64.hpp", "elias_fano.hpp", "cartesian_tree.hpp", "topk_vector.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "mapper.hpp", "mappable_vector.hpp"],
  [("construction uses only locals and the object's members", "all constructors and builders"),
   ("lookup tables initialised before main", "bp_vector.cpp: excess_tables tables; tables.hpp")],
  observe=["answers and frozen images of each thread's own structures"])

p("C06", "A frozen structure answers identically after restart and mapping",
  "Any structure frozen to a stream or file and mapped back in another process life, at any address, with or without warm-up, alone or after other structures in the same file, gives exactly the answers of the original for every query, to any number of concurrent readers. Freezing changes nothing in the original, also while other threads query or freeze it; a mapped structure reads only inside its image, never writes to it, and can be queried, frozen again, swapped, remapped and destroyed, the last even after the image is unmapped.",
  ["inputs", "histories", "fault_sequences", "schedules"],
  "all structure kinds and contents (including empty) x all sequences of structures in one stream x all ways the system splits or interrupts the writes x all mapping addresses and warm-up settings x histories of remapping, swapping and re-freezing",
  "test_mapper round-trips two toy objects once; no succinct structure is ever frozen and mapped by a test (the top-k and Cartesian tests even carry an XXX saying so), and no short or interrupted write occurs.",
  ["mapper.hpp", "mappable_vector.hpp", "bit_vector.hpp", "rs_bit_vector.hpp", "bp_vector.hpp", "darray.hpp", "darray64.hpp", "elias_fano.hpp", "elias_fano_list.hpp", "elias_fano_compressed_list.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "nibble_vector.hpp", "cartesian_tree.hpp", "topk_vector.hpp"],
  [("one field visitor per structure drives freezing, mapping and sizing", "map(Visitor&) of every structure"),
   ("freeze/map visitors", "mapper.hpp: freeze_visitor, map_visitor"),
   ("non-owning vectors after map", "mappable_vector.hpp: m_deleter")],
  observe=["answers after mapper::map", "the mapped memory (read-only, followed by an inaccessible page)"])

p("C07", "A freeze that cannot complete is never reported as complete",
  "Freezing to a named file either returns with the complete image in that file or fails with an exception, whatever open, write, disk-full or close error occurs at whatever point; freezing to a stream leaves the stream in a failed state, at the latest once it is flushed or closed, whenever some byte of the image did not reach it. If the process dies during a freeze, what is left in the file is a byte prefix of the complete image, so a file of full length is a complete image.",
  ["fault_sequences", "crash_points", "inputs"],
  "all sequences of open/write/close errors, short and interrupted writes and full disks x all points of death during the freeze x all structure kinds",
  "No test injects an I/O error, fills a disk or kills the writer.",
  ["mapper.hpp"],
  [("strictly sequential writes to the stream", "mapper.hpp: freeze_visitor"),
   ("stream state checked after closing", "mapper.hpp: freeze(T&, const char*)")],
  observe=["return or exception of mapper::freeze", "state of the stream", "bytes in the file at each write"])

p("C08", "Freeze, map, size_of and the size tree account for the same bytes",
  "The number of bytes a freeze reports is exactly the number it adds to the stream, which is the number mapping that image reports as read and eight more than the computed size of the structure; the size tree's root equals that computed size, no node claims less than its children together or, fixed-size fields apart, more, and the printed tree shows the same figures. This holds at every position of a stream holding several structures, for freezes interrupted by short or retried writes, and for structures that were themselves mapped.",
  ["inputs", "histories", "fault_sequences"],
  "all structure kinds, nesting and contents x all sequences of structures in one stream x all splits of the writes x built and mapped origins",
  "One test checks one size_of value of one toy structure.",
  ["mapper.hpp", "mappable_vector.hpp"],
  [("byte counters of the three visitors", "mapper.hpp: freeze_visitor::written, map_visitor::bytes_read, sizeof_visitor")],
  observe=["return values of freeze, map, size_of, size_tree_of", "bytes that reached the stream"])

p("C09", "The frozen image depends only on the logical content",
  "Two structures of the same kind and options holding the same content freeze to identical bytes: regardless of how they were built (bit by bit, in bulk, by extension, reversal or edits, from a builder or a range), of what the memory they were built in held before, of allocation order and addresses, and of whether they were built in memory or mapped from an earlier image.",
  ["histories", "inputs", "schedules"],
  "all build histories leading to the same content x all prior memory contents and allocation layouts x freeze/map generations",
  "No test compares images; stale memory contents differ on every run and are not controlled by any test.",
  ["bit_vector.hpp", "rs_bit_vector.cpp", "bp_vector.hpp", "bp_vector.cpp", "elias_fano.hpp", "darray.hpp", "darray64.hpp", "mapper.hpp"],
  [("padding bits after the last element kept at zero", "bit_vector.hpp: bit_vector_builder"),
   ("every stored field initialised on every construction path", "constructors of all structures")],
  observe=["bytes written by mapper::freeze"])

p("C10", "Images are exchangeable between build configurations and with release 8f0413d",
  "An image frozen by a build of the library with one set of options (compiler intrinsics on or off, hardware popcount on or off, assertions on or off) is mapped and answered exactly by a build with any other options, and by a build of the release at commit 8f0413d, and an image frozen by that release is mapped and answered exactly by the current library. Chains of such hand-overs, with concurrent readers and with writers that die and are retried, preserve the content.",
  ["configurations", "histories", "inputs", "crash_points"],
  "all ordered pairs and chains of {default, no intrinsics, hardware popcount, assertions off, release 8f0413d} builds x all structure kinds and contents",
  "Only the default configuration is built and tested, and no stored image of an earlier version is ever read.",
  ["mapper.hpp", "broadword.hpp", "intrinsics.hpp", "tables.hpp", "bit_vector.hpp", "rs_bit_vector.hpp", "bp_vector.hpp", "elias_fano.hpp", "gamma_vector.hpp", "succinct_config.hpp.in"],
  [("layout fixed by field order and fixed-width fields", "map(Visitor&) of every structure"),
   ("portable fall-backs for the intrinsics", "broadword.hpp: popcount, reverse_bytes, select_in_word, msb, lsb, bit_position")],
  observe=["answers after mapping an image frozen by another build"])

p("C11", "Reading lines from a stream loses, repeats and invents nothing",
  "For a text stream without NUL characters, the lines read one after another or by iterating over the range of lines are exactly the lines of the stream, each once and in order, with their line ends kept (or all trailing CR and LF characters removed when trimming is asked for), whether or not the last line ends in a newline and however the input arrives in pieces. After a read error the lines obtained so far are a prefix of the content; a copy of an iterator keeps its line when another one goes on, and readers of different streams in different threads do not affect each other.",
  ["fault_sequences", "schedules", "inputs"],
  "all texts (empty lines, no final newline, lines of any length around the internal buffer size) x all ways read calls are split, delayed or fail x all interleavings of readers of different streams",
  "There is no test of line reading at all.",
  ["util.hpp"],
  [("accumulate buffer-size pieces until newline or end of file", "util.hpp: fast_getline"),
   ("single-pass iterator over fast_getline", "util.hpp: line_iterator, lines")],
  observe=["strings returned by fast_getline / dereferenced from lines()"])

p("C12", "Mapped-file lines are exact and file handles are released exactly once",
  "Iterating over the lines of a mapped file yields exactly its newline-separated lines, each once and in order, without the newline and one preceding CR, for any content including the empty file; ranges may be shared and iterators copied and advanced independently from several threads. A file that cannot be opened or mapped is reported by an exception, and every file opened is closed exactly once, also when an error or exception ends its use early.",
  ["inputs", "schedules", "fault_sequences"],
  "all file contents x all interleavings of iterators and their copies x open and map failures x early exits",
  "There is no test of mapped line iteration or of the file holder.",
  ["util.hpp"],
  [("scan to newline within the mapped bounds", "util.hpp: buffer_line_iterator::increment"),
   ("owning file holder", "util.hpp: auto_file, mmap_lines")],
  observe=["strings dereferenced from mmap_lines iterators", "open file descriptors", "exceptions"])

p("C13", "A bit builder equals its edit history, also across failed allocations",
  "After any sequence of appends, bulk appends, zero and one extensions, edits, concatenations, reversals, reservations and swaps, the builder's size and every bit of the vector made from it are what that sequence defines. If an operation fails for lack of memory, the builder holds what it held before, followed at most by a prefix of what was being appended, and can go on being used.",
  ["histories", "fault_sequences", "inputs"],
  "all operation sequences on several builders x allocation failure at any allocation of any operation x all sizes and alignments",
  "The tests use one kind of operation per builder from empty, never reserve, extend, append builders or swap, and never fail an allocation.",
  ["bit_vector.hpp"],
  [("current-word pointer kept on the last word", "bit_vector.hpp: bit_vector_builder::push_back/append_bits/zero_extend/append/reserve/swap"),
   ("size grows together with the word array", "bit_vector.hpp: bit_vector_builder")],
  observe=["bit_vector_builder::size", "bits of bit_vector(builder*)"])

p("C14", "Construction is all-or-nothing when memory or input fails",
  "If an allocation fails, or the input range throws, while a structure is being built, assigned or enumerated, the error reaches the caller as that exception, nothing is leaked, the structures and inputs that existed before still answer as before, and the target of a failed assignment is left valid and empty or unchanged. When the same construction is retried and does not fail, its result is exact.",
  ["fault_sequences", "inputs", "schedules"],
  "all structure kinds and contents x failure of any single or repeated allocation x exception at any element of the input x interleavings with readers of other structures",
  "No test fails an allocation or an input iterator.",
  ["mappable_vector.hpp", "bit_vector.hpp", "rs_bit_vector.cpp", "bp_vector.cpp", "darray.hpp", "darray64.hpp", "elias_fano.hpp", "elias_fano_list.hpp", "elias_fano_compressed_list.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "nibble_vector.hpp", "cartesian_tree.hpp", "topk_vector.hpp"],
  [("memory owned by vectors until handed over", "mappable_vector.hpp: steal, assign, range constructor"),
   ("build into a temporary, then swap", "constructors of composite structures")],
  observe=["exceptions", "allocations still live", "answers of surviving structures"])

p("C15", "Contents follow ownership through any life of assign, swap, map and clear",
  "Through any sequence of building, assigning, taking over a vector, swapping, mapping an image over, clearing and destroying, every container and structure holds exactly the content that sequence gives it. Memory it owns is released exactly once and never used after release; memory it was mapped onto is never written or released.",
  ["histories", "inputs", "schedules"],
  "all lifecycle sequences over several objects of each kind, with owned and mapped content mixed, under all memory-reuse patterns",
  "The tests swap freshly built temporaries into empty objects only and never swap, clear or overwrite mapped objects.",
  ["mappable_vector.hpp", "mapper.hpp", "bit_vector.hpp", "rs_bit_vector.hpp", "bp_vector.hpp", "darray.hpp", "darray64.hpp", "elias_fano.hpp", "elias_fano_list.hpp", "elias_fano_compressed_list.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "nibble_vector.hpp", "cartesian_tree.hpp", "topk_vector.hpp", "util.hpp"],
  [("deleter travels with the data", "mappable_vector.hpp: swap, steal, clear, destructor"),
   ("member-wise swap of every field", "swap() of every structure")],
  observe=["answers after each step", "allocator bookkeeping", "read-only mappings"])

p("C16", "Word-level primitives compute their mathematical definition",
  "Population count, byte and bit reversal, most/least significant bit, select-in-word and the byte- and 9-bit-parallel comparisons return the mathematically defined value for every 64-bit word in their domain.",
  ["inputs"], "all 64-bit words (and ranks within them)",
  "Only exercised indirectly, on the words that occur in other tests.",
  ["broadword.hpp", "tables.hpp", "intrinsics.hpp"],
  [("broadword formulas and select-in-byte table", "broadword.hpp, tables.hpp")])

p("C17", "Integer codecs invert each other",
  "Decoding a variable-byte encoded integer returns the integer and the number of bytes written for it, and the signed/unsigned mapping and its inverse compose to the identity on their domains.",
  ["inputs"], "all 64-bit integers and all concatenations of encodings",
  "Not tested at all.", ["vbyte.hpp", "util.hpp"],
  [("seven bits per byte, high bit as continuation", "vbyte.hpp"), ("zig-zag mapping", "util.hpp: int2nat, nat2int")])

p("C18", "Structures stay within their succinct space bounds",
  "The size of each structure is within a fixed small overhead of the information-theoretic size its representation promises (for instance at most 1.25 bits per bit plus hints for rank/select vectors, about 2 + log(n/m) bits per element for Elias-Fano).",
  ["inputs"], "all contents",
  "No test measures the size of a structure.", ["rs_bit_vector.cpp", "elias_fano.hpp", "bp_vector.cpp", "gamma_vector.hpp"],
  [("index sampling constants", "rs_bit_vector.hpp, darray.hpp, darray64.hpp, bp_vector.hpp")])

p("C19", "Queries and cursors need no memory and little stack",
  "Once built or mapped, every structure except top-k answers all its queries exactly, and its cursors can be started, copied and driven, when no memory at all can be allocated and each thread has only a small stack (96 KB), for any number of concurrent readers. So can an image be mapped and queried in that state.",
  ["fault_sequences", "schedules", "inputs"],
  "all structure kinds but top-k and all contents x all interleavings of readers x failure of every allocation a query, a cursor or a mapping could make",
  "Tests run with ample memory and stack and never fail an allocation, so a query that allocates or recurses over the content passes them all.",
  ["bit_vector.hpp", "rs_bit_vector.hpp", "darray.hpp", "darray64.hpp", "bp_vector.cpp", "cartesian_tree.hpp", "elias_fano.hpp", "elias_fano_list.hpp", "elias_fano_compressed_list.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "nibble_vector.hpp", "forward_enumerator.hpp", "mapper.hpp", "mappable_vector.hpp"],
  [("iterative searches over in-place directories", "bp_vector.cpp: search_min_tree, excess_rmq; rs_bit_vector.hpp: select; darray.hpp: select"),
   ("cursors hold a few words and a pointer", "bit_vector.hpp: enumerator, unary_enumerator; elias_fano.hpp: select_enumerator; gamma_vector.hpp: forward_enumerator"),
   ("mapping only sets pointers", "mapper.hpp: map_visitor")],
  observe=["answers and exceptions while operator new fails", "the page below each thread's stack"])

p("C20", "A thread stalled in the middle of a call holds up no other thread",
  "When a thread is suspended for any length of time at any point inside a query, a cursor step, a freeze, a mapping or the building of a structure of its own, every other thread that queries, freezes or maps the same structures or builds its own finishes its work with exact answers in a bounded number of steps. When the stalled thread resumes, its call completes and its answers are exact as well.",
  ["schedules", "histories", "inputs"],
  "all points at which one or more threads are suspended x all operations of the other threads meanwhile x all contents",
  "Tests are single-threaded; no thread is ever suspended in mid-call.",
  ["bit_vector.hpp", "rs_bit_vector.hpp", "rs_bit_vector.cpp", "bp_vector.cpp", "darray.hpp", "darray64.hpp", "elias_fano.hpp", "gamma_vector.hpp", "cartesian_tree.hpp", "topk_vector.hpp", "mapper.hpp", "mappable_vector.hpp"],
  [("no locks and no shared mutable state in queries or construction", "all structures"),
   ("per-cursor and per-call state only", "enumerators of bit_vector.hpp, elias_fano.hpp, gamma_vector.hpp, topk_vector.hpp")],
  observe=["completion of the other threads while one is suspended", "answers during and after the stall"])

p("C21", "Queries are wait-free and their work does not grow with the content",
  "Every query of a built or mapped structure, every start or step of a cursor, and mapping an image (without warm-up), sizing or swapping a structure finishes within a bounded number of the calling thread's own steps, whatever other threads do meanwhile, even while one is suspended in mid-call. The bound is a constant of the structure plus a logarithm of its length, apart from the distance the operation is defined to walk: words up to the position a predecessor, successor or cursor finds, elements of one Elias-Fano bucket for its rank and access, results of a top-k query.",
  ["schedules", "inputs", "histories"],
  "all contents (simulated up to 2^28 bits) x all interleavings and suspensions of readers",
  "Tests use small inputs and measure no work; an index that is built but not used, or a search that degrades to a scan on some contents, passes them all.",
  ["bit_vector.hpp", "rs_bit_vector.hpp", "rs_bit_vector.cpp", "darray.hpp", "darray64.hpp", "bp_vector.cpp", "cartesian_tree.hpp", "topk_vector.hpp", "elias_fano.hpp", "elias_fano_list.hpp", "elias_fano_compressed_list.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "nibble_vector.hpp", "forward_enumerator.hpp", "mapper.hpp"],
  [("rank/select directories and hints", "rs_bit_vector.hpp: rank, select, select0; rs_bit_vector.cpp: build_indices"),
   ("dense, sparse and overflow blocks of the select directories", "darray.hpp: flush_cur_block, select; darray64.hpp: select"),
   ("block minima and superblock minimum tree", "bp_vector.cpp: search_block_in_superblock, search_min_tree, excess_rmq"),
   ("mapping sets pointers only", "mapper.hpp: map_visitor; mappable_vector.hpp")],
  observe=["steps of the calling thread during the call (instrumented branches and memory accesses)"])

p("C22", "Calls nest on one thread: interrupted and nested calls stay exact",
  "A thread may call the library while a call of its own is under way. Interrupted at any point inside a query, a cursor step, a build, a freeze or a mapping, it may (as in a signal handler) query any finished structure and drive cursors of its own over it; and the code of the caller that a call runs - input iterators, comparators, stream buffers, custom input streams - may query, build, freeze, map, read lines and destroy, structures of the same type too. The nested calls give the exact answers and images, and the interrupted call completes with the answers, the image and the byte count it would have had alone.",
  ["schedules", "histories", "inputs"],
  "all calls x all points of interruption, any number of times x all nested calls x all contents and concurrent readers",
  "No test interrupts a call or passes an iterator, comparator or stream that calls the library.",
  ["rs_bit_vector.hpp", "bp_vector.cpp", "cartesian_tree.hpp", "topk_vector.hpp", "elias_fano.hpp", "gamma_vector.hpp", "darray.hpp", "darray64.hpp", "mapper.hpp", "mappable_vector.hpp", "util.hpp", "bit_vector.hpp"],
  [("queries keep everything in locals", "rs_bit_vector.hpp: select; bp_vector.cpp: excess_rmq; darray.hpp: select"),
   ("each builder holds its own state", "cartesian_tree.hpp: builder; elias_fano.hpp: elias_fano_builder; darray64.hpp: builder"),
   ("each freeze counts its own bytes", "mapper.hpp: freeze_visitor"),
   ("line buffer on the stack", "util.hpp: fast_getline")],
  observe=["answers, images and byte counts of interrupted and nested calls"])

p("C23", "Building, filling, freezing and reading cost linear work and memory",
  "For every content of every structure and along every construction route, building takes a number of steps, requests an amount of memory and holds an amount of memory at once that are each at most a constant times the size of the input; the finished structure holds memory proportional to its image; freezing and a mapping with warm-up are linear in the image, while sizing, plain mapping, swapping and destroying are constant; any history of appends, runs and single bits over a builder costs amortised linear work and memory in what it appends; and reading lines, from a stream or a mapped file, is linear in the text. A construction that fails for memory or because its input throws stays within the same bounds, and nothing other threads do, running, preempted or suspended, makes a call cost its own thread more.",
  ["inputs", "histories", "faults", "schedules"],
  "all contents x all construction routes and builder histories x all texts x all failures x all concurrent threads; sizes to 3 million elements",
  "No test measures work or memory.",
  ["bit_vector.hpp", "rs_bit_vector.cpp", "bp_vector.cpp", "darray.hpp", "darray64.hpp", "elias_fano.hpp", "elias_fano_list.hpp", "gamma_vector.hpp", "cartesian_tree.hpp", "topk_vector.hpp", "mappable_vector.hpp", "mapper.hpp", "util.hpp"],
  [("doubling growth of the bit vector", "bit_vector.hpp: append_bits, zero_extend, one_extend"),
   ("one pass per directory", "rs_bit_vector.cpp: build_indices; bp_vector.cpp: build_min_tree; darray.hpp: build"),
   ("stack-based construction", "cartesian_tree.hpp: builder"),
   ("whole arrays written at once", "mapper.hpp: freeze_visitor"),
   ("chunked reading", "util.hpp: fast_getline, mmap_lines")],
  observe=["steps of the calling thread, bytes requested and bytes held during the call"])

for d in P:
    print(json.dumps(d))
