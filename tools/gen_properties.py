#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the text is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)
I = "include/"
prop("P01", "A point query never misses a stored key",
 "A point query for any key the filter was built from returns true: for every set of non-empty keys (duplicates allowed, sorted input, bytes 0x00 and 0xFF included), every dense/sparse split (dense part on or off, any size ratio) and every suffix kind and length up to 64 bits in total. It stays so for the whole life of the filter: freshly built, restored from a saved image, while other callers query it, and after some other operation ran out of memory.",
 ["inputs","configurations","histories","schedules","fault_sequences"],
 "all key sets x all configurations x all histories of other operations, restarts, schedules of concurrent callers and allocation failures before the query",
 "The unit tests query one word list and one integer sequence, with a few suffix lengths at one ratio; keys that are prefixes of others, 0x00/0xFF bytes, ratio 0, no dense part, suffixes that straddle words, nodes at each fan-out, restored filters under damage-free crash/restart and concurrent use are not reached (several of those were broken at the pinned commit).",
 [I+"surf.hpp",I+"louds_dense.hpp",I+"louds_sparse.hpp",I+"surf_builder.hpp",I+"suffix.hpp",I+"label_vector.hpp",I+"rank.hpp",I+"select.hpp"],
 [("trie walk through the dense then the sparse levels","SuRF::lookupKey, LoudsDense::lookupKey, LoudsSparse::lookupKey"),
  ("single scan over the sorted keys that stores the shortest unique prefix of each","SuRFBuilder::buildSparse, buildDense, determineCutoffLevel"),
  ("suffix equality test","BitvectorSuffix::checkEquality, read"),
  ("node navigation by rank/select and label search","BitvectorRank::rank, BitvectorSelect::select, LabelVector::search")],
 ["SuRF::lookupKey"])
prop("P02", "A range query never misses a stored key in the range",
 "A range query whose range contains at least one stored key (with the given inclusive or exclusive ends) returns true, whatever the bounds: stored or absent, longer or shorter than the stored prefixes, empty, ending inside any level of the structure. The same holds for filters restored from an image, for concurrent callers, and after other operations ran out of memory.",
 ["inputs","configurations","histories","schedules","fault_sequences"],
 "all key sets x configurations x all pairs of bounds left <= right with all four end kinds, at any point of any history",
 "The tests use ranges around stored words/integers with the default ratio; bounds that end inside the dense levels, bounds that are prefixes of stored keys, real suffixes that are absent or shorter than asked, and concurrent range queries are not tested (and were broken).",
 [I+"surf.hpp",I+"louds_dense.hpp",I+"louds_sparse.hpp",I+"suffix.hpp"],
 [("seek to the left bound, then compare the key found with the right bound","SuRF::lookupRange, SuRF::Iter::compare"),
  ("conservative suffix comparison","BitvectorSuffix::compare")],
 ["SuRF::lookupRange"])
prop("P03", "A positive answer is always explained by stored information",
 "A point query answers true for an absent key only if the information the filter keeps for some stored key (its shortest prefix that tells it from all others, or the whole key where it is a prefix of another key, plus the stored real suffix bits) agrees with the queried key, and hash suffixes of n bits reject all but about one in 2^n of those. A range query answers true only if some stored key's kept information is consistent with a key inside the closed range.",
 ["inputs","configurations","histories","schedules"],
 "all key sets x configurations x all absent keys and empty ranges, in fresh and restored filters, at any point of any history",
 "The tests assert positives for stored keys and only sample a few negatives; wrong matches at node ends, the terminator label, filters without a dense part (which answered true to everything) or lost suffix bits are invisible to them.",
 [I+"surf.hpp",I+"louds_dense.hpp",I+"louds_sparse.hpp",I+"suffix.hpp",I+"bitvector.hpp",I+"label_vector.hpp"],
 [("label search limited to one node","LabelVector::search, LoudsSparse::nodeSize, Bitvector::distanceToNextSetBit"),
  ("suffix equality and comparison","BitvectorSuffix::checkEquality, compare"),
  ("terminator label handling","LoudsSparse::lookupKey, SuRFBuilder::isTerminator")],
 ["SuRF::lookupKey","SuRF::lookupRange"])
prop("P04", "Seeks land on the nearest stored key, with an honest flag",
 "Seeking to the first key greater (or the last key less) than a key, inclusively or not, returns a position at exactly that stored key, or an invalid position if there is none. The only permitted deviation is stopping one position early, at a key whose kept information cannot be told apart from the sought key, and then the false-positive flag is set; the flag is never set at a position whose kept information excludes the sought key.",
 ["inputs","configurations","histories","schedules"],
 "all key sets x configurations x all seek keys, both directions, both inclusivities, in fresh and restored filters, at any point of any history",
 "The tests seek for stored words, integers and words with the last byte changed; seek keys that end inside a level, extend a stored key, fall past the end of a node with a terminator or start before the first key are not sampled (and skipped or overshot keys).",
 [I+"surf.hpp",I+"louds_dense.hpp",I+"louds_sparse.hpp",I+"suffix.hpp",I+"label_vector.hpp"],
 [("upper-bound walk with backtracking to the next subtrie","LoudsDense::moveToKeyGreaterThan, LoudsSparse::moveToKeyGreaterThan, moveToLeftInNextSubtrie"),
  ("less-than seek derived from the greater-than seek","SuRF::moveToKeyLessThan"),
  ("suffix comparison decides between staying and stepping","compareSuffixGreaterThan")],
 ["SuRF::moveToKeyGreaterThan","SuRF::moveToKeyLessThan","SuRF::Iter::isValid, getKey, getFpFlag"])
prop("P05", "Iteration visits every stored key exactly once, in order",
 "From any valid position, a forward step moves to the position of the next stored key in byte order and a backward step to the previous one; stepping past either end makes the position invalid and it stays so. This holds for any mixture of forward and backward steps started by any first/last/seek operation, and positions are independent: stepping, copying or dropping one never moves another.",
 ["histories","inputs","configurations","schedules"],
 "all step histories (direction changes included) over all key sets, configurations, start operations and numbers of simultaneously live positions",
 "The tests iterate in one direction from a seek over one word list; direction changes, hand-overs between dense and sparse levels in both directions, prefix keys at every level and several live positions are not covered.",
 [I+"surf.hpp",I+"louds_dense.hpp",I+"louds_sparse.hpp"],
 [("dense and sparse step with hand-over","SuRF::Iter::operator++/--, incrementDenseIter, decrementDenseIter, passToSparse"),
  ("leftmost/rightmost descent","LoudsDense::Iter::moveToLeftMostKey/RightMostKey, LoudsSparse::Iter::...")],
 ["SuRF::Iter operator++, operator--","SuRF::moveToFirst, moveToLast","SuRF::Iter::isValid, getKey"],
 [("dense_iter_/sparse_iter_","the two halves of a position; flags say which half completes the key","SuRF::Iter")])
prop("P06", "Approximate counts are off by at most the two boundary keys",
 "For any left <= right, the approximate count of a key range never exceeds the number of stored keys in the closed range and is at most two below it. The count between two positions of a filter, the first not after the second, likewise never exceeds the number of keys from the first to the second, both included, and is at most two below it.",
 ["inputs","configurations","histories"],
 "all key sets x configurations x all pairs of bounds and all pairs of ordered positions, in fresh and restored filters",
 "The tests count over one integer sequence and one word list with stored keys as bounds at the default ratio; the documented bound of two did not hold for bounds that end at different levels.",
 [I+"surf.hpp",I+"louds_dense.hpp",I+"louds_sparse.hpp"],
 [("difference of per-level ranks of two positions","SuRF::approxCount, LoudsDense::approxCount, LoudsSparse::approxCount")],
 ["SuRF::approxCount (both forms)"])
prop("P07", "A filter restored after a crash behaves like the one that was saved",
 "An image that was completely saved before a process crash, read back in a later process at any memory address, yields a filter whose answers, positions, flags, counts, heights and sizes equal those of a filter freshly built from the same keys and configuration, over any number of save/restore generations. The restored filter does not depend on the image buffer afterwards: the buffer may be overwritten or freed.",
 ["crash_points","fault_sequences","histories","inputs","configurations"],
 "all crash points of a process that builds, saves and replaces images x disk faults (lost, torn, reordered unsynced writes, short reads/writes, I/O errors) x placement of the buffer x generations x key sets and configurations",
 "The tests restore in the same process from the very buffer that serialize allocated and compare lookups of a single word list; fields that only matter to other queries, unaligned buffers, scribbled buffers, later generations and a fresh process are not reached.",
 [I+"surf.hpp",I+"louds_dense.hpp",I+"louds_sparse.hpp",I+"rank.hpp",I+"select.hpp",I+"suffix.hpp",I+"label_vector.hpp",I+"config.hpp"],
 [("flat image written and read field by field, padded to 8 bytes","serialize/deSerialize of every component, align, sizeAlign")],
 ["SuRF::serialize, deSerialize","all queries on the restored filter"])
prop("P08", "The saved image is a function of keys and configuration only",
 "Two filters built from the same set of keys with the same configuration have byte-identical images of exactly the announced size, regardless of duplicates in the input, what the heap contained or how it was laid out, what ran before or concurrently, and how many times the filter has been saved and restored. Saving does not change the filter.",
 ["histories","inputs","configurations","schedules","crash_points"],
 "all heap contents and layouts, histories, schedules and processes in which the same keys are built and saved",
 "A test runs with whatever the heap holds and never compares two images; uninitialised padding leaked heap bytes into the image at the pinned commit.",
 [I+"surf.hpp",I+"louds_dense.hpp",I+"louds_sparse.hpp",I+"rank.hpp",I+"select.hpp",I+"suffix.hpp",I+"label_vector.hpp",I+"surf_builder.hpp"],
 [("announced size and writer agree","SuRF::serializedSize, serialize"),("all written bytes are initialised","SuRF::serialize, component constructors")],
 ["SuRF::serialize, serializedSize"])
prop("P09", "Concurrent callers of one filter do not affect each other",
 "Any number of threads may query, iterate, count and save the same filter at once, while others build and destroy filters of their own; each call returns what it returns when it runs alone, under every interleaving of their memory accesses, with no data race and no deadlock. A caller's progress never depends on another caller being scheduled.",
 ["schedules","histories","inputs","configurations"],
 "all interleavings, at the granularity of single memory accesses, of the calls of 2 to 4 threads on shared filters",
 "No test starts a thread; the multi-threaded benchmark checks no answer. Range queries and counts kept their positions inside the filter, a race that only some schedules expose.",
 [I+"surf.hpp",I+"louds_dense.hpp",I+"louds_sparse.hpp","bench/workload_multi_thread.cpp"],
 [("queries keep all mutable state in local positions","SuRF::lookupRange, approxCount, SuRF::Iter"),("filter data is immutable after construction","LoudsDense, LoudsSparse")],
 ["every public query, from several threads"])
prop("P10", "Running out of memory in one call leaves everything else intact",
 "When an allocation fails inside any call, that call either completes correctly or reports the failure to its caller as an allocation error; it never crashes, hangs or returns a wrong answer. Every filter, position and image that existed before stays fully usable and correct, and the same call succeeds once memory is available again.",
 ["fault_sequences","inputs","configurations","histories"],
 "all allocation sites reached by all calls x single and persistent failures x key sets and configurations x later operations",
 "No test makes an allocation fail.",
 [I+"surf.hpp",I+"louds_dense.hpp",I+"louds_sparse.hpp",I+"surf_builder.hpp"],
 [("queries allocate only local state; construction publishes nothing before it is complete","SuRF::Iter, SuRF::create, deSerialize")],
 ["every public call"])
prop("P11", "Calls stay inside live memory, and destroying a filter frees it all",
 "No call reads or writes memory outside live allocations or frees anything twice or with the wrong form of delete, for any key set, configuration and valid query, on fresh and restored filters. Repeating build, use, save, restore and destroy does not make memory use grow: destroying a filter releases everything it allocated, exactly once, and nothing that another filter, image or caller owns.",
 ["inputs","configurations","histories"],
 "all key sets, configurations and operation histories; every single load and store the library performs",
 "The tests run without an allocator that checks; reads past the last word or label, writes past a full last word and leaks in destroy gave no failing test.",
 [I+"bitvector.hpp",I+"label_vector.hpp",I+"rank.hpp",I+"select.hpp",I+"suffix.hpp",I+"louds_dense.hpp",I+"louds_sparse.hpp",I+"surf.hpp"],
 [("array sizes derived from the per-level counts","constructors and deSerialize of every component"),("ownership released in destroy","destroy of every component")],
 ["allocator and memory-access level of every public call"])
prop("P12", "What a position reports about its key is true",
 "At a valid position, the reported key is the shortest prefix of the stored key there that tells it from every other stored key (or the whole key where that is a prefix of another); the reported suffix, and the key reported together with its suffix and bit count, agree bit for bit with the stored key and carry all suffix bits kept for it. Comparing a position with a key never claims that the stored key is smaller or greater when it is not, and leaves the order open only where what is kept of the key does not decide it.",
 ["inputs","configurations","histories"],
 "all key sets x configurations x positions reached by any history x all compared keys, in fresh and restored filters",
 "The tests look at reported keys of one word list and at suffixes of one length; lengths that are not a multiple of 8, suffixes that straddle words, keys shorter than their suffix and comparisons with shorter, longer or diverging keys are not covered.",
 [I+"surf.hpp",I+"louds_dense.hpp",I+"louds_sparse.hpp",I+"suffix.hpp"],
 [("key bytes collected while walking; suffix read by position","SuRF::Iter::getKey, getSuffix, getKeyWithSuffix, compare")],
 ["SuRF::Iter::getKey, getSuffix, getKeyWithSuffix, compare"])
prop("P13", "Space stays within what the encoding needs",
 "A filter takes no more memory than its encoding: for each label kept in the sparse levels one byte and two bits, for each node of the dense levels 512 bits and one, the kept suffix bits, the rank and select tables (4 bytes for every 512 labels of the sparse levels, for every 64 of their nodes, and for every 64 of the 512 bits of a dense node's two bitmaps), plus a constant and a few bytes per level. What the filter reports as its memory use is what it holds on the heap, its image is no larger than that bound either, and both are the same for fresh and restored filters. Without the dense part there are no dense levels; with it, the dense levels, the lowest of them left out, take at most 1/ratio of the sparse encoding of the rest.",
 ["inputs","configurations","histories","fault_sequences"],
 "all key sets x configurations (dense part on or off, every ratio, every suffix kind and length) x fresh, restored and rebuilt filters at any point of a history",
 "No test looks at the size of anything; a filter that keeps too many bytes of each key, a table that is twice as long as needed, or a size report that forgets a component answers every query correctly.",
 [I+"surf.hpp",I+"surf_builder.hpp",I+"louds_dense.hpp",I+"louds_sparse.hpp",I+"bitvector.hpp",I+"rank.hpp",I+"select.hpp",I+"label_vector.hpp",I+"suffix.hpp"],
 [("dense/sparse cut-off","SuRFBuilder::determineCutoffLevel, computeDenseMem, computeSparseMem"),
  ("array sizes","constructors of Bitvector, BitvectorRank, BitvectorSelect, LabelVector, BitvectorSuffix"),
  ("size reports","getMemoryUsage, serializedSize, size of every component")],
 ["SuRF::getMemoryUsage, serializedSize, getSparseStartLevel, getHeight","heap held between construction and destruction"])
prop("P14", "Integer keys keep their value and their order",
 "Converting a 64-bit integer to a key gives 8 bytes, converting these back gives the same integer, and keys compare as the integers do, for every integer, whichever of the two converters (library or benchmark) is used, from any number of callers at once and after conversions that ran out of memory.",
 ["inputs","schedules","fault_sequences"],
 "all 64-bit integers, all pairs of them, all interleavings of converting callers, all allocation failures",
 "The tests convert small consecutive integers, whose upper bytes are zero, in one thread.",
 [I+"config.hpp","bench/bench.hpp"],
 [("byte swap","surf::uint64ToString, stringToUint64; bench::uint64ToString, stringToUint64")],
 ["uint64ToString, stringToUint64"])
prop("P15", "Every call ends after work bounded by key and trie height",
 "A point query takes work bounded by a constant for each byte of the queried key; a seek, a range query, a count or a step of a position takes work bounded by a constant for each level of the trie. The constants cover looking through one node of at most 256 labels and a select over 64 nodes; they do not depend on how many keys are stored, on what was called before, on the contents of memory or on other callers. Building takes work linear in the bytes of the keys (and quadratic in the height of the trie), saving and restoring take work linear in the image. Every call comes to an end, also when memory runs out in the middle of it.",
 ["inputs","configurations","histories","schedules","fault_sequences"],
 "all key sets x configurations x calls x histories, schedules and allocation failures before and during the call",
 "The tests have no notion of the work a call does: a rank that scans the vector from its start, a label search that leaves the node or a position that is walked from the first key gives the right answer, in milliseconds, for the sizes the tests use.",
 [I+"surf.hpp",I+"louds_dense.hpp",I+"louds_sparse.hpp",I+"bitvector.hpp",I+"rank.hpp",I+"select.hpp",I+"label_vector.hpp",I+"surf_builder.hpp"],
 [("rank and select through lookup tables","BitvectorRank::rank, BitvectorSelect::select"),
  ("search within one node","LabelVector::search, searchGreaterThan, LoudsSparse::nodeSize, Bitvector::distanceToNextSetBit, distanceToPrevSetBit"),
  ("one pass over the keys","SuRFBuilder::buildSparse, buildDense, determineCutoffLevel")],
 ["memory accesses made by each public call"])
prop("P16", "The benchmark's filters keep the library's promises",
 "The filters the benchmark creates by name (SuRF, SuRFHash, SuRFReal, SuRFMixed, Bloom and the default) never deny a stored key or a range that contains one. The SuRF filters answer a point query for an absent key positively only where a stored key's shortest telling prefix covers it, and count nothing in an empty range and something in a range of more than two keys. The Bloom filter passes at most about one in a hundred absent keys. Asking does not change the memory use they report, and failed allocations in one call leave the others right.",
 ["inputs","configurations","histories","schedules","fault_sequences"],
 "all key sets x filter names x suffix lengths x queries, by several callers with filters of their own and with failing allocations",
 "The benchmark filters have no tests; the benchmark counts positives and checks none of them.",
 ["bench/filter_factory.hpp","bench/filter_surf.hpp","bench/filter_bloom.hpp","bench/bloom.hpp",I+"surf.hpp"],
 [("filter by name","bench::FilterFactory::createFilter"),("SuRF behind the filter interface","bench::FilterSuRF"),("double hashing over a bit array","bench::BloomFilter")],
 ["bench::Filter lookup, lookupRange, approxCount, getMemoryUsage"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
