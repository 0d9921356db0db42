#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts is here)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))
H=['histories','inputs']
p('C01','Any history of 32-bit updates leaves exactly the mathematical set',
 'After any sequence of updates to a 32-bit bitmap (adding and removing single values, lists and ranges, checked variants, flips, clearing, overwriting, run-optimizing, shrinking, in-place set operations) the bitmap holds exactly the set of values that the same operations produce on a mathematical set of integers below 2^32. Every value an update returns (was it added, was it removed) agrees with that set. Range bounds outside the 32-bit universe are clipped to it and never wrap around.',
 H,'every operation sequence over a bounded alphabet up to the stated depth, from several start states',
 'Unit tests run a few hundred fixed or random sequences; representation changes (array/bitset/run, shared or not, capacity growth) make the outcome depend on the whole history.',
 ['src/roaring.c','src/roaring_array.c','src/containers/array.c','src/containers/run.c','src/containers/bitset.c','src/containers/convert.c'],
 [('sorted key array and per-key container dispatch','src/roaring.c'),('container add/remove/range with type conversion','include/roaring/containers/containers.h, src/containers/convert.c')],
 [('high_low_container','sorted 16-bit keys with a typed container each','include/roaring/roaring_types.h')],
 ['roaring_bitmap_to_uint32_array, roaring_bitmap_contains, return values'])
p('C02','Binary set algebra on 32-bit bitmaps is exact for every representation',
 'Intersection, union, symmetric difference and difference of two 32-bit bitmaps, as new bitmaps, in place, or as cardinalities only, and the intersects, equality, subset, strict-subset and Jaccard predicates, give exactly the result of the same operation on the two sets. The answer depends only on the two sets of values and never on how either operand is stored internally or on where chunk boundaries fall.',
 ['inputs'],'every ordered pair from a catalogue of boundary contents in every possible internal representation, every subset algebra over boundary atoms, every element-wise merge order up to a bounded length',
 'There are 3x3 representation pairs with several code paths (galloping, vectorised, threshold conversions) for each of dozens of operations; tests sample a few of the combinations.',
 ['src/roaring.c','src/containers/mixed_intersection.c','src/containers/mixed_union.c','src/containers/mixed_xor.c','src/containers/mixed_andnot.c','src/containers/mixed_subset.c','src/containers/mixed_equal.c','src/array_util.c','src/bitset_util.c','src/containers/run.c','src/containers/array.c','src/containers/bitset.c'],
 [('pairwise container dispatch','include/roaring/containers/containers.h'),('key merge loops','src/roaring.c')],
 observe=['result contents, cardinality and predicate values through the public API'])
p('C03','Many-way and lazy set operations equal repeated pairwise operations',
 'The union of any list of 32-bit bitmaps (both many-way variants), the symmetric difference of any list, and any chain of lazy unions or lazy symmetric differences followed by the repair step equal the set obtained by combining the inputs pairwise. The inputs keep their values, and the list may be empty, contain empty bitmaps, or contain the same bitmap repeatedly.',
 ['inputs','histories'],'every list up to a bounded length over a catalogue, every lazy chain up to a bounded length with both conversion settings',
 'Lazy results carry deferred cardinalities and oversized representations whose repair depends on the order and types of all earlier operands; tests combine only a few.',
 ['src/roaring.c','src/roaring_priority_queue.c','src/containers/mixed_union.c','src/containers/mixed_xor.c','include/roaring/containers/containers.h'],
 [('lazy container operations and repair','include/roaring/containers/containers.h'),('size-ordered heap merge','src/roaring_priority_queue.c')],
 observe=['contents and cardinality of the repaired result'])
p('C04','Every 32-bit query answers as the mathematical set does',
 'Membership, range membership, cardinality, range cardinality, rank (single and batched), select, index-of, minimum, maximum, emptiness, range intersection, statistics, paged extraction, full extraction and conversion to an uncompressed bitset return exactly what the set of values implies. This holds for every argument, including arguments between, before and after all stored values, empty and inverted ranges, and bounds at or beyond 2^32.',
 ['inputs'],'every catalogue bitmap x every query x every boundary argument (and pair of arguments)',
 'The correct answer hinges on boundary arguments falling in, before or after a container in each representation; tests sample arguments.',
 ['src/roaring.c','src/roaring_array.c','include/roaring/containers/containers.h','src/containers/array.c','src/containers/run.c','src/containers/bitset.c','src/bitset_util.c'],
 [('per-container rank/select/contains','include/roaring/containers/containers.h')],
 observe=['query return values and output buffers'])
p('C05','32-bit iteration visits exactly the set, in order, from any position',
 'An iterator over a 32-bit bitmap behaves as a cursor over the sorted set: starting at the first or last value, any interleaving of step forward, step back, seek to the first value at or above a target, bulk read of any count, and copy lands on exactly the element (or past-the-end or before-the-start position) the sorted set dictates. Callback iteration visits all values in increasing order and stops as soon as the callback asks to.',
 H,'every cursor-operation sequence up to the stated depth over catalogue bitmaps',
 'Cursor state spans container index, in-container index and run position, so errors need particular operation orders near boundaries.',
 ['src/roaring.c','src/containers/containers.c','include/roaring/containers/containers.h','include/roaring/roaring.h'],
 [('iterator state machine','src/roaring.c, src/containers/containers.c')],
 [('iterator','parent, container index, in-container position, current value, has_value','include/roaring/roaring_types.h')],
 ['has_value/current_value after each step; buffers filled by bulk reads'])
p('C06','Serialization round-trips exactly and writes exactly the announced bytes',
 'For every 32-bit bitmap and each of the portable, native and frozen formats, the writer writes exactly the number of bytes the corresponding size query announces, never outside the buffer, and reading those bytes back (including the zero-copy views) gives a bitmap equal to the original without reading past them. Serializing the copy that was read back in the portable format gives the same bytes again. A frozen view is refused when the buffer is misaligned or its length is not exactly the announced one.',
 ['inputs'],'every catalogue bitmap (contents x representation x key layout x sharing) x every format and every reader',
 'Layout depends on container count thresholds, mixed types and runs; tests round-trip a handful of bitmaps and never guard the buffer ends.',
 ['src/roaring.c','src/roaring_array.c','src/containers/array.c','src/containers/run.c','src/containers/bitset.c'],
 [('portable and frozen layout writers/readers','src/roaring_array.c, src/roaring.c')],
 observe=['bytes produced, bytes consumed, contents after reading'])
p('C07','Portable bytes follow the published Roaring format, both ways',
 'Portable serialization of any 32-bit or 64-bit bitmap produces a byte stream that an independent implementation of the published Roaring format specification decodes to the same set, and any stream which that independent implementation encodes according to the specification is accepted and read as the set it denotes.',
 ['inputs'],'every catalogue bitmap encoded and decoded by an independent codec; every specification-conforming encoding (run/array/bitset choice per chunk, offsets present or not) of bounded contents',
 'A writer and reader that share a mistake still round-trip, so tests pass; a few golden files pin only a few layouts.',
 ['src/roaring_array.c','src/roaring64.c','cpp/roaring64map.hh'],
 [('cookie, run-flag bitmap, descriptive header, offset header','src/roaring_array.c'),('64-bit bucket framing','src/roaring64.c')],
 observe=['serialized bytes; sets read from hand-encoded bytes'])
p('C08','Reading untrusted bytes is memory-safe and validated bitmaps are usable',
 'For any byte buffer and any length limit, the bounds-checked readers of portable bytes (32-bit and 64-bit, and the size probe) either fail or return a bitmap without touching memory outside the given buffer, without leaking, and consuming no more than the limit. If the returned bitmap then passes the internal validation the library offers, every operation on it is safe and behaves as a proper set; valid serialized bitmaps are always accepted and truncated ones never are.',
 ['inputs','fault_sequences'],'every truncation and every bounded corruption (each header field and payload position over boundary values) of a catalogue of serialized bitmaps, and all short byte strings over a small alphabet',
 'The input space is all byte strings; tests feed a few crafted corrupt files.',
 ['src/roaring_array.c','src/roaring.c','src/roaring64.c','src/containers/containers.c','src/containers/run.c','src/containers/array.c'],
 [('bounds-checked parse','src/roaring_array.c'),('internal validation','src/roaring.c, src/containers/*.c')],
 observe=['return value, memory accesses under a sanitizer, validation verdict, later operations'])
p('C09','Copy-on-write copies are isolated from each other',
 'Bitmaps that share storage through copy-on-write behave exactly like independent bitmaps: an update, in-place operation, query or release applied to one never changes the values observed through any other. Once all sharers are released, in any order, all memory has been given back exactly once.',
 H,'every operation sequence up to the stated depth over a family of bitmaps that share storage',
 'Sharing turns every mutating path into one that must detach first; tests exercise only a few mutations on shared storage.',
 ['src/roaring.c','src/roaring_array.c','src/containers/containers.c','include/roaring/containers/containers.h'],
 [('shared container with reference count, unshare before write','src/containers/containers.c, src/roaring_array.c')],
 [('shared_container.counter','number of bitmaps using a container','include/roaring/containers/containers.h')],
 ['contents of every sharer after every step; live allocations at the end'])
p('C10','Threads may use different bitmaps that share storage without interfering',
 'When several threads each work on their own bitmap, and those bitmaps share storage through copy-on-write, every interleaving gives each thread the same results as running alone, has no data race, frees shared storage exactly once and never uses it after it is freed. Read-only operations on one common bitmap from several threads are likewise race-free, including the first-use detection of processor features.',
 ['schedules'],'all thread interleavings with at most the stated number of preemptions of two and three threads over colliding bodies, with happens-before race detection',
 'A test run sees one interleaving chosen by the OS; a lost reference-count update or too-weak ordering shows only in specific ones.',
 ['include/roaring/portability.h','src/containers/containers.c','src/roaring_array.c','src/roaring.c','src/isadetection.c'],
 [('atomic reference counts with release/acquire ordering','include/roaring/portability.h'),('last-owner hand-over','src/containers/containers.c')],
 [('shared_container.counter','atomic reference count','include/roaring/containers/containers.h')],
 ['per-thread results, races, allocation balance at the end of each schedule'])
p('C11','Every bitmap the library produces passes its own validation, and bad ones do not',
 'Every 32-bit or 64-bit bitmap obtained by any sequence of public operations from valid bitmaps passes the internal consistency validation. Conversely validation rejects a bitmap, read from well-framed bytes, whose chunks are empty, unsorted, overlapping, duplicated, or carry a wrong count.',
 H,'every state reached by the bounded operation explorations and pairwise operations; every single-field structural corruption of well-framed encodings',
 'Validation failures appear only for result shapes that specific operand combinations produce; tests check validity of a few results.',
 ['src/roaring.c','src/roaring64.c','src/containers/containers.c','src/containers/array.c','src/containers/bitset.c','src/containers/run.c','src/art/art.c'],
 [('validation walk','src/roaring.c, src/containers/*.c, src/art/art.c')],
 observe=['validation verdict after every operation'])
p('C12','Results do not depend on processor features or build options',
 'Every operation yields the same observable results (contents, return values, serialized bytes) whichever instruction-set level the library selects at run time (scalar, 256-bit, 512-bit vectors) and whichever supported build options are used (vector code disabled, hand-written assembly disabled, debug assertions on, single-threaded reference counts, amalgamated source).',
 ['configurations','inputs'],'the same enumerated operation and input space executed under each instruction-set level and build configuration, results compared',
 'A test run exercises the one level of the machine it runs on and the one default build.',
 ['src/array_util.c','src/bitset_util.c','src/containers/bitset.c','src/containers/array.c','src/containers/run.c','src/containers/mixed_intersection.c','src/containers/mixed_union.c','src/isadetection.c','include/roaring/portability.h','include/roaring/bitset_util.h'],
 [('run-time dispatch between scalar, AVX2 and AVX-512 kernels','src/isadetection.c and every croaring_hardware_support() call')],
 observe=['results under each configuration'])
p('C13','All memory goes through the installed hooks and none is leaked',
 'Once custom memory hooks are installed, every byte the library allocates, resizes and releases for itself goes through them, each block is released exactly once by the hook family that allocated it, and after all bitmaps, iterators and bitsets have been released nothing is left allocated. Nothing is read or written outside or after the life of a block.',
 H,'every operation of the C API on every catalogue bitmap, and all bounded operation sequences, under a tracking allocator that separates plain, aligned and foreign memory',
 'Leaks and mismatched releases occur on rare conversion and early-exit paths; tests never install tracking hooks over them.',
 ['src/memory.c','src/roaring.c','src/roaring_array.c','src/roaring64.c','src/bitset.c','src/art/art.c','src/containers/bitset.c','src/containers/array.c','src/containers/run.c','src/containers/convert.c'],
 [('memory hook table','src/memory.c')],
 observe=['hook call log, live block set'])
p('C14','Reported allocation failure leaves nothing broken',
 'When any single allocation (or every one from some point on) fails inside creating, copying, overwriting, viewing or reading a 32-bit bitmap, creating or copying one of its iterators, or creating, copying, growing, shifting, combining or trimming a bitset, the call reports failure as documented or still succeeds with the right contents. It never crashes, leaks, or damages its inputs, and the destination of a failed overwrite remains a usable bitmap.',
 ['fault_sequences'],'every allocation point of every listed operation over a catalogue of bitmaps, failing once and failing from there on',
 'Tests never make an allocation fail.',
 ['src/roaring.c','src/roaring_array.c','src/bitset.c','src/containers/array.c','src/containers/bitset.c','src/containers/run.c'],
 [('NULL checks and unwind paths','src/roaring_array.c, src/containers/*.c, src/bitset.c')],
 observe=['return value, state of operands, live blocks'])
p('C15','Any history of 64-bit updates leaves exactly the mathematical set',
 'After any sequence of updates to a 64-bit bitmap (single, list, checked and range additions and removals, flips, clearing, run-optimizing, shrinking, in-place set operations) the bitmap holds exactly the set the same operations produce on a mathematical set of integers below 2^64, up to and including the largest value. Every value an update returns agrees with that set.',
 H,'every operation sequence over a bounded alphabet up to the stated depth, from several start states',
 'The outcome depends on the shape of the key tree, reuse of freed slots and per-chunk representation, all functions of the whole history.',
 ['src/roaring64.c','src/art/art.c','include/roaring/containers/containers.h'],
 [('radix tree of 48-bit prefixes to containers, container slot table','src/roaring64.c, src/art/art.c')],
 [('containers','slot table with free slots','src/roaring64.c')],
 ['extraction, membership and return values'])
p('C16','Binary set algebra on 64-bit bitmaps is exact',
 'Intersection, union, symmetric difference and difference of two 64-bit bitmaps, as new bitmaps, in place or as cardinalities only, and the intersects, equality, subset, strict-subset and Jaccard predicates, give exactly the result of the same operation on the two sets. This holds for every distribution of the values over the 64-bit range and every internal representation of either operand.',
 ['inputs'],'every pair of subsets of a set of boundary high parts with catalogue chunks on either side, in every representation',
 'Two trees are walked in lock step with seeks; correctness depends on the relative order of keys on either side, of which tests sample few.',
 ['src/roaring64.c','src/art/art.c'],
 [('two-iterator merge loops','src/roaring64.c'),('tree seek and erase during iteration','src/art/art.c')],
 observe=['results through the public API'])
p('C17','64-bit queries and cursors agree with the sorted set',
 'Every 64-bit query (membership, range membership, cardinalities, rank, select, index-of, extremes, range intersection, statistics, extraction) returns what the set implies for every argument. A 64-bit cursor started at either end and moved by any interleaving of step forward, step back, forward seek, bulk read, copy and restart lands on exactly the element the sorted set dictates; callback iteration is ordered, complete and stops on request.',
 H,'every query with every boundary argument, and every cursor-operation sequence up to the stated depth, over catalogue bitmaps',
 'Errors need a target in a gap between particular keys or a particular sequence of cursor moves.',
 ['src/roaring64.c','src/art/art.c','src/containers/containers.c'],
 [('cursor with saturation flags over the key tree','src/roaring64.c')],
 observe=['query results, cursor value/has_value after each step'])
p('C18','64-bit serialization round-trips, and its readers survive bad input',
 'For every 64-bit bitmap the portable and frozen writers write exactly the announced number of bytes within the buffer, and reading them back (for frozen, as a view) gives an equal, fully usable bitmap. The bounds-checked portable reader and size probe never touch memory outside the buffer for any bytes and length limit, agree with each other, reject truncated input, and what passes validation is a proper set.',
 ['inputs','fault_sequences'],'every catalogue bitmap x format; every truncation and bounded corruption of the bytes',
 'Tests round-trip few bitmaps and feed few corrupt inputs.',
 ['src/roaring64.c','src/art/art.c','src/roaring_array.c'],
 [('bucket framing','src/roaring64.c'),('frozen layout of tree and containers','src/roaring64.c, src/art/art.c')],
 observe=['bytes, return values, contents after reading'])
p('C19','The 64-bit key index works for every distribution of high parts',
 'For any set of 48-bit high parts, inserted and removed in any order, a 64-bit bitmap finds exactly the present ones, enumerates them in increasing order in both directions, seeks to the right one, and stays correct as its internal index grows, splits, merges, shrinks and reuses freed slots. Shrinking never changes the contents.',
 H,'every insertion/removal order of bounded key sets chosen to share and split prefixes at each byte, and every fan-out size from 0 to 256 and back at each level with both removal orders',
 'Index nodes change layout at 4/16/48/256 children and prefixes split at any of 6 bytes; only specific histories reach each transition.',
 ['src/art/art.c','src/roaring64.c'],
 [('adaptive radix tree nodes and prefix compression','src/art/art.c')],
 [('nodes/first_free','per-type node arrays with free lists','include/roaring/art/art.h')],
 ['contents, order, seeks, validation'])
p('C20','The uncompressed bitset behaves as a mathematical set',
 'Every operation of the uncompressed bitset (set, clear to value, get, fill, shift both ways, resize, grow, trim, copy, in-place and counted union, intersection, difference and symmetric difference, disjointness, intersection and containment tests, counting, extremes, all forms of iteration) gives exactly the result on a set of non-negative integers, whatever the two operands\' sizes and capacities.',
 H,'every operation sequence up to the stated depth over small bitsets, every pair of bitsets of up to three words over boundary words and lengths',
 'Operand length mismatches and stale words beyond the logical end only matter in particular sequences.',
 ['src/bitset.c','include/roaring/bitset/bitset.h','src/bitset_util.c'],
 [('word array with separate size and capacity','src/bitset.c')],
 observe=['bit values, counts, iteration output, return values'])
p('C21','The C++ 32-bit class is a faithful value type over the set',
 'Every method, operator, constructor, assignment and iterator of the C++ 32-bit class has the effect on its set of values that its name states, and equals what the C interface does. Copying, moving, swapping, self-assignment and initialization from lists or streams preserve values, leave sources in a usable state, never share mutable state between objects, and release all memory exactly once.',
 H,'every method over catalogue values; every sequence of value-type and mutating operations up to the stated depth over several objects',
 'Value semantics break only for particular combinations of copy, move, copy-on-write and later mutation.',
 ['cpp/roaring.hh','src/roaring.c'],
 [('wrapper forwarding and ownership transfer','cpp/roaring.hh')],
 observe=['public methods of the C++ class'])
p('C22','The C++ 64-bit map class behaves as a mathematical set of 64-bit values',
 'Every method, operator and iterator of the C++ 64-bit map (updates, checked and ranged variants, flips, set operations, subset and equality tests, rank, select, index-of, extremes, extraction, iteration both ways with seeks, portable, native and frozen serialization, copy and move) gives exactly the result on the set of 64-bit values it holds. Results never depend on whether empty inner bitmaps are present or on which 32-bit halves the values straddle.',
 H,'every operation sequence up to the stated depth over values straddling 32-bit boundaries and the extremes; every pair of small maps including ones holding empty inner bitmaps',
 'Results depend on which inner bitmaps exist (possibly empty), on straddled boundaries and on the maximum value; tests sample these.',
 ['cpp/roaring64map.hh','cpp/roaring.hh'],
 [('ordered map from high half to inner bitmap','cpp/roaring64map.hh')],
 observe=['public methods of the C++ class'])
p('C23','Range construction, complement and shifting compute the exact image',
 'Building from an arithmetic progression contains exactly min, min+step, ... below max; complementing a range flips exactly the values of that range, in place or as a new bitmap; shifting by any signed offset yields exactly the values x+offset that remain in the universe. This holds for every range, step and offset including those touching 0, chunk boundaries and the end of the universe, for 32-bit and (where offered) 64-bit bitmaps.',
 ['inputs'],'every (min,max,step), (min,max) and offset over boundary grids x catalogue bitmaps in every representation',
 'Off-by-one errors live at particular combinations of range edge, chunk edge and representation; tests use few.',
 ['src/roaring.c','src/roaring64.c','src/containers/mixed_negation.c','src/containers/array.c','src/containers/run.c','src/containers/bitset.c','include/roaring/containers/containers.h'],
 [('per-chunk range fill, negation, offset split','src/roaring.c, src/containers/*.c')],
 observe=['contents of the result and operand'])
p('C24','Re-encoding never changes the contents and optimizing never enlarges a chunk',
 'Optimizing for runs, removing run compression, and shrinking to fit never change the set of values or the answers to queries and later operations. Optimizing for runs never increases the stored size of any chunk, the reported flags say truthfully whether run storage is present or was removed, and the number of bytes reported as freed by shrinking is what was actually given back.',
 ['inputs','histories'],'every catalogue bitmap in every representation and sharing state, followed by every bounded re-encoding sequence',
 'Conversions trigger at size thresholds on particular contents; tests check few contents.',
 ['src/roaring.c','src/containers/convert.c','src/containers/containers.c','src/roaring_array.c','src/roaring64.c'],
 [('best-representation choice','src/containers/convert.c')],
 observe=['contents, serialized size, return values, allocator accounting'])
p('C25','Bulk and list operations equal their one-by-one forms',
 'Adding, removing or testing a list of values, with or without a caller-held context that carries position hints, has exactly the effect and answers of handling the values one at a time in that order, for any order, repetition and spread of values and for 32-bit and 64-bit bitmaps. A context stays correct across representation changes caused by its own operations.',
 H,'every value sequence up to the stated length over an alphabet that collides in and crosses chunks, on several start states',
 'The cached position can go stale only after specific sequences (container emptied, converted, shifted); tests use sorted or random lists.',
 ['src/roaring.c','src/roaring64.c'],
 [('bulk context caching container and index','src/roaring.c, src/roaring64.c')],
 [('context','cached key, container, position','include/roaring/roaring.h, include/roaring/roaring64.h')],
 ['contents after the list, return values'])
p('C26','Operations never disturb their read-only operands, even when aliased',
 'An operation leaves every operand it does not update observably unchanged (same values, same serialized bytes), and its result is independent of it: updating or releasing either one afterwards does not affect the other. Using the same bitmap for both operands gives the result for two equal sets wherever the interface allows it.',
 ['inputs','histories'],'every binary and unary operation over catalogue pairs with both sharing settings, followed by every mutation of result or operand',
 'Containers handed over instead of copied are noticed only when one side is mutated later.',
 ['src/roaring.c','src/roaring_array.c','src/roaring64.c','src/containers/containers.c'],
 [('clone or share on append','src/roaring_array.c, src/containers/containers.c')],
 observe=['operand bytes before/after; both values after later mutation'])
p('C27','Conversions between bitmap kinds preserve the set exactly',
 'Moving a 32-bit bitmap into a 64-bit one keeps exactly its values and leaves the source empty but usable; converting a bitmap to an uncompressed bitset, array or text and constructing bitmaps from arrays, lists or other bitmaps preserve the set exactly, for every content, representation and sharing state.',
 ['inputs'],'every catalogue bitmap x every conversion, followed by every bounded operation on both ends',
 'Ownership hand-over of chunks in each representation and sharing state is only exercised for a few contents by tests.',
 ['src/roaring64.c','src/roaring.c','src/bitset.c','cpp/roaring64map.hh'],
 [('container hand-over and extraction','src/roaring64.c, src/roaring.c')],
 observe=['contents of source and destination'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
