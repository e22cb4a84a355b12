#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

V, O, B, F = "src/validity.rs", "src/offset.rs", "src/bitmap/mod.rs", "src/collection/flatten.rs"
VEC, MOD, ARR, BUF = "src/collection/vec.rs", "src/collection/mod.rs", "src/array.rs", "src/buffer.rs"
L = ["src/layout/boolean.rs", "src/layout/fixed_size_primitive.rs", "src/layout/fixed_size_list.rs", "src/layout/variable_size_list.rs"]
EX, IM = "narrow-ffi/src/export/mod.rs", "narrow-ffi/src/import/mod.rs"
EXS = ["narrow-ffi/src/export/" + n for n in ("mod.rs", "boolean.rs", "fixed_size_primitive.rs", "fixed_size_list.rs", "variable_size_list.rs")]
IMS = ["narrow-ffi/src/import/" + n for n in ("mod.rs", "boolean.rs", "fixed_size_primitive.rs", "fixed_size_list.rs", "variable_size_list.rs")]

p("C01", "Arrays read back exactly what their write history put in them",
  "For every item type and growable storage, after any interleaving of constructing, extending (infallibly or fallibly), reserving, truncating, cloning and decomposing/reassembling several arrays at once, including extensions fed by iterators that themselves read or write other arrays and including operations that failed or were interrupted, each array's length, item lookups, borrowed iteration and owned iteration equal the sequence its own successful writes imply. An item is never lost, duplicated, reordered, altered, or observed in another array, and an operation documented to leave the array unchanged does leave it unchanged.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of operations on all supported item types (booleans, primitives, fixed-size arrays, variable-size lists, nullable forms and nestings), all contents and lengths (in particular around multiples of 8, 64 and 1024), all interleavings of several arrays' histories, with refused allocations and panicking producers at arbitrary points",
  "Unit tests replay a few short fault-free histories per type with a handful of items; they never interleave several arrays, cross chunk and byte boundaries in combination with truncation, or continue a history after an injected failure.",
  [ARR, V, O, B, F, VEC] + L,
  [("bit packing and in-place continuation of the last byte", B + ": Extend, CollectionRealloc::try_extend, truncate"),
   ("chunked commit of validity after values", V + ": Extend, try_extend, VALIDITY_CHUNK"),
   ("offset positions and unreferenced data suffix", O + ": Extend, try_extend, truncate"),
   ("delegation from arrays to layouts to collections", ARR + ", src/layout/*.rs")])
p("C02", "A panicking producer or storage leaves a usable committed prefix",
  "If the iterator feeding an extension, or the caller-supplied storage underneath it, panics at any point, the array still holds all items it held before, followed by a prefix of the items the iterator had yielded, and every read, reserve, truncate, extension, decomposition and reassembly afterwards behaves as on an array built from exactly those items. Items that were not part of that prefix never appear later, and rows are never partially present or misaligned.",
  ["fault_sequences", "crash_points", "histories"],
  "every item type and nesting, every prior history, a panic at every possible pull or storage growth during an infallible or fallible extension, and every follow-up history",
  "The few tests with a panicking iterator use one shape and one panic position each and check only the next operation; nested shapes, chunk-crossing batches and panics raised by the storage are not reached.",
  [B, V, O, F] + L,
  [("committed prefix kept on panic, uncommitted suffix discarded by the next extension", B + ": Extend; " + V + ": Extend; " + O + ": Extend"),
   ("dropping partial rows", F + ": Extend, try_extend; " + V + ": Extend, try_extend")])
p("C03", "Failed fallible growth is all-or-nothing",
  "When a fallible extension or reservation reports an error because storage could not be obtained, the array's contents are exactly what they were before the call, no matter which of the underlying value, offset, validity or child buffers refused and how many items had already been accepted. A fallible constructor that reports an error leaks nothing, and a fallible operation that succeeds has taken every item.",
  ["fault_sequences", "histories", "inputs"],
  "every item type and nesting, every prior history, every allocation or growth request being the one refused (first, k-th, persistent, above a size, or storage that refuses after taking some elements), and every batch size",
  "Tests inject failure only via capacity overflow or a single hand-written failing storage at its first request; failures in the middle of multi-buffer growth are not enumerated or sampled.",
  [B, V, O, F, VEC],
  [("rollback of bit count", B + ": try_extend"), ("rollback of values and validity", V + ": try_extend"),
   ("rollback of data and offsets", O + ": try_extend"), ("rollback of plain buffers", VEC + ": try_extend, try_from_iter_in")])
p("C04", "Exhaustion is reported by fallible operations, and they recover",
  "A fallible constructor, reservation or extension answers every form of exhaustion (refused allocation, impossible capacity, more elements than the offset width can address) with an error: it never panics, aborts or wraps a length. Once storage is available again the same array accepts a retry of the same request.",
  ["fault_sequences", "inputs", "histories"],
  "every fallible entry point of every item type and nesting, requests from 0 to the maximum integer, lists whose total length crosses the 32- or 64-bit offset limit, refusals at every growth request, and a retry after the refusals stop",
  "The limit of the offset space (2^31 elements and more) cannot be reached with real data in a test, and a test observes an abort only as a crash of the test runner; the existing tests cover a few capacity overflows.",
  [O, F, V, B, VEC, MOD],
  [("offset overflow detection", O + ": try_extend"), ("capacity overflow detection", O + ": try_with_capacity_in; " + F + ": try_with_capacity_in, try_reserve"),
   ("element-wise reservation", VEC + ": try_extend, try_from_iter_in")])
p("C05", "All storage of an array comes from the caller's allocator handle",
  "Every buffer an array acquires, at construction or at any later growth, including lazily created validity bitmaps, offsets and the buffers of nested children, is obtained through the allocator handle the array was created with, and the handle the array reports is that one. Arrays created with different handles never draw from each other's, whatever the interleaving of their histories and failures.",
  ["histories", "fault_sequences", "configurations"],
  "all item types over storage with distinguishable allocator handles, all constructors, all histories (including ones where validity is created late), refusals and exhaustion of one handle while others keep growing",
  "One test file checks handles for one fixed history of a few shapes; late creation, failures and several handles in one history are not explored.",
  [V, O, B, F, ARR, MOD, "tests/collection_alloc_in.rs"],
  [("allocator handle threaded to every buffer", V + ": with_capacity_in, from_iter_in, materialize_bitmap; " + O + ": with_capacity_in; " + B + ": all_set_in"),
   ("reported handle", "CollectionRealloc::allocator in every collection")])
p("C06", "Results depend only on the items yielded before the iterator ends",
  "What a constructor or extension stores depends only on the sequence of items its iterator yields before first reporting its end: not on the iterator's size estimates (absent, loose, or exact, however large the upper bound), not on whether the iterator would yield more after its end, and not on how the same items are split over successive calls. Loose estimates never make a fallible operation fail when the items themselves would fit.",
  ["schedules", "inputs", "histories"],
  "every constructor and extension of every item type, every legal size estimate, iterators that resume after reporting their end, and every split of a batch into successive calls with empty batches in between",
  "Tests feed arrays with well-behaved standard iterators; resumable iterators are tested at one entry point, and loose or unbounded estimates not at all.",
  [B, V, O, F, VEC, "src/bitmap/packed.rs"],
  [("ending at the first None", B + ": Extend, FromIterator, from_iter_in, try_from_iter_in"),
   ("preallocation from size estimates", V + ", " + O + ": from_iter_in, try_from_iter_in"), ("byte packing at the end", "src/bitmap/packed.rs")])
p("C07", "Physical buffers satisfy the Arrow layout after any history",
  "After any history, including failed and interrupted operations, the physical parts obtained by decomposing an array are consistent: bitmaps hold enough bytes for their offset and length, a validity bitmap is exactly as long as the values it covers, list offsets start at zero, never decrease, number one more than the rows and end within the child, and fixed-size-list children hold exactly the list width times the rows. Decoding those raw buffers by the Arrow specification yields the array's items, and reassembling the parts through the public constructors always succeeds and yields an equal array.",
  ["histories", "fault_sequences", "crash_points"],
  "all item types and nestings, all histories with refused allocations and panics at arbitrary points, decomposition after any step, reassembly and continuation of the history on the reassembled array",
  "Tests inspect buffers of a few literals; they do not decode the buffers of arrays with a long or faulty history.",
  [B, V, O, F] + L,
  [("decomposition and validated reassembly", "into_parts / try_from_parts in " + ", ".join([B, V, O, F])), ("bit order and bit offsets", B)])
p("C08", "Validated construction accepts exactly well-formed parts",
  "Building an array component from raw parts succeeds if and only if the parts are mutually consistent (bit range inside its buffer, equal validity and value lengths, offsets non-empty, starting at zero, non-negative, non-decreasing and within the data, child length a multiple of a non-zero width); it never panics, and accepted parts read back exactly the items they encode. The error names a defect that is really present, with the actual numbers.",
  ["inputs", "fault_sequences"],
  "parts obtained from arrays with arbitrary histories and then torn, truncated, stretched, bit-flipped or given arbitrary offsets and lengths up to the maximum integer, over every storage kind",
  "Tests check each error once with one literal; acceptance and rejection over corrupted parts, and reads through accepted parts at odd bit offsets, are not sampled.",
  [B, V, O, F],
  [("parts validation", "try_from_parts in " + ", ".join([B, V, O, F]))])
p("C09", "Validity queries agree with the items",
  "At every point of any history, the number of nulls, the number of valid items, the any/all questions and the per-item validity answers agree with each other and with the null and non-null items actually read back, at any bit offset and with unspecified bits outside the logical range set arbitrarily. An array without a stored bitmap behaves in every query like one whose bitmap is all valid.",
  ["histories", "inputs", "fault_sequences"],
  "all nullable item types and nestings over every storage kind, all lengths and bit offsets, arbitrary padding bits, absent or present bitmaps, before and after truncations, failures and panics",
  "Tests count nulls on a few literal bitmaps; histories in which stale bits lie beyond the logical end, and odd bit offsets with garbage padding, are not sampled.",
  ["src/bitmap/validity.rs", B, V],
  [("masked popcount", B + ": count_ones"), ("query definitions", "src/bitmap/validity.rs")])
p("C10", "Iteration is exact and independent under any interleaving of readers",
  "Any number of borrowed and owned iterators over arrays with any storage, advanced in any interleaving and dropped at any point, each yields every remaining item exactly once, in order, and then ends for good. At every step of every iterator its reported remaining length brackets the truth, and equals it wherever an exact length is promised.",
  ["schedules", "histories", "inputs"],
  "all item types and nestings over growable, boxed, inline, borrowed and reference-counted storage, all interleavings of several readers over shared and separate arrays, nested list readers included, bit offsets and trailing garbage included",
  "Tests collect each iterator once, front to back, immediately; remaining lengths in mid-iteration, interleaved readers and early drops are not exercised.",
  [V, O, F, B, "src/collection/slice.rs", "src/collection/rc.rs", "src/collection/arc.rs", "src/collection/box.rs", "src/collection/array.rs", "src/bitmap/unpacked.rs"],
  [("zipped value and validity iteration", V + ": ValidityIter"), ("owned list iteration", O + ": OffsetIntoIter"),
   ("grouping", F + ": ArrayChunks"), ("shared-slice iteration", "src/collection/slice.rs: SliceIntoIter"), ("bit unpacking", "src/bitmap/unpacked.rs")])
p("C11", "Reading outside an array is answered with absence in every state",
  "For every array, list row or validity query, asking for any index at or beyond the current length, up to the maximum integer, answers that there is no such item, and every index below it answers with an item; neither ever panics or reads another item's data. This holds in every state an array can be in, including right after truncations, failed or interrupted extensions, and over parts with spare bits or bytes beyond the logical end.",
  ["histories", "inputs", "fault_sequences"],
  "all item types, nestings and storages, all histories with faults, indices around the length, around physical capacities and near the maximum integer",
  "Tests probe an index or two past the end on fresh arrays; leftover physical data after truncation or failure and overflow-prone indices are not probed.",
  [F, O, B, V] + L,
  [("bounds guards", "Collection::view / owned in " + ", ".join([F, O, B, V])), ("validity bounds", "src/bitmap/validity.rs: is_valid, is_null")])
p("C12", "Capacity once granted is honoured",
  "After a reservation of n further items, or construction with capacity n, has succeeded, storing up to n more items (for variable-size lists: items with at most one element each) completes even if the allocator refuses every request from then on. This holds for values, validity, offsets and nested fixed-size children, from any prior state of the array.",
  ["fault_sequences", "histories"],
  "all item types and nestings, any prior history including truncations, odd bit positions and absent validity, any n, and an allocator that refuses everything after the reservation",
  "Tests compare reported capacities of a fresh buffer; that later growth really needs no storage, in particular across validity and offset buffers and at odd bit positions, is not tested.",
  [B, V, O, F, VEC, MOD],
  [("bit-to-byte reservation", B + ": try_reserve, reserve, with_capacity_in"), ("reservation of all parts", V + ", " + O + ", " + F + ": reserve, try_reserve, with_capacity_in")])
p("C13", "An exported array means the same to a foreign consumer",
  "Decoding the exported C structures by the Arrow C Data Interface specification alone yields exactly the array's items, whatever history produced the array: formats, nullability flags, lengths, null counts, offsets, buffer and child counts are those the specification requires, at every nesting level. Export does not copy values: the exported buffers are the array's own.",
  ["histories", "inputs", "configurations"],
  "all exportable item types and nestings over vector, boxed, inline and reference-counted storage, all histories (including truncated, failed and interrupted ones, absent bitmaps and unreferenced trailing data)",
  "Tests check the fields of a few literal arrays per layout; arrays with a history and nested nullable shapes are not decoded by an independent consumer.",
  EXS + ["narrow-ffi/src/lib.rs"],
  [("structure assembly", EX + ": ArrowArrayLayout"), ("per-layout buffers, children and schema", ", ".join(EXS[1:]))])
p("C14", "Exported storage lives until release and is freed exactly once",
  "For any interleaving of exporting, reading, moving the structures, and releasing or dropping arrays and schemas in any order and independently of each other, every pointer reachable from an unreleased structure stays valid with unchanged contents, a release marks its structure released, and after the last release every allocation made on behalf of the export has been freed exactly once. Releasing one structure never affects another export.",
  ["schedules", "histories", "fault_sequences"],
  "all exportable types and storages, any number of simultaneous exports, all interleavings of moves, reads, release callbacks and drops, with the freed memory poisoned",
  "Tests export, read and drop one array in one order; use after free or double free is only observable with an instrumented allocator, and orders and moves are not varied.",
  EXS + ["narrow-ffi/src/lib.rs"],
  [("ownership through private data", EX + ": ArrayData, into_array"), ("release callbacks", EX + ": release_array, release_schema, release_flat_schema"), ("drop releases once", "narrow-ffi/src/lib.rs: Drop")])
p("C15", "Import accepts exactly valid structures and borrows them faithfully",
  "Importing a pair of C structures that satisfies the Arrow C Data Interface for the requested item type within the supported subset (zero item offsets, fixed-size children of exactly the needed length, list offsets starting at zero and present even when empty, fixed-size widths above zero) succeeds, yields exactly the encoded items without copying buffers, and neither modifies nor releases the structures. If any metadata field, count, flag, format, pointer or offset content is corrupted or does not match the type, import reports an error naming a defect that is really present instead of panicking or accepting it.",
  ["inputs", "fault_sequences", "schedules"],
  "structures from a foreign producer and from this library, for all importable types and nestings (64-bit list offsets are not reachable through array import), unaltered or with arbitrary combinations of corrupted lengths, offsets, null counts, buffer and child counts, null or misaligned pointers, released structures, formats and flags, corrupted list offsets and validity bits, several imports of one structure alive at once",
  "Tests corrupt one field of one layout at a time with one value; combinations, nested corruption and a foreign producer's freedom (absent bitmaps, -1 null counts, extra trailing data) are not sampled.",
  IMS,
  [("common validation", IM + ": ImportLayout::import_layout"), ("validity wrapping", IM + ": ImportNullability::wrap"), ("per-layout validation", ", ".join(IMS[1:]))])
p("C16", "Export refuses bit offsets it cannot represent, and only those",
  "If any bitmap anywhere in an array, validity or values, at any nesting level, starts at a non-zero bit offset, export reports an error carrying an offset that really occurs, without leaking or freeing anything twice and without disturbing other holders of the storage. If every bitmap starts at bit zero, export succeeds.",
  ["configurations", "inputs", "fault_sequences"],
  "all exportable nestings with zero or non-zero bit offsets placed at any subset of their bitmaps, over owned and shared storage",
  "Tests place one offset on one bitmap per layout; offsets deep in nested children and resource accounting on the error path are not sampled.",
  EXS,
  [("offset checks at every level", "ArrowArrayLayout::offset in " + ", ".join(EXS))])
p("C17", "Children moved out of an export survive their parent's release",
  "As the Arrow C Data Interface permits, a consumer may move any subset of child arrays or child schemas out of their parents, at any depth, and release the parents immediately; the moved children stay valid with unchanged contents until they are released themselves. After the last release everything has been freed exactly once.",
  ["schedules", "histories"],
  "all exportable nested types and storages, any subset and depth of moved children, any order of parent and child releases, freed memory poisoned",
  "No existing test moves a child; the failure is a use after free that passes unnoticed without an instrumented allocator.",
  EXS,
  [("shared ownership of exported storage", EX + ": array, ArrayData"), ("child pointers", EX + ": set_child_pointers")])
p("C18", "Holders of shared storage never disturb one another",
  "When several arrays, clones, iterators, exports and imports hold the same reference-counted or borrowed storage, any interleaving of their reading, iterating, exporting, releasing and dropping leaves every remaining holder's contents unchanged. The storage is freed exactly once, when its last holder goes.",
  ["schedules", "histories"],
  "all item types over reference-counted and borrowed storage, any number of holders of any kind, all interleavings of their operations and ends, freed memory poisoned",
  "Tests create one holder of each storage kind; interleaved lifetimes of several holders, in particular across the C interface, are not exercised.",
  ["src/collection/arc.rs", "src/collection/rc.rs", "src/collection/slice.rs", BUF] + EXS[:1] + IMS[:1],
  [("sharing through storage handles", BUF + ", src/collection/{arc,rc,slice}.rs"), ("borrowed import", IM)])
p("C19", "List view equality is item-wise",
  "Comparing a borrowed list view with another list view or with a collection is true exactly when both have the same number of items and the items are equal pairwise, whichever collections, storages and offset widths they come from and whatever history (refused or interrupted growth, truncation, reassembly from parts with unused child items) those collections went through.",
  ["inputs", "histories", "fault_sequences"], "all pairs of list views and collections whose items compare, over both offset widths and all storages, after any history",
  "Tests compare two one-item literals; unequal lengths, prefixes, null items and views of collections with leftover child items are not sampled.",
  [O, V, B], [("comparison", O + ": PartialEq for list views"), ("what is compared", O + ": OffsetView length, view and iteration")])
p("C20", "Nullability combinators follow the option laws",
  "Mapping and zipping items through the type-level nullability choice equals plain application for non-nullable items and option mapping and zipping for nullable items.",
  ["inputs"], "all items and functions",
  "Tests check one literal per combinator.", ["src/nullability.rs"], [("map, zip, zip_with", "src/nullability.rs")])
p("C21", "Item types map to their Arrow memory layout at compile time",
  "Every supported item type, nullable or not and nested to any depth, selects the Arrow physical layout that the Arrow format assigns to it.",
  ["programs"], "all item types expressible in the type system",
  "A test can only name finitely many types.", ["src/layout/mod.rs"], [("layout selection", "src/layout/mod.rs: Layout, ArrayItem")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
