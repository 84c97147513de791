#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the prose is easy to edit)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Any item sequence put into an array reads back unchanged",
 "For every item type the library can store (booleans, every fixed-size primitive, fixed-size and variable-size lists, nullable or not, nested to any depth) and every sequence of such items, an array built from the sequence, by whichever constructor, has the sequence's length and yields exactly those items, in order, through borrowed access, owned access, borrowed iteration and consuming iteration. Nothing is dropped, duplicated, reordered, shifted between nesting levels or changed in any bit, and a null is read back as a null and never as a value.",
 ["inputs", "configurations"], "Every supported item type (nesting included), every finite item sequence including empty ones, every constructor (collect, from-iterator with allocator, fallible from-iterator, extend from empty).",
 "The round-trip tests use about two dozen literal arrays of two to five items; they cannot reach all types, lengths around byte and chunk boundaries, or deep mixes of nulls and empty lists.",
 ["src/array.rs", "src/layout/", "src/bitmap/", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/collection/vec.rs"],
 [("item type to layout mapping", "src/layout/mod.rs"), ("bit packing", "src/bitmap/packed.rs"), ("chunked validity extension", "src/validity.rs Extend for Validity"), ("offset accumulation", "src/offset.rs Extend for Offsets"), ("flattening", "src/collection/flatten.rs")],
 ["Collection::view/owned/iter_views/into_iter_owned on Array and on each layout"])

prop("P02", "Every history of mutations agrees with a plain list of items",
 "After any sequence of appends (infallible or fallible), truncations, reservations, clones, takings apart and puttings back together, a growable array holds exactly the items a plain growable list would hold after the same sequence. This is true for every starting point the library accepts, including memory whose bitmaps start at a bit offset, whose padding and unreferenced tail hold arbitrary leftovers, and whose null information was omitted; truncated or leftover content never reappears.",
 ["histories", "inputs"], "All finite sequences of the mutating operations with all arguments, from every valid initial memory, for every growable item type.",
 "Existing tests run one or two operations from hand-picked states; interactions of truncate, stale bits, offsets, chunked appends and nesting need long histories from unusual initial memory.",
 ["src/collection/mod.rs", "src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/array.rs", "src/layout/"],
 [("stale-bit clearing on append", "src/bitmap/mod.rs Extend/try_extend"), ("truncation of unreferenced list data before append", "src/offset.rs Extend/try_extend"), ("lazy bitmap materialisation", "src/validity.rs materialize_bitmap"), ("truncate no-op beyond length", "src/collection/mod.rs CollectionRealloc::truncate")],
 ["CollectionRealloc and Collection on Array and layouts"],
 [{"name": "bits/offset/buffer", "meaning": "logical bit window into a byte buffer", "where": "src/bitmap/mod.rs"}, {"name": "data/offsets", "meaning": "list boundaries and child", "where": "src/offset.rs"}, {"name": "collection/bitmap", "meaning": "values and optional validity", "where": "src/validity.rs"}])

prop("P03", "Memory always follows the Arrow columnar format",
 "At every point of an array's life its physical memory, taken apart through the public accessors, is a valid Arrow columnar representation of its items: bits are packed least-significant first, list offsets start at zero, never decrease and number one more than the lists, fixed-size-list children hold exactly width times length items, validity and values have equal length, and null slots still occupy a slot. Decoding that memory by the Arrow format rules alone gives exactly the array's items, and freshly collected memory is the minimal such representation: later operations never leave more list elements unreferenced than they found.",
 ["histories", "inputs", "configurations"], "Every supported item type, every item sequence, every construction path and every mutation history.",
 "Tests compare a few buffers byte for byte for tiny inputs; conformance for every type, length and history needs an independent decoder over generated cases.",
 ["src/bitmap/mod.rs", "src/bitmap/packed.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/layout/", "src/buffer.rs", "src/fixed_size.rs"],
 [("LSB-first packing", "src/bitmap/packed.rs"), ("n+1 offsets with leading zero", "src/offset.rs Default/with_capacity_in"), ("placeholder for nulls", "src/validity.rs unwrap_or_default"), ("buffer and child accessors", "src/buffer.rs BufferRef, src/collection/mod.rs ChildRef")],
 ["BufferRef::buffer_ref / ChildRef::child_ref / into_parts at every level"])

prop("P04", "Random access agrees with iteration and out-of-range reads give nothing",
 "For every collection, every way of reading position i (borrowed, owned, during borrowed iteration, during consuming iteration, and element-wise inside a list item's own view) gives the same item when i is below the length. For every i at or above the length, up to the largest representable index, positional reads return nothing: they neither panic nor return data that happens to lie in the backing memory.",
 ["inputs", "configurations"], "Every collection kind and storage, every valid memory including bitmap offsets and trailing leftovers, every index in the whole index range.",
 "Tests read a handful of in-range positions and one position past the end for some layouts; extreme indices and memory that really has bytes behind the logical end are untested.",
 ["src/collection/mod.rs", "src/collection/flatten.rs", "src/offset.rs", "src/bitmap/mod.rs", "src/validity.rs", "src/collection/slice.rs"],
 [("bounds check in bitmap view", "src/bitmap/mod.rs view"), ("bounds check in validity view", "src/validity.rs view"), ("adjacent-offset lookup", "src/offset.rs view"), ("fixed-size list view", "src/collection/flatten.rs view")],
 ["Collection::view / Collection::owned / ValidityBitmap::is_valid / is_null"])

prop("P05", "Bit-packed collections are exact at every bit offset and length",
 "A bit-packed boolean collection over any bytes, any starting bit offset and any bit length denotes exactly the addressed bits, least-significant bit first, and taking it apart returns the same bytes, length and offset. Appending to it, truncating it or reserving space changes no bit before the old logical end, writes exactly the appended bits after it whatever leftovers were there, and counting its nulls ignores every bit outside the logical window.",
 ["inputs", "histories"], "All byte contents, all offsets (beyond one byte too), all lengths that fit, all append sizes and sources.",
 "Unit tests use single-byte buffers and a few offsets; masks, partial bytes, stale bytes and offsets over eight interact in ways only exhaustive or random bit windows cover.",
 ["src/bitmap/mod.rs", "src/bitmap/packed.rs", "src/bitmap/unpacked.rs", "src/bitmap/validity.rs", "src/layout/boolean.rs"],
 [("leading/trailing masks", "src/bitmap/mod.rs count_ones"), ("partial-byte fill", "src/bitmap/mod.rs Extend/try_extend"), ("trailing capacity", "src/bitmap/mod.rs trailing_bits/reserve"), ("skip/take iteration", "src/bitmap/mod.rs IntoIterator")],
 ["Bitmap", "Boolean layout", "validity counts"])

prop("P06", "Null information always matches the items",
 "For every nullable array, whatever its history, the per-item validity answers, the null count, the valid count and the any/all summaries all equal what counting the nulls among the items gives, and positional validity is unknown exactly past the end. Appending, truncating, failing to append and sharing memory keep them in step at every moment.",
 ["histories", "inputs"], "Every nullable item type, explicit, omitted and offset bitmaps with arbitrary padding, all histories.",
 "Tests check the summaries on bitmaps of a few bits; padding, offsets, chunk borders (1024 items) and empty or all-null cases combine beyond them.",
 ["src/bitmap/validity.rs", "src/validity.rs", "src/bitmap/mod.rs"],
 [("null_count via masked popcount", "src/bitmap/validity.rs, src/bitmap/mod.rs count_ones"), ("any/all derivations", "src/bitmap/validity.rs"), ("length alignment", "src/validity.rs try_from_parts")],
 ["ValidityBitmap on Validity"])

prop("P07", "Raw memory is accepted exactly when it is valid, and comes back unchanged",
 "Building a collection from caller-supplied raw memory succeeds exactly when the memory satisfies the Arrow rules for that collection (bit window inside the bytes, equal value and validity lengths, offsets non-empty, zero-based, non-negative, non-decreasing and inside the child, child length a multiple of a non-zero width). A rejection names a rule that really is broken, with the actual numbers, and never panics, an accepted collection denotes what the memory says, and taking it apart returns the very same memory.",
 ["inputs"], "All buffers, lengths, offsets and widths, including extreme lengths and offsets whose sum overflows, for every storage.",
 "Tests try one example per error; acceptance at the exact boundary and precedence between simultaneous faults need generated parts.",
 ["src/bitmap/mod.rs", "src/offset.rs", "src/validity.rs", "src/collection/flatten.rs"],
 [("bitmap window check", "src/bitmap/mod.rs try_from_parts"), ("offsets check", "src/offset.rs try_from_parts"), ("length match", "src/validity.rs try_from_parts"), ("multiple-of-width check", "src/collection/flatten.rs try_from_parts")],
 ["try_from_parts / into_parts / from_buffer / into_buffer"])

prop("P08", "A panicking input iterator never corrupts a collection",
 "If the iterator feeding an append panics at any point and the panic is caught, the collection holds its earlier items followed by some prefix of the items already produced, and every read, count, iteration and taking-apart is consistent with that. Any later operations behave as on a collection built normally with those items: nothing produced by the interrupted append but not kept ever shows up, and later items are never shifted.",
 ["fault_sequences", "histories"], "Every growable item type, every panic position relative to byte, chunk and list boundaries, repeated panics, and every history before and after, for fallible and infallible appends.",
 "A few tests panic after a fixed number of items on flat types; nesting (lists of booleans, fixed-size lists of nullable values) and the operations after the panic are not explored.",
 ["src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs"],
 [("per-bit commit of partial byte", "src/bitmap/mod.rs Extend"), ("per-chunk validity commit and suffix discard", "src/validity.rs Extend"), ("suffix truncation", "src/offset.rs Extend"), ("flattened child extension", "src/collection/flatten.rs Extend")],
 ["Extend / CollectionRealloc::try_extend with panicking iterators"])

prop("P09", "A failed allocation leaves the collection unchanged and usable",
 "With any storage whose allocator may refuse any request, the fallible operations report the refusal as an error instead of panicking, leave the logical contents exactly as before (nothing of the refused items stays behind), and the collection keeps working afterwards; without a refusal they succeed with the same result as the infallible ones. All memory of a nested array is obtained from the allocator handed to its constructor or reported by it, and requests too large to represent are refused as errors.",
 ["fault_sequences", "histories"], "Every growable item type over an instrumented storage, every position at which an allocation request is refused, every history around it, capacities up to the largest representable.",
 "Tests use one fixed arena and one overflow per type; refusal in the middle of a nested append (child succeeded, offsets or bitmap refused) is reached only by enumerating fault positions.",
 ["src/collection/mod.rs", "src/collection/vec.rs", "src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/array.rs", "src/layout/"],
 [("rollback in list append", "src/offset.rs try_extend"), ("rollback in nullable append", "src/validity.rs try_extend"), ("rollback in bit append", "src/bitmap/mod.rs try_extend"), ("allocator threading", "CollectionAllocIn / CollectionRealloc::allocator impls")],
 ["try_with_capacity_in / try_from_iter_in / try_reserve / try_extend / allocator"])

prop("P10", "Iterators report their exact remaining length and stay finished",
 "Every iterator the library hands out, borrowed or consuming, reports before each step a remaining length equal to the number of items it will still yield, however it was advanced so far (one by one, skipping ahead, partially consumed). It yields exactly the collection's items in order, once exhausted it keeps yielding nothing, and it never runs past the collection.",
 ["histories", "inputs"], "Every collection kind and storage, every item sequence and memory, every interleaving of next, skip-ahead, length queries and terminal consumption.",
 "Tests check hints on fresh iterators and after one or two steps for some iterators.",
 ["src/bitmap/unpacked.rs", "src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/collection/slice.rs"],
 [("buffered bit count", "src/bitmap/unpacked.rs size_hint"), ("paired hints", "src/validity.rs ValidityIter"), ("chunk length", "src/collection/flatten.rs ArrayChunks"), ("remaining slice length", "src/collection/slice.rs SliceIntoIter")],
 ["Iterator / ExactSizeIterator on iter_views and into_iter_owned"])

prop("P11", "Only the items an input iterator yields matter, not how it yields them",
 "Building or extending from any iterator gives the same result as from a plain list of the items it yields before its first end-of-sequence, whatever size hint it reports (as long as the hint is truthful, however loose) and whatever it would return if polled after its end. No finite input makes construction fail or exhaust memory merely because the iterator's upper size bound is large.",
 ["inputs", "configurations"], "All item sequences delivered by iterators with exact, loose, absent or astronomically loose upper bounds, fused or resumable, by value or (where accepted) by reference; every constructor and append.",
 "Tests feed arrays and vectors, whose hints are exact and which are fused; only one regression covers a resumable iterator.",
 ["src/bitmap/mod.rs", "src/bitmap/packed.rs", "src/validity.rs", "src/offset.rs", "src/collection/vec.rs", "src/collection/flatten.rs"],
 [("fusing of inputs", "src/bitmap/mod.rs"), ("capacity from hints", "src/validity.rs, src/offset.rs from_iter(_in)"), ("chunk loop termination", "src/validity.rs Extend")],
 ["FromIterator / Extend / from_iter_in / try_from_iter_in / try_extend"])

prop("P12", "Every storage kind reads the same memory the same way, without copying",
 "The same physical memory held in a growable vector, a box, a reference-counted or atomically reference-counted slice, a fixed-size array or a borrowed slice denotes the same items through every read path. Wrapping memory, reading it, cloning shared storage and taking the array apart neither copies nor moves the bytes: the storage the caller put in is the storage that comes out.",
 ["configurations", "inputs"], "Every storage kind times every item type times every valid memory.",
 "Tests exercise non-vector storages with one or two literal buffers.",
 ["src/buffer.rs", "src/collection/box.rs", "src/collection/rc.rs", "src/collection/arc.rs", "src/collection/slice.rs", "src/collection/array.rs", "src/length.rs", "src/layout/"],
 [("storage families", "src/buffer.rs"), ("per-storage collection impls", "src/collection/{box,rc,arc,slice,array}.rs")],
 ["Collection over Vec/Box/Rc/Arc/array/slice storages; buffer_ref; clone; into_buffer"])

prop("P13", "Omitting validity is the same as marking every item valid",
 "A nullable array whose validity information is omitted and one with explicit all-valid information over the same values behave identically under every read, count and operation history. The same holds between nullable arrays without nulls and non-nullable arrays of the same values, and the explicit form appears only when a mutation needs it, never changing an item.",
 ["histories", "inputs", "configurations"], "Every nullable item type (omitted at any nesting level independently), every valid memory and every operation history applied to both forms.",
 "Two unit tests cover the omitted form on a flat type.",
 ["src/validity.rs", "src/bitmap/mod.rs", "src/bitmap/validity.rs"],
 [("implicit bitmap", "src/validity.rs from_collection"), ("materialisation", "src/validity.rs materialize_bitmap / all_set_in")],
 ["Validity"])

prop("P14", "List views denote exactly the list they were taken from",
 "A borrowed view of a list item has the length and elements of that list, compares equal to a collection exactly when lengths and all elements are equal, and converts to an owned list equal to the original. The same is true of a view nested in another view, of fixed-size list views, and of views of nullable lists, regardless of neighbouring lists sharing the same child memory.",
 ["inputs"], "All lists of lists (nullable or not, any nesting), all positions, all compared collections including near-misses (prefix, extension, one element changed).",
 "One or two literal comparisons exist; equality on near-misses and nested views is untested.",
 ["src/offset.rs", "src/collection/flatten.rs", "src/collection/owned.rs", "src/collection/view.rs"],
 [("range view", "src/offset.rs OffsetView"), ("equality", "src/offset.rs PartialEq"), ("owned conversion", "src/collection/owned.rs IntoOwned"), ("fixed-size view", "src/collection/flatten.rs FlattenView")],
 ["OffsetView / FlattenView / IntoOwned / AsView"])

prop("P15", "Exports conform to the Arrow C Data Interface and denote the same items",
 "For every exportable array type and content, the exported pair of C structures follows the Arrow C Data Interface: the format string, nullability flag, child, buffer and dictionary counts and pointers, length, offset and null count are those the interface prescribes for the type, at every nesting level. An independent reader following only that specification and the exported pointers recovers exactly the array's items, and the exported buffers are the array's own memory, not copies.",
 ["inputs", "configurations"], "Every exportable item type (nested), every ownable storage, every content and memory state including omitted validity; memory with a bit offset at any level must be refused with that offset.",
 "Tests check single literal arrays per layout and at most one nesting level.",
 ["narrow-ffi/src/export/", "narrow-ffi/src/lib.rs"],
 [("structure assembly", "narrow-ffi/src/export/mod.rs"), ("per-layout buffers and children", "narrow-ffi/src/export/*.rs"), ("format strings and flags", "narrow-ffi/src/export/fixed_size_primitive.rs, boolean.rs, lib.rs")],
 ["the exported C structures, read through their published C layout"])

prop("P16", "Exported memory lives until release and is freed exactly once",
 "Exported structures stay valid, with all buffers readable and unchanged, until their release callback runs, wherever the structures have been moved to and whatever else has been dropped; children or schemas moved out of their parent stay valid after the parent is released. Release, explicit or by dropping, in any order and at any nesting level, marks the structure released and frees everything the export owns exactly once, and a refused export frees everything too.",
 ["histories", "fault_sequences", "inputs"], "Every exportable type and storage, every order of moving, reading, moving children out, releasing and dropping of array and schema structures.",
 "Tests release one structure once in the straightforward order; use after free, leaks and double frees in other lifecycles need generated lifecycles under an allocation monitor.",
 ["narrow-ffi/src/export/mod.rs", "narrow-ffi/src/export/variable_size_list.rs", "narrow-ffi/src/export/fixed_size_list.rs", "narrow-ffi/src/lib.rs"],
 [("private data ownership", "narrow-ffi/src/export/mod.rs ArrayData / release_array"), ("schema ownership", "release_schema / release_flat_schema"), ("drop calls release", "narrow-ffi/src/lib.rs Drop")],
 ["release callbacks, global allocator, exported buffers"])

prop("P17", "Export followed by import is lossless and copies nothing",
 "For every exportable array, importing the exported structures back as the same item type succeeds and yields exactly the original items, null information included, borrowing the very same buffers. Importing as a type with a different layout, width, nullability or nesting is always refused, and import neither releases nor alters the structures, so it can be repeated.",
 ["inputs", "configurations", "histories"], "Every exportable item type and storage, every content and mutation history before export, every pair of source and target types.",
 "Tests round-trip a few literal arrays of matching types.",
 ["narrow-ffi/src/export/", "narrow-ffi/src/import/"],
 [("export", "narrow-ffi/src/export/mod.rs"), ("import", "narrow-ffi/src/import/mod.rs")],
 ["Export::export, Import::import, all read paths of the imported array"])

prop("P18", "Any valid foreign array of a supported type is imported exactly",
 "A foreign producer's structures that satisfy the Arrow C Data Interface and the library's restrictions (zero array offset, list offsets starting at zero, natural alignment, no dictionary, a supported type) are accepted, and the imported array's items and null information are exactly what the interface says they mean, including known or unknown null counts, omitted validity, arbitrary padding bits, unreferenced child tails, non-empty ranges under nulls, extra flags, and absent buffers where nothing is stored. Import reads only the bytes the declared lengths cover, writes nothing, copies nothing and never calls the producer's release.",
 ["inputs", "configurations"], "Every importable type (nested) and every producer-conforming content and metadata choice.",
 "Tests import a few literal structures; the freedom the interface gives producers (null counts, padding, tails, flags) is not explored.",
 ["narrow-ffi/src/import/mod.rs", "narrow-ffi/src/import/"],
 [("common validation", "narrow-ffi/src/import/mod.rs import_layout"), ("validity wrapping", "narrow-ffi/src/import/mod.rs wrap"), ("per-layout borrow", "narrow-ffi/src/import/*.rs")],
 ["Import::import and all read paths"])

prop("P19", "Malformed foreign metadata is refused for its actual fault",
 "Whatever combination of metadata faults foreign structures carry at whatever nesting level (released, missing or wrong format, nullability, lengths, offsets, counts, null counts, missing or misaligned pointers, dictionaries, inconsistent list offsets or child lengths), import returns an error that describes a fault really present, with its actual numbers, also in its message. It never panics, never accepts, never reads memory the declared sizes do not cover, and leaves the structures untouched and unreleased.",
 ["inputs", "fault_sequences"], "Every importable type, every single fault and random combinations of faults at every nesting level, with extreme field values.",
 "Tests try about one literal fault per check, mostly at the top level and alone.",
 ["narrow-ffi/src/import/mod.rs", "narrow-ffi/src/import/"],
 [("common validation", "narrow-ffi/src/import/mod.rs import_layout"), ("offset validation", "src/offset.rs try_from_parts"), ("width parsing", "narrow-ffi/src/import/fixed_size_list.rs matches_format"), ("null count verification", "narrow-ffi/src/import/mod.rs wrap")],
 ["Import::import result"])

prop("P20", "List offsets never wrap",
 "For both offset widths, appending lists whose combined element count exceeds what the offset type can represent is refused: the fallible append reports an error and leaves the contents unchanged, the infallible one panics without the collection ever showing wrapped, negative or truncated lists. Up to exactly the largest representable offset every append succeeds and every boundary is exact.",
 ["inputs", "histories"], "All sequences of list lengths, including totals just below, at and above the limit of each offset width, in any history with truncation.",
 "Reaching the 32-bit limit with real data needs gigabytes, so tests never get near it; a counting child collection reaches it in microseconds.",
 ["src/offset.rs"],
 [("checked position arithmetic", "src/offset.rs Extend/try_extend"), ("offset conversions", "src/offset.rs Offset::as_usize/strict_add")],
 ["Offsets over a counting child collection"])

prop("P21", "Reserved space suffices and never changes contents",
 "After a successful reservation or construction with capacity for n items, appending n items of a flat or fixed-width type, or n lists of at most one element at every level, needs no further allocation. Reserving never changes the contents, over-large requests are reported as errors by the fallible form, and an empty collection created with capacity is indistinguishable from a default one.",
 ["histories", "inputs"], "Every flat and fixed-width item type (nullable too), every starting memory including bit offsets and partial bytes, every n.",
 "Tests only assert a lower bound on one vector's capacity.",
 ["src/bitmap/mod.rs", "src/validity.rs", "src/collection/flatten.rs", "src/collection/vec.rs", "src/offset.rs"],
 [("bit capacity rounding", "src/bitmap/mod.rs reserve/try_reserve/trailing_bits"), ("width multiplication", "src/collection/flatten.rs"), ("both buffers reserved", "src/validity.rs")],
 ["allocation requests seen by an instrumented storage"])

prop("P22", "Generic null handling obeys its laws",
 "Code written once over both nullability modes gets consistent results: mapping preserves nulls and applies the function exactly once to each present value, pairing is present exactly when both sides are present and keeps both values, and combining is pairing followed by mapping. Fixed-size wrappers and lengths behave as the plain values they wrap.",
 ["inputs"], "All values and null combinations, both nullability modes, all composed functions.",
 "Tests check five literal pairs.",
 ["src/nullability.rs", "src/fixed_size.rs", "src/length.rs"],
 [("map/zip/zip_with", "src/nullability.rs"), ("wrapper type", "src/fixed_size.rs"), ("lengths", "src/length.rs")],
 ["Nullability::map/zip/zip_with, FixedSizeArray, Length"])

prop("P23", "Growing is amortised",
 "Appending many items to a vector-backed array in small batches, by infallible or fallible operations, with or without reserving each batch first, moves each of its buffers at most a number of times logarithmic in the growth, so that the total work stays proportional to the items appended. The result is that of a single append of them all.",
 ["histories", "inputs"], "Every growable array over vectors, every starting content, batch size and way of appending, any number of appends.",
 "Tests append a handful of items; a buffer reallocated on every append gives the same contents.",
 ["src/collection/vec.rs", "src/bitmap/mod.rs", "src/offset.rs", "src/validity.rs"],
 [("vector growth", "src/collection/vec.rs"), ("bit growth", "src/bitmap/mod.rs extend/reserve"), ("per-list reservations", "src/offset.rs extend")],
 ["addresses of the buffers after each append"])

prop("P24", "Reading, wrapping, sharing and importing take no memory",
 "Reading an array through any borrowed path, or iterating over it by value when its items hold no variable-size list, requests no memory at all. Taking an array apart, wrapping buffers in an array, cloning over shared or borrowed storage, truncating, exporting and importing request at most a small amount per nesting level that does not depend on how much the array holds, and what is then read is still exactly the items.",
 ["inputs", "configurations", "histories"], "Every item type, storage, length, content and null information.",
 "Tests compare contents only; a copy or a temporary buffer changes none of them.",
 ["src/lib.rs", "src/validity.rs", "src/bitmap/", "src/offset.rs", "src/collection/", "narrow-ffi/src/export/", "narrow-ffi/src/import/"],
 [("borrowed views", "src/collection/mod.rs AsView"), ("null information", "src/validity.rs"), ("truncation", "src/bitmap/mod.rs truncate"), ("zero-copy import", "narrow-ffi/src/import/mod.rs"), ("zero-copy export", "narrow-ffi/src/export/mod.rs")],
 ["requests to the global allocator during library calls"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
