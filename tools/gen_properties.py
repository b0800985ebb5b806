#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Kept as a script so the file stays schema-clean."""
import json, os
P = []
I = "include/cetl/"
VLA, UV, FN = I + "variable_length_array.hpp", I + "unbounded_variant.hpp", I + "pmr/function.hpp"
OPT, VAR, SV, SP = I + "pf17/optional.hpp", I + "pf17/variant.hpp", I + "pf17/string_view.hpp", I + "pf20/span.hpp"
MR, SYS = I + "pf17/memory_resource.hpp", I + "pf17/sys/memory_resource.hpp"
BD, BM, AM = I + "pmr/buffer_memory_resource_delegate.hpp", I + "pf17/buffer_memory_resource.hpp", I + "pf17/array_memory_resource.hpp"
PM, IP, RT = I + "pmr/memory.hpp", I + "pmr/interface_ptr.hpp", I + "rtti.hpp"
TT, TTX, VH = I + "pf17/type_traits.hpp", I + "type_traits_ext.hpp", I + "visit_helpers.hpp"
CM = I + "_helper_enable_copy_move.hpp"


def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


# ---------------------------------------------------------------- VariableLengthArray
p("A01", "A variable-length array always holds exactly the sequence its history implies",
  "After any history of construction, push/emplace/pop, resize, assign, reserve, shrink, clear, element writes, copy, move and swap, a variable-length array has the size, element values, element order, iteration range, indexed and bounds-checked access results and (in)equality verdicts of a plain mathematical sequence put through the same history. This holds also when an argument of the operation refers to an element of the array itself. Capacity-only operations (reserve, shrink to fit) never change the contents, and reserved capacity is really usable without another allocation.",
  ["histories", "inputs"],
  "All finite operation histories over several interacting arrays, for every element type (trivial, non-trivial, throwing-move, over-aligned) and every allocator kind (stateless, polymorphic, in-place growing).",
  "Unit tests run fixed scripts of at most a dozen operations on one array; they never compare against a reference after each of thousands of random histories, and never pass an element of the array to the array.",
  [VLA], [("growth and relocation", VLA + ":reserve/grow/shrink_to_fit"), ("copy and move assignment", VLA + ":copy_assign_from/move_assign_from"), ("resize/assign/push_back", VLA + ":resize, assign, push_back, emplace_back, pop_back")],
  ["size()/data()/begin()/end()/operator[]/at()/front()/back() after every operation, compared with std::vector of unique values"],
  [("size_/capacity_/data_", "length, allocated length and storage", VLA)])
p("A02", "A variable-length array never exceeds its limits and refusals are clean",
  "At every moment the size of a variable-length array is at most its capacity and its capacity is at most its maximum size, and the maximum size is never larger than the bound given at construction (or adopted by assignment). A request that would pass the maximum size is refused with a length error and leaves the size and the contents as they were. A request within the maximum size is refused only because memory could not be obtained.",
  ["histories", "inputs", "configurations"],
  "All histories, all maximum sizes (including 0, 1 and values around growth steps), all allocator limits, including arrays that received their contents by copy or move from arrays with other limits.",
  "Tests check one or two fixed limits on a freshly built array; the limit after assignment, after in-place reuse of storage or at growth-step boundaries is a matter of histories.",
  [VLA], [("limit computation", VLA + ":max_size"), ("clamping", VLA + ":reserve/grow/ensure_size_plus_one"), ("limit adoption", VLA + ":copy_assign_from/move_assign_from")],
  ["size(), capacity(), max_size() after every operation; exception type on refusal"])
p("A03", "Element lifetimes in a variable-length array are balanced",
  "Every element object that a variable-length array creates is destroyed exactly once, no operation reads, assigns or destroys an object that is not alive, and a live object is never duplicated or moved to another address except through its own copy or move operations. When the array is destroyed no element remains alive.",
  ["histories", "configurations"],
  "All histories over several arrays, for elements that track their identity and address, with allocators that relocate, extend in place, or reallocate.",
  "Tests count constructors in a few scripts; a relocation that skips or repeats one lifetime event on one growth/shrink/move path shows only for particular histories and allocators.",
  [VLA, MR], [("destroy/construct helpers", VLA + ":fast_destroy/fast_forward_construct/fast_copy_construct"), ("in-place reallocation", VLA + ":reallocate")],
  ["constructor/destructor/assignment events of registered element objects"])
p("A04", "A variable-length array returns every block it obtains and stays inside it",
  "Every storage block obtained by a variable-length array is given back exactly once, with the same size, to an allocator equal to the one it came from, after the last element in it has been destroyed. No operation reads or writes storage outside the blocks the array currently owns, and an array that has been destroyed or shrunk while empty holds no block.",
  ["histories", "configurations"],
  "All histories over several arrays bound to distinct, equal or propagating allocators, with any sizes.",
  "A wrong deallocation size, a leak on one move path or a write one past the block is invisible to assertions about values; only accounting in the allocator plus red zones over all histories can decide it.",
  [VLA], [("deallocation", VLA + ":fast_deallocate and destructor"), ("allocator-extended move", VLA + ":VariableLengthArrayBase(rhs, alloc)")],
  ["allocate/deallocate/reallocate calls seen by a recording allocator; AddressSanitizer red zones"])
p("A05", "A failing element or allocation never corrupts a variable-length array",
  "If a copy, move or construction of an element throws, or an allocation fails, at any point inside any operation, the exception reaches the caller (shrinking may absorb allocation failure), no element or block is leaked or released twice, and every array involved stays valid and usable with size within its limits. Appending, reserving and shrinking with failing allocation, and appending when a copy throws, leave the contents as they were; growing by resizing keeps the elements that were there before.",
  ["fault_sequences", "histories"],
  "Every operation of every history, with the k-th element operation or the k-th allocation inside it failing, for every k.",
  "The tests inject at most one failure at one place; the claim quantifies over every failure point of every operation in every state.",
  [VLA], [("growth under failure", VLA + ":reserve"), ("construction loops", VLA + ":resize, fast_copy_construct, constructors"), ("noexcept specifications", VLA + ":fast_copy_assign")],
  ["state of array and registries after the injected failure"])
p("A06", "Copies are independent, moves transfer, and allocators are the ones agreed",
  "Copy construction or assignment makes an equal and independent array and leaves the source unchanged; move construction or assignment gives the target the former contents of the source and leaves the source valid, empty and reusable; self-assignment changes nothing. Afterwards each array uses exactly the allocator prescribed by the allocator's propagation rules or by the explicit allocator argument, also when source and target allocators differ.",
  ["histories", "configurations"],
  "All pairs of source and target states (empty, reserved, full, moved-from, larger, smaller) and all combinations of allocator equality and propagation traits.",
  "The trait and state matrix is large; tests cover some cells with two or three fixed contents and never reuse the source afterwards.",
  [VLA], [("assignment", VLA + ":copy_assign_from/move_assign_from"), ("constructors", VLA + ":copy/move/allocator-extended")],
  ["both arrays' contents, identity of get_allocator(), block ownership in the recording allocators"])
p("A07", "Without exceptions a failed array operation degrades safely",
  "When the library is built without exceptions, an operation on a variable-length array (of any element type, including bits) that cannot get memory or would pass the maximum size never touches memory it does not own and never changes existing elements other than as requested; the caller can tell by the size alone how much was achieved, and the array stays usable. When memory suffices the operation behaves exactly as with exceptions.",
  ["fault_sequences", "histories", "configurations"],
  "All histories in a no-exceptions build with allocation failing at every point and requests beyond every limit.",
  "The test build has exceptions on; the documented no-exceptions behaviour is exercised only by one example.",
  [VLA], [("clamping instead of throwing", VLA + ":reserve, resize, reserve_bits, ensure_size_plus_one")],
  ["size/contents against a clamping model; AddressSanitizer"])
p("B01", "A bit array always equals the sequence of bits its history implies",
  "After any history of operations the packed variable-length array of booleans has the size, bit values, iteration order, reference and iterator behaviour (reading, writing, flipping, arithmetic, ordering) and equality verdicts of a plain sequence of booleans put through the same history. Equality depends on the stored bits only, never on unused bits of the storage or on how the array got there.",
  ["histories", "inputs"],
  "All histories, all bit lengths (in particular around multiples of eight), all values, copies and moves between arrays with any allocators.",
  "Tests touch a few lengths and hardly any equality of long arrays; packing errors depend on length modulo eight and on stale bits left by earlier operations.",
  [VLA], [("packing", VLA + ":test/set, resize, emplace_back_impl, pop_back"), ("comparison", VLA + ":operator== of the bool specialisation")],
  ["every observable compared with std::vector<bool> after each operation"],
  [("last_byte_bit_fill_", "index of the last used bit of the last byte", VLA)])
p("B02", "A bit array respects its limits, its storage and injected failures",
  "The packed boolean array never exceeds its maximum size or capacity, counted in bits, refuses excess with a length error without changing its contents, returns every block exactly once with the size it was obtained with, and never touches storage outside its block. After an allocation failure at any point it is valid, reports a size consistent with its contents, and can be used further.",
  ["histories", "fault_sequences", "configurations"],
  "All histories with all maximum sizes (not only multiples of eight), all allocators, and allocation failing at every point.",
  "Limits are mixed between bits and bytes; which combination goes wrong depends on length, limit and failure point together.",
  [VLA], [("bit/byte limit conversion", VLA + ":max_size, reserve_bits, ensure_size_plus_one"), ("move/copy state", VLA + ":operator= of the bool specialisation")],
  ["size(), capacity(), max_size(); recording allocator; AddressSanitizer"])

# ---------------------------------------------------------------- memory resources
p("M01", "A fixed-buffer resource never hands out overlapping or foreign memory",
  "A memory resource backed by a caller's buffer or embedded array hands out only blocks that are large enough, aligned as requested, disjoint from every other live block, and either entirely inside its buffer or obtained from its upstream resource. Each upstream block goes back upstream exactly once with its own size and alignment, buffer blocks never go upstream, and once the buffer block is returned the buffer can be used again. When neither source can serve a request the failure is reported and nothing changes.",
  ["histories", "inputs"],
  "All histories of allocate, deallocate and reallocate with any sizes and alignments, any buffer size and placement, any upstream behaviour.",
  "Ownership confusion needs a specific order of allocations, failed reallocations and frees; tests check single allocations.",
  [BD, BM, AM], [("single-occupancy buffer", BD + ":allocate/deallocate/reallocate"), ("upstream forwarding", BM), ("embedded array", AM)],
  ["every returned pointer, checked against a live-block map; upstream calls seen by a recording resource"],
  [("in_use_", "the block occupying the buffer", BD)])
p("M02", "A monotonic resource gives disjoint aligned blocks and releases everything",
  "Every block from a monotonic buffer resource is aligned and large enough for the request, lies inside the initial buffer or a block obtained from the upstream resource, and overlaps no other block handed out since the last release. Individual deallocation has no effect; release or destruction returns every upstream block exactly once with the size and alignment it was requested with and makes the initial buffer available again. A request that cannot be served fails in bounded time, is reported, and leaves all earlier blocks intact.",
  ["histories", "inputs", "fault_sequences"],
  "All sequences of allocate, deallocate and release with any sizes and alignments, any initial buffer (none, tiny, misaligned) and upstream failing at any call.",
  "Growth policy, alignment padding and control-block placement interact only for particular size/alignment sequences; sizes near the maximum are never tried.",
  [MR], [("buffer chain", MR + ":basic_monotonic_buffer_resource"), ("growth", MR + ":do_allocate")],
  ["returned pointers versus live map, upstream call record, content canaries"])
p("M03", "General-purpose resources honour size, alignment and reallocation",
  "For every size and alignment, the general-purpose, null and default resources either return a block that is usable over the whole size, aligned as requested and distinct from all live blocks, or report failure as documented (an exception when exceptions are enabled). Reallocation either returns a block of the new size whose common prefix of bytes is unchanged and releases the old block, or reports that it could not and leaves the old block and its contents untouched. Resource equality means blocks of one can be released through the other.",
  ["inputs", "histories"],
  "All sizes and alignments (including zero, over-aligned and near-maximum) and all interleavings of allocate, reallocate and deallocate on several resources.",
  "Tests try a few sizes at default alignment; over-alignment and huge sizes in reallocation are never tried.",
  [MR, SYS], [("general-purpose resource", SYS), ("reallocate extension", MR + ":memory_resource::reallocate, memory_resource_traits"), ("allocator reallocate", MR + ":polymorphic_allocator::reallocate")],
  ["returned pointers, content patterns, AddressSanitizer"])
p("M04", "The process-wide default resource can be read and replaced from any thread",
  "Concurrent reads and replacements of the default memory resource are free of data races; each replacement returns the value it replaced so that replacements form one total order, and each read returns the initial resource or one that some replacement had stored and that had not been replaced before the read began. Passing null restores the general-purpose resource. The built-in resources are singletons that may be obtained first from any thread.",
  ["schedules"],
  "All schedules of any number of threads reading and replacing.",
  "Tests are single-threaded; schedules cannot be enumerated by them.",
  [MR, SYS], [("atomic default pointer", MR + ":get_default_resource/set_default_resource"), ("singletons", MR + ":new_delete_resource/null_memory_resource")],
  ["ThreadSanitizer; replacement chain reconstructed from unique resource addresses"])
p("M05", "Polymorphic allocators forward to their resource and construct correctly",
  "A polymorphic allocator requests from its resource exactly the bytes and alignment of the asked number of objects, refuses counts whose byte size overflows, and compares equal exactly when its resources are equal. Objects and pairs constructed through it receive exactly the given arguments (moved when given as rvalues) plus, for allocator-aware types, an allocator naming the same resource, in the position the type asks for. Copies and rebound copies refer to the same resource; container copies follow the library's documented selection.",
  ["inputs", "programs"],
  "All object types (plain, allocator-last, allocator-first, pairs and nested pairs), counts up to the maximum, argument categories.",
  "The construct overload set is chosen by type and value category; tests instantiate only a few and do not look at moves versus copies or overflow.",
  [MR], [("uses-allocator construction", MR + ":polymorphic_allocator::construct"), ("overflow check", MR + ":polymorphic_allocator::allocate")],
  ["recording resource, recording element constructors"])
p("M06", "Owning smart pointers destroy and return their object exactly once",
  "An object created through the library's factories is destroyed exactly once and its memory returned exactly once, to the resource it came from and with the size it was obtained with, whatever sequence of moves, swaps, resets, releases and sharings its smart pointer goes through, and whichever of its interface types owns it at the end. If allocation fails the factory returns a null pointer or reports the failure; if the constructor throws, nothing is destroyed, the memory is returned and the exception reaches the caller.",
  ["histories", "fault_sequences"],
  "All histories of pointer operations over several pointers, resources and class hierarchies, with allocation or construction failing at any point.",
  "Tests exercise creation and scope exit; the deleter state after chains of moves and after a throwing constructor is not covered.",
  [PM, IP, FN], [("deleters", PM + ":PolymorphicDeleter/MemoryResourceDeleter"), ("factory", PM + ":Factory::make_unique"), ("interface pointers", IP)],
  ["constructor/destructor events, recording resource"])

# ---------------------------------------------------------------- unbounded_variant, function, rtti
p("U01", "An unbounded variant always holds exactly the last value stored",
  "After any history of construction, assignment, emplacement, reset, copy, move and swap, an unbounded variant is empty or holds a value equal to the last one stored in (or transferred to) it, with the type, size and identity report of exactly that value's type. Copies are independent of their source, a moved-from variant no longer owns the value, and swap exchanges values and memory resources completely.",
  ["histories", "inputs", "configurations"],
  "All histories over several variants, all value types and sizes (in place and in dynamic memory), all configurations of footprint, copyability, movability and alignment.",
  "The state space is the product of in-place/dynamic storage, value types and the memory resource of each operand; tests visit selected transitions only.",
  [UV], [("storage policy", UV + ":base_storage"), ("handlers", UV + ":base_handlers"), ("swap", UV + ":swapVariants")],
  ["has_value(), type_id(), type_size(), get/get_if after every operation versus a model"],
  [("value_size_/allocated buffer", "size and place of the value", UV)])
p("U02", "An unbounded variant keeps value lifetimes and dynamic memory balanced",
  "Every value held by an unbounded variant is constructed once and destroyed exactly once, is always suitably aligned for the configured alignment, and lives inside the variant or inside one block obtained from the variant's memory resource; in-place storage is used whenever the value fits. Each such block is returned exactly once, with its size and alignment, to the resource it came from, no later than when the variant is reset, reassigned or destroyed.",
  ["histories", "configurations"],
  "All histories over several variants with distinct memory resources, including moves and swaps across resources.",
  "Leaks, wrong-resource returns and double destruction occur only on particular transitions; tests assert on values.",
  [UV], [("dynamic storage", UV + ":base_storage with PMR"), ("move of dynamic blocks", UV + ":move_raw_storage_from")],
  ["value lifetime registry; recording resources; AddressSanitizer"])
p("U03", "A failed store leaves an unbounded variant in the documented recoverable state",
  "If memory cannot be obtained, or a value's constructor, copy or move throws, while storing into an unbounded variant, the failure is reported as documented, nothing leaks or is destroyed twice, the source of the operation is not lost, and the variant is either untouched or in the documented valueless state, consistently reported by all its observers. In that state every operation (copy, move, swap, reset, assignment, destruction, access) is well defined, and resetting or storing a new value recovers it.",
  ["fault_sequences", "histories"],
  "All histories with the k-th allocation or the k-th value operation failing, for every k, followed by any further operations.",
  "Tests check that the valueless flag is set after one failure; what later operations do with such a variant is untested.",
  [UV], [("valueless state", UV + ":valueless_by_exception, reset"), ("failure handling", UV + ":copy_raw_storage_from/alloc_new_raw_storage")],
  ["observers after injected failure; registries; AddressSanitizer/UndefinedBehaviorSanitizer"])
p("U04", "Typed access to a dynamically typed value is always type-safe",
  "Typed access to an unbounded variant (by pointer, reference, value, or const form) succeeds exactly when the held value's type is the requested type or declares itself castable to it, and then denotes that very object at its correct subobject address; otherwise it yields null or the bad-access failure and has no effect. The same holds for casts through the library's run-time type information across any declared inheritance graph.",
  ["inputs", "histories", "programs"],
  "All pairs of held and requested types, including types related by single, multiple and repeated inheritance.",
  "Tests check a handful of type pairs; a wrong pointer adjustment shows only for particular hierarchies and queries.",
  [UV, RT], [("casters", UV + ":get_ptr"), ("type identity and cast search", RT)],
  ["pointer results compared with compiler static_cast; UndefinedBehaviorSanitizer"])
p("F01", "A type-erased function always calls its current target and nothing else",
  "Calling a type-erased function invokes exactly the callable most recently stored in (or transferred to) it, once, with the given argument values in order, and returns its result; an empty one reports the bad-call failure without invoking anything. Copies have independent targets, moves and swaps transfer the target, and emptiness tests, reset and assignment from null agree with what a call would do.",
  ["histories", "inputs"],
  "All histories over several function objects, all target sizes (in place and in dynamic memory), signatures and argument values.",
  "Tests call a few targets right after storing them; the internal call pointer must survive every transfer sequence.",
  [FN, UV], [("call pointer maintenance", FN + ":function copy/move/swap/assign"), ("handler", FN + ":detail::functor_handler")],
  ["invocation log of uniquely numbered targets versus a model"],
  [("handler_ptr_", "cached pointer to the stored target", FN)])
p("F02", "Stored callables are destroyed once and survive no failure half-made",
  "Each callable stored in a type-erased function is constructed and destroyed exactly once, its dynamic memory is returned exactly once to its resource, and if storing fails because memory is exhausted or the callable's copy throws, the failure reaches the caller, nothing leaks, and the function object is afterwards empty or holds its previous target, consistently reported by its emptiness test and by calling it.",
  ["fault_sequences", "histories"],
  "All histories with the k-th allocation or callable copy failing, for every k.",
  "No test makes a callable's copy throw or the resource fail in the middle of a history.",
  [FN, UV], [("storage", FN + ":any_handler_"), ("variant failure state", UV)],
  ["lifetime registry, recording resource, emptiness test and calls"])

# ---------------------------------------------------------------- optional / variant
p("O01", "The optional polyfill behaves like the standard optional under any history",
  "Under any history of construction, assignment (from values, other optionals, null), emplacement, reset, swap, conversion between optional types and access by any value category, the optional polyfill gives the same engagement, values and moved-from effects as the standard optional. Checked access to an empty optional fails with the bad-access error, and fallback access returns the fallback exactly then.",
  ["histories", "inputs"],
  "All histories over several optionals, for all classes of value types (trivial, partly trivial, move-only, non-assignable, throwing).",
  "Each special member is selected by triviality of the value type; the tests try a few types with two or three steps.",
  [OPT, CM], [("engagement policies", OPT + ":detail::opt bases"), ("assignment", OPT + ":operator=")],
  ["step-by-step comparison with std::optional holding the same recorded values"])
p("O02", "Values inside an optional are created and destroyed exactly once",
  "The value in an optional exists exactly while the optional is engaged: it is constructed once, destroyed exactly once, and never read, assigned or destroyed otherwise, also when construction, copy, move or assignment of the value throws at any point. After such a failure the optional is engaged exactly as the standard prescribes and remains usable.",
  ["fault_sequences", "histories"],
  "All histories with the k-th value operation throwing, for every k.",
  "No test throws from inside assignment, emplacement or swap in every state.",
  [OPT], [("destruction policy", OPT + ":base_destruction"), ("emplace/assign/swap", OPT)],
  ["lifetime registry plus engagement compared with std::optional under the same fault"])
p("O03", "Optional comparisons agree with the standard for every pair",
  "Every comparison between optionals, between an optional and null, and between an optional and a value gives the result the standard optional gives, uses the corresponding operator of the value type, and never looks at the value of an empty optional. This includes value types with partial or deliberately inconsistent orders.",
  ["inputs"],
  "All pairs of states and values, all six operators, all operand orders, mixed value types.",
  "Tests use totally ordered integers; partially ordered values and asymmetric operators are not tried.",
  [OPT], [("comparison operators", OPT + ":operator==...>=")],
  ["results and recorded operator calls compared with std::optional"])
p("V01", "The variant polyfill behaves like the standard variant under any history",
  "Under any history of construction (default, converting, in place), assignment, emplacement, swap, copy, move, indexed or typed access and visitation of one or several variants, the variant polyfill gives the same active alternative, values and moved-from effects as the standard variant. Access to a non-active alternative yields null or the bad-access error and changes nothing; visitation calls the visitor exactly once with the active alternatives in order and value category and passes its result on.",
  ["histories", "inputs"],
  "All histories over several variants with several lists of alternatives (trivial, non-trivial, repeated types, move-only).",
  "The transition relation is alternatives squared times special members times triviality class; tests visit selected ones.",
  [VAR, VH, TTX], [("policies", VAR + ":base_*"), ("visitation", VAR + ":visit"), ("conversion selection", TTX + ":best_conversion_index_v")],
  ["step-by-step comparison with std::variant holding the same recorded values"])
p("V02", "Variant alternatives are alive exactly while active, also when operations throw",
  "The active alternative of a variant is constructed once and destroyed exactly once, and no other alternative is touched. If a value operation throws at any point, the exception reaches the caller, nothing leaks or is destroyed twice, the variant keeps its old value or becomes valueless exactly where the standard variant does, and a valueless variant supports copying, moving, swapping, comparison, visitation failure and reassignment as standardised.",
  ["fault_sequences", "histories"],
  "All histories with the k-th value operation throwing, for every k and every pair of alternatives.",
  "Only a few throwing transitions are tested; the valueless state as operand of later operations is mostly untested.",
  [VAR], [("storage policy", VAR + ":base_storage"), ("assignment strategies", VAR + ":base_copy_assignment/convert_from")],
  ["lifetime registry; index and valueless flag compared with std::variant under the same fault"])
p("V03", "Variant comparisons agree with the standard for every pair",
  "All six comparisons of variants give the result the standard variant gives for every pair of alternatives, values and valueless states, using the corresponding operator of the alternative, including value types with partial orders.",
  ["inputs"],
  "All pairs of states and values, all operators.",
  "Tests use totally ordered values and few valueless operands.",
  [VAR], [("comparison operators", VAR + ":operator==...>=")],
  ["results and recorded operator calls compared with std::variant"])

# ---------------------------------------------------------------- views
p("S01", "The string view polyfill answers every query like the standard string view",
  "For every text (with any characters, including embedded nulls and empty or null views) and every argument, each query, comparison, search, substring, copy, prefix or suffix removal and formatted output of the string view polyfill gives the result of the standard string view, reads only characters inside the views, and reports out-of-range positions with the out-of-range error.",
  ["inputs", "histories"],
  "All texts, positions, counts, needles and stream formatting states, for several character types and traits.",
  "Search and substring have boundary cases (empty needle, position at the end, counts near the maximum) that fixed examples miss.",
  [SV], [("search", SV + ":find"), ("comparison", SV + ":compare"), ("output", SV + ":operator<<")],
  ["results compared with std::basic_string_view on exactly sized heap copies under AddressSanitizer"])
p("S02", "The span polyfill denotes exactly the requested elements",
  "Every span made from arrays, pointers, iterators or other spans, and every sub-span (static or dynamic, first, last, offset and count), denotes exactly the elements that the standard span denotes: same start address, size and byte size, forward and reverse traversal, and element references through which writes reach the underlying object. No operation within its preconditions reads or writes outside the underlying array.",
  ["inputs", "histories"],
  "All array lengths, offsets, counts, nesting chains of sub-spans, element types and constness, static and dynamic extents.",
  "Tests use a few fixed extents; chains of sub-spans with all boundary offsets are an input space.",
  [SP], [("sub-views", SP + ":first/last/subspan"), ("construction", SP)],
  ["data()/size()/iterators compared with std::span after every step; AddressSanitizer"])

# ---------------------------------------------------------------- cross-cutting
p("X01", "A program using the polyfill names behaves the same under every standard",
  "A program written against the library's standard-neutral names (span, polymorphic allocators, memory resources and the vocabulary types) produces the same observable results whether those names resolve to the library's own types or to the standard ones, for every language standard, with both compilers, and with debug assertions on or off, apart from the divergences the library documents (it never falls back silently on the default memory resource). In particular valid use never triggers a debug assertion.",
  ["configurations", "programs"],
  "All build configurations (language standard, compiler, exceptions, assertions) and all programs from the workload generator.",
  "The test suite is built in two configurations with one compiler and compares nothing between them.",
  [I + "pf17/cetlpf.hpp", I + "pf20/cetlpf.hpp", I + "cetl.hpp", VLA, UV], [("polyfill switch", I + "pf17/cetlpf.hpp"), ("span switch", I + "pf20/cetlpf.hpp"), ("assertions", I + "cetl.hpp:CETL_DEBUG_ASSERT")],
  ["trace digests of identical workloads across configurations"])
p("T01", "Read-only use of a shared object and use of separate objects never race",
  "Any number of threads may concurrently use const operations of the same array, variant, optional, view, function or allocator object, and may concurrently use different objects without restriction (even of the same type, and when they share only a thread-safe memory resource), without data races and with the results a single thread would see.",
  ["schedules"],
  "All schedules of threads performing const operations on shared objects and arbitrary operations on private ones.",
  "Tests are single-threaded; hidden shared or mutable state shows only under concurrent schedules.",
  [VLA, UV, FN, OPT, VAR, MR, RT], [("no mutable members, no unsynchronised statics", VAR + ":chronomorphize lookup table"), ("singletons", MR)],
  ["ThreadSanitizer; digests compared with a sequential run"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
assert len({x["id"] for x in P}) == len(P)
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
