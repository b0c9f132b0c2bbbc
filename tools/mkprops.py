#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the properties are edited)."""
import json, os
P = []
H = "core/include/vecmem/"
S = "core/src/memory/"
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "meaning": state, "where": files[0]}]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

RES = [S + f for f in ("host_memory_resource.cpp", "details/arena_memory_resource_impl.cpp",
       "details/binary_page_memory_resource_impl.cpp", "details/pool_memory_resource_impl.cpp",
       "details/contiguous_memory_resource_impl.cpp")]
WRAP = [S + f for f in ("identity_memory_resource.cpp", "details/choice_memory_resource_impl.cpp",
       "details/coalescing_memory_resource_impl.cpp", "details/conditional_memory_resource_impl.cpp",
       "terminal_memory_resource.cpp")]

prop("M01", "Live allocations never overlap and keep their contents",
 "For any sequence of allocations, deallocations and resource moves on any host memory resource or stack of resources, every successful request for at least one byte yields a non-null block that lies wholly inside memory the resource currently holds from its upstream and overlaps no other live block. Bytes written into a live block stay unchanged until its owner returns it, whatever else is requested meanwhile.",
 ["histories", "configurations"], "every allocate/free/move history over every resource type, option set and stack of resources",
 "The tests run one short fixed pattern per resource; overlap needs a particular history of splits, merges, chunk growth and reuse.",
 RES + WRAP,
 [("splitting/merging of free blocks", S + "details/arena_memory_resource_impl.cpp"),
  ("binary page tree split/unsplit", S + "details/binary_page_memory_resource_impl.cpp"),
  ("bucketed free lists and oversized cache", S + "details/pool_memory_resource_impl.cpp"),
  ("bump pointer", S + "details/contiguous_memory_resource_impl.cpp")],
 "free/allocated block sets, page states, free lists, bump pointer", "allocate/deallocate of the resource and of its upstream")
prop("M02", "Returned addresses honour the requested alignment",
 "Every successful allocation from a memory resource, made with any power-of-two alignment and in any state of the resource, returns an address that is a multiple of that alignment. The arena and the binary page resource are documented to ignore extended alignment; they guarantee the default (fundamental) alignment.",
 ["inputs", "histories"], "every size, alignment and preceding history, for every resource and stack",
 "Tests try a handful of sizes and alignments on fresh resources; misalignment shows for unusual sizes after particular histories (bump position, cached block, chunk offset).",
 RES + WRAP,
 [("aligned host allocation", S + "host_memory_resource.cpp"), ("overaligned requests and chunk alignment", S + "details/pool_memory_resource_impl.cpp"),
  ("alignment of the bump pointer", S + "details/contiguous_memory_resource_impl.cpp")],
 None, "return value of allocate")
prop("M03", "Upstream memory is given back exactly once and unaltered",
 "Every block a memory resource obtains from its upstream is returned to that same upstream at most once, with exactly the pointer, size and alignment with which it was obtained, and never while a live client allocation uses it. By the time the resource has been destroyed (or replaced by move assignment) and its clients have returned their blocks, everything obtained has been returned; nothing that was not obtained is ever returned.",
 ["histories", "configurations"], "every request history, including moves and destruction with clients' blocks still out, for every resource that owns upstream memory",
 "Tests never look at what goes back to the upstream; leaks, double returns and wrong sizes are silent on the host resource.",
 RES + WRAP + [S + "details/debug_memory_resource_impl.cpp", S + "details/instrumenting_memory_resource_impl.cpp"],
 [("chunk and cache release", S + "details/pool_memory_resource_impl.cpp"), ("superblock release", S + "details/arena_memory_resource_impl.cpp"),
  ("superpage ownership", S + "details/binary_page_memory_resource_impl.cpp"), ("single upstream block", S + "details/contiguous_memory_resource_impl.cpp")],
 "superblocks, superpages, chunks, oversized cache", "calls arriving at the upstream resource")
prop("M04", "Freed memory is reused, so use of upstream stays bounded",
 "In the arena, binary page and pool resources, memory whose client blocks have been returned serves later requests: repeating the same balanced sequence of requests and releases stops taking memory from upstream after a bounded number of repetitions. In particular allocating and freeing one block over and over never takes more than the first round did, for every size that the resource caches. Once every client block of an arena or binary page resource has been returned, all that it holds from upstream can be given out again: a request as large as a block held from upstream is served from it.",
 ["histories"], "every balanced request/release sequence repeated arbitrarily often",
 "Lost or never-coalesced free memory only shows as unbounded growth over long histories; results of each single request stay correct.",
 RES[1:4], [("coalescing and first fit", S + "details/arena_memory_resource_impl.cpp"), ("page unsplitting", S + "details/binary_page_memory_resource_impl.cpp"),
  ("free lists and oversized cache", S + "details/pool_memory_resource_impl.cpp")], None, "bytes outstanding at the upstream resource")
prop("M05", "An upstream failure leaves a resource consistent",
 "When an upstream allocation fails with an out-of-memory error at any point of any history, the failing request reports an out-of-memory error to the client, no live block or its contents is affected, nothing leaks, and the resource keeps satisfying all allocation guarantees afterwards. A repeated request succeeds once the upstream can serve it.",
 ["fault_sequences", "histories"], "a failure injected at every upstream call (and bursts of failures) of every history",
 "No test makes an upstream fail in the middle of a history; half-updated bookkeeping appears only after such a fault.",
 RES + WRAP, [("order of bookkeeping and upstream call", S + "details/pool_memory_resource_impl.cpp"), ("superpage creation", S + "details/binary_page_memory_resource_impl.cpp"),
  ("superblock creation", S + "details/arena_memory_resource_impl.cpp")], None, "client result of each request under an upstream that fails on schedule")
prop("M06", "Requests that cannot be satisfied fail instead of returning memory",
 "A request whose size, or whose size after rounding or multiplication by an element count, exceeds what can be represented or what the resource can hold is answered with an out-of-memory error: no resource, allocator or smart pointer maker ever returns a block smaller than what was asked for or a null block for a non-empty request. Afterwards the resource still serves normal requests.",
 ["inputs"], "every size up to the largest representable one, and every element count, on every resource",
 "Tests use small sizes only; wrap-around happens near the top of the size range and then hands out a tiny block.",
 RES + [H + "memory/unique_ptr.hpp", H + "memory/impl/allocator.ipp"],
 [("size rounding", S + "host_memory_resource.cpp"), ("rounding up to a power of two", "core/src/utils/integer_math.hpp"), ("rounding to blocks and growth limit", S + "details/arena_memory_resource_impl.cpp")],
 None, "result of allocate for extreme sizes")
prop("M07", "Composite resources route requests as configured",
 "The fallback resource uses the first upstream in order that does not run out of memory, the choosing resource exactly the upstream its decision function names, the conditional one its upstream precisely when the predicate accepts the request, the forwarding one its upstream always and the terminal one nothing; sizes and alignments pass through unchanged. Every release goes to the very upstream that served that block, whatever was allocated, released, moved or reused in between, and when no upstream can serve a request the client gets an out-of-memory error.",
 ["histories", "configurations", "inputs"], "every request history, upstream line-up, decision function, predicate and pattern of upstream failures",
 "Tests try two or three fixed line-ups; wrong routing needs address reuse across upstreams, nested composites or failure patterns.",
 WRAP, [("first upstream that does not fail", S + "details/coalescing_memory_resource_impl.cpp"), ("recorded origin of each block", S + "details/choice_memory_resource_impl.cpp"),
  ("predicate", S + "details/conditional_memory_resource_impl.cpp"), ("forwarding", S + "identity_memory_resource.cpp"), ("always failing", S + "terminal_memory_resource.cpp")],
 "map from block to upstream", "calls arriving at each upstream")
prop("M08", "The debugging resource reports every misuse and nothing else",
 "Through the debugging resource, every upstream block overlapping a live one, every release of memory that is not live (unknown, interior or already released) and every release with a different size or alignment raises a logic error, and such a rejected release neither reaches the upstream nor disturbs the record of live blocks. Correct usage never raises an error, including when addresses are reused.",
 ["histories", "inputs"], "every history of correct and incorrect requests over any upstream behaviour",
 "Tests make one mistake of each kind on a nearly empty resource; false alarms and misses depend on neighbouring blocks and on history.",
 [S + "details/debug_memory_resource_impl.cpp", S + "debug_memory_resource.cpp"],
 [("overlap test and live block record", S + "details/debug_memory_resource_impl.cpp")], "record of live blocks", "exceptions and calls arriving at the upstream")
prop("M09", "Instrumentation records every request in order",
 "The instrumenting resource records one event per request that reaches it, in request order, with the right kind, size, alignment and address (no address for a request that failed with an out-of-memory error), and passes requests, results and errors through unchanged. All hooks of a kind run exactly once per request in registration order, those registered as 'pre' before and those registered as 'post' after the upstream call.",
 ["histories"], "every history of successful and failing requests, with any number of hooks registered at any time",
 "Tests check a short log with one hook of each kind; order, failure and multi-hook behaviour is history dependent.",
 [S + "details/instrumenting_memory_resource_impl.cpp", S + "instrumenting_memory_resource.cpp"],
 [("event log and hooks", S + "details/instrumenting_memory_resource_impl.cpp")], "event list and hook lists", "event list, hook calls and upstream calls in one sequence")
prop("M10", "The memory monitor's statistics match the traffic",
 "After any history on a monitored resource, the total, outstanding, average and maximal figures equal those computed from the sizes of the successful allocations and releases since monitoring began, for monitors attached while nothing is outstanding; failed requests count for nothing.",
 ["histories"], "every history of requests on the monitored resource, including failing ones and none at all",
 "Only one short history is exercised by tests; the figures are running aggregates over unbounded histories.",
 ["core/src/utils/memory_monitor.cpp", H + "utils/memory_monitor.hpp", S + "details/instrumenting_memory_resource_impl.cpp"],
 [("running totals updated from hooks", "core/src/utils/memory_monitor.cpp")], "allocation counters", "statistics getters")
prop("M11", "The synchronizing resource makes its upstream thread safe",
 "With any number of threads allocating and releasing through one synchronizing resource, calls into the upstream never run concurrently and are ordered by happens-before, every thread gets memory disjoint from all other live blocks, and each release is forwarded exactly once with unchanged arguments. This also holds when upstream calls fail, and no call ever deadlocks.",
 ["schedules", "fault_sequences"], "every interleaving of client threads, including upstream failures",
 "Tests use the resource from one thread; lost mutual exclusion shows only under particular interleavings.",
 [S + "synchronized_memory_resource.cpp", H + "memory/synchronized_memory_resource.hpp"],
 [("lock around each upstream call", S + "synchronized_memory_resource.cpp")], "mutex", "entry and exit of upstream calls, thread by thread")
prop("M12", "The pool keeps to its configured options",
 "A pool resource forwards each request larger than its largest block or more aligned than its pool alignment as a separate upstream request of at least that size and alignment, serves all others from upstream chunks within the configured byte and block limits, and returns oversized blocks upstream at once when caching is off. A cached oversized block is reused only if it is large and aligned enough and below the size and alignment cut-off factors; inconsistent options are rejected on construction with an invalid-argument error.",
 ["configurations", "histories"], "every option set and every request history",
 "Tests use the default options almost exclusively; violations need particular options and cache contents.",
 [S + "details/pool_memory_resource_impl.cpp", H + "memory/pool_memory_resource.hpp"],
 [("chunk sizing, cache look-up, option checks", S + "details/pool_memory_resource_impl.cpp")], "cached oversized blocks, chunk counts", "requests arriving at the upstream")
prop("M13", "The contiguous resource packs requests back to back",
 "A contiguous resource takes one block of the configured size from upstream on construction and nothing ever again, and places each request directly behind the previous one, skipping only the bytes needed for alignment. A request fails with an out-of-memory error exactly when it does not fit in the remaining bytes, a failed request uses up no space, and releasing blocks frees nothing until the resource is destroyed.",
 ["histories", "inputs"], "every sequence of sizes and alignments and every capacity",
 "Tests allocate a few fixed blocks; the exact-fit boundary and behaviour after a failure depend on history.",
 [S + "details/contiguous_memory_resource_impl.cpp", S + "contiguous_memory_resource.cpp"],
 [("bump pointer", S + "details/contiguous_memory_resource_impl.cpp")], "next free address", "addresses returned")
prop("M14", "Resources compare equal only if interchangeable",
 "Two memory resources compare equal only when memory from one may be released through the other: all plain host resources are equal to each other and so are all terminal ones, a forwarding or synchronizing resource is equal to same-kind wrappers of equal upstreams (a synchronizing one also accepts its own upstream), and every other resource equals only itself. Comparison is reflexive, and symmetric except for that last case, and host containers therefore adopt or reallocate memory correctly when moved or swapped between resources.",
 ["configurations"], "all pairs of resource kinds and upstream line-ups",
 "Tests compare hardly any pair; a wrong answer silently releases memory to the wrong resource in container moves.",
 [S + "details/memory_resource_base.cpp", S + "identity_memory_resource.cpp", S + "synchronized_memory_resource.cpp", S + "host_memory_resource.cpp"],
 [("equality", S + "details/memory_resource_base.cpp"), ("equality of wrappers", S + "identity_memory_resource.cpp")], None, "comparison results and release calls of moved containers")
prop("M15", "Smart pointers and the allocator own objects exactly once",
 "An object or array made through the library's owning pointers or object allocator is constructed once with the given arguments in suitably aligned memory of the right size, is destroyed exactly once and its memory released exactly once with the same size and alignment when the owner goes away, through any sequence of moves, swaps, resets and releases. Owners of trivially constructible memory run no constructors or destructors but release equally exactly; a throwing constructor leaks nothing.",
 ["histories", "inputs"], "every type shape, element count, argument list and ownership history, including constructors that throw",
 "Tests check a few types on happy paths and never watch the resource's books.",
 [H + "memory/unique_ptr.hpp", H + "memory/details/unique_obj_deleter.hpp", H + "memory/details/unique_alloc_deleter.hpp", H + "memory/impl/allocator.ipp", S + "allocator.cpp"],
 [("deleters", H + "memory/details/unique_obj_deleter.hpp"), ("makers", H + "memory/unique_ptr.hpp"), ("object helpers", H + "memory/impl/allocator.ipp")],
 None, "constructor/destructor calls and resource calls")

prop("C01", "Atomic references are atomic and linearizable",
 "Operations performed by any number of threads through atomic references to one object behave as if executed one at a time: no update is lost, every returned value is the one immediately preceding the operation in that order, and the order respects each thread's program order and real time. Each operation has its advertised effect and return value for all operand values and integer types, and release/acquire pairs publish preceding plain writes.",
 ["schedules", "inputs"], "all interleavings of loads, stores, exchanges, compare-exchanges and read-modify-writes, for all operand values and integer types",
 "Tests run single threaded; atomicity and ordering only matter under contention.",
 [H + "memory/details/posix_device_atomic_ref.hpp", H + "memory/impl/posix_device_atomic_ref.ipp", H + "memory/device_atomic_ref.hpp", H + "memory/memory_order.hpp"],
 [("host implementation on compiler atomics", H + "memory/impl/posix_device_atomic_ref.ipp"), ("memory orders", H + "memory/memory_order.hpp")],
 None, "values returned to each thread and the final value")
prop("C02", "Concurrent appends to a device vector are exactly-once",
 "When threads append concurrently to a resizable device vector (or rows of a jagged one) within its capacity, singly or in bulk, every appended element appears exactly once, each call returns the index range it filled, ranges of different calls are disjoint and bulk ranges contiguous, and the final size equals the initial size plus everything appended. No append touches an element it did not claim.",
 ["schedules"], "every interleaving of appending threads, bulk sizes and initial sizes",
 "The host tests append from one thread; lost or duplicated slots need contention.",
 [H + "containers/impl/device_vector.ipp", H + "containers/impl/jagged_device_vector.ipp"],
 [("index claiming by atomic increment", H + "containers/impl/device_vector.ipp")], "shared size counter", "returned indices and final contents")
prop("C03", "Concurrent appends to a structure of arrays are exactly-once",
 "When threads concurrently append default elements to a resizable structure-of-arrays container and fill the element they got, every call gets a distinct index, all of the element's variables at that index are default initialised and then hold exactly what that thread wrote, scalars and other elements are untouched, and the final size counts every append.",
 ["schedules"], "every interleaving of appending threads over every container shape without jagged variables",
 "Host tests append sequentially; torn or shared elements need contention.",
 [H + "edm/impl/device.ipp"], [("shared size claimed atomically, all variables constructed", H + "edm/impl/device.ipp")], "shared size variable", "returned indices and final contents")
prop("C04", "Atomic operations keep their meaning on every back end",
 "Code written against the library's atomic reference and atomic classes has the same meaning whichever implementation is selected at build time: for CUDA device code, HIP device code, SYCL code of either atomics generation and the fallback without threads, each load, store, exchange, compare-exchange and read-modify-write returns the value, reports the outcome, updates the expected value and leaves the object as specified. In all but the fallback, concurrent operations on one object are atomic and linearizable given atomic runtime primitives.",
 ["configurations", "schedules", "inputs"], "every operation history on every implementation, for all operand values and the integer types the runtimes support; all interleavings except in the fallback",
 "Host tests only ever compile one of the six implementations.",
 [H + "memory/device_atomic_ref.hpp", H + "memory/impl/cuda_device_atomic_ref.ipp", H + "memory/impl/sycl_custom_device_atomic_ref.ipp", H + "memory/details/sycl_builtin_device_atomic_ref.hpp",
  H + "memory/impl/dummy_device_atomic_ref.ipp", H + "memory/impl/atomic.ipp"],
 [("CUDA and HIP", H + "memory/impl/cuda_device_atomic_ref.ipp"), ("SYCL 1.2.1", H + "memory/impl/sycl_custom_device_atomic_ref.ipp"), ("fallback", H + "memory/impl/dummy_device_atomic_ref.ipp"),
  ("pointer-based class", H + "memory/impl/atomic.ipp")], None, "values returned to each thread and the final value")

prop("V01", "A device vector behaves like a standard vector",
 "For any sequence of operations within capacity, a resizable device vector shows the same size, elements and return values as a standard vector subjected to the same operations, through all access paths and iterators, and its capacity never changes. When an operation returns, every visible element has been constructed exactly once and every removed one destroyed exactly once, nothing outside the vector's storage is touched, and copies of the vector object refer to the same elements.",
 ["histories", "inputs"], "every operation sequence and element type, including element types with non-trivial lifetime",
 "Tests check short fixed sequences; boundary and lifetime errors need particular sequences (shrink/grow, empty, full).",
 [H + "containers/device_vector.hpp", H + "containers/impl/device_vector.ipp"],
 [("construct/destruct bookkeeping", H + "containers/impl/device_vector.ipp")], "size counter and storage", "public accessors; constructor/destructor calls")
prop("V02", "A static vector behaves like a standard vector",
 "For any sequence of constructions, insertions, erasures, resizes, assignments, copies and accesses that stays within the fixed capacity, a static vector shows the same size, elements and returned iterators as a standard vector subjected to the same operations. Every element is constructed exactly once and destroyed exactly once, also for element types with non-trivial copying, strict alignment or internal pointers.",
 ["histories", "inputs"], "every operation sequence, position, capacity and element type",
 "Tests cover a few operations on integers; lifetime errors and shifted-element errors need non-trivial types and particular positions.",
 [H + "containers/static_vector.hpp", H + "containers/impl/static_vector.ipp"],
 [("in-place insertion/removal", H + "containers/impl/static_vector.ipp")], "element count and raw storage", "public accessors; constructor/destructor calls")
prop("V03", "Fixed-size arrays hold what was put in them",
 "The host, static and device arrays hold exactly the elements they were given: construction, fill, element access by every path, iteration in both directions, comparison and size queries agree with a plain array of the same length for every length and content. Checked access outside the range is reported on the host, host arrays return their memory exactly once, and writes through one access path are visible through all others.",
 ["inputs", "histories"], "every length (including zero where allowed), content and access sequence",
 "Tests use one or two lengths and contents per type.",
 [H + "containers/array.hpp", H + "containers/impl/array.ipp", H + "containers/static_array.hpp", H + "containers/impl/static_array.ipp", H + "containers/device_array.hpp", H + "containers/impl/device_array.ipp"],
 [("element storage", H + "containers/impl/array.ipp"), ("compile-time arrays", H + "containers/impl/static_array.ipp"), ("view-backed arrays", H + "containers/impl/device_array.ipp")])
prop("V04", "Iterators obey random-access arithmetic",
 "The reverse iterators of all containers and the row iterators of jagged device vectors visit exactly the container's elements in order, and any combination of the steps, jumps, equality comparisons and indexed dereferences they offer gives the same result as the same arithmetic on a standard random-access iterator. Converting to constant iterators preserves position.",
 ["inputs", "histories"], "every container content and every sequence of iterator operations",
 "Tests walk iterators forward once; sign and off-by-one errors need mixed jumps and comparisons.",
 [H + "containers/impl/reverse_iterator.ipp", H + "containers/impl/jagged_device_vector_iterator.ipp"],
 [("reverse adaptor", H + "containers/impl/reverse_iterator.ipp"), ("row iterator", H + "containers/impl/jagged_device_vector_iterator.ipp")])
prop("V05", "Jagged device vectors show exactly the underlying rows",
 "A jagged device vector on top of any jagged data shows the same number of rows, row sizes and elements as the data, through every access path, for any row shapes including empty rows and no rows. Element writes and row growth within capacity through it change exactly the addressed row.",
 ["inputs", "histories"], "every row shape, content and access/modify sequence",
 "Tests use one fixed six-row sample.",
 [H + "containers/impl/jagged_device_vector.ipp", H + "containers/jagged_device_vector.hpp"],
 [("row access", H + "containers/impl/jagged_device_vector.ipp")])
prop("V06", "The tuple stores each element faithfully",
 "The library's tuple holds, for any list of element types and values, exactly the value (or reference) supplied for each position through construction, conversion, copying, assignment and access, agreeing with the standard tuple; building a tuple by value decays types, and tying refers to the original objects.",
 ["inputs"], "every element type list and values",
 "Tests cover a few type lists; mistakes are position- and value-category specific.",
 [H + "utils/tuple.hpp", H + "utils/impl/tuple.ipp"], [("recursive storage and access", H + "utils/impl/tuple.ipp")])
prop("V07", "Views describe exactly the container they were made from",
 "A view obtained from a host vector, array, jagged vector, buffer or another view describes exactly that object's current elements: same addresses, sizes and capacities, row by row for jagged data and for any shape including empty ones. Converting to a constant view keeps this, and two views are equal exactly when they describe the same memory with the same extent.",
 ["inputs"], "every container shape and content",
 "Tests use one sample per container type.",
 [H + "containers/impl/vector.ipp", H + "containers/impl/array.ipp", H + "containers/impl/jagged_vector.ipp", H + "containers/impl/vector_view.ipp", H + "containers/impl/jagged_vector_view.ipp", H + "containers/impl/jagged_vector_data.ipp"],
 [("view makers", H + "containers/impl/jagged_vector.ipp"), ("view equality and conversion", H + "containers/impl/vector_view.ipp")])

prop("B01", "Vector and jagged vector buffers carve sound storage",
 "For any element type, capacity list and buffer kind, a buffer's size counters, row descriptors and element areas lie inside the memory the buffer allocated from the resource meant for them, are correctly aligned and mutually disjoint, and give every row exactly its requested capacity. Fixed-size buffers show size equal to capacity; resizable ones show size zero once set up.",
 ["inputs", "configurations"], "every element type, capacity list (including zeros and none), buffer kind and choice of resources",
 "Tests use a few capacities of int; overlap and misalignment need odd counts and strictly aligned types.",
 [H + "containers/impl/vector_buffer.ipp", H + "containers/impl/jagged_vector_buffer.ipp", H + "containers/impl/aligned_multiple_placement.ipp"],
 [("joint placement of several arrays", H + "containers/impl/aligned_multiple_placement.ipp"), ("row layout", H + "containers/impl/jagged_vector_buffer.ipp")],
 None, "addresses in the buffer's view versus the blocks obtained from the resource")
prop("B02", "Structure-of-arrays buffers carve sound storage",
 "For any container schema, capacity list and buffer kind, the size counters, layout descriptors and every variable's payload lie inside memory the buffer allocated from the resource meant for them, are correctly aligned and mutually disjoint, and have exactly the requested capacities; the reported size, layout and payload regions cover exactly those pieces. Resizable buffers show size zero once set up, for every capacity including zero.",
 ["inputs", "configurations"], "every schema, capacity list, buffer kind and choice of resources",
 "Tests use two fixed schemas with one capacity list; layout errors depend on type order, alignment and zero sizes.",
 [H + "edm/impl/buffer.ipp", H + "edm/details/buffer_traits.hpp", H + "containers/impl/aligned_multiple_placement.ipp"],
 [("joint placement", H + "containers/impl/aligned_multiple_placement.ipp"), ("view construction", H + "edm/details/buffer_traits.hpp")],
 None, "addresses in the buffer's view versus the blocks obtained from the resource")
prop("B03", "Owning buffers release their memory exactly once",
 "Vector, jagged vector and structure-of-arrays buffers and data objects take their memory only from the given resources and return each block exactly once with the same size and alignment, through any sequence of creation, move construction, move assignment and destruction. After a move the target describes the same memory and contents the source had.",
 ["histories", "fault_sequences"], "every sequence of creations, moves and destructions, and allocation failures during construction",
 "Tests never watch the resource's books or fail an allocation half-way through construction.",
 [H + "containers/data/vector_buffer.hpp", H + "containers/data/jagged_vector_buffer.hpp", H + "edm/buffer.hpp", H + "edm/data.hpp", H + "containers/data/jagged_vector_data.hpp"],
 [("ownership", H + "memory/details/unique_alloc_deleter.hpp"), ("jagged construction", H + "containers/impl/jagged_vector_buffer.ipp")])

prop("K01", "Copying a vector reproduces it exactly",
 "Copying vector data between views, buffers and host vectors makes the target show exactly the source's elements and, where the target is resizable or a host vector, exactly the source's size (also when the source is empty); the source and everything outside the target's elements stay unchanged. A copy that does not fit in the target is refused with a length error before anything is written, and a freshly made copy has the source's size.",
 ["inputs", "configurations"], "every element type, size, capacity, pairing of fixed and resizable sides, and prior target contents",
 "Tests copy a few fixed vectors once; stale sizes, overruns and mismatched pairings need particular combinations.",
 [H + "utils/impl/copy.ipp", "core/src/utils/copy.cpp"], [("one-dimensional copy", H + "utils/impl/copy.ipp")], None, "target contents and guard bytes")
prop("K02", "Copying a jagged vector reproduces it exactly",
 "Copying jagged data between views, buffers and host containers makes every target row show exactly the corresponding source row, and row sizes equal the source's wherever the target can be resized, for any shapes and any pairing of contiguous and scattered, fixed and resizable sides; the source and everything outside the written rows' storage stay unchanged. Mismatched non-zero row counts or rows that do not fit are refused with a length error before anything is written.",
 ["inputs", "configurations"], "every shape (empty rows, no rows, permuted capacities), contiguity, resizability and prior target contents",
 "Tests use one sample shape; the bulk-copy shortcut and size transfer go wrong only for particular shapes and pairings.",
 [H + "utils/impl/copy.ipp"], [("bulk copy shortcut, size transfer", H + "utils/impl/copy.ipp")], None, "target contents and guard bytes")
prop("K03", "Copying a structure of arrays reproduces it exactly",
 "Copying a structure-of-arrays container between host containers, views and buffers makes every scalar, vector and jagged variable of the target equal to the source's and, where the target can be resized, its size(s) equal to the source's, for any schema, shape and pairing of fixed and resizable sides. The source and all memory outside the target stay unchanged, and non-empty shapes that do not fit are refused with a length error instead of being scrambled.",
 ["inputs", "configurations"], "every schema, shape, pairing of sides and prior target contents",
 "Tests copy two fixed containers between matching shapes; the single-block shortcut and size transfer depend on shapes and pairings.",
 [H + "utils/impl/copy.ipp", H + "edm/impl/buffer.ipp"], [("block copy shortcut, per-variable copy, size transfer", H + "utils/impl/copy.ipp")], None, "target contents")
prop("K04", "Explicit copies never touch device memory from the host",
 "When a buffer's main memory is not host accessible, creating the buffer, setting it up, querying sizes, filling and copying in any direction access that memory only through the copy object's low-level transfer operations, each of which stays inside one allocated block and is labelled with a direction that matches (or leaves open) where its two sides live.",
 ["configurations", "inputs"], "every container kind and shape, with device memory the host cannot read or write",
 "All host tests use host memory, where a forbidden direct access goes unnoticed; it crashes only on a real accelerator.",
 [H + "utils/impl/copy.ipp", H + "containers/impl/jagged_vector_buffer.ipp", H + "edm/impl/buffer.ipp"],
 [("transfer primitives", "core/src/utils/copy.cpp"), ("separate host descriptors", H + "containers/impl/jagged_vector_buffer.ipp")], None, "memory protection of the simulated device and the transfer log")
prop("K05", "Asynchronous transfers complete by the time of the event wait",
 "With a transfer back end that only executes queued operations in order when an event is waited for, every copy, set-up, fill and size operation gives the same final result as with an immediate back end once its event has been waited for, and operations that return values or finished buffers are complete on return. No queued transfer ever reads or writes an object whose lifetime ended before the event was waited for.",
 ["schedules", "configurations"], "every operation and container kind under back ends that delay transfers arbitrarily up to the event wait",
 "The host back end is immediate, so a missing wait or a dangling temporary is invisible to tests.",
 [H + "utils/impl/copy.ipp"], [("waits for temporaries", H + "utils/impl/copy.ipp"), ("event creation", "core/src/utils/copy.cpp")], None, "results under a delaying back end")
prop("K06", "Set-up and fill affect exactly their target",
 "Setting up a buffer makes its size(s) zero (for resizable buffers of any capacity, including zero) and its layout usable, and changes no element; filling sets every byte of every element of the given view, jagged view or structure-of-arrays container to the value, including views without elements, and changes nothing else.",
 ["inputs", "configurations"], "every container kind, shape, element type and fill value",
 "Tests fill one sample of each kind; boundary bytes, empty rows and empty views are not covered.",
 [H + "utils/impl/copy.ipp"], [("set-up and fill", H + "utils/impl/copy.ipp")], None, "bytes of target and surrounding guards")

prop("E01", "Host structure-of-arrays containers keep variables in step",
 "Resizing or reserving a host structure-of-arrays container affects all its vector and jagged variables together, preserves existing elements and rows, leaves scalars alone, and makes the size consistent; element access by index, checked or not, reaches that element of every variable. Inconsistent variable sizes and out-of-range checked accesses are reported with an error, and all memory comes from the given resource.",
 ["histories", "inputs"], "every schema and sequence of resizes, variable edits and accesses",
 "Tests perform one resize on fixed schemas.",
 [H + "edm/impl/host.ipp", H + "edm/details/host_traits.hpp"], [("recursive resize/size", H + "edm/details/host_traits.hpp")])
prop("E02", "Device and proxy access to a structure of arrays is faithful",
 "A device container or element proxy over any structure-of-arrays data shows exactly the values, sizes and capacities of the underlying host container or buffer for every variable and index; writes through containers and proxies (host or device) land in exactly the addressed variable and element and are visible through every other access path; constant views show the same data.",
 ["inputs", "histories"], "every schema, shape and sequence of reads and writes through mixed access paths",
 "Tests check two fixed schemas with a single write pattern.",
 [H + "edm/impl/device.ipp", H + "edm/impl/proxy.ipp", H + "edm/details/proxy_traits.hpp", H + "edm/details/device_traits.hpp", H + "edm/impl/view.ipp"],
 [("variable access", H + "edm/details/device_traits.hpp"), ("proxies", H + "edm/details/proxy_traits.hpp")])

CU, HI, SY = "cuda/src/", "hip/src/", "sycl/src/"
prop("D01", "Accelerator memory resources hand out the right memory and give it back",
 "The CUDA, HIP and SYCL memory resources hand out new memory of their own kind (device, page-locked host, managed or shared), on the device they were made for (by default the device that was current when the resource was made, or the device of the given queue), at the requested alignment (SYCL: any; CUDA and HIP: up to that of the runtime's allocations), and null for zero bytes. Every block is returned exactly once by the release function that belongs to its allocation, whatever device is current by then and in whichever thread; releasing null does nothing. The device that was current before an operation is current after it. Failures of the runtime, among them devices that do not exist, reach the caller as exceptions and leak nothing. Two resources compare equal only if each can release what the other allocated, and two resources of the same type for the same device (or queue) compare equal.",
 ["histories", "configurations", "faults"], "every allocate/release history over all resource kinds, devices, current devices, threads and runtime failures",
 "Without devices the repository's tests of these libraries are not even built; on machines with one device a wrong device can not show, and the runtime never fails.",
 [CU + "memory/device_memory_resource.cpp", HI + "memory/device_memory_resource.cpp", SY + "memory/memory_resource_base.sycl"],
 [("device selection", CU + "utils/select_device.cpp"), ("device selection", HI + "utils/select_device.cpp"), ("host and managed memory", CU + "memory/host_memory_resource.cpp"),
  ("release on the queue's context", SY + "memory/memory_resource_base.sycl")], None, "calls into the runtime and the current device")
prop("D02", "Accelerator copies move exactly the data, completely, before returning",
 "The synchronous copy objects (cuda::copy, hip::copy, sycl::copy) transfer and fill exactly the requested bytes between memory of any kinds, for every copy, set-up, fill and size operation on flat and jagged containers and every element type; the work is complete when the operation returns, on in-order and out-of-order queues alike; operations of no bytes are harmless; the direction passed to the runtime is that of the memory involved. Every failure of a runtime call reaches the caller (asynchronous SYCL errors by way of the queue's handler), and nothing is left allocated or pending.",
 ["inputs", "histories", "faults"], "every container kind, memory kind, direction label, size, queue kind and runtime failure",
 "Needs a device; and a device that happens to be fast hides a missing wait.",
 [CU + "utils/cuda/copy.cpp", HI + "utils/hip/copy.cpp", SY + "utils/sycl/copy.sycl"],
 [("transfers", CU + "utils/cuda/copy.cpp"), ("transfers", HI + "utils/hip/copy.cpp"), ("transfers", SY + "utils/sycl/copy.sycl"), ("error checks", CU + "utils/cuda_error_handling.cpp")],
 None, "contents of all memory after every operation")
prop("D03", "Events of asynchronous accelerator copies cover the work and nothing leaks",
 "With cuda::async_copy and sycl::async_copy, waiting for the event of an operation completes that operation and what was issued before it on the stream (for SYCL queues of any order: at least all the work of that operation), so that the data is in place; destroying an event that was neither waited for nor ignored waits for it; ignoring an event does not wait, and neither does its destruction then; waiting repeatedly is harmless. Issuing a single fixed-size copy does not wait. Every runtime event that is made is destroyed exactly once, together with its event object, also when a runtime call fails in between; failures of issuing and of waiting reach the caller. Copy objects work on exactly the stream or queue that they were given, on whichever device it is.",
 ["schedules", "histories", "faults"], "every order of issuing, waiting for, dropping and ignoring events, every allowed execution order of pending work, and every runtime failure",
 "Needs a device; and whether a wait is missing depends on the order in which the device runs its work.",
 [CU + "utils/cuda/async_copy.cpp", SY + "utils/sycl/async_copy.sycl"],
 [("CUDA events", CU + "utils/cuda/async_copy.cpp"), ("SYCL events", SY + "utils/sycl/async_copy.sycl")], None, "contents of the memory after waiting, live runtime events")
prop("D04", "Stream and queue wrappers share and own exactly what they should",
 "A cuda::stream_wrapper or sycl::queue_wrapper made without a stream or queue creates one of its own (CUDA: on the requested device, by default the current one, without changing the current device); one made from a user's stream or queue refers to exactly that. Copying, moving and assigning wrappers in any sequence makes the target refer to the same stream or queue as the source did, also for further copies and for copy objects and memory resources made from it; a wrapper's own stream or queue lives as long as any wrapper or copy object refers to it and is then released exactly once; a user's stream or queue is never destroyed. Synchronizing a stream completes all its pending work. Failures of the runtime reach the caller and leak nothing.",
 ["histories", "faults"], "every sequence of creations, copies, moves, assignments and destructions of wrappers and objects made from them",
 "Needs a device; tests make one wrapper and use it.",
 [CU + "utils/stream_wrapper.cpp", SY + "utils/sycl/queue_wrapper.sycl"],
 [("shared ownership of streams", CU + "utils/stream_wrapper.cpp"), ("copies of queue handles", SY + "utils/sycl/queue_wrapper.sycl"), ("stream lifetime", CU + "utils/opaque_stream.cpp")],
 None, "live streams and queues, and which one each wrapper refers to")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
