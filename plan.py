"""What each check runs: harness, builds, numbers of cases, and what is observed."""
import os

SHIM = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "shim")
ASSUME = [
    "held on the executions produced here only; paths the workloads never drive are not covered",
    "no CUDA, HIP or SYCL compiler or device is present: no kernel runs on a device, and what device code would use is run on the host",
]


def R(src, variant, quick, thorough, **kw):
    return dict(src=src, variant=variant, quick=quick, thorough=thorough, **kw)


def B(variant, quick, thorough, **kw):
    return R("backend.cpp", variant, quick, thorough, backends=True, **kw)


def A(mode, variant, quick, thorough, **kw):
    return R("atomic.cpp", variant, quick, thorough, flags=("-DVM_MODE=%d" % mode, "-I" + SHIM) + (("-fwrapv",) if mode == 1 else ()), par=4, hang=60, **kw)


MS = ("-DVECMEM_HAVE_SYCL_MEMSET",)
EMU = ["the CUDA, HIP and SYCL libraries are compiled against headers written here that emulate those runtimes; where the emulation is more permissive than a real runtime, misuse goes unseen"]

PLAN = {
    "M01": dict(runs=[R("mem.cpp", "asan", 7200, 200000), R("mem.cpp", "opt", 48000, 1500000), R("mem.cpp", "asan_portable", 2400, 60000), R("mem.cpp", "asan_verbose", 1200, 30000)],
                rule="a case is one random history (allocate, release, move, destroy) on a random stack of resources over monitored upstreams; "
                     "non-trivial if it made more than 40 steps; distinct by the hash of its history",
                need={"allocations": 10000, "moves": 50, "giant_cases": 300}),
    "M02": dict(runs=[R("mem.cpp", "asan", 7200, 200000), R("mem.cpp", "opt", 32000, 1000000), R("mem.cpp", "asan_portable", 4000, 100000)],
                rule="a case is one random history with random power-of-two alignments up to 8192 on a random stack; non-trivial if it made more than 40 steps",
                need={"allocations": 10000, "giant_cases": 300}),
    "M03": dict(runs=[R("mem.cpp", "asan", 7200, 200000), R("mem.cpp", "opt", 48000, 1500000)],
                rule="as M01; what is compared is every call arriving at the monitored upstreams with what was obtained from them; "
                     "includes moves, move assignment and destruction with clients' blocks still out",
                need={"upstream_calls": 5000, "moves": 50, "move_assigns": 10, "destroyed_with_live_blocks": 20, "giant_cases": 300}),
    "M04": dict(runs=[R("mem.cpp", "opt", 7200, 90000), R("mem.cpp", "asan", 360, 6000)],
                rule="a case is one random balanced request sequence repeated 500 or more times on one resource; the peak of memory held from upstream must stop growing",
                need={"rounds": 10000, "giant_cases": 50}),
    "M05": dict(runs=[R("mem.cpp", "asan", 12000, 300000), R("mem.cpp", "opt", 48000, 1500000)],
                rule="a case is one random history with upstream failures at the k-th call, in bursts, periodically or at random; non-trivial if a failure was injected",
                need={"injected_failures": 500, "failed_requests": 300, "retries": 100, "giant_cases": 300}),
    "M06": dict(runs=[R("mem.cpp", "asan", 3200, 60000), R("mem.cpp", "opt", 16000, 400000), R("mem.cpp", "asan_portable", 3200, 60000)],
                rule="a case mixes normal requests with requests near the top of the size range and wrapping element counts on one resource kind",
                need={"extreme_requests": 2000}),
    "M11": dict(runs=[R("sync.cpp", "tsan", 800, 36000, par=3, hang=30), R("sync.cpp", "asan", 800, 36000, par=3, hang=30), R("sync.cpp", "opt", 2000, 120000, par=3, hang=30)],
                technique="runtime monitoring: ThreadSanitizer on a thread-unsafe upstream, plus a monitor for overlapping upstream calls, under multi-threaded stress with injected delays and faults",
                rule="a case is one multi-threaded history over a deliberately thread-unsafe upstream (plain, or a library resource); distinct by the order in which the "
                     "threads' calls were seen to arrive upstream; non-trivial if that order switches threads more than five times",
                need={"upstream_calls": 50000, "thread_switches_seen": 10000, "upstream_failures": 2000, "handed_over": 2000}),
    "M12": dict(runs=[R("mem.cpp", "asan", 4800, 120000), R("mem.cpp", "opt", 32000, 1000000)],
                rule="a case is one random option set with one random history of pooled, oversized and over-aligned requests; upstream traffic is compared with a model of the cache",
                need={"cache_hits": 300, "chunks": 300, "forwarded_oversized": 300, "returned_at_once": 100, "bad_options": 300, "giant_cases": 300}),
    "M13": dict(runs=[R("mem.cpp", "asan", 15000, 300000), R("mem.cpp", "opt", 80000, 2000000)],
                rule="a case is one capacity with one random sequence of sizes and alignments around the exact-fit boundary; each address is compared with the predicted one",
                need={"placed": 5000, "refused": 1000, "giant_cases": 300}),
    "M07": dict(runs=[R("route.cpp", "asan", 12000, 400000), R("route.cpp", "opt", 64000, 2500000)],
                rule="a case is one random tree of composite resources over up to five upstreams sharing addresses, with failure patterns that change; every call "
                     "arriving at every upstream is compared with the route predicted from the configuration; non-trivial if over 30 requests",
                need={"served": 10000, "unserved": 2000, "fallbacks": 1000, "released": 5000, "moves": 500, "address_reused": 2000, "predicate_refuses": 500}),
    "M08": dict(runs=[R("route.cpp", "asan", 9600, 300000), R("route.cpp", "opt", 48000, 2000000)],
                rule="a case is one random history of correct requests, overlapping upstream blocks and wrong releases; every verdict is compared with an exact model of the "
                     "live blocks; non-trivial if over 30 requests",
                need={"overlaps_reported": 3000, "misuse_reported": 10000, "accepted": 10000, "correct_releases": 10000, "moves": 500}),
    "M09": dict(runs=[R("route.cpp", "asan", 9600, 300000), R("route.cpp", "opt", 48000, 2000000)],
                rule="a case is one random history of served and failed requests with hooks added at any time; the merged sequence of hook and upstream calls and the event "
                     "list are compared with the expected ones; non-trivial if over 30 requests",
                need={"hooks": 3000, "failed_requests": 5000, "served_requests": 10000, "releases": 10000, "moves": 500}),
    "M10": dict(runs=[R("route.cpp", "asan", 9600, 300000), R("route.cpp", "opt", 48000, 2000000)],
                rule="a case is one random history of served and failed requests with one to three monitors attached; all four figures are compared after every request",
                need={"statistics_checked": 100000, "long_histories": 10, "failed_requests": 5000, "releases": 10000}),
    "M14": dict(runs=[R("route.cpp", "asan", 9600, 300000), R("route.cpp", "opt", 32000, 1000000)],
                rule="a case is one random set of up to 15 resources of all kinds stacked on each other; all ordered pairs are compared, memory is released across equal pairs and "
                     "vectors are moved between pairs",
                need={"equal_distinct_pairs": 3000, "unequal_pairs": 10000, "cross_releases": 500, "container_moves": 5000}),
    "M15": dict(runs=[R("ptr.cpp", "asan", 24000, 360000), R("ptr.cpp", "opt", 120000, 2400000), R("ptr.cpp", "asan20", 0, 60000)],
                rule="a case is one random history of creations (with throwing constructors and failing upstreams), moves, swaps, resets, releases and drops of owners of "
                     "many types over monitored upstreams; non-trivial if over 20 steps",
                need={"creations": 50000, "throwing_constructors": 3000, "moves": 10000, "releases": 5000, "swaps": 500}),
    "M16": dict(runs=[R("poly.cpp", "asan", 2000, 60000, polyfill=True, par=4), R("poly.cpp", "opt", 6000, 240000, polyfill=True, par=4), R("poly.cpp", "tsan", 2000, 60000, polyfill=True, par=3)],
                technique="runtime monitoring: the library's default resource linked in place of the standard library's; model of the default over random histories, an exactly-once oracle over concurrent exchanges, sanitizers",
                rule="a case is one random history of setting the default resource and of containers that use it, or several threads that each set resources of their own; non-trivial if longer "
                     "than 15 steps, or if resources of another thread were replaced more than three times",
                need={"set": 10000, "containers": 20000, "set_in_threads": 100000, "thread_switches_seen": 10000}),
    "C01": dict(runs=[R("atomic.cpp", "tsan", 1800, 60000, par=3, hang=60, parts=4), R("atomic.cpp", "asan", 2200, 80000, par=4, hang=60, parts=4), R("atomic.cpp", "opt", 9000, 300000, par=3, hang=60, parts=4),
                      R("atomic.cpp", "tsan20", 450, 16000, par=3, hang=60, parts=4)],
                technique="runtime monitoring: linearizability search over recorded concurrent histories, conservation and publication oracles, ThreadSanitizer on data published "
                          "through release/acquire pairs, undefined-behaviour sanitizer on extreme operands",
                rule="a case is one random sequential history against a wrap-around model, or one batch of concurrent histories searched for a linearization, or one contended run with a "
                     "conservation law, or one publication, lock or store-buffering litmus; concurrent histories count once per distinct observed outcome",
                need={"sequential_ops": 50000, "histories_checked": 5000, "overlapping_pairs": 20000, "contended_ops": 500000, "published": 5000, "critical_sections": 50000,
                      "store_buffering_rounds": 200000}),
    "C02": dict(runs=[R("big.cpp", "asan", 1000, 20000, par=3, hang=60), R("big.cpp", "opt", 3000, 80000, par=3, hang=60), R("conc.cpp", "tsan", 800, 36000, par=3, hang=60, flags=("-DNO_C03",), parts=3), R("conc.cpp", "tsandbg", 400, 18000, par=3, hang=60, flags=("-DNO_C03",), parts=3), R("conc.cpp", "asan", 1200, 45000, par=3, hang=60, flags=("-DNO_C03",), parts=3),
                      R("conc.cpp", "opt", 6000, 300000, par=3, hang=60, flags=("-DNO_C03",), parts=3)],
                technique="runtime monitoring: ThreadSanitizer plus an exactly-once oracle over the indices and contents recorded by the appending threads",
                rule="a case is one multi-threaded run of pre-planned appends into storage of (mostly) exactly the needed capacity; non-trivial if neighbouring elements come from different "
                     "threads more often than there are threads; distinct by the observed order of appends",
                need={"big_appends": 100000, "appends": 200000, "thread_switches_seen": 50000, "sizes_observed": 2000}),
    "C03": dict(runs=[R("big.cpp", "asan", 1000, 20000, par=3, hang=60), R("big.cpp", "opt", 3000, 80000, par=3, hang=60), R("conc.cpp", "tsan", 800, 36000, par=3, hang=60, flags=("-DNO_C02",), parts=3), R("conc.cpp", "tsandbg", 400, 18000, par=3, hang=60, flags=("-DNO_C02",), parts=3), R("conc.cpp", "asan", 1200, 45000, par=3, hang=60, flags=("-DNO_C02",), parts=3),
                      R("conc.cpp", "opt", 6000, 300000, par=3, hang=60, flags=("-DNO_C02",), parts=3)],
                technique="runtime monitoring: ThreadSanitizer plus an exactly-once oracle over the indices and contents recorded by the appending threads",
                rule="a case is one multi-threaded run of default appends to a container over garbage-filled storage, each followed by a check of the defaults and writes to every variable; "
                     "non-trivial and distinct as for C02",
                need={"big_appends": 100000, "appends": 200000, "thread_switches_seen": 50000, "sizes_observed": 1000}),
    "C05": dict(runs=[R("apart.cpp", "tsan", 1200, 50000, par=3, hang=60), R("apart.cpp", "tsandbg", 600, 25000, par=3, hang=60), R("apart.cpp", "asan", 1200, 50000, par=3, hang=60), R("apart.cpp", "opt", 6000, 300000, par=3, hang=60)],
                technique="runtime monitoring: ThreadSanitizer, and per-thread models and books, under threads that use objects of their own and share only stateless ones",
                rule="a case is one multi-threaded history: each thread creates, uses and destroys memory resources of all kinds, buffers, containers, pointers and copies of its own, while all share a copy object "
                     "and a host memory resource; distinct by the observed order in which the threads' operations alternate; non-trivial if that order switches threads more than ten times",
                need={"operations": 500000, "thread_switches_seen": 50000, "copies": 100000, "blocks": 200000, "objects": 20000}),
    "V01": dict(uar=True, runs=[R("big.cpp", "asan", 3000, 60000), R("big.cpp", "opt", 9000, 240000), R("vec.cpp", "asan", 30000, 600000, flags=("-DNO_V02",), parts=6), R("vec.cpp", "opt", 150000, 3000000, flags=("-DNO_V02",), parts=6), R("vec.cpp", "asan_verbose", 4000, 80000, flags=("-DNO_V02",), parts=6)],
                rule="a case is one random history of up to 120 operations within the capacity of one device vector (six element types, two with registered lifetimes), compared "
                     "through every access path after every operation; non-trivial if the capacity exceeds one",
                need={"big_changes": 50000, "operations": 300000, "comparisons": 300000, "large_tracked": 5, "objects_made": 100000}),
    "V02": dict(uar=True, runs=[R("vec.cpp", "asan", 30000, 600000, flags=("-DNO_V01",), parts=7), R("vec.cpp", "opt", 150000, 3000000, flags=("-DNO_V01",), parts=7)],
                rule="a case is one random history over up to four static vectors of one type and capacity, compared with standard vectors after every operation; non-trivial if the "
                     "capacity is not zero",
                need={"operations": 300000, "comparisons": 300000, "constructions": 10000, "copy_assignments": 5000, "objects_made": 100000}),
    "V03": dict(uar=True, runs=[R("arr.cpp", "asan", 30000, 600000, flags=("-DNO_V06",), parts=6), R("arr.cpp", "opt", 150000, 3200000, flags=("-DNO_V06",), parts=6)],
                rule="a case is one array (host, static or view-backed; six element types; several lengths) with a random sequence of fills, writes and copies, compared through every "
                     "access path after each; non-trivial if it made more than three steps",
                need={"comparisons": 200000, "writes": 100000, "compared_arrays": 5000, "own_equality": 100000}),
    "V04": dict(uar=True, runs=[R("big.cpp", "asan", 3000, 60000), R("big.cpp", "opt", 9000, 240000), R("view.cpp", "asan", 30000, 900000, flags=("-DNO_V05", "-DNO_V07")), R("view.cpp", "opt", 150000, 6000000, flags=("-DNO_V05", "-DNO_V07"))],
                rule="a case is one random walk of one kind of iterator over one container, every position compared with an index; every case is distinct in contents and walk",
                need={"big_steps": 100000, "iterator_steps": 1000000}),
    "V05": dict(uar=True, runs=[R("big.cpp", "asan", 3000, 60000), R("big.cpp", "opt", 9000, 240000), R("view.cpp", "asan", 15000, 450000, flags=("-DNO_V04", "-DNO_V07")), R("view.cpp", "opt", 75000, 2400000, flags=("-DNO_V04", "-DNO_V07"))],
                rule="a case is one random shape (rows in one block or scattered, fixed or resizable, on hand-made views, host vectors or buffers) with a random sequence of row and "
                     "element changes, compared row by row after each; non-trivial if it made more than five steps",
                need={"big_rows_read": 10000, "big_changes": 20000, "comparisons": 200000, "row_changes": 50000, "writes": 50000, "from_containers": 3000}),
    "V06": dict(uar=True, runs=[R("arr.cpp", "asan", 30000, 800000, flags=("-DNO_V03",)), R("arr.cpp", "opt", 300000, 8000000, flags=("-DNO_V03",))],
                rule="a case is one of twelve type lists (or a set of conversions between lists) with random values, taken through every way of building, converting, copying, moving and "
                     "writing; every case is distinct in values",
                need={"tuples_checked": 500000, "concatenations": 10000, "conversions": 5000, "writes": 100000}),
    "V07": dict(uar=True, runs=[R("big.cpp", "asan", 3000, 60000), R("big.cpp", "opt", 9000, 240000), R("view.cpp", "asan", 15000, 450000, flags=("-DNO_V04", "-DNO_V05")), R("view.cpp", "opt", 90000, 3000000, flags=("-DNO_V04", "-DNO_V05"))],
                rule="a case is a set of containers of random shapes and the views made from them, all compared with the containers' addresses and all pairs of views compared with "
                     "each other; every case is distinct in shapes and contents",
                need={"big_views": 5000, "views_checked": 1000000, "jagged_views_checked": 20000, "equal_pairs": 50000, "different_pairs": 300000}),
    "B01": dict(runs=[R("buffer.cpp", "asan", 96000, 1500000, flags=("-DNO_B02", "-DNO_B03",), parts=4), R("buffer.cpp", "opt", 480000, 9000000, flags=("-DNO_B02", "-DNO_B03",), parts=4)],
                rule="a case is one set of buffers of random capacities, kinds and element types (alignments 1 to 256); every piece of memory they describe is checked against the "
                     "upstreams' books and each other, then filled; non-trivial if it has rows",
                need={"buffers": 8000, "jagged_buffers": 5000, "pieces": 100000, "from_views": 1000}),
    "B02": dict(runs=[R("buffer.cpp", "asan", 96000, 1500000, flags=("-DNO_B01", "-DNO_B03",), parts=5), R("buffer.cpp", "opt", 480000, 9000000, flags=("-DNO_B01", "-DNO_B03",), parts=5)],
                rule="a case is one structure-of-arrays buffer of one of nine schemas with random capacities and kind, checked like B01; non-trivial if it is not empty",
                need={"soa_buffers": 10000, "pieces": 100000, "regions": 40000}),
    "B03": dict(runs=[R("buffer.cpp", "asan", 48000, 900000, flags=("-DNO_B01", "-DNO_B02",)), R("buffer.cpp", "opt", 240000, 4800000, flags=("-DNO_B01", "-DNO_B02",))],
                rule="a case is one random history of creations (some failing), moves and destructions of eight kinds of owners over monitored upstreams; non-trivial if over 15 steps",
                need={"creations": 30000, "failed_creations": 1000, "moves": 10000, "owners_checked": 50000}),
    "B04": dict(runs=[R("kernel.cpp", "asan", 12000, 360000, parts=6), R("kernel.cpp", "opt", 60000, 2400000, parts=6)],
                technique="runtime monitoring: code on copied views runs with all host-side memory of the buffer made inaccessible, and host code with the device memory made inaccessible, against a model of every element",
                rule="a case is one buffer in simulated device memory (vector, jagged vector, or structure of arrays), with rounds of copies in, moves, changes and reads through device containers, "
                     "views and proxies while host-side memory can not be touched, and copies back; non-trivial if the capacity is not zero",
                need={"kernels": 50000, "row_changes": 150000, "rows_read": 500000, "copies_back": 50000, "soa_cases": 10000}),
    "K01": dict(uar=True, runs=[R("giant.cpp", "asan", 1500, 60000), R("giant.cpp", "opt", 6000, 250000), R("copy.cpp", "asan", 24000, 750000, parts=5), R("copy.cpp", "opt", 120000, 4500000, parts=5), R("copy.cpp", "asan_verbose", 6000, 150000, parts=5)],
                rule="a case is one random history of copies, set-ups, fills and size queries between up to eight flat containers (host vectors, fixed and resizable buffers) of "
                     "one element type; every byte of all memory involved is compared with a model after every operation; every case is distinct in shapes and contents",
                need={"giant_transfers": 500, "flat_copies": 30000, "refused_copies": 5000, "empty_into_resizable": 4000, "copies_made": 8000, "vectors_filled": 8000, "resizable_to_resizable": 4000,
                      "fixed_to_resizable": 4000, "resizable_to_fixed": 4000, "snapshots_compared": 100000}),
    "K02": dict(uar=True, runs=[R("giant.cpp", "asan", 1500, 60000), R("giant.cpp", "opt", 6000, 250000), R("copy.cpp", "asan", 24000, 750000, parts=5), R("copy.cpp", "opt", 120000, 4500000, parts=5)],
                rule="as K01 with jagged containers (contiguous or scattered rows, fixed or resizable, equal, permuted or larger capacities)",
                need={"giant_transfers": 500, "jagged_copies": 30000, "refused_copies": 5000, "jagged_vectors_filled": 8000, "sizes_set": 8000, "copies_made": 8000, "resizable_to_resizable": 3000,
                      "fixed_to_resizable": 3000, "resizable_to_fixed": 3000}),
    "K03": dict(uar=True, runs=[R("giant.cpp", "asan", 1500, 60000), R("giant.cpp", "opt", 6000, 250000), R("soacopy.cpp", "asan", 24000, 750000, parts=4), R("soacopy.cpp", "opt", 120000, 4500000, parts=4)],
                rule="a case is one random history of copies, set-ups, fills and size queries between containers of one of nine schemas and of equal, permuted, larger or other shapes; "
                     "every byte of all memory involved is compared with a model after every operation",
                need={"giant_transfers": 500, "soa_copies": 50000, "other_shape_copies": 5000, "other_shape_same_bytes": 500, "host_containers_filled": 20000, "refused_copies": 10000,
                      "resizable_to_resizable": 5000, "fixed_to_resizable": 5000, "resizable_to_fixed": 5000}),
    "K04": dict(uar=True, runs=[R("giant.cpp", "asan", 1500, 60000), R("giant.cpp", "opt", 6000, 250000), R("copy.cpp", "asan", 18000, 600000, parts=5), R("copy.cpp", "opt", 90000, 3000000, parts=5), R("soacopy.cpp", "asan", 18000, 600000, parts=4), R("soacopy.cpp", "opt", 90000, 3000000, parts=4)],
                technique="runtime monitoring: simulated device memory that faults on any direct access, plus a monitor on every low-level transfer (bounds, direction label) and a byte-exact model",
                rule="as K01 to K03, with most containers in memory that the process can not access except through the transfer operations; each transfer's bounds and label are checked",
                need={"giant_transfers": 500, "transfers": 300000, "fills": 50000, "jagged_copies": 10000, "flat_copies": 10000, "soa_copies": 20000, "host_containers_filled": 10000}),
    "K05": dict(uar=True, runs=[R("copy.cpp", "asan", 5000, 100000, parts=5), R("copy.cpp", "opt", 40000, 800000, parts=5), R("soacopy.cpp", "asan", 5000, 100000, parts=4), R("soacopy.cpp", "opt", 40000, 800000, parts=4)],
                technique="runtime monitoring: a back end that queues all transfers until an event is waited for, checking on execution that the memory they use is alive and unchanged, plus a "
                          "byte-exact model and AddressSanitizer with stack-use-after-return",
                rule="as K01 to K03, with transfers executed only when (randomly late, in random order of events) an event is waited for, or spontaneously early; each history is first run with an "
                     "immediate back end",
                need={"deferred": 200000, "queued_together": 100000, "waits": 100000, "jagged_copies": 10000, "flat_copies": 10000, "soa_copies": 20000}),
    "K06": dict(uar=True, runs=[R("giant.cpp", "asan", 1500, 60000), R("giant.cpp", "opt", 6000, 250000), R("copy.cpp", "asan", 18000, 600000, parts=5), R("copy.cpp", "opt", 90000, 3000000, parts=5), R("soacopy.cpp", "asan", 18000, 600000, parts=4), R("soacopy.cpp", "opt", 90000, 3000000, parts=4)],
                rule="as K01 to K03 with mostly set-ups and fills (all byte values), comparing all memory involved with a model after each",
                need={"giant_transfers": 500, "fills_done": 100000, "setups": 50000, "fills_of_nothing": 10000}),
    "E01": dict(uar=True, runs=[R("edm.cpp", "asan", 16000, 250000, flags=("-DNO_E02",), parts=8), R("edm.cpp", "opt", 120000, 2000000, flags=("-DNO_E02",), parts=8)],
                rule="a case is one random history of resizes, reserves, edits of single variables, element writes, copies and failing allocations on up to four host containers of one of "
                     "eight schemas, compared with a model along random access paths after every step; non-trivial if over ten steps",
                need={"comparisons": 1000000, "resizes": 50000, "reserves": 20000, "inconsistent_sizes": 5000, "out_of_range": 20000, "writes": 50000, "failed_resizes": 1000}),
    "E02": dict(uar=True, runs=[R("big.cpp", "asan", 3000, 60000), R("big.cpp", "opt", 9000, 240000), R("edm.cpp", "asan", 16000, 250000, flags=("-DNO_E01",), parts=8), R("edm.cpp", "opt", 120000, 2000000, flags=("-DNO_E01",), parts=8)],
                rule="a case is one structure of arrays of one of eight schemas (host container, fixed or resizable buffer, view of single variables) with several device containers on it and a "
                     "random sequence of writes through containers and proxies, compared through memory, host, device and constant containers after each; non-trivial if over eight steps",
                need={"big_comparisons": 50000, "comparisons": 2000000, "writes": 200000, "host_writes": 50000, "row_changes": 5000, "appends": 2000, "over_host": 10000, "over_buffers": 20000}),
    "C04": dict(runs=[A(1, "asan", 1600, 32000), A(2, "asan", 1000, 20000), A(2, "opt", 2800, 80000), A(3, "opt", 2800, 80000), A(4, "asan", 1000, 20000), A(4, "opt", 2800, 80000),
                      A(5, "asan", 600, 12000), A(5, "opt", 2000, 60000)],
                technique="runtime monitoring: the back ends' atomic references compiled for the host over emulated device functions; sequential model, linearizability search over recorded "
                          "concurrent histories and conservation oracles",
                rule="a case is one random sequential history against a wrap-around model, or one batch of concurrent histories searched for a linearization, or one contended run with a "
                     "conservation law; concurrent histories count once per distinct observed outcome",
                need={"sequential_ops": 20000, "histories_checked": 5000, "overlapping_pairs": 5000, "contended_ops": 500000, "cases_no_threads": 300, "cases_cuda": 700, "cases_hip": 500,
                      "cases_sycl_1_2": 700, "cases_sycl_2020": 500}, assume=EMU),
    "D01": dict(runs=[B("asan", 16000, 800000), B("asan_verbose", 3000, 150000), B("opt", 160000, 12000000)], assume=EMU,
                rule="a case is one random history of requests, failing requests, releases (also to equal resources, from other threads and with other current devices) and comparisons on up "
                     "to twelve resources of all nine kinds; non-trivial if over 20 steps",
                need={"blocks": 100000, "failed_requests": 20000, "cross_releases": 4000, "other_threads": 10000, "giant_blocks": 20000, "equal_pairs": 20000, "unequal_pairs": 30000}),
    "D02": dict(runs=[B("asan", 36000, 2000000), B("asan_verbose", 6000, 300000), B("opt", 240000, 20000000), B("opt", 120000, 10000000, defs=MS)], assume=EMU,
                rule="a case is one random history of copies, set-ups, fills and size queries between flat and jagged containers in memory of all kinds of one back end (cuda::copy, "
                     "hip::copy or sycl::copy), compared with a model after every operation; non-trivial if over ten steps",
                need={"copies": 100000, "comparisons": 1000000, "device_to_device": 1000, "fills": 30000, "injected_failures": 3000, "reads": 20000, "sizes": 20000, "giant_transfers": 5000}),
    "D03": dict(runs=[B("asan", 36000, 2000000), B("opt", 240000, 20000000), B("asan", 24000, 1600000, defs=MS), B("opt", 120000, 10000000, defs=MS)], assume=EMU,
                technique="runtime monitoring: the back ends' asynchronous copies on an emulated runtime that runs work late, in any allowed order, and keeps the books of streams, queues, "
                          "events and memory, against a byte-exact model",
                rule="as D02 with cuda::async_copy and sycl::async_copy (in-order and out-of-order queues, own and user's streams), whose events are waited for, dropped, ignored and waited for "
                     "again in random order; what an event covers is compared once it was waited for",
                need={"copies": 100000, "checked_after_wait": 200000, "waits": 100000, "dropped": 30000, "ignored": 10000, "not_waited": 5000, "injected_failures": 1000, "failed_waits": 50, "giant_transfers": 5000}),
    "D04": dict(runs=[B("asan", 36000, 2000000), B("opt", 400000, 20000000)], assume=EMU,
                rule="a case is one random history of creations (some failing), copies, moves, assignments and destructions of up to six stream or queue wrappers and copy objects on them, with the "
                     "runtime's book of live streams and queues compared after every step; non-trivial if over 20 steps",
                need={"created": 100000, "copied": 20000, "assigned": 50000, "copy_objects": 20000, "synchronized": 10000, "comparisons": 500000}),
}

LEVEL = {
    "technique": "runtime monitoring: seeded random histories against an executable model, with address, undefined-behaviour (and where threads run, thread) sanitizers",
    "note": "exploration of executions produced by the workload; no claim about executions not driven",
}
NOT_APPLICABLE = {}
