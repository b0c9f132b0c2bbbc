// M01-M06, M12, M13: allocation guarantees of the memory resources.
#include "stack.hpp"

#include <vecmem/memory/allocator.hpp>
#include <vecmem/memory/unique_ptr.hpp>

using namespace vm;

namespace {

struct LeakCheck {
    // The blocks that clients still held when their resource went away; what
    // such blocks live in may stay with the client.
    std::vector<std::pair<char*, std::size_t>> held;
    void note(Client& c) {
        for (char* p : c.order) held.push_back({p, live_blocks()[p].size});
    }
    void check(Stack& s) {
        for (auto& u : s.ups)
            for (auto& [p, r] : u->live) {
                bool ok = false;
                for (auto& [q, n] : held)
                    if (q < p + r.size && p < q + n) ok = true;
                if (!ok) {
                    expect(false, "M03", "[%s] block of size %zu align %zu never returned upstream (stack %s)", u->name.c_str(), r.size, r.align,
                           s.desc.c_str());
                    return;
                }
            }
    }
};

struct WorkloadOptions {
    unsigned min_ops = 40, max_ops = 260;
    bool big_align = false;
    bool moves = true;
    unsigned free_permille = 430;
};

void random_ops(Rng& rng, Stack& s, Client& c, unsigned n, const WorkloadOptions& o) {
    unsigned free_p = rng.pick({350u, 450u, 480u, 520u});
    std::size_t favourite = s.giant ? giant_size(rng) : random_size(rng);
    std::size_t total = 0;
    for (char* p : c.order) total += live_blocks()[p].size;
    for (unsigned i = 0; i < n; ++i) {
        unsigned r = unsigned(rng.below(1000));
        if (r < free_p && !c.order.empty()) {
            std::size_t k = rng.chance(400) ? c.order.size() - 1 : rng.below(c.order.size());
            total -= live_blocks()[c.order[k]].size;
            c.release_at(k);
        } else if (r < 960) {
            std::size_t sz = rng.chance(250) ? favourite : s.giant ? giant_size(rng) : random_size(rng);
            if (rng.chance(10)) sz = 0;
            if (total + sz > (s.giant ? std::size_t(1) << 39 : std::size_t(6) << 20)) sz = rng.range(1, 64);
            std::size_t al = o.big_align ? random_align(rng) : (rng.chance(700) ? 16 : random_align(rng));
            al = std::min(al, s.top.cap);  // more is not promised by this stack
            bool failed = false;
            if (c.allocate(sz, al, &failed)) total += sz;
            if (failed) {
                if (s.top.refuses)
                    count("refused");
                else {
                    expect(false, "M05", "request for %zu bytes refused although the upstream can serve it (stack %s)", sz, s.desc.c_str());
                    expect(false, "M04", "request for %zu bytes refused although the upstream can serve it (stack %s)", sz, s.desc.c_str());
                }
            }
        } else if (r < 985) {
            if (!c.order.empty()) c.verify(c.order[rng.below(c.order.size())]);
        } else if (o.moves && s.top_node) {
            if (s.top_node->move_construct()) {
                trace("move construct top");
                c.mr = s.top_node->get();
                s.top.mr = c.mr;
                count("moves");
            }
        }
    }
    c.verify_all();
}

void finish(Rng& rng, Stack& s, Client& c) {
    LeakCheck lk;
    bool held = rng.chance(200);
    if (!held) {
        c.release_all(rng, int(rng.below(3)));
    } else {
        c.verify_all();
        count("destroyed_with_live_blocks");
    }
    lk.note(c);
    trace("destroy (%zu blocks live)", c.order.size());
    c.forget();
    s.destroy_resources(held);
    lk.check(s);
    for (auto& u : s.ups) count("upstream_calls", u->calls);
}

void generic_case(Rng& rng, const WorkloadOptions& o, int force = -1) {
    Stack s;
    s.giant = rng.chance(60);
    if (s.giant) count("giant_cases");
    int depth = rng.chance(550) ? 1 : rng.chance(700) ? 2 : 3;
    s.make(rng, depth, (1u << NKINDS) - 1, true, force);
    Client c(*s.top.mr);
    c.write = !s.giant;
    c.align_cap = s.top.cap;
    if (s.top.tracked) c.ups = s.up_ptrs();
    unsigned n = unsigned(rng.range(o.min_ops, o.max_ops));
    if (o.moves && s.top_node && rng.chance(120)) {
        // Move assignment from a second resource of the same kind, which may
        // have blocks of its own in use.
        Stack t;
        t.giant = s.giant;
        int k = -1;
        for (int i = 0; i < NKINDS; ++i)
            if (s.desc.rfind(std::string(kind_name(i)) + "(", 0) == 0) k = i;
        if (k >= 0 && k != IDENT) {
            random_ops(rng, s, c, n / 2, o);
            t.make(rng, depth, (1u << NKINDS) - 1, true, k);
            Client d(*t.top.mr);
            d.write = !t.giant;
            d.align_cap = t.top.cap;
            if (t.top.tracked) d.ups = t.up_ptrs();
            random_ops(rng, t, d, n / 2, o);
            bool held = rng.chance(300);
            LeakCheck lk;
            if (!held) c.release_all(rng, 2);
            c.verify_all();
            lk.note(c);
            c.forget();
            for (auto& u : s.ups) u->clients_ended = held;
            trace("move assign top");
            bool same = typeid(*s.top_node) == typeid(*t.top_node) && s.top_node->move_assign(*t.top_node);
            if (same) {
                count("move_assigns");
                // The old contents must be gone from what only the old
                // resource used; the assigned one serves the other's clients.
                if (k != SYNC && k != DEBUG && k != INSTR && depth == 1) lk.check(s);
                d.mr = s.top_node->get();
                random_ops(rng, t, d, n / 4, WorkloadOptions{o.min_ops, o.max_ops, o.big_align, false, o.free_permille});
                d.release_all(rng, 2);
                if (rng.chance(500)) {
                    t.nodes.back()->destroy();  // the moved-from shell first
                    t.nodes.pop_back();
                }
                s.destroy_resources(false);
                t.destroy_resources(false);
                LeakCheck none;
                none.check(t);
                lk.check(s);
                st().nontrivial = true;
                return;
            }
            d.release_all(rng, 2);
            t.destroy_resources(false);
            s.destroy_resources(held);
            return;
        }
    }
    random_ops(rng, s, c, n, o);
    finish(rng, s, c);
    count(std::string("stack:") + s.desc.substr(0, s.desc.find('(')));
    if (st().ops > 40) st().nontrivial = true;
}

}  // namespace

VM_PROP(M01) {
    WorkloadOptions o;
    o.max_ops = st().thorough ? 800 : 260;
    generic_case(rng, o, int(st().case_no % 3) == 0 ? int((st().case_no / 3) % 4) : -1);
}

VM_PROP(M02) {
    WorkloadOptions o;
    o.big_align = true;
    o.max_ops = st().thorough ? 500 : 200;
    // Mostly resources that promise extended alignment.
    static const int kinds[] = {POOL, CONTIG, POOL, IDENT, CHOICE, CONTIG, COAL, ARENA, BINARY, DEBUG};
    if (st().case_no % 10 == 9) {
        // The plain host resource itself.
        vecmem::host_memory_resource h;
        Client c(h);
        for (int i = 0; i < 150; ++i) {
            c.allocate(rng.range(1, 3000), std::size_t(1) << rng.range(0, 16));
            if (c.order.size() > 40) c.release_at(rng.below(c.order.size()));
        }
        c.release_all(rng, 2);
        st().nontrivial = true;
        return;
    }
    generic_case(rng, o, kinds[st().case_no % 10]);
}

VM_PROP(M03) {
    WorkloadOptions o;
    o.max_ops = st().thorough ? 700 : 220;
    generic_case(rng, o, int(st().case_no % 3) != 2 ? int((st().case_no / 3) % 4) : -1);
}

// ---------------------------------------------------------------------------
namespace {
struct SeqOp {
    bool alloc;
    std::size_t size, align;
    std::size_t slot;  // which block of this round is released
};
std::vector<SeqOp> balanced(Rng& rng, std::size_t maxsize, bool any_align, unsigned shape) {
    std::vector<SeqOp> v;
    unsigned blocks = unsigned(rng.range(1, shape == 0 ? 2 : 24));
    std::vector<std::size_t> live;
    std::size_t made = 0, total = 0;
    std::vector<std::size_t> palette;
    const bool giant = maxsize >> 32;
    auto size = [&] { return giant ? giant_size(rng) : 1 + random_size(rng) % maxsize; };
    for (int i = 0; i < 4; ++i) palette.push_back(size());
    while (made < blocks || !live.empty()) {
        bool al = made < blocks && (live.empty() || rng.chance(shape == 2 ? 900 : 550));
        if (al) {
            std::size_t sz = rng.chance(500) ? palette[rng.below(4)] : size();
            if (total + sz > (giant ? std::size_t(1) << 38 : std::size_t(3) << 20)) sz = rng.range(1, 300);
            total += sz;
            std::size_t a = any_align ? std::size_t(1) << rng.range(0, 8) : std::size_t(1) << rng.range(0, 4);
            v.push_back({true, sz, a, 0});
            live.push_back(made++);
        } else {
            std::size_t k = rng.below(live.size());
            v.push_back({false, 0, 0, live[k]});
            live.erase(live.begin() + long(k));
        }
    }
    return v;
}
}  // namespace

VM_PROP(M04) {
    const bool giant = rng.chance(40);
    if (giant) count("giant_cases");
    Upstream up(rng.next(), giant ? Upstream::VIRTUAL : Upstream::Mode(rng.below(4)));
    up.keep_events = false;
    up.fill = false;
    std::unique_ptr<vecmem::memory_resource> mr;
    int kind = int(st().case_no % 3);
    std::size_t maxsize = 300000;
    bool strict = false;
    if (kind == 0) {
        std::size_t init = rng.pick({std::size_t(512), std::size_t(1000), std::size_t(4096), std::size_t(20000), std::size_t(1) << 18, std::size_t(1) << 20});
        trace("arena %zu", init);
        mr = std::make_unique<vecmem::arena_memory_resource>(up, init, std::size_t(1) << 40);
        maxsize = rng.pick({std::size_t(200), std::size_t(5000), std::size_t(50000), std::size_t(700000)});
    } else if (kind == 1) {
        trace("binary page");
        mr = std::make_unique<vecmem::binary_page_memory_resource>(up);
        maxsize = rng.pick({std::size_t(256), std::size_t(5000), std::size_t(100000), std::size_t(1500000)});
    } else {
        auto o = random_pool_options(rng, true, giant);
        trace("pool %zu..%zu/%zu min %zu max %zu bytes %zu..%zu cache %d cut %zu/%zu", o.smallest_block_size, o.largest_block_size, o.alignment, o.min_blocks_per_chunk,
              o.max_blocks_per_chunk, o.min_bytes_per_chunk, o.max_bytes_per_chunk, int(o.cache_oversized), o.cached_size_cutoff_factor,
              o.cached_alignment_cutoff_factor);
        // A size cut-off of one rules out exact reuse by configuration.
        if (o.cached_size_cutoff_factor < 2) o.cached_size_cutoff_factor = 2;
        if (o.cached_alignment_cutoff_factor < 2) o.cached_alignment_cutoff_factor = 2;
        maxsize = o.largest_block_size * rng.pick({1, 1, 4});
        mr = std::make_unique<vecmem::pool_memory_resource>(up, o);
        strict = true;
    }
    if (giant) maxsize = std::size_t(1) << 35;
    unsigned shape = unsigned(rng.below(3));
    auto seq = balanced(rng, maxsize, kind == 2, shape);
    for (auto& o : seq) trace("%s %zu/%zu #%zu", o.alloc ? "allocate" : "release", o.size, o.align, o.slot);
    std::vector<char*> ptr;
    std::vector<std::pair<std::size_t, std::size_t>> arg;
    auto round = [&]() {
        ptr.clear();
        arg.clear();
        for (auto& o : seq) {
            if (o.alloc) {
                ptr.push_back(launder_null(static_cast<char*>(mr->allocate(o.size, o.align))));
                arg.push_back({o.size, o.align});
            } else
                mr->deallocate(ptr[o.slot], arg[o.slot].first, arg[o.slot].second);
        }
        tick();
    };
    // Enough repetitions that a lost block per round must show, even when the
    // resource takes memory in large chunks.
    u64 warm = 40, total = st().thorough ? 3000 : (kind == 1 ? 600 : 500);
    if (strict && shape == 0) warm = 1;
    u64 last_growth = 0, growths = 0;
    std::size_t peak = 0;
    for (u64 r = 0; r < total; ++r) {
        round();
        if (up.peak > peak) {
            peak = up.peak;
            last_growth = r;
            if (r >= warm) ++growths;
        }
        if (shape == 0 && r == 0 && seq.size() == 2) warm = 1;  // one block over and over
    }
    count("rounds", total);
    count("last_growth_round_sum", last_growth);
    if (growths > 0) {
        // Does it go on? Bounded growth is allowed, unbounded is not.
        u64 more = 0;
        for (u64 r = 0; r < 4 * total; ++r) {
            round();
            if (up.peak > peak) {
                peak = up.peak;
                ++more;
            }
        }
        expect(!(seq.size() == 2), "M04", "allocating and releasing one block of %zu bytes takes more upstream memory after the first round (growth in %llu rounds)",
               seq[0].size, (unsigned long long)(growths + more));
        expect(more == 0, "M04", "repeating a balanced sequence keeps taking upstream memory: still growing after %llu rounds (outstanding %zu bytes)",
               (unsigned long long)total, up.outstanding);
        count("late_but_bounded_growth");
    }
    if (kind != 2) {
        // With everything returned, all that is held from upstream is there to
        // be given out again, in pieces as large as it was taken.
        for (int turn = 0; turn < 4; ++turn) {
            std::vector<std::size_t> sizes;
            for (auto& [p, r] : up.live) {
                std::size_t n = r.size;
                if (kind == 0) n &= ~std::size_t(255);
                if (n > 0) sizes.push_back(n);
            }
            std::sort(sizes.rbegin(), sizes.rend());
            u64 before = up.allocs;
            std::vector<std::pair<void*, std::size_t>> got;
            for (std::size_t n : sizes) {
                trace("allocate %zu", n);
                void* p = mr->allocate(n, 16);
                expect(up.allocs == before, "M04", "with every block returned, a request of %zu bytes takes more memory from upstream, although a block of that size is held from it",
                       n);
                got.push_back({p, n});
            }
            while (!got.empty()) {
                std::size_t k = rng.below(got.size());
                mr->deallocate(got[k].first, got[k].second, 16);
                got.erase(got.begin() + long(k));
            }
            count("whole_again", sizes.size());
            seq = balanced(rng, maxsize, false, unsigned(rng.below(3)));
            round();
        }
    }
    mr.reset();
    st().nontrivial = true;
}

// ---------------------------------------------------------------------------
namespace {
// An arena with a maximum: what could not be had from upstream must not count.
void limited_arena(Rng& rng) {
    Upstream up(rng.next(), Upstream::Mode(rng.below(4)));
    std::size_t init = rng.pick({std::size_t(256), std::size_t(4096), std::size_t(1) << 18});
    std::size_t max = init + (std::size_t(rng.range(1, 40)) << rng.range(12, 17));
    max &= ~std::size_t(255);
    trace("arena %zu, at most %zu", init, max);
    vecmem::arena_memory_resource mr(up, init, max);
    unsigned rate = unsigned(rng.range(100, 700));
    bool on = true;
    u64 injected = 0;
    up.fail_when = [&](std::size_t, std::size_t) {
        bool f = on && rng.chance(rate);
        injected += f;
        return f;
    };
    std::vector<std::pair<void*, std::size_t>> live;
    u64 n = rng.range(10, 80);
    auto attempt = [&](std::size_t sz) {
        u64 before = injected;
        try {
            void* p = mr.allocate(sz, 16);
            live.push_back({p, sz});
            trace("allocate %zu", sz);
        } catch (std::bad_alloc&) {
            count("failed_requests");
            std::size_t left = max > up.outstanding ? max - up.outstanding : 0;
            trace("allocate %zu failed (%s), %zu of %zu taken", sz, injected != before ? "upstream" : "arena", up.outstanding, max);
            expect(injected != before || ((sz + 255) & ~std::size_t(255)) > left, "M05",
                   "request for %zu bytes refused although only %zu of at most %zu bytes have been taken from upstream", sz, up.outstanding, max);
        }
        expect(up.outstanding <= std::max(max, init), "M05", "an arena of at most %zu bytes holds %zu", max, up.outstanding);
    };
    for (u64 i = 0; i < n; ++i) {
        if (!live.empty() && rng.chance(400)) {
            std::size_t k = rng.below(live.size());
            mr.deallocate(live[k].first, live[k].second, 16);
            live.erase(live.begin() + long(k));
            continue;
        }
        std::size_t sz = rng.chance(500) ? rng.range(1, max) : random_size(rng);
        // what is left, exactly or almost
        if (rng.chance(200) && max > up.outstanding) sz = max - up.outstanding - (rng.chance(500) ? 0 : rng.below(256)) + (rng.chance(100) ? 1 : 0);
        u64 had = live.size();
        attempt(sz);
        if (live.size() == had && rng.chance(500)) {
            on = false;
            attempt(sz);
            on = true;
            count("retries");
        }
    }
    for (auto& [p, sz] : live) mr.deallocate(p, sz, 16);
    count("injected_failures", injected);
    count("limited_arenas");
    st().nontrivial = injected > 0;
}
}  // namespace

VM_PROP(M05, "M01", "M02", "M03") {
    if (rng.chance(100)) return limited_arena(rng);
    // The same history with a failure at the k-th upstream call, or in bursts.
    Stack s;
    s.giant = rng.chance(60);
    if (s.giant) count("giant_cases");
    int force = int(st().case_no % 4);
    if (st().case_no % 5 == 4) force = -1;
    s.make(rng, rng.chance(700) ? 1 : 2, (1u << NKINDS) - 1, false, force);
    Client c(*s.top.mr);
    c.write = !s.giant;
    c.align_cap = s.top.cap;
    c.ups = s.up_ptrs();
    u64 plan = rng.below(4);
    u64 k = rng.range(1, 12), burst = rng.range(1, 4), seen = 0, injected = 0;
    u64 rate = rng.range(50, 500);
    bool on = true;
    Rng frng(rng.next());
    for (auto& u : s.ups)
        u->fail_when = [&](std::size_t, std::size_t) {
            if (!on) return false;
            ++seen;
            bool f = plan == 0 ? seen == k : plan == 1 ? (seen >= k && seen < k + burst) : plan == 2 ? (seen % k == 0) : frng.chance(unsigned(rate));
            injected += f;
            return f;
        };
    unsigned n = unsigned(rng.range(30, st().thorough ? 400 : 160));
    for (unsigned i = 0; i < n; ++i) {
        if (rng.chance(400) && !c.order.empty()) {
            c.release_at(rng.below(c.order.size()));
            continue;
        }
        std::size_t sz = s.giant && c.order.size() < 40 ? giant_size(rng) : random_size(rng), al = std::min(s.top.cap, rng.chance(700) ? 16 : random_align(rng));
        u64 before = injected;
        bool failed = false;
        c.allocate(sz, al, &failed);
        if (failed) {
            count("failed_requests");
            if (injected == before && !s.top.refuses)
                expect(false, "M05", "request for %zu bytes refused without any upstream failure (stack %s)", sz, s.desc.c_str());
            if (rng.chance(300)) c.verify_all();
            if (rng.chance(600)) {
                // The upstream recovers: the same request must succeed now.
                on = false;
                bool again = false;
                c.allocate(sz, al, &again);
                on = true;
                if (again && !s.top.refuses)
                    expect(false, "M05", "repeated request for %zu bytes still refused although the upstream can serve it (stack %s)", sz, s.desc.c_str());
                count("retries");
            }
        }
    }
    on = false;
    c.verify_all();
    count("injected_failures", injected);
    if (injected) st().nontrivial = true;
    finish(rng, s, c);
}

// ---------------------------------------------------------------------------
namespace {
struct Big {
    char c[4096];
};
struct Odd {
    char c[24];
};
template <typename F>
void must_throw(const char* what, F&& f) {
    bool threw = false;
    try {
        f();
    } catch (std::bad_alloc&) {
        threw = true;
    }
    count("extreme_requests");
    expect(threw, "M06", "%s did not fail with an out-of-memory error", what);
}
}  // namespace

VM_PROP(M06) {
    const std::size_t top = ~std::size_t(0);
    Upstream::Mode mode = Upstream::Mode(rng.below(4));
    Upstream up(rng.next(), mode);
    up.limit = std::size_t(1) << 24;
    vecmem::host_memory_resource host;
    int kind = int(st().case_no % 10);
    std::unique_ptr<vecmem::memory_resource> inner, mr;
    bool tracked = true, refuses = false;
    std::size_t cap = 1 << 20;
    const char* name = "";
    switch (kind) {
        case 0: name = "host"; mr = std::make_unique<vecmem::identity_memory_resource>(host); tracked = false; break;
        case 1: name = "arena"; mr = std::make_unique<vecmem::arena_memory_resource>(up, rng.pick({std::size_t(1000), std::size_t(4096), std::size_t(1) << 19}), std::size_t(1) << 40); cap = 16; break;
        case 2: name = "binary"; mr = std::make_unique<vecmem::binary_page_memory_resource>(up); cap = 16; break;
        case 3: name = "pool"; mr = std::make_unique<vecmem::pool_memory_resource>(up, random_pool_options(rng)); break;
        case 4: name = "contig"; mr = std::make_unique<vecmem::contiguous_memory_resource>(up, rng.range(100000, 200000)); refuses = true; break;
        case 5: name = "debug"; mr = std::make_unique<vecmem::debug_memory_resource>(up); break;
        case 6: name = "pool(host)"; mr = std::make_unique<vecmem::pool_memory_resource>(host); tracked = false; break;
        case 7: name = "arena(host)"; mr = std::make_unique<vecmem::arena_memory_resource>(host, 1 << 16, std::size_t(1) << 40); tracked = false; cap = 16; break;
        case 8: name = "binary(host)"; mr = std::make_unique<vecmem::binary_page_memory_resource>(host); tracked = false; cap = 16; break;
        default: {
            name = "coal(arena,host)";
            inner = std::make_unique<vecmem::arena_memory_resource>(up, 4096, std::size_t(1) << 40);
            std::vector<std::reference_wrapper<vecmem::memory_resource>> v{*inner, host};
            mr = std::make_unique<vecmem::coalescing_memory_resource>(std::move(v));
            tracked = false;
            cap = 16;
        }
    }
    trace("%s", name);
    Client c(*mr);
    c.align_cap = cap;
    if (tracked) c.ups = {&up};
    for (int i = 0; i < 12; ++i) {
        // a normal request, then an impossible one
        bool failed = false;
        c.allocate(rng.chance(200) ? rng.range(1, 40000) : rng.range(1, 600), std::size_t(1) << rng.range(0, 4), &failed);
        if (failed && !refuses) expect(false, "M06", "%s: normal request refused after impossible ones", name);
        if (rng.chance(400) && !c.order.empty()) c.release_at(rng.below(c.order.size()));
        std::size_t al = rng.chance(500) ? 16 : std::size_t(1) << rng.range(0, 12);
        std::size_t n = 0;
        switch (rng.below(7)) {
            case 0: n = top - rng.below(5); break;
            case 1: n = top - rng.below(600); break;
            case 2: n = (top - al) + rng.below(al + 1); break;
            case 3: n = (std::size_t(1) << 63) + rng.below(3) - 1; break;
            case 4: n = (std::size_t(1) << rng.range(58, 63)) + rng.below(300); break;
            case 5: n = top - (rng.next() >> rng.range(1, 50)); break;
            default: n = tracked ? up.limit + 1 + rng.below(std::size_t(1) << rng.range(1, 40)) : (std::size_t(1) << 62) + (rng.next() >> 3); break;
        }
        if (!tracked && n < (std::size_t(1) << 57)) n |= std::size_t(1) << 60;
        trace("impossible %zu/%zu", n, al);
        void* p = nullptr;
        bool threw = false;
        try {
            p = launder_null(static_cast<char*>(mr->allocate(n, al)));
        } catch (std::bad_alloc&) {
            threw = true;
        }
        count("extreme_requests");
        expect(threw, "M06", "%s: request for %zu bytes (alignment %zu) returned %p", name, n, al, p);
        if (!threw) throw std::runtime_error("impossible request served");
    }
    // Element counts whose byte size wraps around.
    {
        vecmem::memory_resource& r = *mr;
        vecmem::allocator a(r);
        auto wrap = [&](std::size_t sz) {
            std::size_t k = rng.range(1, 3);
            // the smallest counts beyond k * 2^64 bytes, and huge ones
            std::size_t n = (top / sz) * 1 + 1 + rng.below(40);
            if (k == 2 && sz > 2) n = (top / sz) * 2 + 2 + rng.below(40);
            if (k == 3) n = top - rng.below(100);
            return n;
        };
        std::size_t n1 = wrap(sizeof(Odd)), n2 = wrap(sizeof(Big)), n3 = wrap(8);
        trace("counts %zu %zu %zu", n1, n2, n3);
        must_throw("make_unique_alloc<Odd[]> with a wrapping element count", [&] { auto p = vecmem::make_unique_alloc<Odd[]>(r, n1); });
        must_throw("make_unique_alloc<Big[]> with a wrapping element count", [&] { auto p = vecmem::make_unique_alloc<Big[]>(r, n2); });
        must_throw("make_unique_alloc<long[]> with a wrapping element count", [&] { auto p = vecmem::make_unique_alloc<long[]>(r, n3); });
        must_throw("make_unique_obj<Odd[]> with a wrapping element count", [&] { auto p = vecmem::make_unique_obj<Odd[]>(r, n1); });
        must_throw("make_unique_obj<long[]> with a wrapping element count", [&] { auto p = vecmem::make_unique_obj<long[]>(r, n3); });
        must_throw("allocate_object<Odd> with a wrapping element count", [&] { a.deallocate_object(a.allocate_object<Odd>(n1), n1); });
        must_throw("allocate_object<Big> with a wrapping element count", [&] { a.deallocate_object(a.allocate_object<Big>(n2), n2); });
        must_throw("allocate_bytes with an impossible size", [&] { a.deallocate_bytes(a.allocate_bytes(top - rng.below(300)), 1); });
        bool failed = false;
        c.allocate(100, 8, &failed);
        if (failed) expect(refuses, "M06", "%s: normal request refused after impossible ones", name);
    }
    // An upstream that runs out while the resource still has free memory.
    c.verify_all();
    c.release_all(rng, 2);
    st().nontrivial = true;
}

// ---------------------------------------------------------------------------
VM_PROP(M12) {
    if (st().case_no % 12 == 0) {
        // Inconsistent options.
        Upstream up(rng.next());
        for (int i = 0; i < 40; ++i) {
            auto o = random_pool_options(rng);
            const char* what = "";
            switch (rng.below(12)) {
                case 0: what = "smallest block size not a power of two"; o.smallest_block_size = 3 * (std::size_t(4) << rng.below(3)); o.largest_block_size = 1 << 20; o.max_bytes_per_chunk = std::size_t(1) << 40; o.alignment = 1; break;
                case 1: what = "largest block size not a power of two"; o.largest_block_size *= 3; o.max_bytes_per_chunk = std::size_t(1) << 40; break;
                case 2: what = "alignment not a power of two"; o.smallest_block_size = 64; o.largest_block_size = 1 << 10; o.max_bytes_per_chunk = std::size_t(1) << 40; o.alignment = rng.pick({3, 5, 6, 12, 24, 48}); break;
                case 3: what = "no bytes per chunk"; o.max_bytes_per_chunk = 0; o.min_bytes_per_chunk = 0; break;
                case 4: what = "no blocks per chunk"; o.max_blocks_per_chunk = 0; o.min_blocks_per_chunk = 0; break;
                case 5: what = "min blocks > max blocks"; o.min_blocks_per_chunk = o.max_blocks_per_chunk + rng.range(1, 5); o.max_bytes_per_chunk = std::size_t(1) << 40; break;
                case 6: what = "min bytes > max bytes"; o.min_bytes_per_chunk = o.max_bytes_per_chunk + rng.range(1, 5); o.max_blocks_per_chunk = std::size_t(1) << 30; break;
                case 7: what = "smallest > largest"; o.largest_block_size = 32; o.smallest_block_size = std::size_t(64) << rng.below(4); o.alignment = 16; o.max_bytes_per_chunk = std::size_t(1) << 40; break;
                case 8: what = "min blocks of the largest size exceed max bytes"; o.max_bytes_per_chunk = o.min_blocks_per_chunk * o.largest_block_size - 1; if (o.min_bytes_per_chunk > o.max_bytes_per_chunk) o.min_bytes_per_chunk = 0; if (o.max_bytes_per_chunk == 0) o.min_blocks_per_chunk = o.max_blocks_per_chunk = 2, o.max_bytes_per_chunk = 2 * o.largest_block_size - 1; break;
                case 9: what = "no smallest block size"; o.smallest_block_size = 0; o.alignment = rng.below(2); if (o.min_bytes_per_chunk > 0) o.min_bytes_per_chunk = 0; break;
                case 10: what = "no largest block size"; o.largest_block_size = 0; o.smallest_block_size = 0; o.alignment = 0; o.min_bytes_per_chunk = 0; break;
                default: what = "alignment > smallest block"; o.alignment = o.smallest_block_size * 2; break;
            }
            trace("options: %s", what);
            bool threw = false;
            try {
                vecmem::pool_memory_resource p(up, o);
            } catch (std::invalid_argument&) {
                threw = true;
            }
            expect(threw, "M12", "inconsistent pool options accepted: %s", what);
            count("bad_options");
        }
        expect(up.calls == 0, "M12", "upstream used although no pool was made");
        st().nontrivial = true;
        return;
    }
    const bool giant = rng.chance(60);
    if (giant) count("giant_cases");
    auto o = random_pool_options(rng, rng.chance(500), giant);
    Upstream up(rng.next(), giant ? Upstream::VIRTUAL : Upstream::Mode(rng.below(4)));
    trace("pool %zu..%zu/%zu blocks %zu..%zu bytes %zu..%zu cache %d cut %zu/%zu", o.smallest_block_size, o.largest_block_size, o.alignment, o.min_blocks_per_chunk,
          o.max_blocks_per_chunk, o.min_bytes_per_chunk, o.max_bytes_per_chunk, int(o.cache_oversized), o.cached_size_cutoff_factor,
          o.cached_alignment_cutoff_factor);
    auto pool = std::make_unique<vecmem::pool_memory_resource>(up, o);
    if (rng.chance(200)) pool = std::make_unique<vecmem::pool_memory_resource>(std::move(*pool));
    struct Blk {
        char* p;
        std::size_t size, align;
        bool over;
    };
    std::vector<Blk> live;
    std::map<char*, std::pair<std::size_t, std::size_t>> out, cached;  // oversized: upstream size/alignment
    std::size_t over_sizes[3];
    for (auto& x : over_sizes) x = o.largest_block_size + rng.range(1, 4 * o.largest_block_size + 3);
    unsigned n = unsigned(rng.range(60, st().thorough ? 600 : 220));
    for (unsigned i = 0; i < n; ++i) {
        up.events.clear();
        if (rng.chance(480) && !live.empty()) {
            std::size_t k = rng.below(live.size());
            Blk b = live[k];
            live.erase(live.begin() + long(k));
            trace("release %zu/%zu", b.size, b.align);
            pool->deallocate(b.p, b.size, b.align);
            if (b.over) {
                auto it = out.find(b.p);
                if (!o.cache_oversized) {
                    bool one = up.events.size() == 1 && !up.events[0].alloc && up.events[0].ptr == b.p;
                    expect(one, "M12", "oversized block (%zu/%zu) not returned upstream at once with caching off (%zu upstream calls)", b.size, b.align, up.events.size());
                    count("returned_at_once");
                } else if (it != out.end()) {
                    bool gone = false;
                    for (auto& e : up.events) gone = gone || (!e.alloc && e.ptr == b.p);
                    if (!gone) cached[b.p] = it->second;
                }
                if (it != out.end()) out.erase(it);
            }
            continue;
        }
        std::size_t sz, al = rng.chance(600) ? std::min<std::size_t>(16, o.alignment) : std::size_t(1) << rng.range(0, 9);
        std::size_t smallest = o.smallest_block_size;
        if (rng.chance(450)) {
            sz = over_sizes[rng.below(3)] + rng.below(3);
            if (rng.chance(300)) sz = o.largest_block_size + rng.range(1, 20 * o.largest_block_size);
            if (rng.chance(100)) sz = o.largest_block_size + 1;
        } else {
            sz = rng.range(1, o.largest_block_size);
            if (rng.chance(200)) sz = o.largest_block_size;
            if (rng.chance(200)) sz = std::size_t(1) << rng.range(0, 8);
            if (rng.chance(100)) sz = smallest;
        }
        trace("allocate %zu/%zu", sz, al);
        char* p = launder_null(static_cast<char*>(pool->allocate(sz, al)));
        std::size_t eff = std::max(sz, smallest);
        bool over = eff > o.largest_block_size || al > o.alignment;
        std::vector<UpEvent> ev;
        for (auto& e : up.events) ev.push_back(e);
        std::size_t na = 0;
        for (auto& e : ev) na += e.alloc;
        expect(na == ev.size(), "M12", "allocation of %zu/%zu made the pool return upstream memory", sz, al);
        if (over) {
            if (ev.size() == 0) {
                auto it = cached.find(p);
                if (!expect(it != cached.end(), "M12", "oversized request %zu/%zu neither forwarded upstream nor served from a cached block", sz, al)) throw std::runtime_error("x");
                auto [cs, ca] = it->second;
                expect(o.cache_oversized, "M12", "oversized request served from a cache although caching is off");
                expect(cs >= sz, "M12", "request for %zu bytes served by a cached block of %zu bytes", sz, cs);
                expect(ca >= al, "M12", "request with alignment %zu served by a cached block with alignment %zu", al, ca);
                expect(cs / eff < o.cached_size_cutoff_factor, "M12", "request for %zu bytes served by a cached block of %zu bytes, size cut-off factor %zu", eff, cs,
                       o.cached_size_cutoff_factor);
                expect(ca / al < o.cached_alignment_cutoff_factor, "M12", "request with alignment %zu served by a cached block aligned to %zu, cut-off factor %zu", al, ca,
                       o.cached_alignment_cutoff_factor);
                out[p] = it->second;
                cached.erase(it);
                count("cache_hits");
            } else {
                bool ok = ev.size() == 1 && ev[0].size >= sz && ev[0].align >= al && p == ev[0].ptr;
                expect(ok, "M12", "oversized request %zu/%zu not forwarded as one upstream request of at least that size and alignment (%zu calls, %zu/%zu)", sz, al, ev.size(),
                       ev[0].size, ev[0].align);
                out[p] = {ev[0].size, ev[0].align};
                count("forwarded_oversized");
            }
        } else {
            std::size_t bs = smallest;
            while (bs < eff) bs *= 2;
            expect(ev.size() <= 1, "M12", "pooled request %zu/%zu made %zu upstream requests", sz, al, ev.size());
            for (auto& e : ev) {
                expect(e.size >= o.min_bytes_per_chunk && e.size <= o.max_bytes_per_chunk, "M12", "chunk of %zu bytes outside the configured %zu..%zu bytes", e.size,
                       o.min_bytes_per_chunk, o.max_bytes_per_chunk);
                expect(e.size / bs >= o.min_blocks_per_chunk && e.size / bs <= o.max_blocks_per_chunk, "M12",
                       "chunk of %zu bytes holds %zu blocks of %zu bytes, configured are %zu..%zu", e.size, e.size / bs, bs, o.min_blocks_per_chunk, o.max_blocks_per_chunk);
                expect(e.align >= o.alignment, "M12", "chunk requested with alignment %zu, pool alignment is %zu", e.align, o.alignment);
                count("chunks");
            }
            expect(out.find(p) == out.end() && cached.find(p) == cached.end(), "M12", "pooled request %zu/%zu served from an oversized block", sz, al);
            count("pooled");
        }
        live.push_back({p, sz, al, over});
    }
    for (auto& b : live) pool->deallocate(b.p, b.size, b.align);
    pool.reset();
    st().nontrivial = true;
}

// ---------------------------------------------------------------------------
VM_PROP(M13) {
    std::size_t cap = rng.chance(600) ? rng.range(1, 600) : rng.range(600, 100000);
    const bool giant = rng.chance(60);
    if (giant) {
        cap = rng.chance(300) ? (std::size_t(1) << 32) + rng.below(3) - 1 : rng.range(std::size_t(1) << 31, std::size_t(1) << 38);
        count("giant_cases");
    }
    Upstream up(rng.next(), giant ? Upstream::VIRTUAL : Upstream::Mode(rng.below(4)));
    trace("contiguous %zu", cap);
    auto mr = std::make_unique<vecmem::contiguous_memory_resource>(up, cap);
    expect(up.events.size() == 1 && up.events[0].alloc && up.events[0].size == cap, "M13", "construction did not take exactly one block of %zu bytes (%zu calls)", cap,
           up.events.size());
    char* begin = up.events[0].ptr;
    char *next = begin, *end = begin + cap;
    std::vector<std::tuple<char*, std::size_t, std::size_t>> live;
    unsigned n = unsigned(rng.range(5, 120));
    for (unsigned i = 0; i < n; ++i) {
        if (rng.chance(250) && !live.empty()) {
            std::size_t k = rng.chance(500) ? live.size() - 1 : rng.below(live.size());
            auto [p, s, a] = live[k];
            trace("release %zu", s);
            mr->deallocate(p, s, a);
            live.erase(live.begin() + long(k));
            continue;
        }
        if (rng.chance(40)) {
            trace("move");
            mr = std::make_unique<vecmem::contiguous_memory_resource>(std::move(*mr));
        }
        std::size_t al = rng.chance(500) ? std::size_t(1) << rng.range(0, 4) : std::size_t(1) << rng.range(0, 10);
        auto v = reinterpret_cast<std::uintptr_t>(next);
        char* want = reinterpret_cast<char*>((v + al - 1) & ~(al - 1));
        std::size_t room = want <= end ? std::size_t(end - want) : 0, sz;
        switch (rng.below(i > 12 ? 9 : 60)) {
            case 0: sz = room; break;          // exactly what is left
            case 1: sz = room + 1; break;      // one too many
            case 2: sz = room > 1 ? room - 1 : 1; break;
            case 3: sz = rng.chance(300) ? ~std::size_t(0) - rng.below(200) : rng.range(1, cap); break;
            case 4: sz = room / 2 + 1; break;
            default: sz = rng.range(1, 1 + cap / 24); break;
        }
        if (sz == 0) sz = 1;
        bool fits = want <= end && sz <= std::size_t(end - want);
        trace("allocate %zu/%zu (%s)", sz, al, fits ? "fits" : "does not fit");
        char* p = nullptr;
        bool threw = false;
        try {
            p = launder_null(static_cast<char*>(mr->allocate(sz, al)));
        } catch (std::bad_alloc&) {
            threw = true;
        }
        expect(threw == !fits, "M13", "request for %zu/%zu with %zu bytes left at offset %td %s", sz, al, std::size_t(end - next), next - begin,
               threw ? "was refused although it fits" : "was served although it does not fit");
        if (!threw) {
            expect(p == want, "M13", "block placed at offset %td instead of %td", p - begin, want - begin);
            next = p + sz;
            live.push_back({p, sz, al});
            count("placed");
            if (!giant) std::memset(p, 1, sz);
        } else
            count("refused");
    }
    expect(up.events.size() == 1, "M13", "%zu upstream calls before destruction", up.events.size());
    for (auto& [p, s, a] : live)
        if (rng.chance(500)) mr->deallocate(p, s, a);
    expect(up.events.size() == 1, "M13", "%zu upstream calls before destruction", up.events.size());
    mr.reset();
    expect(up.live.empty() && up.events.size() == 2, "M13", "upstream block not returned exactly once on destruction");
    st().nontrivial = live.size() > 1;
}

VM_MAIN
