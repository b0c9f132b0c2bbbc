// M11: the synchronizing resource under threads.
#include "mt.hpp"

#include <vecmem/memory/arena_memory_resource.hpp>
#include <vecmem/memory/binary_page_memory_resource.hpp>
#include <vecmem/memory/coalescing_memory_resource.hpp>
#include <vecmem/memory/debug_memory_resource.hpp>
#include <vecmem/memory/instrumenting_memory_resource.hpp>
#include <vecmem/memory/pool_memory_resource.hpp>
#include <vecmem/memory/synchronized_memory_resource.hpp>

using namespace vm;
using vecmem::memory_resource;

namespace {

thread_local int t_id = -1;

struct Header {
    u64 magic;
    std::size_t size, align;
    char* raw;
};
constexpr u64 LIVE = 0x11feb10c11feb10cull, DEAD = 0xdeadb10cdeadb10cull;

// Not thread safe on purpose: its plain members are what the race detector
// watches, and its in-flight counter is what notices overlapping calls.
class Unsafe : public memory_resource {
public:
    std::atomic<int> inflight{0};
    std::atomic<u64> calls{0}, allocs{0}, frees{0}, failures{0}, contended{0};
    u64 plain = 0;
    std::vector<unsigned char> order;
    Rng rng;
    unsigned delay;
    unsigned fail_permille;
    memory_resource* below;  // null: serve from malloc
    Unsafe(u64 seed, unsigned d, unsigned f, memory_resource* b) : rng(seed), delay(d), fail_permille(f), below(b) {}

    struct Enter {
        Unsafe& u;
        explicit Enter(Unsafe& x) : u(x) {
            int others = u.inflight.fetch_add(1, std::memory_order_relaxed);
            expect(others == 0, "M11", "a call entered the upstream while %d other call(s) were inside", others);
            u.calls.fetch_add(1, std::memory_order_relaxed);
            u.plain = u.plain * 3 + 1;
            if (u.order.size() < 100000) u.order.push_back(static_cast<unsigned char>(t_id));
            jitter(u.rng, u.delay);
        }
        ~Enter() {
            u.plain = u.plain * 5 + 1;
            int n = u.inflight.fetch_sub(1, std::memory_order_relaxed);
            expect(n == 1, "M11", "%d calls were inside the upstream at once", n);
        }
    };

protected:
    void* do_allocate(std::size_t n, std::size_t a) override {
        Enter e(*this);
        if (rng.chance(fail_permille)) {
            failures.fetch_add(1, std::memory_order_relaxed);
            throw std::bad_alloc();
        }
        if (below) {
            void* p = below->allocate(n, a);
            allocs.fetch_add(1, std::memory_order_relaxed);
            return p;
        }
        std::size_t h = sizeof(Header) + a;
        char* raw = static_cast<char*>(std::malloc(h + a + n));
        if (!raw) throw std::bad_alloc();
        auto v = (reinterpret_cast<std::uintptr_t>(raw) + h + a - 1) & ~(a - 1);
        char* p = reinterpret_cast<char*>(v);
        Header hd{LIVE, n, a, raw};
        std::memcpy(p - sizeof hd, &hd, sizeof hd);
        allocs.fetch_add(1, std::memory_order_relaxed);
        return p;
    }
    void do_deallocate(void* vp, std::size_t n, std::size_t a) override {
        Enter e(*this);
        frees.fetch_add(1, std::memory_order_relaxed);
        if (below) {
            below->deallocate(vp, n, a);
            return;
        }
        char* p = static_cast<char*>(vp);
        Header hd;
        std::memcpy(&hd, p - sizeof hd, sizeof hd);
        expect(hd.magic == LIVE, "M11", "release of %p, which is not live at the upstream", vp);
        expect(hd.size == n && hd.align == a, "M11", "block %zu/%zu released upstream as %zu/%zu", hd.size, hd.align, n, a);
        hd.magic = DEAD;
        std::memcpy(p - sizeof hd, &hd, sizeof hd);
        std::free(hd.raw);
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};

struct Blk {
    char* p;
    std::size_t n, a;
    unsigned char tag;
};
void stamp(const Blk& b) { std::memset(b.p, b.tag, b.n); }
void verify(const Blk& b) {
    for (std::size_t i = 0; i < b.n; ++i)
        if (static_cast<unsigned char>(b.p[i]) != b.tag) {
            expect(false, "M11", "byte %zu of a live block of %zu bytes was overwritten by another thread", i, b.n);
            return;
        }
}

}  // namespace

VM_PROP(M11) {
    int nt = int(rng.range(2, 6));
    unsigned ops = unsigned(rng.range(30, 120));
    unsigned delay = unsigned(rng.below(3));
    unsigned fail = rng.pick({0u, 0u, 50u, 300u});
    int kind = int(rng.below(7));
    u64 seed = rng.next();
    Unsafe bottom(seed + 1, 0, 0, nullptr);
    bottom.delay = 0;
    std::unique_ptr<memory_resource> mid;
    switch (kind) {
        case 1: mid = std::make_unique<vecmem::pool_memory_resource>(bottom); break;
        case 2: mid = std::make_unique<vecmem::arena_memory_resource>(bottom, 1 << 14, 1 << 28); break;
        case 3: mid = std::make_unique<vecmem::binary_page_memory_resource>(bottom); break;
        case 4: mid = std::make_unique<vecmem::instrumenting_memory_resource>(bottom); break;
        case 5: mid = std::make_unique<vecmem::debug_memory_resource>(bottom); break;
        case 6: mid = std::make_unique<vecmem::coalescing_memory_resource>(std::vector<std::reference_wrapper<memory_resource>>{bottom}); break;
        default: break;
    }
    static const char* kn[] = {"plain", "pool", "arena", "binary", "instr", "debug", "coal"};
    trace("%d threads, %u ops each, delay %u, fail %u, upstream %s", nt, ops, delay, fail, kn[kind]);
    Unsafe top(seed, delay, fail, mid.get());
    {
        // As in user code: also a copied or moved wrapper.
        std::unique_ptr<vecmem::synchronized_memory_resource> first = std::make_unique<vecmem::synchronized_memory_resource>(top);
        std::unique_ptr<vecmem::synchronized_memory_resource> mr;
        switch (rng.below(5)) {
            case 0: mr = std::make_unique<vecmem::synchronized_memory_resource>(*first); break;
            case 1: mr = std::make_unique<vecmem::synchronized_memory_resource>(std::move(*first)); break;
            case 2: {
                mr = std::make_unique<vecmem::synchronized_memory_resource>(bottom);
                *mr = *first;
                break;
            }
            case 3: {
                mr = std::make_unique<vecmem::synchronized_memory_resource>(bottom);
                *mr = std::move(*first);
                first.reset();
                break;
            }
            default: mr = std::move(first); break;
        }
        struct Slot {
            std::mutex m;
            Blk b{nullptr, 0, 0, 0};
        };
        std::vector<Slot> slots(rng.chance(500) ? 4 : 0);
        std::atomic<u64> got{0}, refused{0}, handed{0}, released{0};
        run_threads(nt, [&](int id) {
            t_id = id;
            Rng r(mix(seed + 1000u + unsigned(id)));
            std::vector<Blk> mine;
            unsigned char tag = static_cast<unsigned char>(id * 40 + 1);
            auto release = [&](const Blk& b) {
                verify(b);
                mr->deallocate(b.p, b.n, b.a);
                released.fetch_add(1, std::memory_order_relaxed);
            };
            for (unsigned i = 0; i < ops; ++i) {
                u64 x = r.below(100);
                if (x < 50) {
                    std::size_t n = r.chance(900) ? r.range(1, 200) : r.range(200, 5000), a = std::size_t(1) << r.below(5);
                    try {
                        Blk b{static_cast<char*>(mr->allocate(n, a)), n, a, static_cast<unsigned char>(tag + i % 40)};
                        stamp(b);
                        mine.push_back(b);
                        got.fetch_add(1, std::memory_order_relaxed);
                    } catch (std::bad_alloc&) {
                        refused.fetch_add(1, std::memory_order_relaxed);
                    }
                } else if (x < 85 || slots.empty()) {
                    if (mine.empty()) continue;
                    std::size_t k = r.below(mine.size());
                    Blk b = mine[k];
                    mine.erase(mine.begin() + long(k));
                    release(b);
                } else {
                    // hand a block to another thread, which releases it
                    Slot& s = slots[r.below(slots.size())];
                    Blk in{nullptr, 0, 0, 0}, out{nullptr, 0, 0, 0};
                    if (!mine.empty()) {
                        in = mine.back();
                        mine.pop_back();
                    }
                    {
                        std::lock_guard<std::mutex> l(s.m);
                        out = s.b;
                        s.b = in;
                    }
                    if (out.p) {
                        handed.fetch_add(1, std::memory_order_relaxed);
                        release(out);
                    }
                }
            }
            for (auto& b : mine) release(b);
        });
        t_id = 99;
        for (auto& s : slots)
            if (s.b.p) {
                verify(s.b);
                mr->deallocate(s.b.p, s.b.n, s.b.a);
                released.fetch_add(1);
            }
        expect(top.allocs.load() == got.load(), "M11", "%llu blocks reached the clients, the upstream handed out %llu", (unsigned long long)got.load(),
               (unsigned long long)top.allocs.load());
        expect(top.frees.load() == released.load() && got.load() == released.load(), "M11", "%llu releases by clients, %llu at the upstream",
               (unsigned long long)released.load(), (unsigned long long)top.frees.load());
        expect(top.failures.load() == refused.load(), "M11", "%llu refused requests, %llu upstream failures", (unsigned long long)refused.load(),
               (unsigned long long)top.failures.load());
        count("upstream_calls", top.calls.load());
        count("upstream_failures", refused.load());
        count("handed_over", handed.load());
        count("threads", u64(nt));
    }
    mid.reset();
    // how the threads' calls actually interleaved
    u64 switches = 0;
    for (std::size_t i = 1; i < top.order.size(); ++i) {
        switches += top.order[i] != top.order[i - 1];
        st().hash = (st().hash ^ top.order[i]) * 0x100000001b3ull;
    }
    count("thread_switches_seen", switches);
    st().nontrivial = switches > 5;
}

VM_MAIN
