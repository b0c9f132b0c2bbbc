// Random stacks of memory resources over monitored upstreams.
#pragma once
#include "mr.hpp"

#include <vecmem/memory/arena_memory_resource.hpp>
#include <vecmem/memory/binary_page_memory_resource.hpp>
#include <vecmem/memory/choice_memory_resource.hpp>
#include <vecmem/memory/coalescing_memory_resource.hpp>
#include <vecmem/memory/conditional_memory_resource.hpp>
#include <vecmem/memory/contiguous_memory_resource.hpp>
#include <vecmem/memory/debug_memory_resource.hpp>
#include <vecmem/memory/host_memory_resource.hpp>
#include <vecmem/memory/identity_memory_resource.hpp>
#include <vecmem/memory/instrumenting_memory_resource.hpp>
#include <vecmem/memory/pool_memory_resource.hpp>
#include <vecmem/memory/synchronized_memory_resource.hpp>
#include <vecmem/memory/terminal_memory_resource.hpp>

namespace vm {

enum Kind { ARENA, BINARY, POOL, CONTIG, IDENT, INSTR, DEBUG, SYNC, COND, CHOICE, COAL, NKINDS };
inline const char* kind_name(int k) {
    static const char* n[] = {"arena", "binary", "pool", "contig", "ident", "instr", "debug", "sync", "cond", "choice", "coal"};
    return n[k];
}

struct Node {
    virtual ~Node() = default;
    virtual vecmem::memory_resource* get() = 0;
    virtual bool move_construct() { return false; }
    virtual bool move_assign(Node&) { return false; }
    virtual void destroy() = 0;
};
template <typename T>
struct Holder : Node {
    std::unique_ptr<T> p;
    explicit Holder(std::unique_ptr<T> q) : p(std::move(q)) {}
    vecmem::memory_resource* get() override { return p.get(); }
    bool move_construct() override {
        if constexpr (std::is_move_constructible_v<T>) {
            auto n = std::make_unique<T>(std::move(*p));
            p = std::move(n);  // destroys the moved-from object
            return true;
        } else
            return false;
    }
    bool move_assign(Node& o) override {
        if constexpr (std::is_move_assignable_v<T>) {
            auto* h = dynamic_cast<Holder<T>*>(&o);
            if (!h) return false;
            *p = std::move(*h->p);
            return true;
        } else
            return false;
    }
    void destroy() override { p.reset(); }
};

inline vecmem::pool_memory_resource::options random_pool_options(Rng& rng, bool pow2_only = true, bool giant = false, std::size_t max_align = 128) {
    vecmem::pool_memory_resource::options o;
    if (rng.chance(200)) return o;
    unsigned sl = unsigned(rng.range(0, 7)), ll = sl + unsigned(rng.range(0, 9));
    if (giant) {
        if (rng.chance(300)) sl = unsigned(rng.range(20, 33));
        ll = unsigned(rng.range(std::max(sl, 28u), 34));
    }
    o.smallest_block_size = std::size_t(1) << sl;
    o.largest_block_size = std::size_t(1) << ll;
    o.alignment = std::min(std::size_t(1) << rng.range(0, std::min(sl, 7u)), max_align);
    o.min_blocks_per_chunk = rng.range(1, 9);
    o.max_blocks_per_chunk = o.min_blocks_per_chunk + (rng.chance(300) ? 0 : rng.range(0, 60));
    // min_bytes must be reachable with max_blocks of the smallest blocks, and
    // max_bytes must hold min_blocks of the largest ones.
    std::size_t mb = o.max_blocks_per_chunk * o.smallest_block_size;
    o.min_bytes_per_chunk = rng.chance(300) ? 0 : rng.range(0, mb);
    if (pow2_only) {
        std::size_t v = 1;
        while (v * 2 <= o.min_bytes_per_chunk) v *= 2;
        o.min_bytes_per_chunk = rng.chance(300) ? 0 : v;
        if (o.min_bytes_per_chunk < o.largest_block_size) o.min_bytes_per_chunk = rng.chance(500) ? 0 : o.min_bytes_per_chunk;
    }
    std::size_t need = o.min_blocks_per_chunk * o.largest_block_size;
    if (need < o.min_bytes_per_chunk) need = o.min_bytes_per_chunk;
    // Room for whole blocks of every size between the two byte limits.
    o.max_bytes_per_chunk = need + o.largest_block_size + (rng.chance(300) ? 0 : rng.range(0, 40) * o.largest_block_size);
    o.cache_oversized = rng.chance(650);
    o.cached_size_cutoff_factor = rng.pick({std::size_t(1), std::size_t(2), std::size_t(3), std::size_t(4), std::size_t(16)});
    o.cached_alignment_cutoff_factor = rng.pick({std::size_t(1), std::size_t(2), std::size_t(4), std::size_t(16)});
    return o;
}

struct Built {
    vecmem::memory_resource* mr;
    std::size_t cap;   // extended alignment guaranteed up to this
    bool refuses;      // may refuse a request that memory exists for
    bool tracked;      // all memory comes from monitored upstreams
};

class Stack {
public:
    std::vector<std::unique_ptr<Upstream>> ups;
    std::vector<std::unique_ptr<Node>> nodes;  // bottom first
    Built top{};
    std::string desc;
    Node* top_node = nullptr;
    bool giant = false;  // sizes that take more than 32 bits, in memory that nobody touches

    ~Stack() {
        for (auto it = nodes.rbegin(); it != nodes.rend(); ++it) (*it)->destroy();
    }
    void destroy_resources(bool clients_ended) {
        for (auto& u : ups) u->clients_ended = clients_ended;
        for (auto it = nodes.rbegin(); it != nodes.rend(); ++it) (*it)->destroy();
        nodes.clear();
        top_node = nullptr;
    }
    std::vector<Upstream*> up_ptrs() {
        std::vector<Upstream*> v;
        for (auto& u : ups) v.push_back(u.get());
        return v;
    }
    Built leaf(Rng& rng, bool allow_host) {
        if (allow_host && !giant && rng.chance(80)) {
            nodes.push_back(std::make_unique<Holder<vecmem::host_memory_resource>>(std::make_unique<vecmem::host_memory_resource>()));
            desc += "host";
            return {nodes.back()->get(), std::size_t(1) << 20, false, false};
        }
        static const Upstream::Mode modes[] = {Upstream::MALLOC, Upstream::SLAB_UP, Upstream::SLAB_DOWN, Upstream::RECYCLE, Upstream::VIRTUAL};
        int m = giant ? 4 : int(rng.below(4));
        static const char* names[] = {"up0", "up1", "up2", "up3", "up4", "up5", "up6", "up7"};
        ups.push_back(std::make_unique<Upstream>(rng.next(), modes[m], names[ups.size() & 7]));
        desc += std::string("U") + "MudRV"[m];
        return {ups.back().get(), std::size_t(1) << 20, false, true};
    }
    template <typename T, typename... A>
    vecmem::memory_resource* push(A&&... a) {
        nodes.push_back(std::make_unique<Holder<T>>(std::make_unique<T>(std::forward<A>(a)...)));
        top_node = nodes.back().get();
        return top_node->get();
    }
    Built build(Rng& rng, int depth, unsigned mask, bool allow_host, int force = -1) {
        if (depth == 0) return leaf(rng, allow_host);
        int k = force;
        if (k < 0) do k = int(rng.below(NKINDS));
            while (!(mask & (1u << k)));
        desc += kind_name(k);
        desc += "(";
        Built b{};
        if (k == CHOICE || k == COAL) {
            unsigned n = unsigned(rng.range(1, 3));
            std::vector<Built> subs;
            for (unsigned i = 0; i < n; ++i) {
                if (i) desc += ",";
                subs.push_back(build(rng, depth > 1 && rng.chance(500) ? depth - 1 : 0, mask, allow_host));
            }
            b = {nullptr, std::size_t(1) << 20, false, true};
            std::vector<std::reference_wrapper<vecmem::memory_resource>> refs;
            for (auto& s : subs) {
                b.cap = std::min(b.cap, s.cap);
                b.refuses = b.refuses || s.refuses;
                b.tracked = b.tracked && s.tracked;
                refs.push_back(*s.mr);
            }
            if (k == COAL)
                b.mr = push<vecmem::coalescing_memory_resource>(std::move(refs));
            else {
                u64 salt = rng.next();
                b.mr = push<vecmem::choice_memory_resource>(
                    [refs, salt](std::size_t s, std::size_t a) -> vecmem::memory_resource& { return refs[mix(salt + s * 31 + a) % refs.size()]; });
            }
        } else {
            Built s = build(rng, depth - 1, mask, allow_host);
            b = s;
            switch (k) {
                case ARENA: {
                    std::size_t init = rng.pick({std::size_t(256), std::size_t(1000), std::size_t(4096), std::size_t(20000), std::size_t(65536),
                                                 std::size_t(1) << 18, std::size_t(300000)});
                    if (giant && rng.chance(600)) init = rng.pick({std::size_t(1) << 32, (std::size_t(1) << 32) + 256, std::size_t(5000000000), std::size_t(1) << 35});
                    desc += "," + std::to_string(init);
                    if (s.refuses) {  // construction itself may be refused
                        b.mr = nullptr;
                        try {
                            b.mr = push<vecmem::arena_memory_resource>(*s.mr, init, std::size_t(1) << 46);
                        } catch (std::bad_alloc&) {
                            b.mr = push<vecmem::identity_memory_resource>(*s.mr);
                        }
                    } else
                        b.mr = push<vecmem::arena_memory_resource>(*s.mr, init, std::size_t(1) << 46);
                    b.cap = std::min<std::size_t>(s.cap, 16);
                    break;
                }
                case BINARY:
                    b.mr = push<vecmem::binary_page_memory_resource>(*s.mr);
                    b.cap = std::min<std::size_t>(s.cap, 16);
                    break;
                case POOL: {
                    auto o = random_pool_options(rng, true, giant, std::min<std::size_t>(s.cap, 128));
                    desc += "," + std::to_string(o.smallest_block_size) + ".." + std::to_string(o.largest_block_size) + "/" + std::to_string(o.alignment) +
                            (o.cache_oversized ? "c" : "");
                    b.mr = push<vecmem::pool_memory_resource>(*s.mr, o);
                    break;
                }
                case CONTIG: {
                    std::size_t n = rng.chance(500) ? rng.range(64, 5000) : rng.range(5000, 2000000);
                    if (giant) n = rng.range(std::size_t(1) << 31, std::size_t(1) << 38);
                    desc += "," + std::to_string(n);
                    try {
                        b.mr = push<vecmem::contiguous_memory_resource>(*s.mr, n);
                        b.cap = std::size_t(1) << 20;
                    } catch (std::bad_alloc&) {
                        if (!s.refuses) throw;
                        b.mr = push<vecmem::identity_memory_resource>(*s.mr);
                    }
                    b.refuses = true;
                    break;
                }
                case IDENT:
                    b.mr = push<vecmem::identity_memory_resource>(*s.mr);
                    break;
                case INSTR:
                    b.mr = push<vecmem::instrumenting_memory_resource>(*s.mr);
                    break;
                case DEBUG:
                    b.mr = push<vecmem::debug_memory_resource>(*s.mr);
                    break;
                case SYNC:
                    b.mr = push<vecmem::synchronized_memory_resource>(*s.mr);
                    break;
                default: {  // COND
                    u64 salt = rng.next();
                    bool always = rng.chance(700);
                    b.mr = push<vecmem::conditional_memory_resource>(
                        *s.mr, [salt, always](std::size_t n, std::size_t a) { return always || mix(salt + n * 7 + a) % 4 != 0; });
                    b.refuses = b.refuses || !always;
                    break;
                }
            }
        }
        desc += ")";
        return b;
    }
    void make(Rng& rng, int depth, unsigned mask = (1u << NKINDS) - 1, bool allow_host = true, int force = -1) {
        desc.clear();
        top = build(rng, depth, mask, allow_host, force);
        trace("stack %s", desc.c_str());
    }
};

inline std::size_t random_size(Rng& rng) {
    switch (rng.below(10)) {
        case 0: case 1: case 2: return rng.range(1, 64);
        case 3: case 4: return rng.range(1, 1024);
        case 5: {
            std::size_t p = std::size_t(1) << rng.range(0, 14);
            return std::max<std::size_t>(1, p + rng.below(3) - 1);
        }
        case 6: return rng.range(1, 4) * 256;
        case 7: return rng.range(1024, 20000);
        case 8: {
            if (rng.chance(300)) return rng.range(1, 3) << 18;
            if (rng.chance(300)) return (std::size_t(1) << rng.range(16, 20)) + rng.below(3) - 1;
            return rng.range(1, 300000);
        }
        default: return rng.range(1, 200);
    }
}
// Sizes around and beyond what 32 bits can count.
inline std::size_t giant_size(Rng& rng) {
    const std::size_t k = std::size_t(1) << 32;
    switch (rng.below(8)) {
        case 0: return k + rng.below(5) - 2;
        case 1: return k * rng.range(1, 3) + rng.below(2000);
        case 2: return (std::size_t(1) << rng.range(29, 36)) + rng.below(3) - 1;
        case 3: return rng.range(1, k * 8);
        case 4: return k / 2 + rng.below(5) - 2;
        default: return random_size(rng);
    }
}
inline std::size_t random_align(Rng& rng) {
    if (rng.chance(600)) return std::size_t(1) << rng.range(0, 4);
    if (rng.chance(900)) return std::size_t(1) << rng.range(0, 9);
    if (rng.chance(100)) return std::size_t(1) << rng.range(13, 17);
    return std::size_t(1) << rng.range(0, 13);
}

}  // namespace vm
