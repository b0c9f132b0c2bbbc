// A monitored upstream memory resource and a monitored client.
#pragma once
#include "vm.hpp"

#include <vecmem/memory/memory_resource.hpp>

namespace vm {

struct injected_oom : std::bad_alloc {
    const char* what() const noexcept override { return "injected out-of-memory"; }
};

// All client blocks currently alive at the top of the stack under test.
struct LiveBlock {
    std::size_t size, align;
    u64 pat;
    const void* owner;
};
inline std::map<char*, LiveBlock>& live_blocks() {
    static std::map<char*, LiveBlock> m;
    return m;
}
inline std::pair<char* const, LiveBlock>* overlap_live(char* p, std::size_t n) {
    auto& m = live_blocks();
    auto it = m.lower_bound(p + n);
    if (it == m.begin()) return nullptr;
    --it;
    if (it->first + it->second.size > p && it->first < p + n) return &*it;
    return nullptr;
}

struct UpEvent {
    bool alloc;
    bool ok;
    char* ptr;
    std::size_t size, align;
};

class Upstream : public vecmem::memory_resource {
public:
    // VIRTUAL: device memory of any size; nothing is behind the addresses.
    enum Mode { MALLOC, SLAB_UP, SLAB_DOWN, RECYCLE, VIRTUAL };
    struct Rec {
        std::size_t size, align;
        char* raw;
        std::size_t rawsize;
    };
    std::string name = "up";
    Mode mode = MALLOC;
    std::map<char*, Rec> live;
    std::vector<UpEvent> events;
    bool keep_events = true;
    std::size_t outstanding = 0, peak = 0, limit = std::size_t(1) << 28, capacity = ~std::size_t(0);
    u64 allocs = 0, frees = 0, calls = 0, failures = 0;
    std::function<bool(std::size_t, std::size_t)> fail_when;  // fault plan
    bool clients_ended = false;  // the resource under test is being destroyed
    bool fill = true;
    Rng rng;

    explicit Upstream(u64 seed = 1, Mode m = MALLOC, const char* n = "up") : name(n), mode(m), rng(seed) {
        if (mode == VIRTUAL) {
            limit = std::size_t(1) << 44;
            fill = false;
            static std::uintptr_t base = 0;
            base = base % 1024 + 1;
            virt_ = (std::uintptr_t(1) << 44) + (base << 52) + (rng.below(4096) << 4);
        } else if (mode != MALLOC) {
            slab_ = slab();
            if (!slab_) {
                mode = MALLOC;
                return;
            }
            lo_ = slab_ + slab_size() / 2;
            hi_ = lo_;
        }
    }
    ~Upstream() override {
        release_all();
        if (slab_index_ < n_slabs) slab_busy()[slab_index_] = false;
    }
    Upstream(const Upstream&) = delete;

    // To be called when everything must have come back.
    void expect_all_returned(const char* tag = "M03") {
        if (!live.empty())
            expect(false, tag, "%s: %zu block(s) never returned upstream, first %p size %zu align %zu", name.c_str(), live.size(),
                   (void*)live.begin()->first, live.begin()->second.size, live.begin()->second.align);
    }
    void release_all() {
        for (auto& [p, r] : live) {
            if (r.raw) {
                VM_UNPOISON(r.raw, r.rawsize);
                std::free(r.raw);
            }
        }
        live.clear();
        if (slab_used_) {
            VM_UNPOISON(min_lo_, std::size_t(max_hi_ - min_lo_));
        }
    }
    // Is [p, p+n) inside one block currently held from this upstream?
    bool holds(const char* p, std::size_t n) const {
        auto it = live.upper_bound(const_cast<char*>(p));
        if (it == live.begin()) return false;
        --it;
        return p >= it->first && n <= it->second.size && std::size_t(p - it->first) <= it->second.size - n;
    }

protected:
    void* do_allocate(std::size_t bytes, std::size_t align) override {
        ++calls;
        if (bytes == 0) return nullptr;
        bool fail = bytes > limit || (capacity != ~std::size_t(0) && bytes > capacity - outstanding);
        if (!fail && fail_when && fail_when(bytes, align)) fail = true;
        if (align == 0 || (align & (align - 1))) {
            expect(false, "M02", "%s: upstream asked for a bad alignment %zu", name.c_str(), align);
            align = 16;
        }
        if (fail) {
            ++failures;
            if (keep_events) events.push_back({true, false, nullptr, bytes, align});
            trace("  [%s] allocate %zu/%zu FAILS", name.c_str(), bytes, align);
            throw injected_oom();
        }
        char* p = obtain(bytes, align);
        ++allocs;
        outstanding += bytes;
        if (outstanding > peak) peak = outstanding;
        if (keep_events) events.push_back({true, true, p, bytes, align});
        trace("  [%s] allocate %zu/%zu", name.c_str(), bytes, align);
        return p;
    }
    void do_deallocate(void* vp, std::size_t bytes, std::size_t align) override {
        ++calls;
        char* p = static_cast<char*>(vp);
        if (p == nullptr) return;
        if (keep_events) events.push_back({false, true, p, bytes, align});
        auto it = live.find(p);
        if (it == live.end()) {
            trace("  [%s] deallocate UNKNOWN %zu/%zu", name.c_str(), bytes, align);
            expect(false, "M03", "%s: deallocate of %p (size %zu, align %zu), which is not outstanding", name.c_str(), vp, bytes, align);
            return;
        }
        trace("  [%s] deallocate %zu/%zu", name.c_str(), bytes, align);
        expect(it->second.size == bytes && it->second.align == align, "M03",
               "%s: block obtained with size %zu align %zu is returned with size %zu align %zu", name.c_str(), it->second.size,
               it->second.align, bytes, align);
        if (!clients_ended) {
            if (auto* b = overlap_live(p, it->second.size)) {
                expect(false, "M03", "%s: block of size %zu returned while client block %p (%zu bytes) in it is live", name.c_str(),
                       it->second.size, (void*)b->first, b->second.size);
                expect(false, "M01", "%s: memory of live client block %p (%zu bytes) given back upstream", name.c_str(), (void*)b->first,
                       b->second.size);
            }
        }
        ++frees;
        outstanding -= it->second.size;
        Rec r = it->second;
        live.erase(it);
        if (r.raw) {
            VM_UNPOISON(r.raw, r.rawsize);
            if (fill) std::memset(r.raw, 0xdd, r.rawsize > 512 ? 512 : r.rawsize);
            std::free(r.raw);
        } else {
            if (mode == RECYCLE || mode == VIRTUAL) {
                recycle_.emplace(r.size, p);
            }
            if (mode != VIRTUAL) VM_POISON(p, r.size);
        }
    }
    bool do_is_equal(const vecmem::memory_resource& o) const noexcept override { return this == &o; }

private:
    char* slab_ = nullptr;
    char *lo_ = nullptr, *hi_ = nullptr, *min_lo_ = nullptr, *max_hi_ = nullptr;
    bool slab_used_ = false;
    std::uintptr_t virt_ = 0;
    std::multimap<std::size_t, char*> recycle_;

    static std::size_t slab_size() { return std::size_t(1) << 31; }
    static constexpr unsigned n_slabs = 8;
    static char** slabs() {
        static char* s[n_slabs] = {};
        return s;
    }
    static bool* slab_busy() {
        static bool b[n_slabs] = {};
        return b;
    }
    unsigned slab_index_ = n_slabs;
    char* slab() {
        for (unsigned i = 0; i < n_slabs; ++i) {
            if (slab_busy()[i]) continue;
            char*& c = slabs()[i];
            if (!c) {
                void* m = ::mmap(nullptr, slab_size(), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                if (m == MAP_FAILED) break;
                c = static_cast<char*>(m);
            }
            slab_busy()[i] = true;
            slab_index_ = i;
            return c;
        }
        return nullptr;
    }
    char* obtain(std::size_t bytes, std::size_t align) {
        char* p = nullptr;
        Rec r{bytes, align, nullptr, 0};
        if (mode == RECYCLE || mode == VIRTUAL) {
            auto rg = recycle_.equal_range(bytes);
            for (auto i = rg.first; i != rg.second; ++i)
                if ((reinterpret_cast<std::uintptr_t>(i->second) & (align - 1)) == 0) {
                    p = i->second;
                    recycle_.erase(i);
                    break;
                }
        }
        if (mode == VIRTUAL) {
            if (!p) {
                virt_ = (virt_ + align - 1) & ~(align - 1);
                if ((virt_ & (2 * align - 1)) == 0) virt_ += align;
                p = reinterpret_cast<char*>(virt_);
                virt_ += bytes;
                if (rng.chance(300)) virt_ += rng.below(5000);
            }
            live[p] = r;
            return p;
        }
        if (!p && mode != MALLOC && bytes < slab_size() / 64) {
            auto up = [&](char* q) {
                auto v = reinterpret_cast<std::uintptr_t>(q);
                return reinterpret_cast<char*>((v + align - 1) & ~(align - 1));
            };
            if (mode == SLAB_DOWN && std::size_t(lo_ - slab_) > bytes + align) {
                auto v = reinterpret_cast<std::uintptr_t>(lo_ - bytes) & ~(align - 1);
                p = reinterpret_cast<char*>(v);
                lo_ = p;
            } else if (mode != SLAB_DOWN && std::size_t(slab_ + slab_size() - hi_) > bytes + align) {
                p = up(hi_);
                hi_ = p + bytes;
            }
            if (p) {
                if (!slab_used_) min_lo_ = max_hi_ = p, slab_used_ = true;
                if (p < min_lo_) min_lo_ = p;
                if (p + bytes > max_hi_) max_hi_ = p + bytes;
            }
        }
        if (p) {
            VM_UNPOISON(p, bytes);
        } else {
            // An address that has the requested alignment and no more.
            r.rawsize = bytes + 3 * align + 16;
            r.raw = static_cast<char*>(std::malloc(r.rawsize));
            if (!r.raw) throw std::bad_alloc();
            auto v = reinterpret_cast<std::uintptr_t>(r.raw);
            v = (v + align - 1) & ~(align - 1);
            if ((v & (2 * align - 1)) == 0) v += align;
            p = reinterpret_cast<char*>(v);
        }
        if (fill) {
            std::size_t n = bytes > 65536 ? 4096 : bytes;
            std::memset(p, 0xa5, n);
            if (n < bytes) std::memset(p + bytes - n, 0xa5, n);
        }
        if (r.raw) {
            if (p > r.raw) VM_POISON(r.raw, std::size_t(p - r.raw));
            VM_POISON(p + bytes, r.rawsize - std::size_t(p - r.raw) - bytes);
        }
        live[p] = r;
        return p;
    }
};

// The standard library declares that allocate never returns null; keep the
// optimiser from using that against our check.
template <typename T>
inline T* launder_null(T* p) {
    asm volatile("" : "+r"(p));
    return p;
}

// Writes and checks recognisable contents of a client block.
inline void fill_block(char* p, std::size_t n, u64 pat) {
    auto put = [&](std::size_t a, std::size_t b) {
        for (std::size_t i = a; i < b; ++i) p[i] = char(mix(pat + (i >> 3)) >> ((i & 7) * 8));
    };
    if (n <= 2048)
        put(0, n);
    else {
        put(0, 256);
        for (std::size_t o = 4096; o + 64 < n; o += (n < 65536 ? 1024 : 16384)) put(o, o + 16);
        put(n - 256, n);
    }
}
inline bool check_block(const char* p, std::size_t n, u64 pat, std::size_t& bad) {
    auto chk = [&](std::size_t a, std::size_t b) {
        for (std::size_t i = a; i < b; ++i)
            if (p[i] != char(mix(pat + (i >> 3)) >> ((i & 7) * 8))) {
                bad = i;
                return false;
            }
        return true;
    };
    if (n <= 2048) return chk(0, n);
    if (!chk(0, 256)) return false;
    for (std::size_t o = 4096; o + 64 < n; o += (n < 65536 ? 1024 : 16384))
        if (!chk(o, o + 16)) return false;
    return chk(n - 256, n);
}

// The client: allocates and releases through one resource, checking every
// block against all other live blocks and the upstreams' books.
class Client {
public:
    vecmem::memory_resource* mr;
    std::vector<Upstream*> ups;      // where memory must lie (empty: anywhere)
    std::size_t align_cap = 1 << 20; // extended alignment guaranteed up to this
    std::vector<char*> order;
    bool write = true;

    explicit Client(vecmem::memory_resource& r) : mr(&r) {}
    ~Client() { forget(); }

    void forget() {
        for (char* p : order) live_blocks().erase(p);
        order.clear();
    }

    // nullptr: the request failed with bad_alloc (or was for zero bytes)
    char* allocate(std::size_t n, std::size_t align, bool* failed = nullptr) {
        if (failed) *failed = false;
        char* p;
        trace("allocate %zu/%zu", n, align);
        try {
            p = launder_null(static_cast<char*>(mr->allocate(n, align)));
        } catch (std::bad_alloc&) {
            trace("  -> bad_alloc");
            if (failed) *failed = true;
            return nullptr;
        }
        if (n == 0) {
            if (p) mr->deallocate(p, 0, align);
            return nullptr;
        }
        adopt(p, n, align);
        return p;
    }
    void adopt(char* p, std::size_t n, std::size_t align) {
        if (!expect(p != nullptr, "M01", "null block returned for %zu bytes", n)) {
            expect(false, "M06", "null block returned for %zu bytes", n);
            throw std::runtime_error("null block");
        }
        if (!ups.empty()) {
            bool in = false;
            for (auto* u : ups) in = in || u->holds(p, n);
            if (!expect(in, "M01", "block of %zu bytes at %p does not lie inside memory held from upstream", n, (void*)p)) {
                expect(false, "M06", "block of %zu bytes at %p is larger than the memory behind it", n, (void*)p);
                throw std::runtime_error("outside upstream");
            }
        }
        if (auto* b = overlap_live(p, n)) {
            expect(false, "M01", "block [%p,+%zu) overlaps live block [%p,+%zu)", (void*)p, n, (void*)b->first, b->second.size);
            throw std::runtime_error("overlap");
        }
        std::size_t al = align < align_cap ? align : align_cap;
        expect((reinterpret_cast<std::uintptr_t>(p) & (al - 1)) == 0, "M02", "block of %zu bytes requested with alignment %zu is at %p", n, align,
               (void*)p);
        u64 pat = mix(reinterpret_cast<u64>(p) ^ (n << 7) ^ ++serial_);
        live_blocks()[p] = LiveBlock{n, align, pat, this};
        order.push_back(p);
        if (write) fill_block(p, n, pat);
        count("allocations");
    }
    void verify(char* p) {
        auto it = live_blocks().find(p);
        if (it == live_blocks().end() || !write) return;
        std::size_t bad = 0;
        expect(check_block(p, it->second.size, it->second.pat, bad), "M01", "contents of live block [%p,+%zu) changed at offset %zu", (void*)p,
               it->second.size, bad);
    }
    void verify_all() {
        for (char* p : order) verify(p);
    }
    void release_at(std::size_t i) {
        char* p = order[i];
        auto it = live_blocks().find(p);
        LiveBlock b = it->second;
        trace("release #%zu (%zu/%zu)", i, b.size, b.align);
        verify(p);
        live_blocks().erase(it);
        order.erase(order.begin() + long(i));
        if (write && b.size < 4096) std::memset(p, 0x5a, b.size);
        mr->deallocate(p, b.size, b.align);
        count("releases");
    }
    void release_all(Rng& rng, int mode) {
        while (!order.empty()) release_at(mode == 0 ? 0 : mode == 1 ? order.size() - 1 : rng.below(order.size()));
    }

private:
    u64 serial_ = 0;
};

}  // namespace vm
