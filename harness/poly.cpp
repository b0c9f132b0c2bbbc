// M16: the default memory resource that the library brings along for standard
// libraries without one (default_resource_polyfill.cpp is linked in).
#include "mt.hpp"
#include "mr.hpp"

#include <vecmem/containers/vector.hpp>
#include <vecmem/memory/host_memory_resource.hpp>
#include <vecmem/memory/polymorphic_allocator.hpp>

#include <list>
#include <memory_resource>
#include <thread>

using namespace vm;
using vecmem::memory_resource;

namespace {
struct Dummy : memory_resource {
    void* do_allocate(std::size_t, std::size_t) override { throw std::bad_alloc(); }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};

// Whatever uses memory without being told from where.
struct Holder {
    std::pmr::vector<u64> v;
    std::vector<int, vecmem::polymorphic_allocator<int>> w;
    memory_resource* from = nullptr;
    u64 x = 0;
};

void history(Rng& rng) {
    memory_resource* const first = std::pmr::new_delete_resource();
    std::pmr::set_default_resource(nullptr);
    std::vector<std::unique_ptr<Upstream>> ups;
    for (int i = 0; i < 3; ++i) ups.push_back(std::make_unique<Upstream>(rng.next(), Upstream::MALLOC, "set by the user"));
    vecmem::host_memory_resource host;
    memory_resource* now = first;
    std::list<Holder> hs;
    auto find = [&](memory_resource* m) -> Upstream* {
        for (auto& u : ups)
            if (u.get() == m) return u.get();
        return nullptr;
    };
    auto held = [&](Upstream* u) { return u ? u->outstanding : 0; };
    auto verify = [&](Holder& h) {
        for (u64 i = 0; i < h.v.size(); ++i) expect(h.v[i] == mix(h.x + i), "M16", "memory from the default resource changed");
        for (u64 i = 0; i < h.w.size(); ++i) expect(h.w[i] == int(mix(h.x ^ i)), "M16", "memory from the default resource changed");
    };
    int steps = int(rng.range(10, 80));
    for (int s = 0; s < steps; ++s) {
        switch (rng.below(6)) {
            case 0: {
                u64 k = rng.below(5);
                memory_resource* to = k < 3 ? static_cast<memory_resource*>(ups[k].get()) : k == 3 ? &host : nullptr;
                trace("set %s", to == nullptr ? "null" : to == &host ? "a host resource" : "one of the user's");
                memory_resource* was = std::pmr::set_default_resource(to);
                expect(was == now, "M16", "setting a default resource does not return the one before");
                now = to ? to : first;
                count("set");
                break;
            }
            case 1:
            case 2: {
                u64 outs[3];
                for (int i = 0; i < 3; ++i) outs[i] = held(ups[i].get());
                hs.emplace_back();
                auto& h = hs.back();
                h.from = now;
                h.x = rng.next();
                expect(h.v.get_allocator().resource() == now && h.w.get_allocator().resource() == now, "M16", "a new container does not use the default resource");
                u64 n = rng.range(1, 300), m = rng.below(300);
                for (u64 i = 0; i < n; ++i) h.v.push_back(mix(h.x + i));
                for (u64 i = 0; i < m; ++i) h.w.push_back(int(mix(h.x ^ i)));
                trace("a container of %llu", (unsigned long long)n);
                for (int i = 0; i < 3; ++i) {
                    bool its = ups[i].get() == now;
                    expect(its ? held(ups[i].get()) > outs[i] : held(ups[i].get()) == outs[i], "M16", "the memory of a new container comes from somewhere else than the default resource");
                }
                count("containers");
                break;
            }
            case 3:
                if (!hs.empty()) {
                    auto it = std::next(hs.begin(), long(rng.below(hs.size())));
                    verify(*it);
                    hs.erase(it);
                    trace("drop a container");
                }
                break;
            case 4: {  // straight from the first one
                std::size_t n = rng.range(1, 5000), a = std::size_t(1) << rng.below(9);
                memory_resource* r = rng.chance(500) ? first : now;
                char* p = static_cast<char*>(r->allocate(n, a));
                expect(p && reinterpret_cast<std::uintptr_t>(p) % a == 0, "M16", "%zu bytes aligned to %zu are given out at %p", n, a, (void*)p);
                std::memset(p, int(n), n);
                for (auto& h : hs) verify(h);
                r->deallocate(p, n, a);
                break;
            }
            default:
                expect(std::pmr::new_delete_resource() == first && first->is_equal(host) && host.is_equal(*first) && first->is_equal(*first) && !first->is_equal(*ups[0]), "M16",
                       "the initial resource is not interchangeable with host resources");
        }
        expect(std::pmr::get_default_resource() == now && std::pmr::polymorphic_allocator<int>().resource() == now, "M16", "the default resource is another one than was set");
    }
    for (auto& h : hs) verify(h);
    hs.clear();
    for (auto& u : ups) expect(u->outstanding == 0, "M16", "memory did not get back to the resource it is from");
    expect(std::pmr::set_default_resource(nullptr) == now && std::pmr::get_default_resource() == first, "M16", "setting null does not restore the initial resource");
    st().nontrivial = steps > 15;
}

// Every resource that was set is replaced by exactly one later call.
void threads(Rng& rng) {
    unsigned nt = unsigned(rng.range(2, 6)), per = unsigned(rng.range(20, 200));
    std::vector<Dummy> ds(nt * per);
    memory_resource* const first = std::pmr::new_delete_resource();
    std::pmr::set_default_resource(nullptr);
    std::vector<std::vector<memory_resource*>> got(nt), seen(nt);
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < nt; ++t)
        ts.emplace_back([&, t] {
            ++ready;
            while (ready < nt) std::this_thread::yield();
            for (unsigned k = 0; k < per; ++k) {
                got[t].push_back(std::pmr::set_default_resource(&ds[t * per + k]));
                seen[t].push_back(std::pmr::get_default_resource());
            }
        });
    for (auto& t : ts) t.join();
    memory_resource* last = std::pmr::set_default_resource(nullptr);
    std::map<memory_resource*, unsigned> times;
    unsigned switches = 0;
    for (unsigned t = 0; t < nt; ++t)
        for (unsigned k = 0; k < per; ++k) {
            auto* g = got[t][k];
            ++times[g];
            auto i = g == first ? -1 : long(static_cast<Dummy*>(g) - ds.data());
            if (i >= 0 && unsigned(i) / per != t) ++switches, trace("%u.%u after %ld", t, k, i);
            // a thread's own resources are replaced in the order in which it set them
            auto* s = seen[t][k];
            auto j = s == first ? -1 : long(static_cast<Dummy*>(s) - ds.data());
            expect(j >= 0 && j < long(nt * per) && (unsigned(j) / per != t || unsigned(j) % per == k), "M16", "a thread sees a default resource that it had replaced already");
        }
    ++times[last];
    expect(times[first] == 1, "M16", "the initial resource was replaced %u times", times[first]);
    for (auto& d : ds) expect(times[&d] == 1, "M16", "a resource that was set once was replaced %u times", times[&d]);
    count("set_in_threads", u64(nt) * per);
    count("thread_switches_seen", switches);
    st().nontrivial = switches > 3;
}
}  // namespace

VM_PROP(M16) {
    static bool fresh = true;
    if (fresh) {
        fresh = false;
        memory_resource* d = std::pmr::get_default_resource();
        expect(d == std::pmr::new_delete_resource() && d->is_equal(vecmem::host_memory_resource{}), "M16", "the default resource is not the initial one at the start");
    }
    if (rng.chance(400)) threads(rng);
    else history(rng);
}

VM_MAIN
