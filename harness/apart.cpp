// C05: threads that use objects of their own do not interfere, whatever
// stateless objects (a copy object, a host memory resource) they share.
#include "mt.hpp"
#include "elems.hpp"
#include "soa.hpp"
#include "stack.hpp"

#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/device_vector.hpp>
#include <vecmem/containers/jagged_device_vector.hpp>
#include <vecmem/containers/jagged_vector.hpp>
#include <vecmem/containers/vector.hpp>
#include <vecmem/memory/unique_ptr.hpp>
#include <vecmem/utils/copy.hpp>

#include <optional>

using namespace vm;
using vecmem::memory_resource;
using BT = vecmem::data::buffer_type;

namespace {

using Things = soa::Soa<vecmem::edm::type::scalar<int>, vecmem::edm::type::vector<float>, vecmem::edm::type::jagged_vector<int>, vecmem::edm::type::vector<char>>;
using Flat = soa::Soa<vecmem::edm::type::vector<int>, vecmem::edm::type::vector<double>, vecmem::edm::type::scalar<float>>;

// One thread's memory: nothing in here is shared with any other.
class Own : public memory_resource {
    struct Rec {
        std::size_t size, align;
    };

public:
    std::map<void*, Rec> live;
    std::thread::id owner;
    bool full = false;

private:
    void mine() const { expect(owner == std::this_thread::get_id(), "C05", "a thread's memory is asked for by another thread"); }
    void* do_allocate(std::size_t n, std::size_t a) override {
        mine();
        if (full) throw std::bad_alloc();
        void* p = nullptr;
        if (posix_memalign(&p, std::max(a, sizeof(void*)), n ? n : 1) != 0) throw std::bad_alloc();
        live[p] = {n, a};
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override {
        mine();
        auto it = live.find(p);
        expect(it != live.end() && it->second.size == n && it->second.align == a, "C05", "a thread's memory gets back something else than what it gave out");
        live.erase(it);
        std::free(p);
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};

struct Shared {
    vecmem::copy cp;
    vecmem::host_memory_resource host;
    std::atomic<u64> ticket{0};
};

class Thread {
    Shared& sh;
    Rng rng;
    unsigned delay;
    Own own;
    vecmem::copy mine;

public:
    std::vector<u64> tickets;
    u64 blocks = 0, copies = 0, objects = 0, changes = 0;

    Thread(Shared& s, u64 seed, unsigned d) : sh(s), rng(seed), delay(d) {}

    void run(unsigned steps) {
        own.owner = std::this_thread::get_id();
        for (unsigned s = 0; s < steps; ++s) {
            switch (rng.below(8)) {
                case 0:
                case 1: resources(); break;
                case 2: flat(); break;
                case 3: jagged(); break;
                case 4: structure<Things>(); break;
                case 5: structure<Flat>(); break;
                case 6: pointers(); break;
                default: failing();
            }
            progress_mt();
        }
        expect(own.live.empty(), "C05", "%zu blocks of a thread's memory are not returned", own.live.size());
    }

private:
    void tick() {
        tickets.push_back(sh.ticket.fetch_add(1, std::memory_order_relaxed));
        jitter(rng, delay);
    }
    const vecmem::copy& copier() { return rng.chance(800) ? sh.cp : mine; }
    memory_resource& memory() { return rng.chance(500) ? static_cast<memory_resource&>(own) : sh.host; }

    template <typename F>
    void with_resource(memory_resource& up, F&& f) {
        using namespace vecmem;
        switch (rng.below(11)) {
            case 0: {
                arena_memory_resource r(up, 1024, 100000);
                return f(r);
            }
            case 1: {
                binary_page_memory_resource r(up);
                return f(r);
            }
            case 2: {
                pool_memory_resource r(up, random_pool_options(rng, true, false, 64));
                return f(r);
            }
            case 3: {
                contiguous_memory_resource r(up, 1 << 18);
                return f(r);
            }
            case 4: {
                instrumenting_memory_resource r(up);
                u64 got = 0, lost = 0;
                r.add_post_allocate_hook([&](std::size_t, std::size_t, void* p) { got += p != nullptr; });
                r.add_pre_deallocate_hook([&](void*, std::size_t, std::size_t) { ++lost; });
                f(r);
                expect(got == lost && r.get_events().size() == got + lost, "C05", "a resource recorded %zu events after %llu allocations and %llu releases", r.get_events().size(), (unsigned long long)got,
                       (unsigned long long)lost);
                return;
            }
            case 5: {
                debug_memory_resource r(up);
                return f(r);
            }
            case 6: {
                identity_memory_resource r(up);
                return f(r);
            }
            case 7: {
                synchronized_memory_resource r(up);
                return f(r);
            }
            case 8: {
                conditional_memory_resource r(up, [](std::size_t n, std::size_t) { return n < 100000; });
                return f(r);
            }
            case 9: {
                arena_memory_resource small(up, 4096, 4096);
                terminal_memory_resource none;
                coalescing_memory_resource r({none, small, up});
                return f(r);
            }
            default: {
                pool_memory_resource small(up);
                choice_memory_resource r([&](std::size_t n, std::size_t) -> memory_resource& { return n < 300 ? static_cast<memory_resource&>(small) : up; });
                return f(r);
            }
        }
    }
    void resources() {
        with_resource(memory(), [&](memory_resource& r) {
            struct Block {
                char* p;
                std::size_t n, a;
                char x;
            };
            std::vector<Block> bs;
            auto drop = [&](std::size_t i) {
                for (std::size_t k = 0; k < bs[i].n; ++k) expect(bs[i].p[k] == bs[i].x, "C05", "memory a thread holds was changed");
                r.deallocate(bs[i].p, bs[i].n, bs[i].a);
                bs.erase(bs.begin() + long(i));
            };
            unsigned n = unsigned(rng.range(5, 60));
            for (unsigned k = 0; k < n; ++k) {
                tick();
                if (bs.empty() || rng.chance(600)) {
                    Block b{nullptr, rng.range(1, 900), std::size_t(1) << rng.below(5), char(rng.next())};
                    b.p = static_cast<char*>(r.allocate(b.n, b.a));
                    expect(b.p && reinterpret_cast<std::uintptr_t>(b.p) % b.a == 0, "C05", "a block given out is misaligned");
                    std::memset(b.p, b.x, b.n);
                    bs.push_back(b);
                    ++blocks;
                } else
                    drop(rng.below(bs.size()));
            }
            while (!bs.empty()) drop(bs.size() - 1);
        });
    }
    void flat() {
        vecmem::vector<int> h(&memory());
        unsigned n = unsigned(rng.below(300));
        int x = int(rng.next() >> 40);
        for (unsigned i = 0; i < n; ++i) h.push_back(x + int(i));
        vecmem::data::vector_buffer<int> b(n + unsigned(rng.range(1, 5)), memory(), BT::resizable);
        tick();
        copier().setup(b)->wait();
        tick();
        copier()(vecmem::get_data(h), b)->wait();
        expect(copier().get_size(b) == n, "C05", "a vector copied has another size");
        {
            vecmem::device_vector<int> d(b);
            d.push_back(x - 1);
            tick();
        }
        auto c = copier().to(vecmem::get_data(b), memory());
        vecmem::vector<int> o(&memory());
        copier()(c, o)->wait();
        expect(o.size() == n + 1 && o.back() == x - 1, "C05", "a vector copied has another size");
        for (unsigned i = 0; i < n; ++i) expect(o[i] == x + int(i), "C05", "a vector copied has another element");
        copies += 3;
        copier().memset(b, 0x55)->wait();
        tick();
        vecmem::device_vector<int> d(b);
        for (int e : d) expect(e == 0x55555555, "C05", "a fill left another element");
        changes += d.size();
    }
    void jagged() {
        vecmem::jagged_vector<short> h(&memory());
        std::size_t rows = rng.below(30);
        std::vector<std::size_t> caps;
        short x = short(rng.next());
        for (std::size_t i = 0; i < rows; ++i) {
            h.emplace_back();
            std::size_t n = rng.below(8);
            for (std::size_t k = 0; k < n; ++k) h.back().push_back(short(x + short(i * 16 + k)));
            caps.push_back(n + rng.range(1, 3));
        }
        memory_resource* aside = rng.chance(500) ? &own : nullptr;
        vecmem::data::jagged_vector_buffer<short> b(caps, memory(), aside, BT::resizable);
        tick();
        copier().setup(b)->wait();
        tick();
        copier()(vecmem::get_data(h, aside), b)->wait();
        auto sizes = copier().get_sizes(b);
        for (std::size_t i = 0; i < rows; ++i) expect(sizes[i] == h[i].size(), "C05", "a row copied has another size");
        tick();
        vecmem::jagged_device_vector<short> d(b);
        for (unsigned i = 0; i < rows; ++i) d[i].push_back(short(i)), ++changes;
        vecmem::jagged_vector<short> o(&memory());
        copier()(b, o)->wait();
        tick();
        for (std::size_t i = 0; i < rows; ++i) {
            expect(o[i].size() == h[i].size() + 1 && o[i].back() == short(i), "C05", "a row copied back has another size");
            for (std::size_t k = 0; k < h[i].size(); ++k) expect(o[i][k] == h[i][k], "C05", "a row copied has another element");
        }
        copies += 2;
    }
    template <typename S>
    void structure() {
        unsigned n = unsigned(rng.below(20));
        std::vector<unsigned> inner(n);
        for (auto& i : inner) i = unsigned(rng.below(5));
        auto v = S::values(rng, n, inner, false);
        typename S::host h(memory()), o(memory());
        S::to_host(h, v);
        std::optional<typename S::buffer> b;
        if constexpr (S::has_jagged) b.emplace(inner, memory(), rng.chance(500) ? &own : nullptr, rng.chance(500) ? BT::resizable : BT::fixed_size);
        else b.emplace(n, memory(), rng.chance(500) ? BT::resizable : BT::fixed_size);
        tick();
        copier().setup(*b)->wait();
        tick();
        copier()(vecmem::get_data(h), *b)->wait();
        tick();
        typename S::device d(*b);
        expect(d.size() == n, "C05", "a container copied has another size");
        for (unsigned k = 0; k < n; ++k) {
            auto& e = d.template get<1>()[k];
            e = static_cast<std::decay_t<decltype(e)>>(e + 1);
            v[1][0][k] += 1;
            ++changes;
        }
        copier()(*b, o)->wait();
        tick();
        std::string x = S::host_differs(o, v);
        expect(x.empty(), "C05", "in a container copied, %s", x.c_str());
        copies += 2;
    }
    void pointers() {
        auto p = vecmem::make_unique_obj<std::string>(memory(), std::string(rng.below(60), 'x'));
        tick();
        auto q = vecmem::make_unique_obj<std::vector<int>[]>(memory(), rng.range(1, 9));
        q[0].assign(5, 7);
        tick();
        auto r = vecmem::make_unique_alloc<char[]>(memory(), rng.range(1, 90));
        r[0] = 'y';
        tick();
        expect(q[0].size() == 5 && q[0][4] == 7 && r[0] == 'y', "C05", "an object a thread owns was changed");
        objects += 3;
    }
    // errors of one thread are its own
    void failing() {
        tick();
        own.full = true;
        unsigned caught = 0;
        try {
            vecmem::data::vector_buffer<int> b(10u, own, BT::resizable);
        } catch (const std::bad_alloc&) { ++caught; }
        try {
            with_resource(own, [&](memory_resource& r) {
                void* p = r.allocate(500, 8);
                r.deallocate(p, 500, 8);
            });
        } catch (const std::bad_alloc&) { ++caught; }
        own.full = false;
        tick();
        expect(caught == 2, "C05", "a thread's request succeeded without memory");
        vecmem::data::vector_buffer<int> small(3u, memory(), BT::fixed_size), big(5u, memory(), BT::fixed_size);
        bool refused = false;
        try {
            copier()(big, small)->wait();
        } catch (const std::length_error&) { refused = true; }
        expect(refused, "C05", "a copy that does not fit was not refused");
    }
};
}  // namespace

VM_PROP(C05) {
    const int nt = int(rng.range(2, 6));
    const unsigned steps = unsigned(rng.range(4, 25)), delay = unsigned(rng.below(4));
    Shared sh;
    std::vector<std::unique_ptr<Thread>> ts;
    for (int t = 0; t < nt; ++t) ts.push_back(std::make_unique<Thread>(sh, rng.next(), delay));
    run_threads(nt, [&](int t) { ts[std::size_t(t)]->run(steps); });
    std::vector<char> order(sh.ticket.load());
    for (int t = 0; t < nt; ++t) {
        auto& x = *ts[std::size_t(t)];
        for (u64 k : x.tickets) order[k] = char(t);
        count("operations", x.tickets.size());
        count("blocks", x.blocks);
        count("copies", x.copies);
        count("objects", x.objects);
        count("changes", x.changes);
    }
    unsigned switches = 0;
    std::string seen;
    for (std::size_t k = 1; k < order.size(); ++k)
        if (order[k] != order[k - 1]) {
            ++switches;
            if (seen.size() < 400) seen += char('a' + order[k]);
        }
    trace("%d threads, order %s", nt, seen.c_str());
    count("thread_switches_seen", switches);
    st().nontrivial = switches > 10;
}

VM_MAIN
