// B04: what runs on a device reaches a buffer through its main memory only.
// "Kernels" here are calls during which all memory obtained from the host side
// resource, and the buffer objects themselves, can not be touched; outside of
// them the main (device) memory can not be touched.
#include "dev.hpp"
#include "elems.hpp"
#include "soa.hpp"

#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/device_vector.hpp>
#include <vecmem/containers/jagged_device_vector.hpp>
#include <vecmem/containers/jagged_vector.hpp>
#include <vecmem/containers/vector.hpp>

#include <sys/mman.h>

using vm::Device;
using vm::make;
using vm::Rng;
using vm::same;
using vm::SimCopy;
using vm::u64;
using BT = vecmem::data::buffer_type;

namespace {

// Host memory that kernels can not touch.
class Hidden : public vecmem::memory_resource {
    static constexpr std::size_t space = std::size_t(16) << 20;
    static char*& base() {
        static char* b = nullptr;
        return b;
    }
    char* top_;
    std::map<void*, std::size_t> live_;

public:
    Hidden() {
        if (!base()) {
            void* m = ::mmap(nullptr, space, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (m == MAP_FAILED) _exit(3);
            base() = static_cast<char*>(m);
        }
        top_ = base();
    }
    static void reachable(bool yes) {
        if (::mprotect(base(), space, yes ? PROT_READ | PROT_WRITE : PROT_NONE) != 0) _exit(3);
    }
    bool empty() const { return live_.empty(); }
    template <typename T, typename... A>
    T* create(A&&... a) {
        return new (allocate(sizeof(T), alignof(T))) T(std::forward<A>(a)...);
    }
    template <typename T>
    void destroy(T* t) {
        t->~T();
        deallocate(t, sizeof(T), alignof(T));
    }

private:
    void* do_allocate(std::size_t n, std::size_t al) override {
        if (n == 0) return nullptr;
        auto v = (reinterpret_cast<std::uintptr_t>(top_) + 16 + al - 1) & ~(al - 1);
        char* p = reinterpret_cast<char*>(v);
        if (p + n > base() + space) throw std::bad_alloc();
        std::memset(p, 0xb7, n);
        top_ = p + n;
        live_[p] = n;
        return p;
    }
    void do_deallocate(void* p, std::size_t, std::size_t) override { live_.erase(p); }
    bool do_is_equal(const vecmem::memory_resource& o) const noexcept override { return this == &o; }
};

// The side that runs at the moment.
template <typename F>
void kernel(F&& f) {
    Hidden::reachable(false);
    Device::reachable(true);
    f();
    Device::reachable(false);
    Hidden::reachable(true);
    vm::count("kernels");
}

// A copy of a view as kernels get it: bytes.
template <typename V>
struct Param {
    alignas(V) char bytes[sizeof(V)];
    explicit Param(const V& v) { std::memcpy(bytes, static_cast<const void*>(&v), sizeof(V)); }
    V& get() { return *reinterpret_cast<V*>(bytes); }
};

struct World {
    Device dev;
    Hidden hidden;
    SimCopy cp;
    vecmem::host_memory_resource plain;
    explicit World(Rng& r) : cp(&dev, r.next()) {}
    ~World() { Hidden::reachable(true); }
};

u64 fresh(Rng& r) { return r.below(250); }

template <typename T, typename DV>
void read_row(const DV& d, const std::vector<u64>& m, std::size_t cap, const char* what) {
    vm::expect(d.size() == m.size() && d.capacity() == cap, "B04", "on the device %s has size %zu and capacity %zu instead of %zu and %zu", what, std::size_t(d.size()), std::size_t(d.capacity()),
               m.size(), cap);
    std::size_t i = 0;
    for (const auto& e : d) {
        vm::expect(i < m.size() && same<T>(e, m[i]), "B04", "on the device element %zu of %s is wrong", i, what);
        ++i;
    }
    vm::expect(i == m.size(), "B04", "on the device %s ends after %zu of %zu elements", what, i, m.size());
    for (i = 0; i < m.size(); ++i)
        vm::expect(same<T>(d[unsigned(i)], m[i]) && same<T>(d.at(unsigned(i)), m[i]) && same<T>(*(d.rbegin() + long(m.size() - 1 - i)), m[i]), "B04", "on the device element %zu of %s is wrong", i, what);
    vm::count("rows_read");
}

template <typename T, typename DV>
void change_row(Rng& rng, DV& d, std::vector<u64>& m, std::size_t cap, bool grows) {
    u64 x = fresh(rng);
    const std::size_t n = m.size();
    switch (grows ? rng.below(7) : 6) {
        case 0:
        case 1:
            if (n < cap) {
                auto k = d.push_back(make<T>(x));
                vm::expect(k == n, "B04", "on the device an element appended is number %u instead of %zu", unsigned(k), n);
                m.push_back(x);
            }
            break;
        case 2: {
            std::size_t k = rng.below(cap + 1);
            d.resize(unsigned(k), make<T>(x));
            m.resize(k, x);
            break;
        }
        case 3: {
            std::size_t k = rng.below(cap - n + 1);
            auto at = d.bulk_append(unsigned(k), make<T>(x));
            vm::expect(at == n, "B04", "on the device elements appended start at %u instead of %zu", unsigned(at), n);
            m.resize(n + k, x);
            break;
        }
        case 4:
            if (n) d.pop_back(), m.pop_back();
            break;
        case 5:
            if (rng.chance(300)) d.clear(), m.clear();
            break;
        default:
            for (auto& y : m) {
                y = fresh(rng);
                auto i = unsigned(&y - m.data());
                (rng.chance(500) ? d[i] : d.at(i)) = make<T>(y);
            }
    }
    vm::count("row_changes");
}

// ------------------------------------------------------------ vector
template <typename T>
void flat_case(Rng& rng) {
    World w(rng);
    using buf_t = vecmem::data::vector_buffer<T>;
    const unsigned cap = unsigned(rng.chance(60) ? 0 : rng.range(1, 40));
    const bool grows = cap > 0 && rng.chance(700);
    vm::trace("vector buffer<%s> of %u%s", vm::tname<T>(), cap, grows ? ", resizable" : "");
    buf_t* b = w.hidden.create<buf_t>(cap, w.dev, grows ? BT::resizable : BT::fixed_size);
    w.cp.setup(*b)->wait();
    std::vector<u64> m;
    bool known = grows;
    const int rounds = int(rng.range(1, 6));
    for (int r = 0; r < rounds; ++r) {
        if (!known || rng.chance(300)) {
            vecmem::vector<T> h(&w.plain);
            m.assign(grows ? rng.below(cap + 1) : cap, 0);
            for (auto& x : m) h.push_back(make<T>(x = fresh(rng)));
            w.cp(vecmem::get_data(h), *b)->wait();
            known = true;
            vm::trace("copied %zu in", m.size());
        }
        if (rng.chance(200)) {
            buf_t* moved = w.hidden.create<buf_t>(std::move(*b));
            w.hidden.destroy(b);
            b = moved;
            vm::trace("moved");
        }
        Param<vecmem::data::vector_view<T>> p(vecmem::get_data(*b));
        Param<vecmem::data::vector_view<const T>> cp(vecmem::get_data(static_cast<const buf_t&>(*b)));
        const int steps = int(rng.range(1, 12));
        kernel([&] {
            vecmem::device_vector<T> d(p.get());
            vecmem::data::vector_view<const T> converted(0, nullptr);
            if (rng.chance(500)) converted = p.get();
            else converted = vecmem::data::vector_view<const T>(p.get());
            vecmem::device_vector<const T> c(rng.chance(500) ? cp.get() : converted);
            for (int s = 0; s < steps; ++s) {
                change_row<T>(rng, d, m, cap, grows);
                read_row<T>(d, m, cap, "a vector");
                read_row<T>(c, m, cap, "a constant vector");
                vm::expect(p.get().size() == m.size() && converted.size() == m.size() && p.get().capacity() == cap, "B04", "on the device a view has another size than its vector");
            }
        });
        vecmem::vector<T> out(&w.plain);
        w.cp(*b, out)->wait();
        vm::expect(out.size() == m.size(), "B04", "%zu elements come back from the device instead of %zu", out.size(), m.size());
        for (std::size_t i = 0; i < m.size(); ++i) vm::expect(same<T>(out[i], m[i]), "B04", "element %zu comes back changed from the device", i);
        vm::count("copies_back");
    }
    w.hidden.destroy(b);
    vm::expect(w.hidden.empty() && w.dev.live.empty(), "B04", "memory is left over");
    vm::st().nontrivial = cap > 0;
}

// ------------------------------------------------------------ jagged
template <typename T>
void jagged_case(Rng& rng) {
    World w(rng);
    using buf_t = vecmem::data::jagged_vector_buffer<T>;
    const std::size_t rows = rng.chance(60) ? 0 : rng.range(1, 8);
    std::vector<unsigned> caps(rows);
    for (auto& c : caps) c = unsigned(rng.chance(200) ? 0 : rng.range(1, 7));
    const bool grows = rng.chance(700);
    vm::trace("jagged buffer<%s> of %zu rows%s", vm::tname<T>(), rows, grows ? ", resizable" : "");
    buf_t* b = w.hidden.create<buf_t>(caps, w.dev, &w.hidden, grows ? BT::resizable : BT::fixed_size);
    w.cp.setup(*b)->wait();
    std::vector<std::vector<u64>> m(rows);
    bool known = grows;
    const int rounds = int(rng.range(1, 6));
    for (int r = 0; r < rounds; ++r) {
        if (!known || rng.chance(300)) {
            vecmem::jagged_vector<T> h(&w.plain);
            h.resize(rows);
            for (std::size_t i = 0; i < rows; ++i) {
                m[i].assign(grows ? rng.below(caps[i] + 1) : caps[i], 0);
                for (auto& x : m[i]) h[i].push_back(make<T>(x = fresh(rng)));
            }
            w.cp(vecmem::get_data(h), *b)->wait();
            known = true;
            vm::trace("copied in");
        }
        if (rng.chance(200)) {
            buf_t* moved = w.hidden.create<buf_t>(std::move(*b));
            w.hidden.destroy(b);
            b = moved;
            vm::trace("moved");
        }
        Param<vecmem::data::jagged_vector_view<T>> p(vecmem::get_data(*b));
        Param<vecmem::data::jagged_vector_view<const T>> cp(vecmem::get_data(static_cast<const buf_t&>(*b)));
        const int steps = int(rng.range(1, 12));
        kernel([&] {
            vecmem::jagged_device_vector<T> d(p.get());
            vecmem::data::jagged_vector_view<const T> converted;
            if (rng.chance(500)) converted = p.get();
            else converted = vecmem::data::jagged_vector_view<const T>(p.get());
            vecmem::jagged_device_vector<const T> c(rng.chance(500) ? cp.get() : converted);
            vm::expect(converted == p.get() && p.get().size() == rows, "B04", "on the device a converted view differs");
            if (rng.chance(300)) {
                vecmem::jagged_device_vector<const T> other(cp.get());
                c = other;
            }
            vm::expect(d.size() == rows && c.size() == rows && d.capacity() == rows && d.empty() == (rows == 0), "B04", "on the device a jagged vector has %zu rows instead of %zu", std::size_t(d.size()), rows);
            for (int s = 0; s < steps && rows; ++s) {
                std::size_t i = rng.below(rows);
                if (rng.chance(500)) {
                    auto row = d[unsigned(i)];
                    change_row<T>(rng, row, m[i], caps[i], grows);
                } else {
                    auto row = rng.chance(500) ? d.at(unsigned(i)) : *(d.begin() + long(i));
                    change_row<T>(rng, row, m[i], caps[i], grows);
                }
                std::size_t k = 0;
                for (auto row : d) read_row<T>(row, m[k], caps[k], "a row"), ++k;
                vm::expect(k == rows, "B04", "on the device iteration ends after %zu of %zu rows", k, rows);
                k = 0;
                for (auto row : c) read_row<T>(row, m[k], caps[k], "a constant row"), ++k;
                k = rows;
                for (auto it = c.rbegin(); it != c.rend(); ++it) --k, vm::expect((*it).size() == m[k].size(), "B04", "on the device row %zu has another size", k);
                vm::expect(d.front().size() == m.front().size() && d.back().size() == m.back().size(), "B04", "on the device the first or last row has another size");
            }
        });
        vecmem::jagged_vector<T> out(&w.plain);
        w.cp(*b, out)->wait();
        vm::expect(out.size() == rows, "B04", "%zu rows come back from the device instead of %zu", out.size(), rows);
        for (std::size_t i = 0; i < rows; ++i) {
            vm::expect(out[i].size() == m[i].size(), "B04", "row %zu comes back with %zu elements from the device instead of %zu", i, out[i].size(), m[i].size());
            for (std::size_t k = 0; k < m[i].size(); ++k) vm::expect(same<T>(out[i][k], m[i][k]), "B04", "row %zu element %zu comes back changed from the device", i, k);
        }
        vm::count("copies_back");
    }
    w.hidden.destroy(b);
    vm::expect(w.hidden.empty() && w.dev.live.empty(), "B04", "memory is left over");
    vm::st().nontrivial = rows > 0;
}

// ------------------------------------------------------------ structures of arrays
using namespace vecmem::edm::type;
using soa::Soa;
using soa::Values;

template <typename S>
struct SoaRun {
    Rng& rng;
    unsigned cap = 0, n = 0;
    bool grows = false;
    std::vector<unsigned> inner;
    Values v;

    explicit SoaRun(Rng& r) : rng(r) {}

    template <typename D>
    void read(const D& d, const char* who) {
        if constexpr (S::has_vector)
            vm::expect(d.size() == n && d.capacity() == cap, "B04", "on the device %s container has size %u and capacity %u instead of %u and %u", who, unsigned(d.size()), unsigned(d.capacity()), n, cap);
        S::each([&](auto I) {
            using T = typename S::template V<I>::type;
            constexpr auto kind = S::template V<I>::kind;
            if constexpr (kind == soa::SCALAR) vm::expect(same<T>(d.template get<I>(), v[I][0][0]), "B04", "on the device scalar %zu of %s container is wrong", std::size_t(I), who);
            else if constexpr (kind == soa::VECTOR) {
                read_row<T>(d.template get<I>(), v[I][0], cap, "a variable");
                for (unsigned k = 0; k < n; ++k)
                    vm::expect(same<T>(d[k].template get<I>(), v[I][0][k]) && same<T>(d.at(k).template get<I>(), v[I][0][k]), "B04", "on the device a proxy shows another element %u", k);
            } else {
                auto& j = d.template get<I>();
                vm::expect(j.size() == n, "B04", "on the device jagged variable %zu has %zu rows instead of %u", std::size_t(I), std::size_t(j.size()), n);
                for (unsigned k = 0; k < n; ++k) {
                    read_row<T>(j[k], v[I][k], inner[k], "a row of a variable");
                    read_row<T>(d[k].template get<I>(), v[I][k], inner[k], "a row through a proxy");
                }
            }
        });
    }
    template <typename D>
    void change(D& d) {
        if constexpr (S::has_vector && !S::has_jagged) {
            if (grows && n < cap && rng.chance(350)) {
                auto k = d.push_back_default();
                vm::expect(k == n, "B04", "on the device an element appended is number %u instead of %u", unsigned(k), n);
                ++n;
                S::each([&](auto I) {
                    if constexpr (S::template V<I>::kind == soa::VECTOR) v[I][0].push_back(0);
                });
                vm::count("row_changes");
                return;
            }
        }
        const std::size_t var = rng.below(S::N);
        S::each([&](auto I) {
            if (I != var) return;
            using T = typename S::template V<I>::type;
            constexpr auto kind = S::template V<I>::kind;
            u64 x = fresh(rng);
            if constexpr (kind == soa::SCALAR) {
                d.template get<I>() = make<T>(x);
                v[I][0][0] = x;
            } else if constexpr (kind == soa::VECTOR) {
                if (n == 0) return;
                unsigned k = unsigned(rng.below(n));
                switch (rng.below(3)) {
                    case 0: d.template get<I>()[k] = make<T>(x); break;
                    case 1: d[k].template get<I>() = make<T>(x); break;
                    default: d.at(k).template get<I>() = make<T>(x);
                }
                v[I][0][k] = x;
            } else {
                if (n == 0) return;
                unsigned k = unsigned(rng.below(n));
                if (rng.chance(500)) {
                    auto row = d.template get<I>()[k];
                    change_row<T>(rng, row, v[I][k], inner[k], grows);
                } else {
                    auto row = d[k].template get<I>();
                    change_row<T>(rng, row, v[I][k], inner[k], grows);
                }
            }
        });
    }
    void run() {
        World w(rng);
        using buf_t = typename S::buffer;
        cap = unsigned(rng.chance(60) ? 0 : rng.range(1, 9));
        inner.resize(cap);
        for (auto& x : inner) x = unsigned(rng.below(6));
        grows = rng.chance(600);
        const BT t = grows ? BT::resizable : BT::fixed_size;
        vm::trace("schema <%s> of %u%s", S::name().c_str(), cap, grows ? ", resizable" : "");
        buf_t* b = nullptr;
        if constexpr (S::has_jagged) b = w.hidden.template create<buf_t>(inner, w.dev, &w.hidden, t);
        else b = w.hidden.template create<buf_t>(cap, w.dev, t);
        w.cp.setup(*b)->wait();
        bool known = false;
        const int rounds = int(rng.range(1, 5));
        for (int r = 0; r < rounds; ++r) {
            if (!known || rng.chance(300)) {
                n = grows && !S::has_jagged ? unsigned(rng.below(cap + 1)) : cap;
                typename S::host h(w.plain);
                v = S::values(rng, n, inner, grows);
                S::to_host(h, v);
                w.cp(vecmem::get_data(h), *b)->wait();
                known = true;
                vm::trace("copied in");
            }
            if (rng.chance(200)) {
                buf_t* moved = w.hidden.template create<buf_t>(std::move(*b));
                w.hidden.destroy(b);
                b = moved;
                vm::trace("moved");
            }
            Param<typename S::view> p(vecmem::get_data(*b));
            Param<typename S::const_view> cp(vecmem::get_data(static_cast<const buf_t&>(*b)));
            const int steps = int(rng.range(1, 10));
            kernel([&] {
                typename S::device d(p.get());
                typename S::const_view converted;
                if (rng.chance(500)) converted = p.get();
                else converted = typename S::const_view(p.get());
                typename S::const_device c(rng.chance(500) ? cp.get() : converted);
                for (int s = 0; s < steps; ++s) {
                    change(d);
                    read(d, "a");
                    read(c, "a constant");
                }
            });
            typename S::host out(w.plain);
            w.cp(*b, out)->wait();
            std::string x = S::host_differs(out, v);
            vm::expect(x.empty(), "B04", "back from the device, %s", x.c_str());
            vm::count("copies_back");
        }
        w.hidden.destroy(b);
        vm::expect(w.hidden.empty() && w.dev.live.empty(), "B04", "memory is left over");
        vm::st().nontrivial = cap > 0;
        vm::count("soa_cases");
    }
};
template <typename S>
void soa_case(Rng& rng) {
    SoaRun<S>(rng).run();
}
}  // namespace

VM_CASES(B04, 12, vm::Cases<>, [](auto k, vm::Rng& rng) {
    using vm::Odd3;
    using vm::Wide;
    if constexpr (k == 0) flat_case<int>(rng);
    else if constexpr (k == 1) flat_case<char>(rng);
    else if constexpr (k == 2) flat_case<Wide>(rng);
    else if constexpr (k == 3) jagged_case<int>(rng);
    else if constexpr (k == 4) jagged_case<Odd3>(rng);
    else if constexpr (k == 5) jagged_case<double>(rng);
    else if constexpr (k == 6) soa_case<Soa<scalar<int>, vector<float>, scalar<char>, vector<double>>>(rng);
    else if constexpr (k == 7) soa_case<Soa<vector<Wide>, vector<Odd3>, vector<int>>>(rng);
    else if constexpr (k == 8) soa_case<Soa<jagged_vector<short>>>(rng);
    else if constexpr (k == 9) soa_case<Soa<vector<char>, jagged_vector<double>, scalar<float>, jagged_vector<Odd3>>>(rng);
    else if constexpr (k == 10) soa_case<Soa<jagged_vector<int>, scalar<Wide>, vector<int>>>(rng);
    else soa_case<Soa<vector<int>>>(rng);
})
VM_PROP(B04) {
    vm::Cases<>::run("B04", rng.below(12), rng);
}

VM_MAIN
