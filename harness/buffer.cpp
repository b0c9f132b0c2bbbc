// B01 vector and jagged vector buffers carve sound storage,
// B03 owning buffers release their memory exactly once.
#include "elems.hpp"
#include "mr.hpp"
#include "soa.hpp"

#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/jagged_vector_data.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/device_vector.hpp>
#include <vecmem/containers/jagged_device_vector.hpp>
#include <vecmem/containers/jagged_vector.hpp>
#include <vecmem/edm/container.hpp>
#include <vecmem/utils/copy.hpp>

#include <algorithm>
#include <limits>
#include <optional>

using vm::Rng;
using vm::u64;
using vm::Upstream;

namespace {

struct alignas(64) Over64 {
    u64 v[8];
};
struct alignas(256) Over256 {
    u64 v[32];
};
struct Odd12 {
    float f[3];
};

// One piece of memory a buffer claims to use.
struct Piece {
    const char* p;
    std::size_t n;
    const char* what;
    std::size_t i;
};

class Pieces {
    std::vector<Piece> all_;
    const char* tag_;

public:
    explicit Pieces(const char* tag) : tag_(tag) {}
    // Notes a piece that must lie in one block of `up`, aligned to `al`.
    void add(const Upstream& up, const void* p, std::size_t n, std::size_t al, const char* what, std::size_t i = 0) {
        if (n == 0) return;
        const char* c = static_cast<const char*>(p);
        vm::expect(c != nullptr, tag_, "%s %zu is null", what, i);
        vm::expect(up.holds(c, n), tag_, "%s %zu (%zu bytes at %p) does not lie inside memory the buffer obtained from %s", what, i, n, p, up.name.c_str());
        vm::expect(reinterpret_cast<std::uintptr_t>(p) % al == 0, tag_, "%s %zu at %p is not aligned to %zu", what, i, p, al);
        all_.push_back({c, n, what, i});
        vm::count("pieces");
    }
    void disjoint() {
        std::sort(all_.begin(), all_.end(), [](const Piece& a, const Piece& b) { return a.p < b.p; });
        for (std::size_t k = 1; k < all_.size(); ++k)
            vm::expect(all_[k - 1].p + all_[k - 1].n <= all_[k].p, tag_, "%s %zu (%zu bytes) overlaps %s %zu", all_[k - 1].what, all_[k - 1].i, all_[k - 1].n, all_[k].what, all_[k].i);
    }
    // Writes every piece full of its own pattern, then reads all of them back.
    void exercise() {
        for (std::size_t k = 0; k < all_.size(); ++k) std::memset(const_cast<char*>(all_[k].p), int(k * 37 + 11) & 0xff, all_[k].n);
        for (std::size_t k = 0; k < all_.size(); ++k)
{
            bool ok = true;
            for (std::size_t b = 0; b < all_[k].n; ++b) ok = ok && (unsigned char)all_[k].p[b] == ((k * 37 + 11) & 0xff);
            vm::expect(ok, tag_, "%s %zu shares memory with another part", all_[k].what, all_[k].i);
        }
    }
};

using BT = vecmem::data::buffer_type;

template <typename T>
void check_flat(vecmem::data::vector_buffer<T>& b, unsigned cap, BT type, Upstream& up, bool set_up) {
    using S = typename vecmem::data::vector_view<T>::size_type;
    Pieces ps("B01");
    vm::expect(b.capacity() == cap, "B01", "a buffer of capacity %u shows capacity %u", cap, unsigned(b.capacity()));
    ps.add(up, b.ptr(), std::size_t(cap) * sizeof(T), alignof(T), "elements");
    if (type == BT::resizable && cap > 0) {
        vm::expect(b.size_ptr() != nullptr, "B01", "a resizable buffer of capacity %u has no size", cap);
        ps.add(up, b.size_ptr(), sizeof(S), alignof(S), "size");
    } else
        vm::expect(b.size_ptr() == nullptr, "B01", "a buffer that can not be resized has a size variable");
    ps.disjoint();
    if (type == BT::fixed_size) vm::expect(b.size() == cap, "B01", "a fixed-size buffer of capacity %u shows size %u", cap, unsigned(b.size()));
    else if (set_up || cap == 0)
        vm::expect(b.size() == 0, "B01", "a resizable buffer shows size %u after set-up", unsigned(b.size()));
}

// A capacity that takes the memory beyond what 32 bits can count.
inline std::size_t giant_capacity(Rng& rng, std::size_t elem) {
    const std::size_t k = std::size_t(1) << 32;
    std::size_t c = 0;
    switch (rng.below(5)) {
        case 0: c = k / elem + rng.below(3); break;
        case 1: c = k / 2 / elem + rng.below(3); break;
        case 2: c = rng.range(k / 4, k - 1); break;
        case 3: c = k - 1 - rng.below(3); break;
        default: c = rng.range(1, 4 * k) / elem + 1; break;
    }
    return std::min(c, std::min(k - 1, (std::size_t(1) << 40) / elem));
}

template <typename T>
void giant_flat_case(Rng& rng) {
    Upstream up(rng.next(), Upstream::VIRTUAL, "main");
    up.keep_events = false;
    int n = int(rng.range(1, 3));
    std::vector<vecmem::data::vector_buffer<T>> bs;
    Pieces all("B01");
    for (int i = 0; i < n; ++i) {
        unsigned cap = unsigned(giant_capacity(rng, sizeof(T)));
        BT type = rng.chance(500) ? BT::resizable : BT::fixed_size;
        vm::trace("giant flat buffer of %u elements of %zu bytes, %s", cap, sizeof(T), type == BT::resizable ? "resizable" : "fixed");
        bs.emplace_back(cap, up, type);
        check_flat(bs.back(), cap, type, up, false);
        all.add(up, bs.back().ptr(), std::size_t(cap) * sizeof(T), alignof(T), "elements of buffer", std::size_t(i));
        if (bs.back().size_ptr()) all.add(up, bs.back().size_ptr(), sizeof(unsigned), alignof(unsigned), "size of buffer", std::size_t(i));
    }
    all.disjoint();
    vm::count("giant_buffers", u64(n));
    vm::st().nontrivial = true;
}

template <typename T>
void flat_case(Rng& rng) {
    if (rng.chance(30)) return giant_flat_case<T>(rng);
    Upstream up(rng.next(), rng.chance(500) ? Upstream::MALLOC : Upstream::SLAB_UP, "main");
    up.keep_events = false;
    vecmem::copy cp;
    int n = int(rng.range(1, 5));
    std::vector<vecmem::data::vector_buffer<T>> bs;
    std::vector<std::pair<unsigned, BT>> want;
    for (int i = 0; i < n; ++i) {
        unsigned cap = unsigned(rng.chance(150) ? 0 : rng.chance(200) ? 1 : rng.below(rng.chance(100) ? 3000 : 70));
        if (sizeof(T) <= 8 && rng.chance(3)) cap = unsigned(rng.range(60000, 140000));
        BT type = rng.chance(500) ? BT::resizable : BT::fixed_size;
        vm::trace("flat buffer of %u elements of %zu bytes aligned %zu, %s", cap, sizeof(T), alignof(T), type == BT::resizable ? "resizable" : "fixed");
        bs.emplace_back(cap, up, type);
        want.push_back({cap, type});
        check_flat(bs.back(), cap, type, up, false);
        if (rng.chance(800)) {
            cp.setup(bs.back())->wait();
            check_flat(bs.back(), cap, type, up, true);
        }
        vm::count("buffers");
    }
    // All buffers together: separate memory, each usable to its full capacity.
    Pieces all("B01");
    for (int i = 0; i < n; ++i) {
        all.add(up, bs[std::size_t(i)].ptr(), std::size_t(want[std::size_t(i)].first) * sizeof(T), alignof(T), "elements of buffer", std::size_t(i));
        if (bs[std::size_t(i)].size_ptr()) all.add(up, bs[std::size_t(i)].size_ptr(), sizeof(unsigned), alignof(unsigned), "size of buffer", std::size_t(i));
    }
    all.disjoint();
    all.exercise();
    for (int i = 0; i < n; ++i) {
        auto& b = bs[std::size_t(i)];
        cp.setup(b)->wait();
        vecmem::device_vector<T> v(b);
        if (want[std::size_t(i)].second == BT::resizable) {
            for (unsigned k = 0; k < want[std::size_t(i)].first; ++k) v.push_back(T{});
            vm::expect(v.size() == want[std::size_t(i)].first, "B01", "a resizable buffer could not be filled to its capacity");
        } else
            for (auto& e : v) e = T{};
    }
    vm::st().nontrivial = true;
}

template <typename T, typename ST>
void jagged_case(Rng& rng) {
    using view = vecmem::data::jagged_vector_view<T>;
    using row = typename view::value_type;
    using S = typename row::size_type;
    const bool giant = sizeof(ST) > 2 && rng.chance(30);
    Upstream up(rng.next(), giant ? Upstream::VIRTUAL : rng.chance(500) ? Upstream::MALLOC : Upstream::SLAB_UP, "main");
    Upstream hup(rng.next(), Upstream::MALLOC, "host");
    up.keep_events = hup.keep_events = false;
    vecmem::copy cp;
    int mode = int(rng.below(5));
    std::size_t rows = rng.chance(80) ? 0 : rng.range(1, rng.chance(100) ? 60 : 9);
    std::vector<ST> caps;
    for (std::size_t i = 0; i < rows; ++i)
        caps.push_back(ST(mode == 0 ? 0 : mode == 1 ? rng.below(3) : mode == 2 ? (i + 1 == rows ? rng.below(9) : 0) : rng.below(mode == 3 ? 120 : 9)));
    if (sizeof(ST) > 2 && sizeof(T) <= 16 && rows && rng.chance(5)) {
        // offsets and capacities beyond 16 bits
        for (std::size_t k = 0; k < 2; ++k) caps[rng.below(rows)] = ST(rng.range(30000, 80000));
        vm::count("large");
    }
    if (sizeof(ST) > 2 && sizeof(T) <= 16 && !giant && rng.chance(2)) {  // more rows than 16 bits count
        rows = rng.range(65500, 66000);
        caps.clear();
        for (std::size_t i = 0; i < rows; ++i) caps.push_back(ST(rng.below(3)));
        vm::count("many_rows");
    }
    if (giant) {
        for (auto& c : caps)
            if (rng.chance(400)) c = ST(giant_capacity(rng, sizeof(T)));
        while (caps.size() > 8) caps.pop_back();
        rows = caps.size();
        vm::count("giant_buffers");
    }
    BT type = rng.chance(500) ? BT::resizable : BT::fixed_size;
    bool sep = giant || rng.chance(500);
    std::string cs;
    for (auto c : caps)
        if (cs.size() < 400) cs += " " + std::to_string(unsigned(c));
    vm::trace("jagged buffer [%s ] of %zu byte elements aligned %zu, %s, %s", cs.c_str(), sizeof(T), alignof(T), type == BT::resizable ? "resizable" : "fixed",
              sep ? "separate host memory" : "one resource");
    vecmem::memory_resource* h = sep ? &hup : nullptr;
    using buf_t = vecmem::data::jagged_vector_buffer<T>;
    buf_t b;
    if (!giant && rng.chance(300)) {
        // from the shape of existing data
        Upstream src(rng.next(), Upstream::MALLOC, "source");
        vecmem::jagged_vector<T> from(&src);
        for (auto c : caps) from.emplace_back(std::size_t(c));
        auto d = vecmem::get_data(from);
        b = buf_t(view(d), up, h, type);
        vm::count("from_views");
    } else
        b = buf_t(caps, up, h, type);
    auto check = [&](bool set_up) {
        vm::expect(b.size() == rows && b.capacity() == rows, "B01", "a buffer of %zu rows shows %zu", rows, std::size_t(b.size()));
        if (rows == 0) return;
        const Upstream& hu = sep ? hup : up;
        Pieces ps("B01");
        ps.add(hu, b.host_ptr(), rows * sizeof(row), alignof(row), "row descriptors (host)");
        if (sep) ps.add(up, b.ptr(), rows * sizeof(row), alignof(row), "row descriptors");
        else vm::expect(b.ptr() == b.host_ptr(), "B01", "two sets of row descriptors without separate host memory");
        const row* hr = b.host_ptr();
        for (std::size_t i = 0; i < rows; ++i) {
            vm::expect(hr[i].capacity() == caps[i], "B01", "row %zu has capacity %u, %u requested", i, unsigned(hr[i].capacity()), unsigned(caps[i]));
            ps.add(up, hr[i].ptr(), std::size_t(caps[i]) * sizeof(T), alignof(T), "row", i);
            if (type == BT::resizable) {
                vm::expect(hr[i].size_ptr() != nullptr, "B01", "row %zu of a resizable buffer has no size", i);
                ps.add(up, hr[i].size_ptr(), sizeof(S), alignof(S), "size of row", i);
                if (set_up) vm::expect(hr[i].size() == 0, "B01", "row %zu of a resizable buffer shows size %u after set-up", i, unsigned(hr[i].size()));
            } else {
                vm::expect(hr[i].size_ptr() == nullptr, "B01", "row %zu of a fixed-size buffer has a size variable", i);
                vm::expect(hr[i].size() == caps[i], "B01", "row %zu of a fixed-size buffer shows size %u, %u expected", i, unsigned(hr[i].size()), unsigned(caps[i]));
            }
        }
        ps.disjoint();
        if (set_up)
            for (std::size_t i = 0; i < rows; ++i)
                vm::expect(b.ptr()[i].ptr() == hr[i].ptr() && b.ptr()[i].capacity() == hr[i].capacity() && b.ptr()[i].size_ptr() == hr[i].size_ptr(), "B01",
                           "after set-up the device's descriptor of row %zu differs from the host's", i);
    };
    check(false);
    if (giant) {  // nothing behind the addresses
        vm::st().nontrivial = rows > 0;
        return;
    }
    cp.setup(b)->wait();
    check(true);
    if (rng.chance(500)) {
        buf_t moved(std::move(b));
        b = std::move(moved);
        check(true);
    }
    // every row to its capacity, no row seen from another
    vecmem::jagged_device_vector<T> jv(b);
    for (std::size_t i = 0; i < rows; ++i) {
        auto r = jv[S(i)];
        if (type == BT::resizable)
            for (unsigned k = 0; k < unsigned(caps[i]); ++k) r.push_back(T{});
        vm::expect(r.size() == caps[i], "B01", "row %zu could not be filled to its capacity", i);
        for (unsigned k = 0; k < unsigned(caps[i]); ++k) std::memset(static_cast<void*>(&r[k]), int(i * 31 + k) & 0xff, sizeof(T));
    }
    for (std::size_t i = 0; i < rows; ++i) {
        auto r = jv[S(i)];
        vm::expect(r.size() == caps[i], "B01", "the size of row %zu changed when other rows were written", i);
        for (unsigned k = 0; k < unsigned(caps[i]); ++k) {
            const auto* q = reinterpret_cast<const unsigned char*>(&r[k]);
            for (std::size_t x = 0; x < sizeof(T); ++x) vm::expect(q[x] == ((i * 31 + k) & 0xff), "B01", "element %u of row %zu shares memory with another", k, i);
        }
    }
    vm::count("jagged_buffers");
    vm::st().nontrivial = rows > 0;
}
}  // namespace

#ifndef NO_B01
VM_CASES(B01, 14, vm::Cases<>, [](auto k, vm::Rng& rng) {
    if constexpr (k == 0) flat_case<char>(rng);
    else if constexpr (k == 1) flat_case<short>(rng);
    else if constexpr (k == 2) flat_case<int>(rng);
    else if constexpr (k == 3) flat_case<double>(rng);
    else if constexpr (k == 4) flat_case<vm::Odd3>(rng);
    else if constexpr (k == 5) flat_case<Over64>(rng);
    else if constexpr (k == 6) jagged_case<char, std::size_t>(rng);
    else if constexpr (k == 7) jagged_case<short, unsigned int>(rng);
    else if constexpr (k == 8) jagged_case<int, unsigned char>(rng);
    else if constexpr (k == 9) jagged_case<double, unsigned short>(rng);
    else if constexpr (k == 10) jagged_case<Odd12, unsigned int>(rng);
    else if constexpr (k == 11) jagged_case<vm::Wide, std::size_t>(rng);
    else if constexpr (k == 12) jagged_case<Over64, unsigned int>(rng);
    else rng.chance(500) ? flat_case<Over256>(rng) : jagged_case<Over256, std::size_t>(rng);
})
VM_PROP(B01) {
    vm::Cases<>::run("B01", rng.below(14), rng);
}
#endif

// ------------------------------------------------------------------ B02
namespace {
struct Page {
    u64 v[8192];
};

}  // namespace
template <>
struct vm::Elem<Page> {
    static Page make(u64 x) { return Page{{x}}; }
    static bool same(const Page& t, u64 x) { return t.v[0] == x; }
};
namespace {
using namespace vecmem::edm::type;
using soa::Soa;
namespace edm = vecmem::edm;

template <typename S>
typename S::buffer make_buffer(unsigned n, const std::vector<unsigned>& inner, vecmem::memory_resource& mr, vecmem::memory_resource* h, BT type) {
    if constexpr (S::has_jagged) return typename S::buffer(inner, mr, h, type);
    else {
        (void)inner;
        (void)h;
        return typename S::buffer(n, mr, type);
    }
}

template <typename S>
void soa_case(Rng& rng, bool paged = false) {
    const bool giant = paged || (S::has_jagged && rng.chance(40));
    Upstream up(rng.next(), giant ? Upstream::VIRTUAL : rng.chance(500) ? Upstream::MALLOC : Upstream::SLAB_UP, "main");
    Upstream hup(rng.next(), Upstream::MALLOC, "host");
    up.keep_events = hup.keep_events = false;
    vecmem::copy cp;
    unsigned n = unsigned(rng.chance(100) ? 0 : rng.chance(100) ? 1 : rng.below(rng.chance(100) ? 500 : 12));
    int mode = int(rng.below(4));
    std::vector<unsigned> inner;
    for (unsigned k = 0; k < n; ++k) inner.push_back(unsigned(mode == 0 ? 0 : mode == 1 ? rng.below(3) : rng.below(9)));
    if (paged) n = unsigned(rng.range(60000, 70000));
    else if (giant) {
        for (auto& c : inner)
            if (rng.chance(400)) c = unsigned(giant_capacity(rng, 8));
    }
    if (giant) vm::count("giant_buffers");
    else if (rng.chance(2)) {  // more elements or rows than 16 bits count
        n = unsigned(rng.range(65500, 66000));
        inner.clear();
        for (unsigned k = 0; k < n; ++k) inner.push_back(unsigned(rng.below(3)));
        vm::count("many_rows");
    }
    BT type = rng.chance(500) ? BT::resizable : BT::fixed_size;
    bool sep = S::has_jagged && (giant || rng.chance(500));
    std::string cs;
    for (auto c : inner)
        if (cs.size() < 400) cs += " " + std::to_string(c);
    vm::trace("soa buffer <%s> of %u [%s ], %s, %s", S::name().c_str(), n, S::has_jagged ? cs.c_str() : "", type == BT::resizable ? "resizable" : "fixed",
              sep ? "separate host memory" : "one resource");
    typename S::buffer b = make_buffer<S>(n, inner, up, sep ? &hup : nullptr, type);
    Pieces ps("B02");
    struct Span {
        const char *lo = nullptr, *hi = nullptr;
        void add(const void* p, std::size_t k) {
            if (!k) return;
            auto c = static_cast<const char*>(p);
            if (!lo || c < lo) lo = c;
            if (!hi || c + k > hi) hi = c + k;
        }
    };
    Span payload, layout, hlayout, sizes;
    vm::expect(b.capacity() == n, "B02", "a buffer of %u elements shows capacity %u", n, unsigned(b.capacity()));
    const bool common = type == BT::resizable && !S::has_jagged;
    if (common) {
        vm::expect(b.size().ptr() != nullptr, "B02", "a resizable buffer has no size variable");
        ps.add(up, b.size().ptr(), sizeof(unsigned), alignof(unsigned), "common size");
        sizes.add(b.size().ptr(), sizeof(unsigned));
    }
    auto visit = [&](bool set_up, bool pieces) {
        S::each([&](auto I) {
            using T = typename S::template V<I>::type;
            constexpr auto kind = S::template V<I>::kind;
            auto& v = b.template get<I>();
            if constexpr (kind == soa::SCALAR) {
                if (pieces) {
                    ps.add(up, v, sizeof(T), alignof(T), "scalar", I);
                    payload.add(v, sizeof(T));
                }
            } else if constexpr (kind == soa::VECTOR) {
                vm::expect(v.capacity() == n, "B02", "variable %zu has capacity %u instead of %u", std::size_t(I), unsigned(v.capacity()), n);
                if (pieces) {
                    ps.add(up, v.ptr(), n * sizeof(T), alignof(T), "vector", I);
                    payload.add(v.ptr(), n * sizeof(T));
                }
                if (common) {
                    vm::expect(static_cast<void*>(v.size_ptr()) == b.size().ptr(), "B02", "variable %zu does not use the container's size", std::size_t(I));
                    if (set_up) vm::expect(v.size() == 0, "B02", "variable %zu shows size %u after set-up", std::size_t(I), unsigned(v.size()));
                } else {
                    vm::expect(v.size_ptr() == nullptr, "B02", "variable %zu has a size variable although it can not be resized", std::size_t(I));
                    vm::expect(v.size() == n, "B02", "variable %zu shows size %u instead of %u", std::size_t(I), unsigned(v.size()), n);
                }
            } else {
                vm::expect(v.size() == n && v.capacity() == n, "B02", "variable %zu has %u rows instead of %u", std::size_t(I), unsigned(v.size()), n);
                using row = std::remove_reference_t<decltype(*v.ptr())>;
                if (n == 0) return;
                const row* hr = v.host_ptr();
                if (pieces) {
                    ps.add(sep ? hup : up, hr, n * sizeof(row), alignof(row), "host layout", I);
                    hlayout.add(hr, n * sizeof(row));
                    layout.add(v.ptr(), n * sizeof(row));
                    if (sep) ps.add(up, v.ptr(), n * sizeof(row), alignof(row), "layout", I);
                    else vm::expect(v.ptr() == hr, "B02", "variable %zu has two layouts without separate host memory", std::size_t(I));
                }
                for (unsigned k = 0; k < n; ++k) {
                    vm::expect(hr[k].capacity() == inner[k], "B02", "row %u of variable %zu has capacity %u instead of %u", k, std::size_t(I), unsigned(hr[k].capacity()), inner[k]);
                    if (pieces) {
                        ps.add(up, hr[k].ptr(), inner[k] * sizeof(T), alignof(T), "row", k);
                        payload.add(hr[k].ptr(), inner[k] * sizeof(T));
                    }
                    if (type == BT::resizable) {
                        vm::expect(hr[k].size_ptr() != nullptr, "B02", "row %u of variable %zu has no size", k, std::size_t(I));
                        if (pieces) {
                            ps.add(up, hr[k].size_ptr(), sizeof(unsigned), alignof(unsigned), "size of row", k);
                            sizes.add(hr[k].size_ptr(), sizeof(unsigned));
                        }
                        if (set_up) vm::expect(hr[k].size() == 0, "B02", "row %u of variable %zu shows size %u after set-up", k, std::size_t(I), unsigned(hr[k].size()));
                    } else {
                        vm::expect(hr[k].size_ptr() == nullptr, "B02", "row %u of variable %zu has a size variable although it is fixed", k, std::size_t(I));
                        vm::expect(hr[k].size() == inner[k], "B02", "row %u of variable %zu shows size %u instead of %u", k, std::size_t(I), unsigned(hr[k].size()), inner[k]);
                    }
                    if (set_up)
                        vm::expect(v.ptr()[k].ptr() == hr[k].ptr() && v.ptr()[k].capacity() == hr[k].capacity() && v.ptr()[k].size_ptr() == hr[k].size_ptr(), "B02",
                                   "after set-up the device's descriptor of row %u of variable %zu differs from the host's", k, std::size_t(I));
                }
            }
        });
    };
    visit(false, true);
    ps.disjoint();
    auto region = [&](const auto& r, const Span& s, const char* what) {
        std::size_t want = std::size_t(s.hi - s.lo);
        vm::count("regions");
        // More than a region can describe is described by none.
        if (want > std::numeric_limits<std::decay_t<decltype(r.capacity())>>::max() && r.ptr() == nullptr && r.capacity() == 0 && r.size() == 0) return;
        vm::expect(r.capacity() == want && r.size() == want, "B02", "the reported %s region has %u bytes, its parts span %zu", what, unsigned(r.capacity()), want);
        if (want) vm::expect(r.ptr() == s.lo, "B02", "the reported %s region starts at the wrong place", what);
    };
    region(b.payload(), payload, "payload");
    region(b.layout(), layout, "layout");
    region(b.host_layout(), sep ? hlayout : layout, "host layout");
    region(b.size(), sizes, "size");
    if (giant) {  // nothing behind the addresses
        vm::count("soa_buffers");
        vm::st().nontrivial = n > 0;
        return;
    }
    // Garbage in the sizes before the set-up.
    if (b.size().capacity()) std::memset(b.size().ptr(), 0x3c, b.size().capacity());
    cp.setup(b)->wait();
    visit(true, false);
    if (rng.chance(400)) {
        typename S::buffer m(std::move(b));
        b = std::move(m);
        visit(true, false);
    }
    typename S::device d(b);
    vm::expect(d.capacity() == n, "B02", "the device container shows capacity %u instead of %u", unsigned(d.capacity()), n);
    if constexpr (!S::has_jagged) {
        vm::expect(d.size() == (type == BT::resizable ? 0 : n), "B02", "the device container shows size %u after set-up", unsigned(d.size()));
        if (type == BT::resizable)
            for (unsigned k = 0; k < n; ++k) d.push_back_default();
        vm::expect(d.size() == n, "B02", "the container could not be filled to its capacity");
    }
    S::each([&](auto I) {
        using T = typename S::template V<I>::type;
        constexpr auto kind = S::template V<I>::kind;
        if constexpr (kind == soa::SCALAR) d.template get<I>() = vm::make<T>(I + 1);
        else if constexpr (kind == soa::VECTOR) {
            for (unsigned k = 0; k < n; ++k) d.template get<I>()[k] = vm::make<T>(k * 7 + I);
        } else
            for (unsigned k = 0; k < n; ++k) {
                auto r = d.template get<I>()[k];
                for (unsigned q = 0; q < inner[k]; ++q) {
                    if (type == BT::resizable) r.push_back(vm::make<T>(k * 31 + q + I));
                    else r[q] = vm::make<T>(k * 31 + q + I);
                }
            }
    });
    S::each([&](auto I) {
        using T = typename S::template V<I>::type;
        constexpr auto kind = S::template V<I>::kind;
        bool ok = true;
        if constexpr (kind == soa::SCALAR) ok = vm::same<T>(d.template get<I>(), I + 1);
        else if constexpr (kind == soa::VECTOR) {
            for (unsigned k = 0; k < n; ++k) ok = ok && vm::same<T>(d.template get<I>()[k], k * 7 + I);
        } else
            for (unsigned k = 0; k < n; ++k) {
                auto r = d.template get<I>()[k];
                ok = ok && r.size() == inner[k];
                for (unsigned q = 0; ok && q < inner[k]; ++q) ok = vm::same<T>(r[q], k * 31 + q + I);
            }
        vm::expect(ok, "B02", "variable %zu shares memory with another, or its size is wrong", std::size_t(I));
    });
    ps.exercise();
    vm::count("soa_buffers");
    vm::st().nontrivial = n > 0;
}
}  // namespace

#ifndef NO_B02
VM_CASES(B02, 10, vm::Cases<>, [](auto k, vm::Rng& rng) {
    using vm::Odd3;
    using vm::Wide;
    if constexpr (k == 0) soa_case<Soa<scalar<int>, vector<float>, scalar<char>, vector<double>>>(rng);
    else if constexpr (k == 1) soa_case<Soa<vector<char>>>(rng);
    else if constexpr (k == 2) soa_case<Soa<vector<Wide>, scalar<double>, vector<Odd3>>>(rng);
    else if constexpr (k == 3) soa_case<Soa<jagged_vector<short>>>(rng);
    else if constexpr (k == 4) soa_case<Soa<vector<char>, jagged_vector<double>, scalar<float>, jagged_vector<Odd3>>>(rng);
    else if constexpr (k == 5) soa_case<Soa<jagged_vector<Wide>, vector<int>>>(rng);
    else if constexpr (k == 6) soa_case<Soa<scalar<Wide>, scalar<char>, vector<short>>>(rng);
    else if constexpr (k == 7) soa_case<Soa<scalar<char>, jagged_vector<int>, jagged_vector<char>, vector<double>>>(rng);
    else if constexpr (k == 8) soa_case<Soa<vector<char>, vector<short>, vector<int>, scalar<char>, vector<double>>>(rng);
    else rng.chance(500) ? soa_case<Soa<vector<short>, scalar<char>, vector<Page>>>(rng, true) : soa_case<Soa<vector<Page>, vector<char>>>(rng, true);
})
VM_PROP(B02) {
    vm::Cases<>::run("B02", rng.chance(5) ? 9 : rng.below(9), rng);
}
#endif

// ------------------------------------------------------------------ B03
namespace {
struct Env {
    Upstream main, host;
    const Upstream *elements = nullptr, *descriptions = nullptr;  // where the owner made last keeps them
    vecmem::memory_resource* host_or_null(Rng& r) {
        bool with = r.chance(600);
        elements = &main;
        descriptions = with ? &host : &main;
        return with ? &host : nullptr;
    }
    vecmem::memory_resource& only_main() {
        elements = descriptions = &main;
        return main;
    }
    vecmem::memory_resource& only_host() {
        elements = descriptions = &host;
        return host;
    }
    explicit Env(Rng& r) : main(r.next(), r.chance(500) ? Upstream::MALLOC : Upstream::RECYCLE, "main"), host(r.next(), Upstream::MALLOC, "host") {
        main.keep_events = host.keep_events = false;
    }
};

// Everything an owner says about its memory.
using Print = std::vector<std::uintptr_t>;
struct Region {
    char* p;
    std::size_t n;
    bool host = false, described = false;  // for the host; not an element or a size, so never overwritten
};
template <typename T>
void fp(const vecmem::data::vector_view<T>& v, Print& o, std::vector<Region>& r) {
    o.push_back(reinterpret_cast<std::uintptr_t>(v.ptr()));
    o.push_back(reinterpret_cast<std::uintptr_t>(v.size_ptr()));
    o.push_back(v.capacity());
    if (v.size_ptr()) r.push_back({reinterpret_cast<char*>(v.size_ptr()), sizeof(unsigned)});
    if (v.capacity() && v.ptr()) r.push_back({reinterpret_cast<char*>(v.ptr()), v.capacity() * sizeof(T)});
}
template <typename T>
void fp(const vecmem::data::jagged_vector_view<T>& v, Print& o, std::vector<Region>& r) {
    o.push_back(reinterpret_cast<std::uintptr_t>(v.ptr()));
    o.push_back(reinterpret_cast<std::uintptr_t>(v.host_ptr()));
    o.push_back(v.size());
    if (v.size()) {
        r.push_back({(char*)v.ptr(), v.size() * sizeof(*v.ptr()), false, true});
        r.push_back({(char*)v.host_ptr(), v.size() * sizeof(*v.ptr()), true, true});
    }
    for (std::size_t i = 0; i < v.size(); ++i) fp(v.host_ptr()[i], o, r);
}
template <typename T>
void fp(T* const& v, Print& o, std::vector<Region>& r) {
    o.push_back(reinterpret_cast<std::uintptr_t>(v));
    if (v) r.push_back({reinterpret_cast<char*>(v), sizeof(T)});
}
template <typename... VS>
void fp(const edm::view<edm::schema<VS...>>& v, Print& o, std::vector<Region>& r) {
    o.push_back(v.capacity());
    for (auto* m : {&v.size(), &v.payload(), &v.layout(), &v.host_layout()}) {
        o.push_back(reinterpret_cast<std::uintptr_t>(m->ptr()));
        o.push_back(m->capacity());
        if (m->capacity()) r.push_back({(char*)m->ptr(), m->capacity(), m == &v.host_layout(), true});
    }
    Soa<VS...>::each([&](auto I) { fp(v.template get<I>(), o, r); });
}

struct Owner {
    Print print;
    std::vector<Region> regions;
    u64 pat = 0;
    bool filled = false, moved_from = false;
    const Upstream *main = nullptr, *host = nullptr;  // what it was made with
    virtual ~Owner() = default;
    virtual void create(Rng&, Env&) = 0;
    virtual void move_from(Owner&, bool construct) = 0;
    virtual void look(Print&, std::vector<Region>&) const = 0;
    virtual bool can_hold() const = 0;
    void fill(Rng& rng) {
        regions.clear();
        print.clear();
        look(print, regions);
        filled = can_hold();
        pat = rng.next();
        if (filled)
            for (auto& q : regions)
                for (std::size_t i = 0; i < q.n && !q.described; ++i) q.p[i] = char(pat + i * 3);
    }
    void check() const {
        if (moved_from) return;
        Print now;
        std::vector<Region> r;
        now.reserve(64);
        r.reserve(32);
        look(now, r);
        vm::expect(now == print, "B03", "an owner no longer describes the memory it (or the owner it was moved from) had");
        for (auto& q : r) {
            if (!filled && !q.described) continue;  // made-up rows
            vm::expect((q.host ? host : main)->holds(q.p, q.n), "B03", "a live owner uses memory that it does not hold from the resource meant for it");
            if (q.described) continue;
            bool ok = true;
            for (std::size_t i = 0; i < q.n; ++i) ok = ok && q.p[i] == char(pat + i * 3);
            vm::expect(ok, "B03", "contents of a live owner changed");
        }
        vm::count("owners_checked");
    }
};

std::vector<std::size_t> rows(Rng& rng) {
    const bool many = rng.below(2000) == 0;  // more than 16 bits count
    if (many) vm::count("many_rows");
    std::vector<std::size_t> r(many ? rng.range(65500, 66000) : rng.chance(100) ? 0 : rng.below(6));
    for (auto& x : r) x = rng.below(many ? 2 : 7);
    return r;
}
template <typename B>
struct Make;
template <typename T>
struct Make<vecmem::data::vector_buffer<T>> {
    static constexpr bool owns = true;
    static auto go(Rng& rng, Env& e) { return vecmem::data::vector_buffer<T>(unsigned(rng.chance(100) ? 0 : rng.below(60)), e.only_main(), rng.chance(500) ? BT::resizable : BT::fixed_size); }
};
template <typename T>
struct Make<vecmem::data::jagged_vector_buffer<T>> {
    static constexpr bool owns = true;
    static auto go(Rng& rng, Env& e) {
        return vecmem::data::jagged_vector_buffer<T>(rows(rng), e.main, e.host_or_null(rng), rng.chance(500) ? BT::resizable : BT::fixed_size);
    }
};
template <typename T>
struct Make<vecmem::data::jagged_vector_data<T>> {
    static constexpr bool owns = false;
    static auto go(Rng& rng, Env& e) {
        vecmem::data::jagged_vector_data<T> d(rng.below(6), e.only_host());
        for (std::size_t i = 0; i < d.size(); ++i) d.ptr()[i] = vecmem::data::vector_view<T>(unsigned(rng.below(9)), reinterpret_cast<T*>(rng.below(1000) * 64));
        return d;
    }
};
template <typename... VS>
struct Make<edm::buffer<edm::schema<VS...>>> {
    static constexpr bool owns = true;
    static auto go(Rng& rng, Env& e) {
        auto r = rows(rng);
        BT type = rng.chance(500) ? BT::resizable : BT::fixed_size;
        if constexpr (Soa<VS...>::has_jagged) return edm::buffer<edm::schema<VS...>>(r, e.main, e.host_or_null(rng), type);
        else return edm::buffer<edm::schema<VS...>>(unsigned(r.size() * 5), e.only_main(), type);
    }
};
template <typename... VS>
struct Make<edm::data<edm::schema<VS...>>> {
    static constexpr bool owns = false;
    static auto go(Rng& rng, Env& e) { return edm::data<edm::schema<VS...>>(unsigned(rng.below(7)), e.only_host()); }
};

template <typename B>
struct Held : Owner {
    std::optional<B> b;
    void create(Rng& rng, Env& e) override {
        b.emplace(Make<B>::go(rng, e));
        main = e.elements;
        host = e.descriptions;
    }
    void move_from(Owner& o, bool construct) override {
        auto& other = static_cast<Held&>(o);
        main = other.main;
        host = other.host;
        if (construct) {
            B tmp(std::move(*other.b));
            b.reset();
            b.emplace(std::move(tmp));
        } else
            *b = std::move(*other.b);
        print = other.print;
        regions = other.regions;
        pat = other.pat;
        filled = other.filled;
        moved_from = other.moved_from;
        other.moved_from = true;
    }
    void look(Print& o, std::vector<Region>& r) const override { fp(view_of(*b), o, r); }
    bool can_hold() const override { return Make<B>::owns; }
    template <typename T>
    static const vecmem::data::vector_view<T>& view_of(const vecmem::data::vector_buffer<T>& x) {
        return x;
    }
    template <typename T>
    static const vecmem::data::jagged_vector_view<T>& view_of(const vecmem::data::jagged_vector_buffer<T>& x) {
        return x;
    }
    template <typename T>
    static const vecmem::data::jagged_vector_view<T>& view_of(const vecmem::data::jagged_vector_data<T>& x) {
        return x;
    }
    template <typename S>
    static const edm::view<S>& view_of(const edm::buffer<S>& x) {
        return x;
    }
    template <typename S>
    static const edm::view<S>& view_of(const edm::data<S>& x) {
        return x;
    }
};

#ifndef NO_B03
std::unique_ptr<Owner> new_owner(int kind) {
    using namespace vecmem::data;
    switch (kind) {
        case 0: return std::make_unique<Held<vector_buffer<int>>>();
        case 1: return std::make_unique<Held<vector_buffer<vm::Wide>>>();
        case 2: return std::make_unique<Held<jagged_vector_buffer<double>>>();
        case 3: return std::make_unique<Held<jagged_vector_buffer<vm::Odd3>>>();
        case 4: return std::make_unique<Held<jagged_vector_data<short>>>();
        case 5: return std::make_unique<Held<edm::buffer<edm::schema<scalar<int>, vector<double>, vector<char>>>>>();
        case 6: return std::make_unique<Held<edm::buffer<edm::schema<vector<int>, jagged_vector<float>, scalar<char>, jagged_vector<vm::Odd3>>>>>();
        default: return std::make_unique<Held<edm::data<edm::schema<vector<int>, jagged_vector<float>, jagged_vector<char>>>>>();
    }
}
#endif
}  // namespace

#ifndef NO_B03
VM_PROP(B03, "M03") {
    Env e(rng);
    u64 countdown = 0;
    auto failing = [&](std::size_t, std::size_t) { return countdown > 0 && --countdown == 0; };
    e.main.fail_when = failing;
    e.host.fail_when = failing;
    std::vector<std::pair<int, std::unique_ptr<Owner>>> os;
    int steps = int(rng.range(5, 60));
    for (int s = 0; s < steps; ++s) {
        u64 op = rng.below(10);
        if (os.empty() || op < 4) {
            int kind = int(rng.below(8));
            auto o = new_owner(kind);
            bool inject = rng.chance(250);
            countdown = inject ? rng.range(1, 4) : 0;
            auto before = e.main.live.size() + e.host.live.size();
            vm::trace("create %d%s", kind, inject ? " (with a failure coming)" : "");
            bool ok = true;
            try {
                o->create(rng, e);
            } catch (std::bad_alloc&) {
                ok = false;
            }
            if (!ok) {
                vm::expect(inject && countdown == 0, "B03", "creating an owner failed without a failing resource");
                vm::expect(e.main.live.size() + e.host.live.size() == before, "B03", "creating an owner failed half-way and kept memory");
                vm::count("failed_creations");
                continue;
            }
            vm::expect(!(inject && countdown == 0), "B03", "the resource failed and the owner was created all the same");
            countdown = 0;
            o->fill(rng);
            os.emplace_back(kind, std::move(o));
            vm::count("creations");
        } else if (op < 5) {
            std::size_t i = rng.below(os.size());
            vm::trace("destroy #%zu", i);
            os.erase(os.begin() + long(i));
        } else {
            std::size_t i = rng.below(os.size()), j = rng.below(os.size());
            if (i == j || os[i].first != os[j].first) {
                // try to find a partner of the same kind
                for (j = 0; j < os.size(); ++j)
                    if (j != i && os[j].first == os[i].first) break;
                if (j == os.size()) continue;
            }
            if (os[j].second->moved_from) continue;
            bool construct = rng.chance(500);
            vm::trace("move %s #%zu <- #%zu", construct ? "construct" : "assign", i, j);
            os[i].second->move_from(*os[j].second, construct);
            vm::count("moves");
        }
        if (s % 6 == 0)
            for (auto& o : os) o.second->check();
    }
    while (!os.empty()) {
        std::size_t i = rng.below(os.size());
        os.erase(os.begin() + long(i));
        if (!os.empty()) os[rng.below(os.size())].second->check();
    }
    e.main.expect_all_returned("B03");
    e.host.expect_all_returned("B03");
    vm::st().nontrivial = steps > 15;
}
#endif

VM_MAIN
