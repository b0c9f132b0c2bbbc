// V01, V04, V05, V07, E02, C02, C03 on containers with more elements or rows
// than 31 or 32 bits count. Their memory is real, but only the touched pages
// of it exist (sparse.hpp); elements are addressed by the harness itself with
// 64-bit arithmetic.
#include "soa.hpp"
#include "sparse.hpp"

#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/device_vector.hpp>
#include <vecmem/containers/jagged_device_vector.hpp>
#include <vecmem/edm/container.hpp>
#include <vecmem/memory/host_memory_resource.hpp>
#include <vecmem/utils/copy.hpp>

#include <thread>

using vm::Rng;
using vm::Sparse;
using vm::u64;

namespace {
namespace data = vecmem::data;
using BT = data::buffer_type;
constexpr u64 B31 = u64(1) << 31, B32 = u64(1) << 32;

struct P16 {
    u64 a, b;
};
template <typename T>
T val(u64 x) {
    if constexpr (std::is_same_v<T, P16>) return P16{vm::mix(x), ~vm::mix(x)};
    else if constexpr (std::is_floating_point_v<T>) return T(std::int64_t(vm::mix(x)) >> 44);
    else return T(vm::mix(x));
}
template <typename T>
bool eq(const T& a, const T& b) {
    return std::memcmp(&a, &b, sizeof(T)) == 0;
}
// A number of elements around which narrow arithmetic goes wrong.
unsigned near(Rng& rng) {
    u64 k = rng.below(6);
    if (k == 0) return unsigned(B31 + rng.below(40));
    if (k == 1) return unsigned(B32 - 1 - rng.below(40));
    if (k == 2) return unsigned(B31 + rng.below(B31));
    if (k == 3) return unsigned(B31 + (B31 >> 1) + rng.below(40));
    return unsigned(B31 - 20 + rng.below(40));
}
u64 place(Rng& rng, u64 n) {
    u64 k = rng.below(7), i;
    if (k == 0) i = rng.below(4);
    else if (k == 1) i = n - 1 - rng.below(std::min<u64>(n, 4));
    else if (k == 2) i = B31 - 2 + rng.below(4);
    else if (k == 3) i = B32 - 2 + rng.below(4);
    else if (k == 4) i = (u64(1) << rng.range(10, 33)) - 1 + rng.below(3);
    else i = rng.below(n);
    return i < n ? i : rng.below(n);
}

// What the elements are to be; those that were never written are zero.
template <typename T>
struct Model {
    T* p = nullptr;
    u64 n = 0, cap = 0;
    std::map<u64, T> m;
    T at(u64 i) const {
        auto it = m.find(i);
        if (it != m.end()) return it->second;
        T z;
        std::memset(static_cast<void*>(&z), 0, sizeof z);
        return z;
    }
    // a place that was written, or one next to it, or any other
    u64 some(Rng& rng) const {
        if (!m.empty() && rng.chance(700)) {
            auto it = m.lower_bound(rng.below(n));
            if (it == m.end()) it = m.begin();
            u64 i = it->first + rng.below(3) - (it->first ? 1 : 0);
            if (i < n) return i;
        }
        return place(rng, n);
    }
    void memory(Rng& rng, const char* tag, const char* when) {
        for (int k = 0; k < 4; ++k) {
            u64 i = rng.chance(200) && cap ? place(rng, cap) : n ? some(rng) : 0;
            if (i < cap) vm::expect(eq(p[i], at(i)), tag, "%s: the memory of element %llu holds something else", when, (unsigned long long)i);
        }
        if (n < cap) vm::expect(eq(p[n], at(n)), tag, "%s: the memory behind the last element changed", when);
    }
};

// ------------------------------------------------------------------ vectors
template <typename T, typename V>
void read_one(V& v, const Model<T>& m, Rng& rng, const char* tag) {
    const V& c = v;
    vm::expect(c.size() == m.n && c.capacity() == m.cap && c.max_size() == m.cap && c.empty() == (m.n == 0), tag, "size %u capacity %u, expected %llu and %llu", unsigned(c.size()),
               unsigned(c.capacity()), (unsigned long long)m.n, (unsigned long long)m.cap);
    vm::expect(u64(c.end() - c.begin()) == m.n && u64(v.end() - v.begin()) == m.n && u64(c.cend() - c.cbegin()) == m.n, tag, "the iterators enclose another number of elements than %llu",
               (unsigned long long)m.n);
    vm::expect(v.data() == m.p && c.data() == m.p, tag, "the storage is elsewhere");
    if (m.n == 0) return;
    u64 i = m.some(rng), r = m.n - 1 - i;
    auto u = typename V::size_type(i);
    const T* at = nullptr;
    u64 path = rng.below(13);
    auto d = std::ptrdiff_t(i), rd = std::ptrdiff_t(r);
    switch (path) {
        case 0: at = &v[u]; break;
        case 1: at = &c[u]; break;
        case 2: at = &v.at(u); break;
        case 3: at = &c.at(u); break;
        case 4: at = &*(v.begin() + d); break;
        case 5: at = &*(c.end() - rd - 1); break;
        case 6: at = &*(v.rbegin() + rd); break;
        case 7: at = &c.rbegin()[rd]; break;
        case 8: at = &*(c.rend() - d - 1); break;
        case 9: at = &v.back(), i = m.n - 1; break;
        case 10: at = &c.front(), i = 0; break;
        case 11: at = &c.back(), i = m.n - 1; break;
        default: at = &*(c.crbegin() += rd);
    }
    vm::expect(at == m.p + i, tag, "access path %llu to element %llu of %llu ends at %lld", (unsigned long long)path, (unsigned long long)i, (unsigned long long)m.n, (long long)(at - m.p));
    if (at == m.p + i) vm::expect(eq(*at, m.at(i)), tag, "element %llu holds something else", (unsigned long long)i);
    vm::count("big_comparisons");
}

// One change to a resizable (or fixed) device vector.
template <typename T, typename V>
void change_one(V& v, Model<T>& m, bool fixed, Rng& rng, const char* tag) {
    u64 room = m.cap - m.n, k = rng.below(9);
    if (fixed) k = 8;
    if (k < 5 && room == 0) k = 5;
    T x = val<T>(rng.next());
    auto ret = [&](u64 got, u64 want, const char* what) { vm::expect(got == want, tag, "%s returns %llu, expected %llu", what, (unsigned long long)got, (unsigned long long)want); };
    switch (k) {
        case 0:
            ret(v.push_back(x), m.n, "push_back");
            m.m[m.n++] = x;
            break;
        case 1: {
            T& t = v.emplace_back(x);
            vm::expect(&t == m.p + m.n, tag, "emplace_back refers to another element");
            m.m[m.n++] = x;
            break;
        }
        case 2: {
            u64 n = std::min<u64>(room, rng.below(20));
            ret(v.bulk_append(unsigned(n), x), m.n, "bulk_append");
            for (u64 i = 0; i < n; ++i) m.m[m.n++] = x;
            break;
        }
        case 3: {
            u64 n = std::min<u64>(room, rng.below(20));
            ret(v.bulk_append(unsigned(n)), m.n, "bulk_append");
            for (u64 i = 0; i < n; ++i) m.m[m.n++] = T{};
            break;
        }
        case 4: {
            u64 n = std::min<u64>(room, rng.below(20));
            bool big = rng.chance(200);
            if (big) n = rng.below(room + 1);
            u64 was = m.n;
            ret(rng.chance(500) ? v.bulk_append_implicit(unsigned(n)) : v.bulk_append_implicit_unsafe(unsigned(n)), m.n, "bulk_append_implicit");
            m.n += n;
            for (u64 i = 0; i < std::min<u64>(n, 20); ++i) v[unsigned(was + i)] = x, m.m[was + i] = x;
            break;
        }
        case 5:
            if (m.n) {
                ret(v.pop_back(), m.n - 1, "pop_back");
                --m.n;
            }
            break;
        case 6: {
            u64 to = m.n + rng.below(60);
            to = to < 30 ? 0 : std::min<u64>(to - 30, m.cap);
            bool with = rng.chance(500);
            if (with) v.resize(unsigned(to), x);
            else v.resize(unsigned(to));
            for (u64 i = m.n; i < to; ++i) m.m[i] = with ? x : T{};
            m.n = to;
            break;
        }
        case 7: {
            u64 to = near(rng);
            if (to > m.cap) to = m.cap;
            if (rng.chance(500)) v.resize_implicit(unsigned(to));
            else v.resize_implicit_unsafe(unsigned(to));
            m.n = to;
            break;
        }
        default:
            if (m.n) {
                u64 i = place(rng, m.n), r = m.n - 1 - i;
                switch (rng.below(7)) {
                    case 0: v[unsigned(i)] = x; break;
                    case 1: v.at(unsigned(i)) = x; break;
                    case 2: *(v.begin() + std::ptrdiff_t(i)) = x; break;
                    case 3: v.rbegin()[std::ptrdiff_t(r)] = x; break;
                    case 4: v.data()[i] = x; break;
                    case 5: i = m.n - 1, v.back() = x; break;
                    default: i = 0, v.front() = x;
                }
                m.m[i] = x;
            }
    }
    vm::trace("  change %llu -> size %llu", (unsigned long long)k, (unsigned long long)m.n);
    vm::count("big_changes");
}

template <typename T>
void vector_case(Rng& rng) {
    Sparse mr;
    vecmem::copy cp;
    const char* tag = "V01";
    bool fixed = rng.chance(200);
    Model<T> m;
    m.cap = near(rng);
    data::vector_buffer<T> buf(unsigned(m.cap), mr, fixed ? BT::fixed_size : BT::resizable);
    cp.setup(buf)->wait();
    data::vector_view<T> view = buf;
    m.p = view.ptr();
    m.n = fixed ? m.cap : rng.chance(300) ? m.cap - rng.below(60) : std::min<u64>(near(rng), m.cap);
    vm::trace("vector of %llu x %zu bytes, %llu used%s", (unsigned long long)m.cap, sizeof(T), (unsigned long long)m.n, fixed ? ", fixed" : "");
    if (!fixed) *view.size_ptr() = unsigned(m.n);
    vecmem::device_vector<T> v(view), w(v);
    vecmem::device_vector<const T> c{data::vector_view<const T>(view)};
    int steps = int(rng.range(10, 50));
    for (int k = 0; k < steps && !vm::st().tainted; ++k) {
        change_one(rng.chance(500) ? v : w, m, fixed, rng, tag);
        m.memory(rng, tag, "after a change");
        read_one(rng.chance(500) ? v : w, m, rng, tag);
        read_one(c, m, rng, tag);
    }
    vm::st().nontrivial = true;
}

// ---------------------------------------------------------------- iterators
template <typename It, typename F>
void walk(It begin, It end, u64 n, F at, Rng& rng) {
    // the same arithmetic on a number
    It it = rng.chance(500) ? begin : end;
    u64 i = it == begin ? 0 : n;
    if (n == 0) return;
    for (int k = 0; k < 12; ++k) {
        u64 to = rng.chance(100) ? n : place(rng, n);
        auto d = std::ptrdiff_t(to) - std::ptrdiff_t(i);
        switch (rng.below(5)) {
            case 0: it += d; break;
            case 1: it -= -d; break;
            case 2: it = it + d; break;
            case 3: it = it - (-d); break;
            default:
                // from the start
                it = begin + std::ptrdiff_t(to);
        }
        i = to;
        switch (rng.below(5)) {
            case 0: if (i < n) ++it, ++i; break;
            case 1: if (i > 0) --it, --i; break;
            case 2: if (i < n) it++, ++i; break;
            case 3: if (i > 0) it--, --i; break;
        }
        vm::expect((it == begin) == (i == 0) && (it != end) == (i != n), "V04", "after steps to position %llu of %llu the iterator is equal to something else", (unsigned long long)i,
                   (unsigned long long)n);
        u64 j = place(rng, n);
        vm::expect(at(it[std::ptrdiff_t(j) - std::ptrdiff_t(i)], j), "V04", "[] from position %llu does not lead to %llu of %llu", (unsigned long long)i, (unsigned long long)j, (unsigned long long)n);
        if (i < n) {
            vm::expect(at(*it, i), "V04", "* at position %llu of %llu leads elsewhere", (unsigned long long)i, (unsigned long long)n);
        }
        vm::count("big_steps");
    }
}
// Rows without memory of their own that tell their number.
u64 rows_near(Rng& rng) { return rng.chance(400) ? near(rng) : B32 + rng.below(rng.chance(500) ? 40 : u64(1) << 31); }
template <typename T>
T* mark(u64 i) {
    return reinterpret_cast<T*>((std::uintptr_t(1) << 46) + i * 64);
}
template <typename T>
struct ManyRows {
    Sparse mr;
    u64 n;
    data::vector_view<T>* rows;
    std::set<u64> set;
    explicit ManyRows(Rng& rng) : n(rows_near(rng)), rows(static_cast<data::vector_view<T>*>(mr.allocate(n * sizeof(data::vector_view<T>), 64))) {}
    ~ManyRows() { mr.deallocate(rows, n * sizeof(data::vector_view<T>), 64); }
    // described when somebody is about to look
    u64 need(u64 i) {
        if (set.insert(i).second) rows[i] = data::vector_view<T>(unsigned(i % 1000003), mark<T>(i));
        return i;
    }
    template <typename V>
    static bool is(const V& v, u64 i) {
        return v.size() == i % 1000003 && v.capacity() == i % 1000003 && v.data() == mark<T>(i);
    }
    data::jagged_vector_view<T> view() const { return {n, rows, rows}; }
};
void iterator_case(Rng& rng) {
    if (rng.chance(500)) {
        unsigned n = near(rng);
        auto* p = mark<int>(rng.below(1000));
        vm::trace("iterators of a vector of %u", n);
        vecmem::device_vector<int> v(data::vector_view<int>(n, p));
        const auto& c = v;
        auto fwd = [&](const int& x, u64 i) { return &x == p + i; };
        auto back = [&](const int& x, u64 i) { return &x == p + (n - 1 - i); };
        walk(v.begin(), v.end(), n, fwd, rng);
        walk(v.rbegin(), v.rend(), n, back, rng);
        walk(c.rbegin(), c.rend(), n, back, rng);
        walk(c.crbegin(), c.crend(), n, back, rng);
        using CR = decltype(c.rbegin());
        u64 i = place(rng, n);
        CR conv = v.rbegin() + std::ptrdiff_t(i);
        vm::expect(&*conv == p + (n - 1 - i), "V04", "a converted reverse iterator is elsewhere");
    } else {
        ManyRows<int> r(rng);
        vm::trace("iterators of %llu rows", (unsigned long long)r.n);
        // all places an iterator may be asked for are to be described first: the rows are, on demand
        struct Lazy {
            ManyRows<int>& r;
        };
        vecmem::jagged_device_vector<int> j(r.view());
        const auto& c = j;
        // what is not described yet is an empty row without memory
        for (int k = 0; k < 40; ++k) r.need(place(rng, r.n));
        auto fwd = [&](const auto& v, u64 i) { return r.set.count(i) ? ManyRows<int>::is(v, i) : v.data() == nullptr && v.size() == 0; };
        auto back = [&](const auto& v, u64 i) { return fwd(v, r.n - 1 - i); };
        walk(j.begin(), j.end(), r.n, fwd, rng);
        walk(c.begin(), c.end(), r.n, fwd, rng);
        walk(j.rbegin(), j.rend(), r.n, back, rng);
        walk(c.crbegin(), c.crend(), r.n, back, rng);
        u64 i = r.need(place(rng, r.n));
        auto it = j.begin() + std::ptrdiff_t(i);
        decltype(c.begin()) ci = it;
        vm::expect(ManyRows<int>::is(*ci, i) && ci->data() == mark<int>(i) && it->capacity() == i % 1000003, "V04", "a converted row iterator is elsewhere");
    }
    vm::st().nontrivial = true;
}

// ------------------------------------------------------------- jagged vectors
void many_rows(Rng& rng) {
    ManyRows<int> r(rng);
    vm::trace("%llu rows", (unsigned long long)r.n);
    vecmem::jagged_device_vector<int> j(r.view()), k(j);
    k = j;
    const auto& c = k;
    vm::expect(j.size() == r.n && c.size() == r.n && j.capacity() == r.n && c.max_size() == r.n && !c.empty(), "V05", "%zu rows seen instead of %llu", j.size(), (unsigned long long)r.n);
    for (int s = 0; s < 40; ++s) {
        u64 i = r.need(place(rng, r.n));
        bool ok;
        switch (rng.below(7)) {
            case 0: ok = r.is(j[i], i); break;
            case 1: ok = r.is(c[i], i); break;
            case 2: ok = r.is(j.at(i), i); break;
            case 3: ok = r.is(c.at(i), i); break;
            case 4: i = r.need(r.n - 1), ok = r.is(j.back(), i) && r.is(c.back(), i); break;
            case 5: i = r.need(0), ok = r.is(j.front(), i) && r.is(c.front(), i); break;
            default: ok = r.is(*(c.begin() + std::ptrdiff_t(i)), i);
        }
        vm::expect(ok, "V05", "row %llu of %llu is another one", (unsigned long long)i, (unsigned long long)r.n);
        vm::count("big_rows_read");
    }
}
template <typename T>
void big_rows(Rng& rng) {
    Sparse mr;
    vecmem::copy cp;
    bool fixed = rng.chance(300);
    std::vector<unsigned> caps(rng.range(1, 4));
    for (auto& c : caps) c = rng.chance(600) ? near(rng) : unsigned(rng.below(5));
    data::jagged_vector_buffer<T> buf(caps, mr, nullptr, fixed ? BT::fixed_size : BT::resizable);
    cp.setup(buf)->wait();
    data::jagged_vector_view<T> view = buf;
    std::vector<Model<T>> ms(caps.size());
    for (std::size_t i = 0; i < caps.size(); ++i) {
        auto& row = view.host_ptr()[i];
        auto& m = ms[i];
        m.p = row.ptr();
        m.cap = caps[i];
        m.n = fixed ? caps[i] : rng.chance(500) ? caps[i] - rng.below(std::min<u64>(60, caps[i] + u64(1))) : std::min<u64>(near(rng), caps[i]);
        if (!fixed) *row.size_ptr() = unsigned(m.n);
        vm::trace("row of %llu x %zu, %llu used%s", (unsigned long long)m.cap, sizeof(T), (unsigned long long)m.n, fixed ? ", fixed" : "");
    }
    vecmem::jagged_device_vector<T> j(view);
    vecmem::jagged_device_vector<const T> c{data::jagged_vector_view<const T>(view)};
    int steps = int(rng.range(10, 50));
    for (int k = 0; k < steps && !vm::st().tainted; ++k) {
        std::size_t i = rng.below(caps.size());
        auto row = rng.chance(500) ? j[i] : j.at(i);
        change_one(row, ms[i], fixed, rng, "V05");
        i = rng.below(caps.size());
        ms[i].memory(rng, "V05", "after a change");
        auto r2 = *(j.begin() + std::ptrdiff_t(i));
        read_one(r2, ms[i], rng, "V05");
        auto r3 = c[i];
        read_one(r3, ms[i], rng, "V05");
    }
}

// ---------------------------------------------------------------------- views
void view_case(Rng& rng) {
    using T = double;
    if (rng.chance(500)) {
        unsigned n = near(rng), s = unsigned(rng.below(u64(n) + 1)), size = s;
        T* p = mark<T>(rng.below(100));
        bool grows = rng.chance(500);
        vm::trace("view of %u, %u used", n, grows ? s : n);
        auto a = grows ? data::vector_view<T>(n, &size, p) : data::vector_view<T>(n, p);
        data::vector_view<T> b = a;
        data::vector_view<const T> c = a, d;
        d = c;
        const data::vector_view<T> ca = a;
        data::vector_view<const T> h = ca;
        auto is = [&](const auto& v, const char* what) {
            vm::expect(v.capacity() == n && v.size() == (grows ? s : n) && v.ptr() == p && v.size_ptr() == (grows ? &size : nullptr), "V07", "%s describes something else: %u of %u", what,
                       unsigned(v.size()), unsigned(v.capacity()));
        };
        is(a, "a view"), is(b, "a copy"), is(c, "a constant view"), is(d, "an assigned view"), is(h, "a constant view of a constant one");
        vm::expect(a == b && c == d && a == c && !(a != c), "V07", "equal giant views are unequal");
        // others that differ in what narrow comparisons would miss
        unsigned o = n ^ (1u << rng.below(32));
        auto e = grows ? data::vector_view<T>(o, &size, p) : data::vector_view<T>(o, p);
        vm::expect(a != e && !(c == e), "V07", "views of %u and %u elements are equal", n, o);
        T* q = reinterpret_cast<T*>(reinterpret_cast<std::uintptr_t>(p) ^ (std::uintptr_t(1) << rng.range(3, 47)));
        auto f = grows ? data::vector_view<T>(n, &size, q) : data::vector_view<T>(n, q);
        vm::expect(a != f && !(a == f), "V07", "views of different memory are equal");
    } else {
        u64 n = rows_near(rng);
        vm::trace("view of %llu rows", (unsigned long long)n);
        auto* p = reinterpret_cast<data::vector_view<T>*>(mark<char>(rng.below(100)));
        auto* hp = rng.chance(500) ? p : p + n + 7;
        data::jagged_vector_view<T> a(n, p, hp), b = a;
        data::jagged_vector_view<const T> c = a, d;
        d = c;
        auto is = [&](const auto& v, const char* what) {
            vm::expect(v.size() == n && v.capacity() == n && static_cast<const void*>(v.ptr()) == p && static_cast<const void*>(v.host_ptr()) == hp, "V07", "%s describes something else: %llu rows", what,
                       (unsigned long long)v.size());
        };
        is(a, "a jagged view"), is(b, "a copy"), is(c, "a constant jagged view"), is(d, "an assigned jagged view");
        vm::expect(a == b && c == d && a == c && !(a != c), "V07", "equal giant jagged views are unequal");
        data::jagged_vector_view<T> e(n ^ (u64(1) << rng.below(40)), p, hp);
        vm::expect(a != e && !(c == e), "V07", "jagged views of different numbers of rows are equal");
    }
    vm::count("big_views");
    vm::st().nontrivial = true;
}

// -------------------------------------------------------- structures of arrays
using soa::Soa;
using S1 = Soa<vecmem::edm::type::vector<std::int32_t>, vecmem::edm::type::scalar<double>, vecmem::edm::type::vector<std::uint8_t>, vecmem::edm::type::vector<P16>>;

// By hand: making a buffer needs host memory for as many numbers.
struct BigSoa {
    Sparse mr;
    S1::view view;
    unsigned* size = nullptr;
    BigSoa(unsigned cap, bool grow) {
        auto get = [&](std::size_t n) { return static_cast<char*>(mr.allocate(n, 64)); };
        if (grow) size = reinterpret_cast<unsigned*>(get(sizeof(unsigned)));
        view = size ? S1::view(cap, {unsigned(sizeof(unsigned)), reinterpret_cast<char*>(size)}) : S1::view(cap);
        S1::each([&](auto I) {
            using T = typename S1::V<I>::type;
            if constexpr (S1::V<I>::kind == soa::SCALAR) view.template get<I>() = reinterpret_cast<T*>(get(sizeof(T)));
            else {
                auto* p = reinterpret_cast<T*>(get(cap * sizeof(T)));
                view.template get<I>() = size ? data::vector_view<T>(cap, size, p) : data::vector_view<T>(cap, p);
            }
        });
    }
};

void soa_case(Rng& rng) {
    const char* tag = "E02";
    bool grow = rng.chance(600);
    unsigned cap = near(rng);
    BigSoa mem(cap, grow);
    S1::view view = mem.view;
    S1::const_view cview = view;
    std::tuple<Model<std::int32_t>, Model<double>, Model<std::uint8_t>, Model<P16>> ms;
    u64 n = !grow ? cap : rng.chance(500) ? cap - rng.below(40) : std::min<u64>(near(rng), cap);
    if (grow) *reinterpret_cast<unsigned*>(view.size().ptr()) = unsigned(n);
    vm::trace("structure of arrays for %u, %llu used%s", cap, (unsigned long long)n, grow ? ", resizable" : "");
    auto each = [&](auto f) { S1::each([&](auto I) { if constexpr (I != 1) f(I, std::get<I>(ms)); }); };
    each([&](auto I, auto& m) {
        m.p = view.template get<I>().ptr();
        m.cap = cap;
        m.n = n;
    });
    double* sc = view.get<1>();
    *sc = 1.5;
    S1::device d(view), e(d);
    S1::const_device c(cview);
    int steps = int(rng.range(10, 40));
    for (int k = 0; k < steps && !vm::st().tainted; ++k) {
        auto& dev = rng.chance(500) ? d : e;
        if (grow && n < cap && rng.chance(500)) {
            unsigned at = dev.push_back_default();
            vm::expect(at == n, tag, "push_back_default returns %u, expected %llu", at, (unsigned long long)n);
            each([&](auto, auto& m) {
                using T = std::decay_t<decltype(*m.p)>;
                m.m[n] = T{};
                m.n = n + 1;
            });
            ++n;
            vm::trace("  append -> %llu", (unsigned long long)n);
        } else if (n) {
            u64 i = place(rng, n);
            auto u = unsigned(i);
            vm::trace("  write %llu", (unsigned long long)i);
            each([&](auto I, auto& m) {
                using T = std::decay_t<decltype(*m.p)>;
                if (rng.chance(400)) return;
                T x = val<T>(rng.next());
                switch (rng.below(5)) {
                    case 0: dev[u].template get<I>() = x; break;
                    case 1: dev.at(u).template get<I>() = x; break;
                    case 2: dev.template get<I>()[u] = x; break;
                    case 3: dev.template get<I>().at(u) = x; break;
                    default: {
                        auto p = dev[u];
                        auto q = p;
                        q.template var<I>() = x;
                    }
                }
                m.m[i] = x;
            });
        }
        vm::expect(d.size() == n && c.size() == n && d.capacity() == cap && c.capacity() == cap, tag, "the device container has size %u capacity %u, expected %llu and %u", unsigned(d.size()),
                   unsigned(d.capacity()), (unsigned long long)n, cap);
        each([&](auto I, auto& m) {
            m.memory(rng, tag, "after a change");
            if (!n) return;
            u64 i = m.some(rng);
            auto u = unsigned(i);
            const S1::device& cd = d;
            using T = std::decay_t<decltype(*m.p)>;
            const T* at = nullptr;
            switch (rng.below(7)) {
                case 0: at = &d[u].template get<I>(); break;
                case 1: at = &cd[u].template get<I>(); break;
                case 2: at = &cd.at(u).template get<I>(); break;
                case 3: at = &c[u].template get<I>(); break;
                case 4: at = &c.at(u).template get<I>(); break;
                case 5: at = &c.template get<I>()[u]; break;
                default: at = &d.template get<I>().at(u);
            }
            vm::expect(at == m.p + i, tag, "an access to element %llu of variable %zu leads to %lld", (unsigned long long)i, std::size_t(I), (long long)(at - m.p));
            if (at == m.p + i) vm::expect(eq(*at, m.at(i)), tag, "element %llu of variable %zu holds something else", (unsigned long long)i, std::size_t(I));
            vm::count("big_comparisons");
        });
        vm::expect(*sc == 1.5 && d.get<1>() == 1.5 && c.get<1>() == 1.5, tag, "the scalar changed");
    }
    vm::st().nontrivial = true;
}

// ----------------------------------------------------------------- concurrency
template <typename F>
void threads(unsigned n, F f) {
    std::vector<std::thread> ts;
    std::atomic<unsigned> ready{0};
    for (unsigned t = 0; t < n; ++t)
        ts.emplace_back([&, t] {
            ++ready;
            while (ready < n) std::this_thread::yield();
            f(t);
        });
    for (auto& t : ts) t.join();
}
struct Range {
    u64 at, n;
    std::int32_t value;
};
void appends(Rng& rng) {
    Sparse mr;
    vecmem::copy cp;
    unsigned nt = unsigned(rng.range(2, 4)), per = unsigned(rng.range(5, 60));
    u64 start = std::min<u64>(near(rng), B32 - 1 - u64(nt) * per * 8), cap = std::min<u64>(B32 - 1, start + u64(nt) * per * 8);
    data::vector_buffer<std::int32_t> buf(unsigned(cap), mr, BT::resizable);
    cp.setup(buf)->wait();
    data::vector_view<std::int32_t> view = buf;
    *view.size_ptr() = unsigned(start);
    vm::trace("%u threads append to a vector of %llu", nt, (unsigned long long)start);
    std::vector<std::vector<Range>> got(nt);
    std::vector<u64> seeds;
    for (unsigned t = 0; t < nt; ++t) seeds.push_back(rng.next());
    threads(nt, [&](unsigned t) {
        Rng r(seeds[t]);
        vecmem::device_vector<std::int32_t> v(view);
        for (unsigned k = 0; k < per; ++k) {
            auto x = std::int32_t((t + 1) * 1000 + k);
            u64 how = r.below(3), n = how == 2 ? r.below(8) : 1;
            u64 at = how == 0 ? v.push_back(x) : how == 1 ? u64(&v.emplace_back(x) - view.ptr()) : v.bulk_append(unsigned(n), x);
            got[t].push_back({at, n, x});
        }
    });
    u64 total = 0;
    std::vector<Range> all;
    for (auto& g : got)
        for (auto& x : g)
            if (x.n) total += x.n, all.push_back(x);
    std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return a.at < b.at; });
    vm::expect(*view.size_ptr() == start + total, "C02", "the size is %u after %llu and %llu more", *view.size_ptr(), (unsigned long long)start, (unsigned long long)total);
    u64 next = start;
    for (auto& x : all) {
        vm::expect(x.at == next, "C02", "an append got index %llu where %llu was next", (unsigned long long)x.at, (unsigned long long)next);
        next = x.at + x.n;
        for (u64 i = 0; i < x.n; ++i) vm::expect(view.ptr()[x.at + i] == x.value, "C02", "element %llu is not what was appended", (unsigned long long)(x.at + i));
    }
    vm::expect(view.ptr()[start - 1] == 0 && (next >= cap || view.ptr()[next] == 0), "C02", "an element nobody appended changed");
    vm::count("big_appends", total);
    vm::st().nontrivial = true;
}
void soa_appends(Rng& rng) {
    unsigned nt = unsigned(rng.range(2, 4)), per = unsigned(rng.range(5, 60));
    u64 start = std::min<u64>(near(rng), B32 - 1 - u64(nt) * per), cap = std::min<u64>(B32 - 1, start + u64(nt) * per + rng.below(3));
    BigSoa mem(unsigned(cap), true);
    S1::view view = mem.view;
    *reinterpret_cast<unsigned*>(view.size().ptr()) = unsigned(start);
    vm::trace("%u threads append to a structure of arrays of %llu", nt, (unsigned long long)start);
    auto *p0 = view.get<0>().ptr();
    auto* p2 = view.get<2>().ptr();
    auto* p3 = view.get<3>().ptr();
    u64 total = u64(nt) * per;
    for (u64 i = 0; i < total; ++i) p0[start + i] = -1, p2[start + i] = 77, p3[start + i] = P16{1, 2};
    std::vector<std::vector<u64>> got(nt);
    std::vector<unsigned char> dirty(nt, 0);
    threads(nt, [&](unsigned t) {
        S1::device d(view);
        for (unsigned k = 0; k < per; ++k) {
            unsigned at = d.push_back_default();
            got[t].push_back(at);
            if (d[at].get<0>() != 0 || d[at].get<2>() != 0 || d[at].get<3>().a != 0 || d[at].get<3>().b != 0) dirty[t] = 1;
            d[at].get<0>() = std::int32_t(t * 1000 + k);
            d.at(at).get<2>() = std::uint8_t(t);
            d.get<3>()[at] = P16{t, k};
        }
    });
    std::set<u64> seen;
    for (unsigned t = 0; t < nt; ++t) {
        vm::expect(!dirty[t], "C03", "an appended element is not default initialised");
        for (unsigned k = 0; k < per; ++k) {
            u64 at = got[t][k];
            vm::expect(seen.insert(at).second && at >= start && at < start + total, "C03", "an append got index %llu", (unsigned long long)at);
            if (at < start || at >= start + total) continue;
            vm::expect(p0[at] == std::int32_t(t * 1000 + k) && p2[at] == t && p3[at].a == t && p3[at].b == k, "C03", "element %llu is not what was written", (unsigned long long)at);
        }
    }
    vm::expect(*reinterpret_cast<unsigned*>(view.size().ptr()) == start + total, "C03", "the size does not count every append");
    vm::expect(p0[start - 1] == 0 && p2[start - 1] == 0, "C03", "an element nobody appended changed");
    vm::count("big_appends", total);
    vm::st().nontrivial = true;
}
}  // namespace

VM_PROP(V01) {
    switch (rng.below(4)) {
        case 0: vector_case<std::uint8_t>(rng); break;
        case 1: vector_case<std::int32_t>(rng); break;
        case 2: vector_case<double>(rng); break;
        default: vector_case<P16>(rng);
    }
}
VM_PROP(V04) { iterator_case(rng); }
VM_PROP(V05) {
    switch (rng.below(4)) {
        case 0: many_rows(rng); break;
        case 1: big_rows<std::int32_t>(rng); break;
        case 2: big_rows<P16>(rng); break;
        default: big_rows<std::uint8_t>(rng);
    }
    vm::st().nontrivial = true;
}
VM_PROP(V07) { view_case(rng); }
VM_PROP(E02) { soa_case(rng); }
VM_PROP(C02) { appends(rng); }
VM_PROP(C03) { soa_appends(rng); }

VM_MAIN
