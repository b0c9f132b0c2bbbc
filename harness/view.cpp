// V04 iterators, V05 jagged device vectors, V07 views.
#include "elems.hpp"
#include "mr.hpp"

#include <vecmem/containers/array.hpp>
#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/jagged_vector_data.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/device_array.hpp>
#include <vecmem/containers/device_vector.hpp>
#include <vecmem/containers/jagged_device_vector.hpp>
#include <vecmem/containers/jagged_vector.hpp>
#include <vecmem/containers/static_array.hpp>
#include <vecmem/containers/static_vector.hpp>
#include <vecmem/containers/vector.hpp>

#include <deque>

using vm::make;
using vm::Rng;
using vm::same;
using vm::u64;

namespace {
// Rarely, more than 16 bits can count.
u64 number(Rng& r, std::initializer_list<u64> usual) {
    u64 n = r.pick(usual);
    if (!r.chance(3)) return n;
    vm::count("large_cases");
    return r.range(65500, 66000);
}
u64 fresh(Rng& r) { return r.chance(60) ? 0 : r.range(1, 250); }

// Jagged data put together by hand: rows in one block or scattered, fixed or resizable.
template <typename T>
struct Rows {
    using View = vecmem::data::vector_view<T>;
    std::vector<std::vector<u64>> m;  // what the rows show
    std::vector<unsigned> cap;
    bool resizable, contiguous;
    std::vector<std::unique_ptr<vm::Guarded>> mem;
    std::unique_ptr<vm::Guarded> sizes, outer;
    std::vector<T*> p;

    Rows(Rng& rng, std::size_t rows) : resizable(rng.chance(500)), contiguous(rng.chance(400) || rows > 1000) {
        std::size_t total = 0;
        for (std::size_t i = 0; i < rows; ++i) {
            cap.push_back(unsigned(rng.pick({u64(0), u64(1), rng.below(4), rng.below(9)})));
            if (rows < 10 && rng.chance(1)) cap[i] = unsigned(rng.range(65500, 66000));
            total += cap[i];
        }
        sizes.reset(new vm::Guarded(rows * sizeof(unsigned), alignof(unsigned)));
        outer.reset(new vm::Guarded(rows * sizeof(View), alignof(View)));
        T* all = nullptr;
        if (contiguous) {
            mem.emplace_back(new vm::Guarded(total * sizeof(T), alignof(T)));
            all = reinterpret_cast<T*>(mem.back()->data());
        }
        for (std::size_t i = 0; i < rows; ++i) {
            if (contiguous) p.push_back(all), all += cap[i];
            else {
                mem.emplace_back(new vm::Guarded(cap[i] * sizeof(T), alignof(T)));
                p.push_back(cap[i] || rng.chance(500) ? reinterpret_cast<T*>(mem.back()->data()) : nullptr);
            }
            std::size_t n = resizable ? rng.below(cap[i] + 1) : cap[i];
            m.emplace_back();
            for (std::size_t j = 0; j < n; ++j) {
                m[i].push_back(fresh(rng));
                new (p[i] + j) T(make<T>(m[i][j]));
            }
            size()[i] = unsigned(n);
            new (views() + i) View(resizable ? View(cap[i], size() + i, p[i]) : View(cap[i], p[i]));
        }
        std::string shape;
        for (std::size_t i = 0; i < rows && i < 40; ++i) shape += " " + std::to_string(m[i].size()) + "/" + std::to_string(cap[i]);
        vm::trace("%s rows%s%s:%s", vm::tname<T>(), resizable ? " resizable" : "", contiguous ? " contiguous" : "", shape.c_str());
    }
    ~Rows() {
        for (std::size_t i = 0; i < m.size(); ++i)
            for (std::size_t j = 0; j < m[i].size(); ++j) p[i][j].~T();
    }
    unsigned* size() { return reinterpret_cast<unsigned*>(sizes->data()); }
    View* views() { return reinterpret_cast<View*>(outer->data()); }
    vecmem::data::jagged_vector_view<T> view() { return {m.size(), views()}; }
    bool intact() const {
        bool ok = sizes->intact() && outer->intact();
        for (auto& g : mem) ok = ok && g->intact();
        return ok;
    }
};

// ------------------------------------------------------------------ V04
#ifndef NO_V04
const char* const P4 = "V04";

// A random walk of `it` over [first, last); at(i) checks that what an iterator
// leads to is element i.
template <typename It, typename At, typename Arrow>
void walk(It first, It last, std::size_t n, Rng& rng, At at, Arrow arrow, const char* what) {
    using D = std::ptrdiff_t;
    std::vector<It> all;
    for (It i = first;; ++i) {
        all.push_back(i);
        if (i == last) break;
        vm::expect(all.size() <= n, P4, "%s: the end is not reached after %zu elements", what, n);
    }
    vm::expect(all.size() == n + 1, P4, "%s: %zu elements are visited instead of %zu", what, all.size() - 1, n);
    for (std::size_t i = 0; i < n; ++i) vm::expect(at(*all[i], i), P4, "%s: element %zu of %zu is wrong", what, i, n);
    for (std::size_t a = 0; a <= n; ++a) {
        std::size_t b = rng.below(n + 1);
        vm::expect((all[a] == all[b]) == (a == b) && (all[a] != all[b]) == (a != b), P4, "%s: comparison of positions %zu and %zu is wrong", what, a, b);
    }
    It it;  // default constructed, then assigned
    it = first;
    D p = 0;
    auto pos = [&](const It& x, D k, const char* op) {
        vm::expect(x == all[std::size_t(k)] && !(x != all[std::size_t(k)]), P4, "%s: %s leads to another position than %td", what, op, k);
        if (n) {
            std::size_t o = rng.below(n + 1);
            vm::expect((x == all[o]) == (D(o) == k) && (x != all[o]) == (D(o) != k), P4, "%s: after %s, comparison with position %zu is wrong", what, op, o);
        }
    };
    const D N = D(n);
    for (int s = int(rng.range(10, 60)); s--;) {
        D k = D(rng.below(n + 1)) - p;  // a jump that stays inside
        switch (rng.below(12)) {
            case 0:
                if (p < N) {
                    It& r = ++it;
                    ++p;
                    vm::expect(&r == &it, P4, "%s: ++ returns something else", what);
                    pos(it, p, "++");
                }
                break;
            case 1:
                if (p < N) {
                    It o = it++;
                    pos(o, p, "the result of postfix ++");
                    pos(it, ++p, "postfix ++");
                }
                break;
            case 2:
                if (p > 0) {
                    It& r = --it;
                    --p;
                    vm::expect(&r == &it, P4, "%s: -- returns something else", what);
                    pos(it, p, "--");
                }
                break;
            case 3:
                if (p > 0) {
                    It o = it--;
                    pos(o, p, "the result of postfix --");
                    pos(it, --p, "postfix --");
                }
                break;
            case 4: {
                It& r = (it += k);
                p += k;
                vm::expect(&r == &it, P4, "%s: += returns something else", what);
                pos(it, p, "+=");
                break;
            }
            case 5: {
                It& r = (it -= -k);
                p += k;
                vm::expect(&r == &it, P4, "%s: -= returns something else", what);
                pos(it, p, "-=");
                break;
            }
            case 6: {
                It o = it + k;
                pos(o, p + k, "+");
                pos(it, p, "an iterator something was added to");
                break;
            }
            case 7: {
                It o = it - (-k);
                pos(o, p + k, "-");
                pos(it, p, "an iterator something was subtracted from");
                break;
            }
            case 8:
                if (p + k < N) vm::expect(at(it[k], std::size_t(p + k)), P4, "%s: [%td] at position %td is not element %td", what, k, p, p + k);
                break;
            case 9:
                if (p < N) {
                    vm::expect(at(*it, std::size_t(p)), P4, "%s: * at position %td is wrong", what, p);
                    vm::expect(arrow(it, std::size_t(p)), P4, "%s: -> at position %td is wrong", what, p);
                }
                break;
            case 10: {
                It o(it);
                pos(o, p, "copying");
                It q;
                q = o;
                pos(q, p, "assigning");
                q = *&q;
                pos(q, p, "self assigning");
                break;
            }
            default: {
                // a chain of steps that comes back
                It o = ((it + k) - k);
                pos(o, p, "+ and -");
            }
        }
        vm::count("iterator_steps");
    }
}

// The reverse iterators of anything with contiguous elements.
template <typename C>
void reverse_of(C& c, std::size_t n, Rng& rng, const char* what) {
    const C& k = c;
    auto* d = c.data();
    auto walk_one = [&](auto b, auto e) {
        walk(
            b, e, n, rng, [&](auto& x, std::size_t i) { return static_cast<const void*>(&x) == static_cast<const void*>(d + (n - 1 - i)); },
            [&](auto& it, std::size_t i) { return static_cast<const void*>(it.operator->()) == static_cast<const void*>(d + (n - 1 - i)); }, what);
    };
    switch (rng.below(4)) {
        case 0: walk_one(c.rbegin(), c.rend()); break;
        case 1: walk_one(k.rbegin(), k.rend()); break;
        case 2: walk_one(c.crbegin(), c.crend()); break;
        default: {
            // to constant iterators, position by position
            typename C::const_reverse_iterator cb(c.rbegin()), ce(c.rend());
            vm::expect(cb == c.crbegin() && ce == c.crend(), P4, "%s: conversion to a constant reverse iterator moves it", what);
            walk_one(cb, ce);
            std::size_t i = rng.below(n + 1);
            vm::expect((c.rbegin() + std::ptrdiff_t(i)).base() == c.begin() + std::ptrdiff_t(n - i), P4, "%s: base() of reverse position %zu is wrong", what, i);
            typename C::const_reverse_iterator ci;
            ci = c.rbegin() + std::ptrdiff_t(i);
            vm::expect(ci == c.crbegin() + std::ptrdiff_t(i), P4, "%s: conversion of reverse position %zu moves it", what, i);
        }
    }
}

template <typename T>
void plain_iterators(Rng& rng) {
    const std::size_t n = number(rng, {u64(0), u64(1), rng.range(2, 5), rng.range(6, 30)});
    vm::Guarded mem(n * sizeof(T), alignof(T));
    T* d = reinterpret_cast<T*>(mem.data());
    for (std::size_t i = 0; i < n; ++i) new (d + i) T(make<T>(fresh(rng)));
    vm::trace("iterators over %zu %s", n, vm::tname<T>());
    switch (rng.below(6)) {
        case 2:
            if (n <= 30) {
                vecmem::static_vector<T, 30> v(d, d + n);
                reverse_of(v, n, rng, "static_vector");
                break;
            }
            [[fallthrough]];
        case 0: {
            vecmem::device_vector<T> v(vecmem::data::vector_view<T>(unsigned(n), d));
            reverse_of(v, n, rng, "device_vector");
            break;
        }
        case 1: {
            unsigned size = unsigned(n ? rng.below(n + 1) : 0);
            vecmem::device_vector<const T> v(vecmem::data::vector_view<const T>(unsigned(n), &size, d));
            reverse_of(v, size, rng, "device_vector of constants");
            break;
        }
        case 3: {
            vm::Upstream up(rng.next());
            vecmem::array<T> a(up, n);
            reverse_of(a, n, rng, "array");
            break;
        }
        case 4: {
            vecmem::static_array<T, 7> a{};
            reverse_of(a, 7, rng, "static_array");
            break;
        }
        default:
            if (n >= 3) {
                vecmem::device_array<T, 3> a(vecmem::data::vector_view<T>(unsigned(n), d));
                reverse_of(a, 3, rng, "device_array");
            }
    }
    vm::expect(mem.intact(), P4, "iterating changed memory");
    for (std::size_t i = 0; i < n; ++i) d[i].~T();
}

template <typename T>
void row_iterators(Rng& rng) {
    Rows<T> r(rng, number(rng, {u64(0), u64(1), rng.range(2, 5), rng.range(6, 20)}));
    const std::size_t n = r.m.size();
    vecmem::jagged_device_vector<T> v(r.view());
    const auto& c = v;
    // rows without elements may share an address; sizes and contents are compared as well
    auto row = [&](auto&& x, std::size_t i) {
        bool ok = x.data() == r.p[i] && x.size() == r.m[i].size() && x.capacity() == r.cap[i];
        for (std::size_t j = 0; ok && j < r.m[i].size(); ++j) ok = same(x[unsigned(j)], r.m[i][j]);
        return ok;
    };
    auto fwd = [&](auto b, auto e, const char* w) {
        walk(b, e, n, rng, row, [&](auto& it, std::size_t i) { return it->data() == r.p[i] && it->size() == r.m[i].size() && it->capacity() == r.cap[i]; }, w);
    };
    auto rev = [&](auto b, auto e, const char* w) {
        walk(b, e, n, rng, [&](auto&& x, std::size_t i) { return row(x, n - 1 - i); },
             [&](auto& it, std::size_t i) { return it->data() == r.p[n - 1 - i] && it->size() == r.m[n - 1 - i].size(); }, w);
    };
    switch (rng.below(8)) {
        case 0: fwd(v.begin(), v.end(), "rows"); break;
        case 1: fwd(c.begin(), c.end(), "constant rows"); break;
        case 2: fwd(v.cbegin(), v.cend(), "constant rows"); break;
        case 3: rev(v.rbegin(), v.rend(), "reverse rows"); break;
        case 4: rev(c.rbegin(), c.rend(), "constant reverse rows"); break;
        case 5: rev(v.crbegin(), v.crend(), "constant reverse rows"); break;
        default: {
            using CI = typename vecmem::jagged_device_vector<T>::const_iterator;
            using CR = typename vecmem::jagged_device_vector<T>::const_reverse_iterator;
            std::size_t i = rng.below(n + 1);
            CI ci(v.begin() + std::ptrdiff_t(i));
            vm::expect(ci == v.cbegin() + std::ptrdiff_t(i), P4, "conversion of row position %zu to constant moves it", i);
            CR cr(v.rbegin() + std::ptrdiff_t(i));
            vm::expect(cr == v.crbegin() + std::ptrdiff_t(i), P4, "conversion of reverse row position %zu to constant moves it", i);
            CI b(v.begin()), e(v.end());
            fwd(b, e, "rows converted to constant");
            CR rb(v.rbegin()), re(v.rend());
            rev(rb, re, "reverse rows converted to constant");
            vm::expect((v.rbegin() + std::ptrdiff_t(i)).base() == v.end() - std::ptrdiff_t(i), P4, "base() of a reverse row position is wrong");
        }
    }
    vm::expect(r.intact(), P4, "iterating changed memory");
}
#endif

// ------------------------------------------------------------------ V05
#ifndef NO_V05
const char* const P5 = "V05";

template <typename V>
bool row_is(V&& row, const std::vector<u64>& m, unsigned cap) {
    if (row.size() != m.size() || row.capacity() != cap || row.empty() != m.empty()) return false;
    for (unsigned j = 0; j < m.size(); ++j)
        if (!same(row[j], m[j]) || !same(row.at(j), m[j])) return false;
    return true;
}

template <typename T>
void compare_rows(vecmem::jagged_device_vector<T>& v, const std::vector<std::vector<u64>>& m, const std::vector<unsigned>& cap, Rng& rng) {
    const auto& c = v;
    const std::size_t n = m.size();
    vm::expect(v.size() == n && v.empty() == (n == 0) && v.max_size() == n && v.capacity() == n, P5, "size() %zu, empty() or capacity() is wrong for %zu rows", v.size(), n);
    for (std::size_t i = 0; i < n; ++i) {
        bool ok;
        switch (rng.below(6)) {
            case 0: ok = row_is(v[i], m[i], cap[i]); break;
            case 1: ok = row_is(c[i], m[i], cap[i]); break;
            case 2: ok = row_is(v.at(i), m[i], cap[i]); break;
            case 3: ok = row_is(c.at(i), m[i], cap[i]); break;
            case 4: ok = row_is(*(v.begin() + std::ptrdiff_t(i)), m[i], cap[i]); break;
            default: ok = row_is(v.rbegin()[std::ptrdiff_t(n - 1 - i)], m[i], cap[i]);
        }
        vm::expect(ok, P5, "row %zu of %zu is wrong", i, n);
    }
    if (n)
        vm::expect(row_is(v.front(), m[0], cap[0]) && row_is(c.front(), m[0], cap[0]) && row_is(v.back(), m[n - 1], cap[n - 1]) && row_is(c.back(), m[n - 1], cap[n - 1]), P5,
                   "the front or back row is wrong");
    std::size_t i = 0;
    if (rng.chance(300)) {
        for (auto row : v) vm::expect(i < n && row_is(row, m[i], cap[i]), P5, "iteration over rows is wrong at %zu", i), ++i;
        vm::expect(i == n, P5, "iteration over rows visits %zu of %zu", i, n);
    } else if (rng.chance(300)) {
        for (auto it = c.rbegin(); it != c.rend(); ++it) vm::expect(i < n && row_is(*it, m[n - 1 - i], cap[n - 1 - i]), P5, "reverse iteration over rows is wrong at %zu", i), ++i;
        vm::expect(i == n, P5, "reverse iteration over rows visits %zu of %zu", i, n);
    }
    vm::count("comparisons");
}

template <typename T>
void modify_rows(std::vector<vecmem::jagged_device_vector<T>>& vs, std::vector<std::vector<u64>>& m, const std::vector<unsigned>& cap, bool resizable, Rng& rng) {
    if (m.empty()) return;
    auto& v = rng.pick(vs);
    std::size_t i = rng.below(m.size());
    auto& r = m[i];
    const unsigned n = unsigned(r.size()), room = cap[i] - n;
    const u64 x = fresh(rng);
    auto row = rng.chance(300) ? v.at(i) : rng.chance(400) ? *(v.begin() + std::ptrdiff_t(i)) : rng.chance(300) ? v.rbegin()[std::ptrdiff_t(m.size() - 1 - i)] : v[i];
    if (!resizable || rng.chance(400)) {
        if (!n) return;
        unsigned j = unsigned(rng.below(n));
        vm::trace("[%zu][%u] = %llu", i, j, (unsigned long long)x);
        switch (rng.below(4)) {
            case 0: row[j] = make<T>(x); break;
            case 1: v[i][j] = make<T>(x); break;
            case 2: v.at(i).at(j) = make<T>(x); break;
            default: *(row.begin() + j) = make<T>(x);
        }
        r[j] = x;
        vm::count("writes");
        return;
    }
    switch (rng.below(7)) {
        case 0:
            if (room) {
                vm::trace("[%zu].push_back %llu", i, (unsigned long long)x);
                unsigned k = v[i].push_back(make<T>(x));
                vm::expect(k == n, P5, "push_back to a row returned %u instead of %u", k, n);
                r.push_back(x);
            }
            break;
        case 1:
            if (room) {
                vm::trace("[%zu].emplace_back %llu", i, (unsigned long long)x);
                row.emplace_back(make<T>(x));
                r.push_back(x);
            }
            break;
        case 2: {
            unsigned k = unsigned(rng.below(room + 1));
            vm::trace("[%zu].bulk_append %u %llu", i, k, (unsigned long long)x);
            unsigned at = row.bulk_append(k, make<T>(x));
            vm::expect(at == n, P5, "bulk_append to a row returned %u instead of %u", at, n);
            r.insert(r.end(), k, x);
            break;
        }
        case 3:
            if (n) {
                vm::trace("[%zu].pop_back", i);
                row.pop_back();
                r.pop_back();
            }
            break;
        case 4: {
            unsigned k = unsigned(rng.below(cap[i] + 1));
            vm::trace("[%zu].resize %u %llu", i, k, (unsigned long long)x);
            row.resize(k, make<T>(x));
            r.resize(k, x);
            break;
        }
        case 5:
            vm::trace("[%zu].clear", i);
            row.clear();
            r.clear();
            break;
        default: {
            unsigned k = unsigned(rng.below(cap[i] + 1));
            vm::trace("[%zu].assign %u %llu", i, k, (unsigned long long)x);
            row.assign(k, make<T>(x));
            r.assign(k, x);
        }
    }
    vm::count("row_changes");
}

template <typename T>
void hand_made(Rng& rng) {
    {
        Rows<T> r(rng, number(rng, {u64(0), u64(1), rng.range(2, 5), rng.range(6, 16)}));
        Rows<T> other(rng, rng.range(1, 3));
        std::vector<vecmem::jagged_device_vector<T>> vs;
        vs.emplace_back(r.view());
        compare_rows(vs[0], r.m, r.cap, rng);
        std::size_t total = r.m.size();
        for (auto& x : r.m) total += x.size();
        for (int s = int(total > 1000 ? 3 : rng.range(5, 40)); s--;) {
            if (vs.size() < 3 && rng.chance(100)) vs.emplace_back(rng.pick(vs)), vm::trace("copy");
            if (rng.chance(40)) {
                vm::trace("re-seat");
                auto& v = rng.pick(vs);
                vecmem::jagged_device_vector<T> o(other.view());
                v = o;
                compare_rows(v, other.m, other.cap, rng);
                std::vector<vecmem::jagged_device_vector<T>> one{v};
                modify_rows(one, other.m, other.cap, other.resizable, rng);
                compare_rows(v, other.m, other.cap, rng);
                v = vecmem::jagged_device_vector<T>(r.view());
            }
            modify_rows(vs, r.m, r.cap, r.resizable, rng);
            compare_rows(rng.pick(vs), r.m, r.cap, rng);
            vm::expect(r.intact() && other.intact(), P5, "memory outside the rows was changed");
            for (std::size_t i = 0; i < r.m.size(); ++i) {
                // the data itself, not through the library
                for (std::size_t j = 0; j < r.m[i].size(); ++j) vm::expect(same(r.p[i][j], r.m[i][j]), P5, "element %zu of row %zu does not hold what was written", j, i);
                if (r.resizable) vm::expect(r.size()[i] == r.m[i].size(), P5, "the size counter of row %zu is wrong", i);
            }
        }
    }
    vm::expect(vm::Registry::get().live.empty(), P5, "objects outlive their rows");
}

// On top of host vectors, and of buffers in host memory.
template <typename T>
void from_containers(Rng& rng) {
    vm::Upstream up(rng.next());
    const std::size_t n = number(rng, {u64(0), u64(1), rng.range(2, 12)});
    std::vector<std::vector<u64>> m(n);
    std::vector<unsigned> cap(n);
    const bool host = rng.chance(500), resizable = !host && rng.chance(600);
    std::size_t total = 0;
    for (std::size_t i = 0; i < n; ++i) {
        cap[i] = unsigned(n < 13 && rng.chance(1) ? rng.range(65500, 66000) : rng.below(7));
        total += 1 + cap[i];
        for (std::size_t j = 0; j < (resizable ? 0 : cap[i]); ++j) m[i].push_back(fresh(rng));
    }
    vm::trace("%zu rows of %s in a %s", n, vm::tname<T>(), host ? "jagged vector" : resizable ? "resizable buffer" : "buffer");
    vecmem::jagged_vector<T> jv(&up);
    std::unique_ptr<vecmem::data::jagged_vector_data<T>> data;
    std::unique_ptr<vecmem::data::jagged_vector_buffer<T>> buf;
    std::vector<vecmem::jagged_device_vector<T>> vs;
    if (host) {
        jv.resize(n);
        for (std::size_t i = 0; i < n; ++i)
            for (u64 x : m[i]) jv[i].push_back(make<T>(x));
        data.reset(new vecmem::data::jagged_vector_data<T>(vecmem::get_data(jv)));
        vs.emplace_back(*data);
    } else {
        buf.reset(new vecmem::data::jagged_vector_buffer<T>(cap, up, rng.chance(300) ? &up : nullptr,
                                                            resizable ? vecmem::data::buffer_type::resizable : vecmem::data::buffer_type::fixed_size));
        for (std::size_t i = 0; i < n; ++i) {
            if (buf->host_ptr() != buf->ptr()) buf->ptr()[i] = buf->host_ptr()[i];
            if (resizable) *buf->ptr()[i].size_ptr() = 0;
            for (std::size_t j = 0; j < m[i].size(); ++j) buf->ptr()[i].ptr()[j] = make<T>(m[i][j]);
        }
        vs.emplace_back(*buf);
    }
    compare_rows(vs[0], m, cap, rng);
    for (int s = int(total > 1000 ? 3 : rng.range(5, 30)); s--;) {
        modify_rows(vs, m, cap, resizable, rng);
        compare_rows(vs[0], m, cap, rng);
        if (host)
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < m[i].size(); ++j) vm::expect(same(jv[i][j], m[i][j]), P5, "element %zu of row %zu of the host vector is wrong", j, i);
    }
    vm::count("from_containers");
}
#endif

// ------------------------------------------------------------------ V07
#ifndef NO_V07
const char* const P7 = "V07";

template <typename T>
struct Plain {  // what a view is to describe
    const T* p;
    const unsigned* sz;
    unsigned cap;
    bool operator==(const Plain& o) const { return p == o.p && sz == o.sz && cap == o.cap; }
};

template <typename V, typename T>
void is_view(V& v, const Plain<T>& w, std::size_t size, const char* what) {
    const V& c = v;
    vm::expect(c.ptr() == w.p && v.ptr() == w.p, P7, "%s: the view describes another address", what);
    vm::expect(c.size_ptr() == w.sz && v.size_ptr() == w.sz, P7, "%s: the view has another size counter", what);
    vm::expect(c.capacity() == w.cap, P7, "%s: the view's capacity is %u instead of %u", what, c.capacity(), w.cap);
    vm::expect(c.size() == size, P7, "%s: the view's size is %u instead of %zu", what, c.size(), size);
    vm::count("views_checked");
}

template <typename T>
void one_dimensional(Rng& rng) {
    using View = vecmem::data::vector_view<T>;
    using CView = vecmem::data::vector_view<const T>;
    vm::Upstream up(rng.next());
    std::vector<std::pair<View, Plain<T>>> views;
    std::deque<vecmem::vector<T>> vecs;
    std::deque<std::vector<T>> svecs;
    std::deque<vecmem::array<T>> arrs;
    std::deque<vecmem::data::vector_buffer<T>> bufs;
    std::deque<unsigned> sizes;
    std::deque<std::vector<T>> raw;
    auto pick_n = [&] { return std::size_t(number(rng, {u64(0), u64(1), rng.range(2, 40)})); };
    for (int s = int(rng.range(4, 14)); s--;) {
        std::size_t n = pick_n();
        switch (rng.below(7)) {
            case 0: {
                vecs.emplace_back(&up);
                auto& v = vecs.back();
                for (std::size_t i = 0; i < n; ++i) v.push_back(make<T>(fresh(rng)));
                if (rng.chance(300)) v.reserve(n + 5);
                vm::trace("vector of %zu", n);
                View w = vecmem::get_data(v);
                Plain<T> p{v.data(), nullptr, unsigned(n)};
                is_view(w, p, n, "vector");
                CView cw = vecmem::get_data(static_cast<const vecmem::vector<T>&>(v));
                is_view(cw, p, n, "constant vector");
                views.emplace_back(w, p);
                break;
            }
            case 1: {
                svecs.emplace_back(n, make<T>(fresh(rng)));
                auto& v = svecs.back();
                if (n && rng.chance(300)) v.pop_back(), --n;  // capacity beyond the size
                vm::trace("std::vector of %zu", n);
                View w = vecmem::get_data(v);
                Plain<T> p{v.data(), nullptr, unsigned(n)};
                is_view(w, p, n, "std::vector");
                CView cw = vecmem::get_data(static_cast<const std::vector<T>&>(v));
                is_view(cw, p, n, "constant std::vector");
                views.emplace_back(w, p);
                break;
            }
            case 2: {
                arrs.emplace_back(up, n);
                auto& a = arrs.back();
                vm::trace("array of %zu", n);
                View w = vecmem::get_data(a);
                Plain<T> p{a.data(), nullptr, unsigned(n)};
                is_view(w, p, n, "array");
                CView cw = vecmem::get_data(static_cast<const vecmem::array<T>&>(a));
                is_view(cw, p, n, "constant array");
                views.emplace_back(w, p);
                break;
            }
            case 3: {
                bool res = rng.chance(500);
                bufs.emplace_back(unsigned(n), up, res ? vecmem::data::buffer_type::resizable : vecmem::data::buffer_type::fixed_size);
                auto& b = bufs.back();
                vm::trace("buffer of %zu%s", n, res ? " resizable" : "");
                std::size_t k = n;
                if (b.size_ptr()) *b.size_ptr() = unsigned(k = rng.below(n + 1));
                View& w = vecmem::get_data(b);
                Plain<T> p{b.ptr(), b.size_ptr(), unsigned(n)};
                vm::expect(n == 0 || (b.size_ptr() != nullptr) == res, P7, "a buffer has the wrong kind of size");
                is_view(w, p, k, "buffer");
                const View& cw = vecmem::get_data(static_cast<const vecmem::data::vector_buffer<T>&>(b));
                is_view(cw, p, k, "constant buffer");
                vm::expect(&w == &b && &cw == &b, P7, "a buffer's view is not the buffer itself");
                views.emplace_back(w, p);
                break;
            }
            case 4:
            case 5: {
                raw.emplace_back(n + 1);
                sizes.push_back(unsigned(rng.below(n + 1)));
                bool res = rng.chance(600);
                vm::trace("view of %zu%s", n, res ? " resizable" : "");
                View w = res ? View(unsigned(n), &sizes.back(), raw.back().data()) : View(unsigned(n), raw.back().data());
                Plain<T> p{raw.back().data(), res ? &sizes.back() : nullptr, unsigned(n)};
                is_view(w, p, res ? sizes.back() : n, "view");
                if (res && n) {  // follows the counter
                    sizes.back() = unsigned(rng.below(n + 1));
                    is_view(w, p, sizes.back(), "view after a change of the size");
                }
                views.emplace_back(w, p);
                break;
            }
            default:
                if (!views.empty()) {
                    // differing in exactly one respect, or in none
                    auto [w, p] = rng.pick(views);
                    vm::trace("a view like another");
                    switch (rng.below(4)) {
                        case 0: views.emplace_back(View(p.cap, const_cast<unsigned*>(p.sz), const_cast<T*>(p.p)), p); break;
                        case 1: {
                            Plain<T> q{p.p, p.sz, p.cap + 1};
                            if (!p.sz && p.cap < 39) views.emplace_back(View(q.cap, const_cast<T*>(q.p)), q);
                            break;
                        }
                        case 2: {
                            sizes.push_back(p.sz ? *p.sz : p.cap);  // same memory and extent, another counter
                            Plain<T> q{p.p, &sizes.back(), p.cap};
                            views.emplace_back(View(q.cap, &sizes.back(), const_cast<T*>(q.p)), q);
                            break;
                        }
                        default: {
                            raw.emplace_back(p.cap + 1u);
                            Plain<T> q{raw.back().data(), p.sz, p.cap};
                            views.emplace_back(View(q.cap, const_cast<unsigned*>(q.sz), raw.back().data()), q);
                        }
                    }
                }
        }
    }
    for (auto& [w, p] : views) {
        View copy(w);
        View assigned;
        assigned = w;
        CView cw(w);
        CView ca;
        ca = w;
        CView cc(cw);
        std::size_t n = p.sz ? *p.sz : p.cap;
        is_view(copy, p, n, "copied view");
        is_view(assigned, p, n, "assigned view");
        is_view(cw, p, n, "view converted to constant");
        is_view(ca, p, n, "view assigned to constant");
        is_view(cc, p, n, "copied constant view");
        {
            // over a view of something else, that had or had not a size counter
            auto& [v0, p0] = rng.pick(views);
            View over(v0);
            over = w;
            is_view(over, p, n, "view assigned over another");
            over = *&over;
            is_view(over, p, n, "view assigned to itself");
            CView cover(v0);
            cover = w;
            is_view(cover, p, n, "view assigned over another constant one");
            CView cover2(v0);
            cover2 = cw;
            is_view(cover2, p, n, "constant view assigned over another");
            View moved(std::move(over));
            is_view(moved, p, n, "moved view");
            vm::expect(v0.ptr() == p0.p && v0.size_ptr() == p0.sz && v0.capacity() == p0.cap, P7, "assigning to a copy of a view changed the view");
        }
        for (auto& [w2, p2] : views) {
            CView cw2(w2);
            bool eq = p == p2;
            vm::expect((w == w2) == eq && (w != w2) == !eq && (cw == w2) == eq && (cw != w2) == !eq && (w == cw2) == eq && (w != cw2) == !eq && (cw == cw2) == eq &&
                           (cw != cw2) == !eq,
                       P7, "comparison of views is wrong: expected %s", eq ? "equal" : "different");
            vm::count(eq ? "equal_pairs" : "different_pairs");
        }
    }
    vecmem::data::vector_buffer<T> none;
    Plain<T> pn{nullptr, nullptr, 0};
    is_view(none, pn, 0, "default constructed buffer");
}

template <typename T>
void jagged(Rng& rng) {
    using JV = vecmem::data::jagged_vector_view<T>;
    using CJV = vecmem::data::jagged_vector_view<const T>;
    vm::Upstream up(rng.next()), up2(rng.next());
    const std::size_t n = number(rng, {u64(0), u64(1), rng.range(2, 20)});
    auto shape = [&] { return std::size_t(n < 21 && rng.chance(1) ? rng.range(65500, 66000) : rng.pick({u64(0), u64(0), u64(1), rng.range(2, 9)})); };
    std::vector<Plain<T>> rows;
    std::vector<std::size_t> sizes;
    auto check = [&](auto& v, const char* what) {
        const auto& c = v;
        vm::expect(c.size() == n && c.capacity() == n, P7, "%s: %zu rows instead of %zu", what, c.size(), n);
        for (std::size_t i = 0; i < n; ++i) {
            is_view(v.ptr()[i], rows[i], sizes[i], what);
            is_view(v.host_ptr()[i], rows[i], sizes[i], what);
            is_view(c.ptr()[i], rows[i], sizes[i], what);
        }
        vm::count("jagged_views_checked");
    };
    auto conversions = [&](JV v, const char* what) {
        JV copy(v), assigned;
        assigned = v;
        CJV c(v), ca;
        ca = v;
        check(copy, what), check(assigned, what), check(c, what), check(ca, what);
        vecmem::data::vector_view<T> one[2];
        JV over(1, one, one + 1);
        CJV cover(over), cover2(over);
        over = v, cover = v, cover2 = c;
        check(over, what), check(cover, what), check(cover2, what);
        vm::expect(over == v && over.ptr() == v.ptr() && over.host_ptr() == v.host_ptr() && cover == v && cover2 == v, P7, "%s: a view assigned over another is not equal to its source", what);
        vm::expect(copy.ptr() == v.ptr() && copy.host_ptr() == v.host_ptr() && static_cast<const void*>(c.ptr()) == v.ptr() && static_cast<const void*>(c.host_ptr()) == v.host_ptr() &&
                       static_cast<const void*>(ca.host_ptr()) == v.host_ptr() && static_cast<const void*>(ca.ptr()) == v.ptr(),
                   P7, "%s: a converted view has other descriptors", what);
        vm::expect(copy == v && !(copy != v) && c == v && v == c && !(c != v) && !(v != c) && ca == c, P7, "%s: a copied or converted view is not equal to the original", what);
        std::vector<vecmem::data::vector_view<T>> more(v.ptr(), v.ptr() + n);
        more.emplace_back(0u, nullptr);
        JV elsewhere(n, more.data()), hostside(n, v.ptr(), more.data()), longer(n + 1, v.ptr(), v.host_ptr());
        vm::expect(!(elsewhere == v) && elsewhere != v && !(hostside == v) && hostside != c && c != hostside && !(longer == v) && longer != v && v != longer && !(c == longer), P7,
                   "%s: different views compare equal", what);
        vm::expect(elsewhere.host_ptr() == elsewhere.ptr() && hostside.host_ptr() == more.data(), P7, "%s: the host descriptors of a view are wrong", what);
    };
    switch (rng.below(5)) {
        case 0:
        case 1: {
            vecmem::jagged_vector<T> jv(&up);
            jv.resize(n);
            for (auto& r : jv) {
                r.resize(shape());
                if (rng.chance(200)) r.reserve(r.size() + 3);
            }
            for (auto& r : jv) rows.push_back({r.data(), nullptr, unsigned(r.size())}), sizes.push_back(r.size());
            vm::trace("jagged vector of %zu rows", n);
            bool own = rng.chance(500);
            u64 before = up2.calls;
            vecmem::data::jagged_vector_data<T> d = vecmem::get_data(jv, own ? &up2 : nullptr);
            vm::expect(n == 0 || (own ? up2 : up).holds(reinterpret_cast<const char*>(d.ptr()), n * sizeof(*d.ptr())), P7, "the view's descriptors are not in memory of the given resource");
            vm::expect(own || up2.calls == before, P7, "another resource was used");
            check(d, "jagged vector");
            conversions(vecmem::get_data(d), "jagged vector data");
            const auto& cjv = jv;
            auto cd = vecmem::get_data(cjv, own ? &up2 : nullptr);
            check(cd, "constant jagged vector");
            check(vecmem::get_data(cd), "constant jagged vector data");
            vecmem::data::jagged_vector_data<T> moved(std::move(d));
            check(moved, "moved jagged vector data");
            d = std::move(moved);
            check(d, "jagged vector data moved back");
            break;
        }
        case 2: {
            std::vector<std::vector<T>> jv(n);
            for (auto& r : jv) r.resize(shape());
            for (auto& r : jv) rows.push_back({r.data(), nullptr, unsigned(r.size())}), sizes.push_back(r.size());
            vm::trace("vector of vectors, %zu rows", n);
            auto d = vecmem::get_data(jv, &up);
            check(d, "vector of vectors");
            conversions(d, "vector of vectors");
            const auto& cjv = jv;
            auto cd = vecmem::get_data(cjv, &up);
            check(cd, "constant vector of vectors");
            break;
        }
        case 3: {
            std::vector<std::size_t> caps;
            for (std::size_t i = 0; i < n; ++i) caps.push_back(shape());
            bool res = rng.chance(500), sep = rng.chance(500);
            vecmem::data::jagged_vector_buffer<T> b(caps, up, sep ? &up2 : nullptr, res ? vecmem::data::buffer_type::resizable : vecmem::data::buffer_type::fixed_size);
            vm::trace("jagged buffer of %zu rows%s%s", n, res ? " resizable" : "", sep ? ", separate host memory" : "");
            for (std::size_t i = 0; i < n; ++i) {
                auto& h = b.host_ptr()[i];
                if (sep) b.ptr()[i] = h;
                std::size_t k = caps[i];
                if (res) *h.size_ptr() = unsigned(k = rng.below(k + 1));
                rows.push_back({h.ptr(), h.size_ptr(), unsigned(caps[i])});
                sizes.push_back(k);
            }
            check(b, "jagged buffer");
            JV& v = vecmem::get_data(b);
            const JV& cv = vecmem::get_data(static_cast<const vecmem::data::jagged_vector_buffer<T>&>(b));
            vm::expect(&v == &b && &cv == &b, P7, "a buffer's view is not the buffer itself");
            conversions(v, "jagged buffer");
            break;
        }
        default: {
            Rows<T> r(rng, n);
            for (std::size_t i = 0; i < n; ++i) {
                rows.push_back({r.p[i], r.resizable ? r.size() + i : nullptr, r.cap[i]});
                sizes.push_back(r.m[i].size());
            }
            JV v = r.view();
            check(v, "rows");
            conversions(v, "rows");
        }
    }
    vecmem::data::jagged_vector_data<T> none;
    vecmem::data::jagged_vector_buffer<T> noneb;
    vm::expect(none.size() == 0 && none.ptr() == nullptr && none.host_ptr() == nullptr && noneb.size() == 0 && noneb.ptr() == nullptr && noneb.host_ptr() == nullptr, P7,
               "default constructed jagged data is not empty");
}
#endif
}  // namespace

#ifndef NO_V04
VM_PROP(V04) {
    if (rng.chance(500)) rng.chance(500) ? plain_iterators<vm::Wide>(rng) : plain_iterators<int>(rng);
    else rng.chance(500) ? row_iterators<vm::Odd3>(rng) : row_iterators<double>(rng);
    vm::st().hash ^= rng.next();
    vm::st().nontrivial = true;
}
#endif
#ifndef NO_V05
VM_PROP(V05) {
    switch (rng.below(6)) {
        case 0: hand_made<std::int32_t>(rng); break;
        case 1: hand_made<vm::Wide>(rng); break;
        case 2: hand_made<std::string>(rng); break;
        case 3: hand_made<vm::Tracked>(rng); break;
        case 4: from_containers<double>(rng); break;
        default: from_containers<vm::Odd3>(rng); break;
    }
    vm::st().nontrivial = vm::st().ops > 5;
}
#endif
#ifndef NO_V07
VM_PROP(V07) {
    switch (rng.below(5)) {
        case 0: one_dimensional<int>(rng); break;
        case 1: one_dimensional<vm::Odd3>(rng); break;
        case 2: jagged<int>(rng); break;
        case 3: jagged<double>(rng); break;
        default: jagged<vm::Odd3>(rng); break;
    }
    vm::st().hash ^= rng.next();
    vm::st().nontrivial = true;
}
#endif

VM_MAIN
