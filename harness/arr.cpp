// V03 fixed-size arrays, V06 the tuple.
#include "elems.hpp"
#include "mr.hpp"

#include <vecmem/containers/array.hpp>
#include <vecmem/containers/device_array.hpp>
#include <vecmem/containers/static_array.hpp>
#include <vecmem/utils/tuple.hpp>

#include <array>
#include <limits>
#include <tuple>
#include <utility>

using vm::make;
using vm::Rng;
using vm::same;
using vm::u64;

namespace {
u64 fresh(Rng& r) { return r.chance(60) ? 0 : r.range(1, 250); }

// ------------------------------------------------------------------ V03
#ifndef NO_V03
const char* const P3 = "V03";

template <typename F>
bool out_of_range(F&& f) {
    try {
        f();
    } catch (const std::out_of_range&) {
        return true;
    }
    return false;
}

// Every access path of an array `a` against the model; `d` is where its elements are.
template <typename A, typename T>
void compare(A& a, const T* d, const std::vector<u64>& m, Rng& rng, bool checked) {
    const A& c = a;
    const std::size_t n = m.size();
    vm::expect(c.size() == n && c.empty() == (n == 0), P3, "size() %zu or empty() is wrong for %zu elements", std::size_t(c.size()), n);
    if (n) vm::expect(a.data() == d && c.data() == d, P3, "data() is not the first element");
    vm::expect(a.end() - a.begin() == std::ptrdiff_t(n) && c.end() - c.begin() == std::ptrdiff_t(n) && a.cend() - a.cbegin() == std::ptrdiff_t(n), P3,
               "iterator distance is not %zu", n);
    for (std::size_t i = 0; i < n; ++i) {
        vm::expect(same(d[i], m[i]), P3, "element %zu of %zu is wrong", i, n);
        vm::expect(&a[i] == d + i && &c[i] == d + i && &a.at(i) == d + i && &c.at(i) == d + i && &*(a.begin() + i) == d + i && &*(c.begin() + i) == d + i &&
                       &*(a.cbegin() + i) == d + i && &a.data()[i] == d + i,
                   P3, "different access paths lead to different places for element %zu of %zu", i, n);
    }
    if (n) {
        vm::expect(&a.front() == d && &c.front() == d, P3, "front() is not the first element");
        vm::expect(&a.back() == d + (n - 1) && &c.back() == d + (n - 1), P3, "back() is not the last element");
    }
    std::size_t i = 0;
    for (auto& e : a) vm::expect(i < n && &e == d + i, P3, "iteration is wrong at %zu", i), ++i;
    vm::expect(i == n, P3, "iteration visits %zu of %zu elements", i, n);
    auto rev = [&](auto b, auto e) {
        std::size_t k = n;
        for (auto it = b; it != e; ++it) {
            vm::expect(k > 0, P3, "reverse iteration is too long");
            --k;
            vm::expect(&*it == d + k, P3, "reverse iteration is wrong at %zu of %zu", k, n);
        }
        vm::expect(k == 0, P3, "reverse iteration is too short");
    };
    switch (rng.below(3)) {
        case 0: rev(a.rbegin(), a.rend()); break;
        case 1: rev(c.rbegin(), c.rend()); break;
        default: rev(a.crbegin(), a.crend());
    }
    if (checked) {
        std::size_t far = rng.pick({n, n + 1, ~std::size_t(0), std::size_t(rng.next()) | (std::size_t(1) << 40), std::size_t(n + rng.below(100))});
        vm::expect(out_of_range([&] { (void)a.at(far); }), P3, "at(%zu) of %zu elements was not reported", far, n);
        vm::expect(out_of_range([&] { (void)c.at(far); }), P3, "constant at(%zu) of %zu elements was not reported", far, n);
    }
    vm::count("comparisons");
}

template <typename A, typename T>
void change(A& a, std::vector<u64>& m, Rng& rng) {
    const std::size_t n = m.size();
    const u64 x = fresh(rng);
    if (rng.chance(150)) {
        vm::trace("overwrite all");
        for (auto& e : a) e = make<T>(x);
        std::fill(m.begin(), m.end(), x);
        return;
    }
    if (!n) return;
    std::size_t j = rng.below(n);
    vm::trace("write [%zu] %llu", j, (unsigned long long)x);
    switch (rng.below(7)) {
        case 0: a[j] = make<T>(x); break;
        case 1: a.at(j) = make<T>(x); break;
        case 2: *(a.begin() + j) = make<T>(x); break;
        case 3: a.data()[j] = make<T>(x); break;
        case 4: *(a.rbegin() + std::ptrdiff_t(n - 1 - j)) = make<T>(x); break;
        case 5:
            a.front() = make<T>(x);
            j = 0;
            break;
        default:
            a.back() = make<T>(x);
            j = n - 1;
    }
    m[j] = x;
    vm::count("writes");
}

template <typename T>
std::size_t alive() {
    if constexpr (std::is_same_v<T, vm::Tracked>) return vm::Registry::get().live.size();
    return 0;
}

// what the library takes for "length given at run time"
template <typename T, std::size_t N>
constexpr std::size_t length_of(vecmem::array<T, N>*) {
    return N;
}
constexpr std::size_t at_run_time = length_of(static_cast<vecmem::array<int>*>(nullptr));
// A host array, of run-time or compile-time length.
template <typename T, std::size_t N>
void host_array(Rng& rng) {
    constexpr bool runtime = N == at_run_time;
    const bool large = rng.chance(3);  // more than 16 bits count
    if (runtime && large) vm::count("large_cases");
    const std::size_t n = runtime ? (large ? rng.range(65500, 66000) : rng.chance(150) ? 0 : rng.below(rng.chance(100) ? 200 : 24)) : N;
    vm::Upstream up(rng.next());
    vm::trace("array<%s> of %zu%s", vm::tname<T>(), n, runtime ? " (run time)" : "");
    {
        using A = vecmem::array<T, N>;
        auto build = [&]() -> std::unique_ptr<A> {
            if constexpr (runtime) return std::unique_ptr<A>(new A(up, n));
            else return std::unique_ptr<A>(new A(up));
        };
        if (rng.chance(100) && n) {  // a resource that can not serve it
            up.fail_when = [](std::size_t, std::size_t) { return true; };
            bool threw = false;
            try {
                build();
            } catch (const std::bad_alloc&) {
                threw = true;
            }
            vm::expect(threw, P3, "an array whose memory could not be obtained was created");
            up.fail_when = nullptr;
        }
        std::unique_ptr<A> a = build();
        std::vector<u64> m;
        if (std::is_class_v<T> && !std::is_trivial_v<T>) m.assign(n, 0);
        else {
            for (std::size_t i = 0; i < n; ++i) m.push_back(fresh(rng)), a->data()[i] = make<T>(m[i]);
        }
        vm::expect(up.live.size() <= 1 && (n == 0 || up.live.size() == 1), P3, "%zu blocks are used for one array of %zu elements", up.live.size(), n);
        if (n) {
            vm::expect(up.holds(reinterpret_cast<const char*>(a->data()), n * sizeof(T)), P3, "the elements are not in memory obtained from the resource");
            vm::expect(reinterpret_cast<std::uintptr_t>(a->data()) % alignof(T) == 0, P3, "the elements are misaligned");
        }
        compare(*a, static_cast<const T*>(a->data()), m, rng, true);
        const T* d = a->data();
        for (int s = int(n > 1000 ? rng.range(1, 3) : rng.range(3, 15)); s--;) {
            if (rng.chance(120)) {
                const u64 x = fresh(rng);
                if (n && rng.chance(300)) {
                    // filled with one of its own elements
                    std::size_t j = rng.below(n);
                    a->fill((*a)[j]);
                    m.assign(n, u64(m[j]));
                } else {
                    a->fill(make<T>(x));
                    m.assign(n, x);
                }
                vm::trace("fill");
            } else
                change<A, T>(*a, m, rng);
            compare(*a, d, m, rng, true);
            vm::expect(alive<T>() == 0 || alive<T>() == n, P3, "%zu objects alive for %zu elements", alive<T>(), n);
        }
        if (n == 0) {
            const A& c = *a;
            vm::expect(out_of_range([&] { (void)a->front(); }) && out_of_range([&] { (void)a->back(); }) && out_of_range([&] { (void)c.front(); }) &&
                           out_of_range([&] { (void)c.back(); }),
                       P3, "front() or back() of an empty array was not reported");
        }
        if (n) {
            vecmem::data::vector_view<T> v = vecmem::get_data(*a);
            vm::expect(v.size() == n && v.ptr() == d, P3, "the view of an array is wrong");
        }
    }
    vm::expect(up.live.empty(), P3, "the array did not return its memory");
    vm::expect(alive<T>() == 0, P3, "%zu objects outlive the array", alive<T>());
}

template <typename T, std::size_t N, std::size_t... I>
bool get_agrees(vecmem::static_array<T, N>& a, std::index_sequence<I...>) {
    const vecmem::static_array<T, N>& c = a;
    const T* d = a.data();
    return ((&vecmem::get<I>(a) == d + I && &vecmem::get<I>(c) == d + I && &a.template get<I>() == d + I && &c.template get<I>() == d + I) && ...);
}

template <typename T, std::size_t N, std::size_t... I>
vecmem::static_array<T, N> aggregate(const std::vector<u64>& m, std::index_sequence<I...>) {
    return vecmem::static_array<T, N>{{make<T>(m[I])...}};
}
template <typename T, std::size_t N>
vecmem::static_array<T, N> aggregate(const std::vector<u64>& m) {
    if constexpr (N < 100) return aggregate<T, N>(m, std::make_index_sequence<N>());
    else {
        vecmem::static_array<T, N> a{};
        for (std::size_t i = 0; i < N; ++i) a[i] = make<T>(m[i]);
        return a;
    }
}

template <typename T>
bool equal_elems(const T& a, const T& b) {
    if constexpr (std::is_same_v<T, vm::Tracked>) return a.v() == b.v();
    else if constexpr (std::is_same_v<T, vm::Wide> || std::is_same_v<T, vm::Odd3>) return !std::memcmp(&a, &b, sizeof a);
    else return a == b;
}

template <typename T, std::size_t N>
void fixed_array(Rng& rng) {
    using A = vecmem::static_array<T, N>;
    vm::trace("static_array<%s,%zu>", vm::tname<T>(), N);
    {
        vm::Guarded mem(sizeof(A), alignof(A));
        std::vector<u64> m;
        for (std::size_t i = 0; i < N; ++i) m.push_back(fresh(rng));
        A& a = *new (mem.data()) A(aggregate<T, N>(m));
        const T* d = reinterpret_cast<const T*>(mem.data());
        compare(a, d, m, rng, true);
        vm::expect(a.max_size() == N && sizeof(A) == N * sizeof(T), P3, "max_size() or the size of the object is wrong");
        if constexpr (N < 100) vm::expect(get_agrees(a, std::make_index_sequence<N>()), P3, "get<I>() leads to another place");
        std::vector<std::pair<A, std::vector<u64>>> others;
        for (int s = int(N > 1000 ? 2 : rng.range(3, 15)); s--;) {
            if (rng.chance(N > 1000 ? 500 : 120)) {
                const u64 x = fresh(rng);
                if (rng.chance(300)) {
                    std::size_t j = rng.below(N);
                    a.fill(a[j]);
                    m.assign(N, u64(m[j]));
                } else {
                    a.fill(make<T>(x));
                    m.assign(N, x);
                }
                vm::trace("fill");
            } else
                change<A, T>(a, m, rng);
            if (rng.chance(200) && others.size() < 3) others.emplace_back(a, m), vm::trace("copy");
            if (rng.chance(100) && !others.empty()) {
                auto& o = rng.pick(others);
                vm::trace("assign");
                if (rng.chance(500)) a = o.first, m = o.second;
                else o.first = a, o.second = m;
            }
            compare(a, d, m, rng, true);
            vm::expect(mem.intact(), P3, "memory outside the array was changed");
            for (auto& o : others) {
                compare(o.first, static_cast<const T*>(o.first.data()), o.second, rng, true);
                if constexpr (!std::is_same_v<T, vm::Tracked> && !std::is_same_v<T, vm::Wide> && !std::is_same_v<T, vm::Odd3>) {
                    bool eq = true;
                    for (std::size_t i = 0; i < N; ++i) eq = eq && equal_elems(a.data()[i], o.first.data()[i]);
                    vm::expect((a == o.first) == eq && (o.first == a) == eq && (a != o.first) == !eq, P3, "comparison of arrays is wrong");
                    // one differing element, anywhere
                    A b(a);
                    vm::expect(b == a && !(b != a), P3, "an array is not equal to its copy");
                    std::size_t j = rng.below(N);
                    b[j] = make<T>(m[j] + 1);
                    vm::expect(b != a && !(b == a) && a != b, P3, "a difference in element %zu of %zu is not seen", j, N);
                    vm::count("compared_arrays");
                }
            }
        }
        others.clear();
        a.~A();
    }
    vm::expect(alive<T>() == 0, P3, "%zu objects outlive the array", alive<T>());
}

template <typename T, std::size_t N>
void view_array(Rng& rng) {
    using A = vecmem::device_array<T, N>;
    vm::trace("device_array<%s,%zu>", vm::tname<T>(), N);
    {
        const std::size_t cap = N + rng.below(4);  // the view may be larger than the array
        vm::Guarded mem(cap * sizeof(T), alignof(T)), mem2(N * sizeof(T), alignof(T));
        T* d = reinterpret_cast<T*>(mem.data());
        T* d2 = reinterpret_cast<T*>(mem2.data());
        std::vector<u64> m, m2, rest;
        for (std::size_t i = 0; i < cap; ++i) {
            u64 x = fresh(rng);
            (i < N ? m : rest).push_back(x);
            new (d + i) T(make<T>(x));
        }
        for (std::size_t i = 0; i < N; ++i) m2.push_back(fresh(rng)), new (d2 + i) T(make<T>(m2[i]));
        using V = vecmem::data::vector_view<T>;
        unsigned sz = unsigned(cap);
        std::vector<A> as;
        as.emplace_back(rng.chance(500) ? V(unsigned(cap), d) : V(unsigned(cap), &sz, d));
        for (int s = int(N > 1000 ? 2 : rng.range(3, 15)); s--;) {
            A& a = rng.pick(as);
            change<A, T>(a, m, rng);
            compare(rng.pick(as), static_cast<const T*>(d), m, rng, false);
            vm::expect(a.max_size() == N, P3, "max_size() is wrong");
            if (as.size() < 3) as.emplace_back(a);
            vecmem::device_array<const T, N> ca{V(unsigned(cap), d)};
            for (std::size_t i = 0; i < N; ++i) vm::expect(&ca[i] == d + i && &ca.at(i) == d + i, P3, "a constant array shows another element");
            if (rng.chance(150)) {
                // re-seated onto other elements and back
                A& b = rng.pick(as);
                A other{V(unsigned(N), d2)};
                b = other;
                compare(b, static_cast<const T*>(d2), m2, rng, false);
                change<A, T>(b, m2, rng);
                compare(b, static_cast<const T*>(d2), m2, rng, false);
                compare(other, static_cast<const T*>(d2), m2, rng, false);
                b = A{V(unsigned(cap), d)};
                compare(b, static_cast<const T*>(d), m, rng, false);
            }
            for (std::size_t i = N; i < cap; ++i) vm::expect(same(d[i], rest[i - N]), P3, "an element beyond the array was changed");
            vm::expect(mem.intact() && mem2.intact(), P3, "memory outside the array was changed");
        }
        for (std::size_t i = 0; i < cap; ++i) d[i].~T();
        for (std::size_t i = 0; i < N; ++i) d2[i].~T();
    }
    vm::expect(alive<T>() == 0, P3, "%zu objects outlive the array", alive<T>());
}

template <typename T>
void arrays(Rng& rng) {
    if constexpr (std::is_arithmetic_v<T>) {
        if (rng.chance(4)) {
            vm::count("large_cases");
            switch (rng.below(4)) {
                case 0: fixed_array<T, 300>(rng); break;
                case 1: fixed_array<T, 65600>(rng); break;
                case 2: view_array<T, 300>(rng); break;
                default: view_array<T, 65600>(rng); break;
            }
            return;
        }
    }
    switch (rng.below(11)) {
        case 0:
        case 1:
        case 2: host_array<T, at_run_time>(rng); break;
        case 3: host_array<T, 0>(rng); break;
        case 4: host_array<T, 9>(rng); break;
        case 5: fixed_array<T, 1>(rng); break;
        case 6: fixed_array<T, 5>(rng); break;
        case 7: fixed_array<T, 19>(rng); break;
        case 8: view_array<T, 1>(rng); break;
        case 9: view_array<T, 4>(rng); break;
        default: view_array<T, 21>(rng); break;
    }
}
#endif

// ------------------------------------------------------------------ V06
#ifndef NO_V06
const char* const P6 = "V06";

struct Empty {};
using Owner = std::unique_ptr<u64>;
enum class Color : unsigned char { none };

template <typename T>
T mk(u64 x) {
    if constexpr (std::is_same_v<T, Empty>) return Empty{};
    else if constexpr (std::is_same_v<T, Owner>) return std::make_unique<u64>(x);
    else if constexpr (std::is_same_v<T, Color>) return Color(x & 255);
    else if constexpr (std::is_same_v<T, const u64*>) return reinterpret_cast<const u64*>(x * 8);
    else if constexpr (std::is_same_v<T, std::pair<int, std::string>>) return {int(x), make<std::string>(x)};
    else return make<T>(x);
}
template <typename T>
bool is(const T& t, u64 x) {
    if constexpr (std::is_same_v<T, Empty>) return true;
    else if constexpr (std::is_same_v<T, Owner>) return t && *t == x;
    else if constexpr (std::is_same_v<T, Color>) return t == Color(x & 255);
    else if constexpr (std::is_same_v<T, const u64*>) return t == reinterpret_cast<const u64*>(x * 8);
    else if constexpr (std::is_same_v<T, std::pair<int, std::string>>) return t.first == int(x) && same(t.second, x);
    else return same(t, x);
}

template <typename... Ts>
struct Case {
    using VT = vecmem::tuple<Ts...>;
    using ST = std::tuple<Ts...>;
    static constexpr std::size_t N = sizeof...(Ts);
    using Seq = std::make_index_sequence<N>;
    using M = std::array<u64, N>;
    template <std::size_t I>
    using E = std::tuple_element_t<I, ST>;

    static M values(Rng& rng) {
        M m;
        for (auto& x : m) x = fresh(rng);
        return m;
    }
    template <typename Tuple, std::size_t... I>
    static void check(Tuple& t, const M& m, const char* what, std::index_sequence<I...>) {
        const Tuple& c = t;
        const char* b = reinterpret_cast<const char*>(&t);
        auto one = [&](auto i) {
            constexpr std::size_t K = decltype(i)::value;
            auto& e = vecmem::get<K>(t);
            const auto& ce = vecmem::get<K>(c);
            vm::expect(is(ce, m[K]), P6, "%s: element %zu of %zu is wrong", what, K, N);
            vm::expect(static_cast<const void*>(&e) == static_cast<const void*>(&ce), P6, "%s: constant and non-constant access differ for element %zu", what, K);
            const char* a = reinterpret_cast<const char*>(&e);
            vm::expect(a >= b && a + sizeof e <= b + sizeof(Tuple), P6, "%s: element %zu is not inside the tuple", what, K);
            vm::expect(reinterpret_cast<std::uintptr_t>(a) % alignof(E<K>) == 0, P6, "%s: element %zu is misaligned", what, K);
            static_assert(std::is_same_v<decltype(vecmem::get<K>(t)), E<K>&>);
            static_assert(std::is_same_v<decltype(vecmem::get<K>(c)), const E<K>&>);
            static_assert(std::is_same_v<vecmem::tuple_element_t<K, VT>, std::decay_t<E<K>>>);
        };
        (one(std::integral_constant<std::size_t, I>()), ...);
        vm::count("tuples_checked");
    }
    template <std::size_t... I>
    static void write_one(VT& t, M& m, Rng& rng, std::index_sequence<I...> s) {
        std::size_t k = rng.below(N);
        u64 x = fresh(rng);
        ((I == k ? (void)(vecmem::get<I>(t) = mk<E<I>>(x)) : void()), ...);
        m[k] = x;
        check(t, m, "after a write", s);
        vm::count("writes");
    }
    template <std::size_t... I>
    static void run(Rng& rng, std::index_sequence<I...> s) {
        vm::trace("tuple of %zu", N);
        M m = values(rng), m2 = values(rng);
        VT t(mk<E<I>>(m[I])...);  // from temporaries
        check(t, m, "built from temporaries", s);
        write_one(t, m, rng, s);
        auto made = vecmem::make_tuple(mk<E<I>>(m2[I])...);
        static_assert(std::is_same_v<decltype(made), VT>);
        check(made, m2, "made", s);
        {
            VT moved(std::move(made));
            check(moved, m2, "moved", s);
            made = std::move(moved);
            check(made, m2, "move assigned", s);
        }
        // references to objects
        ST objs(mk<E<I>>(m2[I])...);
        auto refs = vecmem::tie(std::get<I>(objs)...);
        static_assert(std::is_same_v<decltype(refs), vecmem::tuple<E<I>&...>>);
        vm::expect(((static_cast<const void*>(&vecmem::get<I>(refs)) == static_cast<const void*>(&std::get<I>(objs))) && ...), P6, "a tie does not refer to its originals");
        {
            const auto& crefs = refs;
            vm::expect(((static_cast<const void*>(&vecmem::get<I>(crefs)) == static_cast<const void*>(&std::get<I>(objs))) && ...), P6, "a constant tie does not refer to its originals");
            auto refs2(refs);
            vm::expect(((static_cast<const void*>(&vecmem::get<I>(refs2)) == static_cast<const void*>(&std::get<I>(objs))) && ...), P6, "a copied tie does not refer to the originals");
            M m3 = values(rng);
            ((vecmem::get<I>(refs) = mk<E<I>>(m3[I])), ...);
            vm::expect((is(std::get<I>(objs), m3[I]) && ...), P6, "a write through a tie does not reach the original");
            m2 = m3;
            const ST& cobjs = objs;
            auto cr = vecmem::tie(std::get<I>(cobjs)...);
            static_assert(std::is_same_v<decltype(cr), vecmem::tuple<const E<I>&...>>);
            vm::expect(((&vecmem::get<I>(cr) == &std::get<I>(objs)) && ...), P6, "a tie of constants does not refer to its originals");
        }
        if constexpr ((std::is_copy_constructible_v<Ts> && ...)) {
            // from named objects, which stay as they were
            VT c(std::get<I>(objs)...);
            check(c, m2, "built from objects", s);
            vm::expect((is(std::get<I>(objs), m2[I]) && ...), P6, "building a tuple changed the objects it was built from");
            auto d = vecmem::make_tuple(std::get<I>(objs)...);
            static_assert(std::is_same_v<decltype(d), VT>);
            check(d, m2, "made from objects", s);
            vm::expect((is(std::get<I>(objs), m2[I]) && ...), P6, "making a tuple changed the objects it was made from");
            // by value out of references, and references to elements
            VT e(refs);
            check(e, m2, "converted from references", s);
            vecmem::tuple<const E<I>&...> into(static_cast<const VT&>(e));
            vm::expect(((&vecmem::get<I>(into) == &vecmem::get<I>(e)) && ...), P6, "references converted from a tuple do not refer to its elements");
            // copies are independent
            VT f(static_cast<const VT&>(e));
            check(f, m2, "copied", s);
            write_one(f, m2, rng, s);
            M em = m2;
            (void)em;
            VT g(static_cast<const VT&>(t));
            g = static_cast<const VT&>(f);
            check(g, m2, "copy assigned", s);
            check(t, m, "the source of a copy", s);
            g = *&g;
            check(g, m2, "self assigned", s);
        }
    }
    static void concat(Rng& rng) {
        if constexpr (N > 1) cat(rng, std::make_index_sequence<N - 1>(), Seq());
    }
    template <std::size_t... J, std::size_t... I>
    static void cat(Rng& rng, std::index_sequence<J...>, std::index_sequence<I...> s) {
        M m = values(rng);
        VT t(mk<E<0>>(m[0]), vecmem::tuple<E<J + 1>...>(mk<E<J + 1>>(m[J + 1])...));
        check(t, m, "concatenated", s);
        vm::count("concatenations");
    }
    static void go(Rng& rng) {
        run(rng, Seq());
        concat_any(rng);
    }
    static void concat_any(Rng& rng) {
        // the tail is copied from when converting; only for copyable tails
        if constexpr ((std::is_copy_constructible_v<Ts> && ...)) concat(rng);
    }
};

// Made from a string, by a copy or by taking it over.
struct Taker {
    std::string s;
    bool took;
    Taker(const std::string& x) : s(x), took(false) {}
    Taker(std::string&& x) : s(std::move(x)), took(true) { x = "taken"; }
    Taker(const Taker&) = default;
    Taker& operator=(const Taker&) = default;
};
void convert_from_kept(Rng& rng) {
    const std::string s = make<std::string>(fresh(rng)) + "-", u = make<std::string>(fresh(rng)) + "+";
    const vecmem::tuple<std::string, int, std::string> c(s, 3, u);
    vecmem::tuple<std::string, int, std::string> m(s, 4, u);
    vecmem::tuple<Taker, long, Taker> a(c), b(m);
    auto kept = [&](auto& t, int n) { return vecmem::get<0>(t) == s && vecmem::get<1>(t) == n && vecmem::get<2>(t) == u; };
    vm::expect(kept(c, 3) && kept(m, 4), P6, "converting a tuple changed it");
    auto right = [&](auto& t, int n) { return vecmem::get<0>(t).s == s && !vecmem::get<0>(t).took && vecmem::get<1>(t) == n && vecmem::get<2>(t).s == u && !vecmem::get<2>(t).took; };
    vm::expect(right(a, 3) && right(b, 4), P6, "converting a tuple changed a value");
    vecmem::tuple<std::string, int, std::string> copy(m), assigned;
    assigned = m;
    vm::expect(kept(m, 4) && kept(copy, 4) && kept(assigned, 4), P6, "copying a tuple changed it");
    // values handed to the constructor, and to the maker, stay the caller's
    std::string x = s, y = u;
    vecmem::tuple<std::string, Taker> d(x, y);
    auto e = vecmem::make_tuple(x, y);
    vm::expect(x == s && y == u && vecmem::get<0>(d) == s && vecmem::get<1>(d).s == u && vecmem::get<0>(e) == s && vecmem::get<1>(e) == u, P6, "making a tuple of variables changed them");
    auto f = vecmem::make_tuple(std::move(x), y);
    vm::expect(y == u && vecmem::get<0>(f) == s && vecmem::get<1>(f) == u, P6, "making a tuple of variables changed them");
    std::string z = u;
    auto r = vecmem::tie(z, y);
    vm::expect(&vecmem::get<0>(r) == &z && &vecmem::get<1>(r) == &y && z == u && y == u, P6, "tying variables changed them");
    vm::count("conversions");
}
// Between different types: what std::tuple converts to, the tuple does.
void convert(Rng& rng) {
    convert_from_kept(rng);
    u64 x = fresh(rng), y = fresh(rng), z = fresh(rng);
    vm::trace("convert %llu %llu %llu", (unsigned long long)x, (unsigned long long)y, (unsigned long long)z);
    std::string str = make<std::string>(z);
    vecmem::tuple<int, unsigned char, const char*> a(int(x), (unsigned char)y, str.c_str());
    vecmem::tuple<long, double, std::string> b(a);
    vm::expect(vecmem::get<0>(b) == long(x) && vecmem::get<1>(b) == double(y) && vecmem::get<2>(b) == str, P6, "conversion changed a value");
    std::tuple<int, unsigned char, const char*> sa(int(x), (unsigned char)y, str.c_str());
    std::tuple<long, double, std::string> sb(sa);
    vm::expect(vecmem::get<0>(b) == std::get<0>(sb) && vecmem::get<1>(b) == std::get<1>(sb) && vecmem::get<2>(b) == std::get<2>(sb), P6, "conversion disagrees with std::tuple");
    // assignment through conversion
    vecmem::tuple<long, double, std::string> c(1L, 2., std::string("3"));
    c = a;
    vm::expect(vecmem::get<0>(c) == long(x) && vecmem::get<1>(c) == double(y) && vecmem::get<2>(c) == str, P6, "converting assignment changed a value");
    // decay
    const int ci = int(x);
    int& ri = const_cast<int&>(ci);
    char text[8] = "abc";
    text[0] = char('a' + x % 20);
    auto d = vecmem::make_tuple(ci, ri, text, std::move(str), convert);
    static_assert(std::is_same_v<decltype(d), vecmem::tuple<int, int, char*, std::string, void (*)(Rng&)>>);
    vm::expect(vecmem::get<0>(d) == int(x) && vecmem::get<1>(d) == int(x) && vecmem::get<2>(d) == text && vecmem::get<3>(d) == make<std::string>(z) && vecmem::get<4>(d) == convert, P6,
               "making a tuple by value changed a value");
    // mixed values and references
    int i1 = int(x), i2 = int(y);
    double f1 = double(z);
    vecmem::tuple<int&, int, const double&> e(i1, i2, f1);
    i1 += 3;
    i2 += 5;
    vm::expect(&vecmem::get<0>(e) == &i1 && vecmem::get<1>(e) == int(y) && &vecmem::get<2>(e) == &f1, P6, "a tuple of references and values mixes them up");
    vecmem::tuple<int, int, double> f(e);
    vm::expect(vecmem::get<0>(f) == int(x) + 3 && vecmem::get<1>(f) == int(y) && vecmem::get<2>(f) == double(z), P6, "converting references to values is wrong");
    // implicit conversion in a call
    auto take = [&](vecmem::tuple<double, double, double> t) { return vecmem::get<0>(t) * 4 + vecmem::get<1>(t) * 2 + vecmem::get<2>(t); };
    vm::expect(take(f) == (double(x) + 3) * 4 + double(y) * 2 + double(z), P6, "implicit conversion is wrong");
    // a move takes an owner along
    vecmem::tuple<Owner, int, std::string> o(std::make_unique<u64>(x), int(y), make<std::string>(z));
    u64* p = vecmem::get<0>(o).get();
    vecmem::tuple<Owner, int, std::string> q(std::move(o));
    vm::expect(vecmem::get<0>(q).get() == p && !vecmem::get<0>(o) && vecmem::get<1>(q) == int(y) && same(vecmem::get<2>(q), z), P6, "moving a tuple does not move its elements");
    vm::count("conversions");
}

void defaults() {
    vecmem::tuple<std::string, vm::Tracked, int, double> t{};
    vm::expect(vecmem::get<0>(t).empty() && vecmem::get<1>(t).v() == 0 && vecmem::get<2>(t) == 0 && vecmem::get<3>(t) == 0., P6, "a value-initialised tuple holds something else");
    vecmem::tuple<> e;
    (void)e;
}
#endif

#ifndef NO_V03
// Equality is that of the elements, whatever their bytes are.
struct Noted {
    char key;
    int note;
    friend bool operator==(const Noted& a, const Noted& b) { return a.key == b.key; }
    friend bool operator!=(const Noted& a, const Noted& b) { return a.key != b.key; }
};
template <typename T>
T special(Rng& rng) {
    if constexpr (std::is_floating_point_v<T>) {
        static const T all[] = {T(0), -T(0), T(1), std::numeric_limits<T>::quiet_NaN(), -std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::denorm_min()};
        return all[rng.chance(600) ? rng.below(2) : rng.below(7)];
    } else
        return T{char(rng.below(2)), int(rng.below(3))};
}
template <typename T, std::size_t N>
void by_element(Rng& rng) {
    vm::trace("equality of static_array<%s,%zu>", std::is_same_v<T, Noted> ? "a type with an equality of its own" : vm::tname<T>(), N);
    vecmem::static_array<T, N> a{}, b{};
    for (std::size_t i = 0; i < N; ++i) {
        a[i] = special<T>(rng);
        b[i] = rng.chance(700) ? a[i] : special<T>(rng);
    }
    bool eq = true, ne = false;
    for (std::size_t i = 0; i < N; ++i) {
        eq = eq && a.data()[i] == b.data()[i];
        ne = ne || a.data()[i] != b.data()[i];
    }
    vm::expect((a == b) == eq && (b == a) == eq && (a != b) == ne && (b != a) == ne, P3, "comparison of arrays is not that of their elements");
    // contents are kept to the byte
    vecmem::static_array<T, N> c(a), d{};
    d = b;
    for (std::size_t i = 0; i < N; ++i) {
        if constexpr (std::is_same_v<T, Noted>) vm::expect(c[i] == a[i] && c[i].note == a[i].note && d[i] == b[i] && d[i].note == b[i].note, P3, "a copied array has other elements");
        else vm::expect(!std::memcmp(&c[i], &a[i], sizeof(T)) && !std::memcmp(&d[i], &b[i], sizeof(T)), P3, "a copied array has other elements");
    }
    vm::count("own_equality");
}
#endif
}  // namespace

#ifndef NO_V03
VM_CASES(V03, 6, vm::Cases<>, [](auto k, vm::Rng& rng) {
    if constexpr (k == 0) arrays<std::int32_t>(rng);
    else if constexpr (k == 1) arrays<std::uint8_t>(rng);
    else if constexpr (k == 2) arrays<double>(rng);
    else if constexpr (k == 3) arrays<vm::Wide>(rng);
    else if constexpr (k == 4) arrays<std::string>(rng);
    else arrays<vm::Tracked>(rng);
})
VM_PROP(V03) {
    vm::Cases<>::run("V03", std::min<u64>(rng.below(7), 5), rng);
    by_element<double, 1>(rng);
    by_element<double, 3>(rng);
    by_element<float, 5>(rng);
    by_element<Noted, 2>(rng);
    vm::st().nontrivial = vm::st().ops > 3;
}
#endif

#ifndef NO_V06
VM_PROP(V06) {
    switch (rng.below(14)) {
        case 0: Case<int>::go(rng); break;
        case 1: Case<std::string, int>::go(rng); break;
        case 2: Case<unsigned char, double, short>::go(rng); break;
        case 3: Case<vm::Tracked, vm::Tracked>::go(rng); break;
        case 4: Case<int, int, int, int, int, int>::go(rng); break;
        case 5: Case<vm::Odd3, vm::Wide, char, std::string>::go(rng); break;
        case 6: Case<Empty, int, Empty, std::string>::go(rng); break;
        case 7: Case<Owner, int, Owner>::go(rng); break;
        case 8: Case<std::pair<int, std::string>, const u64*, Color, float>::go(rng); break;
        case 9: Case<vm::Tracked, int, std::string, vm::Wide, double, unsigned char, vm::Tracked, long>::go(rng); break;
        case 10: Case<Owner>::go(rng); break;
        case 11: Case<vm::Wide, unsigned char, vm::Wide>::go(rng); break;
        default: convert(rng);
    }
    defaults();
    vm::expect(vm::Registry::get().live.empty(), P6, "objects are left over");
    vm::st().hash ^= rng.next();
    vm::st().nontrivial = true;
}
#endif

VM_MAIN
