// V01 device vectors, V02 static vectors: every operation against a list of numbers.
#include "elems.hpp"

#include <vecmem/containers/data/vector_view.hpp>
#include <vecmem/containers/device_vector.hpp>
#include <vecmem/containers/static_vector.hpp>

#include <algorithm>
#include <iterator>
#include <list>
#include <sstream>

using vm::make;
using vm::Rng;
using vm::same;
using vm::u64;

namespace {

u64 fresh(Rng& r) { return r.chance(60) ? 0 : r.range(1, 250); }

// All access paths of a vector against the model.
template <typename V, typename M>
void compare(V& v, const M& model, Rng& rng, const char* P) {
    const V& c = v;
    const std::size_t n = model.size();
    vm::expect(c.size() == n && v.size() == n, P, "size %zu instead of %zu", std::size_t(c.size()), n);
    vm::expect(c.empty() == (n == 0), P, "empty() is wrong for %zu elements", n);
    auto* d = v.data();
    vm::expect(static_cast<const void*>(d) == static_cast<const void*>(c.data()), P, "data() differs between constant and non-constant access");
    for (std::size_t i = 0; i < n; ++i) {
        vm::expect(same(c[typename V::size_type(i)], model[i]), P, "element %zu of %zu is wrong", i, n);
        vm::expect(&c[typename V::size_type(i)] == d + i && &v[typename V::size_type(i)] == d + i && &v.at(typename V::size_type(i)) == d + i &&
                       &c.at(typename V::size_type(i)) == d + i,
                   P, "different access paths lead to different places for element %zu", i);
    }
    if (n) {
        vm::expect(&v.front() == d && &c.front() == d && &v.back() == d + n - 1 && &c.back() == d + n - 1, P, "front() or back() is not the first or last element");
    }
    vm::expect(std::size_t(v.end() - v.begin()) == n && std::size_t(c.end() - c.begin()) == n && std::size_t(v.cend() - v.cbegin()) == n, P, "iterator distance is not the size");
    vm::expect(&*v.begin() == d || n == 0, P, "begin() is not the first element");
    switch (rng.below(4)) {
        case 0: {
            std::size_t i = 0;
            for (auto& e : v) vm::expect(i < n && same(e, model[i]), P, "forward iteration is wrong at %zu", i), ++i;
            vm::expect(i == n, P, "forward iteration stopped at %zu of %zu", i, n);
            break;
        }
        case 1: {
            std::size_t i = n;
            for (auto it = v.rbegin(); it != v.rend(); ++it) {
                vm::expect(i > 0, P, "reverse iteration is too long");
                --i;
                vm::expect(same(*it, model[i]), P, "reverse iteration is wrong at %zu", i);
            }
            vm::expect(i == 0, P, "reverse iteration is too short");
            break;
        }
        case 2: {
            std::size_t i = n;
            for (auto it = c.rbegin(); it != c.rend(); it++) {
                vm::expect(i > 0, P, "constant reverse iteration is too long");
                --i;
                vm::expect(same(*it, model[i]), P, "constant reverse iteration is wrong at %zu", i);
            }
            vm::expect(i == 0, P, "constant reverse iteration is too short");
            break;
        }
        default: {
            std::size_t i = 0;
            for (auto it = v.cbegin(); it != v.cend(); ++it) vm::expect(i < n && same(*it, model[i]), P, "constant iteration is wrong at %zu", i), ++i;
            i = n;
            for (auto it = v.crbegin(); it != v.crend(); ++it) vm::expect(i > 0 && same(*it, model[i - 1]), P, "constant reverse iteration is wrong at %zu", i - 1), --i;
            vm::expect(i == 0, P, "constant reverse iteration is too short");
        }
    }
    vm::count("comparisons");
}

// ------------------------------------------------------------------ V01
template <typename T>
void device_case(Rng& rng) {
    using DV = vecmem::device_vector<T>;
    using SZ = typename DV::size_type;
    const char* P = "V01";
    SZ cap = SZ(rng.pick({u64(0), u64(1), u64(2), rng.range(3, 9), rng.range(10, 60)}));
    // now and then more than 16 bits of elements
    const bool large = sizeof(T) <= 8 ? rng.chance(2) : std::is_same_v<T, vm::Tracked> && rng.chance(1);
    if (large) cap = SZ(rng.range(65530, 70000)), vm::count(std::is_same_v<T, vm::Tracked> ? "large_tracked" : "large");
    const bool fixed = rng.chance(120);
    vm::Guarded mem(cap * sizeof(T), alignof(T) > 64 ? 64 : alignof(T));
    vm::Guarded szmem(sizeof(SZ), alignof(SZ));
    SZ& size = *reinterpret_cast<SZ*>(szmem.data());
    T* p = reinterpret_cast<T*>(mem.data());
    std::vector<u64> model;
    size = fixed ? cap : SZ(rng.below(cap + 1));
    for (SZ i = 0; i < size; ++i) {
        model.push_back(fresh(rng));
        new (p + i) T(make<T>(model.back()));
    }
    const SZ init = size;
    vecmem::data::vector_view<T> view = fixed ? vecmem::data::vector_view<T>(cap, p) : vecmem::data::vector_view<T>(cap, &size, p);
    vm::trace("device_vector<%s> capacity %u size %u%s", vm::tname<T>(), cap, init, fixed ? " fixed" : "");
    std::vector<std::unique_ptr<DV>> objs;
    objs.emplace_back(new DV(view));
    auto check = [&] {
        DV& v = *rng.pick(objs);
        compare(v, model, rng, P);
        vm::expect(v.capacity() == cap && v.max_size() == cap, P, "capacity %u or maximum %u instead of %u", unsigned(v.capacity()), unsigned(v.max_size()), cap);
        vm::expect(v.data() == p, P, "the storage moved");
        if (!fixed) vm::expect(size == model.size(), P, "the size counter shows %u instead of %zu", size, model.size());
        vm::expect(mem.intact() && szmem.intact(), P, "memory outside the vector's storage was changed");
        if (rng.chance(200)) {
            vecmem::data::vector_view<const T> cv(view);
            vecmem::device_vector<const T> cd(cv);
            vm::expect(cd.size() == model.size() && cd.capacity() == cap, P, "a constant view shows another size");
            for (SZ i = 0; i < cd.size(); ++i) vm::expect(same(cd[i], model[i]) && same(cd.at(i), model[i]), P, "a constant view shows another element");
        }
        if constexpr (std::is_same_v<T, vm::Tracked>)
            vm::expect(vm::Registry::get().live.size() == model.size(), P, "%zu objects alive, %zu visible", vm::Registry::get().live.size(), model.size());
    };
    check();
    const int steps = large ? int(rng.range(4, 10)) : int(rng.range(20, 120));
    auto some = [&](SZ room) { return rng.chance(large ? 500 : 60) ? room : SZ(rng.below(std::min<SZ>(room, 6) + 1)); };
    for (int s = 0; s < steps; ++s) {
        DV& v = *rng.pick(objs);
        const SZ n = SZ(model.size()), room = cap - n;
        const u64 x = fresh(rng);
        u64 op = fixed ? rng.range(20, 24) : rng.below(25);
        switch (op) {
            case 0:
            case 1:
                if (room) {
                    vm::trace("push_back %llu", (unsigned long long)x);
                    SZ k = v.push_back(make<T>(x));
                    model.push_back(x);
                    vm::expect(k == n, P, "push_back returned %u instead of %u", k, n);
                }
                break;
            case 2:
                if (room && n) {  // an element of the vector itself
                    SZ j = SZ(rng.below(n));
                    vm::trace("push_back [%u]", j);
                    SZ k = v.push_back(v[j]);
                    model.push_back(model[j]);
                    vm::expect(k == n, P, "push_back returned %u instead of %u", k, n);
                }
                break;
            case 3:
            case 4:
                if (room) {
                    vm::trace("emplace_back %llu", (unsigned long long)x);
                    T* e;
                    if constexpr (std::is_same_v<T, vm::Tracked>) {
                        if (rng.chance(300)) e = &v.emplace_back(x, u64(0));
                        else e = &v.emplace_back(x);
                    } else
                        e = &v.emplace_back(make<T>(x));
                    model.push_back(x);
                    vm::expect(e == p + n, P, "emplace_back returned a reference to element %ld instead of %u", long(e - p), n);
                }
                break;
            case 5: {
                SZ k = some(room);
                vm::trace("bulk_append %u", k);
                SZ at = v.bulk_append(k);
                for (SZ i = 0; i < k; ++i) model.push_back(0);
                vm::expect(at == n, P, "bulk_append returned %u instead of %u", at, n);
                break;
            }
            case 6: {
                SZ k = some(room);
                vm::trace("bulk_append %u %llu", k, (unsigned long long)x);
                SZ at = v.bulk_append(k, make<T>(x));
                for (SZ i = 0; i < k; ++i) model.push_back(x);
                vm::expect(at == n, P, "bulk_append returned %u instead of %u", at, n);
                break;
            }
            case 7:
            case 8: {
                SZ k = some(room);
                SZ at;
                vm::trace("bulk_append_implicit %u", k);
                if constexpr (std::is_trivial_v<T>) {
                    at = op == 7 ? v.bulk_append_implicit(k) : v.bulk_append_implicit_unsafe(k);
                    for (SZ i = 0; i < k; ++i) v[at + i] = make<T>(x + i);
                } else {
                    at = v.bulk_append_implicit_unsafe(k);
                    for (SZ i = 0; i < k; ++i) new (v.data() + at + i) T(make<T>(x + i));
                }
                for (SZ i = 0; i < k; ++i) model.push_back(x + i);
                vm::expect(at == n, P, "bulk_append_implicit returned %u instead of %u", at, n);
                break;
            }
            case 9:
            case 10:
                if (n) {
                    vm::trace("pop_back");
                    SZ k = v.pop_back();
                    model.pop_back();
                    vm::expect(k == n - 1, P, "pop_back returned %u instead of %u", k, n - 1);
                }
                break;
            case 11:
                if (rng.chance(300)) {
                    vm::trace("clear");
                    v.clear();
                    model.clear();
                }
                break;
            case 12:
            case 13: {
                SZ k = rng.chance(150) ? n : rng.chance(150) ? cap : SZ(rng.below(cap + 1));
                vm::trace("resize %u", k);
                v.resize(k);
                model.resize(k, 0);
                break;
            }
            case 14:
            case 15: {
                SZ k = rng.chance(150) ? n : SZ(rng.below(cap + 1));
                if (n && rng.chance(300)) {  // grown with one of the vector's own elements
                    SZ j = SZ(rng.below(n));
                    vm::trace("resize %u [%u]", k, j);
                    u64 y = model[j];
                    v.resize(k, v[j]);
                    model.resize(k, y);
                } else {
                    vm::trace("resize %u %llu", k, (unsigned long long)x);
                    v.resize(k, make<T>(x));
                    model.resize(k, x);
                }
                break;
            }
            case 16:
            case 17: {
                SZ k = SZ(rng.below(cap + 1));
                vm::trace("resize_implicit %u", k);
                if constexpr (std::is_trivial_v<T>) {
                    if (op == 16) v.resize_implicit(k);
                    else v.resize_implicit_unsafe(k);
                    for (SZ i = n; i < k; ++i) v[i] = make<T>(x + i);
                } else {
                    for (SZ i = k; i < n; ++i) (p + i)->~T();
                    v.resize_implicit_unsafe(k);
                    for (SZ i = n; i < k; ++i) new (p + i) T(make<T>(x + i));
                }
                std::size_t was = model.size();
                model.resize(k, 0);
                for (std::size_t i = was; i < k; ++i) model[i] = x + i;
                break;
            }
            case 18:
            case 19: {
                SZ k = rng.chance(150) ? cap : SZ(rng.below(cap + 1));
                vm::trace("assign %u %llu", k, (unsigned long long)x);
                v.assign(k, make<T>(x));
                model.assign(k, x);
                break;
            }
            case 20:
            case 21:
                if (n) {
                    SZ j = SZ(rng.below(n));
                    vm::trace("write [%u] %llu", j, (unsigned long long)x);
                    switch (rng.below(6)) {
                        case 0: v[j] = make<T>(x); break;
                        case 1: v.at(j) = make<T>(x); break;
                        case 2: *(v.begin() + j) = make<T>(x); break;
                        case 3: *(v.data() + j) = make<T>(x); break;
                        case 4: *(v.rbegin() + (std::ptrdiff_t(n) - 1 - j)) = make<T>(x); break;
                        default:
                            j = rng.chance(500) ? 0 : n - 1;
                            (j == 0 ? v.front() : v.back()) = make<T>(x);
                    }
                    model[j] = x;
                }
                break;
            case 22:
                if (objs.size() < 4) {
                    vm::trace("copy");
                    objs.emplace_back(new DV(v));
                }
                break;
            case 23: {
                vm::trace("assign object");
                DV& o = *rng.pick(objs);
                o = v;
                break;
            }
            default:
                if (objs.size() > 1) {  // dropping a vector object changes nothing
                    vm::trace("drop object");
                    objs.erase(objs.begin() + std::ptrdiff_t(rng.below(objs.size())));
                } else if (rng.chance(300)) {
                    // an object re-seated onto other storage and back
                    vm::trace("re-seat");
                    SZ other = 0;
                    DV tmp(vecmem::data::vector_view<T>(SZ(0), &other, static_cast<T*>(nullptr)));
                    vm::expect(tmp.empty() && tmp.capacity() == 0, P, "an empty vector is not empty");
                    *objs[0] = tmp;
                    vm::expect(objs[0]->capacity() == 0 && objs[0]->size() == 0, P, "assignment did not take over the other vector's storage");
                    *objs[0] = DV(view);
                }
        }
        vm::count("operations");
        check();
    }
    objs.clear();
    for (std::size_t i = 0; i < model.size(); ++i) (p + i)->~T();
    vm::count("objects_made", vm::Registry::get().made);
    vm::Registry::get().made = 0;
    vm::expect(vm::Registry::get().live.empty(), P, "objects are left over");
    vm::st().nontrivial = cap > 1;
}

// ------------------------------------------------------------------ V02
template <typename T>
struct InputIt {  // single pass
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    const T* p;
    const T& operator*() const { return *p; }
    InputIt& operator++() {
        ++p;
        return *this;
    }
    InputIt operator++(int) {
        InputIt t = *this;
        ++p;
        return t;
    }
    bool operator==(const InputIt& o) const { return p == o.p; }
    bool operator!=(const InputIt& o) const { return p != o.p; }
};

template <typename SV>
struct SObj {
    vm::Guarded mem{sizeof(SV), alignof(SV)};
    SV* v = nullptr;
    std::vector<u64> model;
    template <typename... A>
    explicit SObj(A&&... a) {
        v = new (mem.data()) SV(std::forward<A>(a)...);
    }
    ~SObj() { v->~SV(); }
};

template <typename T, std::size_t N>
void static_case(Rng& rng) {
    using SV = vecmem::static_vector<T, N>;
    const char* P = "V02";
    using Obj = SObj<SV>;
    std::vector<std::unique_ptr<Obj>> objs;
    auto total = [&] {
        std::size_t n = 0;
        for (auto& o : objs) n += o->model.size();
        return n;
    };
    auto check = [&](Obj& o) {
        SV& v = *o.v;
        vm::expect(v.size() <= N, P, "size beyond the capacity");
        compare(v, o.model, rng, P);
        vm::expect(v.capacity() == N && v.max_size() == N, P, "capacity is wrong");
        const char* d = reinterpret_cast<const char*>(v.data());
        const char* b = reinterpret_cast<const char*>(o.v);
        if (N) {
            vm::expect(d >= b && d + N * sizeof(T) <= b + sizeof(SV), P, "the elements are not inside the object");
            vm::expect(reinterpret_cast<std::uintptr_t>(d) % alignof(T) == 0, P, "the elements are misaligned: %p for an alignment of %zu", static_cast<const void*>(d), alignof(T));
        }
        vm::expect(o.mem.intact(), P, "memory outside the vector was changed");
        if constexpr (std::is_same_v<T, vm::Tracked>)
            vm::expect(vm::Registry::get().live.size() == total(), P, "%zu objects alive, %zu visible", vm::Registry::get().live.size(), total());
    };
    vm::trace("static_vector<%s,%zu>", vm::tname<T>(), N);
    auto source = [&](std::size_t k, std::vector<u64>& ids) {
        ids.clear();
        for (std::size_t i = 0; i < k; ++i) ids.push_back(fresh(rng));
    };
    const int steps = N > 1000 ? int(rng.range(4, 12)) : int(rng.range(20, 120));
    // how many of at most m elements; in large vectors mostly close to all or to none
    auto some = [&](std::size_t m) {
        if (N > 1000 && rng.chance(700)) return m - rng.below(std::min<std::size_t>(m, 400) + 1);
        return rng.below((N > 1000 ? m : std::min<std::size_t>(m, 5)) + 1);
    };
    auto any = [&] { return N > 1000 ? some(N) : rng.below(N + 1); };
    for (int s = 0; s < steps; ++s) {
        vm::count("operations");
        if (objs.empty() || (objs.size() < 4 && rng.chance(80))) {
            std::vector<u64> ids;
            u64 how = rng.below(objs.empty() ? 6 : 8);
            std::size_t k = any();
            source(k, ids);
            u64 x = fresh(rng);
            vm::trace("new object (%llu) of %zu", (unsigned long long)how, k);
            switch (how) {
                case 0: objs.emplace_back(new Obj()); break;
                case 1:
                    objs.emplace_back(new Obj(k));
                    objs.back()->model.assign(k, 0);
                    break;
                case 2: {
                    std::unique_ptr<Obj> o;
                    {
                        T val = make<T>(x);
                        o.reset(new Obj(k, val));
                    }
                    o->model.assign(k, x);
                    objs.push_back(std::move(o));
                    break;
                }
                case 3:
                case 4:
                case 5: {
                    std::unique_ptr<Obj> o;
                    {
                        std::vector<T> src;
                        src.reserve(k);
                        for (u64 y : ids) src.push_back(make<T>(y));
                        if (how == 3) o.reset(new Obj(src.begin(), src.end()));
                        else if (how == 4) {
                            std::list<T> l(src.begin(), src.end());
                            o.reset(new Obj(l.begin(), l.end()));
                        } else
                            o.reset(new Obj(InputIt<T>{src.data()}, InputIt<T>{src.data() + k}));
                    }
                    o->model = ids;
                    objs.push_back(std::move(o));
                    break;
                }
                default: {
                    Obj& from = *rng.pick(objs);
                    std::unique_ptr<Obj> o(how == 6 ? new Obj(static_cast<const SV&>(*from.v)) : new Obj(*from.v));
                    o->model = from.model;
                    objs.push_back(std::move(o));
                    check(from);
                }
            }
            vm::count("constructions");
            check(*objs.back());
            continue;
        }
        std::size_t oi = rng.below(objs.size());
        Obj& o = *objs[oi];
        SV& v = *o.v;
        auto& m = o.model;
        const std::size_t n = m.size(), room = N - n;
        const u64 x = fresh(rng);
        const std::size_t at = rng.chance(200) ? 0 : rng.chance(200) ? n : rng.below(n + 1);
        auto M = [&](std::size_t i) { return m.begin() + std::ptrdiff_t(i); };
        auto ret = [&](typename SV::iterator it, std::size_t want, const char* what) {
            vm::expect(it == v.begin() + want, P, "%s returned position %ld instead of %zu", what, long(it - v.begin()), want);
        };
        switch (rng.below(22)) {
            case 0:
            case 1:
                if (room) {
                    vm::trace("%zu push_back %llu", oi, (unsigned long long)x);
                    if (n && rng.chance(200)) {
                        std::size_t j = rng.below(n);
                        v.push_back(v[j]);
                        m.push_back(u64(m[j]));
                    } else {
                        v.push_back(make<T>(x));
                        m.push_back(x);
                    }
                }
                break;
            case 2:
                if (room) {
                    vm::trace("%zu emplace_back %llu", oi, (unsigned long long)x);
                    T* e;
                    if constexpr (std::is_same_v<T, vm::Tracked>) e = rng.chance(500) ? &v.emplace_back(x, u64(0)) : &v.emplace_back(x);
                    else e = &v.emplace_back(make<T>(x));
                    m.push_back(x);
                    vm::expect(e == v.data() + n, P, "emplace_back returned a reference to element %ld instead of %zu", long(e - v.data()), n);
                }
                break;
            case 3:
            case 4:
            case 5:
                if (room) {
                    if (n && rng.chance(350)) {  // the vector's own element: allowed for a standard vector
                        std::size_t j = rng.below(n);
                        vm::trace("%zu insert at %zu of [%zu]", oi, at, j);
                        auto it = v.insert(v.cbegin() + at, v[j]);
                        u64 y = m[j];
                        m.insert(M(at), y);
                        ret(it, at, "insert");
                    } else {
                        vm::trace("%zu insert at %zu: %llu", oi, at, (unsigned long long)x);
                        T val = make<T>(x);
                        auto it = v.insert(v.cbegin() + at, val);
                        m.insert(M(at), x);
                        ret(it, at, "insert");
                    }
                }
                break;
            case 6:
            case 7: {
                std::size_t k = some(room);
                vm::trace("%zu insert at %zu: %zu times %llu", oi, at, k, (unsigned long long)x);
                T val = make<T>(x);
                auto it = v.insert(v.cbegin() + at, typename SV::size_type(k), val);
                m.insert(M(at), k, x);
                ret(it, at, "insert");
                break;
            }
            case 8:
            case 9: {
                std::size_t k = some(room);
                if (u64(k) * (n - at) > 3000000) k = std::min<std::size_t>(k, 5);  // single passes may move the rest for every element
                std::vector<u64> ids;
                source(k, ids);
                vm::trace("%zu insert at %zu: range of %zu", oi, at, k);
                {
                    std::vector<T> src;
                    for (u64 y : ids) src.push_back(make<T>(y));
                    typename SV::iterator it;
                    u64 how = rng.below(3);
                    if (how == 0) it = v.insert(v.cbegin() + at, src.begin(), src.end());
                    else if (how == 1) {
                        std::list<T> l(src.begin(), src.end());
                        it = v.insert(v.cbegin() + at, l.begin(), l.end());
                    } else
                        it = v.insert(v.cbegin() + at, InputIt<T>{src.data()}, InputIt<T>{src.data() + k});
                    ret(it, at, "insert");
                }
                m.insert(M(at), ids.begin(), ids.end());
                break;
            }
            case 10:
            case 11:
                if (room) {
                    vm::trace("%zu emplace at %zu: %llu", oi, at, (unsigned long long)x);
                    typename SV::iterator it;
                    u64 y = x;
                    if (n && rng.chance(300)) {
                        std::size_t j = rng.below(n);
                        y = m[j];
                        it = v.emplace(v.cbegin() + at, v[j]);
                    } else if constexpr (std::is_same_v<T, vm::Tracked>)
                        it = v.emplace(v.cbegin() + at, x, u64(0));
                    else
                        it = v.emplace(v.cbegin() + at, make<T>(x));
                    m.insert(M(at), y);
                    ret(it, at, "emplace");
                }
                break;
            case 12:
            case 13:
                if (n) {
                    std::size_t j = rng.below(n);
                    vm::trace("%zu erase %zu", oi, j);
                    auto it = v.erase(v.cbegin() + j);
                    m.erase(M(j));
                    ret(it, j, "erase");
                }
                break;
            case 14: {
                std::size_t a = N > 1000 && rng.chance(500) ? rng.below(std::min<std::size_t>(n, 300) + 1) : rng.below(n + 1), b = N > 1000 && rng.chance(500) ? n - rng.below(std::min<std::size_t>(n - a, 300) + 1) : rng.range(a, n);
                vm::trace("%zu erase %zu..%zu", oi, a, b);
                auto it = v.erase(v.cbegin() + a, v.cbegin() + b);
                m.erase(M(a), M(b));
                ret(it, a, "erase");
                break;
            }
            case 15:
                if (n) {
                    vm::trace("%zu pop_back", oi);
                    v.pop_back();
                    m.pop_back();
                }
                break;
            case 16:
                if (rng.chance(250)) {
                    vm::trace("%zu clear", oi);
                    v.clear();
                    m.clear();
                } else {
                    v.reserve(any());
                }
                break;
            case 17: {
                std::size_t k = rng.chance(150) ? n : any();
                vm::trace("%zu resize %zu", oi, k);
                if (rng.chance(400)) {
                    v.resize(k);
                    m.resize(k, 0);
                } else if (n && rng.chance(300)) {
                    std::size_t j = rng.below(n);
                    u64 y = m[j];
                    v.resize(k, v[j]);
                    m.resize(k, y);
                } else {
                    v.resize(k, make<T>(x));
                    m.resize(k, x);
                }
                break;
            }
            case 18: {
                std::size_t k = any();
                vm::trace("%zu assign %zu", oi, k);
                if (rng.chance(400)) {
                    v.assign(k, make<T>(x));
                    m.assign(k, x);
                } else {
                    std::vector<u64> ids;
                    source(k, ids);
                    std::vector<T> src;
                    for (u64 y : ids) src.push_back(make<T>(y));
                    if (rng.chance(500)) v.assign(src.begin(), src.end());
                    else v.assign(InputIt<T>{src.data()}, InputIt<T>{src.data() + k});
                    m = ids;
                }
                break;
            }
            case 19:
                if (n) {
                    std::size_t j = rng.below(n);
                    vm::trace("%zu write [%zu] %llu", oi, j, (unsigned long long)x);
                    switch (rng.below(4)) {
                        case 0: v[j] = make<T>(x); break;
                        case 1: v.at(j) = make<T>(x); break;
                        case 2: v.begin()[std::ptrdiff_t(j)] = make<T>(x); break;
                        default: v.rbegin()[std::ptrdiff_t(n - 1 - j)] = make<T>(x);
                    }
                    m[j] = x;
                }
                break;
            case 20: {
                std::size_t oj = rng.below(objs.size());
                vm::trace("%zu = %zu", oi, oj);
                *o.v = static_cast<const SV&>(*objs[oj]->v);
                o.model = std::vector<u64>(objs[oj]->model);
                vm::count("copy_assignments");
                check(*objs[oj]);
                break;
            }
            default:
                vm::trace("%zu dropped", oi);
                objs.erase(objs.begin() + std::ptrdiff_t(oi));
                if constexpr (std::is_same_v<T, vm::Tracked>)
                    vm::expect(vm::Registry::get().live.size() == total(), P, "destruction left %zu objects alive, %zu visible", vm::Registry::get().live.size(), total());
                continue;
        }
        check(o);
    }
    objs.clear();
    vm::count("objects_made", vm::Registry::get().made);
    vm::Registry::get().made = 0;
    vm::expect(vm::Registry::get().live.empty(), P, "objects are left over");
    vm::st().nontrivial = N > 0;
}

template <typename T>
void static_any(Rng& rng) {
    if constexpr (std::is_same_v<T, vm::Tracked> || std::is_same_v<T, std::int32_t>) {
        switch (rng.below(6)) {
            case 0: static_case<T, 0>(rng); break;
            case 1: static_case<T, 1>(rng); break;
            case 2: static_case<T, 7>(rng); break;
            case 3: static_case<T, 2>(rng); break;
            default:
                // more than 16 bits of elements with a lifetime
                if (std::is_same_v<T, vm::Tracked> && rng.chance(3)) {
                    if constexpr (std::is_same_v<T, vm::Tracked>) static_case<T, 66000>(rng);
                    vm::count("large_tracked");
                } else
                    static_case<T, 25>(rng);
        }
    } else if (std::is_same_v<T, std::uint8_t> && rng.chance(15)) {
        // more than 16 bits of elements
        if constexpr (std::is_same_v<T, std::uint8_t>) static_case<T, 66000>(rng);
        vm::count("large");
    } else if (std::is_same_v<T, double> && rng.chance(60)) {
        if constexpr (std::is_same_v<T, double>) static_case<T, 300>(rng);
    } else
        rng.chance(300) ? static_case<T, 3>(rng) : static_case<T, 12>(rng);
}
}  // namespace

#ifndef NO_V01
VM_CASES(V01, 6, vm::Cases<>, [](auto k, vm::Rng& rng) {
    if constexpr (k == 0) device_case<std::int32_t>(rng);
    else if constexpr (k == 1) device_case<std::uint8_t>(rng);
    else if constexpr (k == 2) device_case<double>(rng);
    else if constexpr (k == 3) device_case<vm::Wide>(rng);
    else if constexpr (k == 4) device_case<std::string>(rng);
    else device_case<vm::Tracked>(rng);
})
VM_PROP(V01) {
    vm::Cases<>::run("V01", std::min<u64>(rng.below(7), 5), rng);
}
#endif

#ifndef NO_V02
VM_CASES(V02, 7, vm::Cases<>, [](auto k, vm::Rng& rng) {
    if constexpr (k == 0) static_any<std::int32_t>(rng);
    else if constexpr (k == 1) static_any<std::uint8_t>(rng);
    else if constexpr (k == 2) static_any<double>(rng);
    else if constexpr (k == 3) static_any<vm::Wide>(rng);
    else if constexpr (k == 4) static_any<std::string>(rng);
    else if constexpr (k == 5) static_any<vm::Odd3>(rng);
    else static_any<vm::Tracked>(rng);
})
VM_PROP(V02) {
    vm::Cases<>::run("V02", std::min<u64>(rng.below(8), 6), rng);
}
#endif

VM_MAIN
