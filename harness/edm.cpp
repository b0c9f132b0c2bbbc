// E01 host structure-of-arrays containers, E02 device containers and element
// proxies: random histories compared with a plain model through every access
// path.
#include "elems.hpp"
#include "mr.hpp"
#include "soa.hpp"

#include <vecmem/edm/container.hpp>
#include <vecmem/utils/copy.hpp>

#include <any>
#include <memory_resource>
#include <optional>

using vm::Rng;
using vm::u64;
using vm::Upstream;

namespace {
using namespace vecmem::edm::type;
using soa::Soa;
using soa::Values;
using BT = vecmem::data::buffer_type;

// Reaches variable I of element k of a host or device container in one of
// several ways; f gets the scalar, the element or the row.
enum Path { VAR, CONST_VAR, ELEM, CONST_ELEM, AT, CONST_AT, IFACE, CONST_IFACE, ELEM_IFACE, KEPT, COPIED, KEPT_CONST, CONST_KEPT, N_PATHS };
const char* const path_name[] = {"variable", "const variable", "element", "const element", "at", "const at", "interface", "const interface", "element interface", "kept proxy", "copied proxy",
                                 "kept proxy to const", "const kept proxy"};

template <typename S, std::size_t I>
struct Reach {
    using V = typename S::template V<I>;
    // I-th variable as a whole -> element k
    template <typename VARIABLE, typename F>
    static void in(VARIABLE&& v, std::size_t k, bool at, F&& f) {
        if constexpr (V::kind == soa::SCALAR) f(v);
        else {
            using size_type = typename std::decay_t<VARIABLE>::size_type;
            if (at) f(v.at(size_type(k)));
            else f(v[size_type(k)]);
        }
    }
    template <typename C, typename F>
    static void go(C& c, int path, std::size_t k, F&& f) {
        using size_type = typename C::size_type;
        const C& cc = c;
        size_type i = size_type(k);
        switch (path) {
            case VAR: in(c.template get<I>(), k, false, f); return;
            case CONST_VAR: in(cc.template get<I>(), k, true, f); return;
            case ELEM: f(c[i].template get<I>()); return;
            case CONST_ELEM: f(cc[i].template get<I>()); return;
            case AT: f(c.at(i).template get<I>()); return;
            case CONST_AT: f(cc.at(i).template get<I>()); return;
            case IFACE: in(c.template var<I>(), k, true, f); return;
            case CONST_IFACE: in(cc.template var<I>(), k, false, f); return;
            case ELEM_IFACE: f(c[i].template var<I>()); return;
            case KEPT: {
                auto p = c[i];
                auto q = c.at(i);
                f(p.template var<I>());
                (void)q;
                return;
            }
            case COPIED: {
                auto p = c.at(i);
                auto q = p;
                f(q.template get<I>());
                return;
            }
            case CONST_KEPT: {
                const auto p = c[i];
                f(p.template var<I>());
                return;
            }
            default: {
                auto p = cc[i];
                const auto q = p;
                f(q.template get<I>());
                return;
            }
        }
    }
    static bool writes(int path) { return path == VAR || path == ELEM || path == AT || path == IFACE || path == ELEM_IFACE || path == KEPT || path == COPIED; }
    static bool needs_element(int path) { return path != VAR && path != CONST_VAR && path != IFACE && path != CONST_IFACE; }
};

template <typename T>
bool row_same(const T& row, const std::vector<u64>& want) {
    if (row.size() != want.size()) return false;
    for (std::size_t q = 0; q < want.size(); ++q)
        if (!vm::same(row[typename T::size_type(q)], want[q]) || !vm::same(row.at(typename T::size_type(q)), want[q])) return false;
    std::size_t q = 0;
    for (auto& x : row)
        if (q >= want.size() || !vm::same(x, want[q++])) return false;
    return q == want.size();
}

// Compares everything, each variable along its own randomly chosen path.
template <typename S, typename C>
void compare(C& c, const Values& v, Rng& rng, const char* tag, const char* who) {
    S::each([&](auto I) {
        constexpr auto kind = S::template V<I>::kind;
        using R = Reach<S, I>;
        int path = int(rng.below(N_PATHS));
        if constexpr (kind == soa::SCALAR) {
            bool any = false;
            if constexpr (S::has_vector) any = c.size() > 0;
            if (R::needs_element(path) && !any) path = VAR;
            std::size_t k = 0;
            if constexpr (S::has_vector)
                if (any) k = rng.below(c.size());
            auto f = [&](const auto& x) { vm::expect(vm::same(x, v[I][0][0]), tag, "%s: scalar variable %zu has another value (%s)", who, std::size_t(I), path_name[path]); };
            if constexpr (S::has_vector) R::go(c, path, k, f);
            else {
                f(c.template get<I>());
                f(static_cast<const C&>(c).template var<I>());
            }
        } else if constexpr (kind == soa::VECTOR) {
            auto n = c.template get<I>().size();
            vm::expect(n == v[I][0].size(), tag, "%s: variable %zu has %zu elements, expected %zu", who, std::size_t(I), std::size_t(n), v[I][0].size());
            if (n != v[I][0].size()) return;
            for (std::size_t k = 0; k < n; ++k)
                R::go(c, path, k, [&](const auto& x) {
                    vm::expect(vm::same(x, v[I][0][k]), tag, "%s: variable %zu element %zu of %zu has another value (%s)", who, std::size_t(I), k, std::size_t(n), path_name[path]);
                });
        } else {
            auto n = c.template get<I>().size();
            vm::expect(n == v[I].size(), tag, "%s: variable %zu has %zu rows, expected %zu", who, std::size_t(I), std::size_t(n), v[I].size());
            if (n != v[I].size()) return;
            for (std::size_t k = 0; k < n; ++k)
                R::go(c, path, k, [&](const auto& row) {
                    vm::expect(row_same(row, v[I][k]), tag, "%s: variable %zu row %zu of %zu differs (%s; size %zu, expected %zu)", who, std::size_t(I), k, std::size_t(n), path_name[path],
                               std::size_t(row.size()), v[I][k].size());
                });
        }
        vm::count("comparisons");
    });
}

// One write through one path; the model follows.
template <typename S, bool HOST, typename C>
void write(C& c, Values& v, std::size_t n, Rng& rng) {
    std::size_t var = rng.below(S::N);
    S::each([&](auto I) {
        if (I != var) return;
        constexpr auto kind = S::template V<I>::kind;
        using T = typename S::template V<I>::type;
        using R = Reach<S, I>;
        int path = int(rng.below(N_PATHS));
        if (!R::writes(path)) path = ELEM;
        if (n == 0) {
            if (kind != soa::SCALAR) return;
            path = VAR;
        }
        std::size_t k = rng.below(n);
        u64 x = rng.below(100000);
        vm::trace("write variable %zu element %zu (%s)", std::size_t(I), k, path_name[path]);
        vm::count("writes");
        if constexpr (kind == soa::SCALAR) {
            auto f = [&](auto& y) { y = vm::make<T>(x); };
            if constexpr (S::has_vector) R::go(c, path, k, [&](auto&& y) {
                    if constexpr (!std::is_const_v<std::remove_reference_t<decltype(y)>>) f(y);
                });
            else f(c.template get<I>());
            v[I][0][0] = x;
        } else if constexpr (kind == soa::VECTOR) {
            R::go(c, path, k, [&](auto&& y) {
                if constexpr (!std::is_const_v<std::remove_reference_t<decltype(y)>>) y = vm::make<T>(x);
            });
            v[I][0][k] = x;
        } else {
            auto& row = v[I][k];
            int what = int(rng.below(4));
                        R::go(c, path, k, [&](auto&& y) {
                using Y = std::remove_reference_t<decltype(y)>;
                if constexpr (!std::is_const_v<Y> && !std::is_const_v<typename Y::value_type>) {
                    using ST = typename Y::size_type;
                    if constexpr (HOST) {
                        if (what == 0) {
                            y.push_back(vm::make<T>(x));
                            row.push_back(x);
                            return;
                        }
                        if (what == 1) {
                            std::size_t m = rng.below(6);
                            y.resize(m);
                            row.resize(m, 0);
                            return;
                        }
                    }
                    if (!row.empty()) {
                        std::size_t q = rng.below(row.size());
                        y[ST(q)] = vm::make<T>(x);
                        row[q] = x;
                    }
                }
            });
        }
    });
}

template <typename E, typename F>
bool throws(F&& f) {
    try {
        f();
    } catch (const E&) {
        return true;
    } catch (...) {
        return false;
    }
    return false;
}

// ---- E01
template <typename S>
class HostHistory {
    using host = typename S::host;
    Rng& rng;
    Upstream up, aside, def;
    struct C {
        std::optional<host> h;
        Values v;
        bool own = true;  // made with our resource, never assigned
    };
    std::vector<C> cs;
    bool faults = false, pure = true;
    bool large = false;  // more elements than 16 bits count

    static std::size_t len(const Values& v, std::size_t i) { return S::kinds()[i] == soa::VECTOR ? v[i][0].size() : v[i].size(); }
    static bool consistent(const Values& v, std::size_t& n) {
        bool known = false, ok = true;
        for (std::size_t i = 0; i < S::N; ++i) {
            if (S::kinds()[i] == soa::SCALAR) continue;
            if (known && len(v, i) != n) ok = false;
            n = len(v, i);
            known = true;
        }
        return ok && known;
    }
    static Values empty() {
        Values v(S::N);
        for (std::size_t i = 0; i < S::N; ++i)
            if (S::kinds()[i] != soa::JAGGED) v[i].resize(1);
        for (std::size_t i = 0; i < S::N; ++i)
            if (S::kinds()[i] == soa::SCALAR) v[i][0] = {0};
        return v;
    }
    void check(C& c, const char* when) {
        std::size_t n = 0;
        bool ok = consistent(c.v, n);
        if constexpr (S::has_vector) {
            const host& h = *c.h;
            if (!ok) {
                if (rng.chance(150)) {
                    vm::count("inconsistent_sizes");
                    int how = int(rng.below(4));
                    vm::expect(how != 0 || throws<std::length_error>([&] { (void)h.size(); }), "E01", "%s: variables of different sizes are not reported by size()", when);
                    vm::expect(how != 1 || throws<std::length_error>([&] { (void)h.at(0); }), "E01", "%s: variables of different sizes are not reported by at()", when);
                    vm::expect(how != 2 || throws<std::length_error>([&] { (void)vecmem::get_data(*c.h, &aside); }), "E01", "%s: variables of different sizes are not reported by get_data()", when);
                    vm::expect(how != 3 || throws<std::length_error>([&] { (void)vecmem::get_data(h, &aside); }), "E01", "%s: variables of different sizes are not reported by get_data()", when);
                }
                // each variable is still what it was
                vm::expect(S::host_differs(h, c.v).empty(), "E01", "%s: %s", when, S::host_differs(h, c.v).c_str());
                return;
            }
            std::size_t s = h.size();
            vm::expect(s == n, "E01", "%s: size() is %zu, expected %zu", when, s, n);
            if (rng.chance(50)) {
                std::size_t k = rng.pick({n, n, n + 1, n + 7, ~std::size_t(0), std::size_t(1) << 32});
                bool con = rng.chance(500);
                vm::expect(con ? throws<std::out_of_range>([&] { (void)h.at(k); }) : throws<std::out_of_range>([&] { (void)c.h->at(k); }), "E01", "%s: at(%zu) of %zu elements is not reported", when, k,
                           n);
                vm::count("out_of_range");
            }
        }
        compare<S>(*c.h, c.v, rng, "E01", when);
    }
    void resize_model(Values& v, std::size_t n) {
        for (std::size_t i = 0; i < S::N; ++i) {
            if (S::kinds()[i] == soa::VECTOR) v[i][0].resize(n, 0);
            else if (S::kinds()[i] == soa::JAGGED) v[i].resize(n);
        }
    }
    // Each variable has its elements as before the failed call, possibly cut or extended to n.
    void after_failure(C& c, std::size_t n) {
        vm::count("failed_resizes");
        S::each([&](auto I) {
            constexpr auto kind = S::template V<I>::kind;
            if constexpr (kind != soa::SCALAR) {
                std::size_t now = c.h->template get<I>().size(), was = len(c.v, I);
                vm::expect(now == was || now == n, "E01", "after a failed resize variable %zu has %zu elements (%zu before, %zu asked for)", std::size_t(I), now, was, n);
                if constexpr (kind == soa::VECTOR) c.v[I][0].resize(now, 0);
                else c.v[I].resize(now);
            }
        });
        vm::expect(S::host_differs(*c.h, c.v).empty(), "E01", "after a failed resize %s", S::host_differs(*c.h, c.v).c_str());
    }
    void step() {
        C& c = cs[rng.below(cs.size())];
        std::size_t n = 0;
        bool ok = consistent(c.v, n);
        switch (rng.below(12)) {
            case 0:
            case 1:
                if constexpr (S::has_vector) {
                    std::size_t m = large && rng.chance(600) ? rng.range(65500, 66000) : rng.chance(200) ? 0 : rng.chance(300) ? n : rng.below(12);
                    vm::trace("resize %zu", m);
                    vm::count("resizes");
                    try {
                        c.h->resize(m);
                        resize_model(c.v, m);
                    } catch (const std::bad_alloc&) {
                        after_failure(c, m);
                        bool f = std::exchange(faults, false);
                        c.h->resize(m);
                        faults = f;
                        resize_model(c.v, m);
                    }
                }
                break;
            case 2:
                if constexpr (S::has_vector) {
                    std::size_t m = large && rng.chance(500) ? rng.range(65500, 66000) : rng.below(20);
                    vm::trace("reserve %zu", m);
                    vm::count("reserves");
                    try {
                        c.h->reserve(m);
                        u64 before = up.calls + def.calls;
                        S::each([&](auto I) {
                            if constexpr (S::template V<I>::kind != soa::SCALAR)
                                vm::expect(c.h->template get<I>().capacity() >= m, "E01", "after reserve(%zu) variable %zu has capacity %zu only", m, std::size_t(I), c.h->template get<I>().capacity());
                        });
                        if (ok && n <= m && rng.chance(500)) {
                            const void* at[S::N] = {};
                            S::each([&](auto I) {
                                if constexpr (S::template V<I>::kind != soa::SCALAR) at[I] = c.h->template get<I>().data();
                            });
                            std::size_t k = n + rng.below(m - n + 1);
                            c.h->resize(k);
                            resize_model(c.v, k);
                            S::each([&](auto I) {
                                if constexpr (S::template V<I>::kind != soa::SCALAR)
                                    vm::expect(at[I] == c.h->template get<I>().data(), "E01", "resizing within what was reserved moved variable %zu", std::size_t(I));
                            });
                            if (!S::has_jagged)
                                vm::expect(before == up.calls + def.calls, "E01", "resizing within what was reserved asked for memory");
                        }
                    } catch (const std::bad_alloc&) {
                        vm::count("failed_reserves");
                    }
                }
                break;
            case 3: {
                // one variable alone
                std::size_t var = rng.below(S::N);
                S::each([&](auto I) {
                    if (I != var) return;
                    using T = typename S::template V<I>::type;
                    try {
                        if constexpr (S::template V<I>::kind == soa::VECTOR) {
                            u64 x = rng.below(1000);
                            vm::trace("push_back to variable %zu", std::size_t(I));
                            c.h->template get<I>().push_back(vm::make<T>(x));
                            c.v[I][0].push_back(x);
                        } else if constexpr (S::template V<I>::kind == soa::JAGGED) {
                            vm::trace("push_back a row to variable %zu", std::size_t(I));
                            c.h->template get<I>().emplace_back();
                            c.v[I].emplace_back();
                        }
                    } catch (const std::bad_alloc&) {
                    }
                });
                break;
            }
            case 4: {
                // new contents for all
                std::size_t m = large ? rng.range(65500, 66000) : rng.below(8);
                vm::trace("new contents of size %zu", m);
                std::vector<unsigned> inner;
                for (std::size_t k = 0; k < m; ++k) inner.push_back(unsigned(rng.below(5)));
                Values v = S::values(rng, unsigned(m), inner, true);
                bool f = std::exchange(faults, false);
                S::to_host(*c.h, v);
                faults = f;
                c.v = v;
                break;
            }
            case 5:
                if (!pure && cs.size() < 4) {
                    C d;
                    int how = int(rng.below(2));
                    vm::trace("copy or move construct");
                    bool f = std::exchange(faults, false);
                    if (how == 0) d.h.emplace(static_cast<const host&>(*c.h));
                    else {
                        d.h.emplace(up);
                        *d.h = static_cast<const host&>(*c.h);
                    }
                    faults = f;
                    d.v = c.v;
                    cs.push_back(std::move(d));
                    vm::count("copies");
                }
                break;
            case 6:
                if (cs.size() < 4) {
                    C d;
                    vm::trace("new container");
                    try {
                        d.h.emplace(up);
                    } catch (const std::bad_alloc&) {
                        break;
                    }
                    vm::expect(&d.h->resource() == &up, "E01", "resource() is not the given resource");
                    d.v = empty();
                    cs.push_back(std::move(d));
                }
                break;
            case 7:
                if (cs.size() > 1) {
                    std::size_t i = rng.below(cs.size());
                    vm::trace("drop container %zu", i);
                    // (not by moving containers around)
                    std::vector<C> rest;
                    for (std::size_t k = 0; k < cs.size(); ++k)
                        if (k != i) rest.push_back(std::move(cs[k]));
                    cs = std::move(rest);
                }
                return;
            default:
                if (ok || !S::has_vector) {
                    bool f = std::exchange(faults, false);
                    write<S, true>(*c.h, c.v, n, rng);
                    faults = f;
                }
                break;
        }
        for (auto& d : cs) check(d, "after a step");
        if (pure) {
            vm::expect(def.calls == 0, "E01", "memory was asked from the default resource instead of the given one");
            S::each([&](auto I) {
                for (auto& d : cs) {
                    if constexpr (S::template V<I>::kind == soa::SCALAR) {
                        auto* p = reinterpret_cast<const char*>(&d.h->template get<I>());
                        vm::expect(up.holds(p, sizeof(typename S::template V<I>::type)), "E01", "scalar variable %zu does not live in the given resource's memory", std::size_t(I));
                    } else if (auto& x = d.h->template get<I>(); x.size() > 0)
                        vm::expect(up.holds(reinterpret_cast<const char*>(x.data()), x.size() * sizeof(x[0])), "E01", "variable %zu does not live in the given resource's memory", std::size_t(I));
                }
            });
        }
    }

public:
    explicit HostHistory(Rng& r) : rng(r), up(r.next(), Upstream::MALLOC, "given"), aside(r.next(), Upstream::MALLOC, "aside"), def(r.next(), Upstream::MALLOC, "default") {
        for (auto* u : {&up, &aside, &def}) u->keep_events = false;
    }
    void run() {
        pure = rng.chance(600);
        unsigned rate = rng.chance(400) ? 150 : 0;
        Rng fr(rng.next());
        up.fail_when = [this, rate, fr](std::size_t, std::size_t) mutable { return faults && fr.chance(rate); };
        auto* old = std::pmr::set_default_resource(&def);
        struct Back {
            std::pmr::memory_resource* o;
            ~Back() { std::pmr::set_default_resource(o); }
        } back{old};
        C c;
        c.h.emplace(up);
        c.v = empty();
        cs.push_back(std::move(c));
        faults = true;
        large = S::has_vector && rng.chance(3);
        if (large) vm::count("large_cases");
        int steps = int(large ? rng.range(4, 10) : rng.range(5, 60));
        for (int s = 0; s < steps; ++s) step();
        faults = false;
        cs.clear();
        up.expect_all_returned("E01");
        aside.expect_all_returned("E01");
        def.expect_all_returned("E01");
        vm::st().nontrivial = steps > 10 || large;
    }
};

// ---- E02
template <typename S>
class DeviceHistory {
    using host = typename S::host;
    using view = typename S::view;
    using const_view = typename S::const_view;
    Rng& rng;
    Upstream up, aside;
    vecmem::copy cp;
    std::shared_ptr<host> h;
    std::shared_ptr<void> keep;
    view vw;
    const_view cvw;
    bool have_const = true;
    Values v;
    std::size_t n = 0, cap = 0;
    bool grow = false, rows_grow = false;
    bool large = false;  // more elements than 16 bits count
    std::vector<std::vector<std::size_t>> row_cap;
    std::vector<std::unique_ptr<typename S::device>> devs;
    std::vector<std::unique_ptr<typename S::const_device>> cdevs;
    std::vector<std::pair<const char*, std::size_t>> raw;

    void raw_set(const std::vector<unsigned>& inner) {
        v = S::values(rng, unsigned(n), inner, false);
        S::each([&](auto I) {
            using T = typename S::template V<I>::type;
            constexpr auto kind = S::template V<I>::kind;
            auto& x = vw.template get<I>();
            if constexpr (kind == soa::SCALAR) *x = vm::make<T>(v[I][0][0]);
            else if constexpr (kind == soa::VECTOR)
                for (std::size_t k = 0; k < n; ++k) x.ptr()[k] = vm::make<T>(v[I][0][k]);
            else {
                row_cap.resize(S::N);
                for (std::size_t k = 0; k < n; ++k) {
                    auto& r = x.host_ptr()[k];
                    row_cap[I].push_back(r.capacity());
                    if (r.size_ptr()) {
                        v[I][k].resize(rng.below(r.capacity() + 1));
                        *r.size_ptr() = unsigned(v[I][k].size());
                        rows_grow = true;
                    }
                    for (std::size_t q = 0; q < v[I][k].size(); ++q) r.ptr()[q] = vm::make<T>(v[I][k][q]);
                }
            }
        });
    }
    // The bytes as the view says they are.
    void raw_check(const char* when) {
        S::each([&](auto I) {
            constexpr auto kind = S::template V<I>::kind;
            auto& x = vw.template get<I>();
            if constexpr (kind == soa::SCALAR) vm::expect(vm::same(*x, v[I][0][0]), "E02", "%s: the memory of scalar variable %zu holds another value", when, std::size_t(I));
            else if constexpr (kind == soa::VECTOR) {
                for (std::size_t k = 0; k < n; ++k)
                    vm::expect(vm::same(x.ptr()[k], v[I][0][k]), "E02", "%s: the memory of variable %zu element %zu holds another value", when, std::size_t(I), k);
            } else
                for (std::size_t k = 0; k < n; ++k) {
                    auto& r = x.host_ptr()[k];
                    vm::expect(r.size() == v[I][k].size(), "E02", "%s: variable %zu row %zu has size %u in memory, expected %zu", when, std::size_t(I), k, unsigned(r.size()), v[I][k].size());
                    for (std::size_t q = 0; q < v[I][k].size(); ++q)
                        vm::expect(vm::same(r.ptr()[q], v[I][k][q]), "E02", "%s: the memory of variable %zu row %zu element %zu holds another value", when, std::size_t(I), k, q);
                }
        });
    }
    void shape_check(const char* when) {
        auto one = [&](auto& d) {
            vm::expect(d.size() == n && d.capacity() == cap, "E02", "%s: the device container has size %u capacity %u, expected %zu and %zu", when, unsigned(d.size()), unsigned(d.capacity()), n, cap);
            S::each([&](auto I) {
                constexpr auto kind = S::template V<I>::kind;
                if constexpr (kind != soa::SCALAR) {
                    auto& x = d.template get<I>();
                    vm::expect(x.size() == n && x.capacity() == cap, "E02", "%s: variable %zu has size %u capacity %u, expected %zu and %zu", when, std::size_t(I), unsigned(x.size()),
                               unsigned(x.capacity()), n, cap);
                    if constexpr (kind == soa::JAGGED)
                        for (std::size_t k = 0; k < n; ++k) {
                            vm::expect(x[unsigned(k)].capacity() == row_cap[I][k] && d[unsigned(k)].template get<I>().capacity() == row_cap[I][k], "E02",
                                       "%s: variable %zu row %zu has capacity %u, expected %zu", when, std::size_t(I), k, unsigned(x[unsigned(k)].capacity()), row_cap[I][k]);
                        }
                }
            });
        };
        if constexpr (S::has_vector) {
            for (auto& d : devs) one(*d);
            for (auto& d : cdevs) one(*d);
        }
    }
    void make() {
        large = S::has_vector && rng.chance(3);
        if (large) vm::count("large_cases");
        n = cap = large ? rng.range(65500, 66000) : rng.chance(80) ? 0 : rng.range(1, 7);
        std::vector<unsigned> inner(n);
        u64 m = rng.below(4);
        for (auto& x : inner) x = unsigned(m == 0 ? 0 : rng.below(large ? 2 : 6));
        u64 what = S::has_vector ? rng.below(6) : 0;
        if (what < 2) {
            vm::trace("host container of size %zu", n);
            h = std::make_shared<host>(up);
            v = S::values(rng, unsigned(n), inner, rng.chance(500));
            S::to_host(*h, v);
            row_cap.resize(S::N);
            for (std::size_t i = 0; i < S::N; ++i)
                if (S::kinds()[i] == soa::JAGGED)
                    for (auto& r : v[i]) row_cap[i].push_back(r.size());
            auto d = std::make_shared<typename S::data>(vecmem::get_data(*h, rng.chance(500) ? &aside : nullptr));
            auto cd = std::make_shared<typename S::const_data>(vecmem::get_data(static_cast<const host&>(*h), rng.chance(500) ? &aside : nullptr));
            if (rng.chance(300)) {
                // moved data objects describe the same
                auto d2 = std::make_shared<typename S::data>(std::move(*d));
                d = d2;
            }
            vw = vecmem::get_data(*d);
            if (rng.chance(500)) cvw = vecmem::get_data(static_cast<const typename S::data&>(*d));
            else cvw = vecmem::get_data(*cd);
            keep = std::make_shared<std::pair<std::shared_ptr<void>, std::shared_ptr<void>>>(d, cd);
            if (what == 1 && rng.chance(500)) {
                view w2(vw.capacity(), vw.size());
                S::each([&](auto I) { w2.template get<I>() = vw.template get<I>(); });
                vw = w2;
                vm::trace("(by variables)");
            }
        } else if constexpr (S::has_vector) {
            bool resizable = what >= 4;
            vm::trace("%s buffer of size %zu", resizable ? "resizable" : "fixed", n);
            BT t = resizable ? BT::resizable : BT::fixed_size;
            std::shared_ptr<typename S::buffer> b;
            if constexpr (S::has_jagged) b = std::make_shared<typename S::buffer>(inner, up, rng.chance(400) ? &aside : nullptr, t);
            else b = std::make_shared<typename S::buffer>(unsigned(n), up, t);
            cp.setup(*b)->wait();
            vw = vecmem::get_data(*b);
            if (rng.chance(500)) cvw = vecmem::get_data(static_cast<const typename S::buffer&>(*b));
            else cvw = vw;
            keep = b;
            if (resizable && !S::has_jagged) {
                grow = true;
                n = rng.below(cap + 1);
                if (vw.size().ptr() != nullptr) *reinterpret_cast<unsigned*>(vw.size().ptr()) = unsigned(n);
                // what is beyond the size is garbage
                if (vw.payload().size() > 0) std::memset(vw.payload().ptr(), 0x5c, vw.payload().size());
            }
            raw_set(inner);
        }
        if (h) vm::count("over_host");
        else vm::count("over_buffers");
        std::size_t nd = rng.range(1, 3);
        for (std::size_t i = 0; i < nd; ++i) devs.push_back(std::make_unique<typename S::device>(vw));
        cdevs.push_back(std::make_unique<typename S::const_device>(cvw));
        if (rng.chance(500)) {
            const_view c2 = vw;
            cdevs.push_back(std::make_unique<typename S::const_device>(c2));
        }
        if (rng.chance(300)) {
            auto copy = std::make_unique<typename S::device>(*devs[0]);
            devs.push_back(std::move(copy));
        }
    }
    void check(const char* when) {
        raw_check(when);
        if (h) compare<S>(*h, v, rng, "E02", "host");
        compare<S>(*vm_pick(devs), v, rng, "E02", "device");
        compare<S>(*vm_pick(cdevs), v, rng, "E02", "const device");
        shape_check(when);
        vm::count("containers_compared", 2);
    }
    template <typename X>
    auto& vm_pick(X& x) {
        return x[rng.below(x.size())];
    }
    void row_growth() {
        if constexpr (S::has_jagged) {
            std::size_t var = rng.below(S::N);
            if (n == 0) return;
            std::size_t k = rng.below(n);
            S::each([&](auto I) {
                if (I != var) return;
                if constexpr (S::template V<I>::kind == soa::JAGGED) {
                    using T = typename S::template V<I>::type;
                    auto& row = v[I][k];
                    int path = int(rng.below(N_PATHS));
                    if (!Reach<S, I>::writes(path)) path = KEPT;
                    bool shrink = !row.empty() && rng.chance(350);
                    if (!shrink && row.size() >= row_cap[I][k]) return;
                    u64 x = rng.below(10000);
                    vm::trace("%s row %zu of variable %zu (%s)", shrink ? "shrink" : "grow", k, std::size_t(I), path_name[path]);
                    Reach<S, I>::go(*vm_pick(devs), path, k, [&](auto&& y) {
                        using Y = std::remove_reference_t<decltype(y)>;
                        if constexpr (!std::is_const_v<Y> && !std::is_const_v<typename Y::value_type>) {
                            if (shrink) y.pop_back();
                            else y.push_back(vm::make<T>(x));
                        }
                    });
                    if (shrink) row.pop_back();
                    else row.push_back(x);
                    vm::count("row_changes");
                }
            });
        }
    }

public:
    explicit DeviceHistory(Rng& r) : rng(r), up(r.next(), r.chance(500) ? Upstream::MALLOC : Upstream::SLAB_UP, "up"), aside(r.next(), Upstream::MALLOC, "aside") {
        up.keep_events = aside.keep_events = false;
    }
    void run() {
        make();
        check("at the start");
        int steps = int(large ? rng.range(1, 5) : rng.range(5, 40));
        for (int s = 0; s < steps; ++s) {
            u64 m = rng.below(10);
            if (m == 0 && grow && n < cap) {
                if constexpr (S::has_vector && !S::has_jagged) {
                    vm::trace("append a default element");
                    auto k = vm_pick(devs)->push_back_default();
                    vm::expect(k == n, "E02", "push_back_default returned %u, expected %zu", unsigned(k), n);
                    ++n;
                    S::each([&](auto I) {
                        if constexpr (S::template V<I>::kind == soa::VECTOR) v[I][0].push_back(0);
                    });
                    vm::count("appends");
                }
            } else if (m <= 2 && rows_grow) row_growth();
            else if (m <= 4 && h) {
                // the sizes of rows stay, as views describe them
                host_write();
            } else
                write<S, false>(*vm_pick(devs), v, n, rng);
            check("after a step");
        }
        devs.clear();
        cdevs.clear();
        keep.reset();
        h.reset();
        vm::st().nontrivial = steps > 8 || large;
    }
    void host_write() {
        std::size_t var = rng.below(S::N);
        S::each([&](auto I) {
            if (I != var) return;
            constexpr auto kind = S::template V<I>::kind;
            using T = typename S::template V<I>::type;
            if constexpr (S::has_vector) {
                if (n == 0) return;
                std::size_t k = rng.below(n);
                int path = int(rng.below(N_PATHS));
                if (!Reach<S, I>::writes(path)) path = AT;
                u64 x = rng.below(100000);
                vm::trace("host write variable %zu element %zu (%s)", std::size_t(I), k, path_name[path]);
                vm::count("host_writes");
                Reach<S, I>::go(*h, path, k, [&](auto&& y) {
                    using Y = std::remove_reference_t<decltype(y)>;
                    if constexpr (!std::is_const_v<Y>) {
                        if constexpr (kind == soa::JAGGED) {
                            if (y.empty()) return;
                            std::size_t q = rng.below(y.size());
                            y[q] = vm::make<T>(x);
                            v[I][k][q] = x;
                        } else {
                            y = vm::make<T>(x);
                            v[I][0][kind == soa::SCALAR ? 0 : k] = x;
                        }
                    }
                });
            } else {
                u64 x = rng.below(100000);
                h->template get<I>() = vm::make<T>(x);
                v[I][0][0] = x;
            }
        });
    }
};

template <typename S>
void host_case(Rng& rng) {
    vm::trace("schema <%s>", S::name().c_str());
    HostHistory<S>(rng).run();
}
template <typename S>
void device_case(Rng& rng) {
    vm::trace("schema <%s>", S::name().c_str());
    DeviceHistory<S>(rng).run();
}
}  // namespace

#ifndef NO_E01
VM_CASES(E01, 8, vm::Cases<>, [](auto k, vm::Rng& rng) {
    using vm::Odd3;
    using vm::Tracked;
    using vm::Wide;
    if constexpr (k == 0) host_case<Soa<scalar<int>, vector<float>, scalar<char>, vector<double>>>(rng);
    else if constexpr (k == 1) host_case<Soa<vector<char>>>(rng);
    else if constexpr (k == 2) host_case<Soa<vector<std::string>, scalar<std::string>, jagged_vector<std::string>>>(rng);
    else if constexpr (k == 3) host_case<Soa<jagged_vector<short>>>(rng);
    else if constexpr (k == 4) host_case<Soa<vector<char>, jagged_vector<double>, scalar<float>, jagged_vector<Odd3>>>(rng);
    else if constexpr (k == 5) host_case<Soa<jagged_vector<int>, scalar<Wide>, vector<Tracked>>>(rng);
    else if constexpr (k == 6) host_case<Soa<scalar<double>, scalar<char>>>(rng);
    else host_case<Soa<scalar<long>, scalar<int>, jagged_vector<int>, vector<int>, jagged_vector<Wide>>>(rng);
})
VM_PROP(E01) {
    vm::Cases<>::run("E01", rng.below(8), rng);
}
#endif
#ifndef NO_E02
VM_CASES(E02, 8, vm::Cases<>, [](auto k, vm::Rng& rng) {
    using vm::Odd3;
    using vm::Wide;
    if constexpr (k == 0) device_case<Soa<scalar<int>, vector<float>, scalar<char>, vector<double>>>(rng);
    else if constexpr (k == 1) device_case<Soa<vector<char>>>(rng);
    else if constexpr (k == 2) device_case<Soa<vector<Wide>, vector<Odd3>, vector<int>>>(rng);
    else if constexpr (k == 3) device_case<Soa<jagged_vector<short>>>(rng);
    else if constexpr (k == 4) device_case<Soa<vector<char>, jagged_vector<double>, scalar<float>, jagged_vector<Odd3>>>(rng);
    else if constexpr (k == 5) device_case<Soa<jagged_vector<int>, scalar<Wide>, vector<int>>>(rng);
    else if constexpr (k == 6) device_case<Soa<scalar<double>, scalar<char>>>(rng);
    else device_case<Soa<vector<int>, jagged_vector<int>, scalar<int>, vector<int>, jagged_vector<int>>>(rng);
})
VM_PROP(E02) {
    vm::Cases<>::run("E02", rng.below(8), rng);
}
#endif

VM_MAIN
