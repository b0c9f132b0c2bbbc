// K03 structure-of-arrays copies, and the structure-of-arrays part of K04
// (device memory), K05 (deferred transfers) and K06 (set-up and fill). A case
// is a random history over several containers of one schema, compared with a
// model of every byte of every variable.
#include "dev.hpp"
#include "elems.hpp"
#include "soa.hpp"

#include <vecmem/edm/container.hpp>
#include <vecmem/utils/copy.hpp>

#include <any>
#include <optional>

using vm::Device;
using vm::Rng;
using vm::u64;
using vm::World;

namespace {
using namespace vecmem::edm::type;
using soa::Soa;
using BT = vecmem::data::buffer_type;

struct Row {
    char* p = nullptr;
    std::size_t el = 1;
    unsigned cap = 0;
    unsigned* size_ptr = nullptr;
    unsigned size = 0;
    std::vector<char> bytes, known;
    Row() = default;
    Row(const void* q, std::size_t e, unsigned c, const void* s) : p(static_cast<char*>(const_cast<void*>(q))), el(e), cap(c), size_ptr(static_cast<unsigned*>(const_cast<void*>(s))), size(s ? 0 : c), bytes(e * c), known(c) {}
    void take(const Row& o, unsigned n) {
        std::copy(o.bytes.begin(), o.bytes.begin() + long(n * el), bytes.begin());
        std::copy(o.known.begin(), o.known.begin() + n, known.begin());
    }
    void forget(unsigned from) { std::fill(known.begin() + long(from), known.end(), 0); }
};

template <typename S>
struct Place {
    std::vector<std::vector<Row>> vars;
    typename S::view view;
    unsigned n = 0;
    std::vector<unsigned> inner;
    bool dev = false, resizable = false, buffer = false;
    std::any keep, keep2;
    std::string kind;
};
template <typename X>
std::any keep(X&& x) {
    return std::make_shared<std::decay_t<X>>(std::forward<X>(x));
}
std::string show(const std::vector<unsigned>& v) {
    std::string s;
    for (auto x : v)
        if (s.size() < 200) s += " " + std::to_string(x);
    return s;
}

template <typename S>
class History {
    World& w;
    Rng& rng;
    const char* forced;
    std::deque<Place<S>> ps;
    vm::Snapshot snap;
    std::vector<unsigned> base_shape;
    struct Out {
        std::shared_ptr<typename S::host> host;
        std::function<void()> check;
    };
    std::vector<Out> outs;
    static constexpr bool buffers = S::has_vector;

    const char* tag(const char* t) const { return forced ? forced : t; }

    std::vector<unsigned> near_shape() {
        auto s = base_shape;
        u64 m = rng.below(8);
        if (m < 3) return s;
        if (m == 3 && s.size() > 1) {
            // the same elements in all, in other rows
            auto &x = s[rng.below(s.size())], &y = s[rng.below(s.size())];
            if (x > 0) --x, ++y;
            return s;
        }
        if (m == 4) {
            if (!s.empty() && rng.chance(500)) s.pop_back();
            else s.push_back(unsigned(rng.below(5)));
            return s;
        }
        if (m == 5 && s.size() > 1) {
            std::swap(s.front(), s.back());
            return s;
        }
        for (auto& x : s) x += unsigned(rng.below(3));
        return s;
    }

    void describe(Place<S>& p) {
        p.vars.resize(S::N);
        p.n = p.view.capacity();
        S::each([&](auto I) {
            using T = typename S::template V<I>::type;
            constexpr auto kind = S::template V<I>::kind;
            auto& v = p.view.template get<I>();
            auto& rows = p.vars[I];
            if constexpr (kind == soa::SCALAR) rows.emplace_back(v, sizeof(T), 1u, nullptr);
            else if constexpr (kind == soa::VECTOR) rows.emplace_back(v.ptr(), sizeof(T), v.capacity(), v.size_ptr());
            else
                for (std::size_t k = 0; k < v.size(); ++k) {
                    auto& r = v.host_ptr()[k];
                    rows.emplace_back(r.ptr(), sizeof(T), r.capacity(), r.size_ptr());
                }
        });
    }
    Place<S> place() {
        Place<S> p;
        p.dev = w.on_dev(rng) && buffers;
        auto& mr = w.main(p.dev);
        auto caps = near_shape();
        u64 k = rng.below(10);
        if (!buffers || (k < 2 && !p.dev)) {
            p.kind = "host container";
            auto h = std::make_shared<typename S::host>(mr);
            if constexpr (buffers) {
                h->resize(caps.size());
                S::each([&](auto I) {
                    if constexpr (S::template V<I>::kind == soa::JAGGED)
                        for (std::size_t r = 0; r < caps.size(); ++r) h->template get<I>()[r].resize(rng.chance(700) ? caps[r] : rng.below(caps[r] + 1));
                });
            }
            auto d = std::make_shared<typename S::data>(vecmem::get_data(*h, &w.other));
            p.view = *d;
            p.keep = h;
            p.keep2 = d;
        } else if constexpr (buffers) {
            p.buffer = true;
            p.resizable = rng.chance(500);
            p.kind = p.resizable ? "resizable buffer" : "fixed buffer";
            BT t = p.resizable ? BT::resizable : BT::fixed_size;
            std::shared_ptr<typename S::buffer> b;
            if constexpr (S::has_jagged) b = std::make_shared<typename S::buffer>(caps, mr, w.aside(p.dev, rng), t);
            else b = std::make_shared<typename S::buffer>(unsigned(caps.size()), mr, t);
            w.cp.setup(vecmem::get_data(*b))->wait();
            p.view = vecmem::get_data(*b);
            p.keep = b;
            if (rng.chance(200)) {
                // only the variables, without the whole
                p.kind += " seen by its variables";
                typename S::view v(p.view.capacity(), p.view.size());
                S::each([&](auto I) { v.template get<I>() = p.view.template get<I>(); });
                p.view = v;
            }
        }
        p.inner = caps;
        describe(p);
        vm::trace("place: %s [%s ] on the %s", p.kind.c_str(), show(caps).c_str(), p.dev ? "device" : "host");
        return p;
    }

    void write(Place<S>& p) {
        bool full = rng.chance(250), none = rng.chance(100);
        unsigned common = full ? p.n : none ? 0 : unsigned(rng.below(p.n + 1));
        std::string ss;
        S::each([&](auto I) {
            using T = typename S::template V<I>::type;
            for (auto& r : p.vars[I]) {
                for (unsigned k = 0; k < r.cap; ++k) {
                    T t = vm::make<T>(rng.below(1000000));
                    std::memcpy(&r.bytes[k * sizeof(T)], &t, sizeof(T));
                    r.known[k] = 1;
                }
                if (!r.bytes.empty()) std::memcpy(Device::see(r.p), r.bytes.data(), r.bytes.size());
                if (r.size_ptr) {
                    r.size = S::template V<I>::kind == soa::VECTOR ? common : full ? r.cap : none ? 0 : unsigned(rng.below(r.cap + 1));
                    *Device::see(r.size_ptr) = r.size;
                }
                if (ss.size() < 200) ss += " " + std::to_string(r.size);
            }
        });
        vm::trace("write sizes%s", ss.c_str());
    }

    void check(const char* t, const char* when) {
        std::vector<vm::Snapshot::Range> ex;
        for (std::size_t i = 0; i < ps.size(); ++i) {
            auto& p = ps[i];
            const char* who = p.kind.c_str();
            for (std::size_t v = 0; v < p.vars.size(); ++v)
                for (std::size_t k = 0; k < p.vars[v].size(); ++k) {
                    auto& r = p.vars[v][k];
                    if (r.size_ptr) {
                        unsigned s = *Device::see(r.size_ptr);
                        vm::expect(s == r.size, t, "%s: place %zu (%s) variable %zu row %zu has size %u, expected %u", when, i, who, v, k, s, r.size);
                        ex.push_back({r.size_ptr, sizeof(unsigned)});
                    }
                    const char* now = Device::see(r.p);
                    for (unsigned e = 0; e < r.cap; ++e)
                        if (r.known[e] && std::memcmp(now + e * r.el, &r.bytes[e * r.el], r.el) != 0) {
                            vm::expect(false, t, "%s: place %zu (%s) variable %zu row %zu of size %u has another element %u", when, i, who, v, k, r.size, e);
                            break;
                        }
                    ex.push_back({r.p, r.cap * r.el});
                }
            // what lies between the variables may be copied along
            ex.push_back({p.view.payload().ptr(), p.view.payload().capacity()});
        }
        snap.expect_same(t, ex, when);
        vm::count("comparisons");
    }
    void look() {
        for (auto& o : outs) o.check();
        outs.clear();
    }
    void sync(const char* t, const char* when) {
        w.sync();
        look();
        check(t, when);
    }
    void after(const char* t, const char* when) {
        if (w.deferred()) {
            if (rng.chance(250)) sync(t, "after waiting for all events");
        } else {
            look();
            check(t, when);
        }
    }

    // Refuse, copy as a whole, or variable by variable?
    enum Verdict { OK, REFUSE, SILENT };
    Verdict verdict(const Place<S>& a, const Place<S>& b) const {
        Verdict r = OK;
        S::each([&](auto I) {
            auto &x = a.vars[I], &y = b.vars[I];
            if constexpr (S::template V<I>::kind == soa::JAGGED) {
                if (x.size() != y.size()) {
                    r = x.empty() ? SILENT : REFUSE;  // nothing is said about no rows
                    return;
                }
                for (std::size_t k = 0; k < x.size(); ++k)
                    if (x[k].size > y[k].cap) r = REFUSE;
            } else if constexpr (S::template V<I>::kind == soa::VECTOR) {
                if (x[0].size > y[0].cap) r = REFUSE;
            }
        });
        return r;
    }
    void copy_op(std::size_t i, std::size_t j) {
        Place<S>&a = ps[i], &b = ps[j];
        const char* t = tag("K03");
        Verdict v = verdict(a, b);
        if (v == SILENT) return;
        auto lab = w.label(a.dev, b.dev, rng);
        vm::trace("copy #%zu -> #%zu, label %d", i, j, int(lab));
        bool refused = false;
        try {
            if (rng.chance(500)) w.issued(w.cp(typename S::const_view(a.view), b.view, lab));
            else w.issued(w.cp(a.view, b.view, lab));
        } catch (std::length_error&) {
            vm::trace("  -> refused");
            refused = true;
        }
        if (refused != (v == REFUSE)) {
            if (refused) vm::expect(false, t, "a copy that fits was refused");
            else vm::expect(false, t, "a copy that does not fit was not refused");
            throw std::runtime_error("model lost");
        }
        if (refused) {
            // some variables may have been copied; all else is as before
            vm::count("refused_copies");
            w.sync();
            w.sim.finish();  // what was queued before the refusal has no event
            for (auto& q : b.vars)
                for (auto& r : q) {
                    r.forget(0);
                    if (r.size_ptr) {
                        unsigned s = *Device::see(r.size_ptr);
                        vm::expect(s <= r.cap, t, "after a refused copy a row shows size %u in a capacity of %u", s, r.cap);
                        r.size = s;
                    }
                }
            look();
            check(t, "after a refused copy");
            write(b);
            return;
        }
        vm::count("soa_copies");
        bool same = a.n == b.n;
        S::each([&](auto I) {
            for (std::size_t k = 0; k < a.vars[I].size(); ++k) {
                auto &x = a.vars[I][k], &y = b.vars[I][k];
                if (x.cap != y.cap) same = false;
                y.take(x, x.size);
                y.forget(x.size);
                if (y.size_ptr) y.size = x.size;
            }
        });
        if (a.buffer && b.buffer) {
            vm::count(same ? "same_shape_copies" : "other_shape_copies");
            if (!same && a.view.payload().capacity() == b.view.payload().capacity()) vm::count("other_shape_same_bytes");
        }
        if (a.resizable && b.resizable) vm::count("resizable_to_resizable");
        if (!a.resizable && b.resizable) vm::count("fixed_to_resizable");
        if (a.resizable && !b.resizable) vm::count("resizable_to_fixed");
        after(t, "after a copy");
    }
    void host_op(std::size_t i) {
        Place<S>& a = ps[i];
        const char* t = tag("K03");
        auto lab = w.label(a.dev, false, rng);
        vm::trace("copy #%zu -> host container, label %d", i, int(lab));
        auto h = std::make_shared<typename S::host>(w.loose);
        if constexpr (buffers) {
            h->resize(rng.below(8));
            S::each([&](auto I) {
                if constexpr (S::template V<I>::kind == soa::JAGGED)
                    for (auto& r : h->template get<I>()) r.resize(rng.below(6));
            });
        }
        w.issued(w.cp(a.view, *h, lab));
        auto want = a.vars;
        outs.push_back({h, [h, want, t] {
                            S::each([&](auto I) {
                                using T = typename S::template V<I>::type;
                                auto& var = h->template get<I>();
                                auto row = [&](const T* p, std::size_t n, const Row& r, std::size_t k) {
                                    if (!vm::expect(n == r.size, t, "variable %zu row %zu of a copied container has size %zu instead of %u", std::size_t(I), k, n, r.size)) return;
                                    for (unsigned e = 0; e < r.size; ++e)
                                        if (r.known[e] && std::memcmp(p + e, &r.bytes[e * sizeof(T)], sizeof(T)) != 0)
                                            vm::expect(false, t, "variable %zu row %zu of a copied container has another element %u", std::size_t(I), k, e);
                                };
                                if constexpr (S::template V<I>::kind == soa::SCALAR) row(&var, 1, want[I][0], 0);
                                else if constexpr (S::template V<I>::kind == soa::VECTOR) row(var.data(), var.size(), want[I][0], 0);
                                else {
                                    if (!vm::expect(var.size() == want[I].size(), t, "variable %zu of a copied container has %zu rows instead of %zu", std::size_t(I), var.size(), want[I].size())) return;
                                    for (std::size_t k = 0; k < var.size(); ++k) row(var[k].data(), var[k].size(), want[I][k], k);
                                }
                            });
                        }});
        vm::count("host_containers_filled");
        after(t, "after a copy into a host container");
    }
    void setup_op(std::size_t j) {
        Place<S>& b = ps[j];
        vm::trace("setup #%zu", j);
        if (b.view.layout().ptr() == nullptr && S::has_jagged) return;  // no layout to set up: the variables alone
        w.issued(w.cp.setup(b.view));
        for (auto& q : b.vars)
            for (auto& r : q)
                if (r.size_ptr) r.size = 0;
        vm::count("setups");
        after(tag("K06"), "after a set-up");
    }
    void fill_op(std::size_t j) {
        Place<S>& b = ps[j];
        int v = rng.chance(200) ? 0 : int(rng.below(256));
        vm::trace("fill #%zu with %d", j, v);
        w.issued(w.cp.memset(b.view, v));
        for (auto& q : b.vars)
            for (auto& r : q) {
                std::fill(r.bytes.begin(), r.bytes.end(), char(v));
                std::fill(r.known.begin(), r.known.end(), 1);
            }
        vm::count("fills_done");
        after(tag("K06"), "after a fill");
    }
    void size_op(std::size_t i) {
        Place<S>& a = ps[i];
        vm::trace("size of #%zu", i);
        unsigned s = w.cp.get_size(a.view), want = a.n;
        if constexpr (!S::has_jagged)
            S::each([&](auto I) {
                if constexpr (S::template V<I>::kind == soa::VECTOR) want = a.vars[I][0].size;
            });
        vm::expect(s == want, tag("K03"), "the queried size of place %zu (%s) is %u instead of %u", i, a.kind.c_str(), s, want);
        vm::count("size_queries");
    }

public:
    History(World& ww, Rng& r, const char* f) : w(ww), rng(r), forced(f) {}
    void run(unsigned fill_weight) {
        base_shape.resize(rng.chance(60) ? 0 : rng.range(1, 6));
        u64 m = rng.below(5);
        for (auto& x : base_shape) x = unsigned(m == 0 ? 0 : m == 1 ? rng.below(2) : rng.below(6));
        std::size_t n = std::size_t(rng.range(2, 6));
        const bool large = rng.chance(4);  // more elements than 16 bits count
        if (large) {
            vm::trace("large");
            vm::count("large_cases");
            n = 2;
            if (rng.chance(500) && !base_shape.empty()) rng.pick(base_shape) = unsigned(rng.range(65500, 66000));
            else {
                base_shape.assign(rng.range(65500, 66000), unsigned(rng.below(2)));
                const std::size_t empty = rng.pick({u64(0), u64(0), rng.range(400, 1000), rng.range(65400, 65530), u64(65536)});
                for (std::size_t i = 0; i < std::min(empty, base_shape.size()); ++i) base_shape[i] = 0;
                if (empty > 60000) for (std::size_t i = empty; i < base_shape.size(); ++i) base_shape[i] = unsigned(rng.below(3));
            }
        }
        for (std::size_t i = 0; i < n; ++i) ps.push_back(place());
        for (auto& p : ps) write(p);
        snap.take(w.host);
        snap.take(w.other);
        if (w.mode == World::DEVICE) snap.take(w.dev);
        check(tag("K06"), "at the start");
        int steps = int(large ? rng.range(2, 5) : rng.range(4, w.deferred() ? 50 : 25));
        for (int s = 0; s < steps && !vm::st().tainted; ++s) {
            std::size_t i = rng.below(ps.size()), j = rng.below(ps.size());
            if (rng.below(100) < fill_weight) {
                if (rng.chance(350)) setup_op(j);
                else fill_op(j);
                continue;
            }
            switch (rng.below(10)) {
                case 0:
                case 1: host_op(i); break;
                case 2: size_op(i); break;
                case 3:
                    if (w.deferred()) sync(tag("K05"), "after waiting for all events");
                    write(ps[j]);
                    break;
                default:
                    if (i != j) copy_op(i, j);
                    break;
            }
        }
        if (!vm::st().tainted) sync(tag("K05"), "at the end");
        vm::st().nontrivial = steps > 8 || large;
    }
};

template <typename S>
void go(Rng& rng, World::Mode m, const char* forced, unsigned fills) {
    World w(m, rng);
    vm::trace("schema <%s>", S::name().c_str());
    History<S> h(w, rng, forced);
    try {
        h.run(fills);
    } catch (...) {
        w.sim.finish();
        throw;
    }
    w.sim.finish();
}
using Run = vm::Cases<World::Mode, const char*, unsigned>;
VM_CASES(any_schema, 8, Run, [](auto k, vm::Rng& rng, World::Mode m, const char* forced, unsigned fills) {
    using vm::Odd3;
    using vm::Wide;
    if constexpr (k == 0) go<Soa<scalar<int>, vector<float>, scalar<char>, vector<double>>>(rng, m, forced, fills);
    else if constexpr (k == 1) go<Soa<vector<char>>>(rng, m, forced, fills);
    else if constexpr (k == 2) go<Soa<vector<Wide>, vector<Odd3>>>(rng, m, forced, fills);
    else if constexpr (k == 3) go<Soa<jagged_vector<short>>>(rng, m, forced, fills);
    else if constexpr (k == 4) go<Soa<vector<char>, jagged_vector<double>, scalar<float>, jagged_vector<Odd3>>>(rng, m, forced, fills);
    else if constexpr (k == 5) go<Soa<jagged_vector<int>, scalar<Wide>, vector<int>>>(rng, m, forced, fills);
    else if constexpr (k == 6) go<Soa<scalar<double>, scalar<char>>>(rng, m, forced, fills);
    else go<Soa<vector<int>, jagged_vector<int>>>(rng, m, forced, fills);
})
void any_schema(Rng& rng, World::Mode m, const char* forced, unsigned fills) {
    Run::run("any_schema", rng.below(8), rng, m, forced, fills);
}
}  // namespace

VM_PROP(K03) { any_schema(rng, World::PLAIN, nullptr, 10); }
VM_PROP(K04) { any_schema(rng, World::DEVICE, nullptr, 25); }
VM_PROP(K05) {
    Rng again = rng;
    any_schema(again, World::PLAIN, nullptr, 25);
    if (vm::st().tainted) return;
    any_schema(rng, World::DEFERRED, "K05", 25);
}
VM_PROP(K06) { any_schema(rng, World::PLAIN, nullptr, 70); }

VM_MAIN
