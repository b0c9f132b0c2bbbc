// K01 vector copies, K02 jagged vector copies, K04 device memory, K05 deferred
// transfers, K06 set-up and fill, on flat and jagged vectors. A case is a
// random history over several places holding data, compared with a model of
// every byte after every operation (with deferred transfers: after waiting).
#include "dev.hpp"
#include "elems.hpp"

#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/jagged_vector_data.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/jagged_vector.hpp>
#include <vecmem/containers/vector.hpp>
#include <vecmem/utils/copy.hpp>

#include <any>
#include <optional>

using vm::Device;
using vm::Rng;
using vm::u64;
using vm::World;

namespace {
namespace data = vecmem::data;
using BT = data::buffer_type;
using type = vecmem::copy::type;

void zero_copy(void* to, const void* from, std::size_t n) {
    if (n) std::memcpy(to, from, n);
}

template <typename T>
struct Row {
    data::vector_view<T> v;
    unsigned size = 0;  // expected
    std::vector<char> bytes;
    std::vector<char> known;  // per element

    explicit Row(const data::vector_view<T>& x) : v(x), size(x.size_ptr() ? 0 : x.capacity()), bytes(x.capacity() * sizeof(T)), known(x.capacity()) {}
    bool resizable() const { return v.size_ptr() != nullptr; }
    unsigned cap() const { return v.capacity(); }
    void take(const Row& o, unsigned n) {
        zero_copy(bytes.data(), o.bytes.data(), n * sizeof(T));
        std::copy(o.known.begin(), o.known.begin() + n, known.begin());
    }
    void forget(unsigned from) { std::fill(known.begin() + long(from), known.end(), 0); }
};

template <typename T>
struct Place {
    std::vector<Row<T>> rows;
    bool jagged = false, dev = false;
    data::jagged_vector_view<T> jv;
    std::any keep, keep2, keep3;
    std::string kind;
    bool resizable() const {
        for (auto& r : rows)
            if (r.resizable()) return true;
        return false;
    }
};
template <typename X>
std::any keep(X&& x) {
    return std::make_shared<std::decay_t<X>>(std::forward<X>(x));
}

// A block that belongs to nothing but the case.
struct Block {
    vecmem::memory_resource* mr;
    void* p;
    std::size_t n, al;
    Block(vecmem::memory_resource& m, std::size_t bytes, std::size_t align) : mr(&m), p(bytes ? m.allocate(bytes, align) : nullptr), n(bytes), al(align) {}
    Block(Block&& o) noexcept : mr(o.mr), p(o.p), n(o.n), al(o.al) { o.p = nullptr; }
    Block(const Block&) = delete;
    ~Block() {
        if (p) mr->deallocate(p, n, al);
    }
};

template <typename T>
class History {
    World& w;
    Rng& rng;
    const char* forced;  // the tag of all verdicts, or null: per operation
    std::deque<Place<T>> ps;
    vm::Snapshot snap;
    // host vectors copied into, whose event was not waited for yet
    struct Out {
        std::shared_ptr<void> vec;
        std::function<void()> check;
    };
    std::vector<Out> outs;
    std::deque<std::vector<unsigned>> sizes_kept;
    using row_t = typename data::jagged_vector_view<T>::value_type;

    const char* tag(const char* t) const { return forced ? forced : t; }

    std::vector<unsigned> shape() {
        std::vector<unsigned> s(rng.chance(60) ? 0 : rng.range(1, rng.chance(100) ? 20 : 5));
        u64 m = rng.below(5);
        for (auto& x : s) x = unsigned(m == 0 ? 0 : m == 1 ? rng.below(2) : rng.below(rng.chance(50) ? 60 : 7));
        return s;
    }
    std::vector<unsigned> base_shape;
    bool large = false;  // more elements than 16 bits count
    std::vector<unsigned> near_shape() {
        auto s = base_shape;
        u64 m = rng.below(10);
        if (m < 3) return s;
        if (m == 3) return shape();
        if (m == 4 && !s.empty() && rng.chance(300)) {
            s.pop_back();
            return s;
        }
        if (m == 5 && rng.chance(300)) {
            s.push_back(unsigned(rng.below(4)));
            return s;
        }
        for (auto& x : s) x += unsigned(rng.below(3));
        if (m == 6 && !s.empty()) {
            auto& x = rng.pick(s);
            x = x > 3 ? x - 3 : 0;
        }
        if (m == 7 && s.size() > 1) std::swap(s[0], s[s.size() - 1]);
        return s;
    }

    Place<T> flat_place() {
        Place<T> p;
        p.dev = w.on_dev(rng);
        unsigned cap = unsigned(large ? rng.range(65500, 66000) : rng.chance(100) ? 0 : rng.chance(150) ? 1 : rng.below(rng.chance(60) ? 400 : 12));
        auto& mr = w.main(p.dev);
        switch (rng.below(6)) {
            case 0:
                if (!p.dev) {
                    p.kind = "vector";
                    auto v = std::make_shared<vecmem::vector<T>>(cap, &mr);
                    p.rows.emplace_back(vecmem::get_data(*v));
                    p.keep = v;
                    break;
                }
                [[fallthrough]];
            case 1: {
                p.kind = "fixed buffer";
                data::vector_buffer<T> b(cap, mr);
                w.cp.setup(b)->wait();
                p.rows.emplace_back(vecmem::get_data(b));
                p.keep = keep(std::move(b));
                break;
            }
            case 2:
            case 3: {
                p.kind = "resizable buffer";
                data::vector_buffer<T> b(cap, mr, BT::resizable);
                w.cp.setup(b)->wait();
                p.rows.emplace_back(vecmem::get_data(b));
                p.keep = keep(std::move(b));
                break;
            }
            case 4: {
                p.kind = "part of a block";
                unsigned before = unsigned(rng.below(4)), after = unsigned(rng.below(4));
                Block b(mr, (cap + before + after) * sizeof(T), alignof(T));
                p.rows.emplace_back(data::vector_view<T>(cap, b.p ? static_cast<T*>(b.p) + before : nullptr));
                p.keep = keep(std::move(b));
                break;
            }
            default: {
                p.kind = "part of a block with a size elsewhere";
                if (cap == 0) cap = 1;
                unsigned before = unsigned(rng.below(4)), after = unsigned(rng.below(4));
                Block b(mr, (cap + before + after) * sizeof(T), alignof(T)), s(mr, 3 * sizeof(unsigned), alignof(unsigned));
                p.rows.emplace_back(data::vector_view<T>(cap, static_cast<unsigned*>(s.p) + 1, static_cast<T*>(b.p) + before));
                w.cp.setup(p.rows[0].v)->wait();
                p.keep = keep(std::move(b));
                p.keep2 = keep(std::move(s));
                break;
            }
        }
        vm::trace("place: %s of %u on the %s", p.kind.c_str(), p.rows[0].cap(), p.dev ? "device" : "host");
        return p;
    }

    Place<T> jagged_place() {
        Place<T> p;
        p.jagged = true;
        p.dev = w.on_dev(rng);
        auto& mr = w.main(p.dev);
        auto caps = near_shape();
        u64 k = rng.below(7);
        if (k == 0 && !p.dev) {
            p.kind = "jagged vector";
            auto v = std::make_shared<vecmem::jagged_vector<T>>(&mr);
            v->resize(caps.size());
            for (std::size_t i = 0; i < caps.size(); ++i) (*v)[i].resize(caps[i]);
            auto d = std::make_shared<data::jagged_vector_data<T>>(vecmem::get_data(*v, &w.other));
            p.jv = *d;
            p.keep = v;
            p.keep2 = d;
        } else if (k < 5) {
            bool rs = rng.chance(500);
            p.kind = rs ? "resizable jagged buffer" : "fixed jagged buffer";
            auto b = std::make_shared<data::jagged_vector_buffer<T>>(caps, mr, w.aside(p.dev, rng), rs ? BT::resizable : BT::fixed_size);
            w.cp.setup(*b)->wait();
            p.jv = *b;
            p.keep = b;
        } else {
            // hand-made rows, in one block (with or without gaps), in any order
            u64 style = rng.below(3);
            bool rs = rng.chance(500) && !caps.empty();
            p.kind = std::string(style == 0 ? "rows one after another" : style == 1 ? "rows with gaps" : "rows in reverse") + (rs ? " with sizes" : "");
            std::size_t total = 2, n = caps.size();
            std::vector<std::size_t> off(n);
            for (std::size_t q = 0; q < n; ++q) {
                std::size_t i = style == 2 ? n - 1 - q : q;
                off[i] = total;
                total += caps[i] + (style == 1 && rng.chance(400) ? 1 + rng.below(3) : 0);
            }
            auto b = std::make_shared<Block>(mr, (total + 2) * sizeof(T), alignof(T));
            auto sz = std::make_shared<Block>(mr, (n + 2) * sizeof(unsigned), alignof(unsigned));
            // descriptors are host memory, with a second copy on a device
            auto hl = std::make_shared<Block>(w.other, n * sizeof(row_t), alignof(row_t));
            row_t* hr = static_cast<row_t*>(hl->p);
            for (std::size_t i = 0; i < n; ++i) {
                if (rs) new (hr + i) row_t(caps[i], static_cast<unsigned*>(sz->p) + 1 + i, static_cast<T*>(b->p) + off[i]);
                else new (hr + i) row_t(caps[i], static_cast<T*>(b->p) + off[i]);
            }
            row_t* dr = hr;
            if (p.dev) {
                auto dl = std::make_shared<Block>(mr, n * sizeof(row_t), alignof(row_t));
                dr = static_cast<row_t*>(dl->p);
                p.keep3 = dl;
            }
            p.jv = data::jagged_vector_view<T>(n, dr, hr);
            w.cp.setup(p.jv)->wait();
            p.keep = std::make_pair(b, sz);
            p.keep2 = hl;
        }
        for (std::size_t i = 0; i < p.jv.size(); ++i) p.rows.emplace_back(p.jv.host_ptr()[i]);
        std::string cs;
        for (std::size_t i = 0; i < p.rows.size() && i < 40; ++i) cs += " " + std::to_string(p.rows[i].cap());
        vm::trace("place: %s [%s ] on the %s", p.kind.c_str(), cs.c_str(), p.dev ? "device" : "host");
        return p;
    }

    // Random contents, written behind the back end's back (nothing is pending).
    void write(Place<T>& p) {
        bool full = rng.chance(250), none = rng.chance(100);
        std::string ss;
        for (auto& r : p.rows) {
            for (unsigned k = 0; k < r.cap(); ++k) {
                T t = vm::make<T>(rng.below(1000000));
                std::memcpy(&r.bytes[k * sizeof(T)], &t, sizeof(T));
                r.known[k] = 1;
            }
            zero_copy(Device::see(const_cast<std::remove_const_t<T>*>(r.v.ptr())), r.bytes.data(), r.bytes.size());
            if (r.resizable()) {
                r.size = full ? r.cap() : none ? 0 : unsigned(rng.below(r.cap() + 1));
                *Device::see(r.v.size_ptr()) = r.size;
            }
            if (ss.size() < 200) ss += " " + std::to_string(r.size);
        }
        vm::trace("write sizes%s", ss.c_str());
    }

    // Everything known about all memory, when nothing is pending.
    void check(const char* t, const char* when, bool guard = true) {
        for (std::size_t i = 0; i < ps.size(); ++i)
            for (std::size_t k = 0; k < ps[i].rows.size(); ++k) {
                auto& r = ps[i].rows[k];
                const char* who = ps[i].kind.c_str();
                if (r.resizable()) {
                    unsigned s = *Device::see(r.v.size_ptr());
                    vm::expect(s == r.size, t, "%s: place %zu (%s) row %zu has size %u, expected %u", when, i, who, k, s, r.size);
                }
                const char* now = reinterpret_cast<const char*>(Device::see(r.v.ptr()));
                for (unsigned e = 0; e < r.cap(); ++e)
                    if (r.known[e] && std::memcmp(now + e * sizeof(T), &r.bytes[e * sizeof(T)], sizeof(T)) != 0) {
                        vm::expect(false, t, "%s: place %zu (%s) row %zu of size %u has another element %u", when, i, who, k, r.size, e);
                        break;
                    }
            }
        if (guard) {
            std::vector<vm::Snapshot::Range> ex;
            for (auto& p : ps)
                for (auto& r : p.rows) {
                    ex.push_back({r.v.ptr(), r.cap() * sizeof(T)});
                    if (r.resizable()) ex.push_back({r.v.size_ptr(), sizeof(unsigned)});
                }
            snap.expect_same(t, ex, when);
        }
        vm::count("comparisons");
    }
    void sync(const char* t, const char* when) {
        w.sync();
        for (auto& o : outs) o.check();
        outs.clear();
        sizes_kept.clear();
        check(t, when);
    }
    void after(const char* t, const char* when) {
        if (w.deferred()) {
            if (rng.chance(250)) sync(t, "after waiting for all events");
        } else {
            for (auto& o : outs) o.check();
            outs.clear();
            sizes_kept.clear();
            check(t, when);
        }
    }

    template <typename F>
    bool refused(F&& f, const char* t, const char* what) {
        try {
            w.issued(f());
        } catch (std::length_error&) {
            vm::trace("  -> refused");
            return true;
        }
        (void)t;
        (void)what;
        return false;
    }

    // May the copy happen, and what does it do?
    bool fits(const Place<T>& a, const Place<T>& b) const {
        if (a.jagged && a.rows.size() != b.rows.size()) return false;
        for (std::size_t i = 0; i < a.rows.size(); ++i)
            if (a.rows[i].size > b.rows[i].cap()) return false;
        return true;
    }
    void copy_op(std::size_t i, std::size_t j) {
        Place<T>&a = ps[i], &b = ps[j];
        const char* t = tag(a.jagged ? "K02" : "K01");
        if (a.jagged && a.rows.empty() && !b.rows.empty()) return;  // nothing is said about this
        auto lab = w.label(a.dev, b.dev, rng);
        vm::trace("copy #%zu -> #%zu, label %d", i, j, int(lab));
        bool ok = fits(a, b), r;
        bool cv = rng.chance(500);
        if (a.jagged) {
            r = refused([&] { return w.cp(a.jv, b.jv, lab); }, t, "copy");
        } else {
            data::vector_view<const T> from(a.rows[0].v);
            r = cv ? refused([&] { return w.cp(from, b.rows[0].v, lab); }, t, "copy") : refused([&] { return w.cp(a.rows[0].v, b.rows[0].v, lab); }, t, "copy");
        }
        if (r == ok) {
            if (ok) vm::expect(false, t, "a copy that fits was refused");
            else vm::expect(false, t, "a copy that does not fit was not refused");
            throw std::runtime_error("model lost");
        }
        vm::count(ok ? (a.jagged ? "jagged_copies" : "flat_copies") : "refused_copies");
        if (ok) {
            bool rs = b.resizable();
            bool empty = true;
            for (std::size_t k = 0; k < a.rows.size(); ++k) {
                auto &x = a.rows[k], &y = b.rows[k];
                y.take(x, x.size);
                if (x.size) empty = false;
                if (y.resizable()) y.size = x.size;
                if (a.jagged || y.resizable()) y.forget(x.size);
            }
            if (empty) vm::count("empty_copies");
            if (empty && rs) vm::count("empty_into_resizable");
            if (a.resizable() && rs) vm::count("resizable_to_resizable");
            if (a.resizable() && !rs) vm::count("resizable_to_fixed");
            if (!a.resizable() && rs) vm::count("fixed_to_resizable");
        }
        after(t, ok ? "after a copy" : "after a refused copy");
    }

    template <typename V>
    static std::string row_differs(const V& v, const Row<T>& r) {
        if (v.size() != r.size) return "has size " + std::to_string(v.size()) + " instead of " + std::to_string(r.size);
        for (unsigned e = 0; e < r.size; ++e)
            if (r.known[e] && std::memcmp(&v[e], &r.bytes[e * sizeof(T)], sizeof(T)) != 0) return "has another element " + std::to_string(e);
        return "";
    }
    void vector_op(std::size_t i) {
        Place<T>& a = ps[i];
        const char* t = tag(a.jagged ? "K02" : "K01");
        auto lab = w.label(a.dev, false, rng);
        bool std_vec = rng.chance(400);
        vm::trace("copy #%zu -> %s vector, label %d", i, std_vec ? "std" : "vecmem", int(lab));
        std::vector<Row<T>> want = a.rows;
        auto go = [&](auto v, auto prior) {
            prior(*v);
            if (a.jagged) {
                if constexpr (!std::is_same<std::decay_t<decltype((*v)[0])>, T>::value) {
                    w.issued(w.cp(a.jv, *v, lab));
                    outs.push_back({v, [v, want, t] {
                                        vm::expect(v->size() == want.size(), t, "a copied jagged vector has %zu rows instead of %zu", v->size(), want.size());
                                        for (std::size_t k = 0; k < want.size() && k < v->size(); ++k) {
                                            auto s = row_differs((*v)[k], want[k]);
                                            vm::expect(s.empty(), t, "row %zu of a copied jagged vector %s", k, s.c_str());
                                        }
                                    }});
                }
            } else {
                if constexpr (std::is_same<std::decay_t<decltype((*v)[0])>, T>::value) {
                    w.issued(w.cp(data::vector_view<const T>(a.rows[0].v), *v, lab));
                    outs.push_back({v, [v, want, t] {
                                        auto s = row_differs(*v, want[0]);
                                        vm::expect(s.empty(), t, "a copied vector %s", s.c_str());
                                    }});
                }
            }
        };
        unsigned prior = unsigned(rng.below(12));
        auto pf = [&](auto& v) { v.resize(prior); };
        auto pj = [&](auto& v) {
            v.resize(prior);
            for (auto& r : v) r.resize(rng.below(9));
        };
        if (a.jagged) {
            if (std_vec) go(std::make_shared<std::vector<std::vector<T>>>(), pj);
            else go(std::make_shared<vecmem::jagged_vector<T>>(&w.loose), pj);
        } else {
            if (std_vec) go(std::make_shared<std::vector<T>>(), pf);
            else go(std::make_shared<vecmem::vector<T>>(&w.loose), pf);
        }
        vm::count(a.jagged ? "jagged_vectors_filled" : "vectors_filled");
        after(t, "after a copy into a host vector");
    }
    void to_op(std::size_t i) {
        if (ps.size() > 9) return;
        Place<T>& a = ps[i];
        const char* t = tag(a.jagged ? "K02" : "K01");
        Place<T> p;
        p.jagged = a.jagged;
        p.dev = w.on_dev(rng);
        p.kind = "made copy";
        auto lab = w.label(a.dev, p.dev, rng);
        vm::trace("copy of #%zu to new memory on the %s, label %d", i, p.dev ? "device" : "host", int(lab));
        if (a.jagged) {
            auto b = std::make_shared<data::jagged_vector_buffer<T>>(w.cp.to(a.jv, w.main(p.dev), w.aside(p.dev, rng), lab));
            p.jv = *b;
            p.keep = b;
            vm::expect(b->size() == a.rows.size(), t, "a freshly made copy has %zu rows instead of %zu", std::size_t(b->size()), a.rows.size());
            if (b->size() != a.rows.size()) throw std::runtime_error("model lost");
            for (std::size_t k = 0; k < b->size(); ++k) p.rows.emplace_back(b->host_ptr()[k]);
        } else {
            auto b = std::make_shared<data::vector_buffer<T>>(w.cp.to(a.rows[0].v, w.main(p.dev), lab));
            p.rows.emplace_back(vecmem::get_data(*b));
            p.keep = b;
        }
        bool ok = true;
        for (std::size_t k = 0; k < p.rows.size(); ++k) {
            auto &x = a.rows[k], &y = p.rows[k];
            unsigned s = y.resizable() ? *Device::see(y.v.size_ptr()) : y.cap();
            ok = vm::expect(s == x.size, t, "row %zu of a freshly made copy has size %u instead of %u", k, s, x.size) && ok;
            if (!ok) throw std::runtime_error("model lost");
            y.size = s;
            y.take(x, s);
        }
        vm::count("copies_made");
        ps.push_back(std::move(p));
        // complete on return, whatever was deferred before
        check_last(t);
        w.sync();
        for (auto& o : outs) o.check();
        outs.clear();
        sizes_kept.clear();
        check(t, "after making a copy", false);
        snap = vm::Snapshot();
        take();
    }
    void check_last(const char* t) {
        auto& p = ps.back();
        for (auto& r : p.rows)
            for (unsigned e = 0; e < r.size; ++e)
                if (r.known[e]) vm::expect(std::memcmp(reinterpret_cast<const char*>(Device::see(r.v.ptr())) + e * sizeof(T), &r.bytes[e * sizeof(T)], sizeof(T)) == 0, t, "a freshly made copy has another element %u when it is returned", e);
        if (p.jagged)
            for (std::size_t k = 0; k < p.rows.size(); ++k)
                vm::expect(Device::see(p.jv.ptr())[k].ptr() == p.jv.host_ptr()[k].ptr() && Device::see(p.jv.ptr())[k].capacity() == p.jv.host_ptr()[k].capacity(), t,
                           "a freshly made copy has no usable descriptor for row %zu when it is returned", k);
    }
    void setup_op(std::size_t j) {
        Place<T>& b = ps[j];
        const char* t = tag("K06");
        vm::trace("setup #%zu", j);
        if (b.jagged) w.issued(w.cp.setup(b.jv));
        else w.issued(w.cp.setup(b.rows[0].v));
        for (auto& r : b.rows)
            if (r.resizable()) r.size = 0;
        vm::count("setups");
        after(t, "after a set-up");
    }
    void fill_op(std::size_t j) {
        Place<T>& b = ps[j];
        const char* t = tag("K06");
        int v = rng.chance(200) ? 0 : int(rng.below(256));
        vm::trace("fill #%zu with %d", j, v);
        if (b.jagged) w.issued(w.cp.memset(b.jv, v));
        else w.issued(w.cp.memset(b.rows[0].v, v));
        bool any = false;
        for (auto& r : b.rows) {
            std::fill(r.bytes.begin(), r.bytes.end(), char(v));
            std::fill(r.known.begin(), r.known.end(), 1);
            any = any || r.cap();
        }
        vm::count(any ? "fills_done" : "fills_of_nothing");
        after(t, "after a fill");
    }
    void size_op(std::size_t i) {
        Place<T>& a = ps[i];
        const char* t = tag(a.jagged ? "K02" : "K01");
        vm::trace("sizes of #%zu", i);
        if (a.jagged) {
            auto s = w.cp.get_sizes(a.jv);
            bool ok = s.size() == a.rows.size();
            for (std::size_t k = 0; ok && k < s.size(); ++k) ok = s[k] == a.rows[k].size;
            vm::expect(ok, t, "the queried row sizes of place %zu (%s) are wrong", i, a.kind.c_str());
        } else {
            unsigned s = w.cp.get_size(a.rows[0].v);
            vm::expect(s == a.rows[0].size, t, "the queried size of place %zu (%s) is %u instead of %u", i, a.kind.c_str(), s, a.rows[0].size);
        }
        vm::count("size_queries");
    }
    void set_sizes_op(std::size_t j) {
        Place<T>& b = ps[j];
        if (!b.jagged) return;
        const char* t = tag("K02");
        sizes_kept.emplace_back();
        auto& s = sizes_kept.back();
        for (auto& r : b.rows) s.push_back(unsigned(rng.below(r.cap() + 1)));
        if (!s.empty() && rng.chance(150)) rng.pick(s) += unsigned(rng.below(8));
        if (rng.chance(80)) s.push_back(0);
        bool ok = s.size() == b.rows.size();
        for (std::size_t k = 0; ok && k < s.size(); ++k) ok = s[k] <= b.rows[k].cap();
        vm::trace("set the sizes of #%zu", j);
        bool r = refused([&] { return w.cp.set_sizes(s, b.jv); }, t, "setting sizes");
        vm::expect(r != ok, t, ok ? "setting sizes that fit was refused" : "setting sizes that do not fit was not refused");
        if (ok)
            for (std::size_t k = 0; k < s.size(); ++k)
                if (b.rows[k].resizable()) {
                    b.rows[k].size = s[k];
                }
        vm::count("sizes_set");
        after(t, "after setting sizes");
    }
    void take() {
        snap.take(w.host);
        snap.take(w.other);
        if (w.mode == World::DEVICE) snap.take(w.dev);
    }

public:
    History(World& ww, Rng& r, const char* f) : w(ww), rng(r), forced(f) {}

    void run(bool jagged, unsigned fill_weight) {
        base_shape = shape();
        std::size_t n = std::size_t(rng.range(2, 6));
        large = rng.chance(4);
        if (large) {
            vm::trace("large");
            vm::count("large_cases");
            n = 2;
            if (rng.chance(500)) {
                base_shape.assign(rng.range(1, 3), 3);
                for (auto& x : base_shape) x = unsigned(rng.range(0, 9));
                rng.pick(base_shape) = unsigned(rng.range(65500, 66000));
            } else {
                base_shape.assign(rng.range(65500, 66000), unsigned(rng.below(2)));
                const std::size_t empty = rng.pick({u64(0), u64(0), rng.range(400, 1000), rng.range(65400, 65530), u64(65536)});
                for (std::size_t i = 0; i < std::min(empty, base_shape.size()); ++i) base_shape[i] = 0;
                if (empty > 60000) for (std::size_t i = empty; i < base_shape.size(); ++i) base_shape[i] = unsigned(rng.below(3));
            }
        }
        for (std::size_t i = 0; i < n; ++i) {
            ps.push_back(jagged ? jagged_place() : flat_place());
        }
        for (auto& p : ps) write(p);
        take();
        check(tag("K06"), "at the start");
        int steps = int(large ? rng.range(2, 5) : rng.range(4, w.deferred() ? 50 : 25));
        for (int s = 0; s < steps && !vm::st().tainted; ++s) {
            std::size_t i = rng.below(ps.size()), j = rng.below(ps.size());
            if (rng.below(100) < fill_weight) {
                if (rng.chance(350)) setup_op(j);
                else fill_op(j);
                continue;
            }
            switch (rng.below(12)) {
                case 0: vector_op(i); break;
                case 1: to_op(i); break;
                case 2: size_op(i); break;
                case 3: set_sizes_op(j); break;
                case 4:
                case 5:
                    if (w.deferred()) sync(tag("K05"), "after waiting for all events");
                    write(ps[j]);
                    break;
                default:
                    if (i != j) copy_op(i, j);
                    break;
            }
        }
        if (!vm::st().tainted) sync(tag("K05"), "at the end");
        vm::st().nontrivial = steps > 8 || large;
    }
};

template <typename T>
void go(Rng& rng, World::Mode m, const char* forced, bool jagged, unsigned fills) {
    World w(m, rng);
    History<T> h(w, rng, forced);
    try {
        h.run(jagged, fills);
    } catch (...) {
        // nothing pending may outlive the memory
        w.sim.finish();
        throw;
    }
    w.sim.finish();
}
using Run = vm::Cases<World::Mode, const char*, bool, unsigned>;
VM_CASES(any_type, 5, Run, [](auto k, vm::Rng& rng, World::Mode m, const char* forced, bool jagged, unsigned fills) {
    if constexpr (k == 0) go<char>(rng, m, forced, jagged, fills);
    else if constexpr (k == 1) go<int>(rng, m, forced, jagged, fills);
    else if constexpr (k == 2) go<double>(rng, m, forced, jagged, fills);
    else if constexpr (k == 3) go<vm::Odd3>(rng, m, forced, jagged, fills);
    else go<vm::Wide>(rng, m, forced, jagged, fills);
})
void any_type(Rng& rng, World::Mode m, const char* forced, bool jagged, unsigned fills) {
    Run::run("any_type", rng.below(5), rng, m, forced, jagged, fills);
}
}  // namespace

VM_PROP(K01) { any_type(rng, World::PLAIN, nullptr, false, 10); }
VM_PROP(K02) { any_type(rng, World::PLAIN, nullptr, true, 10); }
VM_PROP(K04) {
    bool j = rng.chance(600);
    any_type(rng, World::DEVICE, nullptr, j, 25);
}
VM_PROP(K05) {
    bool j = rng.chance(600);
    // The same history with immediate transfers first: what fails there is not
    // about deferring.
    Rng again = rng;
    any_type(again, World::PLAIN, nullptr, j, 25);
    if (vm::st().tainted) return;
    any_type(rng, World::DEFERRED, "K05", j, 25);
}
VM_PROP(K06) {
    bool j = rng.chance(600);
    any_type(rng, World::PLAIN, nullptr, j, 70);
}

VM_MAIN
