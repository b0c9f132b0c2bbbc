// K01 to K04, K06 on containers too large for any real memory: their device
// memory is addresses only (nothing is behind them), and the copy object
// carries out transfers on a sparse model of what each address would hold. The
// library may reach this memory through the copy object only, so this sees
// the exact bytes of every transfer, at sizes that 32 bits can not count.
#include "elems.hpp"
#include "mr.hpp"
#include "soa.hpp"

#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/utils/copy.hpp>

#include <deque>
#include <limits>

using vm::Rng;
using vm::u64;
using vm::Upstream;

namespace {
namespace data = vecmem::data;
using BT = data::buffer_type;
using addr = std::uintptr_t;

const char* tag() { return vm::st().prop.c_str(); }

// What a range of addresses holds.
struct Seg {
    enum Kind { SYM, FILL, BYTES, ANY } kind = SYM;
    std::size_t len = 0;
    u64 id = 0, off = 0;  // SYM: bytes off, off+1, ... of the thing called id; FILL: the value
    std::string bytes;
    Seg part(std::size_t from, std::size_t n) const {
        Seg s = *this;
        s.len = n;
        if (kind == SYM) s.off += from;
        if (kind == BYTES) s.bytes = bytes.substr(from, n);
        return s;
    }
    bool join(const Seg& o) {
        if (kind != o.kind) return false;
        if (kind == SYM && (id != o.id || off + len != o.off)) return false;
        if (kind == FILL && id != o.id) return false;
        if (kind == BYTES) bytes += o.bytes;
        len += o.len;
        return true;
    }
    bool operator==(const Seg& o) const {
        return kind == o.kind && len == o.len && (kind != SYM || (id == o.id && off == o.off)) && (kind != FILL || id == o.id) && bytes == o.bytes;
    }
    std::string str() const {
        char b[120];
        if (kind == SYM) std::snprintf(b, sizeof b, "%zu bytes of #%llu from %llu", len, (unsigned long long)id, (unsigned long long)off);
        else if (kind == FILL) std::snprintf(b, sizeof b, "%zu bytes of value %llu", len, (unsigned long long)id);
        else std::snprintf(b, sizeof b, "%zu %s bytes", len, kind == ANY ? "arbitrary" : "known");
        return b;
    }
};
using Segs = std::vector<Seg>;
Segs merged(const Segs& in) {
    Segs r;
    for (auto& s : in)
        if (s.len && (r.empty() || !r.back().join(s))) r.push_back(s);
    return r;
}
std::string str(const Segs& v) {
    std::string r;
    for (auto& s : v) r += (r.empty() ? "" : ", ") + s.str();
    return r.empty() ? "nothing" : r;
}

class Sparse {
    std::map<addr, Seg> m_;
    void cut(addr a) {
        auto it = m_.upper_bound(a);
        if (it == m_.begin()) return;
        --it;
        if (a <= it->first || a >= it->first + it->second.len) return;
        std::size_t k = a - it->first;
        Seg tail = it->second.part(k, it->second.len - k);
        it->second = it->second.part(0, k);
        m_.emplace(a, tail);
    }

public:
    void put(addr a, const Segs& v) {
        std::size_t n = 0;
        for (auto& s : v) n += s.len;
        if (!n) return;
        cut(a);
        cut(a + n);
        m_.erase(m_.lower_bound(a), m_.lower_bound(a + n));
        for (auto& s : v) {
            if (!s.len) continue;
            m_.emplace(a, s);
            a += s.len;
        }
    }
    void put(addr a, const Seg& s) { put(a, Segs{s}); }
    // Untouched memory holds bytes of thing 0.
    Segs get(addr a, std::size_t n) const {
        Segs r;
        auto it = m_.upper_bound(a);
        if (it != m_.begin()) --it;
        addr p = a, e = a + n;
        for (; p < e; ++it) {
            while (it != m_.end() && it->first + it->second.len <= p) ++it;
            addr next = it == m_.end() ? e : std::min<addr>(e, it->first);
            if (next > p) {
                r.push_back({Seg::SYM, next - p, 0, p, ""});
                p = next;
            }
            if (p >= e || it == m_.end()) break;
            std::size_t k = p - it->first, l = std::min<std::size_t>(it->second.len - k, e - p);
            r.push_back(it->second.part(k, l));
            p += l;
        }
        return merged(r);
    }
    std::string read(addr a, std::size_t n) const {
        std::string r;
        for (auto& s : get(a, n))
            if (s.kind == Seg::BYTES) r += s.bytes;
            else r += std::string(s.len, s.kind == Seg::FILL ? char(s.id) : char(0xa5));
        return r;
    }
    void write(addr a, const void* p, std::size_t n) { put(a, {Seg::BYTES, n, 0, 0, std::string(static_cast<const char*>(p), n)}); }
    // Everything that differs from untouched memory.
    std::vector<std::pair<addr, Seg>> all() const {
        std::vector<std::pair<addr, Seg>> r;
        for (auto& [a, s] : m_) {
            if (s.kind == Seg::SYM && s.id == 0 && s.off == a) continue;
            if (!r.empty() && r.back().first + r.back().second.len == a && r.back().second.join(s)) continue;
            r.push_back({a, s});
        }
        return r;
    }
};

bool is_virtual(const void* p) { return reinterpret_cast<addr>(p) >= (addr(1) << 50); }

class GiantCopy : public vecmem::copy {
public:
    Sparse* mem;
    std::vector<Upstream*> ups;
    bool held(const void* p, std::size_t n) const {
        for (auto* u : ups)
            if (u->holds(static_cast<const char*>(p), n)) return true;
        return false;
    }

protected:
    using type = vecmem::copy::type;
    void do_copy(std::size_t n, const void* from, void* to, type::copy_type t) const override {
        vm::count("transfers");
        vm::tick();
        if (n == 0) return;
        bool fv = is_virtual(from), tv = is_virtual(to);
        vm::expect(!fv || held(from, n), tag(), "a transfer reads %zu bytes at %p, which is not inside one allocated block", n, from);
        vm::expect(!tv || held(to, n), tag(), "a transfer writes %zu bytes at %p, which is not inside one allocated block", n, to);
        bool ok = t == type::unknown || t == (fv ? (tv ? type::device_to_device : type::device_to_host) : (tv ? type::host_to_device : type::host_to_host));
        vm::expect(ok, "K04", "a transfer of %zu bytes is labelled %d, which is not where its sides live (%s to %s)", n, int(t), fv ? "device" : "host", tv ? "device" : "host");
        if (n >> 32) vm::count("giant_transfers");
        if (fv && tv) {
            mem->put(reinterpret_cast<addr>(to), mem->get(reinterpret_cast<addr>(from), n));
            return;
        }
        vm::expect(n < (1u << 24), tag(), "a transfer moves %zu bytes to or from the host, which has no such data", n);
        if (fv) std::memcpy(to, mem->read(reinterpret_cast<addr>(from), n).data(), n);
        else if (tv) mem->write(reinterpret_cast<addr>(to), from, n);
        else std::memcpy(to, from, n);
    }
    void do_memset(std::size_t n, void* p, int value) const override {
        vm::count("fills");
        if (n == 0) return;
        bool v = is_virtual(p);
        vm::expect(!v || held(p, n), tag(), "a fill writes %zu bytes at %p, which is not inside one allocated block", n, p);
        if (n >> 32) vm::count("giant_fills");
        if (v) mem->put(reinterpret_cast<addr>(p), {Seg::FILL, n, u64(value) & 0xff, 0, ""});
        else std::memset(p, value, n);
    }
};

// One run of elements; sizes are in memory only the model can see.
struct Row {
    addr p = 0;
    std::size_t esz = 0;
    unsigned cap = 0;
    addr size_at = 0;  // 0: can not be resized
    unsigned size = 0;
    unsigned group = 0;  // rows of one group share a size
};

// A container of any kind.
struct Box {
    std::vector<Row> rows;
    bool exact = false;  // a copy may write nothing but the source's elements
    std::string what;
    std::function<void(GiantCopy&)> setup;
    std::function<void(GiantCopy&, int)> fill;
};

struct Giant {
    Sparse mem;
    Upstream up, hup;
    GiantCopy cp;
    Rng& rng;
    u64 next_id = 0;
    explicit Giant(Rng& r) : up(r.next(), Upstream::VIRTUAL, "device"), hup(r.next(), Upstream::MALLOC, "host"), rng(r) {
        up.keep_events = hup.keep_events = false;
        up.limit = std::size_t(1) << 51;
        cp.mem = &mem;
        cp.ups = {&up, &hup};
    }
    static Seg any(std::size_t n) { return {Seg::ANY, n, 0, 0, ""}; }
    unsigned size_now(const Row& r) {
        unsigned x;
        std::memcpy(&x, mem.read(r.size_at, sizeof x).data(), sizeof x);
        return x;
    }
    void set_size(Row& r, unsigned n) {
        r.size = n;
        if (r.size_at) mem.write(r.size_at, &n, sizeof n);
    }
    // New contents: every row its own, sizes anything up to the capacities.
    void fill_in(Box& b) {
        unsigned group = ~0u, n = 0;
        for (auto& r : b.rows) {
            mem.put(r.p, Segs{{Seg::SYM, std::size_t(r.cap) * r.esz, ++next_id, 0, ""}});
            if (!r.size_at) continue;
            if (r.group != group) {
                group = r.group;
                n = rng.chance(300) ? r.cap : rng.chance(100) ? 0 : rng.chance(500) ? unsigned(rng.range(0, r.cap)) : unsigned(r.cap - std::min<u64>(r.cap, rng.below(3)));
            }
            set_size(r, n);
        }
    }
    // Compares all memory with `want`, except for masked ranges.
    void same(Sparse want, const std::vector<std::pair<addr, std::size_t>>& mask, const char* what) {
        Sparse now = mem;
        for (auto& [a, n] : mask) {
            want.put(a, any(n));
            now.put(a, any(n));
        }
        auto w = want.all(), h = now.all();
        vm::count("comparisons");
        if (w == h) return;
        for (std::size_t k = 0; k < std::max(w.size(), h.size()); ++k)
            if (k >= w.size() || k >= h.size() || !(w[k] == h[k])) {
                vm::expect(false, tag(), "%s: memory differs: %s at %p instead of %s at %p", what, k < h.size() ? h[k].second.str().c_str() : "nothing",
                           k < h.size() ? reinterpret_cast<void*>(h[k].first) : nullptr, k < w.size() ? w[k].second.str().c_str() : "nothing",
                           k < w.size() ? reinterpret_cast<void*>(w[k].first) : nullptr);
                return;
            }
    }
    void setup(Box& b) {
        Sparse before = mem;
        b.setup(cp);
        std::vector<std::pair<addr, std::size_t>> mask;
        for (std::size_t i = 0; i < b.rows.size(); ++i) {
            auto& r = b.rows[i];
            if (!r.size_at) continue;
            vm::expect(size_now(r) == 0, tag(), "set-up of %s: size %zu is %u", b.what.c_str(), i, size_now(r));
            mask.push_back({r.size_at, sizeof(unsigned)});
            r.size = 0;
        }
        for (auto& l : layouts_)
            if (l.first == &b) mask.push_back(l.second);
        same(before, mask, ("set-up of " + b.what).c_str());
        vm::count("setups");
    }
    void note_layout(const Box* b, const void* p, std::size_t n) { layouts_.push_back({b, {reinterpret_cast<addr>(p), n}}); }
    void memset(Box& b) {
        int v = int(rng.below(256));
        vm::trace("fill %s with %d", b.what.c_str(), v);
        Sparse want = mem;
        std::vector<std::pair<addr, std::size_t>> mask;
        for (auto& r : b.rows) want.put(r.p, {Seg::FILL, std::size_t(r.cap) * r.esz, u64(v), 0, ""});
        if (!b.exact) gaps(b, mask);
        b.fill(cp, v);
        same(want, mask, ("fill of " + b.what).c_str());
        vm::count("filled");
    }
    // Memory of the box's own blocks that is neither elements nor sizes.
    void gaps(const Box& b, std::vector<std::pair<addr, std::size_t>>& mask) {
        std::vector<std::pair<addr, addr>> used;
        for (auto& r : b.rows) {
            if (r.cap) used.push_back({r.p, r.p + r.cap * r.esz});
            if (r.size_at) used.push_back({r.size_at, r.size_at + sizeof(unsigned)});
        }
        for (auto& l : layouts_)
            if (l.first == &b) used.push_back({l.second.first, l.second.first + l.second.second});
        std::sort(used.begin(), used.end());
        for (auto& [p, rec] : up.live) {
            addr a = reinterpret_cast<addr>(p), e = a + rec.size;
            bool mine = false;
            for (auto& u : used) mine = mine || (u.first >= a && u.first < e);
            if (!mine) continue;
            addr at = a;
            for (auto& u : used) {
                if (u.first < a || u.first >= e) continue;
                if (u.first > at) mask.push_back({at, u.first - at});
                at = std::max(at, u.second);
            }
            if (at < e) mask.push_back({at, e - at});
        }
    }
    bool fits(const Box& from, const Box& to) const {
        for (std::size_t i = 0; i < from.rows.size(); ++i)
            if (from.rows[i].size > to.rows[i].cap) return false;
        return true;
    }
    // `run` copies one to the other.
    void copied(Box& from, Box& to, const std::function<void()>& run, bool refusal_is_clean) {
        vm::trace("copy %s to %s", from.what.c_str(), to.what.c_str());
        Sparse before = mem;
        bool ok = fits(from, to), refused = false;
        try {
            run();
        } catch (std::length_error&) {
            refused = true;
        }
        vm::expect(refused == !ok, tag(), ok ? "a copy that fits is refused (%s to %s)" : "a copy that does not fit is not refused (%s to %s)", from.what.c_str(), to.what.c_str());
        if (refused) {
            vm::count("refused");
            if (refusal_is_clean) same(before, {}, "refused copy");
            else {
                std::vector<std::pair<addr, std::size_t>> mask;
                for (auto& r : to.rows) mask.push_back({r.p, r.cap * r.esz});
                for (auto& r : to.rows)
                    if (r.size_at) mask.push_back({r.size_at, sizeof(unsigned)});
                gaps(to, mask);
                same(before, mask, "refused copy");
                fill_in(to);
            }
            return;
        }
        Sparse want = before;
        std::vector<std::pair<addr, std::size_t>> mask;
        for (std::size_t i = 0; i < from.rows.size(); ++i) {
            auto &f = from.rows[i], &t = to.rows[i];
            std::size_t n = f.size * f.esz;
            Segs have = mem.get(t.p, n), should = before.get(f.p, n);
            vm::expect(have == should, tag(), "copy of %s to %s: row %zu (%u elements of %zu bytes) holds %s instead of %s", from.what.c_str(), to.what.c_str(), i, f.size, f.esz,
                       str(have).c_str(), str(should).c_str());
            want.put(t.p, should);
            if (!to.exact && std::size_t(t.cap) * t.esz > n) mask.push_back({t.p + n, t.cap * t.esz - n});
            if (t.size_at) {
                vm::expect(size_now(t) == f.size, tag(), "copy of %s to %s: size %zu is %u instead of %u", from.what.c_str(), to.what.c_str(), i, size_now(t), f.size);
                mask.push_back({t.size_at, sizeof(unsigned)});
                t.size = f.size;
            }
        }
        if (!to.exact) gaps(to, mask);
        same(want, mask, ("copy of " + from.what + " to " + to.what).c_str());
        // What can not be resized keeps its size, and known contents everywhere.
        if (!to.exact)
            for (auto& t : to.rows)
                for (auto& [a, n] : mask)
                    if (a >= t.p && a < t.p + std::size_t(t.cap) * t.esz) mem.put(a, Segs{{Seg::SYM, n, ++next_id, 0, ""}});
        vm::count("copied");
    }

private:
    std::vector<std::pair<const Box*, std::pair<addr, std::size_t>>> layouts_;
};

unsigned giant_capacity(Rng& rng, std::size_t elem) {
    const std::size_t k = std::size_t(1) << 32;
    std::size_t c = 0;
    switch (rng.below(6)) {
        case 0: c = k / elem + rng.below(3); break;
        case 1: c = k / 2 / elem + rng.below(3); break;
        case 2: c = rng.range(k / 4, k - 1); break;
        case 3: c = k - 1 - rng.below(3); break;
        case 4: c = rng.below(50); break;
        default: c = rng.range(1, 4 * k) / elem + 1; break;
    }
    return unsigned(std::min({c, k - 1, (std::size_t(1) << 40) / elem}));
}
const char* kind(BT t) { return t == BT::resizable ? "resizable" : "fixed"; }

struct Big {
    u64 v[512];
};

template <typename T>
void flat(Rng& rng) {
    Giant g(rng);
    std::deque<data::vector_buffer<T>> bufs;
    std::deque<Box> boxes;
    unsigned c = giant_capacity(rng, sizeof(T));
    auto add = [&](data::vector_buffer<T>&& b, BT t) -> Box& {
        bufs.push_back(std::move(b));
        auto* v = &bufs.back();
        boxes.emplace_back();
        Box& x = boxes.back();
        x.exact = true;
        x.what = std::string(kind(t)) + " vector of " + std::to_string(v->capacity()) + "x" + std::to_string(sizeof(T));
        x.rows.push_back({reinterpret_cast<addr>(v->ptr()), sizeof(T), v->capacity(), reinterpret_cast<addr>(v->size_ptr()), v->size_ptr() ? 0 : v->capacity(), 0});
        x.setup = [v](GiantCopy& cp) { cp.setup(*v)->wait(); };
        x.fill = [v](GiantCopy& cp, int val) { cp.memset(*v, val)->wait(); };
        vm::trace("%s", x.what.c_str());
        return x;
    };
    int n = int(rng.range(2, 4));
    for (int i = 0; i < n; ++i) {
        BT t = rng.chance(500) ? BT::resizable : BT::fixed_size;
        unsigned cap = rng.chance(500) ? c : giant_capacity(rng, sizeof(T));
        if (cap == 0 && t == BT::resizable) cap = 1;
        Box& b = add(data::vector_buffer<T>(cap, g.up, t), t);
        g.setup(b);
        g.fill_in(b);
    }
    int steps = int(rng.range(2, 8));
    for (int s = 0; s < steps; ++s) {
        std::size_t i = rng.below(boxes.size()), j = rng.below(boxes.size());
        auto op = rng.below(10);
        if (op < 6) {
            if (i == j) continue;
            auto kind_of = rng.chance(500) ? vecmem::copy::type::unknown : vecmem::copy::type::device_to_device;
            g.copied(boxes[i], boxes[j], [&] { g.cp(bufs[i], bufs[j], kind_of)->wait(); }, true);
        } else if (op == 6) g.memset(boxes[i]);
        else if (op == 7) {
            unsigned k = g.cp.get_size(bufs[i]);
            vm::expect(k == boxes[i].rows[0].size, tag(), "the size of %s is reported as %u instead of %u", boxes[i].what.c_str(), k, boxes[i].rows[0].size);
        } else if (op == 8 && boxes.size() < 8) {
            Sparse before = g.mem;
            auto made = g.cp.to(static_cast<const data::vector_view<T>&>(bufs[i]), g.up);
            vm::expect(made.capacity() == boxes[i].rows[0].size && made.size_ptr() == nullptr, tag(), "a new copy of %u elements has %u", boxes[i].rows[0].size, unsigned(made.capacity()));
            Box& b = add(std::move(made), BT::fixed_size);
            std::size_t bytes = b.rows[0].cap * sizeof(T);
            if (bytes) before.put(b.rows[0].p, before.get(boxes[i].rows[0].p, bytes));
            g.same(before, {}, "a new copy");
            vm::count("copies_made");
        } else g.fill_in(boxes[i]);
    }
    vm::st().nontrivial = true;
}

template <typename T>
void jagged(Rng& rng) {
    Giant g(rng);
    using row = data::vector_view<T>;
    using buf_t = data::jagged_vector_buffer<T>;
    using view = data::jagged_vector_view<T>;
    struct Rows {
        std::vector<row> host;
        std::vector<std::pair<void*, std::size_t>> blocks;
    };
    std::deque<buf_t> bufs;
    std::deque<Rows> loose;
    std::deque<view> views;
    std::deque<Box> boxes;
    unsigned n = unsigned(rng.range(1, 6));
    std::vector<unsigned> caps;
    for (unsigned k = 0; k < n; ++k) caps.push_back(giant_capacity(rng, sizeof(T)));
    auto add = [&](const view& v, const char* what) -> Box& {
        views.push_back(v);
        auto* pv = &views.back();
        boxes.emplace_back();
        Box& x = boxes.back();
        x.what = std::string(what) + " jagged vector of";
        for (unsigned k = 0; k < n; ++k) {
            const row& r = v.host_ptr()[k];
            x.rows.push_back({reinterpret_cast<addr>(r.ptr()), sizeof(T), r.capacity(), reinterpret_cast<addr>(r.size_ptr()), r.size_ptr() ? 0 : r.capacity(), k});
            x.what += " " + std::to_string(r.capacity());
        }
        x.what += "x" + std::to_string(sizeof(T));
        x.setup = [pv](GiantCopy& cp) { cp.setup(*pv)->wait(); };
        x.fill = [pv](GiantCopy& cp, int val) { cp.memset(*pv, val)->wait(); };
        g.note_layout(&x, v.ptr(), n * sizeof(row));
        vm::trace("%s", x.what.c_str());
        return x;
    };
    int m = int(rng.range(2, 4));
    for (int i = 0; i < m; ++i) {
        BT t = rng.chance(500) ? BT::resizable : BT::fixed_size;
        auto cs = caps;
        if (rng.chance(300))
            for (auto& c : cs)
                if (c < 0xfffffff0u && rng.chance(500)) c += unsigned(rng.range(1, 5));
        if (rng.chance(150)) cs[rng.below(n)] = giant_capacity(rng, sizeof(T));
        if (rng.chance(600)) {
            bufs.emplace_back(cs, g.up, &g.hup, t);
            g.setup(add(bufs.back(), (std::string("contiguous ") + kind(t)).c_str()));
        } else {
            // Rows wherever.
            loose.emplace_back();
            auto& l = loose.back();
            unsigned* sizes = nullptr;
            auto block = [&](std::size_t bytes, std::size_t al) {
                bytes += 64;  // never next to each other
                void* p = g.up.allocate(bytes, al);
                l.blocks.push_back({p, bytes});
                return p;
            };
            if (t == BT::resizable) sizes = static_cast<unsigned*>(block(n * sizeof(unsigned), 16));
            for (unsigned k = 0; k < n; ++k) {
                T* p = cs[k] ? static_cast<T*>(block(cs[k] * sizeof(T), 16)) : nullptr;
                if (sizes) l.host.emplace_back(cs[k], sizes + k, p);
                else l.host.emplace_back(cs[k], p);
            }
            auto* dev = static_cast<row*>(block(n * sizeof(row), 16));
            g.setup(add(view(n, dev, l.host.data()), (std::string("scattered ") + kind(t)).c_str()));
        }
        g.fill_in(boxes.back());
    }
    int steps = int(rng.range(2, 7));
    for (int s = 0; s < steps; ++s) {
        std::size_t i = rng.below(boxes.size()), j = rng.below(boxes.size());
        auto op = rng.below(10);
        if (op < 6) {
            if (i == j) continue;
            auto kind_of = rng.chance(500) ? vecmem::copy::type::unknown : vecmem::copy::type::device_to_device;
            g.copied(boxes[i], boxes[j], [&] { g.cp(views[i], views[j], kind_of)->wait(); }, true);
        } else if (op == 6) g.memset(boxes[i]);
        else if (op == 7) {
            auto k = g.cp.get_sizes(views[i]);
            bool ok = k.size() == n;
            for (unsigned q = 0; ok && q < n; ++q) ok = k[q] == boxes[i].rows[q].size;
            vm::expect(ok, tag(), "the sizes of %s are reported wrong", boxes[i].what.c_str());
        } else if (op == 8 && boxes.size() < 8) {
            Sparse before = g.mem;
            bufs.push_back(g.cp.to(views[i], g.up, &g.hup));
            Box& b = add(bufs.back(), "copied");
            std::vector<std::pair<addr, std::size_t>> mask;
            mask.push_back({reinterpret_cast<addr>(bufs.back().ptr()), n * sizeof(row)});
            for (unsigned q = 0; q < n; ++q) {
                vm::expect(b.rows[q].cap == boxes[i].rows[q].size && !b.rows[q].size_at, tag(), "row %u of a new copy has %u elements instead of %u", q, b.rows[q].cap, boxes[i].rows[q].size);
                before.put(b.rows[q].p, before.get(boxes[i].rows[q].p, b.rows[q].cap * sizeof(T)));
            }
            g.gaps(b, mask);
            g.same(before, mask, "a new copy");
            vm::count("copies_made");
        } else g.fill_in(boxes[i]);
    }
    for (auto& l : loose)
        for (auto& [p, k] : l.blocks) g.up.deallocate(p, k, 16);
    vm::st().nontrivial = true;
}

template <typename S>
void soa_copies(Rng& rng) {
    Giant g(rng);
    std::deque<typename S::buffer> bufs;
    std::deque<Box> boxes;
    unsigned n = S::has_jagged ? unsigned(rng.range(1, 4)) : unsigned(rng.chance(500) ? rng.range((1u << 20) - 2, (1u << 20) + 4) : rng.range(500000, 2200000));
    std::vector<unsigned> caps;
    if (S::has_jagged)
        for (unsigned k = 0; k < n; ++k) caps.push_back(giant_capacity(rng, rng.chance(500) ? 8 : sizeof(Big)));
    auto describe = [&](std::size_t at, BT t) {
        auto& b = bufs[at];
        Box& x = boxes[at];
        x.what = std::string(kind(t)) + " <" + S::name() + "> of " + std::to_string(b.capacity());
        unsigned group = 0;
        const bool common = t == BT::resizable && !S::has_jagged;
        S::each([&](auto I) {
            using T = typename S::template V<I>::type;
            constexpr auto k = S::template V<I>::kind;
            auto& v = b.template get<I>();
            if constexpr (k == soa::SCALAR) x.rows.push_back({reinterpret_cast<addr>(v), sizeof(T), 1, 0, 1, 0});
            else if constexpr (k == soa::VECTOR)
                x.rows.push_back({reinterpret_cast<addr>(v.ptr()), sizeof(T), b.capacity(), common ? reinterpret_cast<addr>(b.size().ptr()) : 0, common ? 0 : b.capacity(), 0});
            else {
                for (unsigned q = 0; q < n; ++q) {
                    auto& r = v.host_ptr()[q];
                    x.rows.push_back({reinterpret_cast<addr>(r.ptr()), sizeof(T), r.capacity(), reinterpret_cast<addr>(r.size_ptr()), r.size_ptr() ? 0 : r.capacity(), ++group});
                    if (I == 0 || group <= n) x.what += " " + std::to_string(r.capacity());
                }
                g.note_layout(&x, v.ptr(), n * sizeof(*v.ptr()));
            }
        });
        auto* pb = &b;
        x.setup = [pb](GiantCopy& cp) { cp.setup(*pb)->wait(); };
        x.fill = [pb](GiantCopy& cp, int val) { cp.memset(*pb, val)->wait(); };
        vm::trace("%s", x.what.c_str());
    };
    int m = int(rng.range(2, 3));
    for (int i = 0; i < m; ++i) {
        BT t = rng.chance(500) ? BT::resizable : BT::fixed_size;
        auto cs = caps;
        unsigned k = n;
        if (rng.chance(250)) {
            if (!S::has_jagged) k += unsigned(rng.range(1, 3));
            for (auto& c : cs)
                if (c < 0xfffffff0u && rng.chance(500)) c += unsigned(rng.range(1, 5));
        }
        if constexpr (S::has_jagged) bufs.emplace_back(cs, g.up, &g.hup, t);
        else bufs.emplace_back(k, g.up, t);
        boxes.emplace_back();
        describe(bufs.size() - 1, t);
        g.setup(boxes.back());
        g.fill_in(boxes.back());
    }
    int steps = int(rng.range(2, 6));
    for (int s = 0; s < steps; ++s) {
        std::size_t i = rng.below(boxes.size()), j = rng.below(boxes.size());
        auto op = rng.below(10);
        if (op < 7) {
            if (i == j) continue;
            auto kind_of = rng.chance(500) ? vecmem::copy::type::unknown : vecmem::copy::type::device_to_device;
            g.copied(boxes[i], boxes[j], [&] { g.cp(bufs[i], bufs[j], kind_of)->wait(); }, false);
        } else if (op == 7) g.memset(boxes[i]);
        else if (op == 8 && !S::has_jagged) {
            unsigned k = g.cp.get_size(bufs[i]), want = boxes[i].rows[0].size;
            for (auto& r : boxes[i].rows)
                if (r.cap > 1) want = r.size;
            vm::expect(k == want, tag(), "the size of %s is reported as %u instead of %u", boxes[i].what.c_str(), k, want);
        } else g.fill_in(boxes[i]);
    }
    vm::st().nontrivial = true;
}
using namespace vecmem::edm::type;
using soa::Soa;

void flat_any(Rng& rng) {
    switch (rng.below(5)) {
        case 0: return flat<char>(rng);
        case 1: return flat<short>(rng);
        case 2: return flat<int>(rng);
        case 3: return flat<vm::Odd3>(rng);
        default: return rng.chance(500) ? flat<double>(rng) : flat<Big>(rng);
    }
}
void jagged_any(Rng& rng) {
    switch (rng.below(4)) {
        case 0: return jagged<char>(rng);
        case 1: return jagged<int>(rng);
        case 2: return jagged<vm::Odd3>(rng);
        default: return rng.chance(500) ? jagged<double>(rng) : jagged<Big>(rng);
    }
}
void soa_any(Rng& rng) {
    if (rng.chance(30)) {
        // Their creation costs time with the number of elements.
        if (rng.chance(500)) return soa_copies<Soa<vector<Big>, scalar<int>, vector<char>>>(rng);
        return soa_copies<Soa<vector<short>, vector<Big>>>(rng);
    }
    switch (rng.below(4)) {
        case 0: return soa_copies<Soa<jagged_vector<double>>>(rng);
        case 1: return soa_copies<Soa<vector<char>, jagged_vector<double>, scalar<float>, jagged_vector<vm::Odd3>>>(rng);
        case 2: return soa_copies<Soa<scalar<Big>, jagged_vector<Big>, vector<int>>>(rng);
        default: return soa_copies<Soa<jagged_vector<int>, jagged_vector<char>, vector<double>>>(rng);
    }
}
}  // namespace

VM_PROP(K01) { flat_any(rng); }
VM_PROP(K02) { jagged_any(rng); }
VM_PROP(K03) { soa_any(rng); }
VM_PROP(K04) {
    auto k = rng.below(3);
    k == 0 ? flat_any(rng) : k == 1 ? jagged_any(rng) : soa_any(rng);
}
VM_PROP(K06) {
    auto k = rng.below(3);
    k == 0 ? flat_any(rng) : k == 1 ? jagged_any(rng) : soa_any(rng);
}
VM_MAIN
