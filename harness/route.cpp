// M07-M10, M14: composite, debugging and instrumenting resources.
#include "stack.hpp"

#include <vecmem/containers/vector.hpp>
#include <vecmem/utils/memory_monitor.hpp>

using namespace vm;
using vecmem::memory_resource;

namespace {

// One record of what was observed below (or beside) the resource under test.
struct Rec {
    enum K { ALLOC, DEALLOC, DECIDE, PRED, PRE, POST, PREDEL } k;
    int who;
    bool ok;       // allocation served; predicate's answer
    void* p;
    std::size_t size, align;
    int chose = -1;
};
std::vector<Rec> g_log;

std::string show(const Rec& r) {
    static const char* n[] = {"alloc", "dealloc", "decide", "predicate", "pre-hook", "post-hook", "pre-dealloc-hook"};
    char b[160];
    std::snprintf(b, sizeof b, "%s@%d %zu/%zu %p%s", n[r.k], r.who, r.size, r.align, r.p, r.ok ? "" : " failed");
    return b;
}

// Several upstream resources drawing on one common set of addresses, so that
// an address released through one is soon handed out by another.
struct AddressPool {
    char* base = reinterpret_cast<char*>(std::uintptr_t(1) << 40);  // never dereferenced
    char* next = base;
    std::multimap<std::size_t, char*> free_;
    static std::size_t cls(std::size_t n) {
        std::size_t c = 64;
        while (c < n) c *= 2;
        return c;
    }
    char* take(std::size_t n, std::size_t align) {
        std::size_t c = cls(n > align ? n : align);
        auto it = free_.find(c);
        if (it != free_.end()) {
            char* p = it->second;
            free_.erase(it);
            count("address_reused");
            return p;
        }
        auto v = (reinterpret_cast<std::uintptr_t>(next) + c - 1) / c * c;
        next = reinterpret_cast<char*>(v + c);
        return reinterpret_cast<char*>(v);
    }
    void give(char* p, std::size_t n, std::size_t align) { free_.emplace(cls(n > align ? n : align), p); }
};

class Leaf : public memory_resource {
public:
    int id;
    AddressPool& pool;
    u64 salt = 0;
    unsigned fail_of_8 = 0;  // eighths of requests that fail
    struct B {
        std::size_t size, align;
    };
    std::map<void*, B> live;
    Leaf(int i, AddressPool& p) : id(i), pool(p) {}
    bool fails(std::size_t n, std::size_t a) const { return mix(salt + n * 131 + a) % 8 < fail_of_8; }

protected:
    void* do_allocate(std::size_t n, std::size_t a) override {
        tick();
        if (fails(n, a)) {
            g_log.push_back({Rec::ALLOC, id, false, nullptr, n, a});
            throw injected_oom();
        }
        char* p = pool.take(n, a);
        live[p] = {n, a};
        g_log.push_back({Rec::ALLOC, id, true, p, n, a});
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override {
        tick();
        g_log.push_back({Rec::DEALLOC, id, true, p, n, a});
        auto it = live.find(p);
        if (it != live.end()) {
            pool.give(static_cast<char*>(p), it->second.size, it->second.align);
            live.erase(it);
        }
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};

// ---------------------------------------------------------------- M07

struct Shape {  // model of one resource in the tree
    enum K { LEAF, IDENT, COND, CHOICE, COAL, TERM, SYNC } k;
    int id;
    std::vector<int> kids;
    memory_resource* mr = nullptr;
    u64 salt = 0;
    bool stateful = false;
    unsigned accept_of_8 = 8;
};

struct Tree {
    AddressPool pool;
    std::vector<std::unique_ptr<Leaf>> leaves;
    std::vector<std::unique_ptr<Shape>> shapes;
    std::vector<std::unique_ptr<Node>> nodes;
    std::map<int, Node*> node_of;
    std::string desc;

    ~Tree() {
        for (auto it = nodes.rbegin(); it != nodes.rend(); ++it) (*it)->destroy();
    }
    template <typename T, typename... A>
    memory_resource* push(int id, A&&... a) {
        nodes.push_back(std::make_unique<Holder<T>>(std::make_unique<T>(std::forward<A>(a)...)));
        node_of[id] = nodes.back().get();
        return nodes.back()->get();
    }
    int add(Shape::K k) {
        shapes.push_back(std::make_unique<Shape>());
        shapes.back()->k = k;
        shapes.back()->id = int(shapes.size()) - 1;
        return shapes.back()->id;
    }
    template <typename T>
    void make(int id) {
        Shape* s = shapes[std::size_t(id)].get();
        if constexpr (std::is_same_v<T, vecmem::choice_memory_resource>)
            s->mr = push<T>(id, decision(s));
        else if constexpr (std::is_same_v<T, vecmem::conditional_memory_resource>)
            s->mr = push<T>(id, *shapes[std::size_t(s->kids[0])]->mr, predicate(s));
        else if constexpr (std::is_same_v<T, vecmem::coalescing_memory_resource>) {
            std::vector<std::reference_wrapper<memory_resource>> v;
            for (int c : s->kids) v.push_back(*shapes[std::size_t(c)]->mr);
            s->mr = push<T>(id, std::move(v));
        } else if constexpr (std::is_same_v<T, vecmem::terminal_memory_resource>)
            s->mr = push<T>(id);
        else
            s->mr = push<T>(id, *shapes[std::size_t(s->kids[0])]->mr);
    }
    std::function<memory_resource&(std::size_t, std::size_t)> decision(Shape* s) {
        auto n = std::make_shared<u64>(0);
        return [this, s, n](std::size_t sz, std::size_t al) -> memory_resource& {
            std::size_t c = mix(s->salt + (s->stateful ? ++*n * 7919 : sz * 31 + al)) % s->kids.size();
            g_log.push_back({Rec::DECIDE, s->id, true, nullptr, sz, al, int(c)});
            return *shapes[std::size_t(s->kids[c])]->mr;
        };
    }
    std::function<bool(std::size_t, std::size_t)> predicate(Shape* s) {
        return [s](std::size_t sz, std::size_t al) {
            bool ok = mix(s->salt + sz * 131 + al * 7) % 8 < s->accept_of_8;
            g_log.push_back({Rec::PRED, s->id, ok, nullptr, sz, al});
            return ok;
        };
    }
    int build(Rng& rng, int depth) {
        if (depth == 0 || rng.chance(150)) {
            if (rng.chance(60)) {
                int id = add(Shape::TERM);
                desc += "term";
                if (rng.chance(500)) {
                    make<vecmem::terminal_memory_resource>(id);
                } else {
                    Leaf& l = *leaves[0];
                    shapes[std::size_t(id)]->mr = push<vecmem::terminal_memory_resource>(id, l);
                }
                return id;
            }
            int id = add(Shape::LEAF);
            int l = int(rng.below(leaves.size()));
            shapes[std::size_t(id)]->kids = {l};
            shapes[std::size_t(id)]->mr = leaves[std::size_t(l)].get();
            desc += "L" + std::to_string(l);
            return id;
        }
        unsigned r = unsigned(rng.below(10));
        Shape::K k = r < 4 ? Shape::COAL : r < 7 ? Shape::CHOICE : r < 9 ? Shape::COND : rng.chance(700) ? Shape::IDENT : Shape::SYNC;
        std::vector<int> kids;
        unsigned n = k == Shape::COAL || k == Shape::CHOICE ? unsigned(rng.range(1, 4)) : 1;
        if (k == Shape::COAL && rng.chance(40)) n = 0;
        static const char* nm[] = {"leaf", "ident", "cond", "choice", "coal", "term", "sync"};
        desc += std::string(nm[k]) + "(";
        for (unsigned i = 0; i < n; ++i) {
            if (i) desc += ",";
            kids.push_back(build(rng, depth - 1));
        }
        desc += ")";
        int id = add(k);
        Shape* s = shapes[std::size_t(id)].get();
        s->kids = kids;
        s->salt = rng.next();
        s->stateful = rng.chance(400);
        s->accept_of_8 = unsigned(rng.pick({0, 4, 6, 7, 8}));
        switch (k) {
            case Shape::COAL: make<vecmem::coalescing_memory_resource>(id); break;
            case Shape::CHOICE: make<vecmem::choice_memory_resource>(id); break;
            case Shape::COND: make<vecmem::conditional_memory_resource>(id); break;
            case Shape::IDENT: make<vecmem::identity_memory_resource>(id); break;
            default: make<vecmem::synchronized_memory_resource>(id); break;
        }
        return id;
    }

    // Follow the request through the model, consuming the observed records.
    // Returns the record index of the successful upstream allocation, or -1.
    int follow(int id, std::size_t& at, std::size_t n, std::size_t a) {
        Shape& s = *shapes[std::size_t(id)];
        auto bad = [&](const char* what) {
            expect(false, "M07", "request %zu/%zu: %s at %s (resource %d, %s)", n, a, what,
                   at < g_log.size() ? show(g_log[at]).c_str() : "the end of the traffic", id, desc.c_str());
            throw std::runtime_error("wrong routing");
        };
        switch (s.k) {
            case Shape::LEAF: {
                if (at >= g_log.size() || g_log[at].k != Rec::ALLOC) bad("expected an upstream request");
                if (g_log[at].who != s.kids[0]) bad("request went to another upstream than configured");
                if (g_log[at].size != n || g_log[at].align != a) bad("size or alignment changed on the way");
                ++at;
                return g_log[at - 1].ok ? int(at - 1) : -1;
            }
            case Shape::TERM: return -1;
            case Shape::IDENT:
            case Shape::SYNC: return follow(s.kids[0], at, n, a);
            case Shape::COND: {
                if (at >= g_log.size() || g_log[at].k != Rec::PRED || g_log[at].who != id) bad("predicate was not asked");
                bool ok = false;
                while (at < g_log.size() && g_log[at].k == Rec::PRED && g_log[at].who == id) {
                    if (g_log[at].size != n || g_log[at].align != a) bad("predicate was asked about something else");
                    ok = g_log[at].ok;
                    ++at;
                }
                count(ok ? "predicate_accepts" : "predicate_refuses");
                return ok ? follow(s.kids[0], at, n, a) : -1;
            }
            case Shape::CHOICE: {
                if (at >= g_log.size() || g_log[at].k != Rec::DECIDE || g_log[at].who != id) bad("decision function was not asked");
                int c = -1;
                while (at < g_log.size() && g_log[at].k == Rec::DECIDE && g_log[at].who == id) {
                    if (g_log[at].size != n || g_log[at].align != a) bad("decision function was asked about something else");
                    c = g_log[at].chose;
                    ++at;
                }
                return follow(s.kids[std::size_t(c)], at, n, a);
            }
            case Shape::COAL: {
                bool fell = false;
                for (int c : s.kids) {
                    int r = follow(c, at, n, a);
                    if (r >= 0) {
                        if (fell) count("fallbacks");
                        return r;
                    }
                    fell = true;
                }
                return -1;
            }
        }
        return -1;
    }
};

}  // namespace

VM_PROP(M07) {
    g_log.clear();
    Tree t;
    unsigned nl = unsigned(rng.range(1, 5));
    for (unsigned i = 0; i < nl; ++i) {
        t.leaves.push_back(std::make_unique<Leaf>(int(i), t.pool));
        t.leaves.back()->salt = rng.next();
        t.leaves.back()->fail_of_8 = unsigned(rng.pick({0, 0, 2, 4, 6, 8}));
    }
    int depth = int(rng.range(1, 3));
    int top = -1;
    do {
        t.desc.clear();
        top = t.build(rng, depth);
    } while (!t.node_of.count(top));
    trace("tree %s over %u upstreams", t.desc.c_str(), nl);
    struct Blk {
        void* p;
        std::size_t n, a;
        int leaf;
    };
    std::vector<Blk> live;
    unsigned ops = unsigned(rng.range(20, 160));
    for (unsigned i = 0; i < ops; ++i) {
        unsigned r = unsigned(rng.below(100));
        memory_resource* mr = t.shapes[std::size_t(top)]->mr;
        if (r < 50) {
            std::size_t n = rng.chance(500) ? rng.range(1, 64) : random_size(rng), a = random_align(rng);
            g_log.clear();
            void* p = nullptr;
            bool failed = false;
            trace("allocate %zu/%zu", n, a);
            try {
                p = launder_null(mr->allocate(n, a));
            } catch (std::bad_alloc&) {
                failed = true;
            }
            std::size_t at = 0;
            int served = t.follow(top, at, n, a);
            expect(at == g_log.size(), "M07", "request %zu/%zu: surplus traffic %s (%s)", n, a, at < g_log.size() ? show(g_log[at]).c_str() : "", t.desc.c_str());
            if (served < 0) {
                expect(failed, "M07", "request %zu/%zu succeeded though no upstream served it (%s)", n, a, t.desc.c_str());
                count("unserved");
            } else {
                auto& g = g_log[std::size_t(served)];
                expect(!failed, "M07", "request %zu/%zu failed though upstream %d served it (%s)", n, a, g.who, t.desc.c_str());
                expect(p == g.p, "M07", "client got %p for the block %p of upstream %d (%s)", p, g.p, g.who, t.desc.c_str());
                live.push_back({p, n, a, g.who});
                count("served");
            }
            count("routed");
        } else if (r < 92) {
            if (live.empty()) continue;
            std::size_t k = rng.chance(500) ? live.size() - 1 : rng.below(live.size());
            Blk b = live[k];
            live.erase(live.begin() + long(k));
            g_log.clear();
            trace("release %zu/%zu of upstream %d", b.n, b.a, b.leaf);
            mr->deallocate(b.p, b.n, b.a);
            unsigned seen = 0;
            for (auto& g : g_log) {
                if (g.k == Rec::DECIDE || g.k == Rec::PRED) continue;
                ++seen;
                expect(g.k == Rec::DEALLOC && g.who == b.leaf, "M07", "release of a block of upstream %d caused %s (%s)", b.leaf, show(g).c_str(), t.desc.c_str());
                expect(g.p == b.p && g.size == b.n && g.align == b.a, "M07", "release of %p %zu/%zu arrived as %s (%s)", b.p, b.n, b.a, show(g).c_str(),
                       t.desc.c_str());
            }
            expect(seen == 1, "M07", "one release caused %u upstream calls (%s)", seen, t.desc.c_str());
            count("released");
        } else if (r < 96) {
            for (auto& l : t.leaves) {
                l->salt = rng.next();
                l->fail_of_8 = unsigned(rng.pick({0, 0, 2, 4, 6, 8}));
            }
            trace("new failure pattern");
        } else {
            Node* n = t.node_of[top];
            if (rng.chance(400)) {
                // into another resource of the same kind, built with other settings
                Shape& s = *t.shapes[std::size_t(top)];
                std::unique_ptr<Node> o;
                Leaf& l = *t.leaves[0];
                switch (s.k) {
                    case Shape::COAL:
                        o = std::make_unique<Holder<vecmem::coalescing_memory_resource>>(std::make_unique<vecmem::coalescing_memory_resource>(
                            std::vector<std::reference_wrapper<memory_resource>>{l}));
                        break;
                    case Shape::CHOICE:
                        o = std::make_unique<Holder<vecmem::choice_memory_resource>>(
                            std::make_unique<vecmem::choice_memory_resource>([&l](std::size_t, std::size_t) -> memory_resource& { return l; }));
                        break;
                    case Shape::COND:
                        o = std::make_unique<Holder<vecmem::conditional_memory_resource>>(
                            std::make_unique<vecmem::conditional_memory_resource>(l, [](std::size_t, std::size_t) { return false; }));
                        break;
                    default: break;
                }
                if (o && o->move_assign(*n)) {
                    trace("move assign the top");
                    for (auto& x : t.nodes)
                        if (x.get() == n) {
                            x->destroy();
                            x = std::move(o);
                            t.node_of[top] = x.get();
                            s.mr = x->get();
                            break;
                        }
                    count("moves");
                }
            } else if (n->move_construct()) {
                trace("move construct the top");
                t.shapes[std::size_t(top)]->mr = n->get();
                count("moves");
            }
        }
    }
    for (auto& b : live) {
        g_log.clear();
        t.shapes[std::size_t(top)]->mr->deallocate(b.p, b.n, b.a);
        unsigned seen = 0;
        for (auto& g : g_log) seen += g.k == Rec::DEALLOC && g.who == b.leaf && g.p == b.p && g.size == b.n && g.align == b.a;
        expect(seen == 1, "M07", "final release of %p not forwarded to upstream %d (%s)", b.p, b.leaf, t.desc.c_str());
    }
    st().nontrivial = ops > 30;
}

// ---------------------------------------------------------------- M08

namespace {
class Scripted : public memory_resource {
public:
    void* next = nullptr;
    bool fail = false;
    unsigned allocs = 0, frees = 0;
    void* last_p = nullptr;
    std::size_t last_n = 0, last_a = 0;

protected:
    void* do_allocate(std::size_t n, std::size_t a) override {
        ++allocs;
        last_n = n, last_a = a;
        if (fail) throw injected_oom();
        return next;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override {
        ++frees;
        last_p = p, last_n = n, last_a = a;
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
}  // namespace

VM_PROP(M08) {
    Scripted up;
    auto dbg = std::make_unique<vecmem::debug_memory_resource>(up);
    struct B {
        std::size_t n, a;
    };
    std::map<char*, B> live;
    std::vector<std::pair<char*, B>> gone;  // released or rejected earlier
    char* const lo = reinterpret_cast<char*>(std::uintptr_t(1) << 40);
    const std::size_t span = rng.pick({std::size_t(2000), std::size_t(20000), std::size_t(1) << 20});
    unsigned ops = unsigned(rng.range(20, st().thorough ? 400 : 200));
    auto any_live = [&] {
        auto it = live.begin();
        std::advance(it, long(rng.below(live.size())));
        return it;
    };
    auto overlaps = [&](char* p, std::size_t n) {
        for (auto& [q, b] : live)
            if (q < p + n && p < q + b.n) return true;
        return false;
    };
    auto near = [&](std::size_t n) -> char* {  // an address that makes things interesting
        if (live.empty() || rng.chance(150)) return lo + rng.below(span);
        auto it = any_live();
        char* q = it->first;
        std::size_t m = it->second.n;
        switch (rng.below(9)) {
            case 0: return q + m;                  // directly behind
            case 1: return q - n;                  // directly before
            case 2: return q + m - 1;              // last byte shared
            case 3: return q - n + 1;              // first byte shared
            case 4: return q;                      // same address
            case 5: return q + rng.below(m);       // inside
            case 6: return q - rng.below(n);       // around
            case 7: return q + m + rng.below(40);  // a bit behind
            default: return gone.empty() ? q + m : gone[rng.below(gone.size())].first;
        }
    };
    for (unsigned i = 0; i < ops; ++i) {
        unsigned r = unsigned(rng.below(100));
        if (r < 42) {
            std::size_t n = rng.chance(300) ? 1 : rng.chance(700) ? rng.range(1, 100) : rng.range(1, 5000);
            std::size_t a = std::size_t(1) << rng.below(7);
            char* p = near(n);
            if (rng.chance(500))
                for (int k = 0; k < 20 && overlaps(p, n); ++k) p = near(n);
            bool ov = overlaps(p, n);
            up.next = p;
            up.fail = rng.chance(50);
            up.allocs = up.frees = 0;
            trace("allocate %zu/%zu at +%td%s%s", n, a, p - lo, ov ? " (overlapping)" : "", up.fail ? " (upstream fails)" : "");
            bool logic = false, oom = false;
            void* got = nullptr;
            try {
                got = dbg->allocate(n, a);
            } catch (std::logic_error&) {
                logic = true;
            } catch (std::bad_alloc&) {
                oom = true;
            }
            if (up.fail) {
                expect(oom && !logic, "M08", "an upstream failure was not passed on as such");
                up.fail = false;
                count("upstream_failures");
                continue;
            }
            expect(up.allocs == 1 && up.last_n == n && up.last_a == a, "M08", "request %zu/%zu arrived as %u request(s), last %zu/%zu", n, a, up.allocs,
                   up.last_n, up.last_a);
            if (ov) {
                expect(logic, "M08", "block [+%td,+%zu) overlapping a live block was accepted", p - lo, n);
                gone.push_back({p, {n, a}});
                count("overlaps_reported");
            } else {
                expect(!logic && !oom, "M08", "false alarm for block [+%td,+%zu), which overlaps no live block", p - lo, n);
                expect(got == p, "M08", "client got another block than the upstream supplied");
                live[p] = {n, a};
                count("accepted");
            }
        } else if (r < 68) {
            if (live.empty()) continue;
            auto it = any_live();
            char* p = it->first;
            B b = it->second;
            up.allocs = up.frees = 0;
            trace("release +%td %zu/%zu", p - lo, b.n, b.a);
            try {
                dbg->deallocate(p, b.n, b.a);
            } catch (std::logic_error& e) {
                expect(false, "M08", "false alarm for a correct release: %s", e.what());
            }
            expect(up.frees == 1 && up.last_p == p && up.last_n == b.n && up.last_a == b.a, "M08", "correct release arrived upstream %u time(s) as %zu/%zu",
                   up.frees, up.last_n, up.last_a);
            live.erase(it);
            gone.push_back({p, b});
            count("correct_releases");
        } else if (r < 97) {
            // a wrong release
            char* p = lo + rng.below(span);
            B b{rng.range(1, 100), std::size_t(1) << rng.below(6)};
            const char* what = "unknown";
            if (!live.empty() && rng.chance(850)) {
                auto it = any_live();
                p = it->first;
                b = it->second;
                switch (rng.below(8)) {
                    case 0: b.n += 1; what = "size + 1"; break;
                    case 1: b.n -= 1; what = "size - 1"; break;
                    case 2: b.a *= 2; what = "alignment * 2"; break;
                    case 3: b.a = b.a > 1 ? b.a / 2 : 4; what = "alignment / 2"; break;
                    case 4: p += rng.range(1, b.n); what = "interior or end"; break;
                    case 5: p -= rng.range(1, 16); what = "before"; break;
                    case 6: {
                        auto j = any_live();
                        b = j->second;
                        what = "another block's size";
                        break;
                    }
                    default: {
                        std::size_t t = b.n;
                        b.n = b.a, b.a = t;
                        what = "swapped arguments";
                        break;
                    }
                }
            } else if (!gone.empty() && rng.chance(700)) {
                auto& g = gone[rng.below(gone.size())];
                p = g.first;
                b = g.second;
                what = "released before";
            }
            auto it = live.find(p);
            if (it != live.end() && it->second.n == b.n && it->second.a == b.a) continue;  // correct after all
            up.allocs = up.frees = 0;
            trace("wrong release (%s) +%td %zu/%zu", what, p - lo, b.n, b.a);
            bool logic = false;
            try {
                dbg->deallocate(p, b.n, b.a);
            } catch (std::logic_error&) {
                logic = true;
            }
            expect(logic, "M08", "wrong release (%s) of +%td %zu/%zu was not reported", what, p - lo, b.n, b.a);
            expect(up.frees == 0 && up.allocs == 0, "M08", "rejected release (%s) reached the upstream", what);
            count("misuse_reported");
            count(std::string("misuse: ") + what);
        } else {
            trace("move construct");
            auto n = std::make_unique<vecmem::debug_memory_resource>(std::move(*dbg));
            dbg = std::move(n);
            count("moves");
        }
    }
    // Whatever was rejected, the record of live blocks must still be right.
    for (auto& [p, b] : live) {
        up.frees = 0;
        try {
            dbg->deallocate(p, b.n, b.a);
        } catch (std::logic_error& e) {
            expect(false, "M08", "false alarm for a correct release at the end: %s", e.what());
        }
        expect(up.frees == 1, "M08", "correct release at the end did not reach the upstream");
        bool logic = false;
        try {
            dbg->deallocate(p, b.n, b.a);
        } catch (std::logic_error&) {
            logic = true;
        }
        expect(logic && up.frees == 1, "M08", "second release of +%td not reported", p - lo);
    }
    st().nontrivial = ops > 30;
}

// ---------------------------------------------------------------- M09, M10

namespace {
struct Seq : memory_resource {
    AddressPool pool;
    bool fail = false;
    std::map<void*, std::pair<std::size_t, std::size_t>> live;

protected:
    void* do_allocate(std::size_t n, std::size_t a) override {
        if (fail) {
            g_log.push_back({Rec::ALLOC, 0, false, nullptr, n, a});
            throw injected_oom();
        }
        void* p = pool.take(n, a);
        live[p] = {n, a};
        g_log.push_back({Rec::ALLOC, 0, true, p, n, a});
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override {
        g_log.push_back({Rec::DEALLOC, 0, true, p, n, a});
        auto it = live.find(p);
        if (it != live.end()) {
            pool.give(static_cast<char*>(p), it->second.first, it->second.second);
            live.erase(it);
        }
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
bool same(const Rec& a, const Rec& b) {
    return a.k == b.k && a.who == b.who && a.ok == b.ok && a.p == b.p && a.size == b.size && a.align == b.align;
}
std::size_t big_or_random(Rng& rng) {
    if (rng.chance(100)) return rng.range(1, std::size_t(1) << 36);
    return random_size(rng);
}
}  // namespace

VM_PROP(M09) {
    using IMR = vecmem::instrumenting_memory_resource;
    Seq up;
    auto mr = std::make_unique<IMR>(up);
    int npre = 0, npost = 0, npredel = 0;
    const int most = rng.chance(50) ? 60 : 12;
    std::vector<Rec> model;  // the events expected in the log
    std::vector<std::pair<void*, std::pair<std::size_t, std::size_t>>> live;
    unsigned ops = unsigned(rng.range(20, 150));
    for (unsigned i = 0; i < ops; ++i) {
        unsigned r = unsigned(rng.below(100));
        if (r < 10) {
            int w = int(rng.below(3));
            if (npre + npost + npredel > most) continue;
            trace("add hook of kind %d", w);
            if (w == 0) {
                int id = npre++;
                mr->add_pre_allocate_hook([id](std::size_t n, std::size_t a) { g_log.push_back({Rec::PRE, id, true, nullptr, n, a}); });
            } else if (w == 1) {
                int id = npost++;
                mr->add_post_allocate_hook([id](std::size_t n, std::size_t a, void* p) { g_log.push_back({Rec::POST, id, true, p, n, a}); });
            } else {
                int id = npredel++;
                mr->add_pre_deallocate_hook([id](void* p, std::size_t n, std::size_t a) { g_log.push_back({Rec::PREDEL, id, true, p, n, a}); });
            }
            count("hooks");
            continue;
        }
        if (r < 13) {
            trace("move construct");
            auto n = std::make_unique<IMR>(std::move(*mr));
            mr = std::move(n);
            count("moves");
            continue;
        }
        std::vector<Rec> want;
        g_log.clear();
        if (r < 62 || live.empty()) {
            std::size_t n = big_or_random(rng), a = random_align(rng);
            up.fail = rng.chance(200);
            trace("allocate %zu/%zu%s", n, a, up.fail ? " (upstream fails)" : "");
            void* p = nullptr;
            bool oom = false;
            try {
                p = launder_null(mr->allocate(n, a));
            } catch (std::bad_alloc&) {
                oom = true;
            }
            void* q = nullptr;
            for (auto& g : g_log)
                if (g.k == Rec::ALLOC && g.ok) q = g.p;
            expect(oom == up.fail, "M09", "request %zu/%zu %s although the upstream %s", n, a, oom ? "failed" : "succeeded", up.fail ? "failed" : "succeeded");
            if (!up.fail) expect(p == q, "M09", "client got %p, upstream supplied %p", p, q);
            for (int h = 0; h < npre; ++h) want.push_back({Rec::PRE, h, true, nullptr, n, a});
            want.push_back({Rec::ALLOC, 0, !up.fail, q, n, a});
            for (int h = 0; h < npost; ++h) want.push_back({Rec::POST, h, true, q, n, a});
            model.push_back({Rec::ALLOC, 0, true, q, n, a});
            if (!up.fail) live.push_back({p, {n, a}});
            count(up.fail ? "failed_requests" : "served_requests");
        } else {
            std::size_t k = rng.below(live.size());
            auto [p, na] = live[k];
            live.erase(live.begin() + long(k));
            trace("release %zu/%zu", na.first, na.second);
            mr->deallocate(p, na.first, na.second);
            for (int h = 0; h < npredel; ++h) want.push_back({Rec::PREDEL, h, true, p, na.first, na.second});
            want.push_back({Rec::DEALLOC, 0, true, p, na.first, na.second});
            model.push_back({Rec::DEALLOC, 0, true, p, na.first, na.second});
            count("releases");
        }
        std::size_t bad = 0;
        while (bad < want.size() && bad < g_log.size() && same(want[bad], g_log[bad])) ++bad;
        if (bad < want.size() || bad < g_log.size())
            expect(false, "M09", "step %zu of one request: observed %s, expected %s", bad, bad < g_log.size() ? show(g_log[bad]).c_str() : "nothing",
                   bad < want.size() ? show(want[bad]).c_str() : "nothing");
        // the event log, in full now and then
        auto& ev = mr->get_events();
        expect(ev.size() == model.size(), "M09", "%zu events recorded for %zu requests", ev.size(), model.size());
        std::size_t from = rng.chance(100) ? 0 : model.size() - 1;
        for (std::size_t e = from; e < model.size(); ++e) {
            bool alloc = ev[e].m_type == IMR::memory_event::type::ALLOCATION;
            expect(alloc == (model[e].k == Rec::ALLOC) && ev[e].m_size == model[e].size && ev[e].m_align == model[e].align && ev[e].m_ptr == model[e].p, "M09",
                   "event %zu records %s %zu/%zu %p, the request was %s", e, alloc ? "alloc" : "dealloc", ev[e].m_size, ev[e].m_align, ev[e].m_ptr,
                   show(model[e]).c_str());
            count("events_checked");
        }
    }
    st().nontrivial = ops > 30;
}

VM_PROP(M10) {
    Seq up;
    vecmem::instrumenting_memory_resource mr(up);
    struct M {
        std::unique_ptr<vecmem::memory_monitor> m;
        u64 total = 0, out = 0, n = 0, peak = 0;
    };
    std::vector<M> mons;
    std::vector<std::pair<void*, std::pair<std::size_t, std::size_t>>> live;
    auto check = [&] {
        for (auto& m : mons) {
            expect(m.m->total_allocation() == m.total, "M10", "total is %zu, %llu bytes were allocated", m.m->total_allocation(), (unsigned long long)m.total);
            expect(m.m->outstanding_allocation() == m.out, "M10", "outstanding is %zu, should be %llu", m.m->outstanding_allocation(), (unsigned long long)m.out);
            expect(m.m->maximal_allocation() == m.peak, "M10", "maximum is %zu, should be %llu", m.m->maximal_allocation(), (unsigned long long)m.peak);
            if (m.n == 0)
                expect(m.m->average_allocation() == 0, "M10", "average without any allocation is %zu", m.m->average_allocation());
            else {
                double avg = double(m.total) / double(m.n), got = double(m.m->average_allocation());
                expect(got >= avg - 0.5001 - avg * 1e-12 && got <= avg + 0.5001 + avg * 1e-12, "M10", "average is %.0f, should be %.3f", got, avg);
            }
            count("statistics_checked");
        }
    };
    unsigned ops = unsigned(rng.range(10, 200));
    bool small = rng.chance(500);
    bool longer = rng.chance(4);  // more requests than 16 bits count
    for (unsigned i = 0; i < ops; ++i) {
        unsigned r = unsigned(rng.below(100));
        if (longer && i > ops / 2 && !mons.empty()) {
            longer = false;
            u64 k = rng.range(66000, 70000);
            trace("%llu requests, each released at once", (unsigned long long)k);
            up.fail = false;
            while (k--) {
                std::size_t n = rng.range(1, 9);
                void* p = mr.allocate(n, 8);
                for (auto& m : mons) m.total += n, ++m.n, m.peak = std::max(m.peak, m.out + n);
                mr.deallocate(p, n, 8);
            }
            check();
            count("long_histories");
        }
        if (live.empty() && mons.size() < 3 && (r < 20 || mons.empty())) {
            // monitoring starts while nothing is outstanding
            mons.push_back({});
            mons.back().m = std::make_unique<vecmem::memory_monitor>(mr);
            trace("attach monitor %zu", mons.size());
            check();
            continue;
        }
        if (r < 55 || live.empty()) {
            std::size_t n = small ? rng.range(1, 9) : big_or_random(rng), a = random_align(rng);
            up.fail = rng.chance(250);
            trace("allocate %zu/%zu%s", n, a, up.fail ? " (fails)" : "");
            try {
                void* p = mr.allocate(n, a);
                live.push_back({p, {n, a}});
                for (auto& m : mons) {
                    m.total += n, m.out += n, ++m.n;
                    m.peak = std::max(m.peak, m.out);
                }
                count("served_requests");
            } catch (std::bad_alloc&) {
                count("failed_requests");
            }
        } else {
            unsigned k = rng.chance(100) ? unsigned(live.size()) : 1;
            while (k-- && !live.empty()) {
                std::size_t x = rng.below(live.size());
                auto [p, na] = live[x];
                live.erase(live.begin() + long(x));
                trace("release %zu", na.first);
                mr.deallocate(p, na.first, na.second);
                for (auto& m : mons) m.out -= na.first;
                count("releases");
            }
        }
        check();
    }
    for (auto& [p, na] : live) {
        mr.deallocate(p, na.first, na.second);
        for (auto& m : mons) m.out -= na.first;
    }
    check();
    st().nontrivial = ops > 15;
}

// ---------------------------------------------------------------- M14

namespace {
struct Eq {  // model of a resource for equality
    Kind kind;
    int id;
    int below;  // index of upstream, or -1
    bool host = false, term = false, leaf = false;
};
bool model_equal(const std::vector<Eq>& v, int a, int b) {
    if (a == b) return true;
    const Eq &x = v[std::size_t(a)], &y = v[std::size_t(b)];
    if (x.leaf) return false;
    if (x.host) return y.host;
    if (x.term) return y.term;
    if (x.kind == IDENT && !x.host && !x.term) return !y.leaf && !y.host && !y.term && y.kind == IDENT && model_equal(v, x.below, y.below);
    if (x.kind == SYNC) {
        if (!y.leaf && !y.host && !y.term && y.kind == SYNC) return model_equal(v, x.below, y.below);
        return model_equal(v, x.below, b);
    }
    return false;
}
}  // namespace

VM_PROP(M14, "M03") {
    std::vector<std::unique_ptr<Upstream>> ups;
    std::vector<std::unique_ptr<Node>> nodes;
    std::vector<Eq> eq;
    std::vector<memory_resource*> mr;
    std::vector<std::string> names;
    auto push_node = [&](auto holder, Eq e, std::string n) {
        nodes.push_back(std::move(holder));
        mr.push_back(nodes.back()->get());
        eq.push_back(e);
        names.push_back(std::move(n));
    };
    unsigned nu = unsigned(rng.range(1, 3));
    for (unsigned i = 0; i < nu; ++i) {
        ups.push_back(std::make_unique<Upstream>(rng.next(), Upstream::MALLOC, "up"));
        mr.push_back(ups.back().get());
        eq.push_back({NKINDS, int(i), -1, false, false, true});
        names.push_back("up" + std::to_string(i));
    }
    unsigned n = unsigned(rng.range(3, 12));
    for (unsigned i = 0; i < n; ++i) {
        int b = int(rng.below(mr.size()));
        memory_resource& u = *mr[std::size_t(b)];
        std::string un = names[std::size_t(b)];
        bool term_below = eq[std::size_t(b)].term;
        int what = int(rng.below(16));
        auto mk = [&](auto* tag, auto&&... a) {
            using T = std::remove_pointer_t<decltype(tag)>;
            return std::make_unique<Holder<T>>(std::make_unique<T>(std::forward<decltype(a)>(a)...));
        };
        auto any_oom = [&](std::size_t, std::size_t) { return true; };
        (void)term_below;
        try {
            switch (what) {
                case 0: push_node(mk((vecmem::host_memory_resource*)nullptr), {NKINDS, 0, -1, true, false, false}, "host"); break;
                case 1: push_node(mk((vecmem::terminal_memory_resource*)nullptr), {NKINDS, 0, -1, false, true, false}, "term"); break;
                case 2: push_node(mk((vecmem::terminal_memory_resource*)nullptr, u), {NKINDS, 0, -1, false, true, false}, "term"); break;
                case 3: case 4: case 5: push_node(mk((vecmem::identity_memory_resource*)nullptr, u), {IDENT, 0, b}, "ident(" + un + ")"); break;
                case 6: case 7: case 8: push_node(mk((vecmem::synchronized_memory_resource*)nullptr, u), {SYNC, 0, b}, "sync(" + un + ")"); break;
                case 9: push_node(mk((vecmem::arena_memory_resource*)nullptr, u, std::size_t(1024), std::size_t(1) << 30), {ARENA, 0, b}, "arena(" + un + ")"); break;
                case 10: push_node(mk((vecmem::binary_page_memory_resource*)nullptr, u), {BINARY, 0, b}, "binary(" + un + ")"); break;
                case 11: push_node(mk((vecmem::pool_memory_resource*)nullptr, u), {POOL, 0, b}, "pool(" + un + ")"); break;
                case 12: push_node(mk((vecmem::instrumenting_memory_resource*)nullptr, u), {INSTR, 0, b}, "instr(" + un + ")"); break;
                case 13: push_node(mk((vecmem::debug_memory_resource*)nullptr, u), {DEBUG, 0, b}, "debug(" + un + ")"); break;
                case 14: push_node(mk((vecmem::conditional_memory_resource*)nullptr, u, any_oom), {COND, 0, b}, "cond(" + un + ")"); break;
                default:
                    if (rng.chance(500))
                        push_node(mk((vecmem::coalescing_memory_resource*)nullptr, std::vector<std::reference_wrapper<memory_resource>>{u}), {COAL, 0, b}, "coal(" + un + ")");
                    else if (rng.chance(500))
                        push_node(mk((vecmem::choice_memory_resource*)nullptr, [&u](std::size_t, std::size_t) -> memory_resource& { return u; }), {CHOICE, 0, b}, "choice(" + un + ")");
                    else
                        push_node(mk((vecmem::contiguous_memory_resource*)nullptr, u, std::size_t(1) << 14), {CONTIG, 0, b}, "contig(" + un + ")");
            }
        } catch (std::bad_alloc&) {
            count("unbuildable");  // on top of a resource that never has memory
        }
    }
    std::string d;
    for (auto& s : names) d += s + " ";
    trace("%s", d.c_str());
    for (std::size_t a = 0; a < mr.size(); ++a)
        for (std::size_t b = 0; b < mr.size(); ++b) {
            bool want = model_equal(eq, int(a), int(b)), got = mr[a]->is_equal(*mr[b]);
            expect(got == want, "M14", "%s is %sequal to %s", names[a].c_str(), got ? "" : "not ", names[b].c_str());
            // the operator may ask either side
            bool op = *mr[a] == *mr[b], rev = model_equal(eq, int(b), int(a));
            expect(op == want || op == rev, "M14", "%s == %s is %d", names[a].c_str(), names[b].c_str(), op);
            expect((*mr[a] != *mr[b]) == !op, "M14", "== and != agree for %s and %s", names[a].c_str(), names[b].c_str());
            count(want ? "equal_pairs" : "unequal_pairs");
            if (want && a != b) count("equal_distinct_pairs");
        }
    // Equal resources are interchangeable: memory of one goes back through the other.
    for (int k = 0; k < 12; ++k) {
        std::size_t a = rng.below(mr.size()), b = rng.below(mr.size());
        if (!mr[a]->is_equal(*mr[b])) continue;
        std::size_t sz = random_size(rng) % 1500 + 1, al = std::size_t(1) << rng.below(5);
        char* p = nullptr;
        try {
            p = static_cast<char*>(mr[a]->allocate(sz, al));
        } catch (std::bad_alloc&) {
            continue;
        }
        trace("%s -> %s %zu/%zu", names[a].c_str(), names[b].c_str(), sz, al);
        std::memset(p, 1, sz);
        try {
            mr[b]->deallocate(p, sz, al);
        } catch (std::logic_error& e) {
            expect(false, "M14", "%s can not release what %s allocated: %s", names[b].c_str(), names[a].c_str(), e.what());
        }
        if (a != b) count("cross_releases");
    }
    // Containers moved and swapped between resources.
    for (int k = 0; k < 8; ++k) {
        std::size_t a = rng.below(mr.size()), b = rng.below(mr.size());
        try {
            vecmem::vector<int> x(mr[a]), y(mr[b]);
            std::size_t nx = rng.range(1, 30), ny = rng.below(30);
            for (std::size_t i = 0; i < nx; ++i) x.push_back(int(i * 3 + 1));
            for (std::size_t i = 0; i < ny; ++i) y.push_back(-int(i));
            const int* px = x.data();
            trace("move vector %s -> %s", names[a].c_str(), names[b].c_str());
            y = std::move(x);
            expect(y.size() == nx, "M14", "moved vector has %zu elements instead of %zu", y.size(), nx);
            for (std::size_t i = 0; i < nx; ++i) expect(y[i] == int(i * 3 + 1), "M14", "moved vector has a wrong element");
            bool eqab = model_equal(eq, int(b), int(a)), eqba = model_equal(eq, int(a), int(b));
            if (eqab == eqba) expect((y.data() == px) == eqab, "M14", "vector %s its memory between %s and %s", eqab ? "did not keep" : "kept", names[a].c_str(), names[b].c_str());
            count("container_moves");
        } catch (std::bad_alloc&) {
            count("container_oom");
        }
    }
    for (auto it = nodes.rbegin(); it != nodes.rend(); ++it) (*it)->destroy();
    for (auto& u : ups) u->expect_all_returned("M03");
    st().nontrivial = mr.size() > 3;
}

VM_MAIN
