// M15: owning pointers and the object allocator.
#include "mr.hpp"

#include <vecmem/memory/allocator.hpp>
#include <vecmem/memory/unique_ptr.hpp>

#include <string>

using namespace vm;

namespace {

// Objects alive, by address, with the value they were constructed with.
std::map<const void*, long> g_alive;
u64 g_ctor, g_dtor;
long g_throw_in = -1;  // constructor calls until one throws

struct ctor_error {};

void born(const void* p, std::size_t size, std::size_t align, long v) {
    if (g_throw_in >= 0 && g_throw_in-- == 0) throw ctor_error();
    expect((reinterpret_cast<std::uintptr_t>(p) % align) == 0, "M15", "object of alignment %zu constructed at %p", align, p);
    auto it = g_alive.lower_bound(p);
    expect(it == g_alive.end() || static_cast<const char*>(it->first) >= static_cast<const char*>(p) + size, "M15", "object constructed over a live one");
    expect(g_alive.emplace(p, v).second, "M15", "object constructed twice at %p", p);
    ++g_ctor;
}
void died(const void* p) {
    expect(g_alive.erase(p) == 1, "M15", "object at %p destroyed, which is not alive", p);
    ++g_dtor;
}

template <std::size_t Pad, std::size_t Align>
struct alignas(Align) Obj {
    long v;
    char pad[Pad];
    Obj() : Obj(7) {}
    explicit Obj(long x) : v(x) {
        born(this, sizeof(Obj), Align, x);
        std::memset(pad, 1, Pad);
    }
    // forwarding: an lvalue, a moved-in owner, a constant
    Obj(long& a, std::unique_ptr<long> b, const std::string& c) : Obj(a + *b + long(c.size())) { ++a; }
    Obj(const Obj&) = delete;
    ~Obj() { died(this); }
};
using Small = Obj<1, 8>;
using Big = Obj<300, 8>;
using Wide = Obj<8, 64>;
using Huge = Obj<40, 512>;

struct P24 {
    long a, b, c;
};
struct alignas(64) P64 {
    int a[16];
};
struct alignas(256) P256 {
    char c;
};
struct NonTrivialCtor {
    long v;
    NonTrivialCtor() = delete;
    explicit NonTrivialCtor(long x) : v(x) {}
};

struct Owner {
    virtual ~Owner() = default;
    virtual void check() = 0;
    virtual void move_into(Owner&) = 0;
    virtual void move_construct() = 0;
    virtual void swap_with(Owner&) = 0;
    virtual void reset() = 0;
    virtual void release_and_delete() = 0;
    virtual int type() const = 0;
};

template <typename T, int ID>
struct ObjOwner : Owner {
    vecmem::unique_obj_ptr<T> p;
    long v = 0;
    ObjOwner() = default;
    void check() override {
        if (!p) return;
        auto it = g_alive.find(p.get());
        expect(it != g_alive.end() && p->v == v && it->second == v, "M15", "owned object is not alive or has value %ld instead of %ld", p->v, v);
    }
    void move_into(Owner& o) override {
        auto& x = static_cast<ObjOwner&>(o);
        x.p = std::move(p);
        x.v = v;
        expect(p == nullptr, "M15", "moved-from owner is not empty");
    }
    void move_construct() override {
        vecmem::unique_obj_ptr<T> q(std::move(p));
        expect(p == nullptr, "M15", "moved-from owner is not empty");
        p = std::move(q);
    }
    void swap_with(Owner& o) override {
        auto& x = static_cast<ObjOwner&>(o);
        std::swap(p, x.p);
        std::swap(v, x.v);
    }
    void reset() override { p.reset(); }
    void release_and_delete() override {
        auto d = p.get_deleter();
        if (auto* raw = p.release()) d(raw);
    }
    int type() const override { return ID; }
};
template <typename T, int ID>
struct ArrOwner : Owner {
    vecmem::unique_obj_ptr<T[]> p;
    std::size_t n = 0;
    void check() override {
        if (!p) return;
        for (std::size_t i = 0; i < n; ++i) {
            expect(g_alive.count(&p[i]) == 1 && p[i].v == 7, "M15", "element %zu of %zu of an owned array is not alive", i, n);
        }
    }
    void move_into(Owner& o) override {
        auto& x = static_cast<ArrOwner&>(o);
        x.p = std::move(p);
        x.n = n;
    }
    void move_construct() override {
        vecmem::unique_obj_ptr<T[]> q(std::move(p));
        p = std::move(q);
    }
    void swap_with(Owner& o) override {
        auto& x = static_cast<ArrOwner&>(o);
        p.swap(x.p);
        std::swap(n, x.n);
    }
    void reset() override { p = nullptr; }
    void release_and_delete() override {
        auto d = p.get_deleter();
        if (auto* raw = p.release()) d(raw);
    }
    int type() const override { return ID; }
};
// Memory without object semantics; T may be T[] too.
template <typename T, int ID>
struct AllocOwner : Owner {
    vecmem::unique_alloc_ptr<T> p;
    std::size_t bytes = 0;
    u64 pat = 0;
    char* raw() { return reinterpret_cast<char*>(p.get()); }
    void check() override {
        if (!p) return;
        std::size_t bad = 0;
        expect(check_block(raw(), bytes, pat, bad), "M15", "contents of owned memory changed at byte %zu", bad);
    }
    void move_into(Owner& o) override {
        auto& x = static_cast<AllocOwner&>(o);
        x.p = std::move(p);
        x.bytes = bytes;
        x.pat = pat;
    }
    void move_construct() override {
        vecmem::unique_alloc_ptr<T> q(std::move(p));
        p = std::move(q);
    }
    void swap_with(Owner& o) override {
        auto& x = static_cast<AllocOwner&>(o);
        p.swap(x.p);
        std::swap(bytes, x.bytes);
        std::swap(pat, x.pat);
    }
    void reset() override { p.reset(); }
    void release_and_delete() override {
        auto d = p.get_deleter();
        if (auto* r = p.release()) d(r);
    }
    int type() const override { return ID; }
};

struct World {
    Rng& rng;
    std::vector<std::unique_ptr<Upstream>> ups;
    std::vector<std::unique_ptr<Owner>> owners;
    std::vector<std::function<void()>> raws;  // how to give back what the allocator handed out
    explicit World(Rng& r) : rng(r) {}
    Upstream& up() { return *ups[rng.below(ups.size())]; }

    void where(Upstream& u, const void* p, std::size_t bytes, std::size_t align, const char* what) {
        if (bytes == 0) return;
        expect(p != nullptr && u.holds(static_cast<const char*>(p), bytes), "M15", "%s: %zu bytes do not lie in memory of the given resource", what, bytes);
        expect(reinterpret_cast<std::uintptr_t>(p) % align == 0, "M15", "%s: memory at %p for alignment %zu", what, p, align);
    }
    // Run a creation that may throw; nothing may be left behind if it does.
    template <typename F>
    bool attempt(const char* what, F f) {
        bool may_throw = rng.chance(200);
        g_throw_in = may_throw ? long(rng.below(6)) : -1;
        std::size_t alive = g_alive.size();
        std::vector<std::size_t> held;
        for (auto& u : ups) held.push_back(u->live.size());
        bool oom = rng.chance(60);
        if (oom)
            for (auto& u : ups) u->fail_when = [](std::size_t, std::size_t) { return true; };
        bool ok = false, threw = false;
        try {
            f();
            ok = true;
        } catch (ctor_error&) {
            threw = true;
            count("throwing_constructors");
        } catch (std::bad_alloc&) {
            expect(oom, "M15", "%s: out of memory though the resource has some", what);
            count("failed_requests");
        }
        for (auto& u : ups) u->fail_when = nullptr;
        g_throw_in = -1;
        if (!ok) {
            expect(g_alive.size() == alive, "M15", "%s: %zu object(s) left behind after an exception", what, g_alive.size() - alive);
            for (std::size_t i = 0; i < ups.size(); ++i)
                expect(ups[i]->live.size() == held[i], "M15", "%s: memory left behind after an exception", what);
        }
        (void)threw;
        return ok;
    }
    void created(const char* what, u64 ctors, u64 want) {
        expect(g_ctor - ctors == want, "M15", "%s: %llu constructions instead of %llu", what, (unsigned long long)(g_ctor - ctors), (unsigned long long)want);
        count("creations");
    }
    template <typename T, int ID>
    void make_obj() {
        auto o = std::make_unique<ObjOwner<T, ID>>();
        Upstream& u = up();
        trace("make_unique_obj<%d>", ID);
        attempt("make_unique_obj", [&] {
            u64 c = g_ctor;
            switch (rng.below(3)) {
                case 0:
                    o->p = vecmem::make_unique_obj<T>(u);
                    o->v = 7;
                    break;
                case 1:
                    o->v = long(rng.next() >> 8);
                    o->p = vecmem::make_unique_obj<T>(u, o->v);
                    break;
                default: {
                    long a = long(rng.below(1000)), a0 = a;
                    auto b = std::make_unique<long>(long(rng.below(1000)));
                    long bv = *b;
                    const std::string c3(rng.below(40), 'x');
                    o->p = vecmem::make_unique_obj<T>(u, a, std::move(b), c3);
                    o->v = a0 + bv + long(c3.size());
                    expect(a == a0 + 1 && !b, "M15", "constructor arguments were not forwarded as given");
                }
            }
            created("make_unique_obj", c, 1);
            where(u, o->p.get(), sizeof(T), alignof(T), "make_unique_obj");
            owners.push_back(std::move(o));
        });
    }
    bool had_large = false;
    template <typename T, int ID>
    void make_arr() {
        auto o = std::make_unique<ArrOwner<T, ID>>();
        Upstream& u = up();
        std::size_t n = rng.chance(100) ? 0 : rng.range(1, 12);
        // now and then more than 16 bits of elements
        const bool large = sizeof(T) <= 16 && !had_large && rng.below(4000) == 0;
        if (large) n = rng.range(65500, 66500), had_large = true, count("large_arrays");
        trace("make_unique_obj<%d[]>(%zu)", ID, n);
        attempt("make_unique_obj[]", [&] {
            u64 c = g_ctor;
            if (large && g_throw_in >= 0) g_throw_in = long(rng.below(n));
            o->p = vecmem::make_unique_obj<T[]>(u, n);
            o->n = n;
            created("make_unique_obj[]", c, n);
            if (n) where(u, o->p.get(), n * sizeof(T), alignof(T), "make_unique_obj[]");
            owners.push_back(std::move(o));
        });
    }
    template <typename T, int ID>
    void make_alloc() {
        auto o = std::make_unique<AllocOwner<T, ID>>();
        Upstream& u = up();
        bool copy = !std::is_trivially_constructible_v<T> || rng.chance(500);
        trace("make_unique_alloc<%d>%s", ID, copy ? " with copy" : "");
        std::aligned_storage_t<sizeof(T), alignof(T)> bytes;
        const T* from = reinterpret_cast<const T*>(&bytes);
        o->pat = rng.next();
        fill_block(reinterpret_cast<char*>(&bytes), sizeof(T), o->pat);
        attempt("make_unique_alloc", [&] {
            u64 c = g_ctor;
            unsigned calls = 0;
            if (copy)
                o->p = vecmem::make_unique_alloc<T>(u, from, [&](void* d, const void* s, std::size_t b) {
                    ++calls;
                    expect(b == sizeof(T) && s == from, "M15", "copy helper asked to copy %zu bytes instead of %zu", b, sizeof(T));
                    if (g_throw_in == 0) {
                        g_throw_in = -1;
                        throw ctor_error();
                    }
                    std::memcpy(d, s, b);
                });
            else if constexpr (std::is_trivially_constructible_v<T>)
                o->p = vecmem::make_unique_alloc<T>(u);
            expect(calls == (copy ? 1u : 0u), "M15", "copy helper called %u times", calls);
            created("make_unique_alloc", c, 0);
            o->bytes = sizeof(T);
            where(u, o->p.get(), sizeof(T), alignof(T), "make_unique_alloc");
            if (!copy) fill_block(o->raw(), o->bytes, o->pat);
            owners.push_back(std::move(o));
        });
    }
    template <typename T, int ID>
    void make_alloc_arr() {
        auto o = std::make_unique<AllocOwner<T[], ID>>();
        Upstream& u = up();
        std::size_t n = rng.chance(80) ? 0 : rng.range(1, 40);
        bool copy = rng.chance(500) && n;
        trace("make_unique_alloc<%d[]>(%zu)%s", ID, n, copy ? " with copy" : "");
        std::vector<std::aligned_storage_t<sizeof(T), alignof(T)>> src(n);
        o->pat = rng.next();
        if (n) fill_block(reinterpret_cast<char*>(src.data()), n * sizeof(T), o->pat);
        attempt("make_unique_alloc[]", [&] {
            unsigned calls = 0;
            u64 c = g_ctor;
            const T* from = reinterpret_cast<const T*>(src.data());
            if (copy)
                o->p = vecmem::make_unique_alloc<T[]>(u, n, from, [&](void* d, const void* s, std::size_t b) {
                    ++calls;
                    expect(b == n * sizeof(T) && s == from, "M15", "copy helper asked to copy %zu bytes instead of %zu", b, n * sizeof(T));
                    if (g_throw_in == 0) {
                        g_throw_in = -1;
                        throw ctor_error();
                    }
                    std::memcpy(d, s, b);
                });
            else if constexpr (std::is_trivially_constructible_v<T>)
                o->p = vecmem::make_unique_alloc<T[]>(u, n);
            else
                return;
            expect(calls == (copy ? 1u : 0u), "M15", "copy helper called %u times", calls);
            created("make_unique_alloc[]", c, 0);
            o->bytes = n * sizeof(T);
            if (n) where(u, o->p.get(), o->bytes, alignof(T), "make_unique_alloc[]");
            if (!copy && n) fill_block(o->raw(), o->bytes, o->pat);
            owners.push_back(std::move(o));
        });
    }
    template <typename T>
    void alloc_object() {
        Upstream& u = up();
        vecmem::allocator a(u);
        if (rng.chance(500)) {
            trace("new_object");
            attempt("new_object", [&] {
                u64 c = g_ctor;
                T* p;
                long v = 7;
                switch (rng.below(3)) {
                    case 0: p = a.new_object<T>(); break;
                    case 1:
                        v = long(rng.next() >> 8);
                        p = a.new_object<T>(v);
                        break;
                    default: {
                        long x = 5;
                        auto b = std::make_unique<long>(6);
                        p = a.new_object<T>(x, std::move(b), std::string("abc"));
                        v = 14;
                        expect(x == 6 && !b, "M15", "constructor arguments were not forwarded as given");
                    }
                }
                created("new_object", c, 1);
                where(u, p, sizeof(T), alignof(T), "new_object");
                raws.push_back([&u, p, v] {
                    vecmem::allocator b(u);
                    expect(p->v == v, "M15", "object made by the allocator has value %ld instead of %ld", p->v, v);
                    u64 d = g_dtor;
                    b.delete_object<T>(p);
                    expect(g_dtor == d + 1, "M15", "delete_object ran %llu destructors", (unsigned long long)(g_dtor - d));
                });
            });
        } else {
            std::size_t n = rng.range(1, 9);
            trace("allocate_object x%zu", n);
            attempt("allocate_object", [&] {
                u64 c = g_ctor;
                T* p = n == 1 ? a.allocate_object<T>() : a.allocate_object<T>(n);
                created("allocate_object", c, 0);
                where(u, p, n * sizeof(T), alignof(T), "allocate_object");
                u64 pat = rng.next();
                fill_block(reinterpret_cast<char*>(p), n * sizeof(T), pat);
                raws.push_back([&u, p, n, pat] {
                    vecmem::allocator b(u);
                    std::size_t bad;
                    expect(check_block(reinterpret_cast<char*>(p), n * sizeof(T), pat, bad), "M15", "memory from allocate_object changed");
                    u64 d = g_dtor;
                    if (n == 1)
                        b.deallocate_object<T>(p);
                    else
                        b.deallocate_object<T>(p, n);
                    expect(g_dtor == d, "M15", "deallocate_object ran a destructor");
                });
            });
        }
    }
    void alloc_bytes() {
        Upstream& u = up();
        vecmem::allocator a(u);
        std::size_t n = rng.range(1, 500), al = std::size_t(1) << rng.below(9);
        bool dflt = rng.chance(300);
        if (dflt) al = alignof(std::max_align_t);
        trace("allocate_bytes %zu/%zu", n, al);
        attempt("allocate_bytes", [&] {
            void* p = dflt ? a.allocate_bytes(n) : a.allocate_bytes(n, al);
            where(u, p, n, al, "allocate_bytes");
            std::memset(p, 3, n);
            count("creations");
            raws.push_back([&u, p, n, al, dflt] {
                vecmem::allocator b(u);
                if (dflt)
                    b.deallocate_bytes(p, n);
                else
                    b.deallocate_bytes(p, n, al);
            });
        });
    }
    void create() {
        switch (rng.below(20)) {
            case 0: make_obj<Small, 1>(); break;
            case 1: make_obj<Big, 2>(); break;
            case 2: make_obj<Wide, 3>(); break;
            case 3: make_obj<Huge, 4>(); break;
            case 4: make_arr<Small, 5>(); break;
            case 5: make_arr<Big, 6>(); break;
            case 6: make_arr<Wide, 7>(); break;
            case 7: make_alloc<int, 8>(); break;
            case 8: make_alloc<P24, 9>(); break;
            case 9: rng.chance(600) ? make_alloc<P64, 10>() : make_alloc<NonTrivialCtor, 30>(); break;
            case 10: make_alloc_arr<char, 11>(); break;
            case 11: make_alloc_arr<P24, 12>(); break;
            case 12: make_alloc_arr<P64, 13>(); break;
            case 13: make_alloc_arr<P256, 14>(); break;
            case 14: make_alloc_arr<NonTrivialCtor, 15>(); break;
            case 15: alloc_object<Small>(); break;
            case 16: alloc_object<Wide>(); break;
            case 17: alloc_object<Big>(); break;
            case 18: alloc_bytes(); break;
            default: make_arr<Huge, 16>(); break;
        }
    }
};

}  // namespace

VM_PROP(M15, "M02", "M03") {
    g_alive.clear();
    g_ctor = g_dtor = 0;
    World w(rng);
    static const Upstream::Mode modes[] = {Upstream::MALLOC, Upstream::SLAB_UP, Upstream::SLAB_DOWN, Upstream::RECYCLE};
    for (unsigned i = 0, n = unsigned(rng.range(1, 3)); i < n; ++i) w.ups.push_back(std::make_unique<Upstream>(rng.next(), modes[rng.below(4)], i ? (i > 1 ? "up2" : "up1") : "up0"));
    unsigned ops = unsigned(rng.range(15, 90));
    for (unsigned i = 0; i < ops; ++i) {
        unsigned r = unsigned(rng.below(100));
        auto any = [&]() -> Owner& { return *w.owners[rng.below(w.owners.size())]; };
        if (r < 45 || w.owners.empty()) {
            w.create();
        } else if (r < 60) {
            Owner& a = any();
            for (int k = 0; k < 8; ++k) {
                Owner& b = any();
                if (&a == &b || a.type() != b.type()) continue;
                if (rng.chance(500)) {
                    trace("move assign");
                    a.move_into(b);
                    count("moves");
                } else {
                    trace("swap");
                    a.swap_with(b);
                    count("swaps");
                }
                b.check();
                break;
            }
            a.check();
        } else if (r < 68) {
            trace("move construct");
            Owner& a = any();
            a.move_construct();
            a.check();
            count("moves");
        } else if (r < 76) {
            trace("reset");
            any().reset();
            count("resets");
        } else if (r < 82) {
            trace("release and delete");
            any().release_and_delete();
            count("releases");
        } else if (r < 92) {
            trace("drop owner");
            std::size_t k = rng.below(w.owners.size());
            w.owners[k]->check();
            w.owners.erase(w.owners.begin() + long(k));
        } else if (!w.raws.empty()) {
            trace("give back");
            std::size_t k = rng.below(w.raws.size());
            w.raws[k]();
            w.raws.erase(w.raws.begin() + long(k));
        }
    }
    for (auto& o : w.owners) o->check();
    for (auto& f : w.raws) f();
    w.owners.clear();
    expect(g_alive.empty(), "M15", "%zu object(s) never destroyed", g_alive.size());
    expect(g_ctor == g_dtor, "M15", "%llu constructions, %llu destructions", (unsigned long long)g_ctor, (unsigned long long)g_dtor);
    for (auto& u : w.ups) u->expect_all_returned("M03");
    st().nontrivial = ops > 20;
}

VM_MAIN
