// C02 concurrent appends to (jagged) device vectors,
// C03 concurrent appends to structure-of-arrays containers.
#include "mt.hpp"

#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/jagged_vector_view.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/data/vector_view.hpp>
#include <vecmem/containers/device_vector.hpp>
#include <vecmem/containers/jagged_device_vector.hpp>
#include <vecmem/edm/container.hpp>
#include <vecmem/memory/host_memory_resource.hpp>
#include <vecmem/utils/copy.hpp>

#include <algorithm>
#include <array>
#include <deque>
#include <limits>
#include <type_traits>

using vm::Rng;
using vm::u64;

// ------------------------------------------------------------------ C02
namespace {

// Counts constructions and destructions per slot of the storage under test.
struct Book {
    unsigned char* base = nullptr;
    std::size_t bytes = 0, stride = 1;
    std::unique_ptr<std::atomic<int>[]> made, gone;
    void on(void* b, std::size_t n, std::size_t s) {
        base = static_cast<unsigned char*>(b);
        bytes = n;
        stride = s;
        std::size_t k = n / s + 1;
        made.reset(new std::atomic<int>[k]);
        gone.reset(new std::atomic<int>[k]);
        for (std::size_t i = 0; i < k; ++i) made[i] = 0, gone[i] = 0;
    }
    void note(const void* p, bool ctor) {
        auto* q = static_cast<const unsigned char*>(p);
        if (q < base || q >= base + bytes) return;
        (ctor ? made : gone)[std::size_t(q - base) / stride].fetch_add(1, std::memory_order_relaxed);
    }
};
Book& book() {
    static Book b;
    return b;
}

struct Tracked {
    u64 v;
    u64 check;
    Tracked() : v(0x1111), check(~u64(0x1111)) { book().note(this, true); }
    explicit Tracked(u64 x) : v(x), check(~x) { book().note(this, true); }
    Tracked(const Tracked& o) : v(o.v), check(o.check) { book().note(this, true); }
    Tracked& operator=(const Tracked&) = default;
    ~Tracked() { book().note(this, false); }
};
struct alignas(32) Wide {
    u64 v[4];
};

template <typename T>
T make(u64 x) {
    if constexpr (std::is_same_v<T, Tracked>) return Tracked(x);
    else if constexpr (std::is_same_v<T, Wide>) return Wide{{x, ~x, x + 1, x * 3}};
    else return static_cast<T>(x);
}
template <typename T>
bool same(const T& a, u64 x) {
    if constexpr (std::is_same_v<T, Tracked>) return a.v == x && a.check == ~x;
    else if constexpr (std::is_same_v<T, Wide>) return a.v[0] == x && a.v[1] == ~x && a.v[2] == x + 1 && a.v[3] == x * 3;
    else return a == static_cast<T>(x);
}
template <typename T>
bool is_default(const T& a) {
    if constexpr (std::is_same_v<T, Tracked>) return same(a, 0x1111);
    else if constexpr (std::is_same_v<T, Wide>) return !a.v[0] && !a.v[1] && !a.v[2] && !a.v[3];
    else return a == T();
}

struct Claim {
    int row;
    u64 index, n;
    u64 value;
    int kind;  // 0: all `value`; 1: default; 2: value + i
};

template <typename T>
void append_case(Rng& rng, bool jagged) {
    using SZ = typename vecmem::data::vector_view<T>::size_type;
    const int nt = int(rng.range(2, 6));
    const int rows = jagged ? int(rng.range(1, 4)) : 1;
    const int per = int(rng.range(5, vm::st().thorough ? 400 : 120));
    const bool exact = rng.chance(700);
    const int mix = int(rng.below(4));  // 0 everything, 1 single only, 2 bulk only, 3 zero and one element bulks
    const unsigned level = unsigned(rng.below(3));
    // Every thread's plan is fixed in advance, so the capacity can be exact.
    struct Step {
        int row, op;
        SZ n;
        u64 value;
    };
    std::vector<std::vector<Step>> plan(static_cast<std::size_t>(nt));
    std::vector<u64> add(std::size_t(rows), 0);
    u64 uniq = rng.below(100);
    for (int t = 0; t < nt; ++t)
        for (int i = 0; i < per; ++i) {
            Step s;
            s.row = int(rng.below(u64(rows)));
            s.op = mix == 1 ? int(rng.below(2)) : mix == 2 ? int(rng.range(2, 5)) : mix == 3 ? int(rng.range(2, 5)) : int(rng.below(6));
            s.n = s.op < 2 ? 1 : mix == 3 ? SZ(rng.below(2)) : SZ(rng.below(6));
            s.value = ++uniq * 7;
            uniq += 8;
            add[std::size_t(s.row)] += s.n;
            plan[std::size_t(t)].push_back(s);
        }
    const std::size_t G = 64;
    std::vector<SZ> init(static_cast<std::size_t>(rows)), cap(static_cast<std::size_t>(rows));
    std::size_t total = 0;
    std::vector<std::size_t> off(static_cast<std::size_t>(rows));
    for (int r = 0; r < rows; ++r) {
        auto R = std::size_t(r);
        init[R] = SZ(rng.chance(300) ? 0 : rng.below(20));
        cap[R] = SZ(init[R] + add[R] + (exact ? 0 : rng.below(10)));
        off[R] = total;
        total += cap[R] * sizeof(T);
        // rows back to back, or with a gap
        if (rng.chance(300)) total += sizeof(T);
    }
    unsigned char* raw = static_cast<unsigned char*>(std::aligned_alloc(64, (total + 2 * G + 127) / 64 * 64));
    std::size_t rawn = (total + 2 * G + 127) / 64 * 64;
    std::memset(raw, 0xa7, rawn);
    unsigned char* base = raw + G;
    book().on(base, total, sizeof(T));
    std::vector<std::array<SZ, 3>> sz(static_cast<std::size_t>(rows));  // counter between guards
    std::vector<vecmem::data::vector_view<T>> views;
    for (int r = 0; r < rows; ++r) {
        auto R = std::size_t(r);
        sz[R] = {SZ(0xbeefbeef), init[R], SZ(0xfeedfeed)};
        T* p = reinterpret_cast<T*>(base + off[R]);
        for (SZ i = 0; i < init[R]; ++i) new (p + i) T(make<T>(u64(i) + 5));
        views.emplace_back(cap[R], &sz[R][1], p);
    }
    for (std::size_t i = 0; i < total / sizeof(T) + 1; ++i) book().made[i] = 0, book().gone[i] = 0;
    vecmem::data::jagged_vector_view<T> jview(SZ(rows), views.data());
    vm::trace("append: %d threads x %d, %d rows, %zu byte elements, mix %d, init %u cap %u %s", nt, per, rows, sizeof(T), mix, unsigned(init[0]), unsigned(cap[0]), jagged ? "jagged" : "flat");
    std::vector<std::vector<Claim>> claims(static_cast<std::size_t>(nt));
    std::atomic<int> running{nt};
    const bool share = rng.chance(500), reader = rng.chance(500);
    vecmem::device_vector<T> common(views[0]);
    vecmem::jagged_device_vector<T> jcommon(jview);
    const u64 tseed = rng.next();
    std::vector<u64> observed;
    vm::run_threads(nt + (reader ? 1 : 0), [&](int t) {
        Rng r(vm::mix(tseed + u64(t)));
        if (t == nt) {
            const vecmem::device_vector<T> v(views[0]);
            u64 last = init[0];
            const T* data = v.data();
            while (running.load(std::memory_order_acquire) > 0) {
                u64 s = v.size();
                if (s < last || s > init[0] + add[0]) vm::die("C02", "the size seen while others append went back or beyond the total");
                if (s != last && observed.size() < 200) observed.push_back(s);
                last = s;
                if (s > 0 && v.empty()) vm::die("C02", "a vector that only grows was seen empty after it was not");
                if (v.capacity() != cap[0] || v.data() != data) vm::die("C02", "capacity or storage changed while appending");
                if (init[0] > 0) {
                    SZ k = SZ(r.below(init[0]));
                    if (!same(v[k], u64(k) + 5)) vm::die("C02", "an existing element was changed while others append");
                }
                sched_yield();
            }
            return;
        }
        vecmem::device_vector<T> own(common);
        vecmem::jagged_device_vector<T> jown(jview);
        auto& mine = claims[std::size_t(t)];
        mine.reserve(std::size_t(per));
        for (auto& s : plan[std::size_t(t)]) {
            auto work = [&](vecmem::device_vector<T>& v) {
                vm::jitter(r, level);
                Claim c{s.row, 0, s.n, s.value, 0};
                int op = s.op;
                if (op == 4 && !std::is_trivial_v<T>) op = 3;
                if (op == 5 && !std::is_trivial_v<T>) op = 2;
                const T val = make<T>(s.value);
                switch (op) {
                    case 0: c.index = v.push_back(val); break;
                    case 1: {
                        T* p = &v.emplace_back(val);
                        c.index = u64(p - v.data());
                        break;
                    }
                    case 2:
                        c.index = v.bulk_append(s.n);
                        c.kind = 1;
                        break;
                    case 3: c.index = v.bulk_append(s.n, val); break;
                    default:
                        if constexpr (std::is_trivial_v<T>) {
                            c.index = op == 4 ? v.bulk_append_implicit(s.n) : v.bulk_append_implicit_unsafe(s.n);
                            for (SZ i = 0; i < s.n; ++i) v[SZ(c.index + i)] = make<T>(s.value + i);
                            c.kind = 2;
                        }
                }
                mine.push_back(c);
            };
            if (!jagged) work(share ? common : own);
            else {
                auto row = s.value & 8 ? (share ? jcommon : jown).at(std::size_t(s.row)) : (share ? jcommon : jown)[std::size_t(s.row)];
                work(row);
            }
        }
        running.fetch_sub(1, std::memory_order_release);
    });
    // The oracle: ranges, contents, everything else untouched.
    u64 switches = 0;
    for (int r = 0; r < rows; ++r) {
        auto R = std::size_t(r);
        std::vector<std::pair<Claim, int>> cs;
        for (int t = 0; t < nt; ++t) {
            u64 last = 0;
            for (auto& c : claims[std::size_t(t)])
                if (c.row == r) {
                    cs.push_back({c, t});
                    vm::expect(c.index >= last, "C02", "a thread's later append got an earlier index");
                    last = c.index + c.n;
                    vm::expect(c.index >= init[R] && c.index + c.n <= init[R] + add[R], "C02", "an append returned index %llu (+%llu), outside the new elements [%u,%llu)",
                               (unsigned long long)c.index, (unsigned long long)c.n, unsigned(init[R]), (unsigned long long)(init[R] + add[R]));
                }
        }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first.index < b.first.index || (a.first.index == b.first.index && a.first.n < b.first.n); });
        u64 at = init[R];
        const T* p = reinterpret_cast<const T*>(base + off[R]);
        int lastt = -1;
        for (auto& [c, t] : cs) {
            if (c.n == 0) continue;
            vm::expect(c.index == at, "C02", "row %d: the ranges of the appends do not tile the new elements: one starts at %llu, the previous ended at %llu", r,
                       (unsigned long long)c.index, (unsigned long long)at);
            for (u64 i = 0; i < c.n; ++i) {
                bool ok = c.kind == 1 ? is_default(p[c.index + i]) : same(p[c.index + i], c.value + (c.kind == 2 ? i : 0));
                vm::expect(ok, "C02", "row %d: element %llu does not hold what was appended there", r, (unsigned long long)(c.index + i));
            }
            at = c.index + c.n;
            if (t != lastt) ++switches;
            lastt = t;
            vm::st().hash = vm::mix(vm::st().hash ^ u64(t) ^ (c.index << 8));
        }
        vm::expect(at == init[R] + add[R], "C02", "row %d: not all appended elements are accounted for", r);
        vm::expect(sz[R][1] == at, "C02", "row %d: final size %u, %llu expected", r, unsigned(sz[R][1]), (unsigned long long)at);
        vm::expect(sz[R][0] == SZ(0xbeefbeef) && sz[R][2] == SZ(0xfeedfeed), "C02", "memory next to the size counter was changed");
        for (SZ i = 0; i < init[R]; ++i) vm::expect(same(p[i], u64(i) + 5), "C02", "row %d: existing element %u was changed", r, unsigned(i));
        if constexpr (std::is_same_v<T, Tracked>) {
            std::size_t s0 = off[R] / sizeof(T);
            for (SZ i = 0; i < cap[R]; ++i) {
                int made = book().made[s0 + i], gone = book().gone[s0 + i];
                int want = i >= init[R] && i < at ? 1 : 0;
                vm::expect(made == want && gone == 0, "C02", "row %d: slot %u was constructed %d and destroyed %d times (%d and 0 expected)", r, unsigned(i), made, gone, want);
            }
        }
        // everything beyond the new size
        std::size_t from = off[R] + std::size_t(at) * sizeof(T), to = r + 1 < rows ? off[R + 1] : total;
        for (std::size_t i = from; i < to; ++i) vm::expect(base[i] == 0xa7, "C02", "row %d: a byte beyond the appended elements was written", r);
    }
    for (std::size_t i = 0; i < G; ++i) vm::expect(raw[i] == 0xa7, "C02", "a byte before the storage was written");
    for (std::size_t i = G + total; i < rawn; ++i) vm::expect(raw[i] == 0xa7, "C02", "a byte after the storage was written");
    vm::count("appends", u64(nt) * u64(per));
    vm::count("thread_switches_seen", switches);
    vm::count("sizes_observed", observed.size());
    vm::st().nontrivial = switches > u64(nt);
    book().on(nullptr, 0, 1);
    std::free(raw);
}
}  // namespace

#ifndef NO_C02
VM_CASES(C02, 5, vm::Cases<bool>, [](auto k, vm::Rng& rng, bool j) {
    if constexpr (k == 0) append_case<int>(rng, j);
    else if constexpr (k == 1) append_case<std::uint8_t>(rng, j);
    else if constexpr (k == 2) append_case<double>(rng, j);
    else if constexpr (k == 3) append_case<Wide>(rng, j);
    else append_case<Tracked>(rng, j);
})
VM_PROP(C02) {
    bool j = rng.chance(400);
    vm::Cases<bool>::run("C02", rng.below(5), rng, j);
}
#endif

// ------------------------------------------------------------------ C03
namespace {
namespace edm = vecmem::edm;

template <typename BASE>
struct Iface : public BASE {
    using BASE::BASE;
    template <std::size_t I>
    decltype(auto) var() {
        return BASE::template get<I>();
    }
    template <std::size_t I>
    decltype(auto) var() const {
        return BASE::template get<I>();
    }
};

template <typename V>
struct VarOf;
template <typename T>
struct VarOf<edm::type::scalar<T>> {
    static constexpr bool vec = false;
    using type = T;
};
template <typename T>
struct VarOf<edm::type::vector<T>> {
    static constexpr bool vec = true;
    using type = T;
};

template <typename... VS>
struct SoA {
    using schema = edm::schema<VS...>;
    using device = Iface<edm::device<schema, Iface>>;
    using view = edm::view<schema>;
    static constexpr std::size_t N = sizeof...(VS);
    template <std::size_t I>
    using V = VarOf<std::tuple_element_t<I, std::tuple<VS...>>>;

    template <typename F, std::size_t... I>
    static void each(F&& f, std::index_sequence<I...>) {
        (f(std::integral_constant<std::size_t, I>{}), ...);
    }
    template <typename F>
    static void each(F&& f) {
        each(f, std::make_index_sequence<N>{});
    }

    static void run(Rng& rng) {
        const int nt = int(rng.range(2, 6));
        const int per = int(rng.range(5, vm::st().thorough ? 400 : 120));
        const unsigned init = rng.chance(400) ? 0 : unsigned(rng.below(20));
        const unsigned total = init + unsigned(nt * per);
        const unsigned cap = total + (rng.chance(700) ? 0 : unsigned(rng.below(10)));
        const unsigned level = unsigned(rng.below(3));
        vecmem::host_memory_resource mr;
        vecmem::copy cp;
        edm::buffer<schema> buf(cap, mr, vecmem::data::buffer_type::resizable);
        cp.setup(buf)->wait();
        // every payload byte starts as garbage
        auto pay = buf.payload();
        if (pay.size()) std::memset(pay.ptr(), 0xa7, pay.size());
        view vw(buf);
        device dev(vw);
        vm::trace("soa append: %zu variables, %d threads x %d, init %u cap %u", N, nt, per, init, cap);
        for (unsigned i = 0; i < init; ++i) {
            unsigned k = dev.push_back_default();
            vm::expect(k == i, "C03", "sequential append returned %u instead of %u", k, i);
            each([&](auto I) {
                if constexpr (V<I>::vec) dev.template get<I>()[i] = make<typename V<I>::type>(i + 3 + I);
            });
        }
        each([&](auto I) {
            if constexpr (!V<I>::vec) dev.template get<I>() = make<typename V<I>::type>(77 + I);
        });
        std::vector<std::vector<unsigned>> got(static_cast<std::size_t>(nt));
        const bool share = rng.chance(500), reader = rng.chance(600);
        std::atomic<int> running{nt};
        const u64 tseed = rng.next();
        u64 sizes = 0;
        vm::run_threads(nt + (reader ? 1 : 0), [&](int t) {
            Rng r(vm::mix(tseed + u64(t)));
            if (t == nt) {
                const device d(vw);
                unsigned last = init;
                while (running.load(std::memory_order_acquire) > 0) {
                    unsigned s = r.chance(500) ? d.size() : d.template get<first_vec()>().size();
                    if (s < last || s > total) vm::die("C03", "the size seen while others append went back or beyond the total");
                    if (s != last) ++sizes;
                    last = s;
                    if (d.capacity() != cap) vm::die("C03", "the capacity changed");
                    if (init) {
                        unsigned k = unsigned(r.below(init));
                        each([&](auto I) {
                            if constexpr (V<I>::vec) {
                                if (!same(d.at(k).template var<I>(), k + 3 + I)) vm::die("C03", "an existing element changed");
                            } else if (!same(d.template get<I>(), 77 + I))
                                vm::die("C03", "a scalar changed");
                        });
                    }
                    sched_yield();
                }
                return;
            }
            device own(vw);
            device& d = share ? dev : own;
            auto& mine = got[std::size_t(t)];
            mine.reserve(std::size_t(per));
            for (int i = 0; i < per; ++i) {
                vm::jitter(r, level);
                unsigned k = d.push_back_default();
                mine.push_back(k);
                if (k >= cap) vm::die("C03", "an append returned an index beyond the capacity");
                each([&](auto I) {
                    if constexpr (V<I>::vec)
                        if (!is_default(d.template get<I>()[k])) vm::die("C03", "a variable of the new element is not default initialised");
                });
                const u64 id = u64(t) * 100000 + u64(i);
                int how = int(r.below(3));
                each([&](auto I) {
                    if constexpr (V<I>::vec) {
                        auto v = make<typename V<I>::type>(id * 3 + I);
                        if (how == 0) d.template get<I>()[k] = v;
                        else if (how == 1) d[k].template var<I>() = v;
                        else d.at(k).template var<I>() = v;
                    }
                });
            }
            running.fetch_sub(1, std::memory_order_release);
        });
        std::vector<int> owner(cap, -1), nth(cap, -1);
        for (int t = 0; t < nt; ++t) {
            unsigned last = 0;
            for (int i = 0; i < per; ++i) {
                unsigned k = got[std::size_t(t)][std::size_t(i)];
                vm::expect(k >= init && k < total && owner[k] == -1, "C03", "index %u was returned twice or is out of range", k);
                vm::expect(i == 0 || k > last, "C03", "a thread's later append got an earlier index");
                last = k;
                owner[k] = t;
                nth[k] = i;
            }
        }
        vm::expect(dev.size() == total && dev.capacity() == cap, "C03", "final size %u of %u, %u of %u expected", dev.size(), dev.capacity(), total, cap);
        u64 switches = 0;
        const device& cdev = dev;
        for (unsigned k = 0; k < total; ++k) {
            u64 id = k < init ? 0 : u64(owner[k]) * 100000 + u64(nth[k]);
            each([&](auto I) {
                if constexpr (V<I>::vec) {
                    u64 want = k < init ? k + 3 + I : id * 3 + I;
                    vm::expect(same(cdev.template get<I>()[k], want), "C03", "variable %zu of element %u does not hold what was written", std::size_t(I), k);
                }
            });
            if (k > init && owner[k] != owner[k - 1]) ++switches;
            vm::st().hash = vm::mix(vm::st().hash ^ u64(owner[k] + 1));
        }
        each([&](auto I) {
            if constexpr (!V<I>::vec) vm::expect(same(cdev.template get<I>(), 77 + I), "C03", "a scalar was changed by appending");
            else {
                const unsigned char* p = reinterpret_cast<const unsigned char*>(&cdev.template get<I>()[0]);
                for (std::size_t b = total * sizeof(typename V<I>::type); b < cap * sizeof(typename V<I>::type); ++b)
                    vm::expect(p[b] == 0xa7, "C03", "a byte beyond the appended elements of variable %zu was written", std::size_t(I));
            }
        });
        vm::count("appends", u64(nt) * u64(per));
        vm::count("thread_switches_seen", switches);
        vm::count("sizes_observed", sizes);
        vm::st().nontrivial = switches > u64(nt);
    }
    static constexpr std::size_t first_vec() {
        bool v[] = {VarOf<VS>::vec...};
        for (std::size_t i = 0; i < N; ++i)
            if (v[i]) return i;
        return 0;
    }
};
}  // namespace

#ifndef NO_C03
VM_CASES(C03, 5, vm::Cases<>, [](auto k, vm::Rng& rng) {
    using namespace vecmem::edm::type;
    if constexpr (k == 0) SoA<scalar<int>, vector<float>, scalar<float>, vector<int>>::run(rng);
    else if constexpr (k == 1) SoA<vector<std::uint8_t>, vector<double>, vector<std::uint16_t>>::run(rng);
    else if constexpr (k == 2) SoA<vector<Wide>, scalar<double>, vector<std::uint8_t>>::run(rng);
    else if constexpr (k == 3) SoA<vector<std::int64_t>>::run(rng);
    else SoA<scalar<std::uint8_t>, vector<int>, vector<Wide>, scalar<Wide>, vector<double>, vector<short>>::run(rng);
})
VM_PROP(C03) {
    vm::Cases<>::run("C03", rng.below(5), rng);
}
#endif

VM_MAIN
