// C01 atomic references; with VM_MODE, C04: those of the accelerators' back ends.
//
// VM_MODE 1 is the fallback for no threads at all, 2 CUDA device code, 3 HIP
// device code, 4 SYCL 1.2.1, 5 SYCL 2020; the functions of those runtimes come
// from shim/.
#include "mt.hpp"

#ifdef VM_MODE
#if VM_MODE == 2 || VM_MODE == 3
#include "shim/device_atomics.hpp"
#define __host__
#define __device__
#if VM_MODE == 2
#define __CUDACC__
#define __CUDA_ARCH__ 800
#else
#define __HIPCC__
#define __HIP_DEVICE_COMPILE__ 1
#endif
#elif VM_MODE >= 4
#define SYCL_LANGUAGE_VERSION 202001
#if VM_MODE == 5
#define VECMEM_HAVE_SYCL_ATOMIC_REF
#endif
#endif
#undef VECMEM_SUPPORT_POSIX_ATOMIC_REF
#define TAG "C04"
#else
#define TAG "C01"
#endif

#include <vecmem/memory/device_atomic_ref.hpp>
#include <vecmem/memory/memory_order.hpp>
#include <vecmem/memory/atomic.hpp>

#include <algorithm>
#include <deque>
#include <limits>
#include <type_traits>

using vm::Rng;
using vm::u64;
using MO = vecmem::memory_order;

// ------------------------------------------------------------------ C01
namespace {

// The older class, which holds a pointer and knows no memory orders.
template <typename T>
class Legacy {
    mutable vecmem::atomic<T> a;

public:
    explicit Legacy(T& r) : a(&r) {}
    T operator=(T v) const { return a.store(v), v; }
    void store(T v, MO = MO::seq_cst) const { a.store(v); }
    T load(MO = MO::seq_cst) const { return a.load(); }
    T exchange(T v, MO = MO::seq_cst) const { return a.exchange(v); }
    bool compare_exchange_strong(T& e, T v, MO = MO::seq_cst, MO = MO::seq_cst) const { return a.compare_exchange_strong(e, v); }
    T fetch_add(T v, MO = MO::seq_cst) const { return a.fetch_add(v); }
    T fetch_sub(T v, MO = MO::seq_cst) const { return a.fetch_sub(v); }
    T fetch_and(T v, MO = MO::seq_cst) const { return a.fetch_and(v); }
    T fetch_or(T v, MO = MO::seq_cst) const { return a.fetch_or(v); }
    T fetch_xor(T v, MO = MO::seq_cst) const { return a.fetch_xor(v); }
};
enum { GLOBAL, LOCAL_SPACE, OLDER };
template <typename T, int KIND = GLOBAL>
using Ref = std::conditional_t<KIND == OLDER, Legacy<T>,
                               vecmem::device_atomic_ref<T, KIND == LOCAL_SPACE ? vecmem::device_address_space::local : vecmem::device_address_space::global>>;

#if defined(VM_MODE) && VM_MODE == 5  // SYCL has no such order
#define CONSUME acquire
#else
#define CONSUME consume
#endif
const MO STORE[] = {MO::relaxed, MO::release, MO::seq_cst};
const MO LOAD[] = {MO::relaxed, MO::CONSUME, MO::acquire, MO::seq_cst};
const MO RMW[] = {MO::relaxed, MO::CONSUME, MO::acquire, MO::release, MO::acq_rel, MO::seq_cst};
#if defined(VM_MODE) && (VM_MODE == 2 || VM_MODE == 3)  // there is no 64-bit subtraction
template <typename T>
constexpr bool SUBTRACTS = sizeof(T) == 4;
#else
template <typename T>
constexpr bool SUBTRACTS = true;
#endif
template <typename R, typename T, typename... O>
T fetch_sub(const R& ref, T x, O... o) {
    if constexpr (SUBTRACTS<T>) return ref.fetch_sub(x, o...);
    else return ref.fetch_add(T(-x), o...);
}

enum Op { LD, ST, XCHG, CAS, CAS2, ADD, SUB, AND, OR, XOR, ASG, NOPS };
const char* const OPN[] = {"load", "store", "exchange", "cas", "cas2", "fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor", "assign"};

struct Res {
    u64 val = 0;
    bool ok = false;
};

// The sequential specification, on bit patterns of the width of T.
template <typename T>
Res spec(u64& state, int op, u64 a, u64 b) {
    using U = std::make_unsigned_t<T>;
    Res r;
    r.val = state;
    auto W = [](u64 x) { return u64(U(x)); };
    switch (op) {
        case LD: break;
        case ST: state = a; r.val = 0; break;
        case ASG: state = a; r.val = a; break;
        case XCHG: state = a; break;
        case CAS:
        case CAS2:
            // r.val: what "expected" holds afterwards
            if (state == a) {
                r.ok = true;
                r.val = a;
                state = b;
            }
            break;
        case ADD: state = W(state + a); break;
        case SUB: state = W(state - a); break;
        case AND: state = state & a; break;
        case OR: state = state | a; break;
        case XOR: state = state ^ a; break;
    }
    return r;
}

// GCC 13 loops on compare-exchange for fetch_and/or/xor, and goes wrong when the
// result is kept in the register the operand was in. Keeping the operand in use
// afterwards rules that out.
#define KEEP(v) asm volatile("" : : "r"(v))
#define OPAQUE(v) asm volatile("" : "+r"(v))

template <typename T, typename R>
__attribute__((noinline)) Res perform(R ref, int op, u64 a, u64 b, Rng& rng, bool defaults) {
    using U = std::make_unsigned_t<T>;
    Res r;
    U xu = U(a);
    OPAQUE(xu);
    const T x = T(xu), y = T(U(b));
    auto rmw = [&] { return RMW[rng.below(6)]; };
    auto pat = [](T v) { return u64(U(v)); };
    switch (op) {
        case LD: r.val = pat(defaults ? ref.load() : ref.load(LOAD[rng.below(4)])); break;
        case ST:
            if (defaults) ref.store(x);
            else ref.store(x, STORE[rng.below(3)]);
            break;
        case ASG: r.val = pat(ref = x); break;
        case XCHG: r.val = pat(defaults ? ref.exchange(x) : ref.exchange(x, rmw())); break;
        case CAS: {
            T e = x;
            r.ok = defaults ? ref.compare_exchange_strong(e, y) : ref.compare_exchange_strong(e, y, rmw());
            r.val = pat(e);
            break;
        }
        case CAS2: {
            T e = x;
            r.ok = ref.compare_exchange_strong(e, y, rmw(), LOAD[rng.below(4)]);
            r.val = pat(e);
            break;
        }
        case ADD: r.val = pat(defaults ? ref.fetch_add(x) : ref.fetch_add(x, rmw())); break;
        case SUB: r.val = pat(defaults ? fetch_sub(ref, x) : fetch_sub(ref, x, rmw())); break;
        case AND: r.val = pat(defaults ? ref.fetch_and(x) : ref.fetch_and(x, rmw())); break;
        case OR: r.val = pat(defaults ? ref.fetch_or(x) : ref.fetch_or(x, rmw())); break;
        case XOR: r.val = pat(defaults ? ref.fetch_xor(x) : ref.fetch_xor(x, rmw())); break;
    }
    KEEP(x);
    KEEP(xu);
    return r;
}

template <typename T>
u64 operand(Rng& r) {
    using U = std::make_unsigned_t<T>;
    switch (r.below(6)) {
        case 0: return r.below(4);
        case 1: return u64(U(~u64(r.below(3))));
        case 2: return u64(U(std::numeric_limits<T>::max()));
        case 3: return u64(U(std::numeric_limits<T>::min()));
        case 4: return u64(U(u64(1) << r.below(sizeof(T) * 8)));
        default: return u64(U(r.next()));
    }
}

// (a) One thread: every operation has its effect and value, and touches only its object.
template <typename T, int LOCAL>
void atomic_sequential(Rng& rng) {
    using U = std::make_unsigned_t<T>;
    alignas(64) T mem[8];
    u64 model[8];
    for (int i = 0; i < 8; ++i) {
        model[i] = operand<T>(rng);
        mem[i] = T(U(model[i]));
    }
    std::deque<Ref<T, LOCAL>> refs;
    std::vector<int> at;
    for (int i = 0; i < 8; ++i) {
        refs.emplace_back(mem[i]);
        at.push_back(i);
    }
    for (int i = 0; i < 4; ++i) {  // copies refer to the same object
        std::size_t k = rng.below(refs.size());
        refs.emplace_back(refs[k]);
        at.push_back(at[k]);
    }
    int n = int(rng.range(40, 250));
    for (int i = 0; i < n; ++i) {
        std::size_t k = rng.below(refs.size());
        int op = int(rng.below(NOPS)), t = at[k];
        u64 a = operand<T>(rng), b = operand<T>(rng);
        if ((op == CAS || op == CAS2) && rng.chance(600)) a = model[t];
        u64 before = model[t];
        vm::trace("%s[%d] %llx %llx on %llx (%zu bit)", OPN[op], t, (unsigned long long)a, (unsigned long long)b, (unsigned long long)before, sizeof(T) * 8);
        Res want = spec<T>(model[t], op, a, b);
        Res got = rng.chance(300) ? perform<T>(Ref<T, LOCAL>(mem[t]), op, a, b, rng, rng.chance(400)) : perform<T>(refs[k], op, a, b, rng, rng.chance(400));
        vm::expect(got.val == want.val && got.ok == want.ok, TAG, "%s returned %llx/%d instead of %llx/%d", OPN[op], (unsigned long long)got.val, got.ok,
                   (unsigned long long)want.val, want.ok);
        for (int j = 0; j < 8; ++j)
            vm::expect(u64(U(mem[j])) == model[j], TAG, "object %d is %llx instead of %llx after %s on object %d", j, (unsigned long long)u64(U(mem[j])),
                       (unsigned long long)model[j], OPN[op], t);
        vm::count("sequential_ops");
    }
    vm::st().nontrivial = true;
}

// (b) Several threads, small histories: is there an order that explains them?
struct Ev {
    int op;
    u64 a, b;
    Res r;
    u64 inv, ret;
};

template <typename T>
struct Lin {
    std::vector<std::vector<Ev>> th;
    std::set<std::pair<u64, u64>> seen;
    u64 nodes = 0;
    bool go(std::vector<int>& pos, u64 state) {
        bool all = true;
        u64 key = 0, minret = ~u64(0);
        for (std::size_t t = 0; t < th.size(); ++t) {
            key = key * 64 + u64(pos[t]);
            if (pos[t] < int(th[t].size())) {
                all = false;
                minret = std::min(minret, th[t][std::size_t(pos[t])].ret);
            }
        }
        if (all) return true;
        if (!seen.insert({key, state}).second) return false;
        if (++nodes > 3000000) return true;  // give up: no verdict from this history
        for (std::size_t t = 0; t < th.size(); ++t) {
            if (pos[t] >= int(th[t].size())) continue;
            const Ev& e = th[t][std::size_t(pos[t])];
            if (e.inv > minret) continue;  // some other operation finished before this one began
            u64 s = state;
            Res w = spec<T>(s, e.op, e.a, e.b);
            if (w.ok != e.r.ok || w.val != e.r.val) continue;
            ++pos[t];
            if (go(pos, s)) return true;
            --pos[t];
        }
        return false;
    }
};

struct Barrier {  // light-weight, re-usable
    std::atomic<int> count{0};
    std::atomic<int> gen{0};
    int n;
    explicit Barrier(int k) : n(k) {}
    void wait() {
        int g = gen.load(std::memory_order_acquire);
        if (count.fetch_add(1, std::memory_order_acq_rel) + 1 == n) {
            count.store(0, std::memory_order_relaxed);
            gen.store(g + 1, std::memory_order_release);
        } else {
            unsigned spins = 0;
            while (gen.load(std::memory_order_acquire) == g)
                if (++spins > 500) sched_yield();
        }
    }
};

template <typename T, int LOCAL>
void atomic_linear(Rng& rng) {
    using U = std::make_unsigned_t<T>;
    const int nt = int(rng.range(2, 4));
    const int len = nt == 2 ? int(rng.range(4, 12)) : int(rng.range(3, 7));
    const int rounds = 60;
    // Mostly few distinct operands: compare-exchange must sometimes succeed.
    std::vector<u64> small;
    for (int i = 0; i < 3; ++i) small.push_back(rng.chance(700) ? rng.below(3) : operand<T>(rng));
    u64 opmask = rng.chance(400) ? ~u64(0) : rng.next() | 1;
    alignas(64) static T objs[64];
    std::atomic<u64> clock{0};
    Barrier bar(nt);
    std::vector<std::vector<std::vector<Ev>>> log(rounds, std::vector<std::vector<Ev>>(std::size_t(nt)));
    std::vector<u64> init(rounds), fin(rounds);
    vm::trace("linear: %d threads, %d ops, %zu bit, ops %llx", nt, len, sizeof(T) * 8, (unsigned long long)(opmask & 2047));
    for (int i = 0; i < rounds; ++i) init[std::size_t(i)] = small[rng.below(3)];
    for (int i = 0; i < 60; ++i) objs[i] = T(U(init[std::size_t(i)]));
    u64 tseed = rng.next();
    vm::run_threads(nt, [&](int t) {
        Rng r(vm::mix(tseed + u64(t)));
        for (int k = 0; k < rounds; ++k) {
            auto& mine = log[std::size_t(k)][std::size_t(t)];
            mine.reserve(std::size_t(len));
            std::vector<Ev> plan;
            for (int i = 0; i < len; ++i) {
                int op;
                do op = int(r.below(NOPS));
                while (!((opmask >> op) & 1));
                plan.push_back({op, small[r.below(3)], small[r.below(3)], {}, 0, 0});
            }
            bar.wait();
            for (auto& e : plan) {
                bool def = r.chance(500);
                e.inv = clock.fetch_add(1);
                e.r = perform<T>(Ref<T, LOCAL>(objs[k]), e.op, e.a, e.b, r, def);
                e.ret = clock.fetch_add(1);
            }
            mine = plan;
        }
    });
    for (int k = 0; k < rounds; ++k) {
        Lin<T> l;
        l.th = log[std::size_t(k)];
        // The final value, read after everything, must be explained as well.
        Ev last{LD, 0, 0, {u64(U(objs[k])), false}, ~u64(0) - 1, ~u64(0)};
        l.th.push_back({last});
        u64 overlap = 0, h = 0;
        for (std::size_t a = 0; a < std::size_t(nt); ++a)
            for (auto& e : l.th[a])
                for (std::size_t b = a + 1; b < std::size_t(nt); ++b)
                    for (auto& f : l.th[b])
                        if (e.inv < f.ret && f.inv < e.ret) ++overlap;
        for (auto& th : l.th)
            for (auto& e : th) h = vm::mix(h ^ e.inv ^ (e.r.val << 20) ^ (u64(e.op) << 50));
        std::vector<int> pos(l.th.size(), 0);
        bool ok = l.go(pos, init[std::size_t(k)]);
        if (!ok) {
            for (std::size_t t = 0; t < l.th.size(); ++t)
                for (auto& e : l.th[t])
                    vm::trace("t%zu [%lld,%lld] %s(%llx,%llx) -> %llx/%d", t, (long long)e.inv, (long long)e.ret, OPN[e.op], (unsigned long long)e.a, (unsigned long long)e.b,
                              (unsigned long long)e.r.val, e.r.ok);
            vm::expect(false, TAG, "no order of the operations explains the returned values (initial value %llx)", (unsigned long long)init[std::size_t(k)]);
        }
        vm::count("histories_checked");
        vm::count("overlapping_pairs", overlap);
        vm::maximum("search_nodes", l.nodes);
        if (overlap) vm::st().distinct.insert(h);
    }
    vm::st().nontrivial = true;
}

// (c) Bulk contention with conservation laws.
template <typename T, int LOCAL>
void atomic_bulk(Rng& rng) {
    using U = std::make_unsigned_t<T>;
    const int nt = int(rng.range(2, 6));
    const int K = vm::st().thorough ? 8000 : 2500;
    struct alignas(64) {
        T before[4];
        T obj;
        T after[4];
    } m;
    for (int i = 0; i < 4; ++i) m.before[i] = m.after[i] = T(0x5a);
    const u64 init = operand<T>(rng);
    m.obj = T(U(init));
    const int kind = int(rng.below(6));
    const u64 tseed = rng.next();
    vm::trace("bulk kind %d: %d threads x %d, %zu bit, from %llx", kind, nt, K, sizeof(T) * 8, (unsigned long long)init);
    auto P = [](T v) { return u64(U(v)); };
    if (kind == 0) {  // additions of one odd number: returned values are the prefix sums, once each
        const u64 d = u64(U(operand<T>(rng) | 1));
        const bool sub = rng.chance(500);
        std::vector<std::vector<u64>> got(static_cast<std::size_t>(nt));
        vm::run_threads(nt, [&](int t) {
            Rng r(vm::mix(tseed + u64(t)));
            auto& g = got[std::size_t(t)];
            g.reserve(std::size_t(K));
            for (int i = 0; i < K; ++i) {
                Ref<T, LOCAL> ref(m.obj);
                MO o = RMW[r.below(6)];
                g.push_back(P(sub ? fetch_sub(ref, T(U(d)), o) : ref.fetch_add(T(U(d)), o)));
            }
        });
        std::map<u64, u64> want, have;
        u64 v = init;
        for (int i = 0; i < nt * K; ++i) {
            want[v]++;
            v = P(T(U(sub ? v - d : v + d)));
        }
        for (auto& g : got)
            for (u64 x : g) have[x]++;
        vm::expect(want == have && P(m.obj) == v, TAG, "concurrent additions lost or repeated a value: final %llx, expected %llx", (unsigned long long)P(m.obj), (unsigned long long)v);
        if (sizeof(T) >= 4) {
            U inv = 1;  // inverse of d: positions in the order
            for (int i = 0; i < 7; ++i) inv = U(inv * U(2 - U(d) * inv));
            u64 sw = 0;
            for (auto& g : got) {
                U last = 0;
                for (std::size_t i = 0; i < g.size(); ++i) {
                    U k = U((sub ? U(init) - U(g[i]) : U(g[i]) - U(init)) * inv);
                    if (i) {
                        vm::expect(k > last, TAG, "a thread's own additions are out of order");
                        if (k != U(last + 1)) ++sw;
                    }
                    last = k;
                }
            }
            vm::count("thread_switches_seen", sw);
        }
    } else if (kind == 1) {  // exchanges hand every value over exactly once
        std::vector<std::vector<u64>> got(static_cast<std::size_t>(nt));
        auto mine = [&](int t, int i) { return P(T(U(u64(t) * u64(K) + u64(i) + 1))); };
        vm::run_threads(nt, [&](int t) {
            Rng r(vm::mix(tseed + u64(t)));
            auto& g = got[std::size_t(t)];
            g.reserve(std::size_t(K));
            for (int i = 0; i < K; ++i) {
                Ref<T, LOCAL> ref(m.obj);
                g.push_back(P(ref.exchange(T(U(mine(t, i))), RMW[r.below(6)])));
            }
        });
        std::map<u64, long> bal;
        bal[init]++;
        bal[P(m.obj)]--;
        for (int t = 0; t < nt; ++t)
            for (int i = 0; i < K; ++i) {
                bal[mine(t, i)]++;
                bal[got[std::size_t(t)][std::size_t(i)]]--;
            }
        for (auto& [v, b] : bal) vm::expect(b == 0, TAG, "value %llx was handed over %ld times too few", (unsigned long long)v, b);
    } else if (kind == 2) {  // compare-exchange loops
        std::atomic<u64> ok{0}, fail{0};
        vm::run_threads(nt, [&](int t) {
            Rng r(vm::mix(tseed + u64(t)));
            u64 f = 0;
            for (int i = 0; i < K; ++i) {
                Ref<T, LOCAL> ref(m.obj);
                T e = r.chance(200) ? T(U(r.next())) : ref.load(LOAD[r.below(4)]);
                for (;;) {
                    T was = e;
                    bool done = r.chance(500) ? ref.compare_exchange_strong(e, T(U(U(e) + 3)), RMW[r.below(6)])
                                              : ref.compare_exchange_strong(e, T(U(U(e) + 3)), RMW[r.below(6)], LOAD[r.below(4)]);
                    if (done) {
                        if (was != e) vm::die(TAG, "a successful compare-exchange changed the expected value");
                        break;
                    }
                    if (was == e) vm::die(TAG, "a compare-exchange failed although it found the expected value");
                    ++f;
                }
                ok.fetch_add(1, std::memory_order_relaxed);
            }
            fail.fetch_add(f, std::memory_order_relaxed);
        });
        vm::count("thread_switches_seen", fail.load());
        u64 want = P(T(U(init + 3 * ok.load())));
        vm::expect(P(m.obj) == want, TAG, "%llu successful compare-exchanges left %llx instead of %llx", (unsigned long long)ok.load(), (unsigned long long)P(m.obj),
                   (unsigned long long)want);
    } else if (kind == 3) {  // each thread owns some bits
        const int bits = int(sizeof(T) * 8);
        vm::run_threads(nt, [&](int t) {
            Rng r(vm::mix(tseed + u64(t)));
            U own = 0;
            for (int b = t; b < bits; b += nt) own = U(own | U(U(1) << b));
            U state = U(init) & own;
            // predict every bit
            for (int i = 0; i < K; ++i) {
                Ref<T, LOCAL> ref(m.obj);
                U k = U(U(r.next()) & own), old, next;
                OPAQUE(k);
                MO o = RMW[r.below(6)];
                u64 w = r.below(3);
                if (w == 0) {
                    old = U(ref.fetch_or(T(k), o));
                    next = U(state | k);
                } else if (w == 1) {
                    U m = U(U(~own) | k);
                    OPAQUE(m);
                    old = U(ref.fetch_and(T(m), o));
                    KEEP(m);
                    next = U(state & k);
                } else {
                    old = U(ref.fetch_xor(T(k), o));
                    next = U(state ^ k);
                }
                if (U(old & own) != state) vm::die(TAG, "a bit operation by another thread was mixed into this thread's bits");
                KEEP(k);
                state = next;
            }
            if (U(U(Ref<T, LOCAL>(m.obj).load()) & own) != state) vm::die(TAG, "the final bits are not the ones set last");
        });
    } else if (kind == 4) {  // mixed additions and subtractions: the sum is conserved
        std::vector<u64> sum(static_cast<std::size_t>(nt));
        vm::run_threads(nt, [&](int t) {
            Rng r(vm::mix(tseed + u64(t)));
            u64 s = 0;
            for (int i = 0; i < K; ++i) {
                Ref<T, LOCAL> ref(m.obj);
                u64 d = operand<T>(r);
                if (r.chance(500)) {
                    ref.fetch_add(T(U(d)));
                    s += d;
                } else {
                    fetch_sub(ref, T(U(d)));
                    s -= d;
                }
            }
            sum[std::size_t(t)] = s;
        });
        u64 want = init;
        for (u64 s : sum) want += s;
        want = P(T(U(want)));
        vm::expect(P(m.obj) == want, TAG, "the sum of concurrent additions and subtractions is %llx instead of %llx", (unsigned long long)P(m.obj), (unsigned long long)want);
    } else {  // neighbours of the object are nobody else's business; plain loads never see torn values
        const u64 x = operand<T>(rng), y = operand<T>(rng);
        m.obj = T(U(x));
        std::atomic<bool> bad{false};
        vm::run_threads(nt, [&](int t) {
            Rng r(vm::mix(tseed + u64(t)));
            Ref<T, LOCAL> ref(m.obj);
            for (int i = 0; i < K; ++i) {
                if (t == 0) {
                    if (r.chance(500)) ref.store(T(U(i & 1 ? x : y)), STORE[r.below(3)]);
                    else ref.exchange(T(U(i & 1 ? x : y)));
                } else {
                    // threads own a neighbour each
                    T& nb = t <= 4 ? m.before[t - 1] : m.after[t - 5];
                    nb = T(i & 63);
                    u64 v = P(ref.load(LOAD[r.below(4)]));
                    if (v != x && v != y) bad = true;
                    if (nb != T(i & 63)) bad = true;
                }
            }
        });
        vm::expect(!bad, TAG, "a torn value or a change of a neighbouring object was seen");
        for (int i = 0; i < 4; ++i) m.before[i] = m.after[i] = T(0x5a);
    }
    for (int i = 0; i < 4; ++i) vm::expect(m.before[i] == T(0x5a) && m.after[i] == T(0x5a), TAG, "memory next to the object was changed");
    vm::count("contended_ops", u64(nt) * u64(K));
    vm::st().nontrivial = true;
}

#ifndef VM_MODE
// (d) Release/acquire pairs publish plain data (the race detector decides), and
// the default order is sequentially consistent (the outcomes decide).
template <typename T, int LOCAL>
__attribute__((noinline)) bool publish(Ref<T, LOCAL> ref, int how, T from, T to, Rng& r) {
    const bool def = r.chance(250);
    switch (how) {
        case 0: def ? ref.store(to) : ref.store(to, r.chance(700) ? MO::release : MO::seq_cst); return true;
        case 1: def ? ref.exchange(to) : ref.exchange(to, r.pick({MO::release, MO::acq_rel, MO::seq_cst})); return true;
        case 2: def ? ref.fetch_add(T(to - from)) : ref.fetch_add(T(to - from), r.pick({MO::release, MO::acq_rel, MO::seq_cst})); return true;
        case 3: def ? ref.fetch_sub(T(from - to)) : ref.fetch_sub(T(from - to), r.pick({MO::release, MO::acq_rel, MO::seq_cst})); return true;
        case 4: def ? ref.fetch_xor(T(from ^ to)) : ref.fetch_xor(T(from ^ to), r.pick({MO::release, MO::acq_rel, MO::seq_cst})); return true;
        case 5: def ? ref.fetch_or(to) : ref.fetch_or(to, r.pick({MO::release, MO::acq_rel, MO::seq_cst})); return true;
        case 6: def ? ref.fetch_and(to) : ref.fetch_and(to, r.pick({MO::release, MO::acq_rel, MO::seq_cst})); return true;
        case 7: {
            T e = from;
            return def ? ref.compare_exchange_strong(e, to) : ref.compare_exchange_strong(e, to, r.pick({MO::release, MO::acq_rel, MO::seq_cst}));
        }
        case 8: {
            T e = from;
            return ref.compare_exchange_strong(e, to, r.pick({MO::release, MO::acq_rel, MO::seq_cst}), MO::relaxed);
        }
        default: ref = to; return true;
    }
}
// Has `to` arrived? (acquiring)
template <typename T, int LOCAL>
__attribute__((noinline)) bool arrived(Ref<T, LOCAL> ref, int how, T to, Rng& r) {
    const bool def = r.chance(250);
    switch (how) {
        case 0: return (def ? ref.load() : ref.load(r.chance(700) ? MO::acquire : MO::seq_cst)) == to;
        case 1: return (def ? ref.fetch_add(T(0)) : ref.fetch_add(T(0), r.pick({MO::acquire, MO::acq_rel, MO::seq_cst}))) == to;
        case 2: return (def ? ref.fetch_or(T(0)) : ref.fetch_or(T(0), r.pick({MO::acquire, MO::acq_rel, MO::seq_cst}))) == to;
        case 3: return (def ? ref.fetch_xor(T(0)) : ref.fetch_xor(T(0), r.pick({MO::acquire, MO::acq_rel, MO::seq_cst}))) == to;
        case 4: return (def ? ref.fetch_sub(T(0)) : ref.fetch_sub(T(0), r.pick({MO::acquire, MO::acq_rel, MO::seq_cst}))) == to;
        case 5: return (def ? ref.fetch_and(T(~T(0))) : ref.fetch_and(T(~T(0)), r.pick({MO::acquire, MO::acq_rel, MO::seq_cst}))) == to;
        case 6: {
            T e = to;  // success order
            return def ? ref.compare_exchange_strong(e, to) : ref.compare_exchange_strong(e, to, r.pick({MO::acquire, MO::acq_rel, MO::seq_cst}));
        }
        case 7: {
            T e = to;
            return ref.compare_exchange_strong(e, to, r.pick({MO::acquire, MO::acq_rel, MO::seq_cst}), MO::relaxed);
        }
        case 8: {
            T e = T(to + 1);  // failure order: explicit
            ref.compare_exchange_strong(e, e, MO::relaxed, r.chance(500) ? MO::acquire : MO::seq_cst);
            return e == to;
        }
        case 9: {
            T e = T(to + 1);  // failure order: derived from the only order given
            ref.compare_exchange_strong(e, e, r.pick({MO::acquire, MO::acq_rel, MO::seq_cst}));
            return e == to;
        }
        default: return ref.load() == to;
    }
}

template <typename T, int LOCAL>
void atomic_publish(Rng& rng) {
    const int rounds = 40;
    struct Slot {
        alignas(64) T flag;
        alignas(64) u64 payload[4];
    };
    std::vector<Slot> slots(rounds);
    std::vector<int> how(rounds), see(rounds);
    const T from = T(rng.below(4) * 2), to = T(from | 1);
    (void)to;
    std::vector<T> froms(rounds), tos(rounds);
    for (int i = 0; i < rounds; ++i) {
        how[std::size_t(i)] = int(rng.below(10));
        see[std::size_t(i)] = int(rng.below(11));
        T f = T(rng.below(60) * 2), t = T(f | 1);
        if (how[std::size_t(i)] == 6) std::swap(f, t);  // fetch_and clears the bit
        froms[std::size_t(i)] = f;
        tos[std::size_t(i)] = t;
        slots[std::size_t(i)].flag = f;
        for (auto& p : slots[std::size_t(i)].payload) p = 0;
    }
    vm::trace("publish: %d rounds, %zu bit, first by %d seen by %d", rounds, sizeof(T) * 8, how[0], see[0]);
    const u64 seed = rng.next();
    std::vector<u64> polls(2);
    vm::run_threads(2, [&](int t) {
        Rng r(vm::mix(seed + u64(t)));
        for (int i = 0; i < rounds; ++i) {
            Slot& s = slots[std::size_t(i)];
            // strictly alternating roles, so that nothing else orders the two threads
            if ((i & 1) == t) {
                for (int k = 0; k < 4; ++k) s.payload[k] = u64(i) * 10 + u64(k) + 1;
                if (!publish<T, LOCAL>(Ref<T, LOCAL>(s.flag), how[std::size_t(i)], froms[std::size_t(i)], tos[std::size_t(i)], r))
                    vm::die(TAG, "a compare-exchange by the only writer failed");
            } else {
                while (!arrived<T, LOCAL>(Ref<T, LOCAL>(s.flag), see[std::size_t(i)], tos[std::size_t(i)], r)) {
                    if (++polls[std::size_t(t)] % 50 == 0) sched_yield();
                }
                for (int k = 0; k < 4; ++k)
                    if (s.payload[k] != u64(i) * 10 + u64(k) + 1) vm::die(TAG, "published plain data was not visible after the acquiring operation");
                s.payload[0] = 7;  // and the data is now this thread's
            }
        }
    });
    vm::count("published", rounds);
    vm::st().nontrivial = true;
}

template <typename T, int LOCAL>
void atomic_lock(Rng& rng) {
    alignas(64) T lock = 0;
    struct alignas(64) {
        u64 a = 0, b = 0;
    } shared;
    const int nt = int(rng.range(2, 4)), K = 300;
    const int unlock = int(rng.below(4));
    const u64 seed = rng.next();
    vm::trace("lock: %d threads, unlock by %d, %zu bit", nt, unlock, sizeof(T) * 8);
    vm::run_threads(nt, [&](int t) {
        Rng r(vm::mix(seed + u64(t)));
        for (int i = 0; i < K; ++i) {
            Ref<T, LOCAL> ref(lock);
            for (;;) {
                T e = 0;
                u64 w = r.below(3);
                if (w == 0 && ref.compare_exchange_strong(e, T(1), r.pick({MO::acquire, MO::acq_rel, MO::seq_cst}))) break;
                if (w == 1 && ref.exchange(T(1), r.pick({MO::acquire, MO::acq_rel, MO::seq_cst})) == 0) break;
                if (w == 2 && ref.fetch_or(T(1), r.pick({MO::acquire, MO::acq_rel, MO::seq_cst})) == 0) break;
                sched_yield();
            }
            u64 a = shared.a, b = shared.b;
            if (a != b) vm::die(TAG, "two threads were inside a critical section guarded by an atomic reference");
            shared.a = a + 1;
            shared.b = b + 1;
            switch (unlock) {
                case 0: ref.store(T(0), r.chance(700) ? MO::release : MO::seq_cst); break;
                case 1: ref.exchange(T(0), r.pick({MO::release, MO::acq_rel, MO::seq_cst})); break;
                case 2: ref.fetch_and(T(0), r.pick({MO::release, MO::acq_rel, MO::seq_cst})); break;
                default: ref.store(T(0)); break;
            }
        }
    });
    vm::expect(shared.a == u64(nt) * u64(K), TAG, "updates in critical sections were lost");
    vm::count("critical_sections", u64(nt) * u64(K));
    vm::st().nontrivial = true;
}

// Store buffering: with the default order both threads can not miss each other.
template <typename T, int LOCAL>
void atomic_sb(Rng& rng) {
    struct Pair {
        alignas(64) T x;
        alignas(64) T y;
    };
    const int rounds = vm::st().thorough ? 20000 : 6000;
    static std::vector<Pair> v;
    v.assign(64, Pair{});
    std::vector<unsigned char> r0(std::size_t(rounds), 9), r1(std::size_t(rounds), 9);
    const int how = int(rng.below(4));
    vm::trace("store buffering %d, %zu bit", how, sizeof(T) * 8);
    Barrier bar(2);
    vm::run_threads(2, [&](int t) {
        for (int k = 0; k < rounds; ++k) {
            Pair& p = v[std::size_t(k & 63)];
            if ((k & 63) == 0) {
                bar.wait();
                if (t == 0)
                    for (auto& q : v) q.x = q.y = 0;
                bar.wait();
            }
            bar.wait();
            Ref<T, LOCAL> mine(t == 0 ? p.x : p.y), other(t == 0 ? p.y : p.x);
            T seen;
            if (how == 0) mine.store(T(1)), seen = other.load();
            else if (how == 1) mine = T(1), seen = other.load();
            else if (how == 2) mine.store(T(1), MO::seq_cst), seen = other.load(MO::seq_cst);
            else mine.store(T(1)), seen = other.load(MO::seq_cst);
            (t == 0 ? r0 : r1)[std::size_t(k)] = static_cast<unsigned char>(seen);
        }
    });
    for (int k = 0; k < rounds; ++k)
        vm::expect(r0[std::size_t(k)] || r1[std::size_t(k)], TAG, "two sequentially consistent store-load pairs both missed the other's store (round %d)", k);
    u64 both = 0;
    for (int k = 0; k < rounds; ++k) both += r0[std::size_t(k)] && r1[std::size_t(k)];
    vm::count("store_buffering_rounds", u64(rounds));
    vm::count("store_buffering_one_first", u64(rounds) - both);
    vm::st().nontrivial = true;
}

template <typename T, int LOCAL = GLOBAL>
void atomic_case(Rng& rng) {
    u64 k = rng.below(100);
    if (k < 40) atomic_sequential<T, LOCAL>(rng);
    else if (k < 60) atomic_linear<T, LOCAL>(rng);
    else if (k < 78) atomic_bulk<T, LOCAL>(rng);
    else if constexpr (sizeof(T) <= 1 || std::is_same_v<T, std::uint32_t> || std::is_same_v<T, std::int64_t>) {
        if (k < 90) atomic_publish<T, LOCAL>(rng);
        else if (k < 95) atomic_lock<T, LOCAL>(rng);
        else atomic_sb<T, LOCAL>(rng);
    } else
        atomic_sequential<T, LOCAL>(rng);
}
}  // namespace

VM_CASES(C01, 9, vm::Cases<>, [](auto k, vm::Rng& rng) {
    if constexpr (k == 0) atomic_case<std::int8_t>(rng);
    else if constexpr (k == 1) atomic_case<std::uint8_t>(rng);
    else if constexpr (k == 2) atomic_case<std::int16_t>(rng);
    else if constexpr (k == 3) atomic_case<std::uint16_t>(rng);
    else if constexpr (k == 4) atomic_case<std::int32_t>(rng);
    else if constexpr (k == 5) atomic_case<std::uint32_t>(rng);
    else if constexpr (k == 6) atomic_case<std::uint32_t, true>(rng);
    else if constexpr (k == 7) atomic_case<std::int64_t>(rng);
    else atomic_case<std::uint64_t>(rng);
})
VM_PROP(C01) {
    static const unsigned char pick[] = {0, 1, 2, 3, 4, 4, 5, 5, 6, 7, 7, 8};
    vm::Cases<>::run(TAG, pick[rng.below(12)], rng);
}

#else  // VM_MODE
template <typename T, int LOCAL = GLOBAL>
void mode_case(Rng& rng) {
    u64 k = VM_MODE == 1 || (LOCAL == OLDER && VM_MODE < 2) ? 0 : rng.below(100);
    if (k < 40) atomic_sequential<T, LOCAL>(rng);
    else if (k < 70) atomic_linear<T, LOCAL>(rng);
    else atomic_bulk<T, LOCAL>(rng);
}
}  // namespace

#if VM_MODE == 1
#define TYPES X(0, std::int8_t) X(1, std::uint8_t) X(2, std::int16_t) X(3, std::uint16_t) X(4, std::int32_t) X(5, std::uint32_t) X(6, std::int64_t) X(7, std::uint64_t)
constexpr int NTYPES = 8;
#elif VM_MODE <= 3
#define TYPES X(0, int) X(1, unsigned int) X(2, unsigned long long)
constexpr int NTYPES = 3;
#else
#define TYPES X(0, int) X(1, unsigned int) X(2, long) X(3, unsigned long)
constexpr int NTYPES = 4;
#endif

VM_PROP(C04) {
    const char* const names[] = {"no threads", "CUDA", "HIP", "SYCL 1.2.1", "SYCL 2020"};
    const int type = int(rng.below(NTYPES)), kind = int(rng.below(3));
    vm::trace("%s, type %d, class %d", names[VM_MODE - 1], type, kind);
#define X(k, T)                                                \
    if (type == k && kind == 0) mode_case<T>(rng);             \
    if (type == k && kind == 1) mode_case<T, LOCAL_SPACE>(rng); \
    if (type == k && kind == 2) mode_case<T, OLDER>(rng);
    TYPES
#undef X
    static const char* const c[] = {"cases_no_threads", "cases_cuda", "cases_hip", "cases_sycl_1_2", "cases_sycl_2020"};
    vm::count(c[VM_MODE - 1]);
}
#endif

VM_MAIN
