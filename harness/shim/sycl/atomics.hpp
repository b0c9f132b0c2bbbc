// SYCL's atomics: the class of SYCL 1.2.1 with its functions, and the reference
// of SYCL 2020, on the host's own atomics.
#pragma once
#include <type_traits>

namespace sycl {

enum class memory_order { relaxed, acquire, release, acq_rel, seq_cst };
enum class memory_scope { work_item, sub_group, work_group, device, system };
namespace access {
enum class address_space { global_space, local_space, private_space, generic_space };
}

namespace vmd {
template <typename T>
constexpr bool allowed = std::is_same_v<T, int> || std::is_same_v<T, unsigned> || std::is_same_v<T, long> || std::is_same_v<T, unsigned long> ||
                         std::is_same_v<T, long long> || std::is_same_v<T, unsigned long long>;
template <typename T, typename F>
T loop(T* p, F f) {
    T old = __atomic_load_n(p, __ATOMIC_RELAXED);
    while (!__atomic_compare_exchange_n(p, &old, f(old), false, __ATOMIC_SEQ_CST, __ATOMIC_RELAXED)) {}
    return old;
}
inline bool is_load(memory_order o) { return o == memory_order::relaxed || o == memory_order::acquire || o == memory_order::seq_cst; }
inline bool is_store(memory_order o) { return o == memory_order::relaxed || o == memory_order::release || o == memory_order::seq_cst; }
}  // namespace vmd

template <typename T, access::address_space S>
class multi_ptr {
public:
    explicit multi_ptr(T* q) : p(q) {}
    T* get() const { return p; }

private:
    T* p;
};
template <typename T>
using global_ptr = multi_ptr<T, access::address_space::global_space>;
template <typename T>
using local_ptr = multi_ptr<T, access::address_space::local_space>;

template <typename T, access::address_space S = access::address_space::global_space>
class atomic {
    static_assert(vmd::allowed<T>, "not a type SYCL has atomics for");

public:
    explicit atomic(multi_ptr<T, S> q) : p(q.get()) {}
    T* p;
};
#define VM_SYCL_ATOMIC template <typename T, access::address_space S = access::address_space::global_space>
VM_SYCL_ATOMIC void atomic_store(atomic<T, S> a, T v, memory_order = memory_order::relaxed) { __atomic_store_n(a.p, v, __ATOMIC_RELAXED); }
VM_SYCL_ATOMIC T atomic_load(atomic<T, S> a, memory_order = memory_order::relaxed) { return __atomic_load_n(a.p, __ATOMIC_RELAXED); }
VM_SYCL_ATOMIC T atomic_exchange(atomic<T, S> a, T v, memory_order = memory_order::relaxed) { return __atomic_exchange_n(a.p, v, __ATOMIC_RELAXED); }
VM_SYCL_ATOMIC bool atomic_compare_exchange_strong(atomic<T, S> a, T& expected, T desired, memory_order = memory_order::relaxed,
                                                   memory_order = memory_order::relaxed) {
    return __atomic_compare_exchange_n(a.p, &expected, desired, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED);
}
VM_SYCL_ATOMIC T atomic_fetch_add(atomic<T, S> a, T v, memory_order = memory_order::relaxed) { return __atomic_fetch_add(a.p, v, __ATOMIC_RELAXED); }
VM_SYCL_ATOMIC T atomic_fetch_sub(atomic<T, S> a, T v, memory_order = memory_order::relaxed) { return __atomic_fetch_sub(a.p, v, __ATOMIC_RELAXED); }
VM_SYCL_ATOMIC T atomic_fetch_and(atomic<T, S> a, T v, memory_order = memory_order::relaxed) { return vmd::loop(a.p, [v](T x) { return T(x & v); }); }
VM_SYCL_ATOMIC T atomic_fetch_or(atomic<T, S> a, T v, memory_order = memory_order::relaxed) { return vmd::loop(a.p, [v](T x) { return T(x | v); }); }
VM_SYCL_ATOMIC T atomic_fetch_xor(atomic<T, S> a, T v, memory_order = memory_order::relaxed) { return vmd::loop(a.p, [v](T x) { return T(x ^ v); }); }
#undef VM_SYCL_ATOMIC

template <typename T, memory_order O, memory_scope C, access::address_space S = access::address_space::generic_space>
class atomic_ref {
    static_assert(vmd::allowed<T>, "not a type SYCL has atomics for");
    T* p;
    using mo = memory_order;
    using ms = memory_scope;

public:
    using value_type = T;
    using difference_type = T;
    explicit atomic_ref(T& r) : p(&r) {}
    atomic_ref(const atomic_ref&) = default;
    atomic_ref& operator=(const atomic_ref&) = delete;
    T operator=(T v) const {
        store(v);
        return v;
    }
    void store(T v, mo o = O, ms = C) const {
        if (!vmd::is_store(o)) __builtin_trap();
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
    }
    T load(mo o = O, ms = C) const {
        if (!vmd::is_load(o)) __builtin_trap();
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);
    }
    T exchange(T v, mo = O, ms = C) const { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
    bool compare_exchange_strong(T& e, T v, mo, mo f, ms = C) const {
        if (!vmd::is_load(f)) __builtin_trap();
        return __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    }
    bool compare_exchange_strong(T& e, T v, mo = O, ms = C) const { return __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
    T fetch_add(T v, mo = O, ms = C) const { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
    T fetch_sub(T v, mo = O, ms = C) const { return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
    T fetch_and(T v, mo = O, ms = C) const { return vmd::loop(p, [v](T x) { return T(x & v); }); }
    T fetch_or(T v, mo = O, ms = C) const { return vmd::loop(p, [v](T x) { return T(x | v); }); }
    T fetch_xor(T v, mo = O, ms = C) const { return vmd::loop(p, [v](T x) { return T(x ^ v); }); }
};

}  // namespace sycl
