// The CUDA/HIP device functions that atomic references are made of, for the
// types those runtimes have them for, on the host's own atomics. As on the
// devices, nothing but the operation itself is ordered.
#pragma once
#include <atomic>

#define VM_DEVICE_ATOMICS(T)                                                                                              \
    inline T atomicExch(T* p, T v) { return __atomic_exchange_n(p, v, __ATOMIC_RELAXED); }                                \
    inline T atomicCAS(T* p, T compare, T v) {                                                                            \
        __atomic_compare_exchange_n(p, &compare, v, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED);                           \
        return compare;                                                                                                   \
    }                                                                                                                     \
    inline T atomicAdd(T* p, T v) { return __atomic_fetch_add(p, v, __ATOMIC_RELAXED); }                                  \
    inline T atomicAnd(T* p, T v) { return vm_loop(p, [v](T x) { return static_cast<T>(x & v); }); }                                   \
    inline T atomicOr(T* p, T v) { return vm_loop(p, [v](T x) { return static_cast<T>(x | v); }); }                                    \
    inline T atomicXor(T* p, T v) { return vm_loop(p, [v](T x) { return static_cast<T>(x ^ v); }); }
// (Loops, because GCC 13's own for fetch_and and its like is not reliable.)
template <typename T, typename F>
inline T vm_loop(T* p, F f) {
    T old = __atomic_load_n(p, __ATOMIC_RELAXED);
    while (!__atomic_compare_exchange_n(p, &old, f(old), false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
    return old;
}
VM_DEVICE_ATOMICS(int)
VM_DEVICE_ATOMICS(unsigned int)
VM_DEVICE_ATOMICS(unsigned long long)
inline int atomicSub(int* p, int v) { return __atomic_fetch_sub(p, v, __ATOMIC_RELAXED); }
inline unsigned int atomicSub(unsigned int* p, unsigned int v) { return __atomic_fetch_sub(p, v, __ATOMIC_RELAXED); }
#undef VM_DEVICE_ATOMICS
inline void __threadfence() { std::atomic_thread_fence(std::memory_order_seq_cst); }
