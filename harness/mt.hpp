// Helpers for the multi-threaded workloads.
#pragma once
#include "vm.hpp"

#include <sched.h>

#include <atomic>
#include <mutex>
#include <thread>

namespace vm {

// Start line: threads leave it as simultaneously as possible.
struct StartLine {
    std::atomic<int> waiting{0};
    std::atomic<bool> go{false};
    int n;
    explicit StartLine(int k) : n(k) {}
    void wait() {
        if (waiting.fetch_add(1, std::memory_order_acq_rel) + 1 == n) go.store(true, std::memory_order_release);
        unsigned spins = 0;
        while (!go.load(std::memory_order_acquire))
            if (++spins > 200) sched_yield();
    }
};

inline void jitter(Rng& r, unsigned level) {
    if (!level) return;
    u64 x = r.below(100);
    if (x < 60) return;
    if (x < 85) {
        for (volatile unsigned i = 0; i < r.below(60 * level); i = i + 1) {
        }
    } else if (x < 99)
        sched_yield();
    else
        ::usleep(unsigned(r.below(20 * level)));
}

inline void progress_mt() {
    if (st().progress) __atomic_fetch_add(const_cast<u64*>(&st().progress[1]), 1, __ATOMIC_RELAXED);
}

template <typename F>
void run_threads(int n, F f) {
    StartLine line(n);
    std::vector<std::thread> ts;
    for (int i = 0; i < n; ++i)
        ts.emplace_back([&, i] {
            line.wait();
            f(i);
            progress_mt();
        });
    for (auto& t : ts) t.join();
}

}  // namespace vm
