// An emulated accelerator runtime behind the CUDA, HIP and SYCL headers of
// this directory: several devices, memory the host can not touch, streams and
// queues that run their work late, events, and a book of everything that is
// handed out. What a real runtime would leave undefined is reported.
#pragma once
#include <sys/mman.h>

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace rt {

constexpr int n_devices = 4;
enum Kind { on_device, page_locked, managed };
enum Lib { lib_cuda, lib_hip, lib_sycl };
inline const char* kind_name(int k) { return k == on_device ? "device" : k == page_locked ? "host" : "managed"; }

struct Block {
    std::size_t size, align;
    Kind kind;
    int device;  // for SYCL the device of the context
    Lib lib;
    bool pretended = false;  // addresses only
};

struct Op {
    bool copy = true;
    std::size_t n = 0;
    const void* from = nullptr;
    void* to = nullptr;
    int value = 0;
    std::function<void()> then;
};

struct State {
    std::map<char*, Block> live;
    std::map<std::string, std::uint64_t> calls;
    std::map<std::string, int> fail_in;  // the k-th call of a function from now fails
    std::uint64_t random = 1, allocs = 0, frees = 0, ops = 0, late = 0, waits = 0;
    unsigned eager = 0;  // permille of pending work that runs before anybody waits
    void (*violation)(const char*) = nullptr;
    char* base = nullptr;
    char* shadow = nullptr;
    std::size_t top = 0;
    // Memory beyond what the machine has: addresses without anything behind
    // them, and a list of the transfers that touch them.
    bool giant = false;
    std::uintptr_t giant_top = 0;
    std::vector<Op> giant_ops;
};
inline State& s() {
    static State x;
    return x;
}
inline int& current() {
    static thread_local int d = 0;
    return d;
}
constexpr std::uintptr_t giant_base = std::uintptr_t(1) << 50;
constexpr std::size_t giant_largest = std::size_t(1) << 44;
constexpr std::size_t space = std::size_t(64) << 20;

inline void bad(const std::string& what) {
    if (s().violation) return s().violation(what.c_str());
    std::fprintf(stderr, "RUNTIME: %s\n", what.c_str());
    std::exit(70);
}
inline std::uint64_t rnd(std::uint64_t n) {
    auto& r = s().random;
    r += 0x9e3779b97f4a7c15ull;
    std::uint64_t z = r;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return n ? (z ^ (z >> 31)) % n : 0;
}

// --- memory
inline void init() {
    State& x = s();
    if (x.base) return;
    void* m = ::mmap(nullptr, space, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    void* sh = m == MAP_FAILED ? MAP_FAILED : ::mremap(m, 0, space, MREMAP_MAYMOVE);
    if (sh == MAP_FAILED || ::mprotect(m, space, PROT_NONE) != 0) std::_Exit(3);
    x.base = static_cast<char*>(m);
    x.shadow = static_cast<char*>(sh);
}
inline bool is_dev(const void* p) {
    auto c = static_cast<const char*>(p);
    return s().base && c >= s().base && c < s().base + space;
}
template <typename T>
T* see(T* p) {
    if (!is_dev(p)) return p;
    auto off = reinterpret_cast<const volatile char*>(p) - static_cast<const volatile char*>(s().base);
    return reinterpret_cast<T*>(s().shadow + off);
}
inline const std::pair<char* const, Block>* block_of(const void* vp) {
    auto p = static_cast<char*>(const_cast<void*>(vp));
    auto it = s().live.upper_bound(p);
    if (it == s().live.begin()) return nullptr;
    --it;
    return p < it->first + it->second.size ? &*it : nullptr;
}
// All state between cases.
inline void reset(std::uint64_t seed) {
    init();
    State& x = s();
    for (auto& [p, b] : x.live)
        if (b.kind != on_device && !b.pretended) std::free(p);
    x.live.clear();
    x.calls.clear();
    x.fail_in.clear();
    x.random = seed;
    x.top = 0;
    x.eager = 0;
    x.giant = false;
    x.giant_top = giant_base;
    x.giant_ops.clear();
    current() = 0;
}
inline bool fails(const char* api) {
    State& x = s();
    ++x.calls[api];
    auto it = x.fail_in.find(api);
    if (it == x.fail_in.end()) return false;
    if (--it->second > 0) return false;
    x.fail_in.erase(it);
    return true;
}
inline std::uint64_t called(const char* api) {
    auto it = s().calls.find(api);
    return it == s().calls.end() ? 0 : it->second;
}
inline void* get(std::size_t n, std::size_t al, Kind k, int device, Lib lib) {
    init();
    State& x = s();
    if (n == 0) return nullptr;
    char* p = nullptr;
    if (x.giant && n > space / 8 && n <= giant_largest) {
        auto v = (x.giant_top + 4096 + al - 1) & ~(std::uintptr_t(al) - 1);
        if ((v & (2 * al - 1)) == 0) v += al;
        x.giant_top = v + n;
        p = reinterpret_cast<char*>(v);
        x.live[p] = Block{n, al, k, device, lib, true};
        ++x.allocs;
        return p;
    }
    if (n > space / 4) return nullptr;
    if (k == on_device) {
        auto v = (reinterpret_cast<std::uintptr_t>(x.base) + x.top + 64 + al - 1) & ~(al - 1);
        if ((v & (2 * al - 1)) == 0) v += al;  // exactly this alignment
        p = reinterpret_cast<char*>(v);
        if (p + n + 4096 > x.base + space) return nullptr;
        std::memset(see(x.base + x.top), 0xa5, std::size_t(p + n + 64 - (x.base + x.top)));
        x.top = std::size_t(p + n - x.base);
    } else {
        void* q = nullptr;
        if (::posix_memalign(&q, al < sizeof(void*) ? sizeof(void*) : al, n) != 0) return nullptr;
        std::memset(q, 0xa5, n);
        p = static_cast<char*>(q);
    }
    x.live[p] = Block{n, al, k, device, lib};
    ++x.allocs;
    return p;
}
// Whether it was something the given function may free.
inline bool put(void* p, Lib lib, bool host_function, const char* api) {
    State& x = s();
    auto it = x.live.find(static_cast<char*>(p));
    if (it == x.live.end()) {
        bad(std::string(api) + " is called on memory that is not allocated (any more)");
        return false;
    }
    Block b = it->second;
    if (b.lib != lib || (lib != lib_sycl && host_function != (b.kind == page_locked))) {
        bad(std::string(api) + " is called on " + kind_name(b.kind) + " memory of another allocation function");
        return false;
    }
    x.live.erase(it);
    ++x.frees;
    if (b.pretended) return true;
    if (b.kind != on_device) std::free(p);
    else std::memset(see(static_cast<char*>(p)), 0xdd, b.size);
    return true;
}

// --- work
inline bool side_ok(const void* p, std::size_t n, const char* what) {
    if (!p) {
        bad(std::string("a transfer has a null ") + what);
        return false;
    }
    if (auto* b = block_of(p)) {
        if (static_cast<const char*>(p) + n > b->first + b->second.size) {
            bad(std::string("a transfer leaves the block of its ") + what);
            return false;
        }
    } else if (is_dev(p)) {
        bad(std::string("the ") + what + " of a transfer is device memory that is not allocated (any more)");
        return false;
    }
    return true;
}
inline void perform(const Op& o) {
    ++s().ops;
    if (o.n && side_ok(o.to, o.n, "target") && (!o.copy || side_ok(o.from, o.n, "source"))) {
        auto pretended = [](const void* p) {
            auto* b = p ? block_of(p) : nullptr;
            return b && b->second.pretended;
        };
        if (pretended(o.to) || (o.copy && pretended(o.from))) s().giant_ops.push_back(Op{o.copy, o.n, o.from, o.to, o.value, {}});
        else if (o.copy) std::memmove(see(static_cast<char*>(o.to)), see(static_cast<const char*>(o.from)), o.n);
        else std::memset(see(static_cast<char*>(o.to)), o.value, o.n);
    }
    if (o.then) o.then();
}
// The direction given for a transfer; -1: find out.
inline bool direction_ok(int kind, const void* from, const void* to) {
    auto cls = [](const void* p) {
        auto* b = block_of(p);
        return !b ? 0 : b->second.kind == on_device ? 1 : b->second.kind == page_locked ? 0 : 2;
    };
    if (kind < 0 || kind > 4) return false;
    if (kind == 4) return true;
    int f = cls(from), t = cls(to);
    int wf = (kind == 2 || kind == 3) ? 1 : 0, wt = (kind == 1 || kind == 3) ? 1 : 0;
    return (f == 2 || f == wf) && (t == 2 || t == wt);
}

// --- in-order streams and events (CUDA, HIP)
struct Stream {
    int device;
    Lib lib;
    bool alive = true;
    std::deque<Op> queue;
    std::uint64_t issued = 0, done = 0;
    void run_to(std::uint64_t n) {
        while (done < n && !queue.empty()) {
            Op o = std::move(queue.front());
            queue.pop_front();
            ++done;
            perform(o);
        }
    }
    void submit(Op o) {
        ++issued;
        queue.push_back(std::move(o));
        ++s().late;
        while (!queue.empty() && rnd(1000) < s().eager) run_to(done + 1);
    }
};
struct Event {
    int device;
    Lib lib;
    bool alive = true;
    Stream* on = nullptr;
    std::uint64_t upto = 0;
};
inline std::map<const void*, std::unique_ptr<Stream>>& streams() {
    static std::map<const void*, std::unique_ptr<Stream>> v;
    return v;
}
inline std::map<const void*, std::unique_ptr<Event>>& events() {
    static std::map<const void*, std::unique_ptr<Event>> v;
    return v;
}
inline void drain(int device) {
    for (auto& [h, st] : streams())
        if (device < 0 || st->device == device) st->run_to(st->issued);
}
inline Stream* stream_at(const void* h) {
    auto it = streams().find(h);
    return it == streams().end() ? nullptr : it->second.get();
}
inline Event* event_at(const void* h) {
    auto it = events().find(h);
    return it == events().end() ? nullptr : it->second.get();
}
inline std::size_t live_streams() {
    std::size_t n = 0;
    for (auto& [h, st] : streams()) n += st->alive;
    return n;
}
inline std::size_t live_events() {
    std::size_t n = 0;
    for (auto& [h, e] : events()) n += e->alive;
    return n;
}
inline std::size_t pending() {
    std::size_t n = 0;
    for (auto& [h, st] : streams()) n += st->queue.size();
    return n;
}
inline void forget_streams() {
    drain(-1);
    streams().clear();
    events().clear();
}

}  // namespace rt
