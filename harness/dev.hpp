// A simulated accelerator: memory the host can not touch, and a copy object
// that performs transfers on it, at once or when an event is waited for.
#pragma once
#include "mr.hpp"

#include <vecmem/utils/copy.hpp>

#include <algorithm>
#include <deque>
#include <memory>

namespace vm {

// Memory with two addresses: the one given out (not accessible), and one at
// which the monitors and the transfers see the bytes.
class Device : public vecmem::memory_resource {
public:
    struct Rec {
        std::size_t size, align;
    };
    std::map<char*, Rec> live;
    std::function<bool()> fail_when;
    u64 allocs = 0, bad_returns = 0;

    Device() {
        if (!base()) {
            void* m = ::mmap(nullptr, space, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            void* s = m == MAP_FAILED ? MAP_FAILED : ::mremap(m, 0, space, MREMAP_MAYMOVE);
            if (s == MAP_FAILED || ::mprotect(m, space, PROT_NONE) != 0) {
                std::fprintf(stderr, "can not set up device memory\n");
                _exit(3);
            }
            base() = static_cast<char*>(m);
            shadow_base() = static_cast<char*>(s);
        }
        top_ = base() + 256;
        std::memset(see(base()), fill, 1024);
    }
    ~Device() override = default;

    static bool is_dev(const void* p) {
        auto c = static_cast<const char*>(p);
        return base() && c >= base() && c < base() + space;
    }
    // While code runs "on the device", its memory can be touched.
    static void reachable(bool yes) {
        if (::mprotect(base(), space, yes ? PROT_READ | PROT_WRITE : PROT_NONE) != 0) _exit(3);
    }
    // The accessible address of the same byte (host addresses stay).
    template <typename T>
    static T* see(T* p) {
        if (!is_dev(p)) return p;
        auto off = reinterpret_cast<const volatile char*>(p) - static_cast<const volatile char*>(base());
        return reinterpret_cast<T*>(shadow_base() + off);
    }
    bool holds(const void* vp, std::size_t n) const {
        auto p = static_cast<char*>(const_cast<void*>(vp));
        auto it = live.upper_bound(p);
        if (it == live.begin()) return false;
        --it;
        return p >= it->first && n <= it->second.size && std::size_t(p - it->first) <= it->second.size - n;
    }
    char* used_begin() const { return base(); }
    char* used_end() const { return top_ + 256; }

protected:
    void* do_allocate(std::size_t n, std::size_t al) override {
        if (n == 0) return nullptr;
        if (fail_when && fail_when()) throw injected_oom();
        auto v = (reinterpret_cast<std::uintptr_t>(top_) + 64 + al - 1) & ~(al - 1);
        if ((v & (2 * al - 1)) == 0) v += al;  // exactly this alignment
        char* p = reinterpret_cast<char*>(v);
        if (p + n + 4096 > base() + space) throw std::bad_alloc();
        std::memset(see(top_), fill, std::size_t(p + n + 320 - top_));
        top_ = p + n;
        live[p] = {n, al};
        ++allocs;
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t al) override {
        if (!p) return;
        auto it = live.find(static_cast<char*>(p));
        if (it == live.end() || it->second.size != n || it->second.align != al) {
            ++bad_returns;
            return;
        }
        live.erase(it);
    }
    bool do_is_equal(const vecmem::memory_resource& o) const noexcept override { return this == &o; }

private:
    static constexpr std::size_t space = std::size_t(64) << 20;
    static constexpr int fill = 0xa5;
    static char*& base() {
        static char* b = nullptr;
        return b;
    }
    static char*& shadow_base() {
        static char* b = nullptr;
        return b;
    }
    char* top_;
};

class SimCopy : public vecmem::copy {
public:
    Device* dev;
    std::vector<Upstream*> hosts;  // blocks whose bounds are known
    bool deferred = false;
    bool check_labels = false;
    unsigned eager = 0;  // permille of queued operations run before their time
    mutable Rng rng;
    mutable u64 issued = 0, done = 0, events = 0;

    SimCopy(Device* d, u64 seed) : dev(d), rng(seed) {}
    ~SimCopy() override = default;

    void run_to(u64 n) const {
        while (done < n && !queue_.empty()) {
            Op o = std::move(queue_.front());
            queue_.pop_front();
            ++done;
            perform(o);
        }
    }
    void finish() const { run_to(issued); }
    std::size_t pending() const { return queue_.size(); }

protected:
    void do_copy(std::size_t n, const void* from, void* to, type::copy_type t) const override {
        if (n == 0) {
            vecmem::copy::do_copy(0, Device::see(from), Device::see(to), t);
            return;
        }
        Op o{true, n, from, to, 0, t, {}};
        vm::trace("  transfer %zu bytes, %s -> %s, labelled %d", n, Device::is_dev(from) ? "device" : "host", Device::is_dev(to) ? "device" : "host", int(t));
        check_side(from, n, "source");
        check_side(to, n, "target");
        bool df = Device::is_dev(from), dt = Device::is_dev(to);
        bool ok = !check_labels || t == type::unknown || (t == type::host_to_device && !df && dt) || (t == type::device_to_host && df && !dt) || (t == type::host_to_host && !df && !dt) ||
                  (t == type::device_to_device && df && dt);
        vm::expect(ok, "K04", "a transfer from %s to %s memory is labelled as direction %d", df ? "device" : "host", dt ? "device" : "host", int(t));
        vm::count("transfers");
        if (deferred && !df) {
            // what a host source holds now it must still hold later
            bool from_queue = false;
            for (auto& q : queue_) from_queue = from_queue || (static_cast<const char*>(q.to) < static_cast<const char*>(from) + n && static_cast<const char*>(from) < static_cast<const char*>(q.to) + q.n);
            if (!from_queue) o.was.assign(static_cast<const char*>(from), static_cast<const char*>(from) + n);
        }
        submit(std::move(o));
    }
    void do_memset(std::size_t n, void* p, int v) const override {
        if (n == 0) {
            vecmem::copy::do_memset(0, Device::see(p), v);
            return;
        }
        vm::trace("  fill %zu bytes of %s with %d", n, Device::is_dev(p) ? "device" : "host", v);
        check_side(p, n, "target");
        vm::count("fills");
        submit(Op{false, n, nullptr, p, v, type::unknown, {}});
    }
    event_type create_event() const override {
        ++events;
        return std::make_unique<Event>(this, issued);
    }

private:
    struct Op {
        bool copy;
        std::size_t n;
        const void* from;
        void* to;
        int value;
        type::copy_type t;
        std::vector<char> was;
    };
    struct Event : vecmem::abstract_event {
        const SimCopy* c;
        u64 upto;
        Event(const SimCopy* cc, u64 n) : c(cc), upto(n) {}
        void wait() override { c->run_to(upto); }
        void ignore() override {}
    };
    mutable std::deque<Op> queue_;

    void check_side(const void* p, std::size_t n, const char* what) const {
        vm::expect(p != nullptr, "K04", "a transfer of %zu bytes has a null %s", n, what);
        if (Device::is_dev(p)) {
            vm::expect(dev && dev->holds(p, n), "K04", "the %s of a transfer of %zu bytes does not lie inside one block of device memory", what, n);
            return;
        }
        auto c = static_cast<const char*>(p);
        for (auto* u : hosts) {
            auto it = u->live.upper_bound(const_cast<char*>(c));
            if (it == u->live.begin()) continue;
            --it;
            if (c >= it->first + it->second.size) continue;
            // rows that happen to be neighbours may be transferred together
            const char* e = it->first + it->second.size;
            while (c + n > e && ++it != u->live.end() && it->first == e) e += it->second.size;
            vm::expect(c + n <= e, "K04", "the %s of a transfer of %zu bytes leaves the host memory it starts in", what, n);
        }
    }
    void submit(Op o) const {
        ++issued;
        if (!deferred) {
            ++done;
            perform(o);
            return;
        }
        queue_.push_back(std::move(o));
        vm::count("deferred");
        if (queue_.size() > 1) vm::count("queued_together");
        while (!queue_.empty() && rng.chance(eager)) run_to(done + 1);
    }
    void perform(const Op& o) const {
        if (deferred) {
            // the blocks must still be there
            check_side(o.to, o.n, "target");
            if (o.copy) check_side(o.from, o.n, "source");
            if (!o.was.empty())
                vm::expect(std::memcmp(o.was.data(), o.from, o.n) == 0, "K05", "the host memory a queued transfer of %zu bytes reads changed (or its object ended) before the transfer ran", o.n);
        }
        if (o.copy) vecmem::copy::do_copy(o.n, Device::see(o.from), Device::see(o.to), o.t);
        else vecmem::copy::do_memset(o.n, Device::see(o.to), o.value);
    }
};

// All memory of some resources, to be compared later.
class Snapshot {
    std::map<const char*, std::vector<char>> blocks_;

public:
    struct Range {
        const void* p;
        std::size_t n;
    };
    void take(const Upstream& u) {
        for (auto& [p, r] : u.live) blocks_[p] = std::vector<char>(p, p + r.size);
    }
    // with everything between the blocks
    void take(const Device& d) {
        const char* b = d.used_begin();
        blocks_[b] = std::vector<char>(Device::see(b), Device::see(b) + (d.used_end() - b));
    }
    void expect_same(const char* tag, std::vector<Range> except, const char* when) const {
        std::sort(except.begin(), except.end(), [](const Range& a, const Range& b) { return a.p < b.p; });
        // without overlaps, so that their ends are in order as well
        std::vector<Range> ex;
        for (auto& x : except) {
            if (x.n == 0) continue;
            auto b = static_cast<const char*>(x.p);
            if (!ex.empty() && b <= static_cast<const char*>(ex.back().p) + ex.back().n) {
                auto l = static_cast<const char*>(ex.back().p);
                ex.back().n = std::max(ex.back().n, std::size_t(b + x.n - l));
            } else
                ex.push_back(x);
        }
        for (auto& [p, was] : blocks_) {
            const char* now = Device::see(p);
            std::size_t i = 0, n = was.size();
            auto it = std::partition_point(ex.begin(), ex.end(), [&, p = p](const Range& x) { return static_cast<const char*>(x.p) + x.n <= p; });
            for (; it != ex.end(); ++it) {
                auto& x = *it;
                auto xp = static_cast<const char*>(x.p);
                if (xp >= p + n) break;
                std::size_t a = xp > p ? std::size_t(xp - p) : 0;
                if (a > i) same(p, was, now, i, a, tag, when);
                std::size_t e = std::size_t(xp + x.n - p);
                if (e > i) i = e < n ? e : n;
            }
            same(p, was, now, i, n, tag, when);
        }
        vm::count("snapshots_compared");
    }

private:
    static void same(const char*, const std::vector<char>& was, const char* now, std::size_t a, std::size_t b, const char* tag, const char* when) {
        if (a >= b || std::memcmp(was.data() + a, now + a, b - a) == 0) return;
        while (was[a] == now[a]) ++a;
        vm::expect(false, tag, "%s changed memory it must not change (byte %zu of a block of %zu bytes)", when, a, was.size());
    }
};

// The memory and the back end of one case.
struct World {
    enum Mode { PLAIN, DEVICE, DEFERRED };
    Mode mode;
    Upstream host, other, loose;  // loose: not compared (host vectors being resized)
    Device dev;
    SimCopy sim;
    vecmem::copy plain;
    const vecmem::copy& cp;
    std::vector<std::unique_ptr<vecmem::abstract_event>> events;
    Rng wait_rng;

    World(Mode m, Rng& r)
        : mode(m),
          host(r.next(), r.chance(500) ? Upstream::MALLOC : Upstream::SLAB_UP, "host"),
          other(r.next(), Upstream::MALLOC, "other"),
          loose(r.next(), Upstream::MALLOC, "loose"),
          sim(&dev, r.next()),
          cp(m == PLAIN ? plain : static_cast<const vecmem::copy&>(sim)),
          wait_rng(r.next()) {
        host.keep_events = other.keep_events = loose.keep_events = false;
        sim.hosts = {&host, &other, &loose};
        sim.check_labels = m == DEVICE;
        u64 e = r.below(3);
        if (m == DEFERRED) {
            sim.deferred = true;
            sim.eager = e == 0 ? 0 : e == 1 ? 100 : 500;
        }
    }
    bool deferred() const { return mode == DEFERRED; }
    // Where the next object lives.
    bool on_dev(Rng& r) const { return r.chance(600) && mode == DEVICE; }
    vecmem::memory_resource& main(bool d) { return d ? static_cast<vecmem::memory_resource&>(dev) : host; }
    // Memory for descriptors next to it (null: the same).
    vecmem::memory_resource* aside(bool d, Rng& r) {
        bool sep = r.chance(500);
        if (mode == DEVICE) return d ? &other : nullptr;
        return sep ? &other : nullptr;
    }
    vecmem::copy::type::copy_type label(bool df, bool dt, Rng& r) const {
        using t = vecmem::copy::type;
        bool open = r.chance(400);
        if (open) return t::unknown;
        return df ? (dt ? t::device_to_device : t::device_to_host) : (dt ? t::host_to_device : t::host_to_host);
    }
    // An operation was issued. Waits at once, unless transfers are deferred.
    void issued(vecmem::copy::event_type e) {
        if (!e) {
            expect(false, mode == DEFERRED ? "K05" : "K04", "an operation returned no event");
            return;
        }
        if (deferred()) events.push_back(std::move(e));
        else e->wait();
    }
    bool idle() const { return events.empty(); }
    void sync() {
        while (!events.empty()) {
            std::size_t i = wait_rng.below(events.size());
            events[i]->wait();
            events.erase(events.begin() + long(i));
            count("waits");
        }
    }
};

}  // namespace vm
