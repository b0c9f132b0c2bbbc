// The part of SYCL the library could use, on the emulated runtime. Queues are
// out of order unless asked otherwise: pending work runs in any order that its
// dependencies allow.
#pragma once
#include "../rt.hpp"
#include "atomics.hpp"

#include <algorithm>
#include <cassert>
#include <exception>
#include <stdexcept>

#define SYCL_EXTERNAL

namespace sycl {

class exception : public std::runtime_error {
public:
    using std::runtime_error::runtime_error;
};
using exception_list = std::vector<std::exception_ptr>;
using async_handler = std::function<void(exception_list)>;

namespace property {
namespace queue {
struct in_order {};
struct enable_profiling {};
}  // namespace queue
}  // namespace property
class property_list {
public:
    bool in_order = false;
    template <typename... P>
    property_list(P... p) {
        ((in_order = in_order || std::is_same_v<P, property::queue::in_order>), ...);
        ((void)p, ...);
    }
};

namespace info {
namespace device {
struct name {
    using return_type = std::string;
};
struct global_mem_size {
    using return_type = unsigned long;
};
}  // namespace device
}  // namespace info

class platform {};
class device {
public:
    int id = 0;
    device() = default;
    explicit device(int i) : id(i) {}
    template <typename P>
    typename P::return_type get_info() const {
        if constexpr (std::is_same_v<P, info::device::name>) return "Emulated device " + std::to_string(id);
        else return typename P::return_type(rt::space);
    }
    bool operator==(const device& o) const { return id == o.id; }
    bool operator!=(const device& o) const { return id != o.id; }
};
class context {
public:
    int id = 0;
    context() = default;
    explicit context(int i) : id(i) {}
    explicit context(const device& d) : id(d.id) {}
    bool operator==(const context& o) const { return id == o.id; }
    bool operator!=(const context& o) const { return id != o.id; }
};

namespace detail {
struct queue_impl;
struct task : std::enable_shared_from_this<task> {
    rt::Op op;
    bool done = false, fails = false;
    std::weak_ptr<queue_impl> q;
    std::vector<std::shared_ptr<task>> deps;
    inline void run();
};
struct queue_impl {
    int device = 0;
    bool in_order = false;
    async_handler handler;
    std::vector<std::shared_ptr<task>> pending;
    exception_list errors;
    std::uint64_t submitted = 0;
    void finish() {
        while (!pending.empty()) {
            auto t = pending[in_order ? 0 : rt::rnd(pending.size())];
            t->run();
        }
    }
    void report() {
        if (errors.empty()) return;
        exception_list e;
        e.swap(errors);
        if (!handler) throw exception("unhandled asynchronous error");
        handler(e);
    }
};
inline std::vector<std::shared_ptr<queue_impl>>& queues() {
    static std::vector<std::shared_ptr<queue_impl>> v;
    return v;
}
inline int& live_handles() {
    static int n = 0;
    return n;
}
inline int& default_device() {
    static int n = 0;
    return n;
}
inline void task::run() {
    if (done) return;
    auto self = shared_from_this();
    auto own = deps;
    for (auto& d : own) d->run();
    if (done) return;
    done = true;
    auto qi = q.lock();
    if (qi) {
        auto& p = qi->pending;
        for (auto it = p.begin(); it != p.end(); ++it)
            if (it->get() == this) {
                p.erase(it);
                break;
            }
    }
    if (fails) {
        ++rt::s().ops;
        if (qi) qi->errors.push_back(std::make_exception_ptr(exception("injected failure of a command")));
    } else rt::perform(op);
}
// Between cases.
inline void finish_all() {
    for (auto& q : queues()) {
        q->finish();
        q->errors.clear();
    }
    queues().clear();
}
inline std::size_t pending() {
    std::size_t n = 0;
    for (auto& q : queues()) n += q->pending.size();
    return n;
}
}  // namespace detail

class event {
public:
    std::shared_ptr<detail::task> t;
    event() = default;
    explicit event(std::shared_ptr<detail::task> x) : t(std::move(x)) {}
    void wait() {
        ++rt::s().waits;
        run_it();
    }
    void wait_and_throw() {
        ++rt::s().waits;
        run_it();
        if (t)
            if (auto q = t->q.lock()) q->report();
    }
    static void wait(const std::vector<event>& l) {
        for (auto e : l) e.wait();
    }
    static void wait_and_throw(const std::vector<event>& l) {
        for (auto e : l) e.wait();
        for (auto e : l) e.wait_and_throw();
    }
    bool operator==(const event& o) const { return t == o.t; }
    bool operator!=(const event& o) const { return t != o.t; }

private:
    void run_it() {
        if (!t) return;
        if (auto q = t->q.lock()) {
            if (q->in_order)
                while (!t->done) q->pending.front()->run();
            else
                // others may run first
                while (!t->done && !q->pending.empty() && rt::rnd(2)) q->pending[rt::rnd(q->pending.size())]->run();
        }
        t->run();
    }
};

class handler;

class queue {
    enum : unsigned { ALIVE = 0x51c1a11e, DEAD = 0xdeadc0de };
    volatile unsigned state_ = ALIVE;
    std::shared_ptr<detail::queue_impl> impl_;
    detail::queue_impl& impl() const {
        if (state_ != ALIVE) {
            rt::bad("a SYCL queue object is used after its destruction");
            std::abort();
        }
        return *impl_;
    }
    void make(int dev, bool in_order, async_handler h) {
        if (rt::fails("sycl::queue")) throw exception("injected failure of a queue's creation");
        impl_ = std::make_shared<detail::queue_impl>();
        impl_->device = dev;
        impl_->in_order = in_order;
        impl_->handler = std::move(h);
        detail::queues().push_back(impl_);
        ++detail::live_handles();
    }
    event submit_op(rt::Op o, const std::vector<event>& deps, const char* api) const {
        auto& q = impl();
        if (rt::fails(api)) throw exception("injected failure of a submission");
        auto t = std::make_shared<detail::task>();
        t->fails = rt::fails("sycl::command");
        if (o.n && (!rt::side_ok(o.to, o.n, "target") || (o.copy && !rt::side_ok(o.from, o.n, "source")))) throw exception("invalid argument");
        if (!o.copy && o.n && !rt::block_of(o.to)) rt::bad(std::string(api) + " is asked to fill memory that the runtime does not know");
        for (const void* p : {static_cast<const void*>(o.to), o.from})
            if (auto* b = p ? rt::block_of(p) : nullptr)
                if (b->second.lib == rt::lib_sycl && b->second.device != q.device) rt::bad(std::string(api) + " is given memory of another queue's context");
        t->op = std::move(o);
        t->q = impl_;
        for (auto& d : deps)
            if (d.t) t->deps.push_back(d.t);
        q.pending.push_back(t);
        ++q.submitted;
        ++rt::s().late;
        while (!q.pending.empty() && rt::rnd(1000) < rt::s().eager) q.pending[q.in_order ? 0 : rt::rnd(q.pending.size())]->run();
        return event(t);
    }

public:
    explicit queue(const property_list& p = {}) { make(detail::default_device(), p.in_order, {}); }
    explicit queue(const async_handler& h, const property_list& p = {}) { make(detail::default_device(), p.in_order, h); }
    explicit queue(const device& d, const property_list& p = {}) { make(d.id, p.in_order, {}); }
    explicit queue(const device& d, const async_handler& h, const property_list& p = {}) { make(d.id, p.in_order, h); }
    queue(const queue& o) : impl_((o.impl(), o.impl_)) { ++detail::live_handles(); }
    queue(queue&& o) : impl_((o.impl(), o.impl_)) { ++detail::live_handles(); }
    queue& operator=(const queue& o) {
        o.impl();
        impl_ = o.impl_;
        return *this;
    }
    ~queue() {
        impl();
        --detail::live_handles();
        state_ = DEAD;
    }
    bool operator==(const queue& o) const { return &impl() == &o.impl(); }
    bool operator!=(const queue& o) const { return !(*this == o); }
    device get_device() const { return device(impl().device); }
    context get_context() const { return context(impl().device); }
    std::uint64_t emulation_submitted() const { return impl().submitted; }
    bool is_in_order() const { return impl().in_order; }

    event memcpy(void* to, const void* from, std::size_t n) { return submit_op(rt::Op{true, n, from, to, 0, {}}, {}, "sycl::memcpy"); }
    event memcpy(void* to, const void* from, std::size_t n, event d) { return submit_op(rt::Op{true, n, from, to, 0, {}}, {d}, "sycl::memcpy"); }
    event memcpy(void* to, const void* from, std::size_t n, const std::vector<event>& d) { return submit_op(rt::Op{true, n, from, to, 0, {}}, d, "sycl::memcpy"); }
    template <typename T>
    event copy(const T* from, T* to, std::size_t n) {
        return memcpy(to, from, n * sizeof(T));
    }
    event memset(void* p, int v, std::size_t n) { return submit_op(rt::Op{false, n, nullptr, p, v, {}}, {}, "sycl::memset"); }
    event memset(void* p, int v, std::size_t n, event d) { return submit_op(rt::Op{false, n, nullptr, p, v, {}}, {d}, "sycl::memset"); }
    event memset(void* p, int v, std::size_t n, const std::vector<event>& d) { return submit_op(rt::Op{false, n, nullptr, p, v, {}}, d, "sycl::memset"); }
    template <typename T>
    event fill(void* p, const T& v, std::size_t n) {
        static_assert(sizeof(T) == 1, "only bytes are emulated");
        return memset(p, int(static_cast<unsigned char>(v)), n);
    }
    void wait() {
        ++rt::s().waits;
        impl().finish();
    }
    void wait_and_throw() {
        wait();
        impl().report();
    }
};

namespace usm {
enum class alloc { host = 0, device = 1, shared = 2, unknown = 3 };
}

namespace detail {
inline void* alloc(const char* api, std::size_t al, std::size_t n, int dev, rt::Kind k) {
    if (rt::fails(api)) return nullptr;
    if (al == 0) al = 64;
    if (al & (al - 1)) return nullptr;
    return rt::get(n, al, k, dev, rt::lib_sycl);
}
}  // namespace detail
inline void* aligned_alloc_device(std::size_t al, std::size_t n, const queue& q) { return detail::alloc("sycl::alloc_device", al, n, q.get_device().id, rt::on_device); }
inline void* aligned_alloc_host(std::size_t al, std::size_t n, const queue& q) { return detail::alloc("sycl::alloc_host", al, n, q.get_device().id, rt::page_locked); }
inline void* aligned_alloc_shared(std::size_t al, std::size_t n, const queue& q) { return detail::alloc("sycl::alloc_shared", al, n, q.get_device().id, rt::managed); }
inline void* aligned_alloc_device(std::size_t al, std::size_t n, const device& d, const context&) { return detail::alloc("sycl::alloc_device", al, n, d.id, rt::on_device); }
inline void* aligned_alloc_shared(std::size_t al, std::size_t n, const device& d, const context&) { return detail::alloc("sycl::alloc_shared", al, n, d.id, rt::managed); }
inline void* aligned_alloc_host(std::size_t al, std::size_t n, const context& c) { return detail::alloc("sycl::alloc_host", al, n, c.id, rt::page_locked); }
// without an alignment: suitable for any fundamental type
inline void* malloc_device(std::size_t n, const queue& q) { return aligned_alloc_device(16, n, q); }
inline void* malloc_host(std::size_t n, const queue& q) { return aligned_alloc_host(16, n, q); }
inline void* malloc_shared(std::size_t n, const queue& q) { return aligned_alloc_shared(16, n, q); }
inline void* aligned_alloc(std::size_t al, std::size_t n, const queue& q, usm::alloc k) {
    return k == usm::alloc::host ? aligned_alloc_host(al, n, q) : k == usm::alloc::device ? aligned_alloc_device(al, n, q) : k == usm::alloc::shared ? aligned_alloc_shared(al, n, q) : nullptr;
}
inline void* malloc(std::size_t n, const queue& q, usm::alloc k) { return aligned_alloc(16, n, q, k); }
inline void free(void* p, const context& c) {
    rt::fails("sycl::free");
    if (!p) return;
    if (auto* b = rt::block_of(p))
        if (b->second.lib == rt::lib_sycl && b->second.device != c.id) rt::bad("sycl::free is given memory of another context");
    rt::put(p, rt::lib_sycl, false, "sycl::free");
}
inline void free(void* p, const queue& q) { free(p, q.get_context()); }
inline usm::alloc get_pointer_type(const void* p, const context&) {
    auto* b = rt::block_of(p);
    return !b ? usm::alloc::unknown : b->second.kind == rt::on_device ? usm::alloc::device : b->second.kind == rt::page_locked ? usm::alloc::host : usm::alloc::shared;
}

template <typename T, int D>
class local_accessor {};

}  // namespace sycl
