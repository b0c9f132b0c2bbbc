// D01 memory resources, D02 copies, D03 asynchronous copies and their events,
// D04 stream and queue wrappers of the CUDA, HIP and SYCL back ends, run on an
// emulated runtime (shim/) that keeps the books and reports misuse.
#include "shim/cuda_runtime_api.h"
#include "shim/hip/hip_runtime_api.h"
#include "shim/sycl/sycl.hpp"
#include "vm.hpp"

#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/jagged_vector_data.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/jagged_vector.hpp>
#include <vecmem/containers/vector.hpp>
#include <vecmem/memory/cuda/device_memory_resource.hpp>
#include <vecmem/memory/cuda/host_memory_resource.hpp>
#include <vecmem/memory/cuda/managed_memory_resource.hpp>
#include <vecmem/memory/hip/device_memory_resource.hpp>
#include <vecmem/memory/hip/host_memory_resource.hpp>
#include <vecmem/memory/hip/managed_memory_resource.hpp>
#include <vecmem/memory/host_memory_resource.hpp>
#include <vecmem/memory/sycl/device_memory_resource.hpp>
#include <vecmem/memory/sycl/host_memory_resource.hpp>
#include <vecmem/memory/sycl/shared_memory_resource.hpp>
#include <vecmem/utils/cuda/async_copy.hpp>
#include <vecmem/utils/cuda/copy.hpp>
#include <vecmem/utils/hip/copy.hpp>
#include <vecmem/utils/sycl/async_copy.hpp>
#include <vecmem/utils/sycl/copy.hpp>

#include <any>
#include <optional>
#include <thread>

using vm::Rng;
using vm::u64;
namespace data = vecmem::data;
using BT = data::buffer_type;
using ctype = vecmem::copy::type;

namespace {
const char* TAG = "D01";
void violated(const char* m) { vm::expect(false, TAG, "%s", m); }

struct Session {
    explicit Session(const char* tag, Rng& rng) {
        TAG = tag;
        rt::s().violation = violated;
        rt::forget_streams();
        sycl::detail::finish_all();
        rt::reset(rng.next());
        sycl::detail::default_device() = int(rng.below(rt::n_devices));
        handles0 = sycl::detail::live_handles();
    }
    int handles0;
    // Nothing may be left when all objects of the case are gone.
    void nothing_left() {
        if (vm::st().tainted) return;
        vm::expect(rt::s().live.empty(), TAG, "%zu blocks of memory were never released", rt::s().live.size());
        vm::expect(rt::live_streams() == 0, TAG, "%zu streams were never destroyed", rt::live_streams());
        vm::expect(rt::live_events() == 0, TAG, "%zu events were never destroyed", rt::live_events());
        vm::expect(sycl::detail::live_handles() == handles0, TAG, "%d queue objects were never destroyed", sycl::detail::live_handles() - handles0);
    }
};

template <typename F>
bool throws(F f) {
    try {
        f();
    } catch (const std::exception& e) {
        vm::trace("  -> %s", "exception");
        return true;
    }
    return false;
}

// ---------------------------------------------------------------- D01
struct Res {
    std::unique_ptr<vecmem::memory_resource> mr;
    rt::Lib lib;
    rt::Kind kind;
    int device;  // -1: any
    bool broken = false;
    int q = -1;  // which queue
    const char* name;
};
struct Client {
    char* p;
    std::size_t n, al;
    std::size_t owner;
    unsigned char fill;
    bool pretended;
};

class Resources {
    Rng& rng;
    std::vector<std::unique_ptr<sycl::queue>> user_q;
    std::vector<std::unique_ptr<vecmem::sycl::queue_wrapper>> wraps;
    std::vector<int> wrap_q, q_dev;
    std::vector<Res> rs;
    std::vector<Client> blocks;

    void add() {
        Res r;
        r.device = -1;
        int cur = rt::current();
        int d = rng.chance(300) ? -1 : int(rng.below(rt::n_devices));
        switch (rng.below(9)) {
            case 0: {
                r.broken = rng.chance(60);
                if (r.broken) d = rt::n_devices + int(rng.below(3));
                r.lib = rt::lib_cuda, r.kind = rt::on_device, r.name = "cuda device";
                r.device = d < 0 ? cur : d;
                if (d < 0 && rng.chance(500)) r.mr = std::make_unique<vecmem::cuda::device_memory_resource>();
                else r.mr = std::make_unique<vecmem::cuda::device_memory_resource>(d);
                break;
            }
            case 1:
                r.lib = rt::lib_cuda, r.kind = rt::page_locked, r.name = "cuda host";
                r.mr = std::make_unique<vecmem::cuda::host_memory_resource>();
                break;
            case 2:
                r.lib = rt::lib_cuda, r.kind = rt::managed, r.name = "cuda managed";
                r.mr = std::make_unique<vecmem::cuda::managed_memory_resource>();
                break;
            case 3:
                r.broken = rng.chance(60);
                if (r.broken) d = rt::n_devices + int(rng.below(3));
                r.lib = rt::lib_hip, r.kind = rt::on_device, r.name = "hip device";
                r.device = d < 0 ? cur : d;
                if (d < 0 && rng.chance(500)) r.mr = std::make_unique<vecmem::hip::device_memory_resource>();
                else r.mr = std::make_unique<vecmem::hip::device_memory_resource>(d);
                break;
            case 4:
                r.lib = rt::lib_hip, r.kind = rt::page_locked, r.name = "hip host";
                r.mr = std::make_unique<vecmem::hip::host_memory_resource>();
                break;
            case 5:
                r.lib = rt::lib_hip, r.kind = rt::managed, r.name = "hip managed";
                r.mr = std::make_unique<vecmem::hip::managed_memory_resource>();
                break;
            default: {
                r.lib = rt::lib_sycl;
                u64 k = rng.below(3);
                r.kind = k == 0 ? rt::on_device : k == 1 ? rt::page_locked : rt::managed;
                r.name = k == 0 ? "sycl device" : k == 1 ? "sycl host" : "sycl shared";
                if (rng.chance(150) || wraps.empty()) {
                    // a queue of its own
                    r.device = sycl::detail::default_device();
                    r.q = int(q_dev.size());
                    q_dev.push_back(r.device);
                    if (k == 0) r.mr = std::make_unique<vecmem::sycl::device_memory_resource>();
                    else if (k == 1) r.mr = std::make_unique<vecmem::sycl::host_memory_resource>();
                    else r.mr = std::make_unique<vecmem::sycl::shared_memory_resource>();
                } else {
                    std::size_t w = rng.below(wraps.size());
                    r.q = wrap_q[w];
                    r.device = q_dev[std::size_t(r.q)];
                    const auto& ww = *wraps[w];
                    if (k == 0) r.mr = std::make_unique<vecmem::sycl::device_memory_resource>(ww);
                    else if (k == 1) r.mr = std::make_unique<vecmem::sycl::host_memory_resource>(ww);
                    else r.mr = std::make_unique<vecmem::sycl::shared_memory_resource>(ww);
                }
            }
        }
        vm::trace("r%zu: %s on %d%s (current %d)", rs.size(), r.name, r.device, r.broken ? " (does not exist)" : "", cur);
        vm::expect(rt::current() == cur, "D01", "making a %s resource changed the current device", r.name);
        rs.push_back(std::move(r));
    }
    const char* api(const Res& r) {
        switch (r.lib) {
            case rt::lib_cuda: return r.kind == rt::on_device ? "cudaMalloc" : r.kind == rt::page_locked ? "cudaMallocHost" : "cudaMallocManaged";
            case rt::lib_hip: return r.kind == rt::on_device ? "hipMalloc" : r.kind == rt::page_locked ? "hipMallocHost" : "hipMallocManaged";
            default: return r.kind == rt::on_device ? "sycl::alloc_device" : r.kind == rt::page_locked ? "sycl::alloc_host" : "sycl::alloc_shared";
        }
    }
    void allocate(std::size_t i) {
        Res& r = rs[i];
        std::size_t n = rng.chance(60) ? 0 : rng.chance(100) ? rng.range(1, 70000) : rng.chance(20) ? std::size_t(1) << rng.range(40, 62)
                        : rt::s().giant && rng.chance(300) ? rng.range(1, 1000000) * rng.range(4096, 1 << 22) + rng.below(2) * rng.below(5000) : rng.range(1, 700);
        std::size_t al = std::size_t(1) << rng.below(r.lib == rt::lib_sycl ? 12 : 9);
        bool inject = rng.chance(80);
        if (inject) rt::s().fail_in[api(r)] = 1;
        int cur = rt::current();
        auto live0 = rt::s().live.size();
        void* p = nullptr;
        bool threw = throws([&] { p = r.mr->allocate(n, al); });
        rt::s().fail_in.clear();
        vm::trace("r%zu allocate %zu/%zu%s on current %d -> %s", i, n, al, inject ? " (failing)" : "", cur, threw ? "exception" : p ? "block" : "null");
        vm::expect(rt::current() == cur, "D01", "allocating from a %s resource left device %d current, not %d", r.name, rt::current(), cur);
        vm::count("requests");
        if (n == 0) {
            vm::expect(threw ? r.broken : p == nullptr, "D01", "a request for no bytes from a %s resource %s", r.name, threw ? "failed" : "gave memory");
            vm::expect(rt::s().live.size() == live0, "D01", "a request for no bytes from a %s resource took memory", r.name);
            return;
        }
        if (threw) {
            vm::expect(inject || r.broken || n > (rt::s().giant ? rt::giant_largest : rt::space / 8), "D01", "a %s resource failed without a reason", r.name);
            vm::expect(rt::s().live.size() == live0, "D01", "a failed request to a %s resource leaks memory", r.name);
            vm::count("failed_requests");
            return;
        }
        vm::expect(!inject && !r.broken, "D01", "a %s resource hides a failure of the runtime", r.name);
        vm::expect(p != nullptr, "D01", "a %s resource gave nothing for %zu bytes", r.name, n);
        auto* b = rt::block_of(p);
        vm::expect(b && b->first == p && b->second.size >= n && rt::s().live.size() == live0 + 1, "D01", "a %s resource gave something else than a new block of %zu bytes", r.name, n);
        vm::expect(b->second.lib == r.lib && b->second.kind == r.kind, "D01", "a %s resource gave %s memory", r.name, rt::kind_name(b->second.kind));
        vm::expect(r.device < 0 || b->second.device == r.device, "D01", "a %s resource for device %d gave memory of device %d", r.name, r.device, b->second.device);
        vm::expect(reinterpret_cast<std::uintptr_t>(p) % al == 0, "D01", "a %s resource ignored alignment %zu", r.name, al);
        auto fill = static_cast<unsigned char>(rng.next());
        const bool giant = b->second.pretended;
        if (r.kind != rt::on_device && !giant) std::memset(p, fill, n);
        if (n >> 32) vm::count("giant_blocks");
        blocks.push_back({static_cast<char*>(p), n, al, i, fill, giant});
        vm::count("blocks");
    }
    __attribute__((no_sanitize("nonnull-attribute"))) static void give_nothing(vecmem::memory_resource& mr, std::size_t n) {
        void* volatile none = nullptr;
        mr.deallocate(none, n, 8);
    }
    void release(std::size_t k) {
        Client c = blocks[k];
        blocks.erase(blocks.begin() + long(k));
        std::size_t by = c.owner;
        // any resource that claims to be equal must be able to do it
        if (rng.chance(400)) {
            std::size_t o = rng.below(rs.size());
            if (!rs[o].broken && rs[o].mr->is_equal(*rs[c.owner].mr)) by = o;
            if (by != c.owner) vm::count("cross_releases");
        }
        if (rs[c.owner].kind != rt::on_device && !c.pretended)
            for (std::size_t i = 0; i < c.n; ++i)
                if (static_cast<unsigned char>(c.p[i]) != c.fill) {
                    vm::expect(false, "D01", "a block of a %s resource changed", rs[c.owner].name);
                    break;
                }
        int cur = rt::current();
        auto live0 = rt::s().live.size();
        vm::trace("r%zu release block of r%zu on current %d", by, c.owner, cur);
        rs[by].mr->deallocate(c.p, c.n, c.al);
        vm::expect(rt::current() == cur, "D01", "releasing to a %s resource left device %d current, not %d", rs[by].name, rt::current(), cur);
        vm::expect(rt::s().live.size() == live0 - 1 && !rt::s().live.count(c.p), "D01", "a block given back to a %s resource was not released", rs[by].name);
        vm::count("releases");
    }
    void compare() {
        std::size_t i = rng.below(rs.size()), j = rng.below(rs.size());
        Res &a = rs[i], &b = rs[j];
        bool e = a.mr->is_equal(*b.mr), f = b.mr->is_equal(*a.mr);
        vm::trace("r%zu == r%zu: %d", i, j, e);
        vm::expect(e == f, "D01", "a %s and a %s resource do not agree on being equal", a.name, b.name);
        bool same = a.lib == b.lib && a.kind == b.kind && (a.lib == rt::lib_sycl ? a.q == b.q : a.kind == rt::on_device ? a.device == b.device : true);
        vm::expect(!same || e, "D01", "two %s resources for the same memory are not equal", a.name);
        bool differ = a.lib != b.lib || (a.lib == rt::lib_sycl ? a.device != b.device : a.kind != b.kind || (a.kind == rt::on_device && a.device != b.device));
        vm::expect(!differ || !e, "D01", "a %s and a %s resource for different memory are equal", a.name, b.name);
        vm::count(e ? "equal_pairs" : "unequal_pairs");
    }

public:
    explicit Resources(Rng& r) : rng(r) {}
    void run() {
        std::size_t nu = rng.below(3);
        for (std::size_t i = 0; i < nu; ++i) {
            user_q.push_back(std::make_unique<sycl::queue>(sycl::device(int(rng.below(rt::n_devices)))));
            wraps.push_back(std::make_unique<vecmem::sycl::queue_wrapper>(static_cast<void*>(user_q.back().get())));
            wrap_q.push_back(int(q_dev.size()));
            q_dev.push_back(user_q.back()->get_device().id);
        }
        nu = rng.below(3);
        for (std::size_t i = 0; i < nu; ++i) {
            sycl::detail::default_device() = int(rng.below(rt::n_devices));
            wraps.push_back(std::make_unique<vecmem::sycl::queue_wrapper>());
            wrap_q.push_back(int(q_dev.size()));
            q_dev.push_back(sycl::detail::default_device());
        }
        rt::s().giant = rng.chance(250);
        int n = int(rng.range(1, 6));
        for (int i = 0; i < n; ++i) {
            rt::current() = int(rng.below(rt::n_devices));
            add();
        }
        // the wrappers given to the resources need not live on
        if (rng.chance(400)) wraps.clear(), wrap_q.clear();
        int steps = int(rng.range(5, 60));
        for (int s = 0; s < steps && !vm::st().tainted; ++s) {
            if (rng.chance(300)) rt::current() = int(rng.below(rt::n_devices));
            if (rng.chance(30) && rs.size() < 12) add();
            if (rng.chance(150)) compare();
            std::function<void()> f;
            if (!blocks.empty() && rng.chance(450)) {
                auto k = rng.below(blocks.size());
                f = [this, k] { release(k); };
            } else {
                auto i = rng.below(rs.size());
                f = [this, i] { allocate(i); };
            }
            if (rng.chance(40)) {
                // from another thread, whose current device is another one
                int d = int(rng.below(rt::n_devices));
                std::exception_ptr ex;
                std::thread([&] {
                    rt::current() = d;
                    try {
                        f();
                    } catch (...) {
                        ex = std::current_exception();
                    }
                }).join();
                if (ex) std::rethrow_exception(ex);
                vm::count("other_threads");
            } else
                f();
        }
        // releasing nothing
        for (auto& r : rs)
            if (rng.chance(300) && !r.broken) {
                give_nothing(*r.mr, rng.below(100));
            }
        while (!blocks.empty() && !vm::st().tainted) release(rng.below(blocks.size()));
        while (!rs.empty()) rs.erase(rs.begin() + long(rng.below(rs.size())));
        vm::st().nontrivial = steps > 20;
    }
};

// ---------------------------------------------------------------- D02, D03
struct P3 {
    unsigned char b[3];
    bool operator==(const P3& o) const { return std::memcmp(b, o.b, 3) == 0; }
};
template <typename T>
T val(u64 x) {
    T t;
    x = vm::mix(x);
    unsigned char b[16];
    for (auto& c : b) c = static_cast<unsigned char>(x >> ((&c - b) % 8 * 8));
    if constexpr (std::is_same_v<T, double>) return double(std::int64_t(x) >> 12);
    else {
        std::memcpy(&t, b, sizeof(T));
        return t;
    }
}
template <typename T>
bool same(const T& a, const T& b) {
    return std::memcmp(&a, &b, sizeof(T)) == 0;
}

enum Side { HOST, DEV, BOTH };

// One back end with the resources that go with it.
struct Backend {
    std::string name;
    rt::Lib lib;
    bool async = false, in_order = true;
    int device = 0;
    std::vector<std::pair<vecmem::memory_resource*, Side>> mem;
    std::vector<std::unique_ptr<vecmem::memory_resource>> own;
    vecmem::host_memory_resource plain;
    vecmem::copy plain_copy;  // for memory the runtime knows nothing about
    std::unique_ptr<sycl::queue> q;
    cudaStream_t user_stream = nullptr;
    std::unique_ptr<vecmem::cuda::stream_wrapper> sw;
    std::unique_ptr<vecmem::sycl::queue_wrapper> qw;
    std::unique_ptr<vecmem::copy> c;
    int handled = 0;
    bool throwing_handler = false;

    template <typename R, typename... A>
    void add(Side s, A&&... a) {
        own.push_back(std::make_unique<R>(std::forward<A>(a)...));
        mem.emplace_back(own.back().get(), s);
    }
    Backend(Rng& rng, bool as) : async(as) {
        device = int(rng.below(rt::n_devices));
        rt::current() = device;
        u64 k = as ? rng.below(2) * 2 : rng.below(3);
        rt::s().eager = rng.pick<unsigned>({0, 0, 200, 600});
        if (k == 0) {
            name = as ? "cuda::async_copy" : "cuda::copy";
            lib = rt::lib_cuda;
            add<vecmem::cuda::device_memory_resource>(DEV);
            if (rng.chance(300)) add<vecmem::cuda::device_memory_resource>(DEV, int(rng.below(rt::n_devices)));
            add<vecmem::cuda::host_memory_resource>(HOST);
            add<vecmem::cuda::managed_memory_resource>(BOTH);
            if (as) {
                if (rng.chance(400)) {
                    cudaStreamCreate(&user_stream);
                    sw = std::make_unique<vecmem::cuda::stream_wrapper>(static_cast<void*>(user_stream));
                } else
                    sw = std::make_unique<vecmem::cuda::stream_wrapper>(rng.chance(500) ? -1 : device);
                c = std::make_unique<vecmem::cuda::async_copy>(*sw);
                // the copy object keeps what it needs
                if (rng.chance(400)) sw.reset();
            } else
                c = std::make_unique<vecmem::cuda::copy>();
        } else if (k == 1) {
            name = "hip::copy";
            lib = rt::lib_hip;
            add<vecmem::hip::device_memory_resource>(DEV);
            add<vecmem::hip::host_memory_resource>(HOST);
            add<vecmem::hip::managed_memory_resource>(BOTH);
            c = std::make_unique<vecmem::hip::copy>();
        } else {
            name = as ? "sycl::async_copy" : "sycl::copy";
            lib = rt::lib_sycl;
            sycl::detail::default_device() = device;
            in_order = rng.chance(300);
            throwing_handler = rng.chance(500);
            auto pl = in_order ? sycl::property_list(sycl::property::queue::in_order()) : sycl::property_list();
            if (rng.chance(600)) {
                q = std::make_unique<sycl::queue>(sycl::device(device), [this](sycl::exception_list l) {
                    ++handled;
                    if (throwing_handler) std::rethrow_exception(l.at(0));
                }, pl);
                qw = std::make_unique<vecmem::sycl::queue_wrapper>(static_cast<void*>(q.get()));
            } else {
                in_order = false;
                throwing_handler = true;  // as the emulation's default
                qw = std::make_unique<vecmem::sycl::queue_wrapper>();
            }
            add<vecmem::sycl::device_memory_resource>(DEV, *qw);
            add<vecmem::sycl::host_memory_resource>(HOST, *qw);
            add<vecmem::sycl::shared_memory_resource>(BOTH, *qw);
            if (as) c = std::make_unique<vecmem::sycl::async_copy>(*qw);
            else c = std::make_unique<vecmem::sycl::copy>(*qw);
            if (rng.chance(400)) qw.reset();
        }
        mem.emplace_back(&plain, HOST);
        vm::trace("%s on device %d%s%s", name.c_str(), device, user_stream || q ? ", user's stream or queue" : "", in_order ? "" : ", out of order");
    }
    void finish() {
        rt::drain(-1);
        for (auto& x : sycl::detail::queues()) x->finish();
    }
    ~Backend() {
        c.reset();
        if (user_stream) cudaStreamDestroy(user_stream);
    }
};

// Guarded memory: what is not part of any container must stay as it is.
struct Ev {
    vecmem::copy::event_type e;
    u64 serial;
    bool done = false;
    std::size_t holds = 0;  // runtime events
};

template <typename T>
struct Place {
    std::string kind;
    bool jagged = false, resizable = false;
    Side side = HOST;
    std::vector<unsigned> caps;
    std::vector<std::vector<T>> rows;  // expected
    bool known = true;                 // the contents are
    bool lost = false;                 // an event of it was ignored
    data::vector_view<T> v;
    data::jagged_vector_view<T> jv;
    std::any keep;
    std::vector<std::shared_ptr<Ev>> pending;
    bool registered = true;

    const data::vector_view<T>& row(std::size_t i) const { return jagged ? reinterpret_cast<const data::vector_view<T>&>(jv.host_ptr()[i]) : v; }
};

template <typename T>
class Copies {
    Rng& rng;
    Backend& b;
    const char* tag;
    std::deque<Place<T>> ps;
    std::vector<std::any> kept;
    std::vector<std::pair<std::shared_ptr<Ev>, std::vector<Place<T>*>>> evs;
    struct Out {
        std::shared_ptr<Ev> e;
        std::function<void()> check;
    };
    std::vector<Out> outs;
    u64 serial = 0;

    template <typename X>
    static std::any hold(X&& x) {
        return std::make_shared<std::decay_t<X>>(std::forward<X>(x));
    }
    ctype::copy_type label(Side f, Side t) {
        if (f == BOTH || t == BOTH || rng.chance(300)) return ctype::unknown;
        return f == HOST ? (t == HOST ? ctype::host_to_host : ctype::host_to_device) : (t == HOST ? ctype::device_to_host : ctype::device_to_device);
    }

    // --- events
    void after(vecmem::copy::event_type e, std::vector<Place<T>*> touched) {
        if (!b.async) {
            // complete by now; waiting changes nothing
            u64 r = rng.below(3);
            if (r == 0) e->wait();
            else if (r == 1) e->ignore();
            return;
        }
        auto ev = std::make_shared<Ev>();
        ev->e = std::move(e);
        ev->serial = ++serial;
        if (b.lib == rt::lib_cuda) {
            std::size_t known = 0;
            for (auto& x : evs) known += x.first->holds;
            ev->holds = rt::live_events() - known;
            vm::expect(ev->holds <= 1, tag, "%s made %zu runtime events for one operation", b.name.c_str(), ev->holds);
        }
        for (auto* p : touched) p->pending.push_back(ev);
        evs.push_back({ev, touched});
        if (rng.chance(400)) settle(evs.size() - 1);
    }
    void settle(std::size_t k) {
        auto [ev, touched] = evs[k];
        evs.erase(evs.begin() + long(k));
        auto open = [&] { return b.lib == rt::lib_cuda ? rt::live_events() : 0; };
        auto n0 = open();
        u64 how = rng.below(100);
        if (how < 8) {
            auto w = rt::s().waits;
            auto p = rt::pending() + sycl::detail::pending();
            ev->e->ignore();
            if (rng.chance(300)) ev->e->ignore();
            vm::trace("  event %llu ignored", (unsigned long long)ev->serial);
            vm::expect(rt::s().waits == w && (rt::s().eager || rt::pending() + sycl::detail::pending() == p), tag, "ignoring an event waits for it");
            ev->e.reset();
            vm::expect(rt::s().waits == w, tag, "destroying an ignored event waits for it");
            for (auto* t : touched) t->lost = true;
            vm::count("ignored");
        } else {
            if (how < 30) {
                ev->e.reset();  // waits
                vm::trace("  event %llu dropped", (unsigned long long)ev->serial);
                vm::count("dropped");
            } else {
                ev->e->wait();
                vm::trace("  event %llu waited for", (unsigned long long)ev->serial);
                if (rng.chance(200)) ev->e->wait();
                if (rng.chance(100)) ev->e->ignore();
                vm::count("waits");
            }
            for (auto* t : touched)
                if (!t->pending.empty() && t->pending.back() == ev && !t->lost) {
                    check(*t, "after its event was waited for");
                    vm::count("checked_after_wait");
                }
            for (auto it = outs.begin(); it != outs.end();)
                if (it->e == ev) {
                    it->check();
                    it = outs.erase(it);
                } else
                    ++it;
        }
        ev->e.reset();
        ev->done = true;
        if (b.lib == rt::lib_cuda) vm::expect(open() + ev->holds == n0, tag, "a runtime event is not destroyed (exactly once) with its event object");
        for (auto* t : touched)
            for (auto it = t->pending.begin(); it != t->pending.end();)
                if (*it == ev) it = t->pending.erase(it);
                else ++it;
    }
    void ready(Place<T>& p, bool must = false) {
        if (!b.async) return;
        bool skip = b.in_order && !must && !p.lost && rng.chance(700);
        if (skip) return;
        if (p.lost) {
            b.finish();
            p.lost = false;
        }
        while (!p.pending.empty()) {
            auto ev = p.pending.front();
            for (std::size_t k = 0; k < evs.size(); ++k)
                if (evs[k].first == ev) {
                    settle(k);
                    break;
                }
            if (p.lost) {
                b.finish();
                p.lost = false;
            }
        }
    }

    // --- what is where
    void check(Place<T>& p, const char* when) {
        if (!p.known || vm::st().tainted) return;
        for (std::size_t r = 0; r < p.caps.size(); ++r) {
            auto& v = p.row(r);
            std::size_t n = p.rows[r].size();
            if (p.resizable && (p.jagged || p.caps[r] > 0)) {
                unsigned got = *rt::see(v.size_ptr());
                if (!vm::expect(got == n, tag, "%s: row %zu of a %s has size %u instead of %zu, %s", b.name.c_str(), r, p.kind.c_str(), got, n, when)) return;
            }
            for (std::size_t i = 0; i < n; ++i)
                if (!same(*rt::see(v.ptr() + i), p.rows[r][i])) {
                    vm::expect(false, tag, "%s: element %zu of row %zu (of size %zu) of a %s is wrong, %s", b.name.c_str(), i, r, n, p.kind.c_str(), when);
                    return;
                }
        }
        vm::count("comparisons");
    }

    void make(bool jagged) {
        ps.emplace_back();
        Place<T>& p = ps.back();
        auto [mr, side] = b.mem[rng.below(b.mem.size())];
        p.side = side;
        p.registered = mr != &b.plain;
        p.jagged = jagged;
        p.resizable = rng.chance(450);
        auto one = [&] { return unsigned(rng.chance(100) ? 0 : rng.chance(60) ? rng.below(900) : rng.range(1, 12)); };
        if (jagged) {
            p.caps.resize(rows_);
            for (auto& x : p.caps) x = one();
            p.kind = "jagged buffer";
            auto h = std::make_shared<data::jagged_vector_buffer<T>>(p.caps, *mr, side == DEV ? &b.plain : nullptr, p.resizable ? BT::resizable : BT::fixed_size);
            p.jv = vecmem::get_data(*h);
            p.keep = h;
        } else {
            p.caps = {one()};
            p.kind = "buffer";
            auto h = std::make_shared<data::vector_buffer<T>>(p.caps[0], *mr, p.resizable ? BT::resizable : BT::fixed_size);
            p.v = vecmem::get_data(*h);
            p.keep = h;
        }
        p.kind = (side == DEV ? "device " : side == BOTH ? "managed " : "host ") + p.kind + (p.resizable ? " (resizable)" : "");
        vm::trace("p%zu: %s of %zu rows, first %u", ps.size() - 1, p.kind.c_str(), p.caps.size(), p.caps.empty() ? 0 : p.caps[0]);
        p.rows.resize(p.caps.size());
        p.known = p.resizable;
        if (!jagged && !p.resizable && rng.chance(500)) {
            if (p.caps[0] == 0) p.known = true;
        } else {
            auto& c = p.registered ? *b.c : b.plain_copy;
            auto e = jagged ? c.setup(p.jv) : c.setup(p.v);
            if (p.registered) after(std::move(e), {&p});
        }
        if (b.async) ready(p, true);
    }
    // From host memory made for it, which lives as long as the case.
    void write(std::size_t j) {
        Place<T>& p = ps[j];
        if (p.jagged) {
            auto src = std::make_shared<vecmem::jagged_vector<T>>(&b.plain);
            for (std::size_t r = 0; r < p.caps.size(); ++r) {
                std::size_t n = p.resizable ? rng.below(p.caps[r] + 1) : p.caps[r];
                src->push_back(typename vecmem::jagged_vector<T>::value_type(&b.plain));
                for (std::size_t i = 0; i < n; ++i) src->back().push_back(val<T>(rng.next()));
            }
            auto d = std::make_shared<data::jagged_vector_data<T>>(vecmem::get_data(*src, &b.plain));
            kept.push_back(src);
            kept.push_back(d);
            vm::trace("write p%zu", j);
            ready(p);
            auto e = (*b.c)(data::jagged_vector_view<const T>(vecmem::get_data(*d)), p.jv, label(HOST, p.side));
            for (std::size_t r = 0; r < p.caps.size(); ++r) p.rows[r].assign((*src)[r].begin(), (*src)[r].end());
            p.known = true;
            after(std::move(e), {&p});
        } else {
            std::size_t n = p.resizable ? rng.below(p.caps[0] + 1) : p.caps[0];
            auto src = std::make_shared<vecmem::vector<T>>(&b.plain);
            for (std::size_t i = 0; i < n; ++i) src->push_back(val<T>(rng.next()));
            kept.push_back(src);
            vm::trace("write p%zu (%zu)", j, n);
            ready(p);
            vecmem::copy::event_type e;
            std::function<void()> run = [&] { e = (*b.c)(data::vector_view<const T>(vecmem::get_data(*src)), p.v, label(HOST, p.side)); };
            if (p.resizable || !failing(p, run)) {
                if (p.resizable) run();
                p.rows[0].assign(src->begin(), src->end());
                p.known = true;
                after(std::move(e), {&p});
            }
        }
        vm::count("copies");
    }
    // A single transfer that fails sometimes. True: it did (and was dealt with).
    bool failing(Place<T>& p, std::function<void()>& run) {
        bool simple = b.lib != rt::lib_sycl || p.caps[0] > 0;
        if (!simple || !rng.chance(60)) {
            if (b.async && rng.chance(500) && !p.resizable && p.caps[0] > 0 && !rt::s().eager) {
                auto w = rt::s().waits;
                auto n = rt::pending() + sycl::detail::pending();
                run();
                vm::expect(rt::s().waits == w && rt::pending() + sycl::detail::pending() > n, tag, "%s waits for the work it starts", b.name.c_str());
                vm::count("not_waited");
            } else
                run();
            return false;
        }
        const char* api = b.lib == rt::lib_cuda ? (b.async ? rng.pick({"cudaMemcpyAsync", "cudaEventCreate", "cudaEventRecord"}) : "cudaMemcpy")
                          : b.lib == rt::lib_hip ? "hipMemcpy"
                          : b.async ? "sycl::memcpy"
                                    : rng.pick({"sycl::memcpy", "sycl::command"});
        if (p.caps[0] == 0 && std::strstr(api, "Memcpy")) {
            run();
            return false;
        }
        bool command = std::strcmp(api, "sycl::command") == 0;
        int h0 = b.handled;
        auto n0 = rt::live_events();
        rt::s().fail_in[api] = 1;
        bool t = throws(run);
        bool used = !rt::s().fail_in.count(api);
        rt::s().fail_in.clear();
        vm::trace("  %s was to fail: %s", api, t ? "exception" : "no exception");
        vm::expect(!used || t || (command && !b.throwing_handler && b.handled == h0 + 1), tag, "%s hides a failure of %s", b.name.c_str(), api);
        if (t) vm::expect(rt::live_events() == n0, tag, "%s leaks an event when %s fails", b.name.c_str(), api);
        if (used) vm::count("injected_failures");
        b.finish();
        if (!used) return false;
        p.known = false;
        p.rows.assign(p.caps.size(), {});
        return true;
    }
    void copy_op(std::size_t i, std::size_t j) {
        Place<T>&f = ps[i], &t = ps[j];
        if (f.jagged != t.jagged || !f.known || !t.known || f.caps.size() != t.caps.size()) return;
        for (std::size_t r = 0; r < f.caps.size(); ++r)
            if (f.rows[r].size() > t.caps[r] || (!t.resizable && f.rows[r].size() != t.caps[r])) return;
        vm::trace("copy p%zu -> p%zu", i, j);
        ready(f);
        ready(t);
        auto e = f.jagged ? (*b.c)(data::jagged_vector_view<const T>(f.jv), t.jv, label(f.side, t.side)) : (*b.c)(data::vector_view<const T>(f.v), t.v, label(f.side, t.side));
        t.rows = f.rows;
        after(std::move(e), {&f, &t});
        vm::count("copies");
        if (f.side == DEV && t.side == DEV) vm::count("device_to_device");
    }
    void read_op(std::size_t i) {
        Place<T>& f = ps[i];
        if (!f.known) return;
        vm::trace("read p%zu", i);
        ready(f);
        auto expected = std::make_shared<std::vector<std::vector<T>>>(f.rows);
        auto l = f.side == DEV && rng.chance(600) ? ctype::device_to_host : ctype::unknown;
        auto name = b.name;
        auto t = tag;
        auto cmp = [name, t, expected](const auto& got, std::size_t r) {
            auto& ex = (*expected)[r];
            bool ok = got.size() == ex.size();
            for (std::size_t k = 0; ok && k < ex.size(); ++k) ok = same(got[k], ex[k]);
            vm::expect(ok, t, "%s: a host vector is not filled with what was copied to it", name.c_str());
        };
        std::function<void()> chk;
        vecmem::copy::event_type e;
        if (f.jagged) {
            auto to = std::make_shared<vecmem::jagged_vector<T>>(&b.plain);
            e = (*b.c)(data::jagged_vector_view<const T>(f.jv), *to, l);
            chk = [to, cmp, expected, t] {
                if (vm::expect(to->size() == expected->size(), t, "a host jagged vector has the wrong number of rows"))
                    for (std::size_t r = 0; r < to->size(); ++r) cmp((*to)[r], r);
            };
            kept.push_back(to);
        } else {
            auto to = std::make_shared<vecmem::vector<T>>(&b.plain);
            e = (*b.c)(data::vector_view<const T>(f.v), *to, l);
            chk = [to, cmp] { cmp(*to, 0); };
            kept.push_back(to);
        }
        vm::count("reads");
        if (!b.async) {
            chk();
            return after(std::move(e), {});
        }
        after(std::move(e), {&f});
        // the event just added, unless it is settled already
        bool open = !evs.empty() && evs.back().first->serial == serial;
        if (open) outs.push_back({evs.back().first, chk});
        else if (!f.lost) chk();
    }
    void fill_op(std::size_t j) {
        Place<T>& p = ps[j];
        if (!p.registered) return;
        int v = int(rng.below(256));
        if (rng.chance(100)) v -= 256;
        vm::trace("fill p%zu with %d", j, v);
        ready(p);
        auto e = p.jagged ? b.c->memset(p.jv, v) : b.c->memset(p.v, v);
        for (std::size_t r = 0; r < p.caps.size(); ++r) {
            if (!p.resizable) p.rows[r].resize(p.caps[r]);
            for (auto& x : p.rows[r]) std::memset(static_cast<void*>(&x), v, sizeof x);
        }
        if (!p.resizable) p.known = true;
        after(std::move(e), {&p});
        vm::count("fills");
    }
    void size_op(std::size_t i) {
        Place<T>& p = ps[i];
        if (!p.known) return;
        ready(p);
        if (p.jagged) {
            auto s = b.c->get_sizes(p.jv);
            bool ok = s.size() == p.caps.size();
            for (std::size_t r = 0; ok && r < s.size(); ++r) ok = s[r] == p.rows[r].size();
            vm::expect(ok, tag, "%s: the sizes of a %s are wrong", b.name.c_str(), p.kind.c_str());
        } else
            vm::expect(b.c->get_size(p.v) == p.rows[0].size(), tag, "%s: the size of a %s is wrong", b.name.c_str(), p.kind.c_str());
        vm::count("sizes");
    }
    std::size_t rows_;

public:
    Copies(Rng& r, Backend& bb, const char* t) : rng(r), b(bb), tag(t), rows_(r.below(5)) {}
    void run() {
        // releases go to the runtime, which waits for its devices; SYCL does not
        try {
            run_it();
        } catch (...) {
            b.finish();
            throw;
        }
        b.finish();
        rt::s().fail_in.clear();
    }
    void run_it() {
        int n = int(rng.range(2, 6));
        for (int i = 0; i < n; ++i) make(rng.chance(450));
        int steps = int(rng.range(4, 40));
        for (int s = 0; s < steps && !vm::st().tainted; ++s) {
            std::size_t i = rng.below(ps.size()), j = rng.below(ps.size());
            switch (rng.below(10)) {
                case 0:
                case 1:
                case 2: write(j); break;
                case 3: read_op(i); break;
                case 4: fill_op(j); break;
                case 5: size_op(i); break;
                default:
                    if (i != j) copy_op(i, j);
            }
            if (!b.async)
                for (auto& p : ps) check(p, "after an operation");
            else if (!evs.empty() && rng.chance(300))
                settle(rng.below(evs.size()));
        }
        while (!evs.empty() && !vm::st().tainted) settle(rng.below(evs.size()));
        b.finish();
        for (auto& p : ps) check(p, "at the end");
        vm::st().nontrivial = steps > 10;
    }
};

// Copies and fills beyond 32 bits: nothing is behind the addresses, but the
// runtime lists what it is asked to do, which has to be what a byte-wise
// transfer of every row would be.
template <typename T>
class GiantCopies {
    struct Area {
        std::size_t mem = 0;
        char* p = nullptr;
        std::size_t bytes = 0;
        std::vector<data::vector_view<T>> rows;
        std::vector<data::vector_view<const T>> crows;
        bool jagged = false;
    };
    Rng& rng;
    Backend& b;
    const char* tag;
    std::vector<Area> as;

    Area area(const std::vector<unsigned>& sizes, bool jagged, std::size_t align) {
        Area a;
        a.jagged = jagged;
        a.mem = rng.below(b.mem.size() - 1);
        std::vector<std::size_t> at;
        bool gaps = rng.chance(300);
        for (unsigned n : sizes) {
            if (gaps) a.bytes += align * rng.below(5);
            at.push_back(a.bytes);
            a.bytes += std::size_t(n) * sizeof(T);
        }
        a.bytes += align;
        a.p = static_cast<char*>(b.mem[a.mem].first->allocate(a.bytes, align));
        auto* blk = rt::block_of(a.p);
        vm::expect(blk && blk->first == a.p && blk->second.size >= a.bytes, tag, "no block of %zu bytes where one was asked for", a.bytes);
        for (std::size_t i = 0; i < sizes.size(); ++i) {
            auto* t = reinterpret_cast<T*>(a.p + at[i]);
            a.rows.emplace_back(sizes[i], t);
            a.crows.emplace_back(sizes[i], t);
        }
        return a;
    }
    // Every byte of the rows of a target must have been written, from where it has to come from.
    void judge(const std::vector<rt::Op>& ops, const Area& to, const Area* from, int value) {
        for (std::size_t i = 0; i < to.rows.size(); ++i) {
            auto t0 = reinterpret_cast<std::uintptr_t>(to.rows[i].ptr()), t1 = t0 + std::size_t(to.rows[i].size()) * sizeof(T);
            auto f0 = from ? reinterpret_cast<std::uintptr_t>(from->rows[i].ptr()) : 0;
            std::vector<std::pair<std::uintptr_t, std::uintptr_t>> got;
            for (auto& o : ops) {
                auto x0 = reinterpret_cast<std::uintptr_t>(o.to), x1 = x0 + o.n;
                auto l = std::max(x0, t0), h = std::min(x1, t1);
                if (l >= h) continue;
                if (from) vm::expect(o.copy && reinterpret_cast<std::uintptr_t>(o.from) + (l - x0) == f0 + (l - t0), tag, "%s takes a part of row %zu from another place", b.name.c_str(), i);
                else vm::expect(!o.copy && static_cast<unsigned char>(o.value) == static_cast<unsigned char>(value), tag, "%s fills row %zu with something else", b.name.c_str(), i);
                got.emplace_back(l, h);
            }
            std::sort(got.begin(), got.end());
            auto upto = t0;
            for (auto& [l, h] : got)
                if (l <= upto) upto = std::max(upto, h);
            vm::expect(upto == t1, tag, "%s moves or fills only %zu of %zu bytes of row %zu", b.name.c_str(), std::size_t(upto - t0), std::size_t(t1 - t0), i);
        }
        for (auto& o : ops) {
            // nothing else may be written
            auto x = reinterpret_cast<std::uintptr_t>(o.to), x1 = x + o.n;
            for (bool on = true; on && x < x1;) {
                on = false;
                for (auto& r : to.rows) {
                    auto t0 = reinterpret_cast<std::uintptr_t>(r.ptr()), t1 = t0 + std::size_t(r.size()) * sizeof(T);
                    if (x >= t0 && x < t1) x = t1, on = true;
                }
            }
            vm::expect(x >= x1, tag, "%s writes outside of the container", b.name.c_str());
        }
    }

public:
    GiantCopies(Rng& r, Backend& be, const char* t) : rng(r), b(be), tag(t) {}
    void run() {
        rt::s().giant = true;
        bool jagged = rng.chance(400);
        std::vector<unsigned> sizes(jagged ? rng.range(1, 6) : 1);
        for (auto& n : sizes) {
            u64 k = rng.below(5);
            n = k == 0 ? unsigned(rng.next()) : k == 1 ? ~0u - unsigned(rng.below(3)) : k == 2 ? (1u << 31) + unsigned(rng.below(100)) : k == 3 && sizes.size() > 1 ? unsigned(rng.below(3)) : unsigned(((u64(1) << 32) + rng.below(1 << 20)) / sizeof(T) + 1);
        }
        sizes[rng.below(sizes.size())] |= 1u << 30;
        std::size_t align = rng.chance(500) ? 16 : 64;
        int na = int(rng.range(2, 4));
        for (int i = 0; i < na; ++i) as.push_back(area(sizes, jagged, align));
        std::size_t total = 0;
        for (unsigned n : sizes) total += std::size_t(n) * sizeof(T);
        vm::trace("giant %s of %zu bytes in %zu rows", jagged ? "jagged vectors" : "vectors", total, sizes.size());
        int steps = int(rng.range(2, 8));
        for (int k = 0; k < steps && !vm::st().tainted; ++k) {
            auto& to = rng.pick(as);
            bool fill = rng.chance(300);
#ifndef VECMEM_HAVE_SYCL_MEMSET
            if (b.lib == rt::lib_sycl) fill = false;  // copies from as much host memory
#endif
            Area* from = fill ? nullptr : &rng.pick(as);
            if (from == &to) continue;
            int value = int(rng.below(256));
            b.finish();
            rt::s().giant_ops.clear();
            vecmem::copy::event_type e;
            if (fill) {
                vm::trace("fill %s with %d", "an area", value);
                if (jagged) e = b.c->memset(data::jagged_vector_view<T>(unsigned(to.rows.size()), to.rows.data()), value);
                else e = b.c->memset(to.rows[0], value);
            } else {
                Side f = b.mem[from->mem].second, t = b.mem[to.mem].second;
                auto l = f == BOTH || t == BOTH || rng.chance(300) ? ctype::unknown : f == HOST ? (t == HOST ? ctype::host_to_host : ctype::host_to_device) : (t == HOST ? ctype::device_to_host : ctype::device_to_device);
                vm::trace("copy %s", "area to area");
                if (jagged) e = (*b.c)(data::jagged_vector_view<const T>(unsigned(from->crows.size()), from->crows.data()), data::jagged_vector_view<T>(unsigned(to.rows.size()), to.rows.data()), l);
                else e = (*b.c)(from->crows[0], to.rows[0], l);
            }
            e->wait();
            auto ops = rt::s().giant_ops;
            judge(ops, to, from, value);
            if (total >> 32) vm::count("giant_transfers");
        }
        b.finish();
        for (auto& a : as) b.mem[a.mem].first->deallocate(a.p, a.bytes, align);
        vm::st().nontrivial = steps > 3;
    }
};

void copies(Rng& rng, const char* tag, bool async) {
    Session s(tag, rng);
    if (rng.chance(40)) {
        Backend b(rng, async);
        switch (rng.below(4)) {
            case 0: GiantCopies<char>(rng, b, tag).run(); break;
            case 1: GiantCopies<int>(rng, b, tag).run(); break;
            case 2: GiantCopies<double>(rng, b, tag).run(); break;
            default: GiantCopies<P3>(rng, b, tag).run(); break;
        }
    } else {
        Backend b(rng, async);
        switch (rng.below(4)) {
            case 0: Copies<char>(rng, b, tag).run(); break;
            case 1: Copies<int>(rng, b, tag).run(); break;
            case 2: Copies<double>(rng, b, tag).run(); break;
            default: Copies<P3>(rng, b, tag).run(); break;
        }
    }
    s.nothing_left();
}

// Errors while waiting, and events of streams on other devices.
void event_errors(Rng& rng, bool other) {
    Session s("D03", rng);
    {
        int dev = int(rng.below(rt::n_devices)), cur = other ? int(dev + rng.range(1, rt::n_devices - 1)) % rt::n_devices : dev;
        rt::current() = cur;
        vecmem::host_memory_resource plain;
        vecmem::cuda::device_memory_resource mr(dev);
        vecmem::cuda::stream_wrapper w(dev);
        vecmem::cuda::async_copy c(w);
        vecmem::vector<int> h(10, 7, &plain);
        data::vector_buffer<int> d(10, mr);
        vm::trace("stream on device %d, current device %d", dev, cur);
        vecmem::copy::event_type e;
        bool threw = throws([&] { e = c(data::vector_view<const int>(vecmem::get_data(h)), d, ctype::host_to_device); });
        if (threw) {
            rt::drain(-1);
            vm::expect(dev != cur, "D03", "an asynchronous copy failed without a reason");
            vm::expect(rt::live_events() == 0, "D03", "a failed asynchronous copy leaks a runtime event");
            vm::expect(false, "D03", "no event can be made for a stream of another device than the current one");
            return;
        }
        rt::s().fail_in["cudaEventSynchronize"] = 1;
        vm::expect(throws([&] { e->wait(); }), "D03", "a failure reported while waiting for an event is hidden");
        rt::s().fail_in.clear();
        vm::count("failed_waits");
        if (rng.chance(500)) {
            e->wait();
            for (int i = 0; i < 10; ++i) vm::expect(rt::see(data::vector_view<int>(d).ptr())[i] == 7, "D03", "a wait repeated after a failure does not complete the work");
        }
        e.reset();
        rt::drain(-1);
    }
    s.nothing_left();
}

// ---------------------------------------------------------------- D04
void cuda_wrappers(Rng& rng) {
    using W = vecmem::cuda::stream_wrapper;
    struct Slot {
        std::unique_ptr<W> w;
        std::unique_ptr<vecmem::cuda::async_copy> c;  // holds a copy
        void* h = nullptr;
        bool owned = false, valid = false;
    };
    std::vector<Slot> slots(rng.range(2, 6));
    std::vector<cudaStream_t> users(rng.below(3));
    for (auto& u : users) {
        rt::current() = int(rng.below(rt::n_devices));
        cudaStreamCreate(&u);
    }
    auto alive = [](void* h) {
        auto* s = rt::stream_at(h);
        return s && s->alive;
    };
    auto verify = [&](const char* when) {
        std::set<void*> owned;
        for (auto& s : slots) {
            if (!s.valid) continue;
            if (s.owned) owned.insert(s.h);
            vm::expect(alive(s.h), "D04", "the stream of a wrapper was destroyed, %s", when);
            if (s.w) vm::expect(s.w->stream() == s.h, "D04", "a wrapper refers to another stream, %s", when);
        }
        for (auto u : users) vm::expect(alive(u), "D04", "a user's stream was destroyed, %s", when);
        // nothing else may be left
        vm::expect(rt::live_streams() == owned.size() + users.size(), "D04", "%zu streams exist for %zu wrapped ones and %zu of the user, %s", rt::live_streams(), owned.size(), users.size(), when);
        vm::count("comparisons");
    };
    int steps = int(rng.range(10, 60));
    for (int k = 0; k < steps && !vm::st().tainted; ++k) {
        if (rng.chance(300)) rt::current() = int(rng.below(rt::n_devices));
        int cur = rt::current();
        std::size_t i = rng.below(slots.size()), j = rng.below(slots.size());
        Slot &a = slots[i], &b = slots[j];
        switch (rng.below(9)) {
            case 0:
            case 1: {
                int d = rng.chance(300) ? -1 : int(rng.below(rt::n_devices + (rng.chance(100) ? 2 : 0)));
                bool inject = rng.chance(120);
                if (inject) rt::s().fail_in["cudaStreamCreate"] = 1;
                std::unique_ptr<W> w;
                bool t = throws([&] { w = d < 0 && rng.chance(500) ? std::make_unique<W>() : std::make_unique<W>(d); });
                rt::s().fail_in.clear();
                vm::trace("s%zu = new stream on %d (current %d)%s", i, d, cur, t ? ", exception" : "");
                vm::expect(t == (inject || d >= rt::n_devices), "D04", t ? "making a stream failed without a reason" : "a failure to make a stream is hidden");
                if (!t) {
                    a = Slot{};
                    a.w = std::move(w);
                    a.h = a.w->stream();
                    a.owned = a.valid = true;
                    auto* st = rt::stream_at(a.h);
                    vm::expect(st && st->alive, "D04", "a new wrapper holds no stream");
                    vm::expect(st->device == (d < 0 ? cur : d), "D04", "a stream for device %d was made on device %d", d < 0 ? cur : d, st->device);
                    for (auto& s : slots) vm::expect(&s == &a || !s.valid || s.h != a.h, "D04", "two new wrappers share a stream");
                    vm::count("created");
                }
                break;
            }
            case 2:
                if (!users.empty()) {
                    a = Slot{};
                    a.h = rng.pick(users);
                    a.w = std::make_unique<W>(a.h);
                    a.valid = true;
                    vm::trace("s%zu = the user's stream", i);
                }
                break;
            case 3:
                if (b.valid && b.w && i != j) {
                    vm::trace("s%zu made from s%zu", i, j);
                    bool mv = rng.chance(400);
                    Slot n;
                    n.w = mv ? std::make_unique<W>(std::move(*b.w)) : std::make_unique<W>(static_cast<const W&>(*b.w));
                    n.h = b.h, n.owned = b.owned, n.valid = true;
                    if (mv) b.valid = false;
                    a = std::move(n);
                    vm::count("copied");
                }
                break;
            case 4:
            case 5:
                if (a.w && b.valid && b.w) {
                    bool mv = i != j && rng.chance(400);
                    vm::trace("s%zu %s= s%zu", i, mv ? "moved " : "", j);
                    if (mv) *a.w = std::move(*b.w);
                    else if (i != j || rng.chance(500)) *a.w = static_cast<const W&>(*b.w);
                    else {
                        W& self = *a.w;
                        self = std::move(*b.w);
                    }
                    a.h = b.h, a.owned = b.owned, a.valid = true;
                    if (mv) b.valid = false;
                    a.c.reset();
                    vm::count("assigned");
                }
                break;
            case 6:
                vm::trace("s%zu destroyed", i);
                a = Slot{};
                break;
            case 7:
                if (b.valid && b.w && i != j) {
                    // a copy object shares the stream
                    vm::trace("s%zu: a copy object on s%zu", i, j);
                    Slot n;
                    n.c = std::make_unique<vecmem::cuda::async_copy>(*b.w);
                    n.h = b.h, n.owned = b.owned, n.valid = true;
                    a = std::move(n);
                    vm::count("copy_objects");
                }
                break;
            default:
                if (a.valid && a.w) {
                    static int x[64], y[64];
                    auto* st = rt::stream_at(a.h);
                    int m = int(rng.below(4));
                    for (int q = 0; q < m; ++q) cudaMemcpyAsync(x, y, sizeof x, cudaMemcpyDefault, reinterpret_cast<cudaStream_t>(a.h));
                    bool inject = rng.chance(150);
                    if (inject) rt::s().fail_in["cudaStreamSynchronize"] = 1;
                    bool t = throws([&] { a.w->synchronize(); });
                    rt::s().fail_in.clear();
                    vm::trace("s%zu synchronized%s", i, t ? ", exception" : "");
                    vm::expect(t == inject, "D04", inject ? "a failure to synchronize is hidden" : "synchronizing failed without a reason");
                    if (!inject) vm::expect(st->queue.empty(), "D04", "work is left on a stream after synchronizing it");
                    vm::count("synchronized");
                }
        }
        for (auto& s : slots)
            if (s.valid && s.c && rng.chance(300)) {
                // it works on its stream, whatever happened to the wrapper
                static int x[4] = {1, 2, 3, 4}, y[4];
                auto* st = rt::stream_at(s.h);
                auto n = st ? st->issued : 0;
                int was = rt::current();
                rt::current() = st ? st->device : was;
                auto e = (*s.c)(data::vector_view<const int>(4, x), data::vector_view<int>(4, y), ctype::host_to_host);
                vm::expect(st && st->issued == n + 1, "D04", "a copy object does not use the stream it was made with");
                e->wait();
                vm::expect(y[3] == 4, "D04", "a copy object does not work once the wrapper it was made with is gone");
                y[3] = 0;
                rt::current() = was;
                vm::count("copy_objects_used");
            }
        vm::expect(rt::current() == cur, "D04", "an operation of a stream wrapper left device %d current, not %d", rt::current(), cur);
        verify("after an operation");
    }
    slots.clear();
    vm::expect(rt::live_streams() == users.size(), "D04", "%zu streams outlive all their wrappers", rt::live_streams() - users.size());
    for (auto u : users) cudaStreamDestroy(u);
    vm::st().nontrivial = steps > 20;
}

void sycl_wrappers(Rng& rng) {
    using W = vecmem::sycl::queue_wrapper;
    struct Slot {
        std::unique_ptr<W> w;
        std::unique_ptr<vecmem::copy> c;
        std::unique_ptr<vecmem::memory_resource> m;  // made with it
        std::unique_ptr<sycl::queue> is;             // the harness's own handle
        const void* at = nullptr;         // for the user's queues
        bool valid = false;
    };
    std::vector<std::unique_ptr<sycl::queue>> users;
    for (u64 i = rng.below(3); i > 0; --i) users.push_back(std::make_unique<sycl::queue>(sycl::device(int(rng.below(rt::n_devices)))));
    std::vector<Slot> slots(rng.range(2, 6));
    auto same_queue = [](const Slot& s) {
        auto* q = static_cast<const sycl::queue*>(static_cast<const W&>(*s.w).queue());
        return q && s.w->queue() == q && *q == *s.is && (!s.at || s.at == q);
    };
    int steps = int(rng.range(10, 60));
    for (int k = 0; k < steps && !vm::st().tainted; ++k) {
        std::size_t i = rng.below(slots.size()), j = rng.below(slots.size());
        Slot &a = slots[i], &b = slots[j];
        switch (rng.below(8)) {
            case 0:
            case 1: {
                sycl::detail::default_device() = int(rng.below(rt::n_devices));
                bool inject = rng.chance(120);
                if (inject) rt::s().fail_in["sycl::queue"] = 1;
                std::unique_ptr<W> w;
                bool t = throws([&] { w = std::make_unique<W>(); });
                rt::s().fail_in.clear();
                vm::trace("q%zu = new queue%s", i, t ? ", exception" : "");
                vm::expect(t == inject, "D04", t ? "making a queue failed without a reason" : "a failure to make a queue is hidden");
                if (!t) {
                    auto* q = static_cast<sycl::queue*>(w->queue());
                    vm::expect(q != nullptr, "D04", "a new wrapper holds no queue");
                    for (auto& s : slots) vm::expect(!s.valid || !(*s.is == *q), "D04", "two new wrappers share a queue");
                    a = Slot{};
                    a.is = std::make_unique<sycl::queue>(*q);
                    a.w = std::move(w);
                    a.valid = true;
                    vm::count("created");
                }
                break;
            }
            case 2:
                if (!users.empty()) {
                    auto& u = rng.pick(users);
                    a = Slot{};
                    a.w = std::make_unique<W>(static_cast<void*>(u.get()));
                    a.is = std::make_unique<sycl::queue>(*u);
                    a.at = u.get();
                    a.valid = true;
                    vm::trace("q%zu = the user's queue", i);
                }
                break;
            case 3:
                if (b.valid && b.w && i != j) {
                    bool mv = rng.chance(400);
                    vm::trace("q%zu made from q%zu%s", i, j, mv ? ", moved" : "");
                    Slot n;
                    n.w = mv ? std::make_unique<W>(std::move(*b.w)) : std::make_unique<W>(static_cast<const W&>(*b.w));
                    n.is = std::make_unique<sycl::queue>(*b.is);
                    n.at = b.at, n.valid = true;
                    if (mv) b.valid = false;
                    a = std::move(n);
                    vm::count("copied");
                }
                break;
            case 4:
            case 5:
                if (a.w && b.valid && b.w) {
                    bool mv = i != j && rng.chance(400);
                    vm::trace("q%zu %s= q%zu", i, mv ? "moved " : "", j);
                    if (mv) *a.w = std::move(*b.w);
                    else if (i != j || rng.chance(500)) *a.w = static_cast<const W&>(*b.w);
                    else {
                        W& self = *a.w;
                        self = std::move(*b.w);
                    }
                    auto is = std::make_unique<sycl::queue>(*b.is);
                    a.is = std::move(is);
                    a.at = b.at, a.valid = true;
                    a.c.reset();
                    a.m.reset();
                    if (mv) b.valid = false;
                    vm::count("assigned");
                }
                break;
            case 6:
                vm::trace("q%zu destroyed", i);
                a = Slot{};
                break;
            default:
                if (b.valid && b.w && i != j) {
                    // a copy object and a resource work on the queue without the wrapper
                    vm::trace("q%zu: a copy object on q%zu", i, j);
                    Slot n;
                    if (rng.chance(500)) n.c = std::make_unique<vecmem::sycl::copy>(*b.w);
                    else n.c = std::make_unique<vecmem::sycl::async_copy>(*b.w);
                    if (rng.chance(500)) n.m = std::make_unique<vecmem::sycl::shared_memory_resource>(*b.w);
                    n.is = std::make_unique<sycl::queue>(*b.is);
                    n.valid = true;
                    a = std::move(n);
                    vm::count("copy_objects");
                }
        }
        for (auto& s : slots) {
            if (!s.valid) continue;
            if (s.w) vm::expect(same_queue(s), "D04", "a wrapper refers to another queue after an operation");
            else {
                auto* x = static_cast<int*>(s.m ? s.m->allocate(8, 8) : sycl::aligned_alloc_shared(8, 8, *s.is));
                auto calls = rt::called("sycl::memcpy") + rt::called("sycl::memset");
                auto here = s.is->emulation_submitted();
                s.c->memset(data::vector_view<int>(2, x), 3)->wait();
                vm::expect(x[0] == 0x03030303 && x[1] == 0x03030303, "D04", "a copy object does not work once the wrapper it was made with is gone");
                calls = rt::called("sycl::memcpy") + rt::called("sycl::memset") - calls;
                vm::expect(calls > 0 && s.is->emulation_submitted() == here + calls, "D04", "a copy object does not use its queue");
                auto* blk = rt::block_of(x);
                vm::expect(blk && blk->second.device == s.is->get_device().id, "D04", "a memory resource does not use its queue");
                if (s.m) {
                    s.m->deallocate(x, 8, 8);
                    continue;
                }
                sycl::free(x, *s.is);
            }
        }
        vm::count("comparisons");
    }
    slots.clear();
    for (auto& u : users) vm::expect(u->get_device().id >= 0, "D04", "a user's queue was destroyed");
    vm::st().nontrivial = steps > 20;
}
}  // namespace

VM_PROP(D01) {
    Session s("D01", rng);
    Resources(rng).run();
    s.nothing_left();
}
VM_PROP(D02) { copies(rng, "D02", false); }
VM_PROP(D03) {
    // a known finding; at the start of a process, so that nothing is lost
    if (vm::st().case_no % 6000 == 0) event_errors(rng, true);
    else if (rng.chance(10)) event_errors(rng, false);
    else copies(rng, "D03", true);
}
VM_PROP(D04) {
    Session s("D04", rng);
    if (rng.chance(500)) cuda_wrappers(rng);
    else sycl_wrappers(rng);
    s.nothing_left();
}

VM_MAIN
