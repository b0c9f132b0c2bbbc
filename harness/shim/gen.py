# Writes cuda_runtime_api.h and hip/hip_runtime_api.h from one text.
T = r'''// The part of the @NAME@ runtime the library could use, on the emulated runtime.
#pragma once
#include "@RT@rt.hpp"

enum @p@Error_t {
    @p@Success = 0,
    @p@ErrorInvalidValue = 1,
    @p@Error@OOM@ = 2,
    @p@ErrorInvalidMemcpyDirection = 21,
    @p@ErrorInvalidDevice = @INVDEV@,
    @p@Error@HANDLE@ = 400,
    @p@ErrorNotReady = 600,
    @p@ErrorUnknown = 999
};
typedef enum @p@Error_t @p@Error_t;
enum @p@MemcpyKind { @p@MemcpyHostToHost = 0, @p@MemcpyHostToDevice = 1, @p@MemcpyDeviceToHost = 2, @p@MemcpyDeviceToDevice = 3, @p@MemcpyDefault = 4 };
typedef struct @st@* @p@Stream_t;
typedef struct @ev@* @p@Event_t;
struct @p@DeviceProp@SUF@ {
    char name[256];
    int pciBusID, pciDeviceID, pciDomainID;
    std::size_t totalGlobalMem;
    int major, minor, multiProcessorCount, unifiedAddressing, managedMemory, concurrentManagedAccess;
};
@PROPDEF@
#define @p@StreamDefault 0x00
#define @p@StreamNonBlocking 0x01
#define @p@EventDefault 0x00
#define @p@EventBlockingSync 0x01
#define @p@EventDisableTiming 0x02
#define @p@MemAttachGlobal 0x01
#define @p@HostAllocDefault 0x00
#define @p@HostMallocDefault 0x00

namespace rt_@l@ {
inline @p@Error_t& last() {
    static thread_local @p@Error_t e = @p@Success;
    return e;
}
inline @p@Error_t r(@p@Error_t e) {
    if (e != @p@Success) last() = e;
    return e;
}
inline @p@Error_t alloc(const char* api, void** p, std::size_t n, rt::Kind k, std::size_t al) {
    if (!p) return r(@p@ErrorInvalidValue);
    if (rt::fails(api)) return r(@p@Error@OOM@);
    if (n == 0) return *p = nullptr, @p@Success;
    void* q = rt::get(n, al, k, rt::current(), rt::lib_@l@);
    if (!q) return r(@p@Error@OOM@);
    *p = q;
    return @p@Success;
}
inline @p@Error_t free(const char* api, void* p, bool host) {
    if (rt::fails(api)) return r(@p@ErrorUnknown);
    if (!p) return @p@Success;
    rt::drain(-1);
    return rt::put(p, rt::lib_@l@, host, api) ? @p@Success : r(@p@ErrorInvalidValue);
}
inline rt::Stream* stream(const void* h, const char* api) {
    auto* s = rt::stream_at(h);
    if (!s || !s->alive || s->lib != rt::lib_@l@) {
        rt::bad(std::string(api) + " is called with a stream that does not exist (any more)");
        return nullptr;
    }
    return s;
}
inline rt::Event* event(const void* h, const char* api) {
    auto* e = rt::event_at(h);
    if (!e || !e->alive || e->lib != rt::lib_@l@) {
        rt::bad(std::string(api) + " is called with an event that does not exist (any more)");
        return nullptr;
    }
    return e;
}
inline @p@Error_t work(const char* api, rt::Op o, int kind, bool async, const void* h) {
    rt::Stream* s = nullptr;
    if (h && !(s = stream(h, api))) return r(@p@Error@HANDLE@);
    if (rt::fails(api)) return r(@p@ErrorUnknown);
    if (o.n == 0) return @p@Success;
    if (!rt::side_ok(o.to, o.n, "target") || (o.copy && !rt::side_ok(o.from, o.n, "source"))) return r(@p@ErrorInvalidValue);
    if (o.copy && !rt::direction_ok(kind, o.from, o.to)) {
        rt::bad(std::string(api) + " is told direction " + std::to_string(kind) + ", which is not that of the memory it is given");
        return r(@p@ErrorInvalidMemcpyDirection);
    }
    if (!o.copy && !rt::block_of(o.to)) {
        rt::bad(std::string(api) + " is asked to fill memory that the runtime does not know");
        return r(@p@ErrorInvalidValue);
    }
    if (s) {
        s->submit(std::move(o));
        return @p@Success;
    }
    rt::drain(rt::current());
    rt::perform(o);
    return @p@Success;
}
}  // namespace rt_@l@

inline const char* @p@GetErrorString(@p@Error_t e) { return e == @p@Error@OOM@ ? "out of memory" : e == @p@Success ? "no error" : "some error"; }
inline const char* @p@GetErrorName(@p@Error_t e) { return @p@GetErrorString(e); }
inline @p@Error_t @p@GetLastError() {
    auto e = rt_@l@::last();
    rt_@l@::last() = @p@Success;
    return e;
}
inline @p@Error_t @p@PeekAtLastError() { return rt_@l@::last(); }

inline @p@Error_t @p@GetDeviceCount(int* n) { return *n = rt::n_devices, @p@Success; }
inline @p@Error_t @p@GetDevice(int* d) {
    if (rt::fails("@p@GetDevice")) return rt_@l@::r(@p@ErrorUnknown);
    *d = rt::current();
    return @p@Success;
}
inline @p@Error_t @p@SetDevice(int d) {
    if (rt::fails("@p@SetDevice")) return rt_@l@::r(@p@ErrorUnknown);
    if (d < 0 || d >= rt::n_devices) return rt_@l@::r(@p@ErrorInvalidDevice);
    rt::current() = d;
    return @p@Success;
}
inline @p@Error_t @p@DeviceSynchronize() { return rt::drain(rt::current()), @p@Success; }
inline @p@Error_t @p@GetDeviceProperties(@p@DeviceProp@SUF@* p, int d) {
    if (d < 0 || d >= rt::n_devices) return rt_@l@::r(@p@ErrorInvalidDevice);
    *p = @p@DeviceProp@SUF@{};
    std::snprintf(p->name, sizeof p->name, "Emulated device %d", d);
    p->pciBusID = 10 + d;
    p->managedMemory = p->unifiedAddressing = p->concurrentManagedAccess = 1;
    return @p@Success;
}

inline @p@Error_t @p@Malloc(void** p, std::size_t n) { return rt_@l@::alloc("@p@Malloc", p, n, rt::on_device, 256); }
inline @p@Error_t @p@MallocManaged(void** p, std::size_t n, unsigned = @p@MemAttachGlobal) { return rt_@l@::alloc("@p@MallocManaged", p, n, rt::managed, 256); }
inline @p@Error_t @p@MallocHost(void** p, std::size_t n@MHFLAG@) { return rt_@l@::alloc("@p@MallocHost", p, n, rt::page_locked, 4096); }
inline @p@Error_t @p@HostAlloc(void** p, std::size_t n, unsigned) { return rt_@l@::alloc("@p@MallocHost", p, n, rt::page_locked, 4096); }
inline @p@Error_t @p@Free(void* p) { return rt_@l@::free("@p@Free", p, false); }
inline @p@Error_t @p@FreeHost(void* p) { return rt_@l@::free("@p@FreeHost", p, true); }
template <typename T>
@p@Error_t @p@Malloc(T** p, std::size_t n) { return @p@Malloc(reinterpret_cast<void**>(p), n); }
template <typename T>
@p@Error_t @p@MallocManaged(T** p, std::size_t n, unsigned f = @p@MemAttachGlobal) { return @p@MallocManaged(reinterpret_cast<void**>(p), n, f); }
template <typename T>
@p@Error_t @p@MallocHost(T** p, std::size_t n) { return @p@MallocHost(reinterpret_cast<void**>(p), n); }
@HIPHOST@
inline @p@Error_t @p@Memcpy(void* to, const void* from, std::size_t n, @p@MemcpyKind k) { return rt_@l@::work("@p@Memcpy", rt::Op{true, n, from, to, 0, {}}, int(k), false, nullptr); }
inline @p@Error_t @p@MemcpyAsync(void* to, const void* from, std::size_t n, @p@MemcpyKind k, @p@Stream_t s = nullptr) { return rt_@l@::work("@p@MemcpyAsync", rt::Op{true, n, from, to, 0, {}}, int(k), true, s); }
inline @p@Error_t @p@Memset(void* p, int v, std::size_t n) { return rt_@l@::work("@p@Memset", rt::Op{false, n, nullptr, p, v, {}}, 4, false, nullptr); }
inline @p@Error_t @p@MemsetAsync(void* p, int v, std::size_t n, @p@Stream_t s = nullptr) { return rt_@l@::work("@p@MemsetAsync", rt::Op{false, n, nullptr, p, v, {}}, 4, true, s); }

inline @p@Error_t @p@StreamCreateWithFlags(@p@Stream_t* out, unsigned) {
    if (rt::fails("@p@StreamCreate")) return rt_@l@::r(@p@ErrorUnknown);
    auto s = std::make_unique<rt::Stream>();
    s->device = rt::current();
    s->lib = rt::lib_@l@;
    *out = reinterpret_cast<@p@Stream_t>(s.get());
    rt::streams()[s.get()] = std::move(s);
    return @p@Success;
}
inline @p@Error_t @p@StreamCreate(@p@Stream_t* out) { return @p@StreamCreateWithFlags(out, 0); }
inline @p@Error_t @p@StreamDestroy(@p@Stream_t h) {
    if (rt::fails("@p@StreamDestroy")) return rt_@l@::r(@p@ErrorUnknown);
    auto* s = rt_@l@::stream(h, "@p@StreamDestroy");
    if (!s) return rt_@l@::r(@p@Error@HANDLE@);
    s->alive = false;  // what is pending still runs
    return @p@Success;
}
inline @p@Error_t @p@StreamSynchronize(@p@Stream_t h) {
    if (rt::fails("@p@StreamSynchronize")) return rt_@l@::r(@p@ErrorUnknown);
    ++rt::s().waits;
    if (!h) return rt::drain(rt::current()), @p@Success;
    auto* s = rt_@l@::stream(h, "@p@StreamSynchronize");
    if (!s) return rt_@l@::r(@p@Error@HANDLE@);
    s->run_to(s->issued);
    return @p@Success;
}
inline @p@Error_t @p@StreamQuery(@p@Stream_t h) {
    auto* s = rt_@l@::stream(h, "@p@StreamQuery");
    return !s ? rt_@l@::r(@p@Error@HANDLE@) : s->queue.empty() ? @p@Success : @p@ErrorNotReady;
}

inline @p@Error_t @p@EventCreateWithFlags(@p@Event_t* out, unsigned) {
    if (rt::fails("@p@EventCreate")) return rt_@l@::r(@p@ErrorUnknown);
    auto e = std::make_unique<rt::Event>();
    e->device = rt::current();
    e->lib = rt::lib_@l@;
    *out = reinterpret_cast<@p@Event_t>(e.get());
    rt::events()[e.get()] = std::move(e);
    return @p@Success;
}
inline @p@Error_t @p@EventCreate(@p@Event_t* out) { return @p@EventCreateWithFlags(out, 0); }
inline @p@Error_t @p@EventRecord(@p@Event_t h, @p@Stream_t sh = nullptr) {
    if (rt::fails("@p@EventRecord")) return rt_@l@::r(@p@ErrorUnknown);
    auto* e = rt_@l@::event(h, "@p@EventRecord");
    if (!e) return rt_@l@::r(@p@Error@HANDLE@);
    if (!sh) return rt::drain(e->device), @p@Success;
    auto* s = rt_@l@::stream(sh, "@p@EventRecord");
    if (!s || s->device != e->device) return rt_@l@::r(@p@Error@HANDLE@);
    e->on = s;
    e->upto = s->issued;
    return @p@Success;
}
inline @p@Error_t @p@EventSynchronize(@p@Event_t h) {
    if (rt::fails("@p@EventSynchronize")) return rt_@l@::r(@p@ErrorUnknown);
    ++rt::s().waits;
    auto* e = rt_@l@::event(h, "@p@EventSynchronize");
    if (!e) return rt_@l@::r(@p@Error@HANDLE@);
    if (e->on) e->on->run_to(e->upto);
    return @p@Success;
}
inline @p@Error_t @p@EventQuery(@p@Event_t h) {
    auto* e = rt_@l@::event(h, "@p@EventQuery");
    return !e ? rt_@l@::r(@p@Error@HANDLE@) : !e->on || e->on->done >= e->upto ? @p@Success : @p@ErrorNotReady;
}
inline @p@Error_t @p@StreamWaitEvent(@p@Stream_t, @p@Event_t h, unsigned = 0) { return @p@EventSynchronize(h); }
inline @p@Error_t @p@EventDestroy(@p@Event_t h) {
    if (rt::fails("@p@EventDestroy")) return rt_@l@::r(@p@ErrorUnknown);
    auto* e = rt_@l@::event(h, "@p@EventDestroy");
    if (!e) return rt_@l@::r(@p@Error@HANDLE@);
    e->alive = false;
    return @p@Success;
}
'''
def make(path, **k):
    t = T
    for a, b in k.items():
        t = t.replace("@%s@" % a, b)
    assert "@" not in t, t[t.index("@") - 30:t.index("@") + 30]
    open(path, "w").write(t)
make("cuda_runtime_api.h", NAME="CUDA", RT="", p="cuda", l="cuda", OOM="MemoryAllocation", INVDEV="101", HANDLE="InvalidResourceHandle", st="CUstream_st", ev="CUevent_st",
     SUF="", PROPDEF="#define CUDART_VERSION 12000", MHFLAG="", HIPHOST="")
make("hip/hip_runtime_api.h", NAME="HIP", RT="../", p="hip", l="hip", OOM="OutOfMemory", INVDEV="101", HANDLE="InvalidHandle", st="ihipStream_t", ev="ihipEvent_t",
     SUF="_t", PROPDEF="#define HIP_VERSION 60000000", MHFLAG="",
     HIPHOST='''inline hipError_t hipHostMalloc(void** p, std::size_t n, unsigned = 0) { return hipMallocHost(p, n); }
template <typename T>
hipError_t hipHostMalloc(T** p, std::size_t n, unsigned = 0) { return hipMallocHost(reinterpret_cast<void**>(p), n); }
inline hipError_t hipHostFree(void* p) { return hipFreeHost(p); }''')
