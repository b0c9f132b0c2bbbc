// The part of the HIP runtime the library could use, on the emulated runtime.
#pragma once
#include "../rt.hpp"

enum hipError_t {
    hipSuccess = 0,
    hipErrorInvalidValue = 1,
    hipErrorOutOfMemory = 2,
    hipErrorInvalidMemcpyDirection = 21,
    hipErrorInvalidDevice = 101,
    hipErrorInvalidHandle = 400,
    hipErrorNotReady = 600,
    hipErrorUnknown = 999
};
typedef enum hipError_t hipError_t;
enum hipMemcpyKind { hipMemcpyHostToHost = 0, hipMemcpyHostToDevice = 1, hipMemcpyDeviceToHost = 2, hipMemcpyDeviceToDevice = 3, hipMemcpyDefault = 4 };
typedef struct ihipStream_t* hipStream_t;
typedef struct ihipEvent_t* hipEvent_t;
struct hipDeviceProp_t {
    char name[256];
    int pciBusID, pciDeviceID, pciDomainID;
    std::size_t totalGlobalMem;
    int major, minor, multiProcessorCount, unifiedAddressing, managedMemory, concurrentManagedAccess;
};
#define HIP_VERSION 60000000
#define hipStreamDefault 0x00
#define hipStreamNonBlocking 0x01
#define hipEventDefault 0x00
#define hipEventBlockingSync 0x01
#define hipEventDisableTiming 0x02
#define hipMemAttachGlobal 0x01
#define hipHostAllocDefault 0x00
#define hipHostMallocDefault 0x00

namespace rt_hip {
inline hipError_t& last() {
    static thread_local hipError_t e = hipSuccess;
    return e;
}
inline hipError_t r(hipError_t e) {
    if (e != hipSuccess) last() = e;
    return e;
}
inline hipError_t alloc(const char* api, void** p, std::size_t n, rt::Kind k, std::size_t al) {
    if (!p) return r(hipErrorInvalidValue);
    if (rt::fails(api)) return r(hipErrorOutOfMemory);
    if (n == 0) return *p = nullptr, hipSuccess;
    void* q = rt::get(n, al, k, rt::current(), rt::lib_hip);
    if (!q) return r(hipErrorOutOfMemory);
    *p = q;
    return hipSuccess;
}
inline hipError_t free(const char* api, void* p, bool host) {
    if (rt::fails(api)) return r(hipErrorUnknown);
    if (!p) return hipSuccess;
    rt::drain(-1);
    return rt::put(p, rt::lib_hip, host, api) ? hipSuccess : r(hipErrorInvalidValue);
}
inline rt::Stream* stream(const void* h, const char* api) {
    auto* s = rt::stream_at(h);
    if (!s || !s->alive || s->lib != rt::lib_hip) {
        rt::bad(std::string(api) + " is called with a stream that does not exist (any more)");
        return nullptr;
    }
    return s;
}
inline rt::Event* event(const void* h, const char* api) {
    auto* e = rt::event_at(h);
    if (!e || !e->alive || e->lib != rt::lib_hip) {
        rt::bad(std::string(api) + " is called with an event that does not exist (any more)");
        return nullptr;
    }
    return e;
}
inline hipError_t work(const char* api, rt::Op o, int kind, bool async, const void* h) {
    rt::Stream* s = nullptr;
    if (h && !(s = stream(h, api))) return r(hipErrorInvalidHandle);
    if (rt::fails(api)) return r(hipErrorUnknown);
    if (o.n == 0) return hipSuccess;
    if (!rt::side_ok(o.to, o.n, "target") || (o.copy && !rt::side_ok(o.from, o.n, "source"))) return r(hipErrorInvalidValue);
    if (o.copy && !rt::direction_ok(kind, o.from, o.to)) {
        rt::bad(std::string(api) + " is told direction " + std::to_string(kind) + ", which is not that of the memory it is given");
        return r(hipErrorInvalidMemcpyDirection);
    }
    if (!o.copy && !rt::block_of(o.to)) {
        rt::bad(std::string(api) + " is asked to fill memory that the runtime does not know");
        return r(hipErrorInvalidValue);
    }
    if (s) {
        s->submit(std::move(o));
        return hipSuccess;
    }
    rt::drain(rt::current());
    rt::perform(o);
    return hipSuccess;
}
}  // namespace rt_hip

inline const char* hipGetErrorString(hipError_t e) { return e == hipErrorOutOfMemory ? "out of memory" : e == hipSuccess ? "no error" : "some error"; }
inline const char* hipGetErrorName(hipError_t e) { return hipGetErrorString(e); }
inline hipError_t hipGetLastError() {
    auto e = rt_hip::last();
    rt_hip::last() = hipSuccess;
    return e;
}
inline hipError_t hipPeekAtLastError() { return rt_hip::last(); }

inline hipError_t hipGetDeviceCount(int* n) { return *n = rt::n_devices, hipSuccess; }
inline hipError_t hipGetDevice(int* d) {
    if (rt::fails("hipGetDevice")) return rt_hip::r(hipErrorUnknown);
    *d = rt::current();
    return hipSuccess;
}
inline hipError_t hipSetDevice(int d) {
    if (rt::fails("hipSetDevice")) return rt_hip::r(hipErrorUnknown);
    if (d < 0 || d >= rt::n_devices) return rt_hip::r(hipErrorInvalidDevice);
    rt::current() = d;
    return hipSuccess;
}
inline hipError_t hipDeviceSynchronize() { return rt::drain(rt::current()), hipSuccess; }
inline hipError_t hipGetDeviceProperties(hipDeviceProp_t* p, int d) {
    if (d < 0 || d >= rt::n_devices) return rt_hip::r(hipErrorInvalidDevice);
    *p = hipDeviceProp_t{};
    std::snprintf(p->name, sizeof p->name, "Emulated device %d", d);
    p->pciBusID = 10 + d;
    p->managedMemory = p->unifiedAddressing = p->concurrentManagedAccess = 1;
    return hipSuccess;
}

inline hipError_t hipMalloc(void** p, std::size_t n) { return rt_hip::alloc("hipMalloc", p, n, rt::on_device, 256); }
inline hipError_t hipMallocManaged(void** p, std::size_t n, unsigned = hipMemAttachGlobal) { return rt_hip::alloc("hipMallocManaged", p, n, rt::managed, 256); }
inline hipError_t hipMallocHost(void** p, std::size_t n) { return rt_hip::alloc("hipMallocHost", p, n, rt::page_locked, 4096); }
inline hipError_t hipHostAlloc(void** p, std::size_t n, unsigned) { return rt_hip::alloc("hipMallocHost", p, n, rt::page_locked, 4096); }
inline hipError_t hipFree(void* p) { return rt_hip::free("hipFree", p, false); }
inline hipError_t hipFreeHost(void* p) { return rt_hip::free("hipFreeHost", p, true); }
template <typename T>
hipError_t hipMalloc(T** p, std::size_t n) { return hipMalloc(reinterpret_cast<void**>(p), n); }
template <typename T>
hipError_t hipMallocManaged(T** p, std::size_t n, unsigned f = hipMemAttachGlobal) { return hipMallocManaged(reinterpret_cast<void**>(p), n, f); }
template <typename T>
hipError_t hipMallocHost(T** p, std::size_t n) { return hipMallocHost(reinterpret_cast<void**>(p), n); }
inline hipError_t hipHostMalloc(void** p, std::size_t n, unsigned = 0) { return hipMallocHost(p, n); }
template <typename T>
hipError_t hipHostMalloc(T** p, std::size_t n, unsigned = 0) { return hipMallocHost(reinterpret_cast<void**>(p), n); }
inline hipError_t hipHostFree(void* p) { return hipFreeHost(p); }
inline hipError_t hipMemcpy(void* to, const void* from, std::size_t n, hipMemcpyKind k) { return rt_hip::work("hipMemcpy", rt::Op{true, n, from, to, 0, {}}, int(k), false, nullptr); }
inline hipError_t hipMemcpyAsync(void* to, const void* from, std::size_t n, hipMemcpyKind k, hipStream_t s = nullptr) { return rt_hip::work("hipMemcpyAsync", rt::Op{true, n, from, to, 0, {}}, int(k), true, s); }
inline hipError_t hipMemset(void* p, int v, std::size_t n) { return rt_hip::work("hipMemset", rt::Op{false, n, nullptr, p, v, {}}, 4, false, nullptr); }
inline hipError_t hipMemsetAsync(void* p, int v, std::size_t n, hipStream_t s = nullptr) { return rt_hip::work("hipMemsetAsync", rt::Op{false, n, nullptr, p, v, {}}, 4, true, s); }

inline hipError_t hipStreamCreateWithFlags(hipStream_t* out, unsigned) {
    if (rt::fails("hipStreamCreate")) return rt_hip::r(hipErrorUnknown);
    auto s = std::make_unique<rt::Stream>();
    s->device = rt::current();
    s->lib = rt::lib_hip;
    *out = reinterpret_cast<hipStream_t>(s.get());
    rt::streams()[s.get()] = std::move(s);
    return hipSuccess;
}
inline hipError_t hipStreamCreate(hipStream_t* out) { return hipStreamCreateWithFlags(out, 0); }
inline hipError_t hipStreamDestroy(hipStream_t h) {
    if (rt::fails("hipStreamDestroy")) return rt_hip::r(hipErrorUnknown);
    auto* s = rt_hip::stream(h, "hipStreamDestroy");
    if (!s) return rt_hip::r(hipErrorInvalidHandle);
    s->alive = false;  // what is pending still runs
    return hipSuccess;
}
inline hipError_t hipStreamSynchronize(hipStream_t h) {
    if (rt::fails("hipStreamSynchronize")) return rt_hip::r(hipErrorUnknown);
    ++rt::s().waits;
    if (!h) return rt::drain(rt::current()), hipSuccess;
    auto* s = rt_hip::stream(h, "hipStreamSynchronize");
    if (!s) return rt_hip::r(hipErrorInvalidHandle);
    s->run_to(s->issued);
    return hipSuccess;
}
inline hipError_t hipStreamQuery(hipStream_t h) {
    auto* s = rt_hip::stream(h, "hipStreamQuery");
    return !s ? rt_hip::r(hipErrorInvalidHandle) : s->queue.empty() ? hipSuccess : hipErrorNotReady;
}

inline hipError_t hipEventCreateWithFlags(hipEvent_t* out, unsigned) {
    if (rt::fails("hipEventCreate")) return rt_hip::r(hipErrorUnknown);
    auto e = std::make_unique<rt::Event>();
    e->device = rt::current();
    e->lib = rt::lib_hip;
    *out = reinterpret_cast<hipEvent_t>(e.get());
    rt::events()[e.get()] = std::move(e);
    return hipSuccess;
}
inline hipError_t hipEventCreate(hipEvent_t* out) { return hipEventCreateWithFlags(out, 0); }
inline hipError_t hipEventRecord(hipEvent_t h, hipStream_t sh = nullptr) {
    if (rt::fails("hipEventRecord")) return rt_hip::r(hipErrorUnknown);
    auto* e = rt_hip::event(h, "hipEventRecord");
    if (!e) return rt_hip::r(hipErrorInvalidHandle);
    if (!sh) return rt::drain(e->device), hipSuccess;
    auto* s = rt_hip::stream(sh, "hipEventRecord");
    if (!s || s->device != e->device) return rt_hip::r(hipErrorInvalidHandle);
    e->on = s;
    e->upto = s->issued;
    return hipSuccess;
}
inline hipError_t hipEventSynchronize(hipEvent_t h) {
    if (rt::fails("hipEventSynchronize")) return rt_hip::r(hipErrorUnknown);
    ++rt::s().waits;
    auto* e = rt_hip::event(h, "hipEventSynchronize");
    if (!e) return rt_hip::r(hipErrorInvalidHandle);
    if (e->on) e->on->run_to(e->upto);
    return hipSuccess;
}
inline hipError_t hipEventQuery(hipEvent_t h) {
    auto* e = rt_hip::event(h, "hipEventQuery");
    return !e ? rt_hip::r(hipErrorInvalidHandle) : !e->on || e->on->done >= e->upto ? hipSuccess : hipErrorNotReady;
}
inline hipError_t hipStreamWaitEvent(hipStream_t, hipEvent_t h, unsigned = 0) { return hipEventSynchronize(h); }
inline hipError_t hipEventDestroy(hipEvent_t h) {
    if (rt::fails("hipEventDestroy")) return rt_hip::r(hipErrorUnknown);
    auto* e = rt_hip::event(h, "hipEventDestroy");
    if (!e) return rt_hip::r(hipErrorInvalidHandle);
    e->alive = false;
    return hipSuccess;
}
