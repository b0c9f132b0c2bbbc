// The part of the CUDA runtime the library could use, on the emulated runtime.
#pragma once
#include "rt.hpp"

enum cudaError_t {
    cudaSuccess = 0,
    cudaErrorInvalidValue = 1,
    cudaErrorMemoryAllocation = 2,
    cudaErrorInvalidMemcpyDirection = 21,
    cudaErrorInvalidDevice = 101,
    cudaErrorInvalidResourceHandle = 400,
    cudaErrorNotReady = 600,
    cudaErrorUnknown = 999
};
typedef enum cudaError_t cudaError_t;
enum cudaMemcpyKind { cudaMemcpyHostToHost = 0, cudaMemcpyHostToDevice = 1, cudaMemcpyDeviceToHost = 2, cudaMemcpyDeviceToDevice = 3, cudaMemcpyDefault = 4 };
typedef struct CUstream_st* cudaStream_t;
typedef struct CUevent_st* cudaEvent_t;
struct cudaDeviceProp {
    char name[256];
    int pciBusID, pciDeviceID, pciDomainID;
    std::size_t totalGlobalMem;
    int major, minor, multiProcessorCount, unifiedAddressing, managedMemory, concurrentManagedAccess;
};
#define CUDART_VERSION 12000
#define cudaStreamDefault 0x00
#define cudaStreamNonBlocking 0x01
#define cudaEventDefault 0x00
#define cudaEventBlockingSync 0x01
#define cudaEventDisableTiming 0x02
#define cudaMemAttachGlobal 0x01
#define cudaHostAllocDefault 0x00
#define cudaHostMallocDefault 0x00

namespace rt_cuda {
inline cudaError_t& last() {
    static thread_local cudaError_t e = cudaSuccess;
    return e;
}
inline cudaError_t r(cudaError_t e) {
    if (e != cudaSuccess) last() = e;
    return e;
}
inline cudaError_t alloc(const char* api, void** p, std::size_t n, rt::Kind k, std::size_t al) {
    if (!p) return r(cudaErrorInvalidValue);
    if (rt::fails(api)) return r(cudaErrorMemoryAllocation);
    if (n == 0) return *p = nullptr, cudaSuccess;
    void* q = rt::get(n, al, k, rt::current(), rt::lib_cuda);
    if (!q) return r(cudaErrorMemoryAllocation);
    *p = q;
    return cudaSuccess;
}
inline cudaError_t free(const char* api, void* p, bool host) {
    if (rt::fails(api)) return r(cudaErrorUnknown);
    if (!p) return cudaSuccess;
    rt::drain(-1);
    return rt::put(p, rt::lib_cuda, host, api) ? cudaSuccess : r(cudaErrorInvalidValue);
}
inline rt::Stream* stream(const void* h, const char* api) {
    auto* s = rt::stream_at(h);
    if (!s || !s->alive || s->lib != rt::lib_cuda) {
        rt::bad(std::string(api) + " is called with a stream that does not exist (any more)");
        return nullptr;
    }
    return s;
}
inline rt::Event* event(const void* h, const char* api) {
    auto* e = rt::event_at(h);
    if (!e || !e->alive || e->lib != rt::lib_cuda) {
        rt::bad(std::string(api) + " is called with an event that does not exist (any more)");
        return nullptr;
    }
    return e;
}
inline cudaError_t work(const char* api, rt::Op o, int kind, bool async, const void* h) {
    rt::Stream* s = nullptr;
    if (h && !(s = stream(h, api))) return r(cudaErrorInvalidResourceHandle);
    if (rt::fails(api)) return r(cudaErrorUnknown);
    if (o.n == 0) return cudaSuccess;
    if (!rt::side_ok(o.to, o.n, "target") || (o.copy && !rt::side_ok(o.from, o.n, "source"))) return r(cudaErrorInvalidValue);
    if (o.copy && !rt::direction_ok(kind, o.from, o.to)) {
        rt::bad(std::string(api) + " is told direction " + std::to_string(kind) + ", which is not that of the memory it is given");
        return r(cudaErrorInvalidMemcpyDirection);
    }
    if (!o.copy && !rt::block_of(o.to)) {
        rt::bad(std::string(api) + " is asked to fill memory that the runtime does not know");
        return r(cudaErrorInvalidValue);
    }
    if (s) {
        s->submit(std::move(o));
        return cudaSuccess;
    }
    rt::drain(rt::current());
    rt::perform(o);
    return cudaSuccess;
}
}  // namespace rt_cuda

inline const char* cudaGetErrorString(cudaError_t e) { return e == cudaErrorMemoryAllocation ? "out of memory" : e == cudaSuccess ? "no error" : "some error"; }
inline const char* cudaGetErrorName(cudaError_t e) { return cudaGetErrorString(e); }
inline cudaError_t cudaGetLastError() {
    auto e = rt_cuda::last();
    rt_cuda::last() = cudaSuccess;
    return e;
}
inline cudaError_t cudaPeekAtLastError() { return rt_cuda::last(); }

inline cudaError_t cudaGetDeviceCount(int* n) { return *n = rt::n_devices, cudaSuccess; }
inline cudaError_t cudaGetDevice(int* d) {
    if (rt::fails("cudaGetDevice")) return rt_cuda::r(cudaErrorUnknown);
    *d = rt::current();
    return cudaSuccess;
}
inline cudaError_t cudaSetDevice(int d) {
    if (rt::fails("cudaSetDevice")) return rt_cuda::r(cudaErrorUnknown);
    if (d < 0 || d >= rt::n_devices) return rt_cuda::r(cudaErrorInvalidDevice);
    rt::current() = d;
    return cudaSuccess;
}
inline cudaError_t cudaDeviceSynchronize() { return rt::drain(rt::current()), cudaSuccess; }
inline cudaError_t cudaGetDeviceProperties(cudaDeviceProp* p, int d) {
    if (d < 0 || d >= rt::n_devices) return rt_cuda::r(cudaErrorInvalidDevice);
    *p = cudaDeviceProp{};
    std::snprintf(p->name, sizeof p->name, "Emulated device %d", d);
    p->pciBusID = 10 + d;
    p->managedMemory = p->unifiedAddressing = p->concurrentManagedAccess = 1;
    return cudaSuccess;
}

inline cudaError_t cudaMalloc(void** p, std::size_t n) { return rt_cuda::alloc("cudaMalloc", p, n, rt::on_device, 256); }
inline cudaError_t cudaMallocManaged(void** p, std::size_t n, unsigned = cudaMemAttachGlobal) { return rt_cuda::alloc("cudaMallocManaged", p, n, rt::managed, 256); }
inline cudaError_t cudaMallocHost(void** p, std::size_t n) { return rt_cuda::alloc("cudaMallocHost", p, n, rt::page_locked, 4096); }
inline cudaError_t cudaHostAlloc(void** p, std::size_t n, unsigned) { return rt_cuda::alloc("cudaMallocHost", p, n, rt::page_locked, 4096); }
inline cudaError_t cudaFree(void* p) { return rt_cuda::free("cudaFree", p, false); }
inline cudaError_t cudaFreeHost(void* p) { return rt_cuda::free("cudaFreeHost", p, true); }
template <typename T>
cudaError_t cudaMalloc(T** p, std::size_t n) { return cudaMalloc(reinterpret_cast<void**>(p), n); }
template <typename T>
cudaError_t cudaMallocManaged(T** p, std::size_t n, unsigned f = cudaMemAttachGlobal) { return cudaMallocManaged(reinterpret_cast<void**>(p), n, f); }
template <typename T>
cudaError_t cudaMallocHost(T** p, std::size_t n) { return cudaMallocHost(reinterpret_cast<void**>(p), n); }

inline cudaError_t cudaMemcpy(void* to, const void* from, std::size_t n, cudaMemcpyKind k) { return rt_cuda::work("cudaMemcpy", rt::Op{true, n, from, to, 0, {}}, int(k), false, nullptr); }
inline cudaError_t cudaMemcpyAsync(void* to, const void* from, std::size_t n, cudaMemcpyKind k, cudaStream_t s = nullptr) { return rt_cuda::work("cudaMemcpyAsync", rt::Op{true, n, from, to, 0, {}}, int(k), true, s); }
inline cudaError_t cudaMemset(void* p, int v, std::size_t n) { return rt_cuda::work("cudaMemset", rt::Op{false, n, nullptr, p, v, {}}, 4, false, nullptr); }
inline cudaError_t cudaMemsetAsync(void* p, int v, std::size_t n, cudaStream_t s = nullptr) { return rt_cuda::work("cudaMemsetAsync", rt::Op{false, n, nullptr, p, v, {}}, 4, true, s); }

inline cudaError_t cudaStreamCreateWithFlags(cudaStream_t* out, unsigned) {
    if (rt::fails("cudaStreamCreate")) return rt_cuda::r(cudaErrorUnknown);
    auto s = std::make_unique<rt::Stream>();
    s->device = rt::current();
    s->lib = rt::lib_cuda;
    *out = reinterpret_cast<cudaStream_t>(s.get());
    rt::streams()[s.get()] = std::move(s);
    return cudaSuccess;
}
inline cudaError_t cudaStreamCreate(cudaStream_t* out) { return cudaStreamCreateWithFlags(out, 0); }
inline cudaError_t cudaStreamDestroy(cudaStream_t h) {
    if (rt::fails("cudaStreamDestroy")) return rt_cuda::r(cudaErrorUnknown);
    auto* s = rt_cuda::stream(h, "cudaStreamDestroy");
    if (!s) return rt_cuda::r(cudaErrorInvalidResourceHandle);
    s->alive = false;  // what is pending still runs
    return cudaSuccess;
}
inline cudaError_t cudaStreamSynchronize(cudaStream_t h) {
    if (rt::fails("cudaStreamSynchronize")) return rt_cuda::r(cudaErrorUnknown);
    ++rt::s().waits;
    if (!h) return rt::drain(rt::current()), cudaSuccess;
    auto* s = rt_cuda::stream(h, "cudaStreamSynchronize");
    if (!s) return rt_cuda::r(cudaErrorInvalidResourceHandle);
    s->run_to(s->issued);
    return cudaSuccess;
}
inline cudaError_t cudaStreamQuery(cudaStream_t h) {
    auto* s = rt_cuda::stream(h, "cudaStreamQuery");
    return !s ? rt_cuda::r(cudaErrorInvalidResourceHandle) : s->queue.empty() ? cudaSuccess : cudaErrorNotReady;
}

inline cudaError_t cudaEventCreateWithFlags(cudaEvent_t* out, unsigned) {
    if (rt::fails("cudaEventCreate")) return rt_cuda::r(cudaErrorUnknown);
    auto e = std::make_unique<rt::Event>();
    e->device = rt::current();
    e->lib = rt::lib_cuda;
    *out = reinterpret_cast<cudaEvent_t>(e.get());
    rt::events()[e.get()] = std::move(e);
    return cudaSuccess;
}
inline cudaError_t cudaEventCreate(cudaEvent_t* out) { return cudaEventCreateWithFlags(out, 0); }
inline cudaError_t cudaEventRecord(cudaEvent_t h, cudaStream_t sh = nullptr) {
    if (rt::fails("cudaEventRecord")) return rt_cuda::r(cudaErrorUnknown);
    auto* e = rt_cuda::event(h, "cudaEventRecord");
    if (!e) return rt_cuda::r(cudaErrorInvalidResourceHandle);
    if (!sh) return rt::drain(e->device), cudaSuccess;
    auto* s = rt_cuda::stream(sh, "cudaEventRecord");
    if (!s || s->device != e->device) return rt_cuda::r(cudaErrorInvalidResourceHandle);
    e->on = s;
    e->upto = s->issued;
    return cudaSuccess;
}
inline cudaError_t cudaEventSynchronize(cudaEvent_t h) {
    if (rt::fails("cudaEventSynchronize")) return rt_cuda::r(cudaErrorUnknown);
    ++rt::s().waits;
    auto* e = rt_cuda::event(h, "cudaEventSynchronize");
    if (!e) return rt_cuda::r(cudaErrorInvalidResourceHandle);
    if (e->on) e->on->run_to(e->upto);
    return cudaSuccess;
}
inline cudaError_t cudaEventQuery(cudaEvent_t h) {
    auto* e = rt_cuda::event(h, "cudaEventQuery");
    return !e ? rt_cuda::r(cudaErrorInvalidResourceHandle) : !e->on || e->on->done >= e->upto ? cudaSuccess : cudaErrorNotReady;
}
inline cudaError_t cudaStreamWaitEvent(cudaStream_t, cudaEvent_t h, unsigned = 0) { return cudaEventSynchronize(h); }
inline cudaError_t cudaEventDestroy(cudaEvent_t h) {
    if (rt::fails("cudaEventDestroy")) return rt_cuda::r(cudaErrorUnknown);
    auto* e = rt_cuda::event(h, "cudaEventDestroy");
    if (!e) return rt_cuda::r(cudaErrorInvalidResourceHandle);
    e->alive = false;
    return cudaSuccess;
}
