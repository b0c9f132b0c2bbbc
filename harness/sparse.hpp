// Real but sparse memory: tens of gigabytes of addresses of which only the
// touched pages exist. For containers whose sizes 31 or 32 bits can not count.
#pragma once
#include <sys/mman.h>

#include <vecmem/memory/memory_resource.hpp>

#include "vm.hpp"

namespace vm {

class Sparse : public vecmem::memory_resource {
    static constexpr std::size_t space = std::size_t(320) << 30;
    static char*& base() {
        static char* b = nullptr;
        return b;
    }
    std::size_t top_ = 4096;
    std::map<char*, std::size_t> live_;

    void* do_allocate(std::size_t n, std::size_t al) override {
        if (n > space - top_ - 8192) throw std::bad_alloc();
        if (al < 64) al = 64;
        top_ = (top_ + 4096 + al - 1) & ~(al - 1);
        char* p = base() + top_;
        top_ += n;
        live_[p] = n;
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t) override {
        auto it = live_.find(static_cast<char*>(p));
        vm::expect(it != live_.end() && it->second == n, "B03", "a giant block is returned that is not live or of another size");
        if (it != live_.end()) live_.erase(it);
    }
    bool do_is_equal(const vecmem::memory_resource& o) const noexcept override { return this == &o; }

public:
    Sparse() {
        if (!base()) {
            void* m = ::mmap(nullptr, space, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (m == MAP_FAILED) {
                std::fprintf(stderr, "can not reserve addresses\n");
                _exit(3);
            }
            ::madvise(m, space, MADV_NOHUGEPAGE);
            base() = static_cast<char*>(m);
        }
    }
    Sparse(const Sparse&) = delete;
    ~Sparse() override { ::madvise(base(), top_ + 4096, MADV_DONTNEED); }
    std::size_t live() const { return live_.size(); }
};

}  // namespace vm
