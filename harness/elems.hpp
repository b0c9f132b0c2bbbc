// Element types for the container monitors: each value is made from a number
// and recognised again; one type registers every object's lifetime.
#pragma once
#include "vm.hpp"

#include <string>
#include <type_traits>
#include <unordered_map>

namespace vm {

// Every live object of the tracked type, by address.
struct Registry {
    std::unordered_map<const void*, u64> live;
    u64 made = 0, gone = 0;
    static Registry& get() {
        static Registry r;
        return r;
    }
    [[noreturn]] static void bad(const char* what, const void* p) {
        char b[160];
        std::snprintf(b, sizeof b, "%s (object at %p)", what, p);
        die(st().prop.c_str(), b);
    }
    void birth(const void* p, u64 v) {
        if (!live.emplace(p, v).second) bad("an object was constructed on top of a live one", p);
        ++made;
    }
    void death(const void* p) {
        if (!live.erase(p)) bad("something was destroyed that is not a live object", p);
        ++gone;
    }
    void need(const void* p) const {
        if (!live.count(p)) bad("something was used that is not a live object", p);
    }
};

// Holds a pointer to itself and something on the heap: can not be moved as bytes.
class Tracked {
    Tracked* self_;
    u64* heap_;
    void make(u64 v) {
        self_ = this;
        heap_ = new u64(v);
        Registry::get().birth(this, v);
    }

public:
    Tracked() { make(0); }
    explicit Tracked(u64 v) { make(v); }
    Tracked(u64 a, u64 b) { make(a + b); }
    Tracked(const Tracked& o) { make(o.v()); }
    Tracked(Tracked&& o) noexcept { make(o.v()); }
    Tracked& operator=(const Tracked& o) {
        u64 x = o.v();
        set(x);
        return *this;
    }
    ~Tracked() {
        check();
        Registry::get().death(this);
        delete heap_;
        self_ = nullptr;
        heap_ = nullptr;
    }
    void check() const {
        Registry::get().need(this);
        if (self_ != this) Registry::bad("an object was moved as raw bytes", this);
    }
    u64 v() const {
        check();
        return *heap_;
    }
    void set(u64 x) {
        check();
        *heap_ = x;
    }
};

struct alignas(32) Wide {
    u64 v[4];
};
struct Odd3 {
    unsigned char b[3];
};

template <typename T>
struct Elem {  // arithmetic types
    static T make(u64 x) { return static_cast<T>(x); }
    static bool same(const T& t, u64 x) { return t == static_cast<T>(x); }
};
template <>
struct Elem<Tracked> {
    static Tracked make(u64 x) { return Tracked(x); }
    static bool same(const Tracked& t, u64 x) { return t.v() == x; }
};
template <>
struct Elem<std::string> {
    static std::string make(u64 x) { return x == 0 ? std::string() : std::string(x % 3 ? x % 13 + 1 : x % 40 + 1, char('a' + x % 26)) + std::to_string(x); }
    static bool same(const std::string& t, u64 x) { return t == make(x); }
};
template <>
struct Elem<Wide> {
    static Wide make(u64 x) { return Wide{{x, x * 3, x * 5, x * 7}}; }
    static bool same(const Wide& t, u64 x) { return t.v[0] == x && t.v[1] == x * 3 && t.v[2] == x * 5 && t.v[3] == x * 7; }
};
template <>
struct Elem<Odd3> {
    static Odd3 make(u64 x) { return Odd3{{(unsigned char)x, (unsigned char)(x * 3), (unsigned char)(x * 7)}}; }
    static bool same(const Odd3& t, u64 x) { return t.b[0] == (unsigned char)x && t.b[1] == (unsigned char)(x * 3) && t.b[2] == (unsigned char)(x * 7); }
};
template <typename T>
T make(u64 x) {
    return Elem<T>::make(x);
}
template <typename T>
bool same(const T& t, u64 x) {
    return Elem<T>::same(t, x);
}
template <typename T>
const char* tname() {
    if (std::is_same<T, Tracked>::value) return "Tracked";
    if (std::is_same<T, std::string>::value) return "string";
    if (std::is_same<T, Wide>::value) return "Wide";
    if (std::is_same<T, Odd3>::value) return "Odd3";
    if (std::is_floating_point<T>::value) return sizeof(T) == 8 ? "double" : "float";
    return sizeof(T) == 1 ? "i8" : sizeof(T) == 2 ? "i16" : sizeof(T) == 4 ? "i32" : "i64";
}

// Raw storage between guard zones.
class Guarded {
    unsigned char* raw_;
    std::size_t n_, total_, shift_;
    static constexpr std::size_t G = 128;
    static constexpr unsigned char P = 0xa7;

public:
    // `align`: exactly this alignment (not more), a power of two up to 64.
    explicit Guarded(std::size_t n, std::size_t align = 64) : n_(n) {
        shift_ = align >= 64 ? 0 : align;
        total_ = (n + shift_ + 2 * G + 63) / 64 * 64;
        raw_ = static_cast<unsigned char*>(std::aligned_alloc(64, total_));
        std::memset(raw_, P, total_);
        VM_POISON(raw_, G + shift_);
        VM_POISON(data() + n_, std::size_t(raw_ + total_ - (data() + n_)) & ~std::size_t(7));
    }
    Guarded(const Guarded&) = delete;
    ~Guarded() {
        VM_UNPOISON(raw_, total_);
        std::free(raw_);
    }
    unsigned char* data() const { return raw_ + G + shift_; }
    std::size_t size() const { return n_; }
    bool intact() const {
        VM_UNPOISON(raw_, total_);
        bool ok = true;
        for (std::size_t i = 0; i < G + shift_; ++i) ok = ok && raw_[i] == P;
        for (unsigned char* p = data() + n_; p < raw_ + total_; ++p) ok = ok && *p == P;
        VM_POISON(raw_, G + shift_);
        VM_POISON(data() + n_, std::size_t(raw_ + total_ - (data() + n_)) & ~std::size_t(7));
        return ok;
    }
};

}  // namespace vm
