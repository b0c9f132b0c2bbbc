// Common machinery of the runtime monitors: case loop, random choices, traces,
// statistics and verdicts. One harness process runs a range of cases of one
// property; every random choice derives from (seed, property, case number).
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define VM_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VM_ASAN 1
#endif
#endif
#ifdef VM_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define VM_POISON(p, n) __asan_poison_memory_region((p), (n))
#define VM_UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#else
#define VM_POISON(p, n) ((void)(p), (void)(n))
#define VM_UNPOISON(p, n) ((void)(p), (void)(n))
#endif

namespace vm {

using u64 = std::uint64_t;

inline u64 mix(u64 z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

struct Rng {
    u64 s = 0;
    explicit Rng(u64 seed = 0) : s(seed) {}
    u64 next() {
        s += 0x9e3779b97f4a7c15ull;
        u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
    bool chance(unsigned permille) { return below(1000) < permille; }
    template <typename C>
    auto& pick(C& c) {
        return c[below(c.size())];
    }
    template <typename T>
    T pick(std::initializer_list<T> l) {
        return *(l.begin() + below(l.size()));
    }
};

struct State {
    std::string prop;
    std::set<std::string> active;  // tags whose violation is a verdict here
    u64 seed = 1, case_no = 0;
    bool thorough = false, verbose = false;
    std::string trace;
    u64 hash = 0, ops = 0;
    bool tainted = false;     // another property was seen violated in this case
    bool nontrivial = false;  // set by the case body
    std::map<std::string, u64> counters;
    std::unordered_set<u64> distinct;
    std::vector<std::string> samples;
    volatile u64* progress = nullptr;
    std::string stats_path;
};
inline State& st() {
    static State s;
    return s;
}

inline void count(const char* n, u64 k = 1) { st().counters[n] += k; }
inline void count(const std::string& n, u64 k = 1) { st().counters[n] += k; }
inline void maximum(const char* n, u64 v) {
    u64& c = st().counters[std::string("max:") + n];
    if (v > c) c = v;
}

inline void tick() {
    if (st().progress) st().progress[1] = st().progress[1] + 1;
}

// Append to the case's history (also what makes cases distinct).
inline void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void trace(const char* fmt, ...) {
    State& s = st();
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    int n = std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0) n = 0;
    if (n >= int(sizeof buf)) n = sizeof buf - 1;
    for (int i = 0; i < n; ++i) s.hash = (s.hash ^ u64(buf[i])) * 0x100000001b3ull;
    s.ops++;
    if (s.trace.size() < 200000) {
        s.trace.append(buf, std::size_t(n));
        s.trace += '\n';
    }
    if (s.verbose) std::fprintf(stderr, "%s\n", buf);
    tick();
}

inline std::string jesc(const std::string& in) {
    std::string o;
    for (char c : in) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n')
            o += "\\n";
        else if (static_cast<unsigned char>(c) < 32)
            o += ' ';
        else
            o += c;
    }
    return o;
}

[[noreturn]] inline void die(const char* tag, const std::string& msg) {
    State& s = st();
    std::fflush(stdout);
    std::string t = s.trace.size() > 6000 ? "..." + s.trace.substr(s.trace.size() - 6000) : s.trace;
    std::fprintf(stderr, "=== history of case %llu\n%s\n", (unsigned long long)s.case_no, t.c_str());
    std::fprintf(stderr, "VMFAIL tag=%s case=%llu msg=%s\n", tag, (unsigned long long)s.case_no, msg.c_str());
    std::fflush(stderr);
    _exit(66);
}

// The verdict function: reports when `tag` is one of the tags this check
// decides; otherwise only notes that the case is tainted.
inline bool expect(bool ok, const char* tag, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
inline bool expect(bool ok, const char* tag, const char* fmt, ...) {
    if (ok) return true;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    State& s = st();
    if (s.active.count(tag)) die(tag, buf);
    s.tainted = true;
    count(std::string("foreign:") + tag);
    return false;
}

inline void dump_history() {
    State& s = st();
    static bool done = false;
    if (done) return;
    done = true;
    std::size_t n = s.trace.size(), off = n > 6000 ? n - 6000 : 0;
    char head[64];
    int h = std::snprintf(head, sizeof head, "=== history of case %llu\n", (unsigned long long)s.case_no);
    [[maybe_unused]] auto r1 = ::write(2, head, std::size_t(h));
    [[maybe_unused]] auto r2 = ::write(2, s.trace.data() + off, n - off);
}
inline void on_signal(int sig) {
    dump_history();
    ::signal(sig, SIG_DFL);
    ::raise(sig);
}

using CaseFn = std::function<void(Rng&)>;
struct Reg {
    CaseFn fn;
    std::vector<std::string> tags;
};
inline std::map<std::string, Reg>& registry() {
    static std::map<std::string, Reg> r;
    return r;
}
struct Registrar {
    Registrar(const char* p, std::vector<std::string> tags, CaseFn f) { registry()[p] = Reg{std::move(f), std::move(tags)}; }
};
#define VM_PROP(ID, ...)                                                     \
    static void case_##ID(vm::Rng&);                                         \
    static vm::Registrar reg_##ID(#ID, {#ID, ##__VA_ARGS__}, case_##ID);     \
    static void case_##ID([[maybe_unused]] vm::Rng& rng)

// The cases of one property can be compiled in several parts (see "parts" in
// plan.py): every part registers the cases that it was given.
#ifndef VM_PARTS
#define VM_PARTS 1
#define VM_PART 0
#endif
template <typename... A>
struct Cases {
    using Fn = std::function<void(Rng&, A...)>;
    static std::map<std::string, std::vector<Fn>>& table() {
        static std::map<std::string, std::vector<Fn>> t;
        return t;
    }
    static void run(const char* name, std::size_t k, Rng& rng, A... a) {
        auto& t = table()[name];
        if (k >= t.size() || !t[k]) (std::fprintf(stderr, "HARNESS ERROR: case %zu of %s is not there\n", k, name), std::_Exit(3));
        t[k](rng, a...);
    }
};
#define VM_CASES(NAME, N, SIG, ...)                                                              \
    namespace {                                                                                  \
    struct Cases_##NAME {                                                                        \
        using C = SIG;                                                                \
        template <std::size_t K, typename F>                                                     \
        static void add(std::vector<typename C::Fn>& t, F f) {                                   \
            if constexpr (K % VM_PARTS == VM_PART)                                               \
                t[K] = [f](vm::Rng& rng, auto... a) { f(std::integral_constant<std::size_t, K>{}, rng, a...); }; \
        }                                                                                        \
        template <std::size_t... K, typename F>                                                  \
        static void all(std::index_sequence<K...>, F f) {                                        \
            auto& t = C::table()[#NAME];                                                         \
            t.resize(N);                                                                         \
            (add<K>(t, f), ...);                                                                 \
        }                                                                                        \
        Cases_##NAME() { all(std::make_index_sequence<N>{}, __VA_ARGS__); }                      \
    } cases_##NAME;                                                                              \
    }

inline void write_stats(u64 evaluations) {
    State& s = st();
    FILE* f = s.stats_path.empty() ? stdout : std::fopen(s.stats_path.c_str(), "w");
    if (!f) return;
    std::fprintf(f, "{\"evaluations\":%llu,\"counters\":{", (unsigned long long)evaluations);
    bool first = true;
    for (auto& [k, v] : s.counters) {
        std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v);
        first = false;
    }
    std::fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& x : s.samples) {
        std::fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str());
        first = false;
    }
    std::fprintf(f, "],\"hashes\":[");
    first = true;
    u64 n = 0;
    for (u64 h : s.distinct) {
        if (++n > 400000) break;
        std::fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)h);
        first = false;
    }
    std::fprintf(f, "]}\n");
    if (f != stdout) std::fclose(f);
}

inline int run(int argc, char** argv) {
    State& s = st();
    u64 first = 0, n = 100;
    std::string progress;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") s.prop = val();
        else if (a == "--seed") s.seed = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--first") first = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--count") n = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--stats") s.stats_path = val();
        else if (a == "--progress") progress = val();
        else if (a == "--thorough") s.thorough = true;
        else if (a == "--verbose") s.verbose = true;
    }
#ifdef VM_ASAN
    __sanitizer_set_death_callback(dump_history);
#elif !defined(__SANITIZE_THREAD__)
    for (int sig : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) ::signal(sig, on_signal);
#endif
    auto it = registry().find(s.prop);
    if (it == registry().end()) {
        std::fprintf(stderr, "no such property in this harness: %s\n", s.prop.c_str());
        return 3;
    }
    for (auto& t : it->second.tags) s.active.insert(t);
    if (!progress.empty()) {
        int fd = ::open(progress.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ::ftruncate(fd, 64) == 0) {
            void* m = ::mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) s.progress = static_cast<volatile u64*>(m);
        }
    }
    u64 ph = 1469598103934665603ull;
    for (char c : s.prop) ph = (ph ^ u64(c)) * 0x100000001b3ull;
    u64 done = 0;
    for (u64 c = first; c < first + n; ++c) {
        s.case_no = c;
        if (s.progress) {
            s.progress[0] = c;
            s.progress[1] = s.progress[1] + 1;
        }
        s.trace.clear();
        s.hash = 1469598103934665603ull;
        s.ops = 0;
        s.tainted = false;
        s.nontrivial = false;
        Rng rng(mix(mix(s.seed) ^ ph ^ mix(c + 17)));
        try {
            it->second.fn(rng);
        } catch (std::exception& e) {
            if (!s.tainted) die(s.prop.c_str(), std::string("unexpected exception: ") + e.what());
            count("abandoned");
        }
        ++done;
        if (s.nontrivial) {
            if (s.distinct.insert(s.hash).second && s.samples.size() < 2)
                s.samples.push_back("case " + std::to_string(c) + ": " + s.trace.substr(0, 700));
        }
    }
    write_stats(done);
    return 0;
}

}  // namespace vm

#if VM_PART == 0
#define VM_MAIN \
    int main(int argc, char** argv) { return vm::run(argc, argv); }
#else
#define VM_MAIN
#endif
