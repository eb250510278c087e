// Shared runtime-monitoring harness: seeded cases, operation trace, violation reporting, coverage counters.
// Harnesses only use the public API of /repo/src/spine.
#pragma once

#include <array>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace vf {

using u64 = uint64_t;
using i64 = int64_t;

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline u64 hash_bytes(const void* p, size_t n, u64 h = 1469598103934665603ull) {
    auto b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
    u64 next() {
        s += 0x9e3779b97f4a7c15ull;
        return mix(s);
    }
    /// [0, n)
    u64 below(u64 n) { return n ? next() % n : 0; }
    /// [a, b]
    i64 range(i64 a, i64 b) { return a + static_cast<i64>(below(static_cast<u64>(b - a) + 1)); }
    bool chance(u64 num, u64 den) { return below(den) < num; }
    double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * unit(); }
    template<typename T>
    const T& pick(const std::vector<T>& v) {
        return v[below(v.size())];
    }
    template<typename T>
    T pick(std::initializer_list<T> v) {
        return *(v.begin() + below(v.size()));
    }
};

/// thrown by fail() to abandon the current case
struct CaseFailed {};
/// thrown by the default machine exception handler
struct SpineException {
    std::string type, msg;
};

struct Scenario {
    const char* name;
    double weight;
    void (*fn)(Rng&);
};
std::vector<Scenario>& scenarios();
struct Register {
    Register(const char* n, double w, void (*f)(Rng&)) { scenarios().push_back({n, w, f}); }
};
#define VF_SCENARIO(name, weight)                                                                                      \
    static void vf_scn_##name(::vf::Rng& r);                                                                           \
    static ::vf::Register vf_reg_##name(#name, weight, &vf_scn_##name);                                                \
    static void vf_scn_##name([[maybe_unused]] ::vf::Rng& r)

/// append to the operation trace of the current case
void op(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
/// report a violation and abandon the case
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define VF_CHECK(cond, key, ...)                                                                                       \
    do {                                                                                                               \
        if (!(cond)) ::vf::fail(key, __VA_ARGS__);                                                                     \
    } while (0)

/// count an observed event
struct Counter {
    const char* name;
    u64 n = 0;
    explicit Counter(const char* nm);
};
#define VF_EV(name)                                                                                                    \
    do {                                                                                                               \
        static ::vf::Counter vf_ctr(name);                                                                             \
        ++vf_ctr.n;                                                                                                    \
    } while (0)
/// record a distinct abstract state reached by the system under test
void state(u64 h);
/// mark the current case as non-trivial (it reached what the property is about)
void nontrivial();
/// tier
bool thorough();
/// bytes currently allocated on the heap (sanitizer allocator)
size_t heap();
/// what Spine printed since the last call (std::cout is redirected)
std::string take_output();
/// discard what Spine prints (default) or keep it
void capture_output(bool on);
/// expect-exception helper: runs f, returns the caught spine exception or nullopt
template<typename F>
std::optional<SpineException> catching(F&& f) {
    try {
        f();
    } catch (const SpineException& e) {
        return e;
    }
    return std::nullopt;
}
/// (re)install the default throwing machine exception handler
void install_handler();
/// reset the virtual clock to the given microseconds (ms part split off)
void set_clock_us(i64 us);

#ifdef DEBUG_SPINE
constexpr bool kDebug = true;
#else
constexpr bool kDebug = false;
#endif

} // namespace vf
