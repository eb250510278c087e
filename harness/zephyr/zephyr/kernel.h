// A stand-in for the Zephyr kernel that records what it is told (calls only; no behaviour of Spine is repeated here).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

namespace fake {
struct Kernel {
    struct Line {
        unsigned level;
        std::string text;
    };
    uint64_t now_us = 0, slept_us = 0, spun_us = 0;
    std::vector<Line> log;
    std::vector<unsigned> filters; // levels the runtime filter was set to
    struct Panic {};
};
Kernel& kernel();
} // namespace fake

// 10000 ticks per second, Zephyr's default
inline int64_t k_uptime_ticks() { return static_cast<int64_t>(fake::kernel().now_us / 100); }
inline int64_t k_uptime_get() { return static_cast<int64_t>(fake::kernel().now_us / 1000); }
inline uint32_t k_ticks_to_us_near32(uint32_t t) { return t * 100u; }
inline int32_t k_msleep(int32_t ms) {
    if (ms > 0) fake::kernel().now_us += static_cast<uint64_t>(ms) * 1000, fake::kernel().slept_us += static_cast<uint64_t>(ms) * 1000;
    return 0;
}
inline int32_t k_usleep(int32_t us) {
    if (us > 0) fake::kernel().now_us += static_cast<uint64_t>(us), fake::kernel().slept_us += static_cast<uint64_t>(us);
    return 0;
}
inline void k_busy_wait(uint32_t us) { fake::kernel().now_us += us, fake::kernel().spun_us += us; }
[[noreturn]] inline void k_panic() { throw fake::Kernel::Panic{}; }
