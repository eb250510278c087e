// C34: what the Zephyr binding tells the kernel and its log, against what the portable interface was told.
#include "vf.hpp"
#include "spine/core/debugging.hpp"
#include "spine/core/exception.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/time/timers.hpp"

#include <zephyr/logging/log.h>
#include <zephyr/logging/log_ctrl.h>
using spn::logging::LogLevel;
using vf::i64;
using vf::u64;

namespace fake {
Kernel& kernel() {
    static Kernel k;
    return k;
}
} // namespace fake
using fake::kernel;
extern "C" {
void vf_zephyr_log(unsigned level, const char* fmt, ...) {
    static char b[70000];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    kernel().log.push_back({level, b});
}
const struct log_backend* log_backend_get_by_name(const char*) { return nullptr; }
uint32_t log_filter_set(struct log_backend const* const, uint32_t domain_id, int16_t source_id, uint32_t level) {
    if (domain_id == 0 && source_id == 0) kernel().filters.push_back(level); // there is one domain with one module here
    return level;
}
int log_source_id_get(const char* name) { return std::string_view(name) == "spine" ? 0 : -1; }
}
namespace vf {
void set_clock_us(i64 us) {
    kernel() = fake::Kernel{};
    kernel().now_us = static_cast<u64>(us);
}
} // namespace vf
namespace {
unsigned expected(LogLevel l) {
    switch (l) {
    case LogLevel::ERR: return LOG_LEVEL_ERR;
    case LogLevel::WARN: return LOG_LEVEL_WRN;
    case LogLevel::INFO: return LOG_LEVEL_INF;
    case LogLevel::DEBUG: return LOG_LEVEL_DBG;
    default: return LOG_LEVEL_NONE;
    }
}
} // namespace

VF_SCENARIO(clock, 1.0) {
    vf::set_clock_us(r.chance(1, 2) ? r.range(0, 4'000'000'000ll) : r.range(0, 4'000'000'000'000ll));
    for (int i = 0; i < 6; ++i) {
        u64 now = kernel().now_us;
        VF_CHECK(HAL::millis().raw() == static_cast<i64>(now / 1000), "millis", "%lld ms at %llu us", (long long)HAL::millis().raw(), (unsigned long long)now);
        VF_CHECK(HAL::micros().raw() == static_cast<uint32_t>(now / 100 * 100), "micros", "%lld us at %llu us", (long long)HAL::micros().raw(), (unsigned long long)now);
        u64 want;
        switch (r.below(6)) {
        case 0: { i64 v = r.range(0, 100000); HAL::delay(k_time_ms(v)), want = static_cast<u64>(v) * 1000; break; }
        case 1: { i64 v = r.range(0, 100); HAL::delay(k_time_s(v)), want = static_cast<u64>(v) * 1000000; break; }
        case 2: { i64 v = r.chance(1, 2) ? r.range(0, 2500) : r.range(0, 3000000); HAL::delay_us(k_time_us(v)), want = static_cast<u64>(v); break; }
        case 3: { uint32_t v = static_cast<uint32_t>(r.chance(1, 2) ? r.range(990, 1010) : r.range(0, 3000000)); HAL::delay_us(v), want = v; break; }
        case 4: { uint32_t v = static_cast<uint32_t>(r.range(0, 100000)); HAL::delay_ms(v), want = static_cast<u64>(v) * 1000; break; }
        default: { i64 v = r.range(0, 100000); HAL::delay_ms(k_time_ms(v)), want = static_cast<u64>(v) * 1000; }
        }
        vf::op("delay %llu", (unsigned long long)want);
        const u64 took = kernel().now_us - now;
        VF_CHECK(took >= want, "short-delay", "waited %llu us instead of %llu", (unsigned long long)took, (unsigned long long)want);
        VF_CHECK(took <= want + 1000, "long-delay", "waited %llu us instead of %llu", (unsigned long long)took, (unsigned long long)want);
        VF_EV("clock.delay");
        if (want % 1000) VF_EV("clock.delay.us");
    }
    vf::nontrivial();
}
VF_SCENARIO(spin, 0.3) { // long waits let other threads run
    i64 v = r.range(1000, 2000000);
    HAL::delay_us(k_time_us(v));
    VF_CHECK(kernel().spun_us <= 1000, "busy", "%llu of %lld us were spent spinning", (unsigned long long)kernel().spun_us, (long long)v);
    vf::op("spin %lld", (long long)v);
    vf::nontrivial();
}
VF_SCENARIO(log, 1.0) {
    const LogLevel levels[] = {LogLevel::OFF, LogLevel::ERR, LogLevel::WARN, LogLevel::INFO, LogLevel::DEBUG};
    for (int i = 0; i < 6; ++i) {
        LogLevel at = levels[r.below(5)];
        kernel().filters.clear();
        spn::logging::set_log_level(at);
        VF_CHECK(spn::logging::log_level() == at, "threshold", "level %d reads back as %d", (int)at, (int)spn::logging::log_level());
#ifdef CONFIG_LOG_RUNTIME_FILTERING
        VF_CHECK(!kernel().filters.empty() && kernel().filters.back() == expected(at), "filter", "level %d set the kernel's filter to %u", (int)at,
                 kernel().filters.empty() ? 99u : kernel().filters.back());
        VF_EV("log.filter");
#endif
        std::string s;
        for (int k = 0, c = r.chance(1, 3) ? r.range(230, 300) : r.range(0, 40); k < c; ++k) s += r.chance(1, 20) ? '%' : static_cast<char>(r.range(32, 126));
        int v = static_cast<int>(r.range(-100, 100));
        kernel().log.clear();
        LogLevel l = levels[1 + r.below(3)];
        std::string full = std::to_string(v) + " " + s;
        switch (l) {
        case LogLevel::ERR: SPN_ERR("%d %s", v, s.c_str()) break;
        case LogLevel::WARN: SPN_WARN("%d %s", v, s.c_str()) break;
        default: SPN_LOG("%d %s", v, s.c_str())
        }
        vf::op("%d@%d %zu", (int)l, (int)at, s.size());
        const bool shown = l <= at;
        VF_CHECK(kernel().log.size() == shown, "count", "a statement of level %d at threshold %d was logged %zu times", (int)l, (int)at, kernel().log.size());
        if (shown) {
            VF_CHECK(kernel().log[0].level == expected(l), "level", "a statement of level %d was logged as %u", (int)l, kernel().log[0].level);
            VF_CHECK(kernel().log[0].text == full.substr(0, 255), "text", "logged '%s' instead of '%s'", kernel().log[0].text.c_str(), full.c_str());
            VF_EV("log.line");
            if (full.size() > 255) VF_EV("log.cut");
        } else
            VF_EV("log.silent");
        kernel().log.clear();
        SPN_DBG("dbg %d", v)
        if (vf::kDebug && at == LogLevel::DEBUG) {
            VF_CHECK(kernel().log.size() == 1 && kernel().log[0].level == LOG_LEVEL_DBG, "debug", "a debug line was logged %zu times", kernel().log.size());
            VF_CHECK(kernel().log[0].text.rfind("dbg " + std::to_string(v), 0) == 0, "debug-text", "logged '%s'", kernel().log[0].text.c_str());
            VF_EV("log.debug");
        } else
            VF_CHECK(kernel().log.empty(), "debug", "a debug line was logged");
    }
    vf::nontrivial();
}
VF_SCENARIO(halt, 0.3) {
    spn::logging::set_log_level(LogLevel::WARN);
    kernel().log.clear();
    const std::string why = r.chance(1, 2) ? "vf why" : r.pick({"vf %d%s%n", "vf 100%", "vf %", "vf \"quoted\" \t why", "vf %5$s %%"});
    bool panicked = false, msg = r.chance(1, 2), raised = r.chance(1, 2);
    try {
        if (raised) {
            auto old = spn::core::set_machine_exception_handler(nullptr);
            kernel().log.clear();
            spn::throw_exception(spn::runtime_exception(why.c_str()));
        } else
            msg ? HAL::halt(why.c_str()) : HAL::halt();
    } catch (const fake::Kernel::Panic&) {
        panicked = true;
    }
    VF_CHECK(panicked, "halt", "the system was not halted");
    bool said = false;
    for (auto& l : kernel().log) said |= l.text.find(why) != std::string::npos;
    VF_CHECK(said == (msg || raised), "reason", "the reason was %s", said ? "made up" : "not logged");
    vf::op("halt %d %d", msg, raised);
    VF_EV("halt");
    vf::nontrivial();
}
VF_SCENARIO(timer, 0.5) { // a timer driven by the kernel's clock
    vf::set_clock_us(r.range(0, 10'000'000'000ll));
    i64 ms = r.range(1, 5000);
    auto t = spn::structure::time::AlarmTimer(k_time_ms(ms));
    u64 start = kernel().now_us / 1000;
    for (int i = 0; i < 40; ++i) {
        HAL::delay_us(k_time_us(r.range(0, 1000 * ms / 4)));
        u64 gone = kernel().now_us / 1000 - start;
        bool want = gone >= static_cast<u64>(ms);
        if (gone == static_cast<u64>(ms)) continue;
        VF_CHECK(t.expired() == want, "expired", "expired is %d after %llu of %lld ms", t.expired(), (unsigned long long)gone, (long long)ms);
        if (want) VF_EV("timer.expired");
    }
    vf::op("timer %lld", (long long)ms);
    vf::nontrivial();
}
