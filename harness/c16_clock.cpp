// C16: the simulated clock against a 64-bit microsecond counter.
#include "vf.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/time/timers.hpp"

using vf::i64;
namespace {
struct Clock {
    i64 total = 0; // microseconds
    i64 last_ms = 0, last_us = 0;
    int rounding = 0; // +1: seen rounding up, -1: seen rounding down at half or above

    void look() {
        i64 us = HAL::micros().raw(), ms = HAL::millis().raw();
        VF_CHECK(us == total, "micros", "micros() is %lld, %lld us were spent", (long long)us, (long long)total);
        i64 lo = total / 1000, rest = total % 1000;
        VF_CHECK(ms == lo || (ms == lo + 1 && rest >= 500), "millis", "millis() is %lld, %lld us were spent", (long long)ms, (long long)total);
        if (rest >= 500) { // floor or nearest, but always the same
            int how = ms > lo ? 1 : -1;
            VF_CHECK(rounding == 0 || rounding == how, "millis-rounding", "millis() is %lld at %lld us, rounded otherwise before", (long long)ms,
                     (long long)total);
            rounding = how;
            VF_EV("sub.millisecond.rest");
        }
        VF_CHECK(us >= last_us && ms >= last_ms, "backwards", "the clock went from %lld us / %lld ms to %lld us / %lld ms", (long long)last_us,
                 (long long)last_ms, (long long)us, (long long)ms);
        last_us = us, last_ms = ms;
        VF_EV("looked");
        if (ms > (1ll << 32)) VF_EV("beyond.32.bits");
        if (us > (1ll << 53)) VF_EV("beyond.double.precision");
        vf::state(vf::mix(total));
    }
    /// one delay of any size in any unit and spelling
    void delay(vf::Rng& r, i64 scale) {
        i64 n = r.chance(1, 6) ? 0 : r.chance(1, 3) ? r.range(0, 1999) : r.range(0, scale);
        switch (r.below(11)) {
        case 0: HAL::delay_us(k_time_us(n)), total += n, vf::op("us%lld", (long long)n); break;
        case 1: HAL::delay_ms(k_time_ms(n)), total += n * 1000, vf::op("ms%lld", (long long)n); break;
        case 2: HAL::delay(k_time_ms(n)), total += n * 1000, vf::op("d%lld", (long long)n); break;
        case 3: HAL::delay(k_time_s(n / 1000)), total += n / 1000 * 1000000, vf::op("s%lld", (long long)(n / 1000)); break;
        case 4: HAL::delay_us(k_time_ms(n)), total += n * 1000, vf::op("us(ms)%lld", (long long)n); break;
        case 5: {
            uint32_t u = static_cast<uint32_t>(r.chance(1, 4) ? r.next() : n);
            HAL::delay_us(u), total += u, vf::op("u32us%u", u);
            break;
        }
        case 6: {
            uint32_t u = static_cast<uint32_t>(r.chance(1, 4) ? r.next() : n);
            HAL::delay_ms(u), total += u * 1000ll, vf::op("u32ms%u", u);
            break;
        }
        case 7: {
            i64 half = r.pick({499, 500, 999, 1});
            HAL::delay_us(k_time_us(half)), total += half, vf::op("half%lld", (long long)half);
            break;
        }
        case 8: HAL::delay(k_time_m(n / 60000)), total += n / 60000 * 60000000, vf::op("m%lld", (long long)(n / 60000)); break;
        case 9: HAL::delay_us(k_time_s(n / 1000)), total += n / 1000 * 1000000, vf::op("us(s)%lld", (long long)(n / 1000)); break;
        default: HAL::delay(k_time_h(n % 50)), total += n % 50 * 3600000000ll, vf::op("h%lld", (long long)(n % 50));
        }
    }
};
void walk(vf::Rng& r, i64 scale, int n) {
    Clock c;
    c.last_us = HAL::micros().raw(), c.last_ms = HAL::millis().raw();
    c.total = c.last_us;
    for (int i = 0; i < n; ++i) {
        c.delay(r, scale);
        c.look();
        if (r.chance(1, 5)) c.look();
    }
    if (c.rounding) vf::nontrivial();
}
} // namespace

VF_SCENARIO(from_boot, 1.0) {
    VF_CHECK(HAL::micros().raw() == 0 && HAL::millis().raw() == 0, "boot", "a fresh clock does not read zero");
    walk(r, r.pick({3000, 100000, 100000000}), 50);
}
VF_SCENARIO(at_uptime, 1.0) {
    // get there by delays only: years in milliseconds, then microseconds
    vf::i64 ms = r.chance(1, 2) ? (1ll << r.range(16, 44)) - r.range(0, 3000) : r.range(0, 30ll * 365 * 86400000);
    HAL::delay_ms(k_time_ms(ms));
    vf::i64 us = r.range(0, 100000);
    HAL::delay_us(k_time_us(us));
    vf::op("up=%lldms+%lldus", (long long)ms, (long long)us);
    VF_CHECK(HAL::micros().raw() == ms * 1000 + us, "micros-uptime", "micros() is %lld after %lld ms and %lld us", (long long)HAL::micros().raw(),
             (long long)ms, (long long)us);
    walk(r, r.pick({3000, 100000}), 50);
}
