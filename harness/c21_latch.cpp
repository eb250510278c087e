// C21: the set-reset latch against a reference with exact time.
#include "vf.hpp"
#include "spine/platform/hal.hpp"
#include "spine/controller/sr_latch.hpp"

using spn::controller::SRLatch;
using vf::i64;
namespace {
i64 now() { return HAL::millis().raw(); }

void run(vf::Rng& r, int n) {
    SRLatch::Config c{.high = static_cast<float>(r.pick({0.0, 25.0, r.real(-100, 100)})), .low = 0};
    c.low = c.high - static_cast<float>(r.pick({0.0, 1.0, r.real(0, 50)}));
    const i64 scale = r.pick<i64>({10, 1000, 60000, 7200000, 7200000, 864000000, 8640000000}); // up to 100 days: beyond 32 bits of milliseconds
    const bool use_min = r.chance(2, 3), use_max = r.chance(2, 3);
    i64 min_on = use_min && r.chance(2, 3) ? r.range(0, scale) : 0, min_off = use_min && r.chance(2, 3) ? r.range(0, scale) : 0;
    i64 max_on = use_max && r.chance(2, 3) ? std::max<i64>(1, min_on + r.range(0, scale)) : 0;
    i64 max_off = use_max && r.chance(2, 3) ? std::max<i64>(1, min_off + r.range(0, scale)) : 0;
    c.minimal_on_time = k_time_ms(min_on), c.minimal_off_time = k_time_ms(min_off);
    c.maximal_on_time = k_time_ms(max_on), c.maximal_off_time = k_time_ms(max_off);
    vf::set_clock_us(r.chance(1, 2) ? 0 : r.range(0, 20ll * 365 * 86400) * 1000000);
    vf::op("high=%g low=%g on %lld..%lld off %lld..%lld", c.high, c.low, (long long)min_on, (long long)max_on, (long long)min_off, (long long)max_off);
    SRLatch l(std::move(c));
    l.initialize();
    bool on = false, switched = false;
    i64 since = now(); // of the current state
    int changes = 0;
    bool by_time = false, held_back = false;
    VF_CHECK(!l.response(), "initial", "a new latch is on");
    bool hold = r.chance(1, 3); // long phases of one kind of reading: repeats of the same state
    int kind = r.below(6);
    for (int i = 0; i < n; ++i) {
        i64 minimum = on ? min_on : min_off, maximum = on ? max_on : max_off;
        i64 age = now() - since, step;
        switch (r.below(8)) {
        case 0: step = 0; break;
        case 1: step = std::max<i64>(0, minimum - age); break;
        case 2: step = std::max<i64>(0, minimum - age - 1); break;
        case 3: step = std::max<i64>(0, maximum - age); break;
        case 4: step = std::max<i64>(0, maximum - age + 1); break;
        case 5: step = r.range(0, scale); break;
        default: step = r.range(0, scale / 8 + 1);
        }
        HAL::delay(k_time_ms(step));
        if (!hold || r.chance(1, 8)) kind = r.below(6);
        float v;
        switch (kind) {
        case 0: v = c.high; break;
        case 1: v = c.low; break;
        case 2: v = std::nextafter(c.high, 1e9f) + (r.chance(1, 2) ? 3.0f : 0.0f); break;
        case 3: v = std::nextafter(c.low, -1e9f) - (r.chance(1, 2) ? 3.0f : 0.0f); break;
        case 4: v = (c.high + c.low) / 2; break;
        default: v = static_cast<float>(r.real(c.low - 10, c.high + 10));
        }
        vf::op("+%lld:%g", (long long)step, v);
        age = now() - since;
        bool want = on, either = false;
        if (age < minimum && switched) {
            if (on ? v < c.low : v > c.high) {
                held_back = true;
                VF_EV("held.back.by.minimal.time");
            }
        } else if (maximum > 0 && age > maximum) {
            want = !on;
            by_time = true;
            VF_EV("switched.by.maximal.time");
        } else {
            if (v > c.high) want = true;
            else if (v < c.low)
                want = false;
            // how long a latch that never switched has been off is not known to it
            if (!switched && maximum > 0 && !want && age + min_off > maximum) either = true;
        }
        l.new_reading(v);
        bool got = l.response();
        if (!(either && got)) {
            VF_CHECK(got == want, want ? (on ? "turned-off" : "not-turned-on") : (on ? "not-turned-off" : "turned-on"),
                     "reading %g after %lld ms %s: %s (limits of this state %lld..%lld, thresholds %g/%g)", v, (long long)age, on ? "on" : "off",
                     got ? "on" : "off", (long long)minimum, (long long)maximum, c.low, c.high);
        }
        if (got != on) {
            if (on && v < c.low) VF_EV("turned.off.by.reading");
            if (!on && v > c.high) VF_EV("turned.on.by.reading");
            if (!switched && min_off > 0 && now() - since < min_off) VF_EV("first.switch.not.delayed");
            on = got;
            since = now();
            switched = true;
            ++changes;
        } else
            VF_EV("state.kept");
        vf::state(vf::mix((now() - since) * 2 + on));
    }
    if (scale > 5000000000ll && changes > 2) VF_EV("long.times");
    if (changes > 2 && (by_time || held_back)) vf::nontrivial();
}
} // namespace

VF_SCENARIO(histories, 1.0) { run(r, r.range(20, 80)); }
