// C15: timers against exact integer time.
#include "vf.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/time/timers.hpp"

using namespace spn::structure::time;
using vf::i64;

namespace {
i64 now() { return HAL::millis().raw(); }

/// system uptimes in microseconds: boot, minutes, around every power of two of milliseconds, years
i64 uptime_us(vf::Rng& r) {
    switch (r.below(5)) {
    case 0: return 0;
    case 1: return r.range(0, 100000000);
    case 2: return ((1ll << r.range(15, 43)) - r.range(0, 40000)) * 1000;
    case 3: return r.range(0, 20ll * 365 * 86400) * 1000000;
    default: return (r.chance(1, 2) ? (1ll << 32) : (1ll << 31)) * 1000 - r.range(0, 30000) * 1000;
    }
}
i64 interval_ms(vf::Rng& r) {
    switch (r.below(7)) {
    case 0: return r.range(0, 3);
    case 1: return r.range(1, 100);
    case 2: return r.range(1, 20) * 1000;
    case 3: return r.range(1, 120) * 60000;
    case 4: return r.range(1, 3000) * 3600000;
    case 5: return (1ll << r.range(14, 34)) + r.range(-2, 2);
    default: return r.range(1, 1000000);
    }
}
void advance(vf::Rng& r, i64 ms) {
    vf::op("+%lld", (long long)ms);
    switch (r.below(4)) {
    case 0: HAL::delay_ms(k_time_ms(ms)); break;
    case 1: HAL::delay_us(k_time_us(ms * 1000)); break;
    case 2:
        if (ms % 1000 == 0) {
            HAL::delay(k_time_s(ms / 1000));
            break;
        }
        [[fallthrough]];
    default: HAL::delay(k_time_ms(ms));
    }
}
/// a step that likes the neighbourhood of the due moment
i64 step(vf::Rng& r, i64 until, i64 interval) {
    switch (r.below(8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return std::max<i64>(0, until - 1);
    case 3: return std::max<i64>(0, until);
    case 4: return std::max<i64>(0, until + 1);
    case 5: return r.range(0, std::max<i64>(1, interval));
    case 6: return interval * r.range(0, 5) + r.range(0, 2);
    default: return r.range(0, 50);
    }
}
void big_uptime() {
    if (now() > (1ll << 32)) VF_EV("uptime.beyond.32.bits");
    if (now() > (1ll << 24)) VF_EV("uptime.beyond.float.precision");
}
} // namespace

VF_SCENARIO(timer, 0.6) {
    i64 up = uptime_us(r);
    vf::set_clock_us(up);
    vf::op("up=%lldus", (long long)up);
    big_uptime();
    Timer t;
    i64 last = now();
    int resets = 0;
    if (r.chance(1, 4)) {
        last = now() - r.range(0, 1000);
        t = Timer(k_time_ms(last));
    }
    for (int i = 0, n = r.range(5, 40); i < n; ++i) {
        advance(r, step(r, r.range(0, 10), interval_ms(r)));
        switch (r.below(5)) {
        case 0:
        case 1: {
            i64 got = t.time_since_last().raw();
            VF_CHECK(got == now() - last, "since", "time since last is %lld, expected %lld", (long long)got, (long long)(now() - last));
            last = now();
            ++resets;
            VF_EV("timer.poll.reset");
            break;
        }
        case 2:
        case 3: {
            i64 got = t.time_since_last(Timer::NoReset).raw();
            VF_CHECK(got == now() - last, "since-noreset", "time since last is %lld, expected %lld", (long long)got, (long long)(now() - last));
            got = t.time_since_last(false).raw();
            VF_CHECK(got == now() - last, "noreset-resets", "reading without reset changed the timer: %lld, expected %lld", (long long)got,
                     (long long)(now() - last));
            VF_EV("timer.poll.noreset");
            break;
        }
        default:
            if (r.chance(1, 2)) {
                t.reset();
                last = now();
            } else {
                last = now() - r.range(0, 100000);
                t.reset(k_time_ms(last));
            }
            ++resets;
            VF_EV("timer.reset");
        }
        vf::state(vf::mix(now() - last));
    }
    if (resets > 1) vf::nontrivial();
}

VF_SCENARIO(alarm, 1.0) {
    i64 up = uptime_us(r);
    vf::set_clock_us(up);
    i64 in = interval_ms(r), made = now();
    bool absolute = in > 0 && r.chance(1, 3);
    vf::op("up=%lldus alarm %s %lld", (long long)up, absolute ? "at" : "in", (long long)in);
    big_uptime();
    const i64 due = made + in;
    AlarmTimer t = absolute           ? AlarmTimer(k_time_ms(due), true)
                   : in % 1000 == 0 && r.chance(1, 2) ? AlarmTimer(k_time_s(in / 1000))
                                      : AlarmTimer(k_time_ms(in));
    bool seen_before = false, seen_after = false;
    for (int i = 0, n = r.range(5, 30); i < n; ++i) {
        VF_CHECK(t.future().raw() == due, "future", "due at %lld, expected %lld", (long long)t.future().raw(), (long long)due);
        VF_CHECK(t.time_from_now().raw() == due - now(), "remaining", "%lld remaining, expected %lld", (long long)t.time_from_now().raw(),
                 (long long)(due - now()));
        bool e = t.expired();
        VF_CHECK(e == (now() >= due), e ? "early" : "late", "%s at %lld, due %lld", e ? "expired" : "not expired", (long long)now(), (long long)due);
        (e ? seen_after : seen_before) = true;
        if (now() == due) VF_EV("alarm.at.due.moment");
        if (e) VF_EV("alarm.expired");
        if (r.chance(1, 6)) {
            AlarmTimer copy = t;
            VF_CHECK(copy.expired() == e && copy.future().raw() == due, "copy", "a copied alarm differs");
        }
        vf::state(vf::mix((now() - due) * 2 + e));
        advance(r, step(r, due - now(), in));
    }
    if (seen_before && seen_after) vf::nontrivial();
    if (seen_after) { // what has gone off stays so, also when the platform's clock rolls over
        vf::set_clock_us(r.range(0, 1000) * 1000);
        VF_CHECK(t.expired(), "unexpired", "the alarm due at %lld is no longer expired when the clock starts over", (long long)due);
        VF_EV("alarm.across.roll.over");
    }
}

VF_SCENARIO(interval, 1.6) {
    i64 up = uptime_us(r);
    vf::set_clock_us(up);
    const i64 iv = interval_ms(r);
    const bool by_default = r.chance(1, 4); // intervals do not catch up unless asked to
    const bool catch_up = !by_default && r.chance(1, 2);
    vf::op("up=%lldus interval %lld%s", (long long)up, (long long)iv, catch_up ? " catch-up" : "");
    big_uptime();
    IntervalTimer t = by_default ? IntervalTimer(k_time_ms(iv)) : iv % 1000 == 0 && r.chance(1, 2) ? IntervalTimer(k_time_s(iv / 1000), catch_up) : IntervalTimer(k_time_ms(iv), catch_up);
    i64 start = now(); // of the running interval
    i64 reports = 0;
    bool missed = false;
    for (int i = 0, n = r.range(10, 60); i < n; ++i) {
        VF_CHECK(t.interval().raw() == iv, "interval", "interval is %lld, expected %lld", (long long)t.interval().raw(), (long long)iv);
        VF_CHECK(t.future().raw() == start + iv, "future", "next expiry at %lld, expected %lld", (long long)t.future().raw(), (long long)(start + iv));
        VF_CHECK(t.time_until_next().raw() == start + iv - now(), "until-next", "%lld until next, expected %lld", (long long)t.time_until_next().raw(),
                 (long long)(start + iv - now()));
        if (r.chance(1, 15)) {
            t.reset();
            vf::op("reset");
            start = now();
            VF_EV("interval.reset");
            continue;
        }
        bool e = t.expired();
        bool want = now() - start >= iv;
        VF_CHECK(e == want, want ? "missed" : "early", "poll at %lld reports %d, interval %lld runs since %lld", (long long)now(), e, (long long)iv,
                 (long long)start);
        if (now() - start == iv) VF_EV("interval.at.due.moment");
        if (e) {
            ++reports;
            VF_EV("interval.expired");
            if (iv > 0 && now() - start >= 2 * iv) {
                missed = true;
                VF_EV("interval.missed.several");
            }
            start = catch_up ? start + iv : now();
        }
        vf::state(vf::mix((now() - start) * 4 + e * 2 + catch_up));
        advance(r, step(r, start + iv - now(), iv));
    }
    if (reports > 2 && missed) vf::nontrivial();
}

// several timers share one clock without influencing each other
VF_SCENARIO(several, 0.4) {
    vf::set_clock_us(uptime_us(r));
    struct One {
        IntervalTimer t;
        i64 iv, start;
        bool cu;
    };
    std::vector<One> ts;
    for (int i = 0, n = r.range(2, 5); i < n; ++i) {
        i64 iv = r.range(1, 50);
        bool cu = r.chance(1, 2);
        ts.push_back({IntervalTimer(k_time_ms(iv), cu), iv, now(), cu});
        HAL::delay(k_time_ms(r.range(0, 7)));
    }
    for (int i = 0; i < 80; ++i) {
        One& o = ts[r.below(ts.size())];
        bool e = o.t.expired(), want = now() - o.start >= o.iv;
        VF_CHECK(e == want, "shared-clock", "poll at %lld reports %d, interval %lld runs since %lld", (long long)now(), e, (long long)o.iv, (long long)o.start);
        if (e) o.start = o.cu ? o.start + o.iv : now();
        HAL::delay(k_time_ms(r.range(0, 9)));
    }
    vf::nontrivial();
}
