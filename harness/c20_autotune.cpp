// C20: relay autotuning against an independent relay and the Ziegler-Nichols style formulas.
#include "vf.hpp"
#include "spine/platform/hal.hpp"
#include "spine/controller/pid.hpp"

using spn::controller::PID;
using spn::controller::PIDAutotuner;
using vf::i64;
using Aggr = PIDAutotuner::Aggressiveness;
namespace {
/// relay oscillation as observed from readings and times
struct Relay {
    double target, hyst, lo, hi, loop_ms;
    Aggr mode;
    bool on = true;
    i64 on_since, off_since = 0;
    double peak, trough;
    int switches_on = 0, switches_off = 0;
    struct Gains {
        double kp, ki, kd;
    };
    std::vector<Gains> cycles;

    void start(i64 t) {
        on_since = t;
        peak = -1e300, trough = 1e300;
    }
    /// returns the control value to expect
    double reading(double in, i64 t) {
        peak = std::max(peak, in);
        trough = std::min(trough, in);
        if (on && in > target + hyst) {
            on = false;
            off_since = t;
            peak = target;
            ++switches_off;
        } else if (!on && in < target - hyst) {
            on = true;
            const double high_ms = static_cast<double>(off_since - on_since), low_ms = static_cast<double>(t - off_since);
            on_since = t;
            const double amplitude = (peak - trough) / 2, d = (hi - lo) / 2;
            const double ku = 4 * d / (M_PI * amplitude), tu = high_ms + low_ms;
            const double cp = mode == Aggr::BasicPID ? 0.6 : mode == Aggr::LessOvershoot ? 0.33 : 0.2;
            const double cd = mode == Aggr::BasicPID ? 0.125 : 0.33;
            const double kp = cp * ku;
            cycles.push_back({kp, kp / (0.5 * tu) * loop_ms, cd * kp * tu / loop_ms});
            trough = target;
            ++switches_on;
        }
        return on ? hi : lo;
    }
    Gains result() const {
        if (cycles.size() <= 2) return cycles.back();
        Gains g{0, 0, 0};
        for (size_t i = 2; i < cycles.size(); ++i) g.kp += cycles[i].kp, g.ki += cycles[i].ki, g.kd += cycles[i].kd;
        double n = static_cast<double>(cycles.size() - 2);
        return {g.kp / n, g.ki / n, g.kd / n};
    }
};
void check_gain(const char* name, double got, double want, double amp_tol) {
    VF_CHECK(std::isfinite(got), "finite", "%s is %g", name, got);
    VF_CHECK(std::fabs(got - want) <= amp_tol * std::fabs(want), name, "%s is %.9g, the averaged cycles give %.9g", name, got, want);
}
Aggr mode(vf::Rng& r) { return r.pick({Aggr::BasicPID, Aggr::LessOvershoot, Aggr::NoOvershoot}); }
} // namespace

/// the tuner itself with an arbitrary process response
VF_SCENARIO(arbitrary_response, 1.0) {
    const float target = static_cast<float>(r.pick({0.0, 40.0, -15.0, 100.0, r.real(-500, 500)}));
    const float hyst = r.chance(1, 4) ? 0.0f : static_cast<float>(r.real(0.01, 5));
    const float lo = static_cast<float>(r.pick({0.0, -1.0, 10.0, r.real(-100, 100)})), hi = lo + static_cast<float>(r.pick({255.0, 1.0, r.real(0.1, 500)}));
    const i64 loop = r.chance(1, 2) ? 100 : r.range(1, 5000);
    const int cycles = r.chance(1, 3) ? r.range(1, 3) : r.chance(1, 50) ? r.pick({127, 130, 257, 300}) : r.range(1, 12);
    const bool negative = r.chance(1, 4);
    i64 t = r.chance(1, 2) ? 0 : r.range(0, 1ll << 40);
    PIDAutotuner a;
    if (r.chance(1, 3)) { // a tuner that has been used before
        a.set_target_input_value(target + static_cast<float>(r.real(-50, 50)));
        a.set_hysteresis(0.5f);
        a.setOutputRange(-3, 7);
        a.set_loop_interval(k_time_ms(70));
        a.set_aggressiveness(mode(r));
        a.set_tuning_cycles(5);
        a.start_tuning_loop(k_time_ms(0));
        const int end = static_cast<int>(r.range(1, 60));
        for (int i = 0; i < end; ++i) a.do_autotune(static_cast<float>(r.real(-600, 600)), k_time_ms(70 * i));
        VF_EV("tuner.used.again");
    }
    a.set_target_input_value(target);
    a.set_hysteresis(negative ? -hyst : hyst);
    a.setOutputRange(lo, hi);
    a.set_loop_interval(k_time_ms(loop));
    Relay m{target, hyst, lo, hi, static_cast<double>(loop), mode(r)};
    a.set_aggressiveness(m.mode);
    a.set_tuning_cycles(cycles);
    a.start_tuning_loop(k_time_ms(t));
    m.start(t);
    vf::op("target=%g hyst=%g %g..%g loop=%lld cycles=%d mode=%d", target, hyst, lo, hi, (long long)loop, cycles, (int)m.mode);
    const double spread = r.real(0.5, 40) + hyst;
    const int style = r.below(3);
    double x = target - spread;
    bool had_close_call = false;
    for (int i = 0; i < (cycles > 100 ? 60000 : 4000) && m.switches_on < cycles; ++i) {
        VF_CHECK(!a.is_finished(), "finished-early", "finished after %d of %d cycles", m.switches_on, cycles);
        VF_CHECK(a.get_cycle() == m.switches_on, "cycle", "cycle %d, expected %d", a.get_cycle(), m.switches_on);
        switch (style) {
        case 0: x = target + r.real(-spread, spread); break; // noise
        case 1: x += (m.on ? 1 : -1) * r.real(0, spread / 4) + r.real(-spread, spread) * 0.05; break; // an integrator
        default: // around the switching points
            x = target + r.pick({1.0, -1.0}) * hyst * r.pick({0.0, 0.5, 0.99, 1.01, 1.5, 3.0}) + (r.chance(1, 5) ? r.real(-spread, spread) : 0);
        }
        const float in = static_cast<float>(x);
        // stay clear of the switching points by rounding of target +- hysteresis
        if (std::fabs(std::fabs((double)in - target) - hyst) < 1e-5 * (std::fabs(target) + hyst + 1e-3)) continue;
        if (std::fabs(std::fabs((double)in - target) - hyst) < 0.1) had_close_call = true;
        t += r.chance(1, 2) ? loop : r.range(1, loop * 3);
        double want = m.reading(in, t);
        if (m.switches_on >= cycles) want = lo;
        float got = a.do_autotune(in, k_time_ms(t));
        VF_CHECK(got == lo || got == hi, "control-value", "control value %g is neither %g nor %g", got, lo, hi);
        VF_CHECK(got == (float)want, "switching", "reading %g at target %g +- %g gives %g, expected %g", in, target, hyst, got, want);
        VF_EV("control.value");
        vf::state(vf::hash_bytes(&in, 4));
    }
    if (m.switches_on < cycles) return;
    VF_CHECK(a.is_finished(), "not-finished", "not finished after %d cycles", cycles);
    auto g = m.result();
    double tol = 1e-4;
    // float readings: an amplitude that is small against the target loses digits
    check_gain("Kp", a.get_Kp(), g.kp, tol);
    check_gain("Ki", a.get_Ki(), g.ki, tol);
    check_gain("Kd", a.get_Kd(), g.kd, tol);
    VF_EV("tuned");
    if (cycles > 256) VF_EV("many.cycles");
    if (cycles <= 2) VF_EV("tuned.in.two.cycles.or.less");
    if (cycles > 3 && had_close_call) vf::nontrivial();
}

/// the whole loop on a simulated process
VF_SCENARIO(process, 0.25) {
    PID::Config c;
    c.output_lower_limit = static_cast<float>(r.pick({0.0, -20.0, 5.0}));
    c.output_upper_limit = c.output_lower_limit + static_cast<float>(r.pick({255.0, 100.0, 30.0}));
    c.sample_interval = k_time_ms(r.pick({1, 20, 100, 250, 1000}));
    PID::TuneConfig tc;
    tc.setpoint = static_cast<float>(r.real(20, 80));
    tc.hysteresis = static_cast<float>(r.real(0.01, 1));
    tc.cycles = r.range(1, 8);
    tc.aggressiveness = mode(r);
    tc.startpoint = r.chance(1, 3) ? tc.setpoint * 0.5f : 0;
    const bool own_clock = r.chance(1, 2);
    i64 clock = r.range(0, 1000000);
    auto now = [&] { return own_clock ? clock : HAL::millis().raw(); };
    vf::op("sp=%g hyst=%g %g..%g %lldms cycles=%d start=%g", tc.setpoint, tc.hysteresis, c.output_lower_limit, c.output_upper_limit,
           (long long)c.sample_interval.raw(), tc.cycles, tc.startpoint);
    // process: integrates the control value towards its level, with a delay line
    const double speed = r.real(0.05, 0.4) / c.sample_interval.raw();
    double level = r.real(0, 30), control = c.output_lower_limit;
    std::deque<double> line(static_cast<size_t>(r.range(1, 4)), control);
    i64 last = now();
    bool tuning = tc.startpoint == 0;
    Relay m{tc.setpoint, std::fabs(tc.hysteresis), c.output_lower_limit, c.output_upper_limit, static_cast<double>(c.sample_interval.raw()), tc.aggressiveness};
    m.start(now());
    float reading = 0;
    i64 reading_at = -1;
    int sets = 0;
    i64 loops = 0;
    std::vector<float> values;
    auto advance = [&] {
        i64 dt = now() - last;
        last = now();
        // towards 100 at the upper limit, towards 0 at the lower
        double frac = (line.front() - c.output_lower_limit) / (c.output_upper_limit - c.output_lower_limit);
        level += (frac * 100 - level) * std::min(1.0, speed * static_cast<double>(dt) * 0.3);
    };
    std::vector<i64> reading_times;
    auto getter = [&]() -> float {
        advance();
        reading = static_cast<float>(level);
        reading_at = now();
        return reading;
    };
    int pending_start_sets = 0;
    auto setter = [&](float v) {
        values.push_back(v);
        line.push_back(v);
        line.pop_front();
        (void)pending_start_sets;
        ++sets;
        if (m.switches_on >= tc.cycles) return; // the final switch-off, checked below
        VF_CHECK(v == c.output_lower_limit || v == c.output_upper_limit, "control-value", "control value %g while tuning, limits %g and %g", v,
                 c.output_lower_limit, c.output_upper_limit);
        if (!tuning) {
            // heating up to the start point ends with the output low
            if (v == c.output_lower_limit) {
                tuning = true;
                VF_CHECK(reading >= tc.startpoint, "startpoint", "the start point %g was left at %g", tc.startpoint, reading);
                m.start(now());
                VF_EV("start.point.reached");
            }
            return;
        }
        if (!reading_times.empty())
            VF_CHECK(reading_at - reading_times.back() == c.sample_interval.raw(), "loop-interval", "%lld ms between two samples, interval %lld",
                     (long long)(reading_at - reading_times.back()), (long long)c.sample_interval.raw());
        reading_times.push_back(reading_at);
        double want = m.reading(reading, reading_at);
        if (m.switches_on >= tc.cycles) want = c.output_lower_limit;
        VF_CHECK(v == (float)want, "switching", "reading %g at target %g +- %g gives %g, expected %g", reading, tc.setpoint, tc.hysteresis, v, want);
        VF_EV("process.step");
        VF_CHECK(sets < 200000, "endless", "tuning does not end");
    };
    PID pid(c);
    PID::Tunings before = pid.tunings();
    const bool counted = own_clock || r.chance(1, 2);
    PID::Tunings t = own_clock ? pid.autotune(
                                     tc, setter, getter, [&] { ++loops; }, [&] { return k_time_ms(clock); },
                                     [&](k_time_ms d) {
                                         clock += d.raw();
                                         if (d.raw() >= 1000) HAL::delay(d);
                                     })
                   : counted ? pid.autotune(tc, setter, getter, [&] { ++loops; })
                                    : pid.autotune(tc, setter, getter);
    if (counted) // the caller's loop has its turn in every millisecond that is waited
        VF_CHECK(loops >= static_cast<i64>(reading_times.size()) * c.sample_interval.raw(), "loop", "the loop was called %lld times in %zu intervals of %lld ms",
                 (long long)loops, reading_times.size(), (long long)c.sample_interval.raw());
    VF_CHECK(m.switches_on == tc.cycles, "cycles", "tuning ended after %d of %d cycles", m.switches_on, tc.cycles);
    VF_CHECK(values.back() == 0, "left-on", "the output is left at %g", values.back());
    auto g = m.result();
    check_gain("process-Kp", t.Kp, g.kp, 1e-4);
    check_gain("process-Ki", t.Ki, g.ki, 1e-4);
    check_gain("process-Kd", t.Kd, g.kd, 1e-4);
    VF_CHECK(pid.tunings() == before, "tunings-touched", "tuning changed the controller itself");
    VF_EV("process.tuned");
    if (tc.cycles > 2) vf::nontrivial();
}

/// a process that never reaches its start point is heated for no more than half an hour
VF_SCENARIO(start_point_out_of_reach, 0.02) {
    PID::Config c;
    c.output_lower_limit = 0, c.output_upper_limit = 255;
    c.sample_interval = k_time_ms(100);
    PID::TuneConfig tc;
    tc.setpoint = 30, tc.startpoint = static_cast<float>(r.real(40, 90)), tc.hysteresis = 0.5f, tc.cycles = r.range(1, 4), tc.aggressiveness = mode(r);
    const double top = tc.startpoint - r.real(0.01, 5); // always above the set point
    double level = top - 1;
    float control = 0;
    bool low_seen = false;
    const i64 begin = HAL::millis().raw();
    i64 last = begin, heated = -1, loops = 0;
    PID pid(c);
    vf::op("start=%g top=%g", tc.startpoint, top);
    pid.autotune(
        tc,
        [&](float v) {
            if (!low_seen && v == 0) low_seen = true, heated = HAL::millis().raw() - begin;
            control = v;
        },
        [&]() -> float {
            const i64 t = HAL::millis().raw();
            level = std::min(top, level + (control > 100 ? 0.004 : -0.004) * static_cast<double>(t - last));
            last = t;
            VF_CHECK(low_seen || t - begin < 31 * 60000, "heats-on", "still heating after %lld s", (long long)(t - begin) / 1000);
            return static_cast<float>(level);
        },
        [&] { loops += !low_seen; });
    VF_CHECK(heated >= 30 * 60000 - 2000 && heated <= 30 * 60000 + 2000, "heating-time", "heated for %lld ms towards an unreachable start point", (long long)heated);
    VF_CHECK(loops >= heated / 1000 - 1, "loop-heating", "the loop was called %lld times in %lld s of heating", (long long)loops, (long long)heated / 1000);
    VF_EV("start.point.given.up");
}
