// C19: the PID controller against the textbook law in double precision.
#include "vf.hpp"
#include "spine/platform/hal.hpp"
#include "spine/controller/pid.hpp"

using spn::controller::PID;
using vf::i64;
namespace {
struct Model {
    double kp, ki, kd; // as set
    bool on_error, reverse;
    double lo, hi, ts; // ts in seconds
    i64 interval, last; // ms
    double sum = 0, prev = 0, out = 0, sp = 0;
    double err = 0; // bound of the accumulated rounding error

    double clamp(double v) const { return std::min(std::max(v, lo), hi); }
    void init() {
        out = clamp(out);
        sum = clamp(out);
    }
    double sign() const { return reverse ? -1 : 1; }
    bool reading(double in, i64 now) {
        if (now - last < interval) return false;
        const double e = sp - in, d = in - prev, P = sign() * kp, I = sign() * ki * ts, D = sign() * kd / ts;
        double mag = std::fabs(I * e) + std::fabs(sum) + std::fabs(in) * (std::fabs(I) + std::fabs(P) + std::fabs(D)) + std::fabs(sp) * (std::fabs(I) + std::fabs(P)) +
                     std::fabs(prev) * (std::fabs(D) + std::fabs(P));
        sum += I * e;
        if (!on_error) sum -= P * d;
        sum = clamp(sum);
        out = clamp((on_error ? P * e : 0) + sum - D * d);
        err += 1e-6 * (mag + std::fabs(lo) + std::fabs(hi)) * 0.5;
        prev = in;
        last = now;
        return true;
    }
    double tol() const { return err + 1e-6 * std::max({std::fabs(lo), std::fabs(hi), 1e-3}); }
};

float gain(vf::Rng& r) {
    switch (r.below(5)) {
    case 0: return 0;
    case 1: return static_cast<float>(r.real(0, 1));
    case 2: return static_cast<float>(r.real(0, 100));
    case 3: return static_cast<float>(r.range(1, 40)) * 0.5f;
    default: return static_cast<float>(std::pow(10.0, r.real(-4, 3)));
    }
}
struct Rig {
    PID pid;
    Model m;
    PID::Config cfg;
    i64 ahead = 0; // the readings are stamped by a clock that differs by this much

    void check(const char* when) {
        float got = pid.response();
        VF_CHECK(std::isfinite(got), "finite", "%s: output is %g", when, got);
        VF_CHECK(got >= cfg.output_lower_limit && got <= cfg.output_upper_limit, "limits", "%s: output %.9g is outside %g..%g", when, got,
                 cfg.output_lower_limit, cfg.output_upper_limit);
        VF_CHECK(std::fabs(got - m.out) <= m.tol(), "law", "%s: output %.9g, the law gives %.9g (+-%.2g; sum %.9g)", when, got, m.out, m.tol(), m.sum);
        vf::state(vf::hash_bytes(&got, sizeof got));
    }
    void check_tunings() {
        auto t = pid.tunings();
        VF_CHECK(t.Kp == (float)m.kp && t.Ki == (float)m.ki && t.Kd == (float)m.kd, "tunings", "tunings read back as %g, %g, %g, set %g, %g, %g", t.Kp, t.Ki,
                 t.Kd, m.kp, m.ki, m.kd);
    }
};

PID::Config random_config(vf::Rng& r) {
    PID::Config c;
    c.tunings = {.Kp = gain(r), .Ki = gain(r), .Kd = gain(r)};
    switch (r.below(5)) {
    case 0: break; // 0..255
    case 1: c.output_lower_limit = -1, c.output_upper_limit = 1; break;
    case 2: c.output_lower_limit = 10, c.output_upper_limit = 20; break;
    case 3: c.output_lower_limit = -50, c.output_upper_limit = -5; break;
    default: c.output_lower_limit = static_cast<float>(r.real(-1000, 1000)), c.output_upper_limit = c.output_lower_limit + static_cast<float>(r.real(0.01, 2000));
    }
    switch (r.below(6)) {
    case 0: c.sample_interval = k_time_ms(r.range(1, 99)); break;
    case 1: c.sample_interval = k_time_ms(100); break;
    case 2: c.sample_interval = k_time_ms(r.range(101, 999)); break;
    case 3: c.sample_interval = k_time_s(r.range(1, 30)); break;
    case 4: c.sample_interval = r.chance(1, 6) ? k_time_ms(r.range(4000000000ll, 9000000000ll)) : k_time_ms(k_time_m(r.range(1, 90))); break;
    default: c.sample_interval = k_time_ms(r.range(1, 5000));
    }
    c.proportionality = r.chance(1, 2) ? PID::Proportionality::ON_ERROR : PID::Proportionality::ON_MEASUREMENT;
    c.direction = r.chance(1, 2) ? PID::Direction::FORWARD : PID::Direction::REVERSE;
    return c;
}
Rig make(vf::Rng& r) {
    PID::Config c = random_config(r);
    Rig g{r.chance(1, 2) ? PID(c) : PID(PID::Config(c)), {}, c};
    Model& m = g.m;
    m.kp = c.tunings.Kp, m.ki = c.tunings.Ki, m.kd = c.tunings.Kd;
    m.on_error = c.proportionality == PID::Proportionality::ON_ERROR;
    m.reverse = c.direction == PID::Direction::REVERSE;
    m.lo = c.output_lower_limit, m.hi = c.output_upper_limit;
    m.interval = c.sample_interval.raw(), m.ts = m.interval / 1000.0;
    vf::op("kp=%g ki=%g kd=%g %g..%g %lldms %s %s", m.kp, m.ki, m.kd, m.lo, m.hi, (long long)m.interval, m.on_error ? "onE" : "onM", m.reverse ? "rev" : "fwd");
    g.check_tunings();
    g.pid.initialize();
    m.last = HAL::millis().raw(); // the first reading comes one interval later or after that: it must update
    m.init();
    g.check("after initialize");
    g.check_tunings();
    if (m.interval < 100) VF_EV("interval.below.100ms");
    if (m.interval > 4294967296ll) VF_EV("interval.beyond.32bit");
    if (m.interval > 100) VF_EV("interval.above.100ms");
    return g;
}
/// a reading close to the setpoint as often as far from it
float reading(vf::Rng& r, const Model& m, float prev) {
    double span = m.hi - m.lo;
    switch (r.below(6)) {
    case 0: return static_cast<float>(m.sp);
    case 1: return static_cast<float>(m.sp + r.real(-1, 1) * span / (m.kp * 2 + 1));
    case 2: return static_cast<float>(m.sp + r.real(-1, 1) * span / (m.ki * m.ts * 2 + 1));
    case 3: return static_cast<float>(prev + r.real(-1, 1) * span * m.ts / (m.kd * 2 + 1));
    case 4: return static_cast<float>(r.real(-1000, 1000));
    default: return prev;
    }
}
int drive(vf::Rng& r, Rig& g, int n, bool& saturated, bool& inside) {
    int updates = 0;
    Model& m = g.m;
    for (int i = 0; i < n; ++i) {
        if (r.chance(1, 6)) {
            m.sp = r.chance(1, 2) ? r.range(-100, 100) : static_cast<float>(r.real(-500, 500));
            g.pid.set_target_setpoint(static_cast<float>(m.sp));
            vf::op("sp=%g", m.sp);
            VF_CHECK(g.pid.setpoint() == (float)m.sp, "setpoint", "setpoint reads %g, set %g", g.pid.setpoint(), m.sp);
        }
        if (r.chance(1, 25)) {
            PID::Tunings t{.Kp = gain(r), .Ki = gain(r), .Kd = gain(r)};
            if (r.chance(1, 3)) t = g.pid.tunings(); // only the proportionality may change
            m.kp = t.Kp, m.ki = t.Ki, m.kd = t.Kd;
            if (r.chance(1, 2)) {
                g.pid.set_tunings(t);
                m.on_error = true;
            } else {
                m.on_error = r.chance(1, 2);
                g.pid.set_tunings(t, m.on_error ? PID::Proportionality::ON_ERROR : PID::Proportionality::ON_MEASUREMENT);
            }
            vf::op("tune %g,%g,%g,%d", m.kp, m.ki, m.kd, m.on_error);
            g.check_tunings();
            VF_EV("tunings.changed");
        }
        i64 since = HAL::millis().raw() + g.ahead - m.last, due = std::max<i64>(0, m.interval - since);
        i64 step = r.chance(1, 4) ? due : r.chance(1, 4) ? std::max<i64>(0, due - 1) : r.chance(1, 3) ? due + 1 : r.chance(1, 2) ? r.range(0, due) : due + r.range(0, m.interval * 3);
        if (updates == 0) step = std::max(step, due);
        float v = reading(r, m, static_cast<float>(m.prev));
        bool explicit_now = g.ahead || r.chance(1, 3);
        HAL::delay(k_time_ms(step));
        i64 now = HAL::millis().raw() + g.ahead;
        vf::op("+%lld:%g", (long long)step, v);
        if (explicit_now && updates && r.chance(1, 20)) { // a stamp from before the last update is no reason for another one
            const float w = reading(r, m, v);
            g.pid.new_reading(w, k_time_ms(m.last - r.range(0, 2 * m.interval)));
            vf::op("earlier:%g", w);
            g.check("after a reading from before the last update");
        }
        if (explicit_now) g.pid.new_reading(v, k_time_ms(now));
        else
            g.pid.new_reading(v);
        bool updated = m.reading(v, now);
        if (updated) {
            ++updates;
            VF_EV("updated");
            if (now - m.last == 0 && since + step == m.interval) VF_EV("updated.on.time");
        } else
            VF_EV("too.early");
        g.check(updated ? "after an update" : "between updates");
        VF_CHECK(std::fabs(g.pid.error() - std::fabs(m.sp - v)) <= 1e-6 * (std::fabs(m.sp) + std::fabs(v)), "error", "error() is %g", g.pid.error());
        (m.out > m.lo && m.out < m.hi ? inside : saturated) = true;
    }
    return updates;
}
} // namespace

VF_SCENARIO(law, 1.0) {
    vf::set_clock_us(r.pick({0ll, 12345000ll, 5000000000000ll, 40000000000000000ll}));
    Rig g = make(r);
    bool saturated = false, inside = false;
    int n = drive(r, g, r.range(10, 60), saturated, inside);
    if (inside) VF_EV("output.between.limits");
    if (saturated) VF_EV("output.at.limit");
    if (n > 3 && inside) vf::nontrivial();
}
VF_SCENARIO(own_clock, 0.3) {
    // readings that bring the time they were taken at with them are judged by that time
    vf::set_clock_us(r.pick({0ll, 12345000ll, 5000000000000ll, 40000000000000000ll}));
    Rig g = make(r);
    g.ahead = r.chance(1, 2) ? r.pick({1ll, -1ll, 1000ll, -1000ll, 86400000ll, 4294967296ll}) : r.range(-2, 2) * g.m.interval + r.range(1, 50);
    if (!g.ahead) g.ahead = 1;
    vf::op("ahead %lld", (long long)g.ahead);
    bool saturated = false, inside = false;
    int n = drive(r, g, r.range(5, 30), saturated, inside);
    VF_EV("stamped.by.another.clock");
    if (n > 3 && inside) vf::nontrivial();
}
VF_SCENARIO(copies, 0.2) {
    // a copy continues on its own
    std::vector<Rig> rigs{make(r)};
    bool a = false, b = false;
    drive(r, rigs[0], r.range(0, 10), a, b);
    Rig copy = rigs[0];
    rigs.push_back(copy);
    for (int i = 0; i < 10; ++i) {
        vf::op("#");
        drive(r, rigs[r.below(2)], r.range(1, 4), a, b);
    }
    for (auto& g : rigs) g.check("after driving the other");
    rigs[0] = rigs[1];
    drive(r, rigs[0], 4, a, b);
    rigs[1].check("after assigning from it");
    VF_EV("copied");
    if (b) vf::nontrivial();
}
VF_SCENARIO(large_readings, 0.2) {
    // readings as a broken sensor may give them, products still representable
    Rig g = make(r);
    HAL::delay(g.cfg.sample_interval);
    for (int i = 0; i < 20; ++i) {
        float v = static_cast<float>(std::pow(10.0, r.real(0, 28)) * (r.chance(1, 2) ? 1 : -1));
        vf::op("%g", v);
        g.pid.new_reading(v);
        float got = g.pid.response();
        VF_CHECK(std::isfinite(got) && got >= g.cfg.output_lower_limit && got <= g.cfg.output_upper_limit, "limits-large", "reading %g: output %g, limits %g..%g", v,
                 got, g.cfg.output_lower_limit, g.cfg.output_upper_limit);
        HAL::delay(g.cfg.sample_interval);
        VF_EV("large.reading");
    }
    vf::nontrivial();
}

// the controller underneath, whose limits, direction and interval change while it runs
VF_SCENARIO(backend, 0.4) {
    using Ctl = spn::controller::PIDController;
    using P = Ctl::Proportionality;
    using D = Ctl::Direction;
    vf::set_clock_us(r.pick({0ll, 12345000ll, 5000000000000ll}));
    float in = static_cast<float>(r.real(-50, 50)), out = static_cast<float>(r.real(-300, 300)), sp = static_cast<float>(r.real(-50, 50));
    Model m{};
    m.kp = gain(r), m.ki = gain(r), m.kd = gain(r);
    m.on_error = r.chance(1, 2), m.reverse = r.chance(1, 2);
    m.lo = 0, m.hi = 255, m.interval = 100, m.ts = 0.1;
    const bool shorter = m.on_error && r.chance(1, 2);
    auto f = [](double d) { return static_cast<float>(d); };
    Ctl c = shorter ? Ctl(&in, &out, &sp, f(m.kp), f(m.ki), f(m.kd), m.reverse ? D::REVERSE : D::FORWARD)
                    : Ctl(&in, &out, &sp, f(m.kp), f(m.ki), f(m.kd), m.on_error ? P::ON_ERROR : P::ON_MEASUREMENT, m.reverse ? D::REVERSE : D::FORWARD);
    vf::op("kp=%g ki=%g kd=%g %s %s", m.kp, m.ki, m.kd, m.on_error ? "onE" : "onM", m.reverse ? "rev" : "fwd");
    m.out = out, m.sp = sp;
    m.last = HAL::millis().raw();
    auto initialize = [&] { // takes over from the output as it is
        c.initialize();
        m.sum = m.clamp(out);
        m.prev = in;
        m.err = 0;
        m.out = out;
        VF_EV("backend.initialized");
    };
    initialize();
    bool first = true;
    int changes = 0, updates = 0;
    for (int i = 0; i < 50; ++i) {
        switch (r.below(12)) {
        case 0: {
            float lo = static_cast<float>(r.real(-500, 500)), hi = lo + static_cast<float>(r.real(-5, 400));
            vf::op("limits %g..%g", lo, hi);
            c.set_output_limits(lo, hi);
            if (lo < hi) {
                m.lo = lo, m.hi = hi;
                m.sum = m.clamp(m.sum), m.out = m.clamp(m.out);
                VF_CHECK(out >= lo && out <= hi, "limits-now", "output %g after setting the limits %g..%g", out, lo, hi);
                ++changes;
            }
            break;
        }
        case 1:
            m.reverse = r.chance(1, 2);
            vf::op(m.reverse ? "reverse" : "forward");
            c.set_controller_direction(m.reverse ? D::REVERSE : D::FORWARD);
            VF_CHECK(c.direction() == (m.reverse ? D::REVERSE : D::FORWARD), "direction", "direction() is wrong");
            ++changes;
            break;
        case 2: {
            i64 ms = r.chance(1, 6) ? r.range(-5, 0) : r.chance(1, 2) ? r.range(1, 500) : r.range(1, 100000);
            vf::op("interval %lld", (long long)ms);
            c.set_sampling_time(k_time_ms(ms));
            if (ms > 0) m.interval = ms, m.ts = static_cast<double>(ms) / 1000.0, ++changes;
            break;
        }
        case 3:
            m.kp = gain(r), m.ki = gain(r), m.kd = gain(r);
            m.on_error = r.chance(1, 2);
            vf::op("tune %g,%g,%g,%d", m.kp, m.ki, m.kd, m.on_error);
            if (m.on_error || r.chance(1, 2))
                c.set_tunings(f(m.kp), f(m.ki), f(m.kd), m.on_error ? P::ON_ERROR : P::ON_MEASUREMENT);
            else
                c.set_tunings(f(m.kp), f(m.ki), f(m.kd));
            break;
        case 4:
            if (r.chance(1, 3)) {
                out = static_cast<float>(r.real(-300, 300)); // set by hand meanwhile
                vf::op("by hand %g", out);
                initialize();
                continue;
            }
            break;
        default: break;
        }
        VF_CHECK(c.Kp() == f(m.kp) && c.Ki() == f(m.ki) && c.Kd() == f(m.kd), "backend-tunings", "tunings read back as %g, %g, %g, set %g, %g, %g", c.Kp(), c.Ki(), c.Kd(),
                 m.kp, m.ki, m.kd);
        if (r.chance(1, 5)) m.sp = sp = static_cast<float>(r.real(-500, 500));
        in = reading(r, m, in);
        i64 due = std::max<i64>(0, m.last + m.interval - HAL::millis().raw());
        i64 step = first || r.chance(1, 2) ? due + r.range(0, 3) : r.range(0, due);
        first = false;
        HAL::delay(k_time_ms(step));
        vf::op("+%lld:%g", (long long)step, in);
        const i64 now = HAL::millis().raw();
        const float before = out;
        const bool did = c.update(k_time_ms(now)), want = m.reading(in, now);
        VF_CHECK(did == want, "update-result", "update returned %d %lld ms after the last one, interval %lld ms", did, (long long)(now - m.last), (long long)m.interval);
        VF_CHECK(did || out == before, "update-changed", "an update that was not due changed the output");
        updates += did;
        VF_CHECK(std::isfinite(out), "backend-finite", "output is %g", out);
        VF_CHECK(!did || (out >= f(m.lo) && out <= f(m.hi)), "backend-limits", "output %g is outside %g..%g", out, m.lo, m.hi);
        VF_CHECK(std::fabs(out - m.out) <= m.tol(), "backend-law", "output %.9g, the law gives %.9g (+-%.2g; sum %.9g)", out, m.out, m.tol(), m.sum);
        VF_EV("backend.step");
    }
    if (changes > 3 && updates > 5) vf::nontrivial();
}
