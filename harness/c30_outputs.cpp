// C30: what outputs report and what their hardware was told.
#include "vf.hpp"
#include "spine/platform/hal.hpp"

using vf::i64;
using spn::core::LogicalState;
namespace {
struct Pin : spn::platform::DigitalOutput<Pin> {
    std::vector<int> told;
    int inits = 0;
    bool initialized_first = true;
    void initialize_impl() {
        ++inits;
        initialized_first = told.empty() || inits > 1;
    }
    void set_state_impl(LogicalState s) { told.push_back(static_cast<int>(s)); }
};
struct Fader : spn::platform::AnalogueOutput<Fader> {
    struct Step {
        float value;
        i64 at;
    };
    std::vector<Step> told;
    void set_value_impl(float v) { told.push_back({v, HAL::micros().raw()}); }
};
float level(vf::Rng& r) {
    switch (r.below(6)) {
    case 0: return 0.0f;
    case 1: return 1.0f;
    case 2: return static_cast<float>(r.range(0, 10)) * 0.1f;
    case 3: return 0.5f;
    default: return static_cast<float>(r.unit());
    }
}
} // namespace

VF_SCENARIO(digital, 0.5) {
    Pin p;
    bool want = false;
    VF_CHECK(p.state() == LogicalState::OFF, "initial", "a new output reports %d", p.state());
    int flips = 0;
    for (int i = 0, n = r.range(3, 25); i < n; ++i) {
        size_t before = p.told.size();
        switch (i == 0 ? 0 : r.below(5)) {
        case 0:
            if (r.chance(1, 3)) p.initialize(), want = false;
            else
                want = r.chance(1, 2), p.initialize(want);
            vf::op("init%d", want);
            VF_CHECK(p.initialized_first, "order", "the state was set before the hardware was initialised");
            VF_EV("digital.initialize");
            break;
        case 1: want = r.chance(1, 2), p.set_state(want), vf::op("set%d", want); break;
        case 2: want = r.chance(1, 2), p.set_state(want ? LogicalState::ON : LogicalState::OFF), vf::op("state%d", want); break;
        default: want = !want, p.flip(), ++flips, vf::op("flip"); VF_EV("digital.flip");
        }
        VF_CHECK(p.told.size() > before, "not-told", "the hardware was not told");
        VF_CHECK(p.told.back() == (want ? 1 : 0), "hardware", "the hardware was told %d, commanded %d", p.told.back(), want);
        VF_CHECK(p.state() == (want ? LogicalState::ON : LogicalState::OFF), "reported", "reports %d, commanded %d", p.state(), want);
    }
    if (flips) vf::nontrivial();
}
VF_SCENARIO(platform_output, 0.1) {
    HAL::DigitalOutput d(HAL::DigitalOutput::Config{.pin = 3, .active_on_low = r.chance(1, 2)});
    bool want = r.chance(1, 2);
    d.initialize(want);
    for (int i = 0; i < 10; ++i) {
        VF_CHECK(d.state() == (want ? LogicalState::ON : LogicalState::OFF), "platform-reported", "reports %d, commanded %d", d.state(), want);
        if (r.chance(1, 2)) d.flip(), want = !want;
        else
            want = r.chance(1, 2), d.set_state(want);
    }
    HAL::AnalogueOutput a(HAL::AnalogueOutput::Config{.pin = 1, .active_on_low = r.chance(1, 2)});
    a.initialize();
    VF_CHECK(a.value() == 0, "platform-analogue", "value is %g after initialise", a.value());
    float v = level(r);
    a.set_value(v);
    VF_CHECK(a.value() == v, "platform-analogue", "value is %g, set %g", a.value(), v);
    float to = level(r);
    a.fade_to(to, 0.25f, k_time_ms(1));
    VF_CHECK(a.value() == to, "platform-fade", "value is %g after a fade to %g", a.value(), to);
}
VF_SCENARIO(fade, 1.0) {
    Fader f;
    VF_CHECK(f.value() == 0, "initial", "a new output reports %g", f.value());
    int steps = 0;
    for (int i = 0, n = r.range(1, 8); i < n; ++i) {
        if (r.chance(1, 3)) {
            float v = level(r);
            f.set_value(v);
            vf::op("set %g", v);
            VF_CHECK(f.told.back().value == v && f.value() == v, "set", "set to %g, reports %g, the hardware was told %g", v, f.value(), f.told.back().value);
            VF_EV("analogue.set");
        }
        const float from = f.value();
        float to = level(r), inc;
        switch (r.below(6)) {
        case 0: inc = 0.1f; break;
        case 1: inc = static_cast<float>(r.real(0.001, 0.05)); break;
        case 2: inc = static_cast<float>(r.real(0.05, 0.9)); break;
        case 3: inc = std::max(0.001f, std::fabs(to - from)); break; // exactly one step
        case 4: inc = std::max(0.001f, std::fabs(to - from) / static_cast<float>(r.range(2, 9))); break;
        default: inc = static_cast<float>(r.real(1, 3)); // more than the range
        }
        i64 interval_us;
        const size_t before = f.told.size();
        vf::op("fade %.9g->%.9g by %.9g", from, to, inc);
        switch (r.below(4)) {
        case 0: inc = 0.1f, interval_us = 250000, f.fade_to(to); break;
        case 1: interval_us = 250000, f.fade_to(to, inc); break;
        case 2: {
            i64 s = r.range(0, 3);
            interval_us = s * 1000000, f.fade_to(to, inc, k_time_s(s));
            break;
        }
        default: {
            i64 ms = r.range(0, 500);
            interval_us = ms * 1000, f.fade_to(to, inc, k_time_ms(ms));
        }
        }
        VF_CHECK(f.value() == to, "reported", "reports %.9g after a fade to %.9g", f.value(), to);
        if (from != to || f.told.size() > before) {
            VF_CHECK(f.told.size() > before, "not-told", "the hardware was not told");
            float prev = from;
            for (size_t k = before; k < f.told.size(); ++k) {
                float v = f.told[k].value;
                vf::op("%.9g", v);
                VF_CHECK(v >= 0 && v <= 1, "range", "the hardware was told %.9g", v);
                VF_CHECK(to >= from ? v >= prev && v <= to : v <= prev && v >= to, "monotone", "step %.9g after %.9g on the way from %.9g to %.9g", v, prev, from, to);
                VF_CHECK(std::fabs((double)v - prev) <= inc * 1.000001 + 2e-7, "increment", "step from %.9g to %.9g, increment %.9g", prev, v, inc);
                if (k > before)
                    VF_CHECK(f.told[k].at - f.told[k - 1].at == interval_us, "interval", "%lld us between two steps, interval %lld us",
                             (long long)(f.told[k].at - f.told[k - 1].at), (long long)interval_us);
                prev = v;
                ++steps;
                VF_EV("fade.step");
            }
            VF_CHECK(prev == to, "hardware", "the hardware was left at %.9g, setpoint %.9g", prev, to);
        }
        if (to < from) VF_EV("fade.down");
        if (to > from) VF_EV("fade.up");
        vf::state(vf::hash_bytes(&to, 4) ^ vf::mix(f.told.size()));
    }
    if (steps > 5) vf::nontrivial();
}
