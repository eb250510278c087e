// C36: leaving something out of a configuration or a call means its declared default. Twins: the same history is run twice, once with
// things left out and once with the defaults written out; both must behave alike at every step.
#include "vf.hpp"
#include "fake_stream.hpp"
#include "spine/platform/hal.hpp"
#include "spine/controller/pid.hpp"
#include "spine/controller/sr_latch.hpp"
#include "spine/core/utils/string.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/filter/implementations/passthrough.hpp"
#include "spine/io/stream/buffered_stream.hpp"
#include "spine/structure/linebuffer.hpp"
#include "spine/structure/point.hpp"
#include "spine/structure/ringbuffer.hpp"
#include "spine/structure/static_string.hpp"
#include "spine/structure/time/datetime.hpp"
#include "spine/structure/time/schedule.hpp"
#include "spine/structure/time/timers.hpp"
#include "spine/structure/units/si.hpp"
#include "spine/structure/vector.hpp"
#include "units.hpp"

using vf::i64;
using vf::Rng;
namespace {
/// leave something behind on the stack for whatever is built next
__attribute__((noinline)) void soil(Rng& r) {
    volatile unsigned char junk[2048];
    const auto b = static_cast<unsigned char>(r.next());
    for (auto& j : junk) j = b;
}
struct Twin {
    bool full; // defaults are written out
    int left_out = 0;
    std::vector<double> seen;
    std::vector<std::string> text;
    void see(double x) { seen.push_back(x); }
    void say(std::string_view s) { text.emplace_back(s); }
    /// a field: set to something, left out, or (in the other twin) set to its default
    template<typename T, typename U, typename V>
    void set(Rng& r, T& field, U dflt, V other) {
        if (r.chance(1, 3)) field = static_cast<T>(other);
        else {
            ++left_out;
            if (full) field = static_cast<T>(dflt);
        }
    }
};
template<typename F>
void twins(Rng& r, F&& f) {
    const i64 start = r.chance(1, 3) ? 0 : r.range(0, 3ll * 365 * 86400) * 1000000 + r.range(0, 999999);
    const Rng begin = r;
    Twin a{false, 0, {}, {}}, b{true, 0, {}, {}};
    i64 end_a = 0;
    for (auto* t : {&a, &b}) {
        r = begin;
        vf::set_clock_us(start);
        soil(r);
        auto err = vf::catching([&] { f(r, *t); });
        if (err) t->say("raised " + err->msg);
        if (t == &a) end_a = HAL::micros().raw();
    }
    VF_CHECK(end_a == HAL::micros().raw(), "time", "with the defaults left out it took %lld us less", (long long)(HAL::micros().raw() - end_a));
    for (size_t i = 0; i < std::max(a.seen.size(), b.seen.size()); ++i) {
        VF_CHECK(i < a.seen.size() && i < b.seen.size(), "steps", "%zu against %zu things to see", a.seen.size(), b.seen.size());
        const bool same = a.seen[i] == b.seen[i] || (std::isnan(a.seen[i]) && std::isnan(b.seen[i]));
        VF_CHECK(same, "behaviour", "observation %zu is %.9g with the defaults left out and %.9g with them written out", i, a.seen[i], b.seen[i]);
    }
    for (size_t i = 0; i < std::max(a.text.size(), b.text.size()); ++i) {
        VF_CHECK(i < a.text.size() && i < b.text.size() && a.text[i] == b.text[i], "text", "with the defaults left out: '%s', written out: '%s'",
                 i < a.text.size() ? a.text[i].c_str() : "-", i < b.text.size() ? b.text[i].c_str() : "-");
    }
    const auto h = vf::hash_bytes(a.seen.data(), a.seen.size() * sizeof(double), a.text.size());
    vf::op("%d left out, %zu seen: %016llx", a.left_out, a.seen.size(), static_cast<unsigned long long>(h));
    vf::state(h);
    if (a.left_out && a.seen.size() + a.text.size() > 3) vf::nontrivial();
}
void wait(Rng& r, i64 max_ms) { HAL::delay(k_time_ms(r.range(0, max_ms))); }

using spn::controller::PID;
using spn::controller::PIDAutotuner;
using spn::controller::PIDController;
using spn::controller::SRLatch;
} // namespace

VF_SCENARIO(latch, 1.0) {
    twins(r, [](Rng& r, Twin& t) {
        SRLatch::Config c{.high = 10, .low = static_cast<float>(r.range(0, 10))};
        t.set(r, c.minimal_on_time, k_time_ms(0), k_time_ms(r.range(0, 3000)));
        t.set(r, c.minimal_off_time, k_time_ms(0), k_time_ms(r.range(0, 3000)));
        t.set(r, c.maximal_on_time, k_time_ms(0), k_time_ms(r.range(3000, 9000)));
        t.set(r, c.maximal_off_time, k_time_ms(0), k_time_ms(r.range(3000, 9000)));
        for (auto x : {c.minimal_on_time, c.minimal_off_time, c.maximal_on_time, c.maximal_off_time}) t.see(x.raw());
        SRLatch l(std::move(c));
        t.see(l.response());
        const i64 pace = r.pick<i64>({10, 1000, 20000, 10000000});
        for (int i = 0; i < 30; ++i) {
            wait(r, pace);
            l.new_reading(static_cast<float>(r.range(-3, 13)));
            t.see(l.response());
        }
        VF_EV("latch");
    });
}

VF_SCENARIO(pid, 1.0) {
    twins(r, [](Rng& r, Twin& t) {
        PID::Config c{};
        const bool own = r.chance(1, 3);
        if (own) {
            PID::Tunings g{.Kp = static_cast<float>(r.real(0, 30))};
            t.set(r, g.Ki, 0, r.real(0, 2));
            t.set(r, g.Kd, 0, r.real(0, 2));
            c.tunings = g;
        } else {
            ++t.left_out;
            if (t.full) c.tunings = PID::Tunings{.Kp = 20.0f, .Ki = 0.3f, .Kd = 0.1f};
        }
        t.set(r, c.output_lower_limit, 0, -r.real(1, 100));
        t.set(r, c.output_upper_limit, 255, r.real(1, 1000));
        t.set(r, c.sample_interval, k_time_ms(100), k_time_ms(r.range(10, 2000)));
        t.set(r, c.proportionality, PID::Proportionality::ON_ERROR, PID::Proportionality::ON_MEASUREMENT);
        t.set(r, c.direction, PID::Direction::FORWARD, PID::Direction::REVERSE);
        t.see(c.tunings.Kp), t.see(c.tunings.Ki), t.see(c.tunings.Kd);
        t.see(c.output_lower_limit), t.see(c.output_upper_limit), t.see(k_time_ms(c.sample_interval).raw());
        t.see(static_cast<int>(c.proportionality)), t.see(static_cast<int>(c.direction));
        PID p(c);
        t.see(p.setpoint()), t.see(p.response()), t.see(p.error());
        p.initialize();
        if (r.chance(2, 3)) p.set_target_setpoint(static_cast<float>(r.real(-20, 40)));
        const double wide = r.pick({0.5, 20.0, 200.0});
        for (int i = 0; i < 20; ++i) {
            if (r.chance(1, 8)) {
                PID::Tunings g{.Kp = static_cast<float>(r.real(0, 5)), .Ki = 0.1f};
                if (r.chance(1, 2)) {
                    ++t.left_out;
                    if (t.full) p.set_tunings(g, PID::Proportionality::ON_ERROR);
                    else
                        p.set_tunings(g);
                } else
                    p.set_tunings(g, PID::Proportionality::ON_MEASUREMENT);
                VF_EV("pid.tunings");
            }
            wait(r, r.pick<i64>({20, 150, 3000}));
            p.new_reading(static_cast<float>(r.real(-wide, wide)));
            t.see(p.response());
        }
        const auto now = p.tunings();
        t.see(now.Kp), t.see(now.Ki), t.see(now.Kd);
        VF_EV("pid");
    });
}

VF_SCENARIO(pid_backend, 0.5) {
    twins(r, [](Rng& r, Twin& t) {
        float in = static_cast<float>(r.real(-5, 5)), out = static_cast<float>(r.real(-5, 5)), target = static_cast<float>(r.real(-20, 20));
        const float kp = static_cast<float>(r.real(0, 10)), ki = static_cast<float>(r.real(0, 2)), kd = static_cast<float>(r.real(0, 2));
        const auto dir = r.pick({PIDController::Direction::FORWARD, PIDController::Direction::REVERSE});
        const bool brief = r.chance(1, 2);
        std::unique_ptr<PIDController> p; // in memory that held something else before
        const auto how = r.chance(1, 2) ? PIDController::Proportionality::ON_ERROR : PIDController::Proportionality::ON_MEASUREMENT;
        if (brief && !t.full) p = std::make_unique<PIDController>(&in, &out, &target, kp, ki, kd, dir);
        else
            p = std::make_unique<PIDController>(&in, &out, &target, kp, ki, kd, brief ? PIDController::Proportionality::ON_ERROR : how, dir);
        if (brief) ++t.left_out;
        // a backend works with 0..255 every 100 ms until it is told otherwise
        if (r.chance(1, 2)) {
            ++t.left_out;
            if (t.full) p->set_output_limits(0, 255);
        } else
            p->set_output_limits(-50, 400);
        if (r.chance(1, 2)) {
            ++t.left_out;
            if (t.full) p->set_sampling_time(k_time_ms(100));
        } else
            p->set_sampling_time(k_time_ms(500));
        out = 0;
        p->initialize();
        i64 now = r.range(0, 1ll << 40);
        for (int i = 0; i < 20; ++i) {
            if (r.chance(1, 8)) {
                ++t.left_out;
                if (t.full) p->set_tunings(kp, ki + 0.1f, kd, PIDController::Proportionality::ON_MEASUREMENT);
                else
                    p->set_tunings(kp, ki + 0.1f, kd);
                VF_EV("backend.tunings");
            }
            in = static_cast<float>(r.real(-30, 30));
            now += r.pick<i64>({20, 99, 100, 600});
            t.see(p->update(k_time_ms(now)));
            t.see(out);
        }
        VF_EV("backend");
    });
}

namespace {
/// warms up while it is driven and cools down otherwise; asks the platform's clock
struct Plant {
    double value, up, down, drive = 0;
    i64 last = HAL::millis().raw();
    void settle() {
        const i64 now = HAL::millis().raw();
        value += (drive > 0 ? up : -down) * static_cast<double>(now - last) / 1000;
        last = now;
    }
    void set(double d) { settle(), drive = d; }
    float get() {
        settle();
        return static_cast<float>(value);
    }
};
} // namespace
VF_SCENARIO(tuning, 0.1) {
    twins(r, [](Rng& r, Twin& t) {
        PID::Config c{.sample_interval = k_time_ms(r.pick<i64>({100, 400, 1000}))};
        PID p(c);
        const double period = static_cast<double>(k_time_ms(c.sample_interval).raw()) / 1000;
        PID::TuneConfig tc{.setpoint = static_cast<float>(r.real(10, 30))};
        t.set(r, tc.startpoint, 0, r.real(1, 9));
        t.set(r, tc.hysteresis, 0.01f, r.real(0.1, 1));
        t.set(r, tc.satured_at_start, true, false);
        t.set(r, tc.cycles, 10, r.range(1, 6));
        t.set(r, tc.aggressiveness, PIDAutotuner::Aggressiveness::LessOvershoot,
              r.chance(1, 2) ? PIDAutotuner::Aggressiveness::BasicPID : PIDAutotuner::Aggressiveness::NoOvershoot);
        t.see(tc.startpoint), t.see(tc.hysteresis), t.see(tc.satured_at_start), t.see(tc.cycles), t.see(static_cast<int>(tc.aggressiveness));
        Plant plant{tc.setpoint - r.real(0.1, 3) - tc.hysteresis, r.real(0.2, 1) / period, r.real(0.2, 1) / period};
        auto set = [&](float v) { plant.set(v), t.see(v), t.see(static_cast<double>(HAL::millis().raw())); };
        auto get = [&] { return plant.get(); };
        int idle = 0;
        auto loop = [&] { ++idle; };
        std::function<k_time_ms()> clock = HAL::millis;
        std::function<void(k_time_ms)> sleep = HAL::delay;
        PID::Tunings g;
        switch (r.below(3)) {
        case 0:
            if (t.full) g = p.autotune(tc, set, get, {}, clock, sleep);
            else
                g = p.autotune(tc, set, get);
            break;
        case 1:
            if (t.full) g = p.autotune(tc, set, get, loop, clock, sleep);
            else
                g = p.autotune(tc, set, get, loop);
            break;
        default:
            if (t.full) g = p.autotune(tc, set, get, loop, clock, sleep);
            else
                g = p.autotune(tc, set, get, loop, clock);
        }
        t.see(g.Kp), t.see(g.Ki), t.see(g.Kd), t.see(idle);
        ++t.left_out;
        VF_EV("tuning");
    });
}
VF_SCENARIO(tuner, 0.5) {
    twins(r, [](Rng& r, Twin& t) {
        PIDAutotuner a;
        t.see(a.get_cycle()), t.see(a.get_Kp()), t.see(a.get_Ki()), t.see(a.get_Kd());
        VF_CHECK(a.get_cycle() == 0 && a.get_Kp() == 0 && a.get_Ki() == 0 && a.get_Kd() == 0, "new-tuner", "a new tuner has results");
        VF_CHECK(!a.is_finished(), "new-tuner", "a new tuner is finished");
        const float target = static_cast<float>(r.real(5, 50));
        a.set_target_input_value(target);
        a.setOutputRange(0, static_cast<float>(r.real(1, 300)));
        a.set_loop_interval(k_time_ms(100));
        if (r.chance(1, 2)) {
            ++t.left_out;
            if (t.full) a.set_hysteresis(0);
        } else
            a.set_hysteresis(0.5f);
        if (r.chance(1, 2)) {
            ++t.left_out;
            if (t.full) a.set_aggressiveness(PIDAutotuner::Aggressiveness::NoOvershoot);
        } else
            a.set_aggressiveness(PIDAutotuner::Aggressiveness::BasicPID);
        if (r.chance(1, 2)) {
            ++t.left_out;
            if (t.full) a.set_tuning_cycles(10);
        } else
            a.set_tuning_cycles(static_cast<int>(r.range(1, 5)));
        i64 now = r.range(0, 1ll << 40);
        a.start_tuning_loop(k_time_ms(now));
        for (int i = 0; i < 60 && !a.is_finished(); ++i) {
            now += 100;
            t.see(a.do_autotune(target + static_cast<float>(r.real(-3, 3)), k_time_ms(now)));
        }
        t.see(a.is_finished()), t.see(a.get_cycle()), t.see(a.get_Kp()), t.see(a.get_Ki()), t.see(a.get_Kd());
        VF_EV("tuner");
    });
}

namespace {
using namespace spn::core;
struct Seer : EventHandler {
    Twin& t;
    Seer(EventSystem* s, Twin& tw) : EventHandler(s), t(tw) {}
    void handle_event(const Event& e) override {
        t.see(static_cast<double>(e.id()));
        t.see(e.data().has_value());
        if (e.data().has_value()) t.see(e.data().value());
    }
};
} // namespace
VF_SCENARIO(events, 1.0) {
    twins(r, [](Rng& r, Twin& t) {
        EventSystem::Config c{.events_count = 3, .events_cap = 8, .handler_cap = 2, .delay_between_ticks = r.chance(4, 5)};
        const bool both = r.chance(1, 2); // leave the delays as they are or set both
        if (both) {
            c.min_delay_between_ticks = k_time_ms(r.range(0, 50));
            c.max_delay_between_ticks = k_time_ms(r.range(50, 500));
        } else {
            ++t.left_out;
            if (t.full) c.min_delay_between_ticks = k_time_ms(100), c.max_delay_between_ticks = k_time_ms(1000);
        }
        t.see(k_time_us(c.min_delay_between_ticks).raw()), t.see(k_time_us(c.max_delay_between_ticks).raw());
        EventSystem s(c);
        Seer h(nullptr, t);
        h.attach_event_system(&s);
        for (int i = 0; i < 3; ++i) s.attach(i, &h);
        int waiting = 0;
        for (int i = 0; i < 25; ++i) {
            const int id = static_cast<int>(r.below(3));
            const auto in = k_time_ms(r.range(1, 3000));
            switch (waiting < 6 ? r.below(8) : 7) {
            case 0: ++waiting, s.schedule(id, in, Event::Data(static_cast<float>(i))); break;
            case 1:
            case 2:
                ++waiting, ++t.left_out;
                if (t.full) s.schedule(id, in, Event::Data{});
                else
                    s.schedule(id, in);
                break;
            case 3: s.trigger(id, Event::Data(static_cast<float>(i))); break;
            case 4:
                ++t.left_out;
                if (t.full) s.trigger(id, Event::Data{});
                else
                    s.trigger(id);
                break;
            case 5: {
                ++t.left_out;
                auto e = t.full ? s.event(id, in, Event::Data{}) : s.event(id, in);
                t.see(e != nullptr);
                if (e) t.see(e->data().has_value()), t.see(static_cast<double>(e->id()));
                if (e && r.chance(1, 2)) ++waiting, s.schedule(std::move(e));
                break;
            }
            default: {
                const size_t before = t.seen.size();
                s.loop();
                waiting = before == t.seen.size() ? waiting : 0;
                t.see(static_cast<double>(HAL::micros().raw()));
                if (r.chance(1, 3)) wait(r, 2000);
            }
            }
        }
        VF_EV("events");
    });
}
VF_SCENARIO(futures, 0.5) {
    using spn::eventsystem::Future;
    using spn::eventsystem::Pipeline;
    twins(r, [](Rng& r, Twin& t) {
        Event e;
        t.see(static_cast<double>(e.id())), t.see(e.data().has_value());
        VF_CHECK(e.id() == 0 && !e.data().has_value(), "new-event", "a new event has id %zu and %s data", e.id(), e.data().has_value() ? "some" : "no");
        t.see(e.future().raw()), t.see(e.expired());
        Future f = t.full ? Future(k_time_ms(0)) : Future();
        t.see(f.future().raw()), t.see(f.time_until_future().raw()), t.see(f.expired());
        f.reschedule(k_time_ms(r.range(1, 50))); // one that can be repeated
        for (int i = 0; i < 5; ++i) {
            wait(r, 500);
            if (r.chance(1, 2)) {
                if (t.full) f.reschedule(k_time_ms(0));
                else
                    f.reschedule();
            } else
                f.reschedule(k_time_ms(r.range(1, 100)));
            t.see(f.future().raw()), t.see(f.time_until_future().raw()), t.see(f.expired());
        }
        ++t.left_out;
        if (r.chance(1, 4)) {
            std::unique_ptr<Pipeline> p = t.full ? std::make_unique<Pipeline>(128) : std::make_unique<Pipeline>();
            t.see(static_cast<double>(p->pipe().max_size()));
            const int n = static_cast<int>(r.pick<i64>({128, 128, r.range(1, 128)}));
            for (int i = 0; i < n; ++i) p->push(std::make_shared<Future>(k_time_ms(r.range(1, 1000))));
            t.see(static_cast<double>(p->pipe().size()));
            VF_EV("pipeline");
            if (n == 128) VF_EV("pipeline.full");
            HAL::delay(k_time_ms(1000));
            while (auto x = p->expire()) t.see(x->future().raw());
        }
        VF_EV("futures");
    });
}

namespace {
/// bytes full of things that end lines, here or elsewhere
std::string bytes(Rng& r, size_t max) {
    std::string s;
    for (size_t i = 0, n = r.below(max + 1); i < n; ++i) s += r.pick({'a', 'b', '\r', '\n', '\r', '\n', ' ', ';', '\0', '\t'});
    return s;
}
} // namespace
VF_SCENARIO(streams, 1.0) {
    using spn::io::BufferedStream;
    twins(r, [](Rng& r, Twin& t) {
        auto fake = std::make_shared<FakeStream>();
        BufferedStream::Config c;
        t.set(r, c.input_buffer_size, 1, r.range(1, 60));
        t.set(r, c.output_buffer_size, 1, r.range(1, 60));
        t.set(r, c.delimiters, std::string_view("\r\n"), std::string_view(";"));
        t.see(static_cast<double>(c.input_buffer_size)), t.see(static_cast<double>(c.output_buffer_size)), t.say(c.delimiters);
        BufferedStream s(fake, std::move(c));
        t.see(static_cast<double>(s.input_buffer_space_left())), t.see(static_cast<double>(s.output_buffer_space_left()));
        for (int i = 0; i < 25; ++i) {
            switch (r.below(8)) {
            case 0: {
                for (char x : bytes(r, 20)) fake->incoming.push_back(static_cast<uint8_t>(x));
                break;
            }
            case 1: t.see(static_cast<double>(s.pull_in_data())); break;
            case 2: fake->write_window = r.below(20), t.see(static_cast<double>(s.push_out_data())); break;
            case 3: {
                const auto b = bytes(r, 15);
                ++t.left_out;
                t.see(static_cast<double>(t.full ? s.buffered_write(b.data(), b.size(), false) : s.buffered_write(b.data(), b.size())));
                break;
            }
            case 4:
                ++t.left_out;
                t.see(static_cast<double>(t.full ? s.buffered_write(static_cast<uint8_t>(65 + i), false) : s.buffered_write(static_cast<uint8_t>(65 + i))));
                break;
            case 5: {
                ++t.left_out;
                auto l = t.full ? s.get_next_line_view(std::nullopt) : s.get_next_line_view();
                t.see(l.has_value());
                if (l) {
                    t.say(*l);
                    VF_EV("line");
                }
                break;
            }
            case 6: {
                char buf[80] = {};
                ++t.left_out;
                const auto n = t.full ? s.get_next_line(buf, sizeof buf, std::nullopt) : s.get_next_line(buf, sizeof buf);
                t.say(std::string_view(buf, n));
                break;
            }
            default: ++t.left_out, t.see(t.full ? s.drop_next_line(std::nullopt) : s.drop_next_line());
            }
            t.see(static_cast<double>(s.input_buffer_space_used())), t.see(static_cast<double>(s.output_buffer_space_used()));
        }
        for (auto x : fake->delivered) t.see(x);
        VF_EV("streams");
    });
}
VF_SCENARIO(buffers, 1.0) {
    twins(r, [](Rng& r, Twin& t) {
        const size_t cap = static_cast<size_t>(r.range(1, 30));
        ++t.left_out;
        if (r.chance(1, 2)) {
            using spn::structure::LineBuffer;
            auto l = t.full ? std::make_unique<LineBuffer>(cap, "\r\n") : std::make_unique<LineBuffer>(cap);
            for (int i = 0; i < 20; ++i) {
                const auto b = bytes(r, 12);
                switch (r.below(6)) {
                case 0:
                case 1: t.see(static_cast<double>(l->push(std::string_view(b)))); break;
                case 2: {
                    auto v = l->get_next_line_view();
                    t.see(v.has_value());
                    if (v) t.say(*v);
                    break;
                }
                case 3: t.see(l->drop_next_line()); break;
                case 4: l->set_delimiters(";"); break;
                default:
                    if (t.full) l->set_delimiters("\r\n");
                    else
                        l->set_delimiters();
                }
                t.say(l->delimiters());
                t.see(static_cast<double>(l->length_of_next_line())), t.see(l->has_line()), t.see(static_cast<double>(l->used_space()));
            }
            VF_EV("linebuffer");
            return;
        }
        using spn::structure::RingBuffer;
        auto b = t.full ? std::make_unique<RingBuffer<int>>(cap, 0) : std::make_unique<RingBuffer<int>>(cap);
        for (int i = 0; i < 30; ++i) {
            switch (r.below(6)) {
            case 0: t.see(t.full ? b->push(i, false) : b->push(i)); break;
            case 1: {
                int v[5] = {i, i + 100, i + 200, i + 300, i + 400};
                const size_t n = r.below(6);
                t.see(static_cast<double>(t.full ? b->push(v, n, false) : b->push(v, n)));
                break;
            }
            case 2: t.see(b->push(i, true)); break;
            case 3: {
                int v = -1;
                t.see(b->pop(v)), t.see(v);
                break;
            }
            case 4: // all of them
                if (r.chance(1, 4)) t.see(static_cast<double>(t.full ? b->drop_last(b->used_space()) : b->drop_last()));
                break;
            default:
                if (r.chance(1, 4)) t.see(static_cast<double>(t.full ? b->drop_first(b->used_space()) : b->drop_first()));
            }
            t.see(static_cast<double>(b->used_space())), t.see(static_cast<double>(b->overrun_space())), t.see(b->full());
        }
        VF_EV("ringbuffer");
    });
}
VF_SCENARIO(strips, 0.5) {
    using namespace spn::core::utils;
    twins(r, [](Rng& r, Twin& t) {
        static constexpr std::string_view kBlank = " \f\n\r\t\v";
        std::string s;
        for (int i = 0, n = static_cast<int>(r.range(0, 14)); i < n; ++i)
            s += r.pick({' ', '\f', '\n', '\r', '\t', '\v', ' ', 'x', '\0', '\b', '\a', static_cast<char>(r.below(256))});
        ++t.left_out;
        t.say(t.full ? lstrip(s, kBlank) : lstrip(s));
        t.say(t.full ? rstrip(s, kBlank) : rstrip(s));
        spn::structure::StaticString a(20), b(20);
        for (auto* x : {&a, &b}) {
            if (!s.empty()) std::memcpy(x->data(s.size()), s.data(), s.size());
            x->set_size(s.size());
        }
        t.say(t.full ? a.lstrip(kBlank).view() : a.lstrip().view());
        t.say(t.full ? b.rstrip(kBlank).view() : b.rstrip().view());
        VF_EV("strips");
    });
}

VF_SCENARIO(timers, 1.0) {
    using namespace spn::structure::time;
    twins(r, [](Rng& r, Twin& t) {
        ++t.left_out;
        wait(r, 5000);
        auto timer = t.full ? Timer(HAL::millis()) : Timer();
        const auto future = k_time_ms(r.range(0, 3000));
        auto alarm = t.full ? AlarmTimer(future, false) : AlarmTimer(future);
        const auto every = k_time_ms(r.range(1, 500));
        auto interval = t.full ? IntervalTimer(every, false) : IntervalTimer(every);
        for (int i = 0; i < 30; ++i) {
            wait(r, r.pick<i64>({1, 100, 2000}));
            switch (r.below(6)) {
            case 0: t.see((t.full ? timer.time_since_last(true) : timer.time_since_last()).raw()); break;
            case 1: t.see(timer.time_since_last(false).raw()); break;
            case 2:
                if (t.full) timer.reset(HAL::millis());
                else
                    timer.reset();
                break;
            case 3: t.see(alarm.expired()), t.see(alarm.future().raw()), t.see(alarm.time_from_now().raw()); break;
            default: t.see(interval.expired()), t.see(interval.future().raw()), t.see(interval.time_until_next().raw()); break;
            }
        }
        VF_EV("timers");
    });
}

namespace {
template<typename T>
void filters(Rng& r, Twin& t) {
    using namespace spn::filter;
    std::vector<std::unique_ptr<Filter<T>>> fs;
    {
        typename BandPass<T>::Config c;
        t.set(r, c.mode, BandPass<T>::Mode::RELATIVE, BandPass<T>::Mode::ABSOLUTE);
        t.set(r, c.mantissa, 1, r.real(1, 9));
        t.set(r, c.decades, T(0.01), r.real(-1, 1));
        t.set(r, c.offset, 0, r.real(-5, 5));
        t.set(r, c.rejection_limit, 10, r.range(0, 5));
        t.set(r, c.throw_on_rejection_limit, true, false);
        t.see(static_cast<int>(c.mode)), t.see(c.mantissa), t.see(c.decades), t.see(c.offset), t.see(c.rejection_limit), t.see(c.throw_on_rejection_limit);
        fs.push_back(std::make_unique<BandPass<T>>(std::move(c)));
        typename BandPass<T>::Config broad{.mode = BandPass<T>::Mode::RELATIVE, .mantissa = 1, .decades = T(0.01), .offset = 0, .rejection_limit = 10, .throw_on_rejection_limit = true};
        if (t.full) fs.push_back(std::make_unique<BandPass<T>>(std::move(broad)));
        else
            fs.push_back(BandPass<T>::Broad());
    }
    fs.push_back(t.full ? std::make_unique<EWMA<T>>(typename EWMA<T>::Config{.K = 10}) : EWMA<T>::Short());
    fs.push_back(t.full ? std::make_unique<EWMA<T>>(typename EWMA<T>::Config{.K = 100}) : EWMA<T>::Long());
    const size_t bounded = fs.size();
    {
        typename Invert<T>::Config c;
        t.set(r, c.input_lower_limit, 0, r.real(-1, 0));
        t.set(r, c.input_upper_limit, 1, r.real(1, 5));
        t.see(c.input_lower_limit), t.see(c.input_upper_limit);
        fs.push_back(std::make_unique<Invert<T>>(std::move(c)));
        fs.push_back(t.full ? Invert<T>::NormalizedInverter(0.0, 1.0) : Invert<T>::NormalizedInverter());
    }
    {
        typename MappedRange<T>::Config c;
        t.set(r, c.input_lower_limit, 0, r.real(-1, 0));
        t.set(r, c.input_upper_limit, 1, r.real(1, 5));
        t.set(r, c.output_lower_limit, 0, r.real(-10, 10));
        t.set(r, c.output_upper_limit, 100, r.real(10, 2000));
        t.set(r, c.throw_for_value_out_of_range, false, true);
        t.see(c.input_lower_limit), t.see(c.input_upper_limit), t.see(c.output_lower_limit), t.see(c.output_upper_limit), t.see(c.throw_for_value_out_of_range);
        fs.push_back(std::make_unique<MappedRange<T>>(std::move(c)));
        const auto range = [&](T to) { return std::make_unique<MappedRange<T>>(typename MappedRange<T>::Config{.input_lower_limit = 0, .input_upper_limit = 1, .output_lower_limit = 0, .output_upper_limit = to, .throw_for_value_out_of_range = false}); };
        fs.push_back(t.full ? range(100) : MappedRange<T>::Percentage());
        fs.push_back(t.full ? range(1000) : MappedRange<T>::Permillage());
        const T lower = T(static_cast<float>(r.real(-1, 1)));
        const auto from = [&](T to) { return std::make_unique<MappedRange<T>>(typename MappedRange<T>::Config{.input_lower_limit = lower, .input_upper_limit = 1, .output_lower_limit = 0, .output_upper_limit = to, .throw_for_value_out_of_range = false}); };
        if (lower < T(0.9)) {
            fs.push_back(t.full ? from(100) : MappedRange<T>::Percentage(static_cast<float>(lower)));
            fs.push_back(t.full ? from(1000) : MappedRange<T>::Permillage(static_cast<float>(lower)));
        }
        fs.push_back(std::make_unique<Passthrough<T>>(typename Passthrough<T>::Config{}));
    }
    const bool normal = r.chance(29, 30); // samples that everyone takes
    const double wide = r.chance(9, 10) ? r.real(0.5, 8) : r.pick({30.0, 300.0}); // rejections are slow: they log, and may raise
    for (size_t i = 2; i < fs.size(); ++i) {
        t.see(fs[i]->value());
        VF_CHECK(fs[i]->value() == 0, "new-filter", "filter %zu has the value %g before its first sample", i, static_cast<double>(fs[i]->value()));
    }
    for (int k = 0; k < 25; ++k) {
        const T free = static_cast<T>(r.real(-wide, wide)), unit = static_cast<T>(normal ? r.unit() : r.real(-1.5, 2.5));
        for (size_t i = 0; i < fs.size(); ++i) {
            auto err = vf::catching([&] { t.see(fs[i]->value(i < bounded ? free : unit)); });
            if (err) {
                t.say(err->type);
                VF_EV("filter.raised");
            }
        }
    }
    if (r.chance(1, 4)) { // longer than the longest frame
        for (int k = 0; k < 120; ++k) {
            const T x = static_cast<T>(r.real(-wide, wide));
            for (size_t i : {2u, 3u}) fs[i]->new_sample(x);
        }
        t.see(fs[2]->value()), t.see(fs[3]->value());
        VF_EV("filters.long");
    }
    VF_EV("filters");
}
} // namespace
VF_SCENARIO(filter_float, 0.3) { twins(r, filters<float>); }
VF_SCENARIO(filter_double, 0.2) { twins(r, filters<double>); }

VF_SCENARIO(dates, 0.5) {
    twins(r, [](Rng& r, Twin& t) {
        ++t.left_out;
        const int y = static_cast<int>(r.range(1971, 2400)), m = static_cast<int>(r.range(1, 12)), d = static_cast<int>(r.range(1, 28));
        const int hh = static_cast<int>(r.range(0, 23)), mi = static_cast<int>(r.range(0, 59));
        DateTime date = [&]() -> DateTime {
            switch (r.below(4)) {
            case 0: return t.full ? DateTime(static_cast<time_t>(0)) : DateTime();
            case 1: return t.full ? DateTime(y, m, d, 0, 0, 0) : DateTime(y, m, d);
            case 2: return t.full ? DateTime(y, m, d, hh, 0, 0) : DateTime(y, m, d, hh);
            default: return t.full ? DateTime(y, m, d, hh, mi, 0) : DateTime(y, m, d, hh, mi);
            }
        }();
        for (i64 x : {static_cast<i64>(date.getUnixTime()), static_cast<i64>(date.getY2kTime()), static_cast<i64>(date.getYear()), static_cast<i64>(date.getMonth()),
                      static_cast<i64>(date.getDay()), static_cast<i64>(date.getHour()), static_cast<i64>(date.getMinute()), static_cast<i64>(date.getSecond()),
                      static_cast<i64>(date.getWeekDay()), static_cast<i64>(date.getYearDay())})
            t.see(static_cast<double>(x));
        char buf[64] = {};
        const size_t n = t.full ? date.strf_DateTime(buf, sizeof buf, "%a %h %d %T %Y") : date.strf_DateTime(buf, sizeof buf);
        t.see(static_cast<double>(n)), t.say(buf);
        VF_EV("dates");
    });
}

namespace {
struct Pin : spn::platform::DigitalOutput<Pin> {
    std::vector<int> told;
    void initialize_impl() {}
    void set_state_impl(spn::core::LogicalState s) { told.push_back(static_cast<int>(s)); }
};
struct Fader : spn::platform::AnalogueOutput<Fader> {
    Twin* t = nullptr;
    void set_value_impl(float v) { t->see(v), t->see(static_cast<double>(HAL::micros().raw())); }
};
/// built where something else was before
template<typename T>
struct Placed {
    alignas(T) unsigned char room[sizeof(T)];
    T* it;
    explicit Placed(Rng& r) {
        for (auto& b : room) b = static_cast<unsigned char>(r.next());
        it = new (room) T;
    }
    ~Placed() { it->~T(); }
};
template<typename U>
void unit_is_zero(Rng& r) {
    using T = typename U::type;
    Placed<T> p(r), q(r);
    VF_CHECK(static_cast<double>(p.it->raw()) == 0, "unit", "a new %s is %g", U::name, static_cast<double>(p.it->raw()));
    VF_CHECK(*p.it == *q.it && !(*p.it < *q.it), "unit", "two new %ss differ", U::name);
    VF_EV("unit");
}
} // namespace
VF_SCENARIO(outputs, 0.5) {
    twins(r, [](Rng& r, Twin& t) {
        ++t.left_out;
        Placed<Pin> p(r);
        t.see(static_cast<int>(p.it->state()));
        VF_CHECK(p.it->state() == spn::core::LogicalState::OFF, "new-output", "a new output is on");
        for (int i = 0; i < 4; ++i) {
            if (r.chance(1, 3)) p.it->initialize(true);
            else if (t.full)
                p.it->initialize(false);
            else
                p.it->initialize();
            if (r.chance(1, 3)) p.it->flip();
        }
        for (int x : p.it->told) t.see(x);
        Placed<Fader> f(r);
        f.it->t = &t;
        VF_CHECK(f.it->value() == 0, "new-output", "a new analogue output has the value %g", f.it->value());
        for (int i = 0; i < 3; ++i) {
            const float to = static_cast<float>(r.unit()), step = static_cast<float>(r.real(0.05, 0.5));
            switch (r.below(3)) {
            case 0: f.it->set_value(to); break;
            case 1:
                if (t.full) f.it->fade_to(to, 0.1f, k_time_ms(250));
                else
                    f.it->fade_to(to);
                break;
            default:
                if (t.full) f.it->fade_to(to, step, k_time_ms(250));
                else
                    f.it->fade_to(to, step);
            }
            t.see(f.it->value()), t.see(static_cast<double>(HAL::micros().raw()));
        }
        VF_EV("outputs");
    });
}
VF_SCENARIO(zero, 0.3) {
#define Z(U) unit_is_zero<un::U>(r);
    Z(time_us) Z(time_ms) Z(time_s) Z(time_m) Z(time_h) Z(time_d) Z(time_W) Z(time_Y)
    Z(farad_p) Z(coulomb) Z(siemens_m) Z(amp_m) Z(amp) Z(joule_k) Z(newton) Z(hertz) Z(hertz_M) Z(meter) Z(meter_k) Z(gram) Z(gram_k) Z(volt) Z(volt_m)
    Z(watt) Z(pascal) Z(ohm) Z(litre) Z(gray) Z(mole) Z(katal) Z(sievert) Z(lux) Z(henry) Z(lumen) Z(weber) Z(tesla) Z(becquerel) Z(kelvin) Z(celsius)
#undef Z
    using namespace spn::structure;
    Placed<XYPoint<float>> a(r);
    Placed<XYPoint<int>> b(r);
    Placed<XYZPoint<float>> c(r);
    Placed<XYZPoint<double>> d(r);
    VF_CHECK(a.it->x == 0 && a.it->y == 0 && b.it->x == 0 && b.it->y == 0, "point", "a new point is somewhere");
    VF_CHECK(c.it->x == 0 && c.it->y == 0 && c.it->z == 0 && d.it->x == 0 && d.it->y == 0 && d.it->z == 0, "point", "a new point is somewhere");
    VF_EV("points");
    int store[4] = {1, 2, 3, 4};
    Vector<int> v(store);
    VF_CHECK(v.size() == 0 && v.max_size() == 4, "borrowed", "a vector over storage starts with %zu of %zu", static_cast<size_t>(v.size()), static_cast<size_t>(v.max_size()));
    vf::nontrivial();
}
