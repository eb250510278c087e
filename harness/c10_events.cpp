// C10: exactly once, on time, in order, to every handler; online monitor in evsys.hpp.
#include "evsys.hpp"

using namespace evs;

VF_SCENARIO(schedule_and_fire, 1.0) {
    World w(r);
    size_t ids = r.range(1, 5);
    w.handler_cap = r.range(2, 6);
    size_t cap = r.range(2, 40);
    bool delays = r.chance(1, 3);
    w.cfg = {ids, cap, w.handler_cap, delays, k_time_ms(r.range(0, 50)), k_time_ms(r.range(50, 200))};
    w.delay_span = static_cast<int>(r.pick({3, 10, 60, 400}));
    vf::set_clock_us(r.chance(1, 3) ? 0 : r.range(0, r.chance(1, 2) ? 100000000ll : 40000000000000000ll));
    Sys sys(w.cfg);
    w.sys = &sys;
    vf::op("ids=%zu cap=%zu delays=%d clock=%lld", ids, cap, delays, (long long)now());
    w.attached.resize(ids);
    for (size_t i = 0; i < ids; ++i) {
        size_t n = r.range(1, static_cast<vf::i64>(w.handler_cap));
        for (size_t k = 0; k < n; ++k) w.attach(i);
    }
    int n = static_cast<int>(r.range(10, vf::thorough() ? 200 : 90));
    for (int i = 0; i < n; ++i) {
        switch (r.below(8)) {
        case 0:
        case 1:
        case 2:
        case 3:
            w.budget = 6;
            w.act(false);
            w.budget = 0;
            break;
        case 4: {
            vf::i64 us = r.chance(1, 2) ? r.range(0, w.delay_span) * 1000 : r.range(0, w.delay_span * 1500);
            // land exactly on, or one before, the next due moment
            if (!w.pending.empty() && r.chance(1, 2)) {
                vf::i64 d = w.pending[w.earliest()].due - now() - static_cast<vf::i64>(r.below(2));
                if (d >= 0 && d < 2000000) us = d * 1000;
            }
            vf::op("advance %lldus", (long long)us);
            HAL::delay_us(k_time_us(us));
            break;
        }
        default:
            w.budget = static_cast<int>(r.range(0, 8));
            w.pass();
            w.budget = 0;
        }
    }
    // run dry: everything that is pending is delivered, exactly once
    w.outside.clear();
    for (int i = 0; i < 200 && !w.pending.empty(); ++i) {
        vf::i64 d = w.pending[w.earliest()].due - now();
        if (d > 0) HAL::delay_ms(k_time_ms(d));
        w.pass();
    }
    VF_CHECK(w.pending.empty(), "never-delivered", "%zu events were never delivered", w.pending.size());
    for (int i = 0; i < 3; ++i) {
        HAL::delay_ms(k_time_ms(100));
        w.pass();
    }
    if (w.ties) VF_EV("equal.due.times");
    if (w.nested) VF_EV("from.within.handlers");
    if (w.ties && w.nested && w.delivered > 5) vf::nontrivial();
    vf::state(w.delivered * 7919 + w.ties * 31 + w.nested);
}

// many ids, many handlers per id, many pending events: around the widths a narrow id, count or position would have
VF_SCENARIO(many, 0.012) {
    World w(r);
    size_t ids = r.pick({2, 130, 255, 256, 257, 300, 600, 66000});
    w.handler_cap = r.pick({2, 3, 130, 260, 300});
    size_t cap = r.pick({20, 130, 255, 256, 257, 300, 520});
    if (ids > 1000) w.handler_cap = 2;
    w.cfg = {ids, cap, w.handler_cap, r.chance(1, 3), k_time_ms(1), k_time_ms(100)};
    w.may_attach = false;
    w.delay_span = static_cast<int>(r.pick({10, 60, 400, 3000, 100000}));
    vf::set_clock_us(r.chance(1, 3) ? 0 : r.range(0, 40000000000000ll));
    Sys sys(w.cfg);
    w.sys = &sys;
    vf::op("many: ids=%zu handlers=%zu cap=%zu span=%d", ids, w.handler_cap, cap, w.delay_span);
    w.attached.resize(ids);
    size_t busy = r.below(ids); // one id has all the handlers it may have
    for (size_t i = 0; i < ids; ++i) w.attach(i);
    while (w.attached[busy].size() < w.handler_cap) w.attach(busy);
    for (int round = 0; round < 3; ++round) {
        while (!w.full()) r.chance(1, 30) ? w.make_event() : w.schedule();
        w.schedule(); // refused
        for (int i = 0; i < 6; ++i) {
            w.trigger();
            vf::i64 d = w.pending.empty() ? 1 : r.range(0, w.delay_span);
            HAL::delay_ms(k_time_ms(d));
            w.pass();
            w.check_next();
        }
        w.outside.clear();
    }
    for (int i = 0; i < 3000 && !w.pending.empty(); ++i) {
        vf::i64 d = w.pending[w.earliest()].due - now();
        if (d > 0) HAL::delay_ms(k_time_ms(d));
        w.pass();
    }
    VF_CHECK(w.pending.empty(), "never-delivered", "%zu events were never delivered", w.pending.size());
    if (ids > 256 && cap > 256) VF_EV("many.ids.and.events");
    if (w.handler_cap > 256) VF_EV("many.handlers");
    vf::nontrivial();
}
