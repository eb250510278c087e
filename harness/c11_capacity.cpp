// C11: exact capacity, harmless overload, bounded sleeping, reported remaining time, release of everything on destruction.
#include "evsys.hpp"

using namespace evs;
using spn::eventsystem::Future;
using spn::eventsystem::Pipeline;

VF_SCENARIO(overload, 1.0) {
    size_t heap0 = vf::heap();
    {
        World w(r);
        size_t ids = r.range(1, 3);
        w.handler_cap = r.range(1, 3);
        size_t cap = r.range(1, 6);
        bool delays = r.chance(2, 3);
        vf::i64 mn = r.range(0, 300);
        vf::i64 mx = r.chance(1, 6) ? 0 : r.range(1, 600);
        w.cfg = {ids, cap, w.handler_cap, delays, k_time_ms(mn), k_time_ms(mx)};
        w.may_attach = false;
        w.delay_span = static_cast<int>(r.pick({5, 50, 1200}));
        vf::set_clock_us(r.chance(1, 3) ? 0 : r.range(0, 40000000000000ll));
        std::weak_ptr<Event> watch;
        {
            Sys sys(w.cfg);
            w.sys = &sys;
            vf::op("cap=%zu delays=%d min=%lld max=%lld", cap, delays, (long long)mn, (long long)mx);
            w.attached.resize(ids);
            for (size_t i = 0; i < ids; ++i) w.attach(i);
            int n = static_cast<int>(r.range(10, vf::thorough() ? 250 : 110));
            bool was_full = false, recovered = false;
            for (int i = 0; i < n; ++i) {
                switch (r.below(10)) {
                case 0:
                case 1:
                case 2:
                case 3:
                case 4:
                    w.budget = 4;
                    w.act(false);
                    w.budget = 0;
                    break;
                case 5: {
                    vf::i64 ms = r.range(0, w.delay_span);
                    if (!w.pending.empty() && r.chance(1, 3)) {
                        vf::i64 d = w.pending[w.earliest()].due - now();
                        if (d > 0 && d < 2000000) ms = d;
                    }
                    vf::op("advance %lldms", (long long)ms);
                    HAL::delay_ms(k_time_ms(ms));
                    break;
                }
                case 6:
                    // fill up, whatever is free
                    if (r.chance(1, 3))
                        while (!w.full()) w.schedule();
                    break;
                default:
                    w.budget = static_cast<int>(r.range(0, 5));
                    if (was_full) recovered = true;
                    w.pass();
                    w.budget = 0;
                }
                w.check_next();
                if (w.refused) was_full = true;
                vf::state(w.pending.size() * 100 + w.outside.size() * 10 + cap);
                if (r.chance(1, 8)) {
                    auto s = sys.pipeline_as_string();
                    VF_CHECK(s.rfind("Pipeline: [", 0) == 0 && s.back() == ']', "description", "the pipeline describes itself as '%.100s'", s.c_str());
                    VF_EV("described");
                }
            }
            // the full capacity is still there
            w.outside.clear();
            size_t room = cap - w.pending.size();
            for (size_t i = 0; i < room; ++i) w.make_event();
            VF_CHECK(w.full(), "capacity-lost", "only %zu of %zu events can be in use", w.in_use(), cap);
            w.make_event();
            VF_EV("capacity.exact");
            if (!w.outside.empty()) watch = w.outside.back().first;
            if (was_full && recovered && w.delivered) vf::nontrivial();
            if (r.chance(1, 2)) w.outside.clear();
            w.handlers.clear();
        }
        // events still held outside survive the system, the rest is gone
        if (w.outside.empty()) {
            VF_CHECK(watch.expired(), "event-kept", "an event outlives its system although nobody holds it");
        } else {
            VF_CHECK(w.outside.back().first.use_count() == 1, "event-owners", "a held event has %ld owners after its system is gone",
                     w.outside.back().first.use_count());
            VF_EV("held.outlives.system");
        }
    }
    VF_CHECK(vf::heap() == heap0, "heap", "heap use went from %zu to %zu bytes although the event system is gone", heap0, vf::heap());
    VF_EV("destroyed.clean");
}

// soak: thousands of events through few slots
VF_SCENARIO(soak, 0.03) {
    World w(r);
    w.handler_cap = 2;
    size_t cap = r.range(1, 5);
    w.cfg = {2, cap, 2, false, k_time_ms(1), k_time_ms(1)};
    w.may_attach = w.far = false;
    Sys sys(w.cfg);
    w.sys = &sys;
    w.attached.resize(2);
    w.attach(0);
    w.attach(1);
    for (int i = 0; i < 2500; ++i) {
        while (!w.full()) w.schedule();
        HAL::delay_ms(k_time_ms(r.range(0, 60)));
        w.pass();
    }
    VF_CHECK(w.delivered > 1000, "stalled", "only %zu deliveries in 2500 passes", w.delivered);
    VF_EV("soak");
    vf::nontrivial();
}

// capacities around the limits of narrower counters: filled to the brim, drained, filled again
VF_SCENARIO(many_slots, 0.004) {
    World w(r);
    w.handler_cap = 1;
    size_t cap = static_cast<size_t>(r.pick<vf::i64>({128, 256, 512, 1024, 2048, 4096}) + r.range(-2, 200));
    w.cfg = {1, cap, 1, false, k_time_ms(1), k_time_ms(1)};
    vf::set_clock_us(r.range(0, 100000000000ll));
    struct Count : spn::core::EventHandler {
        using EventHandler::EventHandler;
        std::vector<uint32_t> got;
        void handle_event(const Event& e) override { got.push_back(e.data().unsigned_value()); }
    };
    Sys sys(w.cfg);
    Count h(&sys);
    sys.attach(0, &h);
    vf::op("cap=%zu", cap);
    int rounds = 2;
    for (int round = 0; round < rounds; ++round) {
        std::vector<std::pair<vf::i64, uint32_t>> want;
        int order = static_cast<int>(r.below(3)); // due in the order of scheduling, the reverse, any
        for (size_t i = 0; i < cap; ++i) {
            vf::i64 d = order == 0 ? static_cast<vf::i64>(1 + i / 3) : order == 1 ? static_cast<vf::i64>(cap - i) : r.range(1, static_cast<vf::i64>(cap));
            auto ev = sys.event(0, k_time_ms(d), Event::Data(static_cast<uint32_t>(i)));
            VF_CHECK(ev, "slot-missing", "no event left with %zu of %zu in use", i, cap);
            sys.schedule(std::move(ev));
            want.push_back({now() + d, static_cast<uint32_t>(i)});
        }
        bool refused = false;
        auto e = vf::catching([&] { refused = !sys.event(0, k_time_ms(1)); });
        VF_CHECK(refused || (e && vf::kDebug), "slot-extra", "an event more than the %zu configured is given out", cap);
        std::stable_sort(want.begin(), want.end(), [](auto& a, auto& b) { return a.first < b.first; });
        h.got.clear();
        // a part first, then the rest
        vf::i64 part = r.range(0, static_cast<vf::i64>(cap));
        HAL::delay_ms(k_time_ms(part));
        size_t due = 0;
        while (due < want.size() && want[due].first <= now()) ++due;
        sys.loop();
        VF_CHECK(h.got.size() == due, "many-due", "%zu events delivered of %zu due (capacity %zu)", h.got.size(), due, cap);
        HAL::delay_ms(k_time_ms(static_cast<vf::i64>(cap)));
        sys.loop();
        VF_CHECK(h.got.size() == cap, "many-all", "%zu events delivered of %zu", h.got.size(), cap);
        for (size_t i = 0; i < cap; ++i)
            VF_CHECK(h.got[i] == want[i].second, "many-order", "delivery %zu is event %u, expected %u", i, h.got[i], want[i].second);
        VF_EV("many.slots");
    }
    vf::state(cap);
    vf::nontrivial();
}

// the pipeline on its own
VF_SCENARIO(pipeline_only, 0.5) {
    size_t heap0 = vf::heap();
    {
        size_t cap = r.range(1, 12);
        Pipeline pipe(cap);
        vf::set_clock_us(r.range(0, 100000000000ll));
        struct E {
            vf::i64 due;
            vf::u64 seq;
            Future* f;
        };
        std::vector<E> m;
        vf::u64 seq = 0;
        auto first = [&] { return std::min_element(m.begin(), m.end(), [](auto& a, auto& b) { return a.due != b.due ? a.due < b.due : a.seq < b.seq; }); };
        bool over = false, fired = false;
        vf::op("Pipeline(%zu)", cap);
        for (int i = 0; i < 60; ++i) {
            switch (r.below(5)) {
            case 0:
            case 1:
            case 2: {
                vf::i64 d = r.chance(1, 30) ? r.range(1, 40000000000) : r.range(1, 40);
                auto f = std::make_shared<Future>(k_time_ms(d));
                Future* raw = f.get();
                bool late = r.chance(1, 4);
                if (late) HAL::delay_ms(k_time_ms(r.range(0, 10))); // counts from when it is pushed
                bool full = m.size() == cap;
                vf::op("push %lld%s", (long long)d, full ? " full" : "");
                auto e = vf::catching([&] { pipe.push(std::move(f)); });
                if (full) {
                    over = true;
                    VF_EV("pipeline.full");
                    break;
                }
                VF_CHECK(!e, "push-refused", "push failed with %zu of %zu pending", m.size(), cap);
                m.push_back({now() + d, ++seq, raw});
                VF_CHECK(raw->future() == k_time_ms(now() + d), "due", "a future of %lld ms is due in %lld", (long long)d, (long long)(raw->future().raw() - now()));
                break;
            }
            case 3:
                HAL::delay_ms(k_time_ms(r.range(0, 30)));
                break;
            default:
                while (!m.empty() && first()->due <= now()) {
                    VF_CHECK(pipe.contains_expired_futures(), "not-expired", "an expired future is not reported");
                    auto it = first();
                    auto f = pipe.expire();
                    vf::op("expire");
                    VF_CHECK(f.get() == it->f, "order", "another future than the earliest expired");
                    VF_CHECK(f.use_count() == 1, "owners", "an expired future has %ld owners", f.use_count());
                    m.erase(it);
                    fired = true;
                }
                VF_CHECK(!pipe.contains_expired_futures(), "phantom", "a future is reported expired that is not");
            }
            vf::i64 want = m.empty() ? 0 : std::max<vf::i64>(0, first()->due - now());
            VF_CHECK(pipe.time_until_next_future() == k_time_ms(want), "next-time", "time until the next future is %lld, expected %lld",
                     (long long)pipe.time_until_next_future().raw(), (long long)want);
            VF_CHECK(pipe.pipe().size() == m.size(), "count", "%zu futures pending, expected %zu", pipe.pipe().size(), m.size());
            if (r.chance(1, 10)) {
                auto s = pipe.to_string();
                VF_CHECK(s.rfind("Pipeline: [", 0) == 0 && s.back() == ']', "description", "'%.100s'", s.c_str());
                // it tells the remaining time of every pending future, in order
                std::sort(m.begin(), m.end(), [](auto& a, auto& b) { return a.due != b.due ? a.due < b.due : a.seq < b.seq; });
                size_t at = 0;
                for (auto& e : m) {
                    auto text = spn::core::utils::repr(k_time_ms(e.due - now()));
                    size_t k = s.find(text, at);
                    VF_CHECK(k != std::string::npos, "description-times", "'%.200s' lacks '%s', or has it too early", s.c_str(), text.c_str());
                    at = k + text.size();
                }
                VF_CHECK(m.empty() ? s.find_first_of("0123456789") == std::string::npos : s.find_first_of("0123456789", at) == std::string::npos, "description-excess",
                         "'%.200s' describes more than %zu futures", s.c_str(), m.size());
                // futures compare by when they are due
                for (size_t k = 0; k + 1 < m.size(); ++k) {
                    const Future &x = *m[k].f, &y = *m[k + 1].f;
                    VF_CHECK((x < y) == (m[k].due < m[k + 1].due) && !(y < x) && (x == y) == (m[k].due == m[k + 1].due), "future-order", "futures due at %lld and %lld compare wrong",
                             (long long)m[k].due, (long long)m[k + 1].due);
                    VF_EV("futures.compared");
                }
            }
        }
        if (over && fired) vf::nontrivial();
    }
    VF_CHECK(vf::heap() == heap0, "heap", "heap use went from %zu to %zu bytes although the pipeline is gone", heap0, vf::heap());
}
