// Online monitor of an EventSystem: a reference queue predicts every delivery; handlers report to it as they are called.
#pragma once
#include "vf.hpp"
#include "spine/eventsystem/eventsystem.hpp"

namespace evs {
using spn::core::Event;
using spn::core::EventHandler;
using spn::core::EventSystem;

/// what an event carries
struct Payload {
    int kind = 0; // none, float, unsigned, ms, s
    vf::i64 v = 0;
    Event::Data data() const {
        switch (kind) {
        case 1: return Event::Data(static_cast<float>(v) * 0.5f);
        case 2: return Event::Data(static_cast<uint32_t>(v));
        case 3: return Event::Data(k_time_ms(v));
        case 4: return Event::Data(k_time_s(v));
        default: return {};
        }
    }
    void check(const Event& e) const {
        const auto& d = e.data();
        VF_CHECK(d.has_value() == (kind != 0), "data-presence", "event %zu %s data", e.id(), kind ? "lost its" : "carries foreign");
        if (kind == 0) {
            // there is nothing to read: nothing at all, or an assertion
            auto err = vf::catching([&] {
                VF_CHECK(d.value() == 0.f && d.unsigned_value() == 0 && d.ms() == k_time_ms(0) && d.s() == k_time_s(0), "data-from-nothing",
                         "event %zu without data gives a value", e.id());
            });
            VF_CHECK(!err || vf::kDebug, "data-from-nothing", "reading the data of event %zu raised %s", e.id(), err->msg.c_str());
        }
        bool same = true;
        if (kind == 1) same = d.value() == static_cast<float>(v) * 0.5f;
        if (kind == 2) same = d.unsigned_value() == static_cast<uint32_t>(v);
        if (kind == 3) same = d.ms() == k_time_ms(v);
        if (kind == 4) same = d.s() == k_time_s(v);
        VF_CHECK(same, "data", "event %zu carries other data than it was scheduled with", e.id());
    }
    static Payload random(vf::Rng& r) {
        Payload p;
        p.kind = static_cast<int>(r.below(5));
        p.v = p.kind == 2 ? static_cast<vf::i64>(r.below(1ull << 32)) : r.range(-1000000, 1000000);
        if (p.kind >= 3 && r.chance(1, 3)) p.v = r.range(-(1ll << 50), 1ll << 50);
        return p;
    }
};

inline vf::i64 now() { return HAL::millis().raw(); }

class Sys : public EventSystem {
public:
    using EventSystem::EventSystem;
    /// the pipeline of the system, where subclasses can reach it (an internal matter: without it, only pipelines of their own are asked)
    const spn::eventsystem::Pipeline* pipeline() { return reach(*this, 0); }

private:
    template<typename S>
    static auto reach(S& s, int) -> decltype(&s._pipeline) {
        return &s._pipeline;
    }
    template<typename S>
    static const spn::eventsystem::Pipeline* reach(S&, long) {
        return nullptr;
    }
};

struct World;
class Handler : public EventHandler {
public:
    Handler(EventSystem* s, World* w, int me) : EventHandler(s), _w(w), _me(me) {}
    void handle_event(const Event& event) override;

private:
    World* _w;
    int _me;
};

struct Pending {
    vf::i64 due;
    vf::u64 seq;
    size_t id;
    Payload p;
};
struct Entry { // a dispatch in progress
    size_t id;
    Payload p;
    size_t pos = 0, n;
    bool scheduled;
    size_t joined = 0; // handlers attached during this dispatch that are to be reached by it as well
};

/// Whether a handler attached to an event while that event is being delivered takes part in that very delivery is left
/// open; it is only demanded that it is done one way or the other. Find out which.
inline bool latecomers_join() {
    struct Attacher : EventHandler {
        using EventHandler::EventHandler;
        EventHandler* other = nullptr;
        int calls = 0;
        void handle_event(const Event&) override {
            ++calls;
            if (other) evsys()->attach(0, std::exchange(other, nullptr));
        }
    };
    EventSystem s({.events_count = 1, .events_cap = 2, .handler_cap = 2, .delay_between_ticks = false});
    Attacher a(&s), b(&s);
    a.other = &b;
    s.attach(0, &a);
    s.trigger(0);
    return b.calls > 0;
}

struct World {
    vf::Rng& r;
    Sys* sys = nullptr;
    EventSystem::Config cfg;
    size_t handler_cap;
    std::vector<std::vector<int>> attached; // id -> handler numbers
    std::vector<std::unique_ptr<Handler>> handlers;
    std::vector<Pending> pending;
    std::vector<std::pair<std::shared_ptr<Event>, Pending>> outside; // created, not scheduled yet (due = delay)
    std::vector<Entry> open;
    vf::u64 seq = 0;
    vf::i64 last_due = -1;
    vf::u64 last_seq = 0;
    int budget = 0; // how many more things handlers may do
    bool in_loop = false, aborted = false;
    vf::i64 handler_time_us = 0; // time handlers spent in the current pass
    // what was seen
    size_t delivered = 0, nested = 0, refused = 0, ties = 0;
    bool clash_free = true;
    bool may_attach = true, far = true;
    const bool join = latecomers_join();
    int delay_span = 50;

    explicit World(vf::Rng& rng) : r(rng) {}

    size_t in_use() const { return pending.size() + outside.size() + open.size(); }
    bool full() const { return in_use() >= cfg.events_cap; }

    size_t earliest() const {
        size_t b = 0;
        for (size_t i = 1; i < pending.size(); ++i)
            if (pending[i].due < pending[b].due || (pending[i].due == pending[b].due && pending[i].seq < pending[b].seq)) b = i;
        return b;
    }

    size_t random_id() { return r.below(cfg.events_count); }

    void schedule() {
        bool was_full = full();
        size_t id = random_id();
        Payload p = Payload::random(r);
        vf::i64 d = r.chance(1, 3) ? r.range(1, 4) * 5 : r.range(1, delay_span);
        if (far && r.chance(1, 20)) d = r.range(1, r.pick<vf::i64>({1000000000, 5000000000, 40000000000}));
        vf::op("schedule(%zu,%lldms,%d)%s", id, (long long)d, p.kind, was_full ? " full" : "");
        auto e = vf::catching([&] {
            if (p.kind == 0 && r.chance(1, 2))
                sys->schedule(id, k_time_ms(d));
            else
                sys->schedule(id, k_time_ms(d), p.data());
        });
        if (was_full) {
            VF_CHECK(!vf::kDebug || e, "overload-unnoticed", "scheduling with all %zu events in use raised no assertion", cfg.events_cap);
            ++refused;
            VF_EV("schedule.refused");
            return;
        }
        VF_CHECK(!e, "refused-with-room", "scheduling failed with %zu of %zu events in use: %s", in_use(), cfg.events_cap, e->msg.c_str());
        for (auto& o : pending)
            if (o.due == now() + d) ++ties;
        pending.push_back({now() + d, ++seq, id, p});
        VF_EV("schedule.ok");
    }
    /// take an event without scheduling it yet
    void make_event() {
        bool was_full = full();
        size_t id = random_id();
        Payload p = Payload::random(r);
        vf::i64 d = r.range(1, delay_span);
        vf::op("event(%zu,%lldms)%s", id, (long long)d, was_full ? " full" : "");
        std::shared_ptr<Event> ev;
        auto e = vf::catching([&] { ev = sys->event(id, k_time_ms(d), p.data()); });
        if (was_full) {
            VF_CHECK(!ev, "capacity-exceeded", "%zu events are in use, yet another one was handed out", cfg.events_cap);
            ++refused;
            return;
        }
        VF_CHECK(ev && !e, "refused-with-room", "no event with %zu of %zu in use", in_use(), cfg.events_cap);
        for (auto& o : outside) VF_CHECK(o.first != ev, "same-event-twice", "one event object was handed to two holders");
        VF_CHECK(ev->id() == id, "event-id", "event has id %zu, expected %zu", ev->id(), id);
        p.check(*ev);
        outside.push_back({std::move(ev), {d, 0, id, p}});
        VF_EV("event.held");
    }
    void schedule_held() {
        if (outside.empty()) return;
        size_t k = r.below(outside.size());
        auto [ev, pe] = outside[k];
        outside.erase(outside.begin() + static_cast<long>(k));
        VF_CHECK(ev->id() == pe.id, "held-event-changed", "a held event changed its id");
        pe.p.check(*ev);
        vf::op("schedule held %zu", pe.id);
        sys->schedule(std::move(ev));
        ev.reset();
        pe.due += now();
        pe.seq = ++seq;
        pending.push_back(pe);
        VF_EV("schedule.held");
    }
    void drop_held() {
        if (outside.empty()) return;
        size_t k = r.below(outside.size());
        vf::op("drop held");
        outside.erase(outside.begin() + static_cast<long>(k));
        VF_EV("drop.held");
    }
    void trigger() {
        if (open.size() > 3) return;
        size_t id = random_id();
        Payload p = Payload::random(r);
        bool was_full = full();
        bool whole = r.chance(1, 4) && !outside.empty();
        Entry en{id, p, 0, attached[id].size(), false};
        if (whole) {
            size_t k = r.below(outside.size());
            auto ev = outside[k].first; // stays held
            en.id = outside[k].second.id;
            en.p = outside[k].second.p;
            en.n = attached[en.id].size();
            vf::op("trigger held %zu {", en.id);
            // it occupies its own slot only: keep the accounting exact
            auto keep = outside[k];
            outside.erase(outside.begin() + static_cast<long>(k));
            open.push_back(en);
            r.chance(1, 2) ? sys->trigger(ev) : sys->trigger(*ev);
            VF_CHECK(open.back().pos == open.back().n, "trigger-incomplete", "a trigger reached %zu of %zu handlers", open.back().pos, open.back().n);
            open.pop_back();
            outside.push_back(keep);
            vf::op("}");
            return;
        }
        vf::op("trigger(%zu,%d)%s {", id, p.kind, was_full ? " full" : "");
        size_t depth = open.size();
        open.push_back(en);
        std::optional<vf::SpineException> e;
        e = vf::catching([&] { sys->trigger(id, p.data()); });
        VF_CHECK(open.size() == depth + 1, "dispatch-nesting", "dispatch nesting is broken");
        Entry done = open.back();
        open.pop_back();
        vf::op("}");
        if (was_full) {
            VF_CHECK(done.pos == 0 || done.pos == done.n, "trigger-partial", "a trigger without a free event reached %zu of %zu handlers", done.pos, done.n);
            ++refused;
            VF_EV("trigger.without.slot");
            return;
        }
        VF_CHECK(!e, "trigger-refused", "triggering failed with a free event: %s", e->msg.c_str());
        VF_CHECK(done.pos == done.n, "trigger-incomplete", "a trigger reached %zu of %zu handlers", done.pos, done.n);
        VF_EV("trigger.ok");
    }
    void attach(size_t id) {
        if (attached[id].size() >= handler_cap) return;
        int h = static_cast<int>(handlers.size());
        if (h && r.chance(1, 3))
            h = static_cast<int>(r.below(static_cast<vf::u64>(h))); // one handler for several ids
        else
            if (r.chance(1, 3)) { // told its event system only later
                handlers.push_back(std::make_unique<Handler>(nullptr, this, h));
                handlers.back()->attach_event_system(sys);
                VF_EV("handler.told.later");
            } else
                handlers.push_back(std::make_unique<Handler>(sys, this, h));
        vf::op("attach(%zu,h%d)", id, h);
        sys->attach(id, handlers[static_cast<size_t>(h)].get());
        attached[id].push_back(h);
        if (join)
            for (auto& en : open)
                if (en.id == id) ++en.joined;
    }

    void act(bool inside) {
        switch (r.below(inside ? 10 : 9)) {
        case 0:
        case 1:
        case 2:
        case 3: schedule(); break;
        case 4: make_event(); break;
        case 5: schedule_held(); break;
        case 6: drop_held(); break;
        case 7: trigger(); break;
        case 8:
            if (may_attach && r.chance(1, 6)) attach(random_id());
            break;
        default: {
            vf::i64 ms = r.range(1, 30);
            vf::op("busy %lldms", (long long)ms);
            HAL::delay_ms(k_time_ms(ms));
            handler_time_us += ms * 1000;
            VF_EV("handler.takes.time");
        }
        }
    }

    void delivered_to(int handler, const Event& e) {
        if (aborted) return;
        ++delivered;
        if (open.empty() || open.back().pos == open.back().n) {
            // no dispatch expects another handler: this must be the earliest pending event
            VF_CHECK(in_loop, "delivery-outside-loop", "event %zu was delivered although nobody triggered it and no loop pass is running", e.id());
            VF_CHECK(!pending.empty(), "delivered-twice", "event %zu was delivered although nothing is pending", e.id());
            size_t b = earliest();
            Pending pe = pending[b];
            VF_CHECK(pe.due <= now(), "early", "event %zu delivered at %lld, but the earliest pending event is due at %lld", e.id(), (long long)now(),
                     (long long)pe.due);
            VF_CHECK(pe.id == e.id(), "order", "event %zu delivered, expected event %zu (due %lld, #%llu)", e.id(), pe.id, (long long)pe.due,
                     (unsigned long long)pe.seq);
            pending.erase(pending.begin() + static_cast<long>(b));
            open.push_back({pe.id, pe.p, 0, attached[pe.id].size(), true});
            last_due = pe.due;
            VF_EV("deliver.scheduled");
        }
        Entry& en = open.back();
        VF_CHECK(e.id() == en.id, "wrong-event", "handler got event %zu while event %zu is being delivered", e.id(), en.id);
        VF_CHECK(attached[en.id][en.pos] == handler, "handler-order", "handler h%d called as number %zu of event %zu, expected h%d", handler, en.pos, en.id,
                 attached[en.id][en.pos]);
        en.p.check(e);
        vf::op("h%d(%zu)", handler, e.id());
        size_t depth = open.size();
        ++en.pos;
        while (budget > 0 && r.chance(1, 3)) {
            --budget;
            ++nested;
            // while handlers run, this event is still in use
            bool last = open.back().pos == open.back().n;
            if (last) open.back().n = open.back().pos + 1; // nested deliveries are not mistaken for the next scheduled one
            act(true);
            Entry& mine = open[depth - 1];
            if (last) mine.n = mine.pos;
            mine.n += std::exchange(mine.joined, 0);
        }
        VF_CHECK(open.size() == depth, "dispatch-nesting", "dispatch nesting is broken");
        if (open.back().scheduled && open.back().pos == open.back().n) open.pop_back();
    }

    /// one pass of the event loop; returns how long it slept (ms)
    vf::i64 pass() {
        vf::i64 t0 = now();
        vf::i64 us0 = HAL::micros().raw();
        handler_time_us = 0;
        size_t before = delivered;
        vf::op("loop@%lld {", (long long)t0);
        in_loop = true;
        sys->loop();
        in_loop = false;
        vf::op("}");
        VF_CHECK(open.empty(), "incomplete-delivery", "event %zu reached %zu of %zu handlers", open.back().id, open.back().pos, open.back().n);
        for (auto& p : pending)
            VF_CHECK(p.due > t0, "late", "event %zu was due at %lld and is still pending after the pass at %lld", p.id, (long long)p.due, (long long)t0);
        if (delivered == before) VF_EV("pass.nothing.due");
        VF_EV("pass");
        vf::i64 slept_us = HAL::micros().raw() - us0 - handler_time_us;
        if (!cfg.delay_between_ticks) {
            VF_CHECK(slept_us == 0, "slept-while-disabled", "the pass slept %lld us although tick delays are disabled", (long long)slept_us);
        } else if (pending.empty()) {
            VF_CHECK(slept_us == cfg.min_delay_between_ticks.raw(), "idle-delay", "an idle pass slept %lld us, the configured minimum is %lld us",
                     (long long)slept_us, (long long)cfg.min_delay_between_ticks.raw());
            VF_EV("sleep.idle");
        } else {
            VF_CHECK(slept_us >= 0 && slept_us <= cfg.max_delay_between_ticks.raw(), "oversleep-max", "the pass slept %lld us, at most %lld us configured",
                     (long long)slept_us, (long long)cfg.max_delay_between_ticks.raw());
            vf::i64 remaining_ms = pending[earliest()].due - now();
            // the wake-up moment is not past the next due moment (unless that was past before sleeping)
            VF_CHECK(slept_us == 0 || remaining_ms >= 0, "oversleep-due", "the pass slept %lld us until %lld ms after the next event was due",
                     (long long)slept_us, (long long)-remaining_ms);
            VF_CHECK(slept_us == cfg.max_delay_between_ticks.raw() || remaining_ms == 0 || (slept_us == 0 && remaining_ms < 0), "sleep",
                     "the pass slept %lld us and woke up %lld ms before the next event is due; at most %lld us are configured", (long long)slept_us,
                     (long long)remaining_ms, (long long)cfg.max_delay_between_ticks.raw());
            if (slept_us == cfg.max_delay_between_ticks.raw())
                VF_EV("sleep.max");
            else if (slept_us)
                VF_EV("sleep.until.event");
        }
        return slept_us / 1000;
    }
    void check_next() {
        auto* pipe = sys->pipeline();
        if (!pipe) return;
        auto t = pipe->time_until_next_future();
        vf::i64 want = pending.empty() ? 0 : std::max<vf::i64>(0, pending[earliest()].due - now());
        VF_CHECK(t == k_time_ms(want), "next-time", "reported time until the next event is %lld ms, expected %lld", (long long)t.raw(), (long long)want);
        VF_CHECK(pipe->contains_futures() == !pending.empty(), "contains", "contains_futures is wrong with %zu pending", pending.size());
        VF_CHECK(pipe->contains_expired_futures() == (!pending.empty() && pending[earliest()].due <= now()), "contains-expired",
                 "contains_expired_futures is wrong");
    }
};

inline void Handler::handle_event(const Event& event) {
    VF_CHECK(evsys() == _w->sys, "wrong-system", "a handler does not know the event system it was given");
    _w->delivered_to(_me, event);
}
} // namespace evs
