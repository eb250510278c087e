// C37: objects are independent of each other, of their copies and of where they live. Every actor (an object with a history of its own) is
// first run alone; then all actors are run with their steps interleaved, moved about in memory, swapped and copied on the way, and each must
// show exactly what it showed alone.
#include "vf.hpp"
#include "fake_stream.hpp"
#include "spine/platform/hal.hpp"
#include "spine/controller/pid.hpp"
#include "spine/controller/sr_latch.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/filter/implementations/passthrough.hpp"
#include "spine/io/stream/buffered_stream.hpp"
#include "spine/io/stream/implementations/mock.hpp"
#include "spine/structure/linebuffer.hpp"
#include "spine/structure/pool.hpp"
#include "spine/structure/result.hpp"
#include "spine/structure/stack.hpp"
#include "spine/structure/static_string.hpp"
#include "spine/structure/time/datetime.hpp"
#include "spine/structure/time/schedule.hpp"
#include "spine/structure/time/timers.hpp"

using vf::i64;
using vf::Rng;
using vf::u64;
namespace {
struct Log {
    u64 h = 7;
    size_t n = 0;
    void see(double x) { h = vf::hash_bytes(&x, sizeof x, h), ++n; }
    template<typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
    void see(T x) {
        const auto v = static_cast<i64>(x);
        h = vf::hash_bytes(&v, sizeof v, h), ++n;
    }
    void say(std::string_view s) { h = vf::hash_bytes(s.data(), s.size(), h + s.size()), ++n; }
    bool operator==(const Log& o) const { return h == o.h && n == o.n; }
};

struct Actor {
    virtual ~Actor() = default;
    virtual const char* name() const = 0;
    virtual void step(Rng& r, Log& l) = 0;
    /// the object moves to another place
    virtual bool relocate(Rng&) { return false; }
    /// exchange the objects of two actors (and the rest of them, so that each goes on as before)
    virtual bool exchange(Actor&) { return false; }
    virtual std::unique_ptr<Actor> clone(Rng&) const { return nullptr; }
};
/// How an object is built (make), used (step), and which of moving and copying is asked of it
template<typename K>
struct Of : Actor {
    using T = typename K::type;
    std::unique_ptr<T> it;
    K kind;
    explicit Of(Rng& r) { it = kind.make(r); }
    Of(const Of& other, std::unique_ptr<T> object) : it(std::move(object)), kind(other.kind) {}
    const char* name() const override { return K::name; }
    void step(Rng& r, Log& l) override { kind.step(*it, r, l); }
    bool relocate(Rng& r) override {
        if constexpr (!K::moves) return false;
        else if constexpr (std::is_move_assignable_v<T>) {
            if (r.chance(1, 2)) { // over one that was used before
                K other_kind;
                auto other = other_kind.make(r);
                Log ignored;
                for (int i = 0, n = static_cast<int>(r.below(6)); i < n; ++i) other_kind.step(*other, r, ignored);
                *other = std::move(*it);
                it = std::move(other);
                VF_EV("moved.by.assignment");
                return true;
            }
        }
        if constexpr (K::moves) {
            it = std::make_unique<T>(std::move(*it));
            VF_EV("moved.by.construction");
            return true;
        }
        return false;
    }
    bool exchange(Actor& a) override {
        auto* o = dynamic_cast<Of*>(&a);
        if (!o) return false;
        if constexpr (K::moves && std::is_move_assignable_v<T>) {
            using std::swap;
            swap(*it, *o->it);
            swap(it, o->it);
            VF_EV("swapped");
            return true;
        }
        return false;
    }
    std::unique_ptr<Actor> clone(Rng& r) const override {
        if constexpr (K::copies && std::is_copy_constructible_v<T>) {
            if constexpr (std::is_copy_assignable_v<T>) {
                if (r.chance(1, 2)) {
                    K other_kind;
                    auto other = other_kind.make(r);
                    Log ignored;
                    for (int i = 0, n = static_cast<int>(r.below(6)); i < n; ++i) other_kind.step(*other, r, ignored);
                    *other = *it;
                    VF_EV("copied.by.assignment");
                    return std::make_unique<Of>(*this, std::move(other));
                }
            }
            VF_EV("copied.by.construction");
            return std::make_unique<Of>(*this, std::make_unique<T>(*it));
        }
        return nullptr;
    }
};

std::string bytes(Rng& r, size_t max) {
    std::string s;
    for (size_t i = 0, n = r.below(max + 1); i < n; ++i) s += r.pick({'a', 'b', '\r', '\n', 'c', 'd', 'e', '\n', ';', '\0'});
    return s;
}

// ---- kinds -----------------------------------------------------------------------------------------------------------------------------
struct KRing {
    using type = spn::structure::RingBuffer<int>;
    static constexpr const char* name = "ring buffer";
    static constexpr bool moves = true, copies = false;
    auto make(Rng& r) { return std::make_unique<type>(static_cast<size_t>(r.range(1, 12)), 5); }
    void step(type& b, Rng& r, Log& l) {
        const int x = static_cast<int>(r.range(-1000, 1000));
        int v = 0, many[4] = {x, x + 1, x + 2, x + 3};
        switch (r.below(7)) {
        case 0: l.see(b.push(x)); break;
        case 1: l.see(b.push(x, true)); break;
        case 2: l.see(b.push(many, r.below(5))); break;
        case 3: l.see(b.pop(v)), l.see(v); break;
        case 4: {
            const size_t n = r.below(4);
            const size_t got = b.pop(many, n);
            l.see(got);
            for (size_t i = 0; i < got; ++i) l.see(many[i]);
            break;
        }
        case 5:
            if (r.chance(1, 3)) l.see(b.drop_last(r.range(1, 3)));
            break;
        default: l.see(b.peek_at(v, r.below(3))), l.see(v);
        }
        l.see(b.used_space()), l.see(b.free_space()), l.see(b.full()), l.see(b.empty()), l.see(b.overrun_space()), l.see(b.capacity());
    }
};
struct KLine {
    using type = spn::structure::LineBuffer;
    static constexpr const char* name = "line buffer";
    static constexpr bool moves = true, copies = false;
    auto make(Rng& r) { return std::make_unique<type>(static_cast<size_t>(r.range(2, 30)), r.chance(1, 2) ? "\r\n" : ";"); }
    void step(type& b, Rng& r, Log& l) {
        switch (r.below(5)) {
        case 0:
        case 1: l.see(b.push(std::string_view(bytes(r, 12)))); break;
        case 2:
            if (auto v = b.get_next_line_view()) l.say(*v);
            break;
        case 3: {
            char buf[40] = {};
            const size_t n = b.get_next_line(buf, sizeof buf);
            l.say(std::string_view(buf, n));
            break;
        }
        default: l.see(b.drop_next_line());
        }
        l.say(b.delimiters());
        l.see(b.length_of_next_line()), l.see(b.has_line()), l.see(b.used_space());
    }
};
/// an element that tells whether it is the one that was put in
struct KVector {
    using type = spn::structure::Vector<int>;
    static constexpr const char* name = "vector";
    static constexpr bool moves = true, copies = false;
    auto make(Rng& r) { return std::make_unique<type>(static_cast<size_t>(r.range(1, 10))); }
    void step(type& v, Rng& r, Log& l) {
        const int x = static_cast<int>(r.range(-1000, 1000));
        switch (r.below(8)) {
        case 0:
        case 1:
            if (!v.full()) v.push_back(x);
            break;
        case 2:
            if (!v.full()) v.push_front(x);
            break;
        case 3:
            if (!v.empty()) l.see(v.pop_back());
            break;
        case 4:
            if (!v.empty()) l.see(v.pop_front());
            break;
        case 5:
            if (!v.full() && !v.empty()) v.insert(r.below(v.size()), x);
            break;
        case 6:
            if (!v.empty()) l.see(v.remove(r.below(v.size())));
            break;
        default:
            if (r.chance(1, 6)) v.clear();
        }
        l.see(v.size()), l.see(v.max_size()), l.see(v.full());
        for (const auto& e : v) l.see(e);
        if (!v.empty()) l.see(v.peek_front()), l.see(v.peek_back());
    }
};
struct KOwners {
    using type = spn::structure::Vector<std::shared_ptr<int>>;
    static constexpr const char* name = "vector of owners";
    static constexpr bool moves = true, copies = false;
    auto make(Rng& r) { return std::make_unique<type>(static_cast<size_t>(r.range(1, 6))); }
    void step(type& v, Rng& r, Log& l) {
        switch (r.below(4)) {
        case 0:
        case 1:
            if (!v.full()) v.push_back(std::make_shared<int>(static_cast<int>(r.below(1000))));
            break;
        case 2:
            if (!v.empty()) l.see(*v.pop_back());
            break;
        default:
            if (!v.empty()) l.see(*v.pop_front());
        }
        l.see(v.size());
        for (const auto& e : v) l.see(*e), l.see(e.use_count());
    }
};
struct KArray {
    using type = spn::structure::Array<int>;
    static constexpr const char* name = "array";
    static constexpr bool moves = true, copies = false;
    auto make(Rng& r) { return std::make_unique<type>(static_cast<size_t>(r.range(1, 10)), static_cast<int>(r.below(50))); }
    void step(type& a, Rng& r, Log& l) {
        if (r.chance(1, 10)) a.fill(static_cast<int>(r.below(100)));
        else
            a[r.below(a.max_size())] = static_cast<int>(r.below(1000));
        l.see(a.size()), l.see(a.front()), l.see(a.back());
        for (const auto& e : a) l.see(e);
    }
};
/// vectors and arrays over storage that belongs to somebody else, mixed with ones that own theirs
struct KBorrowed {
    using type = spn::structure::Vector<int>;
    static constexpr const char* name = "borrowed vector";
    static constexpr bool moves = true, copies = false;
    auto make(Rng& r) {
        if (r.chance(1, 3)) return std::make_unique<type>(static_cast<size_t>(8));
        static std::vector<std::unique_ptr<int[]>> kept; // outlives everything that may refer to it
        kept.push_back(std::make_unique<int[]>(8));
        if (kept.size() > 4000) kept.erase(kept.begin(), kept.begin() + 2000);
        return std::make_unique<type>(*reinterpret_cast<int(*)[8]>(kept.back().get()));
    }
    void step(type& v, Rng& r, Log& l) { KVector().step(v, r, l); }
};
struct KStack {
    using type = spn::structure::Stack<int>;
    static constexpr const char* name = "stack";
    static constexpr bool moves = true, copies = false;
    auto make(Rng& r) { return std::make_unique<type>(static_cast<size_t>(r.range(20, 30))); }
    void step(type& s, Rng& r, Log& l) {
        if (r.chance(3, 5) && s.size() < 20) s.push(static_cast<int>(r.below(1000)));
        else if (!s.empty())
            s.pop();
        l.see(s.size()), l.see(s.empty());
        if (!s.empty()) l.see(s.top());
    }
};
struct KPool {
    using type = spn::structure::Pool<int>;
    static constexpr const char* name = "pool";
    static constexpr bool moves = true, copies = false;
    std::vector<std::shared_ptr<int>> held;
    auto make(Rng& r) {
        const int n = static_cast<int>(r.range(1, 5));
        auto p = std::make_unique<type>(static_cast<size_t>(n));
        const int mark = static_cast<int>(r.below(1000)) * 10;
        for (int i = 0; i < n; ++i) p->populate(mark + i);
        return p;
    }
    void step(type& p, Rng& r, Log& l) {
        if (r.chance(3, 5)) {
            auto x = p.acquire();
            l.see(x != nullptr);
            if (x) l.see(*x), held.push_back(std::move(x));
        } else if (!held.empty())
            held.erase(held.begin() + static_cast<long>(r.below(held.size())));
        l.see(p.size()), l.see(held.size());
    }
};
struct KStream {
    using type = spn::io::BufferedStream;
    static constexpr const char* name = "buffered stream";
    static constexpr bool moves = true, copies = false;
    std::shared_ptr<FakeStream> fake = std::make_shared<FakeStream>();
    auto make(Rng& r) {
        return std::make_unique<type>(fake, type::Config{.input_buffer_size = static_cast<size_t>(r.range(2, 40)), .output_buffer_size = static_cast<size_t>(r.range(2, 40)), .delimiters = r.chance(1, 2) ? "\r\n" : ";"});
    }
    void step(type& s, Rng& r, Log& l) {
        switch (r.below(8)) {
        case 0:
            for (char c : bytes(r, 16)) fake->incoming.push_back(static_cast<uint8_t>(c));
            break;
        case 1: l.see(s.pull_in_data()); break;
        case 2: fake->write_window = r.below(20), l.see(s.push_out_data()); break;
        case 3: l.see(s.buffered_write(bytes(r, 10))); break;
        case 4:
            if (auto v = s.get_next_line_view()) l.say(*v);
            break;
        case 5: l.see(s.drop_next_line()); break;
        default:
            if (auto t = s.new_transaction()) {
                l.say(t->incoming());
                for (int i = 0, n = static_cast<int>(r.below(3)); i < n; ++i) {
                    const auto b = bytes(r, 8);
                    if (b.size() < t->outgoing_space_left()) l.see(t->outgoing(b));
                }
                l.see(t->outgoing_space_used());
                if (r.chance(1, 3)) t->abort();
                else if (r.chance(1, 2))
                    t->commit();
                VF_EV("transaction");
            }
        }
        l.see(s.input_buffer_space_used()), l.see(s.output_buffer_space_used()), l.see(s.has_line());
        l.see(fake->delivered.size()), l.say(std::string_view(reinterpret_cast<const char*>(fake->delivered.data()), fake->delivered.size()));
    }
};
struct KMock {
    using type = spn::io::MockStream;
    static constexpr const char* name = "mock stream";
    static constexpr bool moves = false, copies = false; // others hold on to it
    auto make(Rng& r) { return std::make_unique<type>(type::Config{.input_buffer_size = static_cast<size_t>(r.range(20, 40)), .output_buffer_size = static_cast<size_t>(r.range(2, 40))}); }
    void step(type& s, Rng& r, Log& l) {
        uint8_t b = 0;
        switch (r.below(4)) {
        case 0:
            if (s.available() < 10) {
                std::vector<uint8_t> v(r.range(1, 8), static_cast<uint8_t>(r.below(256)));
                s.inject_bytestream(v);
            }
            break;
        case 1: l.see(s.read(b)), l.see(b); break;
        case 2: l.see(s.write(static_cast<uint8_t>(r.below(256)))); break;
        default:
            if (auto v = s.extract_bytestream()) l.say(std::string_view(reinterpret_cast<const char*>(v->data()), v->size()));
        }
        l.see(s.available()), l.see(s.available_for_write());
    }
};

using namespace spn::core;
struct KEvents {
    struct H : EventHandler {
        Log* l = nullptr;
        int me, took = 0;
        H(EventSystem* s, int m) : EventHandler(s), me(m) {}
        void handle_event(const Event& e) override { ++took, l->see(me), l->see(e.id()), l->see(e.data().unsigned_value()), l->see(HAL::millis().raw()); }
    };
    using type = EventSystem;
    static constexpr const char* name = "event system";
    static constexpr bool moves = false, copies = false; // others hold on to it
    std::vector<std::shared_ptr<H>> handlers;
    int waiting = 0;
    auto make(Rng& r) {
        auto s = std::make_unique<type>(type::Config{.events_count = 3, .events_cap = 10, .handler_cap = 3, .delay_between_ticks = false});
        for (int i = 0; i < 5; ++i) {
            handlers.push_back(std::make_shared<H>(s.get(), i));
            s->attach(i < 3 ? i : static_cast<int>(r.below(3)), handlers.back().get());
        }
        return s;
    }
    void step(type& s, Rng& r, Log& l) {
        for (auto& h : handlers) h->l = &l;
        const int id = static_cast<int>(r.below(3));
        const auto in = k_time_ms(r.range(1, 500));
        const auto data = Event::Data(static_cast<uint32_t>(r.below(1000)));
        if (r.chance(1, 2) && waiting < 8) {
            if (r.chance(1, 4)) s.trigger(id, data);
            else
                s.schedule(id, in, data), ++waiting;
        } else {
            for (auto& h : handlers) h->took = 0;
            s.loop();
            for (auto& h : handlers) waiting -= h->me < 3 ? h->took : 0;
        }
        l.say(s.pipeline_as_string());
        VF_EV("events");
    }
};
struct KPipe {
    using type = spn::eventsystem::Pipeline;
    static constexpr const char* name = "pipeline";
    static constexpr bool moves = true, copies = false;
    auto make(Rng& r) { return std::make_unique<type>(static_cast<size_t>(r.range(20, 60))); }
    void step(type& p, Rng& r, Log& l) {
        if (r.chance(3, 4) && p.pipe().size() < p.pipe().max_size()) p.push(std::make_shared<spn::eventsystem::Future>(k_time_ms(r.range(1, 400))));
        else if (p.contains_expired_futures())
            l.see(p.expire()->future().raw());
        l.see(p.contains_futures()), l.see(p.contains_expired_futures());
        if (p.contains_futures()) l.see(p.time_until_next_future().raw());
        l.say(p.to_string());
    }
};
struct KPid {
    using type = spn::controller::PID;
    static constexpr const char* name = "PID";
    static constexpr bool moves = true, copies = true;
    auto make(Rng& r) {
        type::Config c;
        c.tunings = type::Tunings{.Kp = static_cast<float>(r.real(0, 10)), .Ki = static_cast<float>(r.real(0, 1)), .Kd = static_cast<float>(r.real(0, 1))};
        c.output_lower_limit = -static_cast<float>(r.real(1, 200)), c.output_upper_limit = static_cast<float>(r.real(1, 200));
        c.sample_interval = k_time_ms(r.range(10, 300));
        c.proportionality = r.chance(1, 2) ? type::Proportionality::ON_ERROR : type::Proportionality::ON_MEASUREMENT;
        c.direction = r.chance(1, 2) ? type::Direction::FORWARD : type::Direction::REVERSE;
        auto p = std::make_unique<type>(c);
        p->initialize();
        p->set_target_setpoint(static_cast<float>(r.real(-20, 20)));
        return p;
    }
    void step(type& p, Rng& r, Log& l) {
        if (r.chance(1, 12)) p.initialize();
        if (r.chance(1, 10)) p.set_target_setpoint(static_cast<float>(r.real(-20, 20)));
        if (r.chance(1, 10)) p.set_tunings(type::Tunings{.Kp = static_cast<float>(r.real(0, 10)), .Ki = 0.2f});
        p.new_reading(static_cast<float>(r.real(-30, 30)));
        l.see(p.response()), l.see(p.error()), l.see(p.setpoint()), l.see(p.tunings().Kp), l.see(p.tunings().Kd);
    }
};
struct KTuner {
    using type = spn::controller::PIDAutotuner;
    static constexpr const char* name = "autotuner";
    static constexpr bool moves = true, copies = true;
    auto make(Rng& r) {
        auto t = std::make_unique<type>();
        t->set_target_input_value(static_cast<float>(r.range(-2, 2)));
        t->set_hysteresis(0.25f);
        t->setOutputRange(-1, static_cast<float>(r.range(1, 100)));
        t->set_loop_interval(k_time_ms(100));
        t->set_tuning_cycles(6);
        t->start_tuning_loop(HAL::millis());
        return t;
    }
    void step(type& t, Rng& r, Log& l) {
        l.see(t.do_autotune(static_cast<float>(r.real(-5, 5)), HAL::millis()));
        l.see(t.get_cycle()), l.see(t.get_Kp()), l.see(t.get_Ki()), l.see(t.get_Kd()), l.see(t.is_finished());
    }
};
struct KLatch {
    using type = spn::controller::SRLatch;
    static constexpr const char* name = "latch";
    static constexpr bool moves = true, copies = true;
    auto make(Rng& r) {
        const i64 x = r.range(0, 300);
        return std::make_unique<type>(type::Config{.high = 5, .low = static_cast<float>(r.range(0, 5)), .minimal_on_time = k_time_ms(r.range(0, 200)), .maximal_on_time = k_time_ms(r.chance(1, 2) ? 200 + x : 0), .minimal_off_time = k_time_ms(r.range(0, 200)), .maximal_off_time = k_time_ms(r.chance(1, 2) ? 200 + x : 0)});
    }
    void step(type& s, Rng& r, Log& l) {
        s.new_reading(static_cast<float>(r.range(-2, 8)));
        l.see(s.response());
    }
};
template<typename F>
struct KFilter {
    using type = F;
    static constexpr bool moves = true, copies = true;
    void step(F& f, Rng& r, Log& l) {
        if (r.chance(1, 15)) f.reset_to(static_cast<float>(r.unit()));
        const float x = static_cast<float>(r.unit());
        if (r.chance(1, 2)) l.see(f.value(x));
        else
            f.new_sample(x);
        l.see(f.value());
    }
};
using namespace spn::filter;
struct KBand : KFilter<BandPass<float>> {
    static constexpr const char* name = "band pass";
    auto make(Rng& r) {
        return std::make_unique<type>(type::Config{.mode = r.chance(1, 2) ? type::Mode::RELATIVE : type::Mode::ABSOLUTE, .mantissa = 1, .decades = static_cast<float>(r.real(-2, -1)), .offset = static_cast<float>(r.real(-0.1, 0.5)), .rejection_limit = static_cast<int>(r.below(5)), .throw_on_rejection_limit = false});
    }
};
struct KEwma : KFilter<EWMA<float>> {
    static constexpr const char* name = "moving average";
    auto make(Rng& r) { return r.chance(1, 3) ? type::Short() : std::make_unique<type>(type::Config{.K = static_cast<float>(r.range(1, 20))}); }
};
struct KInvert : KFilter<Invert<float>> {
    static constexpr const char* name = "inverter";
    auto make(Rng& r) { return std::make_unique<type>(type::Config{.input_lower_limit = -static_cast<float>(r.unit()), .input_upper_limit = 1 + static_cast<float>(r.unit())}); }
};
struct KMapped : KFilter<MappedRange<float>> {
    static constexpr const char* name = "mapped range";
    auto make(Rng& r) { return std::make_unique<type>(type::Config{.input_lower_limit = 0, .input_upper_limit = static_cast<float>(r.real(0.5, 2)), .output_lower_limit = static_cast<float>(r.real(-9, 0)), .output_upper_limit = 100}); }
};
struct KPass : KFilter<Passthrough<float>> {
    static constexpr const char* name = "passthrough";
    auto make(Rng&) { return std::make_unique<type>(type::Config{}); }
};
struct KFilters {
    using type = spn::filter::Stack<float>;
    static constexpr const char* name = "filter stack";
    static constexpr bool moves = true, copies = false;
    auto make(Rng& r) {
        auto s = std::make_unique<type>(4);
        s->attach_filter(KEwma().make(r));
        s->attach_filter(KMapped().make(r));
        s->attach_filter(KEwma().make(r));
        return s;
    }
    void step(type& s, Rng& r, Log& l) {
        switch (r.below(10)) {
        case 0: s.reset_to(static_cast<float>(r.unit())); break;
        case 1:
            if (s.filter_slots_occupied() < s.filter_slots()) s.attach_filter(KEwma().make(r));
            break;
        case 2:
        case 3:
            if (s.filter_slots_occupied() > 0) l.see(s.detach_filter(static_cast<uint8_t>(r.below(s.filter_slots_occupied()))) != nullptr);
            break;
        default: l.see(s.value(static_cast<float>(r.unit())));
        }
        l.see(s.value()), l.see(s.filter_slots()), l.see(s.filter_slots_occupied());
    }
};
using namespace spn::structure::time;
struct KTimer {
    using type = Timer;
    static constexpr const char* name = "timer";
    static constexpr bool moves = true, copies = true;
    auto make(Rng&) { return std::make_unique<type>(); }
    void step(type& t, Rng& r, Log& l) {
        if (r.chance(1, 5)) t.reset();
        l.see(t.time_since_last(r.chance(1, 3)).raw());
    }
};
struct KAlarm {
    using type = AlarmTimer;
    static constexpr const char* name = "alarm";
    static constexpr bool moves = true, copies = true;
    auto make(Rng& r) { return std::make_unique<type>(k_time_ms(r.range(0, 2000))); }
    void step(type& t, Rng&, Log& l) { l.see(t.expired()), l.see(t.future().raw()), l.see(t.time_from_now().raw()); }
};
struct KInterval {
    using type = IntervalTimer;
    static constexpr const char* name = "interval";
    static constexpr bool moves = true, copies = true;
    auto make(Rng& r) { return std::make_unique<type>(k_time_ms(r.range(1, 300)), r.chance(1, 2)); }
    void step(type& t, Rng& r, Log& l) {
        if (r.chance(1, 15)) t.reset();
        l.see(t.expired()), l.see(t.future().raw()), l.see(t.time_until_next().raw()), l.see(t.interval().raw());
    }
};
struct KFuture {
    using type = spn::eventsystem::Future;
    static constexpr const char* name = "future";
    static constexpr bool moves = true, copies = true;
    auto make(Rng& r) { return std::make_unique<type>(k_time_ms(r.range(1, 1000))); }
    void step(type& f, Rng& r, Log& l) {
        if (r.chance(1, 8)) f.reschedule(k_time_ms(r.range(1, 500)));
        l.see(f.expired()), l.see(f.future().raw()), l.see(f.time_until_future().raw());
    }
};
struct KSchedule {
    using type = Schedule;
    static constexpr const char* name = "schedule";
    static constexpr bool moves = true, copies = false;
    auto make(Rng& r) {
        const auto from = k_time_s(r.range(0, 40000)), len = k_time_s(r.range(1, 20000));
        const std::initializer_list<type::Block> blocks{{from, len, static_cast<float>(r.unit())}, {k_time_s(60000 + r.range(0, 20000)), k_time_s(r.range(1, 20000)), 2.0f}};
        return std::make_unique<type>(blocks);
    }
    void step(type& s, Rng& r, Log& l) {
        const auto t = k_time_s(r.chance(1, 2) ? r.range(0, 9) * 9000 : r.range(0, 86399));
        l.see(s.value_at(t)), l.see(s.start_of_next_block(t).raw());
    }
};
struct KDate {
    using type = DateTime;
    static constexpr const char* name = "date";
    static constexpr bool moves = true, copies = true;
    auto make(Rng& r) { return std::make_unique<type>(static_cast<time_t>(r.range(0, 4000000000ll))); }
    void step(type& d, Rng& r, Log& l) {
        char buf[40] = {};
        l.see(d.getUnixTime()), l.see(d.getY2kTime()), l.see(d.getYear()), l.see(d.getYearDay()), l.see(d.getSecond());
        l.see(d.strf_DateTime(buf, sizeof buf)), l.say(buf);
        if (r.chance(1, 5)) d = DateTime(static_cast<time_t>(r.range(0, 4000000000ll)));
    }
};
struct KText {
    using type = spn::structure::StaticString;
    static constexpr const char* name = "static string";
    static constexpr bool moves = false, copies = false; // cannot be
    auto make(Rng& r) { return std::make_unique<type>(static_cast<size_t>(r.range(8, 30))); }
    void step(type& s, Rng& r, Log& l) {
        switch (r.below(4)) {
        case 0: {
            const auto b = bytes(r, 8);
            if (!b.empty()) std::memcpy(s.data(b.size()), b.data(), b.size());
            s.set_size(b.size());
            break;
        }
        case 1: s.lstrip("a\n"); break;
        case 2: s.rstrip("\r\nb"); break;
        default: s.set_size(std::min(s.size(), static_cast<size_t>(r.below(8))));
        }
        l.see(s.size()), l.say(s.view()), l.see(s.starts_with("a")), l.see(s.ends_with("\n"));
    }
};
struct KResult {
    using type = spn::structure::Result<int, std::string, double>;
    static constexpr const char* name = "result";
    static constexpr bool moves = true, copies = true;
    auto make(Rng& r) { return std::make_unique<type>(type(static_cast<int>(r.below(100)))); }
    void step(type& x, Rng& r, Log& l) {
        switch (r.below(6)) {
        case 0: x = type(static_cast<int>(r.below(100))); break;
        case 1: x = type::failed("because of something rather long " + std::to_string(r.below(1000))); break;
        case 2: x = type::intermediary(r.unit()); break;
        default: break;
        }
        x = x.chain([&](double& d) { return d > 0.5 ? type(static_cast<int>(d * 1000)) : type::intermediary(d + 0.25); });
        l.see(x.is_success()), l.see(x.is_failed()), l.see(x.is_intermediary());
        if (x.is_success()) l.see(x.value());
        if (x.is_failed()) l.say(x.error_value());
        if (x.is_intermediary()) l.see(x.intermediary_value());
    }
};
struct KPin {
    struct Pin : spn::platform::DigitalOutput<Pin> {
        int told = -1, count = 0;
        void initialize_impl() { told = -2; }
        void set_state_impl(LogicalState s) { told = static_cast<int>(s), ++count; }
    };
    using type = Pin;
    static constexpr const char* name = "digital output";
    static constexpr bool moves = true, copies = true;
    auto make(Rng& r) {
        auto p = std::make_unique<type>();
        p->initialize(r.chance(1, 2));
        return p;
    }
    void step(type& p, Rng& r, Log& l) {
        if (r.chance(1, 2)) p.flip();
        else
            p.set_state(r.chance(1, 2));
        l.see(static_cast<int>(p.state())), l.see(p.told);
    }
};
struct KLevel {
    struct Out : spn::platform::AnalogueOutput<Out> {
        float told = -1;
        int count = 0;
        void set_value_impl(float v) { told = v, ++count; }
    };
    using type = Out;
    static constexpr const char* name = "analogue output";
    static constexpr bool moves = true, copies = true;
    auto make(Rng&) { return std::make_unique<type>(); }
    void step(type& o, Rng& r, Log& l) {
        if (r.chance(1, 3)) o.fade_to(static_cast<float>(r.unit()), 0.2f, k_time_ms(0));
        else
            o.set_value(static_cast<float>(r.unit()));
        l.see(o.value()), l.see(o.told), l.see(o.count);
    }
};

using Maker = std::unique_ptr<Actor> (*)(Rng&);
template<typename K>
std::unique_ptr<Actor> make(Rng& r) {
    return std::make_unique<Of<K>>(r);
}
const Maker kMakers[] = {make<KRing>, make<KLine>, make<KVector>, make<KOwners>, make<KBorrowed>, make<KArray>, make<KStack>, make<KPool>, make<KStream>, make<KMock>, make<KEvents>,
                         make<KPipe>, make<KPid>, make<KTuner>, make<KLatch>, make<KBand>, make<KEwma>, make<KInvert>, make<KMapped>, make<KPass>, make<KFilters>,
                         make<KTimer>, make<KAlarm>, make<KInterval>, make<KFuture>, make<KSchedule>, make<KDate>, make<KText>, make<KResult>, make<KPin>, make<KLevel>};
constexpr size_t kKinds = sizeof kMakers / sizeof *kMakers;

struct Plan {
    std::vector<Maker> makers;
    std::vector<u64> seeds;
    struct Step {
        i64 wait;
        int who;
    };
    std::vector<Step> steps;
    i64 start;
};
/// the histories of some of the actors (all, or one), untouched
std::vector<Log> run_alone(const Plan& p, int who) {
    vf::set_clock_us(p.start);
    Rng r(p.seeds[static_cast<size_t>(who)]);
    auto a = p.makers[static_cast<size_t>(who)](r);
    std::vector<Log> logs;
    Log l;
    for (const auto& s : p.steps) {
        HAL::delay(k_time_ms(s.wait));
        if (s.who == who) a->step(r, l), logs.push_back(l);
    }
    return logs;
}
void run(Rng& r, bool same_kind) {
    Plan p;
    p.start = r.chance(1, 3) ? 0 : r.range(0, 365ll * 86400) * 1000000;
    const int n = static_cast<int>(r.range(2, 4));
    const size_t kind = r.below(kKinds);
    for (int i = 0; i < n; ++i) {
        p.makers.push_back(kMakers[same_kind ? kind : r.below(kKinds)]);
        p.seeds.push_back(r.next());
    }
    const i64 pace = r.pick<i64>({0, 20, 100, 1000, 1000, 86400000ll * 60});
    for (int i = 0, k = static_cast<int>(r.range(10, 25)) * n; i < k; ++i) p.steps.push_back({r.chance(1, 2) ? 0 : r.range(0, pace), static_cast<int>(r.below(static_cast<u64>(n)))});

    std::vector<std::vector<Log>> alone;
    for (int i = 0; i < n; ++i) alone.push_back(run_alone(p, i));

    // and now all of them
    vf::set_clock_us(p.start);
    std::vector<std::unique_ptr<Actor>> actors;
    std::vector<Rng> rngs;
    std::vector<Log> logs(static_cast<size_t>(n));
    std::vector<size_t> at(static_cast<size_t>(n), 0);
    for (int i = 0; i < n; ++i) {
        rngs.emplace_back(p.seeds[static_cast<size_t>(i)]);
        actors.push_back(p.makers[static_cast<size_t>(i)](rngs.back()));
        vf::op("%s%s", i ? "," : "", actors.back()->name());
    }
    struct Copy {
        std::unique_ptr<Actor> a;
        bool follows; // does what its original does; others do something else
        Rng r;
        Log l;
    };
    std::vector<std::vector<Copy>> copies(static_cast<size_t>(n));
    const bool disturb = r.chance(4, 5);
    int moved = 0, copied = 0;
    for (const auto& s : p.steps) {
        HAL::delay(k_time_ms(s.wait));
        const auto w = static_cast<size_t>(s.who);
        const char* did = "";
        if (disturb) {
            if (r.chance(1, 6) && actors[w]->relocate(r)) ++moved, did = " (moved before)", vf::op(" move%zu", w);
            if (r.chance(1, 8)) {
                const size_t o = r.below(static_cast<u64>(n));
                if (o != w && actors[w]->exchange(*actors[o])) ++moved, did = " (swapped before)", vf::op(" swap%zu,%zu", w, o);
            }
            if (r.chance(1, 8) && copies[w].size() < 3) {
                if (auto c = actors[w]->clone(r)) {
                    const bool follows = r.chance(1, 2);
                    copies[w].push_back({std::move(c), follows, follows ? rngs[w] : Rng(r.next()), logs[w]});
                    ++copied, vf::op(" copy%zu%s", w, follows ? "" : "*");
                    if (r.chance(1, 4)) { // the copy takes the place of the original, which is gone
                        if (follows) std::swap(actors[w], copies[w].back().a), copies[w].pop_back(), did = " (replaced by its copy before)";
                    }
                }
            }
            if (r.chance(1, 20) && !copies[w].empty()) copies[w].pop_back();
            for (auto& c : copies[w])
                if (!c.follows) c.a->step(c.r, c.l);
        }
        vf::op(" %zu", w);
        actors[w]->step(rngs[w], logs[w]);
        const Log& want = alone[w][at[w]++];
        VF_CHECK(logs[w] == want, actors[w]->name(), "step %zu of the %s%s shows something else than when it was alone", at[w] - 1, actors[w]->name(), did);
        for (auto& c : copies[w]) {
            if (!c.follows) continue;
            c.a->step(c.r, c.l);
            VF_CHECK(c.l == want, "copy", "a copy of the %s shows something else than its original at step %zu", actors[w]->name(), at[w] - 1);
            VF_EV("copy.compared");
        }
        vf::state(want.h);
        VF_EV("step.compared");
    }
    if (same_kind) VF_EV("one.kind");
    if (moved + copied || !disturb) vf::nontrivial();
}
} // namespace

VF_SCENARIO(one_kind, 0.7) { run(r, true); }
VF_SCENARIO(mixed, 0.5) { run(r, false); }
