// C38: a failure thrown through a component loses nothing, repeats nothing and leaves the component working. The pieces that the user supplies
// (event handlers, streams, process functions, functions given to results, filters, outputs, exception handlers) throw at chosen calls.
#include "vf.hpp"
#include "fake_stream.hpp"
#include "spine/platform/hal.hpp"
#include "spine/controller/pid.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/io/stream/buffered_stream.hpp"
#include "spine/structure/linebuffer.hpp"
#include "spine/structure/pool.hpp"
#include "spine/structure/result.hpp"
#include "spine/structure/stack.hpp"
#include "spine/structure/static_string.hpp"
#include "spine/structure/time/schedule.hpp"

using vf::i64;
using vf::Rng;
using vf::u64;
namespace {
/// what the supplied pieces throw
struct Fault {
    int id;
};
int g_fault_id = 0;
[[noreturn]] void throw_fault() {
    VF_EV("fault");
    throw Fault{++g_fault_id};
}
/// runs f; true if it ended by the fault that was thrown last
template<typename F>
bool faulted(F&& f) {
    const int before = g_fault_id;
    try {
        f();
    } catch (const Fault& e) {
        VF_CHECK(e.id == g_fault_id && e.id == before + 1, "other-fault", "fault %d was caught, %d was thrown last, %d before", e.id, g_fault_id, before);
        return true;
    }
    VF_CHECK(g_fault_id == before, "swallowed", "a fault was thrown and nobody was told");
    return false;
}
} // namespace

// ---- events ----------------------------------------------------------------------------------------------------------------------------
namespace {
using namespace spn::core;
struct Delivery {
    int handler;
    size_t id;
    uint32_t data;
    bool operator==(const Delivery& o) const { return handler == o.handler && id == o.id && data == o.data; }
};
struct World {
    std::vector<Delivery> seen;
    int fail_in = -1; // the delivery that fails, counted from now
};
struct H : EventHandler {
    World& w;
    int me;
    H(EventSystem* s, World& wo, int m) : EventHandler(s), w(wo), me(m) {}
    void handle_event(const Event& e) override {
        w.seen.push_back({me, e.id(), e.data().unsigned_value()});
        if (w.fail_in >= 0 && w.fail_in-- == 0) throw_fault();
    }
};
} // namespace
VF_SCENARIO(events, 1.0) {
    vf::set_clock_us(r.range(0, 1000000000));
    const int cap = static_cast<int>(r.range(2, 8));
    const size_t ids = static_cast<size_t>(r.range(1, 3));
    EventSystem s(EventSystem::Config{.events_count = ids, .events_cap = static_cast<size_t>(cap), .handler_cap = 4, .delay_between_ticks = r.chance(1, 4)});
    World w;
    std::vector<std::unique_ptr<H>> hs;
    std::vector<std::vector<int>> on(ids);
    for (size_t id = 0; id < ids; ++id)
        for (int i = 0, n = static_cast<int>(r.range(1, 3)); i < n; ++i) {
            hs.push_back(std::make_unique<H>(&s, w, static_cast<int>(hs.size())));
            s.attach(id, hs.back().get());
            on[id].push_back(hs.back()->me);
        }
    struct Due {
        i64 at;
        size_t id;
        uint32_t data;
    };
    std::vector<Due> due; // in firing order
    uint32_t serial = 0;
    auto now = [] { return HAL::millis().raw(); };
    // what has to be seen, given the delivery that fails
    auto expect = [&](std::vector<std::pair<size_t, uint32_t>>& fire, int fail_in, size_t& fired) {
        std::vector<Delivery> want;
        fired = 0;
        for (auto& [id, data] : fire) {
            ++fired;
            for (int h : on[id]) {
                want.push_back({h, id, data});
                if (fail_in >= 0 && fail_in-- == 0) return want;
            }
        }
        return want;
    };
    int faults = 0;
    for (int i = 0, n = static_cast<int>(r.range(10, 30)); i < n; ++i) {
        const bool fail = faults < 4 && r.chance(1, 3);
        const size_t id = r.below(ids);
        switch (r.below(4)) {
        case 0: {
            if (static_cast<int>(due.size()) >= cap) break;
            const i64 in = r.range(1, 60);
            s.schedule(id, k_time_ms(in), Event::Data(++serial));
            auto it = due.begin();
            while (it != due.end() && it->at <= now() + in) ++it;
            due.insert(it, {now() + in, id, serial});
            vf::op("s%zu+%lld ", id, (long long)in);
            break;
        }
        case 1: {
            if (static_cast<int>(due.size()) >= cap) break; // triggering takes an event from the store
            w.seen.clear(), w.fail_in = fail ? static_cast<int>(r.below(3)) : -1;
            std::vector<std::pair<size_t, uint32_t>> fire{{id, ++serial}};
            size_t fired;
            const auto want = expect(fire, w.fail_in, fired);
            const bool must = w.fail_in >= 0 && w.fail_in < static_cast<int>(on[id].size());
            vf::op("t%zu!%d ", id, w.fail_in);
            const bool did = faulted([&] { s.trigger(id, Event::Data(serial)); });
            VF_CHECK(did == must, "fault-passes", "a handler %s, the caller %s", must ? "failed" : "did not fail", did ? "was told" : "was not told");
            VF_CHECK(w.seen == want, "trigger-handlers", "%zu handlers were called instead of %zu", w.seen.size(), want.size());
            faults += did;
            if (did) VF_EV("trigger.fault");
            break;
        }
        default: {
            HAL::delay(k_time_ms(r.pick<i64>({0, 1, 10, 30, 100})));
            w.seen.clear(), w.fail_in = fail ? static_cast<int>(r.below(5)) : -1;
            std::vector<std::pair<size_t, uint32_t>> fire;
            for (auto& d : due)
                if (d.at <= now()) fire.push_back({d.id, d.data});
            size_t fired;
            const auto want = expect(fire, w.fail_in, fired);
            size_t deliveries = 0;
            for (auto& [fid, data] : fire) deliveries += on[fid].size();
            const bool must = w.fail_in >= 0 && static_cast<size_t>(w.fail_in) < deliveries;
            vf::op("l%zu!%d ", fire.size(), w.fail_in);
            const bool did = faulted([&] { s.loop(); });
            VF_CHECK(did == must, "fault-passes", "a handler %s, the caller of the loop %s", must ? "failed" : "did not fail", did ? "was told" : "was not told");
            VF_CHECK(w.seen == want, "loop-handlers", "%zu deliveries instead of %zu (%zu events due%s)", w.seen.size(), want.size(), fire.size(), must ? ", one fails" : "");
            due.erase(due.begin(), due.begin() + static_cast<long>(fired));
            faults += did;
            if (did) { vf::nontrivial(); VF_EV("loop.fault"); }
            if (!did && faults && !fire.empty()) VF_EV("loop.after.fault");
        }
        }
        w.fail_in = -1;
    }
    // whatever was left fires, and no capacity is gone
    HAL::delay(k_time_ms(200));
    w.seen.clear();
    s.loop();
    size_t k = 0;
    for (auto& d : due)
        for (int h : on[d.id]) {
            VF_CHECK(k < w.seen.size() && w.seen[k] == (Delivery{h, d.id, d.data}), "left-behind", "an event that was due did not fire after %d faults", faults);
            ++k;
        }
    VF_CHECK(k == w.seen.size(), "repeated", "%zu deliveries instead of %zu at the end", w.seen.size(), k);
    w.seen.clear();
    size_t all = 0;
    for (int i = 0; i < cap; ++i) s.schedule(i % ids, k_time_ms(1 + i), Event::Data(static_cast<uint32_t>(i))), all += on[static_cast<size_t>(i) % ids].size();
    HAL::delay(k_time_ms(200));
    s.loop();
    VF_CHECK(w.seen.size() == all, "capacity", "%zu deliveries instead of %zu with all %d events in use, after %d faults", w.seen.size(), all, cap, faults);
    vf::state(vf::mix(static_cast<u64>(cap * 100 + faults)));
}

// ---- streams and transactions ----------------------------------------------------------------------------------------------------------
namespace {
/// throws where its script says so, before it does anything
struct Breaking : FakeStream {
    mutable int in = -1; // the call that fails, counted from now; any kind of call counts
    void tick() const {
        if (in >= 0 && in-- == 0) throw_fault();
    }
    using FakeStream::read;
    using FakeStream::write;
    bool read(uint8_t& v) override { return tick(), FakeStream::read(v); }
    bool write(const uint8_t v) override { return tick(), FakeStream::write(v); }
    size_t read(uint8_t* buffer, size_t length) override { return tick(), FakeStream::read(buffer, length); }
    size_t write(const uint8_t* const buffer, size_t length) override { return tick(), FakeStream::write(buffer, length); }
    size_t available() const override { return tick(), FakeStream::available(); }
    size_t available_for_write() const override { return tick(), FakeStream::available_for_write(); }
};
} // namespace
VF_SCENARIO(streams, 1.2) {
    auto io = std::make_shared<Breaking>();
    const size_t in_cap = static_cast<size_t>(r.range(4, 40)), out_cap = static_cast<size_t>(r.range(4, 40));
    spn::io::BufferedStream s(io, spn::io::BufferedStream::Config{.input_buffer_size = in_cap, .output_buffer_size = out_cap, .delimiters = "\n"});
    std::deque<uint8_t> arrived; // everything that has not been taken out yet, in the stream or the buffer
    std::deque<uint8_t> written; // everything written that was not delivered
    uint8_t next_in = 0, next_out = 0;
    size_t told = 0;
    int faults = 0;
    vf::op("%zu %zu:", in_cap, out_cap);
    for (int i = 0, n = static_cast<int>(r.range(10, 40)); i < n; ++i) {
        const bool fail = faults < 5 && r.chance(1, 3);
        io->in = -1;
        switch (r.below(6)) {
        case 0:
            for (int k = 0, c = static_cast<int>(r.range(1, 8)); k < c && arrived.size() < in_cap; ++k) { // never more than fits
                uint8_t b = r.chance(1, 4) ? '\n' : static_cast<uint8_t>('0' + (next_in++ % 70));
                io->incoming.push_back(b), arrived.push_back(b);
            }
            vf::op("a");
            break;
        case 1: {
            const size_t before = s.input_buffer_space_used(), waiting = io->incoming.size();
            if (fail) io->in = static_cast<int>(r.below(10));
            vf::op("<%d", io->in);
            size_t got = 0;
            const bool did = faulted([&] { got = s.pull_in_data(); });
            io->in = -1;
            const size_t taken = waiting - io->incoming.size();
            VF_CHECK(s.input_buffer_space_used() == before + taken, "input-lost", "%zu bytes were taken from the stream, %zu arrived in the buffer%s", taken, s.input_buffer_space_used() - before, did ? " (the stream failed)" : "");
            if (!did) VF_CHECK(got == taken && io->incoming.empty(), "input-left", "%zu of %zu bytes were taken, reported %zu", taken, waiting, got);
            if (did) { ++faults; vf::nontrivial(); VF_EV("pull.fault"); }
            if (!did && faults && taken) VF_EV("pull.after.fault");
            break;
        }
        case 2: {
            std::string b;
            for (int k = 0, c = static_cast<int>(r.range(1, 8)); k < c && written.size() + b.size() < out_cap; ++k) b += static_cast<char>('0' + (next_out++ % 70));
            VF_CHECK(s.buffered_write(b) == b.size(), "write-refused", "a write of %zu bytes was cut short", b.size());
            for (char c : b) written.push_back(static_cast<uint8_t>(c));
            vf::op("w%zu", b.size());
            break;
        }
        case 3: {
            io->write_window = r.below(12);
            if (fail) io->in = static_cast<int>(r.below(10));
            vf::op(">%d", io->in);
            const size_t window = io->write_window;
            size_t put = 0;
            const bool did = faulted([&] { put = s.push_out_data(); });
            io->in = -1;
            const size_t went = io->delivered.size() - told;
            VF_CHECK(went <= written.size(), "output-repeated", "%zu bytes went out, %zu were waiting", went, written.size());
            for (size_t k = 0; k < went; ++k) {
                VF_CHECK(io->delivered[told + k] == written.front(), "output-order", "byte %zu went out as %d instead of %d%s", told + k, io->delivered[told + k], written.front(), faults + did ? " (after a failure of the stream)" : "");
                written.pop_front();
            }
            told += went;
            VF_CHECK(s.output_buffer_space_used() == written.size(), "output-lost", "%zu bytes are waiting instead of %zu%s", s.output_buffer_space_used(), written.size(), did ? " (the stream failed)" : "");
            if (!did) VF_CHECK(put == went && (went == window || written.empty()), "output-left", "%zu bytes went out, reported %zu, room for %zu", went, put, window);
            if (did) { ++faults; vf::nontrivial(); VF_EV("push.fault"); }
            if (!did && faults && went) VF_EV("push.after.fault");
            break;
        }
        case 4: { // a transaction that is left by a failure ends as if it had gone out of scope
            if (!s.has_line()) break;
            std::string line, reply;
            for (uint8_t b : arrived) {
                if (b == '\n') break;
                line += static_cast<char>(b);
            }
            bool aborted = false;
            const int leave = static_cast<int>(r.below(4));
            vf::op("t%d", leave);
            const bool did = faulted([&] {
                auto t = s.new_transaction();
                VF_CHECK(t && t->incoming() == line, "line", "the line is '%.*s' instead of '%s'", t ? (int)t->incoming().size() : 0, t ? t->incoming().data() : "", line.c_str());
                if (leave == 0) throw_fault();
                for (int k = 0, c = static_cast<int>(r.range(1, 3)); k < c && t->outgoing_space_left() > 1; ++k) {
                    const char b = static_cast<char>('0' + (next_out++ % 70));
                    if (t->outgoing(b)) reply += b;
                }
                if (leave == 1) throw_fault();
                if (leave == 2) {
                    t->abort(), aborted = true;
                    throw_fault();
                }
                t->commit();
                if (r.chance(1, 2)) throw_fault();
            });
            if (!aborted)
                for (char c : reply) written.push_back(static_cast<uint8_t>(c));
            arrived.erase(arrived.begin(), arrived.begin() + static_cast<long>(line.size() + 1));
            VF_CHECK(s.input_buffer_space_used() + io->incoming.size() == arrived.size(), "transaction-line", "%zu bytes are left of the input instead of %zu", s.input_buffer_space_used() + io->incoming.size(), arrived.size());
            VF_CHECK(s.output_buffer_space_used() == written.size(), "transaction-reply", "%zu bytes are waiting to go out instead of %zu", s.output_buffer_space_used(), written.size());
            if (did) { ++faults; vf::nontrivial(); VF_EV("transaction.fault"); }
            break;
        }
        default: {
            char buf[64];
            std::string line;
            for (uint8_t b : arrived) {
                if (b == '\n') break;
                line += static_cast<char>(b);
            }
            if (!s.has_line()) {
                if (arrived.size() >= in_cap && io->incoming.empty()) { // full, without a line: make room
                    bool any = false;
                    for (uint8_t b : arrived) any |= b == '\n';
                    VF_CHECK(!any, "line-hidden", "a complete line is not found");
                    return;
                }
                break;
            }
            const size_t got = s.get_next_line(buf, sizeof buf);
            VF_CHECK(std::string_view(buf, got) == line, "line", "the line is '%.*s' instead of '%s'", (int)got, buf, line.c_str());
            arrived.erase(arrived.begin(), arrived.begin() + static_cast<long>(line.size() + 1));
            vf::op("g");
            if (faults) VF_EV("line.after.fault");
        }
        }
    }
    vf::state(vf::mix(static_cast<u64>(told * 100 + faults)));
}

// ---- results ---------------------------------------------------------------------------------------------------------------------------
VF_SCENARIO(results, 0.5) {
    using R = spn::structure::Result<std::vector<int>, std::string, std::shared_ptr<int>>;
    const int kind = static_cast<int>(r.below(3));
    const std::vector<int> good{1, 2, static_cast<int>(r.below(100))};
    const std::string bad = "something that went wrong long ago " + std::to_string(r.below(100));
    const auto part = std::make_shared<int>(static_cast<int>(r.below(100)));
    R x = kind == 0 ? R(good) : kind == 1 ? R::failed(bad) : R::intermediary(part);
    const char* where = "";
    int called = 0;
    auto boom = [&](auto&&...) { ++called, throw_fault(); };
    auto intact = [&](bool did, bool must) {
        VF_CHECK(did == must, "fault-passes", "%s: the function %s", where, must ? "failed and the caller was not told" : "was called");
        VF_CHECK(called == (must ? 1 : 0), "calls", "%s: the function was called %d times", where, called);
        VF_CHECK(x.is_success() == (kind == 0) && x.is_failed() == (kind == 1) && x.is_intermediary() == (kind == 2), "outcome", "%s: the outcome changed when a function failed", where);
        VF_CHECK(kind != 0 || x.value() == good, "value", "%s: the value is gone", where);
        VF_CHECK(kind != 1 || x.error_value() == bad, "error", "%s: the error is '%s'", where, x.error_value().c_str());
        VF_CHECK(kind != 2 || x.intermediary_value() == part, "intermediary", "%s: the intermediary value is gone", where);
        called = 0;
        if (did) { vf::nontrivial(); VF_EV("result.fault"); }
    };
    vf::op("kind%d", kind);
    for (int i = 0; i < 3; ++i) {
        const int f = static_cast<int>(r.below(8));
        vf::op(" %d", f);
        switch (f) {
        case 0: where = "chain", intact(faulted([&] { x = x.chain([&](std::shared_ptr<int>& p) -> R { return boom(p), R(good); }); }), kind == 2); break;
        case 1: where = "map", intact(faulted([&] { (void)x.map([&](const std::vector<int>& p) { return boom(p), 1; }); }), kind == 0); break;
        case 2: where = "map_error", intact(faulted([&] { (void)x.map_error([&](const std::string& p) { return boom(p), 1.0; }); }), kind == 1); break;
        case 3: where = "map_intermediary", intact(faulted([&] { (void)x.map_intermediary([&](const std::shared_ptr<int>& p) { return boom(p), 1.0f; }); }), kind == 2); break;
        case 4: where = "and_then", intact(faulted([&] { (void)x.and_then([&](const std::vector<int>& p) -> R { return boom(p), R(good); }); }), kind == 0); break;
        case 5: where = "or_else", intact(faulted([&] { (void)x.or_else([&](const std::string& p) -> R { return boom(p), R(good); }); }), kind == 1); break;
        case 6: where = "match", intact(faulted([&] { (void)x.match([&](const std::vector<int>& p) { return boom(p), 1; }, [&](const std::string& p) { return boom(p), 1; }, [&](const std::shared_ptr<int>& p) { return boom(p), 1; }); }), true); break;
        default: where = "unwrap_or_else", intact(faulted([&] { (void)x.unwrap_or_else([&] { return boom(), good; }); }), kind != 0); break;
        }
    }
}

// ---- filters ---------------------------------------------------------------------------------------------------------------------------
namespace {
using namespace spn::filter;
struct Stage : Filter<float> {
    std::vector<float>& log;
    float add, last = 0;
    int in = -1;
    Stage(std::vector<float>& l, float a) : log(l), add(a) {}
    float value(float x) override {
        if (in >= 0 && in-- == 0) throw_fault();
        log.push_back(x);
        return last = x + add;
    }
    float value() const override { return last; }
    void new_sample(float x) override { value(x); }
    void reset_to(float x) override { last = x; }
};
} // namespace
VF_SCENARIO(filters, 0.5) {
    const int n = static_cast<int>(r.range(1, 5));
    std::vector<std::vector<float>> logs(static_cast<size_t>(n));
    std::vector<Stage*> stages;
    spn::filter::Stack<float> s(static_cast<uint8_t>(n));
    for (int i = 0; i < n; ++i) {
        auto f = std::make_unique<Stage>(logs[static_cast<size_t>(i)], static_cast<float>(r.range(1, 5)));
        stages.push_back(f.get());
        s.attach_filter(std::move(f));
    }
    std::vector<std::vector<float>> want(static_cast<size_t>(n));
    float out = 0;
    int faults = 0;
    for (int i = 0, k = static_cast<int>(r.range(3, 12)); i < k; ++i) {
        const int at = faults < 3 && r.chance(1, 3) ? static_cast<int>(r.below(static_cast<u64>(n))) : -1;
        if (at >= 0) stages[static_cast<size_t>(at)]->in = 0;
        const float x = static_cast<float>(r.range(-50, 50));
        vf::op("%g!%d ", static_cast<double>(x), at);
        float got = 0;
        const bool single = r.chance(1, 2);
        const bool did = faulted([&] { single ? s.new_sample(x) : void(got = s.value(x)); });
        float y = x;
        for (int j = 0; j < (at < 0 ? n : at); ++j) want[static_cast<size_t>(j)].push_back(y), y += stages[static_cast<size_t>(j)]->add;
        VF_CHECK(did == (at >= 0), "fault-passes", "filter %d of %d failed, the caller was %stold", at, n, did ? "" : "not ");
        if (at < 0) {
            out = y;
            VF_CHECK(single || got == y, "filter-value", "%g instead of %g after %d faults", static_cast<double>(got), static_cast<double>(y), faults);
        }
        VF_CHECK(logs == want, "filter-samples", "the filters saw other samples than they should have (filter %d failed)", at);
        VF_CHECK(s.value() == out, "filter-current", "the stack's value is %g instead of %g after %d faults", static_cast<double>(s.value()), static_cast<double>(out), faults + did);
        faults += did;
        if (did) { vf::nontrivial(); VF_EV("filter.fault"); }
    }
}
VF_SCENARIO(raising_filters, 0.5) { // filters that raise an exception while the machine's handler throws
    const bool band = r.chance(1, 2);
    const int limit = static_cast<int>(r.below(4));
    BandPass<float> b(BandPass<float>::Config{.mode = BandPass<float>::Mode::RELATIVE, .mantissa = 1, .decades = 0, .offset = 0, .rejection_limit = limit, .throw_on_rejection_limit = true});
    MappedRange<float> m(MappedRange<float>::Config{.input_lower_limit = 0, .input_upper_limit = 10, .output_lower_limit = 0, .output_upper_limit = 100, .throw_for_value_out_of_range = true});
    Filter<float>& f = band ? static_cast<Filter<float>&>(b) : m;
    float want = 0, x = 5;
    f.new_sample(x), want = band ? x : x * 10;
    vf::op("%s limit%d", band ? "band" : "mapped", limit);
    int raised = 0, rejected = 0;
    for (int i = 0, n = static_cast<int>(r.range(4, 14)); i < n && raised < 4; ++i) {
        const bool outside = r.chance(1, 2);
        if (band) x = outside ? want + (r.chance(1, 2) ? 50.0f : -50.0f) : want + static_cast<float>(r.range(-5, 5));
        else
            x = outside ? (r.chance(1, 2) ? 11.0f : -1.0f) : static_cast<float>(r.range(0, 10));
        vf::op(" %g", static_cast<double>(x));
        const auto e = vf::catching([&] { r.chance(1, 2) ? f.new_sample(x) : void(f.value(x)); });
        if (outside) {
            ++rejected;
            // raised once the limit is passed, and from then on: there is no accepting of what was refused with an exception
            const bool must = !band || rejected > limit;
            VF_CHECK(bool(e) == must, "raise", "%s (rejection %d, limit %d)", must ? "nothing was raised" : "an exception was raised", rejected, limit);
            raised += bool(e);
            if (e) { vf::nontrivial(); VF_EV("filter.raised"); }
        } else {
            VF_CHECK(!e, "raise-inside", "an exception for a sample that is inside");
            want = band ? x : x * 10, rejected = 0;
        }
        VF_CHECK(std::fabs(f.value() - want) < 1e-3f, "raise-value", "the filter's value is %g instead of %g after %s", static_cast<double>(f.value()), static_cast<double>(want), e ? "an exception" : "a sample");
    }
}

// ---- outputs ---------------------------------------------------------------------------------------------------------------------------
namespace {
struct Pin : spn::platform::DigitalOutput<Pin> {
    int level = -1, in = -1;
    void tick() {
        if (in >= 0 && in-- == 0) throw_fault();
    }
    void initialize_impl() { tick(); }
    void set_state_impl(LogicalState s) { tick(), level = s == LogicalState::ON; }
};
} // namespace
VF_SCENARIO(outputs, 0.3) {
    Pin p;
    p.initialize(r.chance(1, 2));
    int faults = 0;
    for (int i = 0, n = static_cast<int>(r.range(4, 12)); i < n; ++i) {
        const bool was = p.state() == LogicalState::ON;
        if (faults < 3 && r.chance(1, 3)) p.in = static_cast<int>(r.below(2));
        const int how = static_cast<int>(r.below(3));
        bool want = r.chance(1, 2);
        if (how == 0) want = !was;
        vf::op("%d:%d!%d ", how, want, p.in);
        const bool did = faulted([&] {
            if (how == 0) p.flip();
            else if (how == 1)
                p.set_state(want);
            else
                p.initialize(want);
        });
        p.in = -1;
        const bool now = p.state() == LogicalState::ON;
        VF_CHECK(now == want || (did && now == was), "output-state", "reports %d, it was %d, %d was asked for%s", now, was, want, did ? " and the hardware failed" : "");
        if (!did) VF_CHECK(p.level == now, "output-level", "reports %d, the hardware is at %d", now, p.level);
        faults += did;
        if (did) { vf::nontrivial(); VF_EV("output.fault"); }
    }
}

// ---- autotuning ------------------------------------------------------------------------------------------------------------------------
namespace {
struct Process {
    float temperature = 0, power = 0;
    i64 ms = 0;
    int in = -1; // the call that fails
    bool failed = false;
    int after = 0; // calls made after the failure
    u64 trace = 7;
    void tick(int what, bool off = false) {
        if (failed && !off) ++after; // switching off is always fine
        trace = vf::mix(trace ^ static_cast<u64>(what));
        if (in >= 0 && in-- == 0) failed = true, throw_fault();
    }
};
} // namespace
VF_SCENARIO(autotuning, 0.15) {
    using spn::controller::PID;
    vf::set_clock_us(0);
    PID::Config c{.output_lower_limit = 0, .output_upper_limit = 100, .sample_interval = k_time_ms(r.range(5, 20))};
    PID p(c);
    p.initialize();
    p.set_target_setpoint(12);
    p.new_reading(3.0f, k_time_ms(1000));
    const float response = p.response(), error = p.error();
    PID::TuneConfig tc{.setpoint = 10, .startpoint = r.chance(1, 2) ? 5.0f : 0.0f, .hysteresis = 0.1f, .satured_at_start = true, .cycles = 3};
    auto tune = [&](Process& w) {
        return p.autotune(
            tc, [&](float v) { w.tick(1, v == 0), w.power = v; },
            [&] {
                w.tick(2);
                return w.temperature;
            },
            [&] { w.tick(3); },
            [&] {
                w.tick(4);
                return k_time_ms(w.ms);
            },
            [&](k_time_ms t) {
                w.tick(5);
                w.ms += t.raw();
                w.temperature += (w.power > 50 ? 0.05f : -0.05f) * static_cast<float>(t.raw());
                if (w.temperature > 40) w.temperature = 40;
                if (w.temperature < -40) w.temperature = -40;
            });
    };
    Process undisturbed;
    const auto want = tune(undisturbed);
    for (int i = 0; i < 2; ++i) {
        Process w;
        w.in = static_cast<int>(r.below(r.chance(1, 3) ? 20 : 600));
        vf::op("fails at call %d ", w.in);
        const bool did = faulted([&] { (void)tune(w); });
        VF_CHECK(did == w.failed, "fault-passes", "the process failed and nobody was told");
        VF_CHECK(w.after == 0, "goes-on", "the process was used %d times after it had failed", w.after);
        VF_CHECK(p.response() == response && p.error() == error && p.tunings() == c.tunings && p.setpoint() == 12, "controller", "the controller changed when tuning failed");
        if (did) { vf::nontrivial(); VF_EV("autotune.fault"); }
    }
    Process again;
    const auto got = tune(again);
    VF_CHECK(got == want && again.trace == undisturbed.trace, "tune-again", "tuning gives Kp %g Ki %g Kd %g after a failed attempt instead of %g %g %g", (double)got.Kp, (double)got.Ki, (double)got.Kd, (double)want.Kp, (double)want.Ki, (double)want.Kd);
}

// ---- refused by an assertion -----------------------------------------------------------------------------------------------------------
// In a debug build misuse raises an assertion exception; when the handler throws, the object is as it was.
VF_SCENARIO(refused, 0.4) {
    using namespace spn::structure;
    auto refused = [&](const char* what, auto&& f) {
        vf::op("%s ", what);
        const auto e = vf::catching(f);
        VF_CHECK(bool(e) == vf::kDebug, "assert", "%s: %s", what, e ? e->msg.c_str() : "no assertion failed");
        if (e) VF_CHECK(e->type == "Assertion exception", "assert-type", "%s: %s", what, e->type.c_str());
        VF_EV("refused");
        vf::nontrivial();
    };
    if (!vf::kDebug) { // what a release build does with misuse is for the checks of the components
        VF_EV("refused");
        return;
    }
    switch (r.below(6)) {
    case 0: {
        const size_t cap = static_cast<size_t>(r.range(1, 6));
        Vector<int> v(cap);
        std::vector<int> w;
        for (int i = 0, n = static_cast<int>(r.range(4, 20)); i < n; ++i) {
            const int x = static_cast<int>(r.below(100));
            switch (r.below(6)) {
            case 0: v.size() < cap ? (v.push_back(x), w.push_back(x)) : refused("push_back", [&] { v.push_back(x); }); break;
            case 1: v.size() < cap ? (v.push_front(x), void(w.insert(w.begin(), x))) : refused("push_front", [&] { v.push_front(x); }); break;
            case 2: w.empty() ? refused("pop_back", [&] { (void)v.pop_back(); }) : (void(v.pop_back()), w.pop_back()); break;
            case 3: w.empty() ? refused("pop_front", [&] { (void)v.pop_front(); }) : (void(v.pop_front()), void(w.erase(w.begin()))); break;
            case 4:
                if (v.size() == cap) refused("insert", [&] { v.insert(r.below(cap), x); });
                break;
            default:
                if (w.empty()) refused("peek", [&] { (void)v.peek_front(); });
                else
                    refused("index", [&] { (void)v[w.size() + r.below(3)]; });
            }
            std::vector<int> now;
            for (int e : v) now.push_back(e);
            VF_CHECK(now == w && v.size() == w.size(), "vector", "a refused operation changed the vector");
        }
        break;
    }
    case 1: {
        const int cap = static_cast<int>(r.range(1, 4));
        Pool<int> p(static_cast<size_t>(cap));
        for (int i = 0; i < cap; ++i) {
            refused("acquire", [&] { (void)p.acquire(); });
            p.populate(std::make_shared<int>(i));
        }
        refused("populate", [&] { p.populate(std::make_shared<int>(9)); });
        VF_CHECK(p.size() == static_cast<size_t>(cap), "pool", "a refused object is in the pool");
        std::set<int> seen;
        std::vector<std::shared_ptr<int>> held;
        for (int i = 0; i < cap; ++i) {
            held.push_back(p.acquire());
            VF_CHECK(held.back(), "pool", "no object left");
            seen.insert(*held.back());
        }
        VF_CHECK(static_cast<int>(seen.size()) == cap && !p.acquire(), "pool", "%zu different objects out of %d", seen.size(), cap);
        break;
    }
    case 2: {
        vf::set_clock_us(0);
        World w;
        const size_t cap = static_cast<size_t>(r.range(1, 4));
        EventSystem s(EventSystem::Config{.events_count = 2, .events_cap = cap, .handler_cap = 1, .delay_between_ticks = false});
        H h(&s, w, 0), other(&s, w, 1);
        s.attach(0, &h);
        refused("attach", [&] { s.attach(0, &other); });
        refused("attach.id", [&] { s.attach(2, &other); });
        refused("trigger", [&] { s.trigger(1, Event::Data(1u)); }); // nobody listens
        refused("trigger.id", [&] { s.trigger(5, Event::Data(1u)); });
        for (size_t i = 0; i < cap; ++i) s.schedule(0, k_time_ms(5), Event::Data(static_cast<uint32_t>(i)));
        refused("schedule", [&] { s.schedule(0, k_time_ms(1), Event::Data(77u)); });
        refused("trigger.full", [&] { s.trigger(0, Event::Data(78u)); });
        HAL::delay(k_time_ms(10));
        s.loop();
        VF_CHECK(w.seen.size() == cap, "events", "%zu deliveries instead of %zu", w.seen.size(), cap);
        for (size_t i = 0; i < cap; ++i) VF_CHECK(w.seen[i] == (Delivery{0, 0, static_cast<uint32_t>(i)}), "events", "event %zu was delivered as %u to %d", i, w.seen[i].data, w.seen[i].handler);
        break;
    }
    case 3: {
        auto io = std::make_shared<FakeStream>();
        spn::io::BufferedStream s(io, spn::io::BufferedStream::Config{.input_buffer_size = 20, .output_buffer_size = 8, .delimiters = "\n"});
        for (char c : std::string("one\ntwo\n")) io->incoming.push_back(static_cast<uint8_t>(c));
        s.pull_in_data();
        {
            auto t = s.new_transaction();
            t->outgoing("abc");
            refused("outgoing", [&] { t->outgoing("defghijk"); });
            VF_CHECK(t->outgoing_space_used() == 3 && s.output_buffer_space_used() == 3, "transaction", "a refused reply is waiting");
            r.chance(1, 2) ? t->commit() : t->abort();
            const size_t used = s.output_buffer_space_used();
            refused("outgoing.after", [&] { t->outgoing("d"); });
            refused("commit.after", [&] { t->commit(); });
            refused("abort.after", [&] { t->abort(); });
            VF_CHECK(s.output_buffer_space_used() == used && s.input_buffer_space_used() == 4, "transaction", "a finished transaction changed the stream");
        }
        VF_CHECK(s.input_buffer_space_used() == 4 && s.get_next_line_view() == "two", "transaction", "the next line is gone");
        break;
    }
    case 4: {
        StaticString s(8);
        const size_t cap = s.capacity();
        s.set_size(5);
        std::memcpy(s.data(), "abcde", 5);
        refused("set_size", [&] { s.set_size(cap + 1 + r.below(5)); });
        refused("data", [&] { (void)s.data(cap + 1); });
        VF_CHECK(s.size() == 5 && s.view() == "abcde" && s.capacity() == cap, "string", "a refused size changed the string");
        break;
    }
    default: {
        using R = spn::structure::Result<int, std::string, double>;
        R good(3), bad = R::failed("no");
        refused("error_value", [&] { (void)good.error_value(); });
        refused("intermediary_value", [&] { (void)good.intermediary_value(); });
        refused("value", [&] { (void)bad.value(); });
        refused("unwrap", [&] { (void)bad.unwrap(); });
        refused("unwrap_error", [&] { (void)good.unwrap_error_value(); });
        VF_CHECK(good.is_success() && good.value() == 3 && bad.is_failed() && bad.error_value() == "no", "result", "a refused access changed a result");
        using spn::structure::time::Schedule;
        refused("schedule", [&] { Schedule s({{k_time_s(0), k_time_s(0), 1.0f}}); });
        refused("schedule.long", [&] { Schedule s({{k_time_s(0), k_time_s(80000), 1.0f}, {k_time_s(80000), k_time_s(10000), 1.0f}}); });
    }
    }
}
