// C39: a device assembled from the parts the way they are meant to be used. A serial port carries commands; an event system calls the handlers
// that answer them in transactions, schedule output changes and run the periodic control work (filters, controller, latch, day schedule).
// One monitor follows the whole device; afterwards each part is run again on its own with the inputs it saw.
#include "vf.hpp"
#include "fake_stream.hpp"
#include "spine/controller/pid.hpp"
#include "spine/controller/sr_latch.hpp"
#include "spine/core/utils/string.hpp"
#include "spine/core/utils/time_repr.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/io/stream/buffered_stream.hpp"
#include "spine/platform/gpio.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/result.hpp"
#include "spine/structure/time/schedule.hpp"

using vf::i64;
using vf::Rng;
using vf::u64;
namespace {
using namespace spn::core;
using spn::controller::PID;
using spn::controller::SRLatch;
using spn::structure::Result;
using spn::structure::time::Schedule;

i64 now_ms() { return HAL::millis().raw(); }

enum Ids : size_t { IO, CONTROL, CHANGE, IDS };

struct Relay : spn::platform::DigitalOutput<Relay> {
    int level = -1;
    void initialize_impl() {}
    void set_state_impl(LogicalState s) { level = s == LogicalState::ON; }
};
struct Heater : spn::platform::AnalogueOutput<Heater> {
    float level = -1;
    void set_value_impl(float v) { level = v; }
};

/// what the device is made of; decided before it is built so that a part can be built again
struct Plan {
    i64 start = 0;
    size_t in_size = 16, out_size = 16, changes = 4;
    bool idle = false;
    i64 io_period = 10, control_period = 50, work = 0;
    std::string ends;
    PID::Config pid;
    float target = 0;
    SRLatch::Config latch{};
    std::vector<Schedule::Block> day;
    int filters = 0;
    float k = 4;

    std::unique_ptr<PID> make_pid() const {
        auto p = std::make_unique<PID>(pid);
        p->initialize();
        p->set_target_setpoint(target);
        return p;
    }
    std::unique_ptr<SRLatch> make_latch() const { return std::make_unique<SRLatch>(SRLatch::Config(latch)); }
    std::unique_ptr<Schedule> make_schedule() const {
        switch (day.size()) {
        case 1: return std::make_unique<Schedule>(Schedule({day[0]}));
        case 2: return std::make_unique<Schedule>(Schedule({day[0], day[1]}));
        default: return std::make_unique<Schedule>(Schedule({day[0], day[1], day[2]}));
        }
    }
    std::unique_ptr<spn::filter::Stack<float>> make_filters() const {
        using namespace spn::filter;
        auto s = std::make_unique<Stack<float>>(static_cast<uint8_t>(filters));
        for (int i = 0; i < filters; ++i) s->attach_filter(make_filter(i));
        return s;
    }
    std::unique_ptr<spn::filter::Filter<float>> make_filter(int i) const {
        using namespace spn::filter;
        if (i == 0) return std::make_unique<MappedRange<float>>(MappedRange<float>::Config{.input_lower_limit = -50, .input_upper_limit = 150, .output_lower_limit = 0, .output_upper_limit = 100});
        if (i == 1) return std::make_unique<EWMA<float>>(EWMA<float>::Config{.K = k});
        return std::make_unique<BandPass<float>>(BandPass<float>::Config{.mantissa = 1, .decades = 1, .rejection_limit = 3, .throw_on_rejection_limit = false});
    }
    void due_of_day(i64 second, i64& next, float& value) const { // the value and the next change by the definition of a day schedule
        next = 86400, value = 0;
        for (const auto& b : day) {
            const i64 from = b.start.raw(), to = from + b.duration.raw();
            if (second >= from && second < to) value = b.value;
            if (from > second) next = std::min(next, from);
        }
    }
};

/// what happened in a device, seen by the monitor
struct Log {
    struct Reading {
        i64 at;
        float sample, filtered, response;
        float target;
        bool latch;
    };
    std::vector<Reading> readings;
};

struct Device;
struct Handler : EventHandler {
    Device& d;
    Handler(EventSystem* s, Device& dev) : EventHandler(s), d(dev) {}
    void handle_event(const Event& e) override;
    using EventHandler::evsys;
};

struct Device {
    const Plan plan;
    Rng& r;
    std::shared_ptr<FakeStream> port = std::make_shared<FakeStream>();
    EventSystem events;
    spn::io::BufferedStream serial;
    Handler handler;
    std::unique_ptr<PID> pid;
    std::unique_ptr<SRLatch> latch;
    std::unique_ptr<Schedule> schedule;
    std::unique_ptr<spn::filter::Stack<float>> filters;
    Relay relay, output;
    Heater heater;
    float sample = 20;

    // the monitor
    struct Due {
        i64 at;
        u64 order;
        size_t id;
        uint32_t data;
    };
    std::vector<Due> due;
    u64 order = 0, fired = 0;
    std::deque<std::string> commands; // sent and not answered
    std::string replies; // every byte that must go out
    Log log;
    size_t changes_done = 0, answered = 0, given_up = 0;
    int level = 0;
    uint32_t tags = 0;

    Device(const Plan& p, Rng& rng)
        : plan(p), r(rng), events(EventSystem::Config{.events_count = IDS, .events_cap = p.changes + 3, .handler_cap = 1, .delay_between_ticks = p.idle}),
          serial(port, spn::io::BufferedStream::Config{.input_buffer_size = p.in_size, .output_buffer_size = p.out_size, .delimiters = p.ends}), handler(&events, *this) {
        pid = plan.make_pid();
        latch = plan.make_latch();
        schedule = plan.make_schedule();
        filters = plan.make_filters();
        relay.initialize(false);
        output.initialize(false);
        for (size_t id = 0; id < IDS; ++id) events.attach(id, &handler);
        later(IO, plan.io_period, 0);
        later(CONTROL, plan.control_period, 0);
    }
    void later(size_t id, i64 in, uint32_t data) {
        events.schedule(id, k_time_ms(in), Event::Data(data));
        due.push_back({now_ms() + in, order++, id, data});
    }
    size_t pending_changes() const {
        size_t n = 0;
        for (auto& e : due) n += e.id == CHANGE;
        return n;
    }
    // ---- what the device does, with what it must see -----------------------------------------------------------------------------------
    void on_event(const Event& e) {
        VF_CHECK(!due.empty(), "event-foreign", "event %zu fired and nothing is scheduled", e.id());
        size_t first = 0;
        for (size_t i = 1; i < due.size(); ++i)
            if (due[i].at < due[first].at || (due[i].at == due[first].at && due[i].order < due[first].order)) first = i;
        const Due want = due[first];
        VF_CHECK(e.id() == want.id && e.data().unsigned_value() == want.data, "event-order", "event %zu (%u) fired, event %zu (%u) is the next one", e.id(), e.data().unsigned_value(), want.id, want.data);
        VF_CHECK(now_ms() >= want.at, "event-early", "event %zu fired %lld ms early", e.id(), static_cast<long long>(want.at - now_ms()));
        due.erase(due.begin() + static_cast<std::ptrdiff_t>(first));
        ++fired;
        switch (want.id) {
        case IO: io(); break;
        case CONTROL: control(); break;
        default:
            level = static_cast<int>(want.data & 1);
            output.set_state(level != 0);
            ++changes_done;
            VF_EV("change");
        }
        VF_CHECK(e.id() == want.id && e.data().unsigned_value() == want.data, "event-changed", "the event became %zu (%u) while its handler ran, it was %zu (%u)", e.id(), e.data().unsigned_value(), want.id, want.data);
        if (plan.work && r.chance(1, 4)) HAL::delay(k_time_ms(r.range(1, plan.work))); // some handlers take their time
    }
    void io() {
        const size_t before = port->incoming.size(), held = serial.input_buffer_space_used();
        const u64 failed = port->reads_failed;
        const size_t got = serial.pull_in_data();
        VF_CHECK(got == before - port->incoming.size() && serial.input_buffer_space_used() == held + got, "input", "%zu bytes were taken, %zu reported, the buffer went from %zu to %zu", before - port->incoming.size(), got,
                 held, serial.input_buffer_space_used());
        const bool broke = port->reads_failed != failed; // the port failed: whatever it has not handed over waits there
        if (broke) VF_EV("read.failed");
        VF_CHECK(broke || port->incoming.empty() || serial.input_buffer_space_left() == 0, "input-left", "%zu bytes are left in the port with room for %zu", port->incoming.size(), serial.input_buffer_space_left());
        while (auto t = serial.new_transaction()) {
            const std::string line(t->incoming());
            VF_CHECK(!commands.empty(), "command-foreign", "the command '%s' was never sent", line.c_str());
            VF_CHECK(line == commands.front(), "command", "the command is '%s' instead of '%s'", line.c_str(), commands.front().c_str());
            VF_CHECK(t->outgoing_space_left() == plan.out_size - (replies.size() - port->delivered.size()), "reply-room", "room for %zu bytes with %zu of %zu waiting", t->outgoing_space_left(),
                     replies.size() - port->delivered.size(), plan.out_size);
            const std::string reply = execute(line);
            if (reply.empty()) { // something was being written when the device found out that it makes no sense
                if (t->outgoing_space_left() > 3) t->outgoing("er?");
                t->abort();
                VF_EV("command.aborted");
            } else if (t->outgoing_space_left() >= reply.size()) { // the last byte of room is only for a single byte
                size_t k = 0; // in pieces
                while (k < reply.size()) {
                    size_t n = std::min(reply.size() - k, static_cast<size_t>(r.range(1, 6)));
                    if (n == t->outgoing_space_left()) n = 1;
                    const size_t did = n == 1 ? t->outgoing(reply[k]) : t->outgoing(std::string_view(reply).substr(k, n));
                    VF_CHECK(did == n, "reply-cut", "%zu of %zu bytes of a reply were taken", did, n);
                    k += n;
                }
                if (r.chance(3, 4)) t->commit();
                replies += reply;
                VF_EV("command.answered");
            } else {
                t->abort(), ++given_up;
                VF_EV("command.no_room");
            }
            commands.pop_front();
            ++answered;
        }
        VF_CHECK(!serial.has_line(), "command-left", "a complete command is left in the buffer");
        if (serial.output_buffer_space_left() == 0) VF_EV("output.full");
        push();
        later(IO, plan.io_period, ++tags << 1);
    }
    void push() {
        const size_t waiting = replies.size() - port->delivered.size();
        VF_CHECK(serial.output_buffer_space_used() == waiting, "output", "%zu bytes are waiting instead of %zu", serial.output_buffer_space_used(), waiting);
        const size_t room = port->write_window, want = std::min(room, waiting);
        const u64 failed = port->writes_failed;
        const size_t went = serial.push_out_data();
        const bool broke = port->writes_failed != failed;
        if (broke) VF_EV("write.failed");
        VF_CHECK((broke ? went < want : went == want) && room - port->write_window == went, "output-left", "%zu bytes went out (%zu reported) with %zu waiting and room for %zu", room - port->write_window, went, waiting, room);
        VF_CHECK(serial.output_buffer_space_used() == waiting - went, "output", "%zu bytes are waiting instead of %zu", serial.output_buffer_space_used(), waiting - went);
        const auto& d = port->delivered;
        VF_CHECK(d.size() <= replies.size() && std::equal(d.begin(), d.end(), replies.begin(), [](uint8_t a, char b) { return a == static_cast<uint8_t>(b); }), "replies", "other bytes went out than were replied");
        if (went) VF_EV("replied");
    }
    void control() {
        const float x = filters->value(sample);
        const i64 second = now_ms() / 1000 % 86400;
        i64 next;
        float v;
        plan.due_of_day(second, next, v);
        VF_CHECK(schedule->value_at(k_time_s(second)) == v, "schedule", "the day schedule gives %g instead of %g at second %lld", static_cast<double>(schedule->value_at(k_time_s(second))), static_cast<double>(v),
                 static_cast<long long>(second));
        VF_CHECK(schedule->start_of_next_block(k_time_s(second)).raw() == next, "schedule-next", "the next block starts at %lld instead of %lld", static_cast<long long>(schedule->start_of_next_block(k_time_s(second)).raw()),
                 static_cast<long long>(next));
        const float target = plan.target + v;
        pid->set_target_setpoint(target);
        pid->new_reading(x);
        latch->new_reading(x);
        heater.set_value(pid->response() / plan.pid.output_upper_limit);
        relay.set_state(latch->response());
        VF_CHECK(heater.level == heater.value() && heater.level >= 0 && heater.level <= 1, "heater", "the heater is at %g, reported as %g", static_cast<double>(heater.level), static_cast<double>(heater.value()));
        VF_CHECK(relay.level == latch->response(), "relay", "the relay is %d, the latch says %d", relay.level, latch->response());
        log.readings.push_back({now_ms(), sample, x, pid->response(), target, latch->response()});
        if (log.readings.size() > 1) vf::nontrivial();
        VF_EV("control");
        later(CONTROL, plan.control_period, ++tags << 1);
    }
    /// executes a command and returns the reply, nothing for a line that makes no sense
    std::string execute(std::string_view line) {
        line = utils::lstrip(utils::rstrip(line));
        if (utils::starts_with(line, "t ")) {
            const std::string text(line.substr(2));
            const float want = std::strtof(text.c_str(), nullptr), got = utils::to_float(line.substr(2));
            VF_CHECK(got == want, "number", "'%s' is read as %g", text.c_str(), static_cast<double>(got));
            sample = got;
            VF_EV("command.sample");
            return "ok\n";
        }
        if (utils::starts_with(line, "o ")) { // "o 120ms 1"
            auto words = parse(line.substr(2));
            VF_CHECK(words.is_success() || words.is_failed(), "outcome", "parsing has no outcome");
            if (words.is_failed()) {
                VF_EV("command.bad_time");
                return "bad " + words.error_value() + "\n";
            }
            const auto [in, on] = words.value();
            if (pending_changes() >= plan.changes) {
                VF_EV("command.busy");
                return "busy\n";
            }
            later(CHANGE, in, (++tags << 1) | static_cast<uint32_t>(on));
            VF_EV("command.change");
            return "in " + utils::repr(k_time_ms(in)) + "\n";
        }
        if (line == "get") {
            VF_CHECK(output.level == level && (output.state() == LogicalState::ON) == (level != 0), "output-state", "the output is %d, reported as %d, %d was set last", output.level, output.state() == LogicalState::ON, level);
            VF_EV("command.get");
            return std::string(level ? "on" : "off") + "\n";
        }
        return {};
    }
    struct Change {
        i64 in;
        bool on;
    };
    using Parsed = Result<Change, std::string, std::string_view>;
    Parsed parse(std::string_view words) {
        return Parsed::intermediary(words).chain([](std::string_view& w) -> Parsed {
            const size_t gap = utils::find_first_of(w, " ");
            if (gap == std::string_view::npos) return Parsed::failed("format");
            const std::string text(w.substr(0, gap));
            const auto t = utils::parse_time(w.substr(0, gap));
            char unit[4] = "";
            long long n = 0, ms = 0;
            int end = 0;
            const bool ok = std::sscanf(text.c_str(), "%4lld%2[a-z]%n", &n, unit, &end) == 2 && static_cast<size_t>(end) == text.size();
            const std::string u = unit;
            ms = n * (u == "ms" ? 1 : u == "s" ? 1000 : u == "m" ? 60000 : 0);
            VF_CHECK(bool(t) == (ok && ms > 0), "time-text", "'%s' is %s", text.c_str(), t ? "taken for a time" : "refused");
            if (!t) return Parsed::failed("time");
            const i64 got = std::visit([](const auto& v) { return static_cast<i64>(k_time_ms(v).raw()); }, *t);
            VF_CHECK(got == ms, "time", "'%s' is read as %lld ms", text.c_str(), static_cast<long long>(got));
            return Change{got, utils::ends_with(w, " 1")};
        });
    }
    // ---- the outside world --------------------------------------------------------------------------------------------------------------
    void send(const std::string& line, char end) {
        commands.push_back(line);
        for (char c : line) wire.push_back(static_cast<uint8_t>(c));
        wire.push_back(static_cast<uint8_t>(end));
    }
    std::deque<uint8_t> wire; // sent, not arrived
    void arrive(size_t n) {
        for (; n-- && !wire.empty(); wire.pop_front()) port->incoming.push_back(wire.front());
    }
    void tick() {
        const i64 before = now_ms();
        const u64 did = fired;
        events.loop();
        const i64 t = now_ms();
        for (auto& e : due) VF_CHECK(plan.idle ? e.at >= t : e.at > t, "event-late", "event %zu was due %lld ms ago", e.id, static_cast<long long>(t - e.at));
        if (plan.idle) VF_CHECK(t > before || fired > did, "no-rest", "an idle device neither works nor rests");
    }
};
void Handler::handle_event(const Event& e) { d.on_event(e); }

Plan make_plan(Rng& r) {
    Plan p;
    p.start = r.chance(1, 3) ? 0 : r.range(0, r.chance(1, 2) ? 100000 : 60ll * 86400 * 1000);
    p.in_size = static_cast<size_t>(r.range(14, r.chance(1, 5) ? 400 : 48));
    p.out_size = static_cast<size_t>(r.range(12, r.chance(1, 5) ? 400 : 60));
    p.changes = static_cast<size_t>(r.range(1, 6));
    p.idle = r.chance(1, 2);
    p.io_period = r.range(1, 20);
    p.control_period = r.pick<i64>({20, 50, 100, 130});
    p.work = r.chance(1, 2) ? 0 : r.range(1, 30);
    p.ends = r.pick<const char*>({"\n", "\r\n", ";\n"});
    p.pid = PID::Config{.tunings = {static_cast<float>(r.real(0.5, 8)), static_cast<float>(r.real(0, 2)), static_cast<float>(r.real(0, 0.5))}, .output_lower_limit = 0, .output_upper_limit = r.chance(1, 2) ? 255.f : 100.f, .sample_interval = k_time_ms(r.pick<i64>({50, 100, 200}))};
    p.target = static_cast<float>(r.range(0, 60));
    const float low = static_cast<float>(r.range(10, 50));
    p.latch = SRLatch::Config{.high = low + static_cast<float>(r.range(0, 20)), .low = low, .minimal_on_time = k_time_ms(r.chance(1, 2) ? 0 : r.range(1, 400)), .maximal_on_time = k_time_ms(r.chance(2, 3) ? 0 : r.range(401, 900)), .minimal_off_time = k_time_ms(r.chance(1, 2) ? 0 : r.range(1, 400)), .maximal_off_time = k_time_ms(r.chance(2, 3) ? 0 : r.range(401, 900))};
    const i64 base = std::min<i64>(86400 - 12, p.start / 1000 % 86400); // blocks around the time of day at which the device starts
    i64 at = base;
    for (int i = 0, n = static_cast<int>(r.range(1, 3)); i < n; ++i) {
        const i64 len = r.range(1, 3);
        p.day.push_back({k_time_s(at), k_time_s(len), static_cast<float>(r.range(1, 30))});
        at += len + r.range(0, 1);
    }
    if (p.day.size() > 1 && r.chance(1, 2)) std::swap(p.day.front(), p.day.back());
    p.filters = static_cast<int>(r.range(0, 3));
    p.k = static_cast<float>(r.range(1, 12));
    return p;
}
std::string number(Rng& r) {
    char b[24];
    std::snprintf(b, sizeof b, "%.*f", static_cast<int>(r.below(3)), r.real(-60, 160));
    return b;
}
std::string command(Rng& r) {
    switch (r.below(10)) {
    case 0:
    case 1: return "t " + number(r);
    case 2:
    case 3:
    case 4:
    case 5: return "o " + std::to_string(r.range(1, 400)) + "ms " + (r.chance(1, 2) ? "1" : "0");
    case 6: return r.chance(1, 2) ? "o 1s 1" : "o 2s 0";
    case 7: return "get";
    case 8: return r.pick<const char*>({"o 5 1", "o xms 1", "o 7xs 0", "o ms", "o ", " get "});
    default: return r.pick<const char*>({"", " ", "what", "t", "gets"});
    }
}
/// each part on its own, with the inputs it saw in the device
void alone(const Plan& p, const Log& log) {
    vf::set_clock_us(p.start * 1000);
    auto pid = p.make_pid();
    auto latch = p.make_latch();
    std::vector<std::unique_ptr<spn::filter::Filter<float>>> filters;
    for (int i = 0; i < p.filters; ++i) filters.push_back(p.make_filter(i));
    for (auto& x : log.readings) {
        vf::set_clock_us(x.at * 1000);
        float y = x.sample;
        for (auto& f : filters) y = f->value(y);
        VF_CHECK(y == x.filtered, "filters-alone", "the filters gave %g, on their own they give %g", static_cast<double>(x.filtered), static_cast<double>(y));
        pid->set_target_setpoint(x.target);
        pid->new_reading(y);
        VF_CHECK(pid->response() == x.response, "controller-alone", "the controller gave %g, on its own it gives %g", static_cast<double>(x.response), static_cast<double>(pid->response()));
        latch->new_reading(y);
        VF_CHECK(latch->response() == x.latch, "latch-alone", "the latch was %d, on its own it is %d", x.latch, latch->response());
    }
    if (log.readings.size() > 2) VF_EV("alone");
}
} // namespace

VF_SCENARIO(device, 1.0) {
    const Plan p = make_plan(r);
    vf::set_clock_us(p.start * 1000);
    vf::op("in %zu out %zu changes %zu idle %d io %lld control %lld work %lld: ", p.in_size, p.out_size, p.changes, p.idle, static_cast<long long>(p.io_period), static_cast<long long>(p.control_period), static_cast<long long>(p.work));
    Log log;
    {
        Device d(p, r);
        const bool flaky = r.chance(1, 4); // a port that fails now and then
        const bool slow = r.chance(1, 4); // a port that takes little at a time
        for (int i = 0, n = static_cast<int>(r.range(20, 120)); i < n; ++i) {
            if (r.chance(1, 3))
                for (int k = 0, c = r.chance(1, 6) ? (r.chance(1, 4) ? 30 : 5) : 1; k < c; ++k) {
                    const auto line = command(r);
                    d.send(line, r.pick(std::vector<char>(p.ends.begin(), p.ends.end())));
                    vf::op("'%s' ", line.c_str());
                }
            d.arrive(r.chance(1, 2) ? 1000 : static_cast<size_t>(r.below(6))); // lines come in fragments
            d.port->write_window = slow ? static_cast<size_t>(r.below(4)) : r.chance(1, 5) ? 0 : 1000;
            if (flaky && r.chance(1, 4)) {
                auto& script = r.chance(1, 2) ? d.port->read_script : d.port->write_script;
                script.assign(r.below(8), 1);
                script.push_back(0);
            }
            if (!p.idle) HAL::delay(k_time_ms(r.chance(1, 8) ? r.range(0, 300) : r.range(0, p.io_period + 2)));
            d.tick();
        }
        d.arrive(100000); // everything comes in, the port takes everything, and the device gets the time to do all of it
        for (int i = 0; i < 4000 && (!d.commands.empty() || d.pending_changes() || d.replies.size() > d.port->delivered.size()); ++i) {
            d.port->write_window = 1000;
            if (!p.idle) HAL::delay(k_time_ms(r.range(1, 40)));
            d.tick();
        }
        VF_CHECK(d.commands.empty(), "command-lost", "%zu commands were never answered, the next one is '%s'", d.commands.size(), d.commands.front().c_str());
        VF_CHECK(d.pending_changes() == 0, "change-lost", "%zu changes never happened", d.pending_changes());
        VF_CHECK(d.replies.size() == d.port->delivered.size(), "reply-lost", "%zu of %zu bytes of the replies went out", d.port->delivered.size(), d.replies.size());
        VF_CHECK(d.output.level == d.level, "output-state", "the output is %d instead of %d", d.output.level, d.level);
        VF_CHECK(d.due.size() == 2, "event-lost", "%zu events are scheduled instead of two", d.due.size());
        if (d.given_up) VF_EV("gave_up");
        vf::state(vf::mix(d.answered * 31 + d.changes_done) ^ vf::mix(d.log.readings.size()) ^ p.in_size);
        log = d.log;
    }
    alone(p, log);
}
