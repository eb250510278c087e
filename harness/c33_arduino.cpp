// C33: what the Arduino binding tells the board, against what the portable interface was told.
#include "vf.hpp"
#include "spine/io/stream/buffered_stream.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/time/timers.hpp"

#include <iostream>
using spn::core::LogicalState;
using spn::core::TriggerType;
using vf::i64;
using vf::u64;

namespace spn::platform {
char* __brkval; // the heap end an AVR core provides
}
HardwareSerial Serial;
namespace fake {
Board& board() {
    static Board b;
    return b;
}
} // namespace fake
using fake::board;
using fake::Call;
static void rec(Call::Kind k, long a, long b, void (*cb)() = nullptr) { board().calls.push_back({k, a, b, board().now_us, cb}); }
void pinMode(uint8_t pin, uint8_t mode) { rec(Call::PinMode, pin, mode); }
void digitalWrite(uint8_t pin, uint8_t value) { rec(Call::DigitalWrite, pin, value != 0); }
int digitalRead(uint8_t pin) { return board().digital[pin]; }
void analogWrite(uint8_t pin, int value) { rec(Call::AnalogWrite, pin, value); }
void analogWriteResolution(int bits) { rec(Call::Resolution, bits, 0); }
int analogRead(uint8_t pin) { return board().analog[pin]; }
void attachInterrupt(uint8_t i, void (*cb)(), int mode) { rec(Call::Attach, i, mode, cb); }
void detachInterrupt(uint8_t i) { rec(Call::Detach, i, 0); }
unsigned long millis() { return static_cast<uint32_t>(board().now_us / 1000); }
unsigned long micros() { return static_cast<uint32_t>(board().now_us); }
void delay(unsigned long ms) { board().now_us += static_cast<u64>(ms) * 1000; }
void delayMicroseconds(unsigned int us) { board().now_us += us; }
void noInterrupts() {
    board().interrupts = false;
    throw fake::Board::Halted{}; // what follows never ends
}
void interrupts() { board().interrupts = true; }

namespace vf {
void set_clock_us(i64 us) {
    board() = fake::Board{};
    board().now_us = static_cast<u64>(us);
    Serial = HardwareSerial{};
}
} // namespace vf

namespace {
constexpr int kModeIn = 0, kModeOut = 1, kModePull = 2; // the numbers of the stand-in
#if defined(VF_CORE_ESP)
constexpr int kRising = 1, kFalling = 2, kChange = 3;
#else
constexpr int kChange = 1, kFalling = 2, kRising = 3;
#endif
size_t count(Call::Kind k) {
    size_t n = 0;
    for (auto& c : board().calls) n += c.kind == k;
    return n;
}
const Call* last(Call::Kind k) {
    for (auto i = board().calls.rbegin(); i != board().calls.rend(); ++i)
        if (i->kind == k) return &*i;
    return nullptr;
}
// through the portable interface, as code that works on any platform does
template<typename T>
void start(spn::platform::DigitalInput<T>& x) { x.initialize(); }
template<typename T>
void start(spn::platform::AnalogueOutput<T>& x) { x.initialize(); }
template<typename T>
void start(spn::platform::AnalogueInput<T>& x) { x.initialize(); }
template<typename T>
void start(spn::platform::Interrupt<T>& x) { x.initialize(); }
template<typename T>
bool is_on(const spn::platform::DigitalInput<T>& x) { return x.state() == LogicalState::ON; }
template<typename T>
float sample(spn::platform::AnalogueInput<T>& x) { return x.read(); }
template<typename T>
void attach(spn::platform::Interrupt<T>& x, void (*cb)(), TriggerType t) { x.attach_interrupt(cb, t); }
template<typename T>
void detach(spn::platform::Interrupt<T>& x) { x.detach_interrupt(); }
void cb_a() {}
void cb_b() {}
float level(vf::Rng& r) {
    switch (r.below(6)) {
    case 0: return 0.0f;
    case 1: return 1.0f;
    case 2: return static_cast<float>(r.range(0, 16)) / 16.0f;
    case 3: return r.chance(1, 2) ? 0.999f : 0.001f;
    default: return static_cast<float>(r.unit());
    }
}
} // namespace

VF_SCENARIO(digital_output, 1.0) {
    const uint8_t pin = static_cast<uint8_t>(r.below(256));
    const bool low = r.chance(1, 2);
    HAL::DigitalOutput d(HAL::DigitalOutput::Config{.pin = pin, .active_on_low = low});
    VF_CHECK(board().calls.empty(), "touch", "constructing an output touched the board");
    bool want = r.chance(1, 2);
    want ? d.initialize(true) : (r.chance(1, 2) ? d.initialize() : d.initialize(false));
    VF_CHECK(board().calls.front().kind == Call::PinMode, "order", "the pin was driven before its mode was set");
    VF_CHECK(last(Call::PinMode)->a == pin && last(Call::PinMode)->b == kModeOut, "mode", "pin %ld got mode %ld", last(Call::PinMode)->a, last(Call::PinMode)->b);
    vf::op("pin%d low%d", pin, low);
    for (int i = 0, n = r.range(2, 12); i < n; ++i) {
        const Call* c = last(Call::DigitalWrite);
        VF_CHECK(c && c->a == pin, "pin", "pin %ld was written, the output is on %d", c ? c->a : -1, pin);
        VF_CHECK(c->b == (want != low), "level", "level %ld for state %d, active on low %d", c->b, want, low);
        VF_CHECK(d.state() == (want ? LogicalState::ON : LogicalState::OFF), "state", "reports %d, commanded %d", d.state(), want);
        size_t before = count(Call::DigitalWrite);
        switch (r.below(3)) {
        case 0: want = !want, d.flip(); break;
        case 1: want = r.chance(1, 2), d.set_state(want); break;
        default: want = r.chance(1, 2), d.set_state(want ? LogicalState::ON : LogicalState::OFF);
        }
        vf::op("%d", want);
        VF_CHECK(count(Call::DigitalWrite) > before, "not-told", "the board was not told");
        VF_EV("digital.write");
    }
    vf::nontrivial();
}
VF_SCENARIO(digital_input, 0.5) {
    const uint8_t pin = static_cast<uint8_t>(r.below(256));
    const bool pull = r.chance(1, 2);
    const bool bare = !pull && r.chance(1, 2); // what has a default is left out
    HAL::DigitalInput d(bare ? HAL::DigitalInput::Config{.pin = pin} : HAL::DigitalInput::Config{.pin = pin, .pull_up = pull});
    r.chance(1, 2) ? d.initialize() : start(d);
    const Call* m = last(Call::PinMode);
    VF_CHECK(m && m->a == pin && m->b == (pull ? kModePull : kModeIn), "mode", "pin %d pull-up %d: the board was told pin %ld mode %ld", pin, pull, m ? m->a : -1, m ? m->b : -1);
    VF_CHECK(!count(Call::DigitalWrite), "drive", "an input was driven");
    for (int i = 0; i < 4; ++i) {
        for (int p = 0; p < 256; ++p) board().digital[p] = static_cast<int>(r.below(2));
        const bool on = r.chance(1, 2) ? d.state() : is_on(d);
        VF_CHECK(on == (board().digital[pin] != 0), "level", "pin %d is %d, read as %d", pin, board().digital[pin], on);
    }
    vf::op("in%d %d", pin, pull);
    VF_EV("digital.read");
    vf::nontrivial();
}
VF_SCENARIO(analogue_output, 1.0) {
    const uint8_t pin = static_cast<uint8_t>(r.below(256));
    const bool low = r.chance(1, 2);
    const uint8_t bits = r.pick<uint8_t>({8, 8, 10, 12, 16, static_cast<uint8_t>(r.range(1, 16))});
    const int full = (1 << bits) - 1;
    const bool bare = bits == 8 && r.chance(1, 2); // what has a default is left out
    HAL::AnalogueOutput a(bare ? HAL::AnalogueOutput::Config{.pin = pin, .active_on_low = low} : HAL::AnalogueOutput::Config{.pin = pin, .active_on_low = low, .resolution = bits});
    r.chance(1, 2) ? a.initialize() : start(a);
    vf::op("pin%d low%d %dbit", pin, low, bits);
    VF_CHECK(board().calls.front().kind == Call::Resolution && board().calls.front().a == bits, "resolution", "the resolution was not set first");
    auto told = [&](float v) {
        const Call* c = last(Call::AnalogWrite);
        VF_CHECK(c && c->a == pin, "pin", "pin %ld was written, the output is on %d", c ? c->a : -1, pin);
        VF_CHECK(c->b >= 0 && c->b <= full, "duty-range", "duty %ld for value %.9g, %d bits have %d", c->b, v, bits, full);
        double on = static_cast<double>(low ? full - c->b : c->b);
        VF_CHECK(v != 0.0f || on == 0, "off", "value 0 leaves the output on for %g of %d", on, full);
        VF_CHECK(v != 1.0f || on == full, "full", "value 1 turns the output on for %g of %d", on, full);
        VF_CHECK(std::fabs(on - static_cast<double>(v) * full) <= 1.0 + 1e-4, "duty", "on for %g of %d for value %.9g", on, full, v);
        VF_CHECK(a.value() == v, "value", "reports %.9g, set to %.9g", a.value(), v);
    };
    told(0);
    float prev = -1;
    long prev_duty = 0;
    for (int i = 0, n = r.range(2, 10); i < n; ++i) {
        float v = level(r);
        vf::op("%.9g", v);
        if (r.chance(1, 5)) {
            size_t before = board().calls.size();
            u64 t = board().now_us;
            a.fade_to(v, 0.2f, k_time_ms(50));
            for (size_t k = before; k < board().calls.size(); ++k) {
                long d = board().calls[k].b;
                VF_CHECK(board().calls[k].kind == Call::AnalogWrite && d >= 0 && d <= full, "fade-duty", "duty %ld during a fade", d);
                if (k > before) VF_CHECK(board().calls[k].at - board().calls[k - 1].at >= 50000, "fade-interval", "%llu us between fade steps", (unsigned long long)(board().calls[k].at - board().calls[k - 1].at));
            }
            if (board().now_us > t) VF_EV("analogue.fade");
        } else
            a.set_value(v);
        told(v);
        long duty = last(Call::AnalogWrite)->b;
        if (prev >= 0 && prev < v) VF_CHECK(low ? duty <= prev_duty : duty >= prev_duty, "monotone", "duty %ld for %.9g, %ld for %.9g", prev_duty, prev, duty, v);
        prev = v, prev_duty = duty;
        VF_EV("analogue.write");
        if (v == 1.0f) VF_EV("analogue.full");
    }
    vf::nontrivial();
}
VF_SCENARIO(analogue_input, 0.3) {
    const uint8_t pin = static_cast<uint8_t>(r.below(256));
    const bool pull = r.chance(1, 2);
    HAL::AnalogueInput a(HAL::AnalogueInput::Config{.pin = pin, .pull_up = pull});
    r.chance(1, 2) ? a.initialize() : start(a);
    VF_CHECK(count(Call::PinMode) == pull || (!pull && last(Call::PinMode)->b == kModeIn), "mode", "pin mode %ld", last(Call::PinMode) ? last(Call::PinMode)->b : -1);
    if (pull) VF_CHECK(last(Call::PinMode)->a == pin && last(Call::PinMode)->b == kModePull, "mode", "the pull-up was not enabled");
    for (int i = 0; i < 6; ++i) {
        for (int p = 0; p < 256; ++p) board().analog[p] = static_cast<int>(r.below(1024));
        if (r.chance(1, 3)) board().analog[pin] = r.chance(1, 2) ? 0 : 1023;
        int raw = board().analog[pin];
        float v = r.chance(1, 2) ? a.read() : sample(a);
        VF_CHECK(v >= 0 && v <= 1, "range", "reads %.9g", v);
        VF_CHECK(std::fabs(v - raw / 1023.5) < 0.001, "value", "10-bit sample %d reads as %.9g", raw, v);
    }
    vf::op("ain%d %d", pin, pull);
    VF_EV("analogue.read");
    vf::nontrivial();
}
VF_SCENARIO(interrupt, 0.5) {
    const uint8_t pin = r.pick<uint8_t>({2, 3, 18, 19, 20, 21});
    const bool pull = r.chance(1, 2);
    auto trig = [&] { return r.pick<TriggerType>({TriggerType::RISING_EDGE, TriggerType::FALLING_EDGE, TriggerType::RISING_AND_FALLING_EDGE}); };
    auto bits = [](TriggerType t) { return t == TriggerType::RISING_EDGE ? kRising : t == TriggerType::FALLING_EDGE ? kFalling : kChange; };
    TriggerType cur = trig();
    void (*cb)() = r.chance(1, 2) ? cb_a : cb_b;
    HAL::Interrupt in(HAL::Interrupt::Config{.pin = pin, .mode = cur, .pull_up = pull, .callback = cb});
    r.chance(1, 2) ? in.initialize() : start(in);
    const Call* m = last(Call::PinMode);
    VF_CHECK(m && m->a == pin && m->b == (pull ? kModePull : kModeIn), "mode", "pin mode %ld", m ? m->b : -1);
    VF_CHECK(!count(Call::Attach), "attached", "initialising attached the interrupt");
    bool attached = false;
    for (int i = 0, n = r.range(2, 8); i < n; ++i) {
        if (r.chance(2, 3)) {
            size_t before = count(Call::Attach);
            switch (r.below(3)) {
            case 0: in.attach_interrupt(); break;
            case 1: cb = r.chance(1, 2) ? cb_a : cb_b, in.attach_interrupt(cb); break;
            default: cb = r.chance(1, 2) ? cb_a : cb_b, cur = trig(), r.chance(1, 2) ? in.attach_interrupt(cb, cur) : attach(in, cb, cur);
            }
            const Call* c = last(Call::Attach);
            vf::op("attach%d", static_cast<int>(cur));
            VF_CHECK(count(Call::Attach) == before + 1, "not-told", "the board was not told");
            VF_CHECK(c->a == fake::interrupt_of(pin), "number", "interrupt %ld for pin %d", c->a, pin);
            VF_CHECK(c->cb == cb, "callback", "another callback was attached");
            VF_CHECK(c->b == bits(cur), "trigger", "trigger %d became %ld, this core has %d", static_cast<int>(cur), c->b, bits(cur));
            attached = true;
            VF_EV("interrupt.attach");
        } else if (attached) {
            r.chance(1, 2) ? in.detach_interrupt() : detach(in);
            const Call* c = last(Call::Detach);
            vf::op("detach");
            VF_CHECK(c && c->a == fake::interrupt_of(pin), "detach", "interrupt %ld was detached, pin %d has %d", c ? c->a : -1, pin, fake::interrupt_of(pin));
            attached = false;
            VF_EV("interrupt.detach");
        }
    }
    vf::nontrivial();
}
VF_SCENARIO(uart, 1.0) {
    HardwareSerial port;
    port.room = 0;
    const i64 timeout = r.range(1, 5000);
    spn::platform::ArduinoUART::Config cfg{.stream = &port};
    const bool dflt = r.chance(1, 4);
    if (!dflt) cfg.timeout = k_time_ms(timeout);
    HAL::UART u(std::move(cfg));
    u.initialize();
    VF_CHECK(port.timeout == static_cast<unsigned long>(dflt ? 1000 : timeout), "timeout", "the port waits %lu ms, configured %lld", port.timeout, (long long)timeout);
    spn::io::Stream& s = u;
    std::deque<uint8_t> in;
    std::vector<uint8_t> out;
    for (int i = 0, n = r.range(5, 40); i < n; ++i) {
        switch (r.below(6)) {
        case 0: {
            for (int k = 0, c = r.range(1, 12); k < c; ++k) {
                uint8_t b = r.chance(1, 6) ? 0xff : static_cast<uint8_t>(r.below(256));
                in.push_back(b), port.rx.push_back(b);
            }
            vf::op("arrive");
            break;
        }
        case 1: port.room = r.below(12), vf::op("room%zu", port.room); break;
        case 2: {
            uint8_t v = 0xa5;
            bool got = s.read(v);
            vf::op("r%d", got);
            VF_CHECK(got == !in.empty(), "read", "reading one byte says %d with %zu waiting", got, in.size());
            if (got) {
                VF_CHECK(v == in.front(), "byte", "read %02x instead of %02x", v, in.front());
                in.pop_front();
                VF_EV("uart.byte");
            } else
                VF_EV("uart.nothing");
            break;
        }
        case 3: {
            size_t want = static_cast<size_t>(r.range(0, 16));
            std::vector<uint8_t> buf(want + 1, 0x5a);
            size_t got = r.chance(1, 2) ? s.read(buf.data(), want) : s.read(reinterpret_cast<char*>(buf.data()), want);
            vf::op("R%zu=%zu", want, got);
            VF_CHECK(got == std::min(want, in.size()), "bulk-read", "read %zu of %zu with %zu waiting", got, want, in.size());
            for (size_t k = 0; k < got; ++k) {
                VF_CHECK(buf[k] == in.front(), "bulk-byte", "byte %zu differs", k);
                in.pop_front();
            }
            VF_CHECK(buf[want] == 0x5a, "overrun", "read past the end");
            break;
        }
        case 4: {
            uint8_t v = static_cast<uint8_t>(r.below(256));
            bool ok = port.room > 0;
            vf::op("w");
            VF_CHECK((r.chance(1, 2) ? s.write(v) : s.write(static_cast<char>(v))) == ok, "write", "writing one byte says %d", !ok);
            if (ok) out.push_back(v);
            break;
        }
        default: {
            std::string t;
            for (int k = 0, c = r.range(0, 14); k < c; ++k) t += static_cast<char>(r.below(256));
            size_t ok = std::min(t.size(), port.room);
            size_t got = r.chance(1, 2) ? s.write(std::string_view(t)) : s.write(t.data(), t.size());
            vf::op("W%zu=%zu", t.size(), got);
            VF_CHECK(got == ok, "bulk-write", "wrote %zu of %zu, room for %zu", got, t.size(), ok);
            out.insert(out.end(), t.begin(), t.begin() + static_cast<long>(got));
            VF_EV("uart.write");
        }
        }
        VF_CHECK(s.available() == in.size(), "available", "%zu available, %zu waiting", s.available(), in.size());
        VF_CHECK(s.available_for_write() == port.room, "room", "%zu writable, %zu free", s.available_for_write(), port.room);
        VF_CHECK(port.tx == out, "sent", "%zu bytes were sent, %zu written", port.tx.size(), out.size());
    }
    unsigned long f = port.flushes;
    s.flush();
    VF_CHECK(port.flushes == f + 1, "flush", "the port was not flushed");
    vf::nontrivial();
}
VF_SCENARIO(lines, 0.5) { // a buffered stream on top of the serial port
    auto port = std::make_unique<HardwareSerial>();
    auto u = std::make_shared<HAL::UART>(HAL::UART::Config{.stream = port.get()});
    spn::io::BufferedStream b(u, spn::io::BufferedStream::Config{.input_buffer_size = 64, .output_buffer_size = 32, .delimiters = "\r\n"});
    std::deque<std::string> sent;
    std::string wrote;
    port->room = 0;
    int lines = 0;
    for (int i = 0, n = r.range(5, 30); i < n; ++i) {
        if (r.chance(1, 2)) {
            std::string l;
            for (int k = 0, c = r.range(1, 20); k < c; ++k) l += static_cast<char>('a' + r.below(26));
            sent.push_back(l);
            for (char c : l + "\n") port->rx.push_back(static_cast<uint8_t>(c));
        }
        b.pull_in_data();
        vf::op("pull");
        if (r.chance(2, 3) && !sent.empty()) {
            char buf[70];
            size_t len = b.get_next_line(buf, sizeof buf);
            VF_CHECK(std::string(buf, len) == sent.front(), "line", "got '%.*s', sent '%s'", static_cast<int>(len), buf, sent.front().c_str());
            sent.pop_front();
            ++lines;
            VF_EV("lines.received");
        }
        std::string t(r.below(6), 'x');
        for (auto& c : t) c = static_cast<char>('A' + r.below(26));
        size_t q = b.buffered_write(t.data(), t.size());
        wrote += t.substr(0, q);
        port->room = r.below(8);
        b.push_out_data();
        std::string out(port->tx.begin(), port->tx.end());
        VF_CHECK(wrote.compare(0, out.size(), out) == 0, "sent", "sent '%s', wrote '%s'", out.c_str(), wrote.c_str());
    }
    port->room = SIZE_MAX;
    b.push_out_data();
    VF_CHECK(std::string(port->tx.begin(), port->tx.end()) == wrote, "lost", "%zu bytes sent, %zu written", port->tx.size(), wrote.size());
    if (lines > 1) vf::nontrivial();
}
VF_SCENARIO(clock, 0.5) {
    vf::set_clock_us(r.chance(1, 2) ? r.range(0, 4'000'000'000ll) : r.range(0, 4'000'000'000'000ll));
    for (int i = 0; i < 6; ++i) {
        u64 now = board().now_us;
        VF_CHECK(HAL::millis().raw() == static_cast<uint32_t>(now / 1000), "millis", "%lld ms at %llu us", (long long)HAL::millis().raw(), (unsigned long long)now);
        VF_CHECK(HAL::micros().raw() == static_cast<uint32_t>(now), "micros", "%lld us at %llu us", (long long)HAL::micros().raw(), (unsigned long long)now);
        u64 want;
        switch (r.below(6)) {
        case 0: { i64 v = r.range(0, 100000); HAL::delay(k_time_ms(v)), want = static_cast<u64>(v) * 1000; break; }
        case 1: { i64 v = r.range(0, 100); HAL::delay(k_time_s(v)), want = static_cast<u64>(v) * 1000000; break; }
        case 2: { i64 v = r.range(0, 16000); HAL::delay_us(k_time_us(v)), want = static_cast<u64>(v); break; }
        case 3: { uint32_t v = static_cast<uint32_t>(r.range(0, 16000)); HAL::delay_us(v), want = v; break; }
        case 4: { uint32_t v = static_cast<uint32_t>(r.range(0, 100000)); HAL::delay_ms(v), want = static_cast<u64>(v) * 1000; break; }
        default: { i64 v = r.range(0, 100000); HAL::delay_ms(k_time_ms(v)), want = static_cast<u64>(v) * 1000; }
        }
        vf::op("delay %llu", (unsigned long long)want);
        VF_CHECK(board().now_us - now == want, "delay", "waited %llu us instead of %llu", (unsigned long long)(board().now_us - now), (unsigned long long)want);
        VF_EV("clock.delay");
    }
    vf::nontrivial();
}
VF_SCENARIO(monitor, 0.5) { // the serial monitor and halting
    auto text = [](size_t from) { return std::string(Serial.tx.begin() + static_cast<long>(from), Serial.tx.end()); };
    uint32_t baud = r.chance(1, 4) ? 0 : static_cast<uint32_t>(r.range(300, 2000000));
    if (r.chance(1, 4)) baud = 115200, HAL::initialize(ArduinoConfig{}); // what has a default is left out
    else
        HAL::initialize(ArduinoConfig{.baudrate = baud});
    VF_CHECK(Serial.baud == baud, "baud", "the monitor was opened at %lu, configured %u", Serial.baud, baud);
    for (int i = 0; i < 4; ++i) {
        size_t from = Serial.tx.size();
        std::string s;
        for (int k = 0, c = r.chance(1, 3) ? r.range(200, 300) : r.range(0, 30); k < c; ++k) s += static_cast<char>(r.range(32, 126));
        int v = static_cast<int>(r.range(-1000, 1000));
        const char* p = s.c_str();
        switch (r.below(5)) {
        case 0: HAL::print(p); VF_CHECK(text(from) == s, "print", "printed '%s'", text(from).c_str()); break;
        case 1: HAL::println(p); VF_CHECK(text(from) == s + "\r\n", "println", "printed '%s'", text(from).c_str()); break;
        case 2: HAL::println(std::move(v)); VF_CHECK(text(from) == std::to_string(v) + "\r\n", "println", "printed '%s'", text(from).c_str()); break;
        default: {
            HAL::printf("%d:%s", v, p);
            std::string full = std::to_string(v) + ":" + s;
            VF_CHECK(text(from) == full.substr(0, 255), "printf", "%zu of %zu characters were printed: '%s'", text(from).size(), full.size(), text(from).c_str());
            VF_EV("monitor.printf");
        }
        }
        vf::op("print%zu", s.size());
    }
    unsigned long f = Serial.flushes;
    HAL::printflush();
    VF_CHECK(Serial.flushes == f + 1, "printflush", "the monitor was not flushed");
    spn::logging::set_log_level(spn::logging::LogLevel::INFO);
    size_t from = Serial.tx.size();
    u64 now = board().now_us;
    bool halted = false;
    const std::string why = r.chance(1, 3) ? "" : r.pick({"vf reason", "vf 100%", "vf %d %s%n", "vf \"why\""});
    try {
        why.empty() ? HAL::halt() : HAL::halt(why.c_str());
    } catch (const fake::Board::Halted&) {
        halted = true;
    }
    VF_CHECK(halted && !board().interrupts, "halt", "halting left the interrupts on");
    VF_CHECK(text(from).find("alted") != std::string::npos, "halt-message", "halting said '%s'", text(from).c_str());
    VF_CHECK(text(from).find(why) != std::string::npos, "halt-reason", "halting for '%s' said '%s'", why.c_str(), text(from).c_str());
    VF_CHECK(board().now_us >= now, "halt", "time");
    VF_EV("monitor.halt");
    vf::nontrivial();
}
VF_SCENARIO(timers, 0.5) { // the library's timers on the board's clock
    vf::set_clock_us(r.range(0, 4'000'000'000'000ll)); // up to 46 days; the clock rolls over after 49
    namespace st = spn::structure::time;
    const i64 ms = r.range(1, 100000);
    st::Timer t;
    st::AlarmTimer a{k_time_ms(ms)};
    st::IntervalTimer iv{k_time_ms(ms)};
    const u64 start = board().now_us / 1000;
    u64 prev = start;
    for (int i = 0; i < 12; ++i) {
        board().now_us += static_cast<u64>(r.range(0, 1000 * ms / 3));
        const u64 now = board().now_us / 1000;
        VF_CHECK(t.time_since_last(false).raw() == static_cast<i64>(now - start), "timer", "%lld ms instead of %llu", (long long)t.time_since_last(false).raw(), (unsigned long long)(now - start));
        VF_CHECK(a.expired() == (now - start >= static_cast<u64>(ms)), "alarm", "alarm of %lld ms wrong after %llu ms", (long long)ms, (unsigned long long)(now - start));
        bool due = now - prev >= static_cast<u64>(ms);
        VF_CHECK(iv.expired() == due, "interval", "interval of %lld ms wrong after %llu ms", (long long)ms, (unsigned long long)(now - prev));
        if (due) prev = now;
    }
    vf::op("timers %lld", (long long)ms);
    VF_EV("timers");
    vf::nontrivial();
}
// last: these are recorded findings, the timers cannot tell a clock that rolled over from one that went back
VF_SCENARIO(rollover, 0.005) {
    namespace st = spn::structure::time;
    const i64 ms = r.range(1000, 100000);
    const u64 before = (1ull << 32) * 1000 - static_cast<u64>(r.range(1, 900)) * 1000;
    vf::set_clock_us(static_cast<i64>(before));
    st::Timer t;
    st::AlarmTimer a{k_time_ms(ms)};
    st::IntervalTimer iv{k_time_ms(ms)};
    board().now_us += static_cast<u64>(ms) * 1000 + 5000;
    switch (r.below(3)) {
    case 0: {
        const i64 got = t.time_since_last().raw();
        VF_CHECK(got == ms + 5, "timer", "%lld ms measured instead of %lld across the roll-over", (long long)got, (long long)ms + 5);
        break;
    }
    case 1: VF_CHECK(a.expired(), "alarm", "an alarm of %lld ms has not expired %lld ms later, across the roll-over", (long long)ms, (long long)ms + 5); break;
    default: VF_CHECK(iv.expired(), "interval", "an interval of %lld ms has not expired %lld ms later, across the roll-over", (long long)ms, (long long)ms + 5);
    }
}
