// C32: MockStream (and a UART on top of it): both directions are exactly-once, in-order and never mix.
#include "fake_stream.hpp"
#include "spine/io/stream/implementations/mock.hpp"
#include "spine/platform/hal.hpp"

using spn::io::MockStream;

static void run(vf::Rng& r, bool via_uart) {
    size_t icap = static_cast<size_t>(r.range(1, 12)), ocap = static_cast<size_t>(r.range(1, 12));
    if (r.chance(1, 40)) { // beyond what a byte, rarely two, can count
        icap = r.pick({127, 128, 255, 256, 257, 600}), ocap = r.pick({127, 128, 255, 256, 257, 600});
        if (r.chance(1, 20)) (r.chance(1, 2) ? icap : ocap) = 65536 + r.below(500);
    }
    MockStream ms(MockStream::Config{.input_buffer_size = icap, .output_buffer_size = ocap});
    spn::platform::MockUART uart(spn::platform::MockUART::Config{.stream = &ms});
    spn::io::Stream& s = via_uart ? static_cast<spn::io::Stream&>(uart) : static_cast<spn::io::Stream&>(ms);
    vf::op("in=%zu out=%zu uart=%d", icap, ocap, via_uart);
    s.initialize();
    std::deque<uint8_t> in, out;
    uint8_t next = static_cast<uint8_t>(r.below(256));
    bool full = false, drained = false;
    for (int i = 0; i < 60; ++i) {
        switch (r.below(7)) {
        case 0: {
            size_t n = r.below(icap + 3);
            std::vector<uint8_t> v;
            for (size_t k = 0; k < n; ++k) v.push_back(next++);
            vf::op("inject %zu", n);
            ms.inject_bytestream(v);
            for (auto c : v)
                if (in.size() < icap) in.push_back(c);
                else VF_EV("inject.refused");
            break;
        }
        case 1: {
            vf::op("extract");
            auto got = ms.extract_bytestream();
            VF_CHECK(bool(got), "extract", "extract returned nothing");
            VF_CHECK(std::vector<uint8_t>(out.begin(), out.end()) == *got, "extract-content", "extracted %zu bytes, expected %zu or content differs", got->size(), out.size());
            if (!out.empty()) drained = true;
            out.clear();
            break;
        }
        case 2: {
            uint8_t v = 0;
            vf::op("read1");
            bool ok = s.read(v);
            VF_CHECK(ok == !in.empty(), "read1", "read returned %d with %zu available", ok, in.size());
            if (ok) {
                VF_CHECK(v == in.front(), "read1-value", "read %u expected %u", v, in.front());
                in.pop_front();
            }
            break;
        }
        case 3: {
            size_t n = r.below(icap + 2);
            vf::op("read %zu", n);
            std::unique_ptr<uint8_t[]> buf(new uint8_t[n]);
            size_t got = r.chance(1, 2) ? s.read(buf.get(), n) : s.read(reinterpret_cast<char*>(buf.get()), n);
            size_t want = n <= in.size() ? n : 0;
            VF_CHECK(got == want, "read-count", "read(%zu) returned %zu with %zu available", n, got, in.size());
            for (size_t k = 0; k < want; ++k) {
                VF_CHECK(buf[k] == in.front(), "read-value", "byte %zu differs", k);
                in.pop_front();
            }
            break;
        }
        case 4: {
            uint8_t v = next++;
            vf::op("write1");
            bool ok = r.chance(1, 2) ? s.write(v) : s.write(static_cast<char>(v));
            VF_CHECK(ok == (out.size() < ocap), "write1", "write returned %d with %zu of %zu used", ok, out.size(), ocap);
            if (ok) out.push_back(v);
            else VF_EV("write.refused");
            break;
        }
        default: {
            size_t n = r.below(ocap + 3);
            std::string v;
            for (size_t k = 0; k < n; ++k) v += static_cast<char>(next++);
            vf::op("write %zu", n);
            size_t got;
            switch (r.below(3)) {
            case 0: got = s.write(std::string_view(v)); break;
            case 1: got = s.write(v.data(), v.size()); break;
            default: got = s.write(reinterpret_cast<const uint8_t*>(v.data()), v.size());
            }
            size_t want = std::min(n, ocap - out.size());
            VF_CHECK(got == want, "write-count", "write(%zu) returned %zu, expected %zu", n, got, want);
            for (size_t k = 0; k < want; ++k) out.push_back(static_cast<uint8_t>(v[k]));
            if (want < n) VF_EV("write.refused");
        }
        }
        s.flush();
        if (out.size() == ocap) full = true;
        if (in.size() > 255) VF_EV("input.beyond.a.byte");
        if (out.size() > 255) VF_EV("output.beyond.a.byte");
        if (in.size() > 65535 || out.size() > 65535) VF_EV("beyond.16bit");
        VF_CHECK(s.available() == in.size(), "available", "available %zu expected %zu", s.available(), in.size());
        VF_CHECK(s.available_for_write() == ocap - out.size(), "writable", "available_for_write %zu expected %zu", s.available_for_write(), ocap - out.size());
        vf::state(vf::mix(in.size() * 100 + out.size()) ^ vf::mix(icap * 64 + ocap));
    }
    if (full && drained) vf::nontrivial();
}
VF_SCENARIO(mock_stream, 1.0) { run(r, false); }
VF_SCENARIO(uart_over_mock_stream, 1.0) {
    run(r, true);
    VF_EV("uart");
}
