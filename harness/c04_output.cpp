// C04: output side of BufferedStream under backpressure and write failures: exactly-once, in-order delivery.
#include "fake_stream.hpp"
#include "spine/io/stream/buffered_stream.hpp"

using spn::io::BufferedStream;

static void run(vf::Rng& r, size_t cap, int steps, bool rollover, bool drops = false) {
    auto fs = std::make_shared<FakeStream>();
    BufferedStream b(fs, BufferedStream::Config{.input_buffer_size = 2, .output_buffer_size = cap});
    vf::op("cap=%zu", cap);
    std::deque<uint8_t> queued; // accepted, not delivered
    std::vector<uint8_t> want; // what the stream must have received
    uint8_t next = 0;
    bool failed = false, refused = false, rolled = false;
    auto compare = [&] {
        VF_CHECK(b.output_buffer_space_used() == queued.size(), "used", "output used %zu expected %zu", b.output_buffer_space_used(), queued.size());
        VF_CHECK(b.output_buffer_space_left() == cap - queued.size(), "left", "output left %zu expected %zu", b.output_buffer_space_left(), cap - queued.size());
        VF_CHECK(fs->delivered.size() == want.size(), "delivered-count", "%zu bytes delivered, expected %zu", fs->delivered.size(), want.size());
        VF_CHECK(fs->delivered == want, "delivered", "delivered bytes differ");
        if (want.size() > 5000) want.clear(), fs->delivered.clear(); // compared
    };
    auto flush = [&] {
        size_t expect = 0;
        size_t win = fs->write_window;
        for (size_t k = 0; k < win && !queued.empty(); ++k) {
            bool ok = k >= fs->write_script.size() || fs->write_script[k];
            if (!ok) {
                failed = true;
                VF_EV("flush.write.failed");
                break;
            }
            want.push_back(queued.front());
            queued.pop_front();
            ++expect;
        }
        size_t got = b.push_out_data();
        VF_CHECK(got == expect, "flush-count", "push_out_data returned %zu, expected %zu", got, expect);
        if (expect) VF_EV("flush.delivered");
        if (!queued.empty()) VF_EV("flush.partial");
    };
    for (int i = 0; i < steps; ++i) {
        switch (r.below(drops ? 8 : 6)) {
        case 0:
        case 1: { // bulk write
            size_t n = r.below(cap + 3);
            std::string s;
            for (size_t k = 0; k < n; ++k) s += static_cast<char>(next++);
            bool roll = rollover && r.chance(1, 2);
            vf::op("write(%zu%s)", n, roll ? ",rollover" : "");
            size_t expect = 0;
            for (char c : s) {
                if (queued.size() == cap) {
                    if (!roll) {
                        refused = true;
                        VF_EV("write.refused");
                        break;
                    }
                    queued.pop_front();
                    rolled = true;
                    VF_EV("write.rollover");
                }
                queued.push_back(static_cast<uint8_t>(c));
                ++expect;
            }
            std::unique_ptr<char[]> exact(new char[n]);
            memcpy(exact.get(), s.data(), n);
            size_t got = !roll && r.chance(1, 2) ? b.buffered_write(std::string_view(exact.get(), n)) : b.buffered_write(exact.get(), n, roll);
            VF_CHECK(got == expect, "write-count", "buffered_write of %zu returned %zu, expected %zu", n, got, expect);
            break;
        }
        case 2: { // single byte
            uint8_t c = next++;
            bool roll = rollover && r.chance(1, 2);
            vf::op("write1%s", roll ? "(rollover)" : "");
            bool ok = queued.size() < cap || roll;
            if (queued.size() == cap && roll) queued.pop_front(), rolled = true;
            if (ok) queued.push_back(c);
            size_t got = roll ? b.buffered_write(c, true) : b.buffered_write(c);
            VF_CHECK(got == (ok ? 1u : 0u), "write1-count", "buffered_write of one byte returned %zu, expected %d", got, ok);
            break;
        }
        case 6:
        case 7: { // bytes are taken back: the oldest or the newest, all of them for 0
            if (!r.chance(1, 2)) break;
            const bool last = r.chance(1, 2);
            const size_t n = r.chance(1, 4) ? 0 : r.chance(1, 4) ? r.below(3 * cap + 2) : r.below(cap + 1);
            const size_t expect = n == 0 ? queued.size() : std::min(n, queued.size());
            vf::op("drop_%s(%zu)", last ? "last" : "first", n);
            const size_t got = last ? b.output_buffer_drop_last(n) : b.output_buffer_drop_first(n);
            VF_CHECK(got == expect, "drop-count", "dropping %zu of %zu bytes reports %zu", n, queued.size(), got);
            for (size_t k = 0; k < expect; ++k) last ? queued.pop_back() : queued.pop_front();
            if (expect) VF_EV("dropped");
            break;
        }
        default: { // flush with a window and failures
            fs->write_window = r.chance(1, 4) ? 0 : r.below(cap + 3);
            fs->write_script.clear();
            if (r.chance(1, 2)) {
                size_t at = r.below(cap + 1);
                for (size_t k = 0; k < at; ++k) fs->write_script.push_back(1);
                fs->write_script.push_back(0);
            }
            vf::op("flush(window=%zu,script=%zu)", fs->write_window, fs->write_script.size());
            flush();
            fs->write_script.clear();
            fs->write_window = 0;
        }
        }
        compare();
        vf::state(vf::mix(cap * 100 + queued.size()) ^ vf::mix(failed * 4 + refused * 2 + rolled));
    }
    // the peer recovers: everything still queued arrives within one flush
    fs->write_window = cap + 1;
    vf::op("final flush");
    flush();
    compare();
    VF_CHECK(queued.empty() && b.output_buffer_space_used() == 0, "final", "%zu bytes stuck", b.output_buffer_space_used());
    if (failed && refused) vf::nontrivial();
}

VF_SCENARIO(plain, 1.0) { run(r, static_cast<size_t>(r.range(1, 12)), 60, false); }
VF_SCENARIO(with_drops, 0.5) { run(r, static_cast<size_t>(r.range(1, 12)), 60, r.chance(1, 2), true); }
VF_SCENARIO(with_rollover, 0.5) { run(r, static_cast<size_t>(r.range(1, 12)), 60, true); }

// fault enumeration: for one message and capacity, fail the write at every single byte position
VF_SCENARIO(fail_at_every_byte, 0.1) {
    size_t cap = static_cast<size_t>(r.range(1, 40));
    vf::op("cap=%zu fail at every byte", cap);
    std::string msg;
    for (size_t k = 0; k < cap; ++k) msg += static_cast<char>(r.below(256));
    size_t pre = r.below(cap); // rotate the storage first
    for (size_t at = 0; at < cap; ++at) {
        auto fs = std::make_shared<FakeStream>();
        BufferedStream b(fs, BufferedStream::Config{.input_buffer_size = 2, .output_buffer_size = cap});
        fs->write_window = pre;
        b.buffered_write(std::string(pre, 'p'));
        b.push_out_data();
        fs->delivered.clear();
        VF_CHECK(b.buffered_write(msg) == cap, "accept", "message not accepted");
        fs->write_window = cap + 5;
        for (size_t k = 0; k < at; ++k) fs->write_script.push_back(1);
        fs->write_script.push_back(0);
        size_t n = b.push_out_data();
        VF_CHECK(n == at, "fault-count", "failure at byte %zu: flush reports %zu", at, n);
        size_t n2 = b.push_out_data();
        VF_CHECK(n2 == cap - at, "fault-count2", "failure at byte %zu: second flush reports %zu of %zu", at, n2, cap - at);
        VF_CHECK(std::string(fs->delivered.begin(), fs->delivered.end()) == msg, "fault-lost", "failure at byte %zu: the peer received something else", at);
        VF_EV("fault.position");
    }
    vf::nontrivial();
}
// sizes around the limits of narrower counters
VF_SCENARIO(large, 0.01) {
    run(r, static_cast<size_t>(r.pick<vf::i64>({256, 256, 1024, 65536}) + r.range(-2, 3)), 25, r.chance(1, 3));
    VF_EV("large");
}
VF_SCENARIO(long_lived, 0.005) { run(r, static_cast<size_t>(r.range(1, 20)), 8000, r.chance(1, 3)); }

// more in a single write than a narrower counter could tell
VF_SCENARIO(single_write, 0.004) {
    size_t cap = static_cast<size_t>(r.pick<vf::i64>({256, 1024, 65536, 65536}) + r.range(-2, 300));
    auto fs = std::make_shared<FakeStream>();
    BufferedStream b(fs, BufferedStream::Config{.input_buffer_size = 2, .output_buffer_size = cap});
    size_t used = r.chance(1, 2) ? 0 : r.below(20);
    std::string before(used, 'b'), text;
    VF_CHECK(b.buffered_write(before) == used, "accept", "message not accepted");
    size_t n = cap - used + static_cast<size_t>(r.range(-3, 3));
    for (size_t k = 0; k < n; ++k) text += static_cast<char>(r.below(256));
    vf::op("cap=%zu used=%zu write(%zu)", cap, used, n);
    size_t fits = std::min(n, cap - used);
    size_t got = b.buffered_write(text.data(), n, false);
    VF_CHECK(got == fits, "write-count", "buffered_write of %zu returned %zu, expected %zu", n, got, fits);
    VF_CHECK(b.output_buffer_space_used() == used + fits, "used", "output used %zu expected %zu", b.output_buffer_space_used(), used + fits);
    fs->write_window = cap + 1;
    size_t out = b.push_out_data();
    VF_CHECK(out == used + fits, "flush-count", "push_out_data returned %zu, expected %zu", out, used + fits);
    VF_CHECK(std::string(fs->delivered.begin(), fs->delivered.end()) == before + text.substr(0, fits), "delivered", "delivered bytes differ");
    VF_EV("single.write");
}
