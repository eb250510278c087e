// C03: input side of BufferedStream under arbitrary arrivals and read failures.
#include "fake_stream.hpp"
#include "spine/io/stream/buffered_stream.hpp"

using spn::io::BufferedStream;

static void run(vf::Rng& r, size_t cap, int steps, int line_bias) {
    auto fs = std::make_shared<FakeStream>();
    static const char* sets[] = {"\r\n", "\n", ";|"};
    std::string_view d = sets[r.below(3)];
    BufferedStream b(fs, BufferedStream::Config{.input_buffer_size = cap, .output_buffer_size = 4, .delimiters = d});
    vf::op("cap=%zu delims=%zu", cap, d.size());
    std::string held; // model of the input buffer
    std::string unread; // model of what the underlying stream still has
    auto has_delim = [&](const std::string& s) {
        for (char c : s)
            if (d.find(c) != std::string_view::npos) return true;
        return false;
    };
    auto line = [&]() -> size_t {
        for (size_t i = 0; i < held.size(); ++i)
            if (d.find(held[i]) != std::string_view::npos) return i + 1;
        return 0;
    };
    auto compare = [&] {
        VF_CHECK(b.input_buffer_space_used() == held.size(), "used", "input used %zu expected %zu", b.input_buffer_space_used(), held.size());
        VF_CHECK(b.input_buffer_space_left() == cap - held.size(), "left", "input left %zu expected %zu", b.input_buffer_space_left(), cap - held.size());
        VF_CHECK(std::string(fs->incoming.begin(), fs->incoming.end()) == unread, "unread", "bytes left in the stream differ: %zu expected %zu", fs->incoming.size(), unread.size());
        VF_CHECK(b.has_line() == (line() > 0), "has-line", "has_line %d expected %d", b.has_line(), line() > 0);
        VF_CHECK(b.length_of_next_line() == line(), "line-length", "length %zu expected %zu", b.length_of_next_line(), line());
    };
    int serial = 0;
    bool overflowed = false, protect = false;
    int got_lines = 0;
    for (int i = 0; i < steps; ++i) {
        switch (r.below(8)) {
        case 0:
        case 1:
        case 2: { // arrivals
            size_t n = r.below(r.chance(1, 4) ? cap * 2 + 3 : 4);
            std::string s;
            for (size_t k = 0; k < n; ++k) s += r.chance(1, static_cast<uint64_t>(line_bias)) ? d[r.below(d.size())] : r.chance(1, 8) ? static_cast<char>(r.below(256)) : static_cast<char>('0' + (serial++ % 10));
            vf::op("arrive %zu '%.*s'", n, 20, s.c_str());
            for (char c : s) fs->incoming.push_back(static_cast<uint8_t>(c));
            unread += s;
            break;
        }
        case 3:
        case 4:
        case 5: { // pull
            fs->read_script.clear();
            int fails = 0;
            if (r.chance(1, 3)) {
                size_t at = r.below(6);
                for (size_t k = 0; k < at; ++k) fs->read_script.push_back(1);
                fs->read_script.push_back(0);
                fails = 1;
            }
            vf::op("pull(fail_at=%zu)", fs->read_script.size());
            size_t fail_at = fails ? fs->read_script.size() - 1 : SIZE_MAX, taken = 0;
            std::string waiting = held.substr(0, line()); // complete line that must survive
            while (!unread.empty()) {
                if (held.size() == cap && has_delim(held)) {
                    protect = true;
                    VF_EV("pull.stopped.to.protect.line");
                    break;
                }
                if (taken == fail_at) {
                    VF_EV("pull.read.failure");
                    break;
                }
                if (held.size() == cap) {
                    held.erase(0, 1);
                    overflowed = true;
                    VF_EV("pull.overflow");
                }
                held += unread[0];
                unread.erase(0, 1);
                ++taken;
            }
            size_t got = b.pull_in_data();
            VF_CHECK(got == taken, "pull-count", "pull_in_data returned %zu, expected %zu", got, taken);
            if (!waiting.empty()) {
                auto v = b.get_next_line_view();
                VF_CHECK(v && std::string(*v) == waiting.substr(0, waiting.size() - 1), "line-damaged", "a waiting line was damaged by a pull");
                VF_EV("pull.with.line.waiting");
            }
            fs->read_script.clear();
            break;
        }
        case 6: { // consume by copy
            size_t len = line();
            std::unique_ptr<char[]> out(new char[cap + 1]);
            vf::op("get_line");
            size_t got = b.get_next_line(out.get(), cap + 1);
            if (len) {
                VF_CHECK(got == len - 1 && std::string(out.get(), got) == held.substr(0, len - 1), "line-content", "line '%.*s' expected '%s'", static_cast<int>(got), out.get(), held.substr(0, len - 1).c_str());
                held.erase(0, len);
                ++got_lines;
                VF_EV("line.read");
            } else
                VF_CHECK(got == 0, "line-phantom", "a line was returned although none is complete");
            break;
        }
        default: {
            size_t len = line();
            auto v = b.get_next_line_view();
            vf::op("view+drop");
            VF_CHECK(bool(v) == (len > 0), "view", "view presence wrong");
            if (v) {
                VF_CHECK(std::string(*v) == held.substr(0, len - 1), "view-content", "view '%s' expected '%s'", std::string(*v).c_str(), held.substr(0, len - 1).c_str());
                ++got_lines;
            }
            VF_CHECK(b.drop_next_line() == (len > 0), "drop", "drop result wrong");
            held.erase(0, len);
        }
        }
        compare();
        vf::state(vf::mix(held.size() * 100 + cap) ^ vf::mix(line()) ^ vf::mix(std::min<size_t>(unread.size(), 3) + 555) ^ vf::mix(overflowed));
    }
    // drain completely: every remaining byte must come out in order
    while (true) {
        size_t len = line();
        if (len) {
            VF_CHECK(b.drop_next_line(), "drain", "drop refused");
            held.erase(0, len);
        }
        size_t taken = 0;
        while (!unread.empty() && !(held.size() == cap && has_delim(held))) {
            if (held.size() == cap) held.erase(0, 1);
            held += unread[0];
            unread.erase(0, 1);
            ++taken;
        }
        VF_CHECK(b.pull_in_data() == taken, "drain-count", "pull count differs while draining");
        compare();
        if (!len && !taken) break;
    }
    VF_CHECK(unread.empty(), "drain-left", "%zu bytes never taken", unread.size());
    if ((overflowed || protect) && got_lines) vf::nontrivial();
}

VF_SCENARIO(small, 1.0) { run(r, static_cast<size_t>(r.range(1, 10)), 70, static_cast<int>(r.range(2, 12))); }
VF_SCENARIO(medium, 0.3) { run(r, static_cast<size_t>(r.range(10, 60)), 100, static_cast<int>(r.range(3, 60))); }
// sizes around the limits of narrower counters
VF_SCENARIO(large, 0.01) {
    const auto cap = static_cast<size_t>(r.pick<vf::i64>({256, 300, 512, 1024, 3000}) + r.range(-6, 14));
    run(r, cap, 60, static_cast<int>(r.range(60, static_cast<vf::i64>(cap) + 50)));
    VF_EV("large");
}
VF_SCENARIO(long_lived, 0.002) { run(r, static_cast<size_t>(r.range(1, 20)), 8000, static_cast<int>(r.range(2, 20))); }
VF_SCENARIO(very_long_line, 0.003) {
    auto fs = std::make_shared<FakeStream>();
    const size_t len = static_cast<size_t>(r.pick<vf::i64>({256, 32768, 65536, 65536}) + r.range(-2, 2)), cap = len + static_cast<size_t>(r.range(1, 300));
    BufferedStream b(fs, BufferedStream::Config{.input_buffer_size = cap, .output_buffer_size = 4, .delimiters = "\n"});
    for (int lap = 0; lap < 3; ++lap) { // the later laps wrap around the end of storage
        std::string s;
        for (size_t k = 0; k < len; ++k) s += static_cast<char>('a' + r.below(26));
        for (char c : s + "\n") fs->incoming.push_back(static_cast<uint8_t>(c));
        vf::op("line of %zu in %zu", len, cap);
        VF_CHECK(b.pull_in_data() == len + 1, "long-pull", "a line of %zu was not pulled whole", len);
        VF_CHECK(b.length_of_next_line() == len + 1 && b.input_buffer_space_used() == len + 1, "long-length", "length %zu of %zu", b.length_of_next_line(), len + 1);
        auto v = b.get_next_line_view();
        VF_CHECK(v && *v == s, "long-view", "the view of a line of %zu differs", len);
        if (r.chance(1, 2)) VF_CHECK(b.drop_next_line(), "long-drop", "drop refused");
        else {
            std::unique_ptr<char[]> out(new char[len + 1]);
            VF_CHECK(b.get_next_line(out.get(), len + 1) == len && s == out.get(), "long-copy", "the copy of a line of %zu differs", len);
        }
        VF_CHECK(b.input_buffer_space_used() == 0, "long-rest", "%zu left", b.input_buffer_space_used());
    }
    vf::nontrivial();
    VF_EV("very.long.line");
}
