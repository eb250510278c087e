// C02: LineBuffer against an ideal byte queue split at delimiters.
#include "vf.hpp"
#include "spine/structure/linebuffer.hpp"

using spn::structure::LineBuffer;

static std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        char b[8];
        if (c > 32 && c < 127) o += static_cast<char>(c);
        else {
            snprintf(b, sizeof b, "\\%02x", c);
            o += b;
        }
    }
    return o;
}

struct M {
    std::string q;
    size_t cap;
    std::string delims;
    /// length including delimiter, 0 = none
    size_t line() const {
        for (size_t i = 0; i < q.size(); ++i)
            if (delims.find(q[i]) != std::string::npos) return i + 1;
        return 0;
    }
};

static void compare(LineBuffer& b, const M& m) {
    VF_CHECK(b.used_space() == m.q.size(), "used", "used %zu expected %zu", b.used_space(), m.q.size());
    VF_CHECK(b.free_space() == m.cap - m.q.size(), "free", "free %zu expected %zu", b.free_space(), m.cap - m.q.size());
    const size_t step = m.q.size() > 600 ? m.q.size() / 97 : 1; // large buffers: a sample
    for (size_t i = 0; i < m.q.size(); i += step) {
        char c = 0;
        VF_CHECK(b.peek_at(c, i) && c == m.q[i], "content", "byte %zu of '%s' is %02x", i, esc(m.q).c_str(), (unsigned char)c);
    }
    VF_CHECK(b.length_of_next_line() == m.line(), "length", "length_of_next_line %zu expected %zu in '%s'", b.length_of_next_line(), m.line(), esc(m.q).c_str());
    VF_CHECK(b.has_line() == (m.line() > 0), "has-line", "has_line %d in '%s'", b.has_line(), esc(m.q).c_str());
}

static void run(vf::Rng& r, size_t cap, int steps, u_int64_t rarity = 5) { // one byte in `rarity` is a delimiter
    static const std::vector<std::string> sets = {"\r\n", "\n", ";", "\r\n;", std::string("\0", 1), "a", "\xff\x80"};
    std::string d = r.chance(1, 2) ? sets[0] : r.pick(sets);
    M m;
    m.cap = cap;
    m.delims = d;
    // heap copies of exact size: reading past the delimiter set is caught as well
    auto keep = std::make_unique<std::vector<std::unique_ptr<char[]>>>();
    auto own = [&](const std::string& s) {
        keep->emplace_back(new char[s.size()]);
        memcpy(keep->back().get(), s.data(), s.size());
        return std::string_view(keep->back().get(), s.size());
    };
    bool use_default = d == sets[0] && r.chance(1, 3);
    LineBuffer b = use_default ? LineBuffer(cap) : LineBuffer(cap, own(d));
    vf::op("cap=%zu delims=%s", cap, esc(d).c_str());
    VF_CHECK(std::string(b.delimiters()) == d, "delimiters", "delimiters() differs");
    size_t in = 0, wrapped_views = 0, lines = 0;
    auto byte = [&]() -> char {
        if (r.chance(1, rarity)) return m.delims[r.below(m.delims.size())];
        if (r.chance(1, 2 * rarity)) return static_cast<char>(r.below(256));
        return static_cast<char>('b' + r.below(20));
    };
    for (int i = 0; i < steps; ++i) {
        if (r.chance(1, 30)) { // moved into another buffer and back
            vf::op("move");
            LineBuffer other(std::move(b));
            compare(other, m);
            b = std::move(other);
            VF_EV("moved");
        }
        switch (r.below(10)) {
        case 0:
        case 1:
        case 2: {
            size_t len = r.below(cap + 2);
            std::string s;
            for (size_t k = 0; k < len; ++k) s += byte();
            vf::op("push '%s'", esc(s).c_str());
            size_t want = std::min(len, cap - m.q.size());
            std::string_view v = own(s);
            size_t got = b.push(v);
            VF_CHECK(got == want, "push-result", "push of %zu took %zu, expected %zu", len, got, want);
            m.q += s.substr(0, want);
            in += want;
            break;
        }
        case 3: {
            char c = byte();
            bool roll = r.chance(1, 2);
            vf::op("push1 %02x roll=%d", (unsigned char)c, roll);
            bool want = m.q.size() < cap || roll;
            if (m.q.size() == cap && roll) m.q.erase(0, 1);
            if (want) m.q += c, ++in;
            VF_CHECK(b.push(c, roll) == want, "push1-result", "push of a byte returned %d", !want);
            break;
        }
        case 4:
        case 5: {
            size_t len = m.line();
            vf::op("view");
            bool pass_len = r.chance(1, 2);
            auto v = pass_len ? b.get_next_line_view(b.length_of_next_line()) : b.get_next_line_view();
            VF_CHECK(bool(v) == (len > 0), "view-presence", "view present=%d, line expected=%d", bool(v), len > 0);
            if (v) {
                ++lines;
                VF_CHECK(v->size() == len - 1, "view-length", "view is %zu long, expected %zu", v->size(), len - 1);
                std::string got(*v); // reads every byte: out of storage is caught by the sanitizer
                VF_CHECK(got == m.q.substr(0, len - 1), "view-content", "view '%s' expected '%s'", esc(got).c_str(), esc(m.q.substr(0, len - 1)).c_str());
                size_t start = (in - m.q.size()) % cap;
                if (start + len > cap) {
                    ++wrapped_views;
                    VF_EV("view.of.wrapped.line");
                }
                compare(b, m); // viewing changes nothing
                // the view is still right after non-modifying calls
                b.length_of_next_line();
                (void)b.has_line();
                VF_CHECK(std::string(*v) == m.q.substr(0, len - 1), "view-stable", "view changed by a read-only call");
                auto v2 = b.get_next_line_view();
                VF_CHECK(v2 && std::string(*v2) == got, "view-again", "second view differs");
                VF_CHECK(std::string(*v) == got, "view-stable", "first view invalidated by a second view");
            }
            break;
        }
        case 6:
        case 7: {
            size_t len = m.line();
            size_t max = r.chance(1, 3) ? r.below(cap + 2) : len + r.below(3);
            vf::op("copy(max=%zu)", max);
            std::unique_ptr<char[]> out(new char[max]);
            memset(out.get(), 0x5a, max);
            size_t got = r.chance(1, 2) ? b.get_next_line(out.get(), max, b.length_of_next_line()) : b.get_next_line(out.get(), max);
            if (len == 0 || len > max) {
                VF_CHECK(got == 0, "copy-refused", "copy returned %zu without a fitting line (line %zu, max %zu)", got, len, max);
                for (size_t k = 0; k < max; ++k) VF_CHECK(out[k] == 0x5a, "copy-touch", "refused copy wrote to the destination");
                if (len) VF_EV("copy.too.small");
            } else {
                ++lines;
                VF_CHECK(got == len - 1, "copy-length", "copy returned %zu, expected %zu", got, len - 1);
                VF_CHECK(std::string(out.get(), len - 1) == m.q.substr(0, len - 1), "copy-content", "copied '%s' expected '%s'", esc(std::string(out.get(), len - 1)).c_str(), esc(m.q.substr(0, len - 1)).c_str());
                VF_CHECK(out[len - 1] == '\0', "copy-terminator", "copy is not null-terminated");
                for (size_t k = len; k < max; ++k) VF_CHECK(out[k] == 0x5a, "copy-beyond", "copy wrote beyond the terminator");
                m.q.erase(0, len);
                VF_EV("copy.line");
                if (len == max) VF_EV("copy.exact.fit");
            }
            break;
        }
        case 8: {
            size_t len = m.line();
            vf::op("drop_line");
            bool got = r.chance(1, 2) ? b.drop_next_line() : b.drop_next_line(b.length_of_next_line());
            VF_CHECK(got == (len > 0), "drop-result", "drop_next_line returned %d", got);
            m.q.erase(0, len);
            if (len) VF_EV("drop.line");
            break;
        }
        default:
            if (r.chance(1, 3)) {
                m.delims = r.pick(sets);
                vf::op("delims=%s", esc(m.delims).c_str());
                b.set_delimiters(own(m.delims));
                VF_EV("set_delimiters");
            } else if (r.chance(1, 3)) {
                size_t k = r.below(m.q.size() + 1);
                if (k) {
                    vf::op("drop_first(%zu)", k);
                    b.drop_first(k);
                    m.q.erase(0, k);
                }
            } else {
                char c;
                vf::op("pop");
                bool ok = b.pop(c);
                VF_CHECK(ok == !m.q.empty() && (!ok || c == m.q[0]), "pop", "pop wrong");
                if (ok) m.q.erase(0, 1);
            }
        }
        compare(b, m);
        vf::state(vf::mix(m.line()) ^ vf::mix(m.q.size() * 64 + cap) ^ vf::mix(in % cap + 7777));
    }
    if (lines > 1 && in > cap) vf::nontrivial();
}

VF_SCENARIO(small, 1.0) { run(r, static_cast<size_t>(r.range(1, 12)), 60); }
VF_SCENARIO(medium, 0.3) { run(r, static_cast<size_t>(r.range(12, 70)), 80); }

// lines around the limits of narrower counters
VF_SCENARIO(large, 0.01) {
    size_t base = r.pick<size_t>({128, 256, 256, 1024, 32768, 65536, 65536});
    run(r, base + static_cast<size_t>(r.range(-2, 40)), 40, base / r.pick<size_t>({1, 2, 4}));
    VF_EV("large");
}

VF_SCENARIO(very_long_line, 0.003) {
    const size_t len = static_cast<size_t>(r.pick<vf::i64>({256, 32768, 65536, 65536}) + r.range(-3, 3)), cap = len + static_cast<size_t>(r.range(1, 300));
    LineBuffer b(cap, "\n");
    vf::op("line of %zu in %zu", len, cap);
    for (int lap = 0; lap < 4; ++lap) { // the later laps wrap around the end of storage
        std::string s;
        for (size_t k = 0; k < len; ++k) s += static_cast<char>('a' + r.below(26));
        VF_CHECK(b.push(std::string_view(s + "\n")) == len + 1, "long-push", "a line of %zu was not taken whole", len);
        VF_CHECK(b.length_of_next_line() == len + 1 && b.has_line() && b.used_space() == len + 1, "long-length", "length %zu of %zu", b.length_of_next_line(), len + 1);
        auto v = b.get_next_line_view();
        VF_CHECK(v && *v == s, "long-view", "the view of a line of %zu differs", len);
        if (r.chance(1, 2)) VF_CHECK(b.drop_next_line(), "long-drop", "drop refused");
        else {
            std::unique_ptr<char[]> out(new char[len + 1]);
            VF_CHECK(b.get_next_line(out.get(), len) == 0 && b.used_space() == len + 1, "long-small", "copied into a destination one too small");
            VF_CHECK(b.get_next_line(out.get(), len + 1) == len && s == out.get(), "long-copy", "the copy of a line of %zu differs", len);
        }
        VF_CHECK(b.used_space() == 0, "long-rest", "%zu left", b.used_space());
    }
    vf::nontrivial();
    VF_EV("very.long.line");
}

// every wrap offset x line length for one capacity: a line placed at each offset is viewed, copied and dropped intact
VF_SCENARIO(every_offset, 0.02) {
    size_t cap = static_cast<size_t>(r.range(2, 24));
    vf::op("cap=%zu all offsets x lengths", cap);
    for (size_t off = 0; off < cap; ++off)
        for (size_t len = 0; len + 1 <= cap; ++len) {
            LineBuffer b(cap, "\n");
            for (size_t k = 0; k < off; ++k) b.push('x');
            for (size_t k = 0; k < off; ++k) b.pop();
            std::string s;
            for (size_t k = 0; k < len; ++k) s += static_cast<char>('A' + (k % 26));
            b.push(std::string_view(s + "\n"));
            bool tail = cap - len - 1 > 0;
            if (tail) b.push('z');
            auto v = b.get_next_line_view();
            VF_CHECK(v && std::string(*v) == s, "offset-view", "offset %zu length %zu: view wrong", off, len);
            if (r.chance(1, 2)) {
                std::unique_ptr<char[]> out(new char[len + 1]);
                VF_CHECK(b.get_next_line(out.get(), len + 1) == len && s == out.get(), "offset-copy", "offset %zu length %zu: copy wrong", off, len);
            } else
                VF_CHECK(b.drop_next_line(), "offset-drop", "offset %zu length %zu: drop refused", off, len);
            VF_CHECK(b.used_space() == (tail ? 1u : 0u), "offset-rest", "offset %zu length %zu: %zu bytes left", off, len, b.used_space());
            char c = 0;
            if (tail) VF_CHECK(b.pop(c) && c == 'z', "offset-rest", "byte after the line damaged");
            VF_EV("offset.checked");
        }
    vf::nontrivial();
}
