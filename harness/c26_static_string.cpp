// C26: static strings against std::string.
#include "vf.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/static_string.hpp"

using spn::structure::StaticString;
namespace {
bool in(const std::string& set, char c) { return set.find(c) != std::string::npos; }
std::string text(vf::Rng& r, const std::string& alphabet, size_t n) {
    std::string s;
    for (size_t i = 0; i < n; ++i) s += r.chance(1, 15) ? static_cast<char>(r.below(256)) : alphabet[r.below(alphabet.size())];
    return s;
}
} // namespace
VF_SCENARIO(histories, 1.0) {
    const size_t wish = r.chance(1, 300) ? r.pick({255, 256, 257, 1000, 32768, 65535, 65536, 70000}) : r.pick({0, 1, 7, 15, 16, 17, 64, static_cast<int>(r.range(0, 300))});
    StaticString s(wish);
    const size_t cap = s.capacity();
    const char* where = s.c_str();
    VF_CHECK(cap >= wish, "capacity", "capacity %zu, asked for %zu", cap, wish);
    vf::op("capacity %zu", cap);
    std::string m(s.view()); // the initial content
    VF_CHECK(m.size() <= cap, "initial-size", "size %zu exceeds the capacity", m.size());
    VF_CHECK(m.find_first_not_of('\0') == std::string::npos && *s.c_str() == '\0', "initial", "a new string holds characters nobody wrote");
    const size_t heap0 = vf::heap();
    static const std::string white = " \f\n\r\t\v";
    int edits = 0;
    bool beyond = false, all_delims = false;
    for (int i = 0, n = r.range(8, 50); i < n; ++i) {
        switch (r.below(9)) {
        case 0: { // change the size within the capacity
            size_t to = r.below(cap + 1);
            vf::op("size %zu", to);
            if (r.chance(1, 2)) s.set_size(to);
            else if (to > 0) {
                VF_CHECK(s.data(to) == where, "data", "data() moved");
            } else
                to = m.size();
            VF_CHECK(s.size() == to, "size", "size is %zu, set to %zu", s.size(), to);
            size_t keep = std::min(to, m.size());
            VF_CHECK(memcmp(s.c_str(), m.data(), keep) == 0, "kept", "changing the size from %zu to %zu changed characters", m.size(), to);
            m = std::string(s.view());
            ++edits;
            VF_EV("set.size");
            break;
        }
        case 1: { // ask for more than there is
            size_t to = r.chance(1, 3) ? cap + 1 : cap + r.range(1, 100000);
            vf::op("size %zu", to);
            auto e = vf::catching([&] { r.chance(1, 2) ? s.set_size(to) : (void)s.data(to); });
            VF_CHECK(!vf::kDebug || e, "beyond", "a size beyond the capacity was not reported");
            VF_CHECK(s.size() <= cap && s.capacity() == cap, "beyond", "size %zu, capacity %zu after asking for %zu of %zu", s.size(), s.capacity(), to, cap);
            if (!e) VF_CHECK(s.size() == cap, "limited", "size %zu after asking for %zu, capacity %zu", s.size(), to, cap);
            size_t keep = std::min(s.size(), m.size());
            VF_CHECK(memcmp(s.c_str(), m.data(), keep) == 0, "kept", "asking for too much changed characters");
            if (e) VF_CHECK(s.size() == m.size(), "beyond", "a refused size changed the size");
            m = std::string(s.view());
            beyond = true;
            VF_EV("beyond.capacity");
            break;
        }
        case 2:
        case 3:
        case 4: { // write new content
            const std::string alpha = r.chance(1, 2) ? " \t" : r.chance(1, 2) ? "ab ,\n" : " ";
            size_t len = r.chance(1, 5) ? cap : r.below(cap + 1);
            if (len == 0) break;
            std::string t = text(r, alpha, len);
            if (r.chance(1, 2)) { // delimiters on both ends
                for (size_t k = r.below(len + 1); k-- > 0;) t[k] = ' ';
                for (size_t k = r.below(len + 1); k-- > 0;) t[len - 1 - k] = ',';
            }
            memcpy(s.data(len), t.data(), len);
            m = t;
            vf::op("write %zu", len);
            ++edits;
            break;
        }
        case 5:
        case 6: { // strip
            bool dflt = r.chance(1, 3), left = r.chance(1, 2);
            std::string d = dflt ? white : text(r, " ,ab", r.below(4));
            size_t k = 0;
            if (left)
                while (k < m.size() && in(d, m[k])) ++k;
            else
                while (k < m.size() && in(d, m[m.size() - 1 - k])) ++k;
            if (k == m.size() && k > 0) { all_delims = true; VF_EV("all.delimiters"); }
            if (m.empty()) VF_EV("strip.empty");
            StaticString& back = left ? (dflt ? s.lstrip() : s.lstrip(d)) : (dflt ? s.rstrip() : s.rstrip(d));
            VF_CHECK(&back == &s, "chain", "stripping returns another string");
            if (left) m.erase(0, k);
            else
                m.resize(m.size() - k);
            vf::op("%cstrip %zu", left ? 'l' : 'r', k);
            ++edits;
            VF_EV("strip");
            break;
        }
        default: { // look
            std::string n;
            switch (r.below(5)) {
            case 0: n = m.substr(0, r.below(m.size() + 1)); break;
            case 1: n = m.substr(m.size() - r.below(m.size() + 1)); break;
            case 2: n = m + "x"; break;
            case 3: n = "x" + m; break;
            default: n = text(r, " ,ab", r.below(5));
            }
            if (!n.empty() && r.chance(1, 4)) n[r.below(n.size())] ^= 1;
            char* exact = static_cast<char*>(malloc(n.size() ? n.size() : 1));
            memcpy(exact, n.data(), n.size());
            std::string_view nv(exact, n.size());
            bool starts = n.size() <= m.size() && m.compare(0, n.size(), n) == 0, ends = n.size() <= m.size() && m.compare(m.size() - n.size(), n.size(), n) == 0;
            VF_CHECK(s.starts_with(nv) == starts, "starts-with", "starts_with with a needle of %zu is %d", n.size(), !starts);
            VF_CHECK(s.ends_with(nv) == ends, "ends-with", "ends_with with a needle of %zu is %d", n.size(), !ends);
            free(exact);
            if (n.size() > m.size()) VF_EV("needle.longer");
            if (starts || ends) VF_EV("affix.found");
        }
        }
        VF_CHECK(s.size() == m.size(), "size", "size %zu, expected %zu", s.size(), m.size());
        VF_CHECK(memcmp(s.c_str(), m.data(), m.size()) == 0, "content", "the content differs");
        VF_CHECK(s.c_str()[s.size()] == '\0', "terminated", "the C string is not terminated at its size");
        VF_CHECK(s.view().size() == s.size() && s.view().data() == s.c_str() && s.data() == s.c_str(), "agree", "view, data and C string differ");
        VF_CHECK(s.capacity() == cap && s.c_str() == where, "reallocated", "the string moved or its capacity changed from %zu to %zu", cap, s.capacity());
        vf::state(vf::hash_bytes(m.data(), m.size(), cap));
    }
    (void)heap0;
    if (wish > 65535) VF_EV("large");
    if (edits > 3 && (beyond || all_delims)) vf::nontrivial();
}
