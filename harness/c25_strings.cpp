// C25: string helpers on views into exactly sized heap memory.
#include "vf.hpp"
#include "spine/platform/hal.hpp"
#include "spine/core/utils/concatenate.hpp"
#include "spine/core/utils/string.hpp"
#include <charconv>

using namespace spn::core::utils;
namespace {
/// text in a heap block of exactly its size: the address sanitizer sees any byte read outside
struct View {
    char* p;
    std::string copy;
    explicit View(const std::string& s) : p(static_cast<char*>(malloc(s.size() ? s.size() : 1))), copy(s) { memcpy(p, s.data(), s.size()); }
    View(const View&) = delete;
    ~View() { free(p); }
    std::string_view v() const { return {p, copy.size()}; }
    void check() const { VF_CHECK(memcmp(p, copy.data(), copy.size()) == 0, "modified", "the view was modified"); }
};
std::string text(vf::Rng& r, const std::string& alphabet, int max) {
    std::string s;
    int n = r.chance(1, 8) ? 0 : r.range(0, max);
    for (int i = 0; i < n; ++i) s += r.chance(1, 12) ? static_cast<char>(r.below(256)) : alphabet[r.below(alphabet.size())];
    return s;
}
bool in(const std::string& set, char c) { return set.find(c) != std::string::npos; }
std::string show(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        char b[8];
        snprintf(b, sizeof b, c > 32 && c < 127 ? "%c" : "\\x%02x", c);
        o += b;
    }
    return o;
}
} // namespace

VF_SCENARIO(strip, 1.0) {
    static const std::string white = " \f\n\r\t\v";
    for (int i = 0; i < 10; ++i) {
        const bool dflt = r.chance(1, 3);
        std::string delims = dflt ? white : text(r, "ab, \t", 5);
        std::string core = text(r, "xyzab ,", r.chance(1, 4) ? 0 : 10);
        std::string s = delims.empty() ? core : text(r, delims, 5) + core + text(r, delims, 5);
        View v(s), d(delims);
        vf::op("'%s' of '%s'", show(s).c_str(), show(delims).c_str());
        size_t b = 0, e = s.size();
        while (b < s.size() && in(delims, s[b])) ++b;
        while (e > 0 && in(delims, s[e - 1])) --e;
        std::string_view l = dflt ? lstrip(v.v()) : lstrip(v.v(), d.v());
        VF_CHECK(l.size() == s.size() - b && (l.empty() || l.data() == v.p + b), "lstrip", "lstrip('%s') has %zu characters at %td, expected %zu at %zu",
                 show(s).c_str(), l.size(), l.data() - v.p, s.size() - b, b);
        std::string_view t = dflt ? rstrip(v.v()) : rstrip(v.v(), d.v());
        VF_CHECK(t.size() == e && (t.empty() || t.data() == v.p), "rstrip", "rstrip('%s') has %zu characters at %td, expected %zu at 0", show(s).c_str(), t.size(),
                 t.data() - v.p, e);
        std::string_view both = dflt ? lstrip(rstrip(v.v())) : lstrip(rstrip(v.v(), d.v()), d.v());
        VF_CHECK(both.size() == (e > b ? e - b : 0), "both", "stripping both ends of '%s' leaves %zu characters", show(s).c_str(), both.size());
        v.check(), d.check();
        if (!s.empty() && b == s.size()) VF_EV("all.delimiters");
        if (b > 0) VF_EV("stripped.left");
        if (e < s.size()) VF_EV("stripped.right");
        if (s.empty()) VF_EV("empty.view");
        vf::state(vf::hash_bytes(s.data(), s.size()));
    }
    vf::nontrivial();
}
VF_SCENARIO(large, 0.01) {
    // around the widths a narrow length would have
    const size_t n = r.pick({127, 128, 255, 256, 257, 300, 32768, 65535, 65536, 65537, 70000});
    const size_t left = r.chance(1, 2) ? n : r.below(300), right = r.chance(1, 2) ? n : r.below(300);
    const std::string core = "x" + std::string(r.chance(1, 2) ? n : r.below(9), ' ') + "y", s = std::string(left, ' ') + core + std::string(right, '\t');
    View v(s);
    vf::op("large %zu %zu %zu", left, core.size(), right);
    auto l = lstrip(v.v()), t = rstrip(v.v());
    VF_CHECK(l.data() == v.p + left && l.size() == s.size() - left, "lstrip", "lstrip leaves %zu of %zu characters, expected %zu", l.size(), s.size(), s.size() - left);
    VF_CHECK(t.data() == v.p && t.size() == s.size() - right, "rstrip", "rstrip leaves %zu of %zu characters, expected %zu", t.size(), s.size(), s.size() - right);
    VF_CHECK(find_first_of(v.v(), "xyz") == left && find_first_of(v.v(), "y") == left + core.size() - 1, "find-first-of", "the first x is found at %zu, expected %zu",
             find_first_of(v.v(), "xyz"), left);
    std::string p = s.substr(0, left + 1), q = s.substr(left + core.size() - 1);
    {
        View pv(p), qv(q);
        VF_CHECK(starts_with(v.v(), pv.v()) && ends_with(v.v(), qv.v()), "affix", "a prefix of %zu or a suffix of %zu was not recognised", p.size(), q.size());
    }
    p.back() = q.front() = '_';
    {
        View pv(p), qv(q);
        VF_CHECK(!starts_with(v.v(), pv.v()) && !ends_with(v.v(), qv.v()), "affix", "%zu and %zu characters, all but one equal, were taken for a prefix or a suffix", p.size(),
                 q.size());
    }
    // a number with very many digits
    std::string num = "0." + std::string(n, '0') + "1", one = std::string(n, '0') + "1", frac = "0.5" + std::string(n, '0');
    View a(num), b(one), c(frac);
    VF_CHECK(to_float(a.v()) == 0 && to_float(b.v()) == 1 && to_float(c.v()) == 0.5f, "float", "numbers of %zu digits give %g, %g, %g", n, to_float(a.v()), to_float(b.v()),
             to_float(c.v()));
    if (n > 65535) VF_EV("beyond.16bit");
    vf::nontrivial();
}
VF_SCENARIO(affixes, 1.0) {
    for (int i = 0; i < 10; ++i) {
        std::string s = text(r, "ab", 8), n;
        switch (r.below(6)) {
        case 0: n = s.substr(0, r.below(s.size() + 1)); break;
        case 1: n = s.substr(s.size() - r.below(s.size() + 1)); break;
        case 2: n = s + text(r, "ab", 3); break;
        case 3: n = text(r, "ab", 3) + s; break;
        default: n = text(r, "ab", 8);
        }
        View v(s), w(n);
        vf::op("'%s' '%s'", show(s).c_str(), show(n).c_str());
        bool starts = n.size() <= s.size() && s.substr(0, n.size()) == n, ends = n.size() <= s.size() && s.substr(s.size() - n.size()) == n;
        VF_CHECK(starts_with(v.v(), w.v()) == starts, "starts-with", "starts_with('%s', '%s') is %d", show(s).c_str(), show(n).c_str(), !starts);
        VF_CHECK(ends_with(v.v(), w.v()) == ends, "ends-with", "ends_with('%s', '%s') is %d", show(s).c_str(), show(n).c_str(), !ends);
        size_t want = std::string::npos;
        for (size_t k = s.size(); k-- > 0;)
            if (in(n, s[k])) want = k;
        VF_CHECK(find_first_of(v.v(), w.v()) == want, "find-first-of", "find_first_of('%s', '%s') is %zu, expected %zu", show(s).c_str(), show(n).c_str(),
                 find_first_of(v.v(), w.v()), want);
        v.check(), w.check();
        if (n.size() > s.size()) VF_EV("needle.longer");
        if (starts && !n.empty()) VF_EV("prefix");
        if (ends && !n.empty()) VF_EV("suffix");
        if (want == std::string::npos) VF_EV("not.found");
    }
    vf::nontrivial();
}
VF_SCENARIO(floats, 1.0) {
    for (int i = 0; i < 10; ++i) {
        std::string s;
        char b[64];
        switch (r.below(7)) {
        case 0: s = std::to_string(r.range(-100000, 100000)); break;
        case 1: snprintf(b, sizeof b, "%.*f", (int)r.range(0, 9), r.real(-1e4, 1e4)), s = b; break;
        case 2: snprintf(b, sizeof b, "%.*e", (int)r.range(0, 12), r.real(-10, 10) * std::pow(10.0, r.real(-30, 30))), s = b; break;
        case 3: s = text(r, "0123456789.e-", 9); break;
        case 4: s = text(r, "abc xyz.,-+", 6); break;
        case 5: s = std::string(r.range(1, 60), '0' + r.below(10)) + "." + std::string(r.range(1, 60), '0' + r.below(10)); break;
        default: s = "";
        }
        bool spoiled = false;
        if (r.chance(1, 4) && !s.empty()) { // something behind or inside the number
            static const std::string junk("x,;\0 _", 6);
            s.insert(r.chance(1, 2) ? s.size() : r.below(s.size() + 1), 1, junk[r.below(6)]);
            spoiled = true;
        }
        View v(s);
        vf::op("'%s'", show(s).c_str());
        float got = to_float(v.v());
        v.check();
        // from_chars takes -digits.digitse+-digits only: whatever it takes in whole must be understood
        float want = 0;
        auto [end, ec] = std::from_chars(s.data(), s.data() + s.size(), want);
        bool letters = s.find_first_of("inINxXpP+") != std::string::npos && s.find_first_of("0123456789nN") != std::string::npos;
        bool lead = !s.empty() && isspace(static_cast<unsigned char>(s[0]));
        if (ec == std::errc() && end == s.data() + s.size() && s.find_first_of("nN") == std::string::npos) {
            VF_CHECK(got == want, "float", "to_float('%s') is %.9g, expected %.9g", show(s).c_str(), got, want);
            VF_EV("float.parsed");
        } else if (ec == std::errc::result_out_of_range) {
            VF_EV("float.out.of.range");
        } else if (!letters && !lead) {
            VF_CHECK(got == 0, "not-a-float", "to_float('%s') is %.9g, expected 0", show(s).c_str(), got);
            VF_EV("float.refused");
            if (spoiled) VF_EV("float.with.trailing.text");
        }
        vf::state(vf::hash_bytes(&got, 4));
    }
    vf::nontrivial();
}

// compile-time concatenation
namespace {
constexpr auto kOne = concat("spine");
static_assert(kOne.size() == 6 && kOne[0] == 's' && kOne[4] == 'e' && kOne[5] == '\0');
constexpr auto kThree = concat("ab", "", "cde");
static_assert(kThree.size() == 6 && kThree[0] == 'a' && kThree[1] == 'b' && kThree[2] == 'c' && kThree[4] == 'e' && kThree[5] == '\0');
static_assert(concat().size() == 1 && concat()[0] == '\0');

template<size_t... N>
void join(vf::Rng& r) {
    std::string want;
    auto part = [&](auto n) {
        std::array<char, decltype(n)::value + 1> a{};
        for (size_t i = 0; i + 1 < a.size(); ++i) a[i] = static_cast<char>(r.range(1, 127));
        a.back() = '\0';
        want.append(a.data(), a.size() - 1);
        return a;
    };
    auto parts = std::tuple{part(std::integral_constant<size_t, N>{})...};
    auto got = std::apply([](auto&... p) { return concat(p...); }, parts);
    VF_CHECK(got.size() == want.size() + 1, "concat-length", "concatenation has %zu characters, expected %zu", got.size() - 1, want.size());
    VF_CHECK(memcmp(got.data(), want.c_str(), want.size() + 1) == 0, "concat", "concatenation is '%s', expected '%s'", show(got.data()).c_str(), show(want).c_str());
    VF_EV("concatenated");
}
} // namespace
VF_SCENARIO(concatenate, 0.2) {
    join<0>(r), join<1>(r), join<7>(r), join<0, 0>(r), join<3, 0>(r), join<0, 4>(r), join<5, 6>(r), join<1, 2, 3>(r), join<0, 9, 0>(r), join<2, 0, 2, 1>(r),
        join<1, 1, 1, 1, 1, 1>(r), join<40, 33, 27>(r);
    auto mixed = concat("literal", std::array<char, 3>{'x', 'y', '\0'}, "end");
    VF_CHECK(std::string(mixed.data()) == "literalxyend" && mixed.size() == 13, "concat-mixed", "literals and arrays give '%s'", mixed.data());
    vf::nontrivial();
}
