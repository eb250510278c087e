// C27: time text against an independent reader and printer.
#include "vf.hpp"
#include "spine/platform/hal.hpp"
#include "spine/core/utils/time_repr.hpp"

using namespace spn::core::utils;
using vf::i64;
namespace {
const char* kUnit[] = {"us", "ms", "s", "m", "h", "d"};
const i64 kUs[] = {1, 1000, 1000000, 60000000, 3600000000ll, 86400000000ll};
const i64 kCutoff[] = {1000, 1000, 900, 1440, 24, std::numeric_limits<i64>::max()};
using Parsed = decltype(parse_time(""));

i64 raw(const Parsed& p) {
    return std::visit([](const auto& u) { return static_cast<i64>(u.raw()); }, *p);
}
/// what a text means: unit index and count, or nothing
std::optional<std::pair<int, i64>> meaning(const std::string& s) {
    size_t k = 0;
    unsigned __int128 n = 0;
    while (k < s.size() && s[k] >= '0' && s[k] <= '9') {
        n = n * 10 + (s[k] - '0');
        if (n > static_cast<unsigned __int128>(std::numeric_limits<i64>::max())) n = static_cast<unsigned __int128>(1) << 100;
        ++k;
    }
    if (k == 0 || n > static_cast<unsigned __int128>(std::numeric_limits<i64>::max())) return std::nullopt;
    for (int u = 0; u < 6; ++u)
        if (s.substr(k) == kUnit[u]) return std::pair{u, static_cast<i64>(n)};
    return std::nullopt;
}
void parse(const std::string& s) {
    char* exact = static_cast<char*>(malloc(s.size() ? s.size() : 1));
    memcpy(exact, s.data(), s.size());
    vf::op("'%s'", s.c_str());
    auto got = parse_time(std::string_view(exact, s.size()));
    free(exact);
    auto want = meaning(s);
    VF_CHECK(got.has_value() == want.has_value(), want ? "rejected" : "accepted", "'%s' is %s", s.c_str(), want ? "rejected" : "accepted");
    if (want) {
        VF_CHECK(static_cast<int>(got->index()) == want->first, "unit", "'%s' is taken for %s", s.c_str(), kUnit[got->index()]);
        VF_CHECK(raw(got) == want->second, "count", "'%s' gives %lld", s.c_str(), (long long)raw(got));
        VF_EV("parsed");
    } else
        VF_EV("rejected");
    vf::state(vf::hash_bytes(s.data(), s.size()));
}
std::string digits(vf::Rng& r) {
    switch (r.below(7)) {
    case 0: return std::to_string(r.range(0, 2000));
    case 1: return std::string(r.range(1, 25), '0') + std::to_string(r.range(0, 99));
    case 2: return std::to_string(std::numeric_limits<i64>::max() - static_cast<i64>(r.below(3)));
    case 3: return std::to_string(9223372036854775807ull + r.below(4));
    case 4: return std::to_string(r.next() >> r.below(40));
    case 5: {
        std::string s;
        for (int i = 0, n = r.range(15, 40); i < n; ++i) s += static_cast<char>('0' + r.below(10));
        return s;
    }
    default: return std::to_string(r.below(1ull << r.range(1, 62)));
    }
}
template<typename K>
void print(vf::Rng& r, int unit) {
    // as microseconds, around the cutoffs and the rounding boundaries of every unit
    i64 us;
    int u = r.below(6);
    switch (r.below(6)) {
    case 0: us = kUs[u] * (u < 5 ? kCutoff[u] : r.range(1, 400)) + r.range(-2, 2); break;
    case 1: us = kUs[u] * r.range(0, 2000) + kUs[u] / 2 + r.range(-1, 1); break;
    case 2: us = kUs[u] * ((u < 5 ? kCutoff[u] : 30) - 1) + kUs[u] / 2 + r.range(-2, 2); break;
    case 3: us = static_cast<i64>(r.below(1ull << r.range(1, 52))); break;
    case 4: us = kUs[u] * r.range(0, 1500); break;
    default: us = r.range(0, 100 * 365) * 86400000000ll + r.range(0, 86400000000ll);
    }
    us = std::max<i64>(0, us);
    i64 count = us / kUs[unit] + (r.chance(1, 4) ? 1 : 0);
    us = count * kUs[unit];
    std::string got = repr(K(count));
    vf::op("%lld%s->%s", (long long)count, kUnit[unit], got.c_str());
    std::string want;
    for (int k = 0; k < 6; ++k) {
        i64 n = us / kUs[k] + (us % kUs[k] * 2 >= kUs[k] && kUs[k] > 1 ? 1 : 0);
        if (n < kCutoff[k]) {
            want = std::to_string(n) + kUnit[k];
            if (us % kUs[k]) VF_EV("printed.rounded");
            break;
        }
    }
    VF_CHECK(got == want, "repr", "%lld %s prints as '%s', expected '%s'", (long long)count, kUnit[unit], got.c_str(), want.c_str());
    auto back = parse_time(got);
    VF_CHECK(back && std::to_string(raw(back)) + kUnit[back->index()] == got, "round-trip", "'%s' does not parse back to itself", got.c_str());
    VF_EV("printed");
}
} // namespace

VF_SCENARIO(parsing, 1.0) {
    for (int i = 0; i < 12; ++i) {
        std::string s = digits(r) + kUnit[r.below(6)];
        switch (r.below(8)) {
        case 0: s = digits(r) + r.pick({"", "S", "sec", "min", "hh", "u", "n", "ns", "Ms", " s", "s ", "mm", "w", "y", "\xc2\xb5s"}); break;
        case 1: s.insert(r.below(s.size() + 1), 1, r.pick({' ', '-', '+', '.', '1', 's', 'm', 'u', '\0', 'x'})); break;
        case 2: s.erase(r.below(s.size()), 1); break;
        case 3: s = kUnit[r.below(6)]; break;
        case 4: s = r.chance(1, 2) ? "" : "-" + s; break;
        default: break;
        }
        parse(s);
    }
    vf::nontrivial();
}
VF_SCENARIO(any_bytes, 0.3) {
    for (int i = 0; i < 10; ++i) {
        std::string s;
        for (int k = r.range(0, 6); k > 0; --k) s += r.chance(1, 2) ? static_cast<char>('0' + r.below(10)) : r.chance(1, 3) ? static_cast<char>(r.below(256)) : "usmhd"[r.below(5)];
        parse(s);
    }
}
VF_SCENARIO(printing, 1.0) {
    for (int i = 0; i < 10; ++i) switch (r.below(6)) {
        case 0: print<k_time_us>(r, 0); break;
        case 1: print<k_time_ms>(r, 1); break;
        case 2: print<k_time_s>(r, 2); break;
        case 3: print<k_time_m>(r, 3); break;
        case 4: print<k_time_h>(r, 4); break;
        default: print<k_time_d>(r, 5);
        }
    vf::nontrivial();
}
