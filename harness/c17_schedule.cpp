// C17: a day schedule against a table of 86400 seconds.
#include "vf.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/time/schedule.hpp"

using spn::structure::time::Schedule;
using vf::i64;
namespace {
constexpr i64 kDay = 86400;
struct B {
    i64 start, len;
    float value;
};
/// Schedule takes its blocks as an initializer list
Schedule make(const std::vector<B>& b, bool config) {
    auto k = [&](size_t i) { return Schedule::Block{k_time_s(b[i].start), k_time_s(b[i].len), b[i].value}; };
#define MAKE(...) return config ? Schedule(Schedule::Config{{__VA_ARGS__}}) : Schedule({__VA_ARGS__})
    switch (b.size()) {
    case 1: MAKE(k(0));
    case 2: MAKE(k(0), k(1));
    case 3: MAKE(k(0), k(1), k(2));
    case 4: MAKE(k(0), k(1), k(2), k(3));
    case 5: MAKE(k(0), k(1), k(2), k(3), k(4));
    case 6: MAKE(k(0), k(1), k(2), k(3), k(4), k(5));
    default: MAKE(k(0), k(1), k(2), k(3), k(4), k(5), k(6));
    }
}
std::vector<B> blocks(vf::Rng& r, size_t n) {
    // cut the circle of the day at 2n points or fewer: adjacent blocks share a cut
    i64 grain = n > 7 ? r.pick({1, 60}) : r.pick({1, 1, 60, 900, 3600});
    std::vector<B> res;
    std::set<i64> cuts;
    bool adjacent = r.chance(1, 3);
    size_t need = adjacent ? n + 1 : 2 * n;
    if (grain == 1 && r.chance(1, 4)) cuts.insert(r.pick({kDay - 1, kDay - 2, i64(1)})); // next to midnight
    while (cuts.size() < need) cuts.insert(static_cast<i64>(r.below(kDay / grain)) * grain);
    std::vector<i64> c(cuts.begin(), cuts.end());
    if (r.chance(1, 4)) c[0] = 0; // midnight itself
    size_t rot = r.below(c.size());
    for (size_t i = 0; i < n; ++i) {
        size_t x = adjacent ? i : 2 * i;
        i64 s = c[(rot + x) % c.size()], e = c[(rot + x + 1) % c.size()];
        if (e <= s) e += kDay;
        if (r.chance(1, 5) && e == kDay + c[0] && c[0] > 0) e = kDay; // ends exactly at midnight
        res.push_back({s, e - s, r.chance(1, 12) ? 0.0f : r.chance(1, 3) ? -static_cast<float>(r.range(1, 9)) : static_cast<float>(r.real(0.001, 100))});
    }
    for (size_t i = n; i > 1; --i) std::swap(res[i - 1], res[r.below(i)]); // any order
    return res;
}
void probe(const Schedule& s, const std::vector<B>& bs, i64 t) {
    float want = 0;
    i64 next = kDay;
    for (auto& b : bs) {
        if ((t >= b.start && t < b.start + b.len) || t + kDay < b.start + b.len) want = b.value;
        if (b.start > t) next = std::min(next, b.start);
    }
    float got = s.value_at(k_time_s(t));
    VF_CHECK(got == want, "value", "value at %02lld:%02lld:%02lld is %g, expected %g", (long long)t / 3600, (long long)t / 60 % 60, (long long)t % 60, got, want);
    i64 gn = s.start_of_next_block(k_time_s(t)).raw();
    VF_CHECK(gn == next, "next", "next block after %lld starts at %lld, expected %lld", (long long)t, (long long)gn, (long long)next);
    VF_EV("probed");
    if (want != 0) VF_EV("inside.block");
    if (next == kDay) VF_EV("no.later.block");
}
void check(vf::Rng& r, const std::vector<B>& bs, const Schedule& s, bool all) {
    bool wraps = false, sorted = true;
    for (size_t i = 0; i < bs.size(); ++i) {
        vf::op("%lld+%lld=%g", (long long)bs[i].start, (long long)bs[i].len, bs[i].value);
        wraps |= bs[i].start + bs[i].len > kDay;
        sorted &= i == 0 || bs[i - 1].start < bs[i].start;
    }
    if (all)
        for (i64 t = 0; t < kDay; ++t) probe(s, bs, t);
    else {
        for (auto& b : bs)
            for (i64 d = -2; d <= 2; ++d)
                for (i64 e : {b.start + d, b.start + b.len + d}) probe(s, bs, ((e % kDay) + kDay) % kDay);
        for (i64 t : {0ll, 1ll, 86399ll, 43200ll}) probe(s, bs, t);
        for (int i = 0; i < 60; ++i) probe(s, bs, r.below(kDay));
    }
    if (wraps) VF_EV("wraps.midnight");
    if (!sorted) VF_EV("unsorted");
    if (wraps && !sorted) vf::nontrivial();
    vf::u64 h = 1;
    for (auto& b : bs) h = vf::mix(h ^ (b.start * 100000 + b.len));
    vf::state(h);
}
} // namespace

VF_SCENARIO(boundaries, 1.0) {
    auto bs = blocks(r, r.range(1, 7));
    Schedule s = make(bs, r.chance(1, 2));
    check(r, bs, s, false);
    Schedule copy = s; // a copy is a schedule of its own
    check(r, bs, copy, false);
}
VF_SCENARIO(every_second, 0.02) {
    auto bs = blocks(r, r.range(1, 7));
    check(r, bs, make(bs, r.chance(1, 2)), true);
    VF_EV("full.day");
}
VF_SCENARIO(whole_day, 0.05) {
    std::vector<B> bs{{static_cast<vf::i64>(r.below(kDay)), kDay, 3.5f}};
    check(r, bs, make(bs, false), false);
    VF_EV("whole.day.block");
}
VF_SCENARIO(other_units, 0.1) {
    // blocks and times given in hours and minutes
    vf::i64 h = r.below(24), len = r.range(1, 23);
    Schedule s({Schedule::Block{k_time_h(h), k_time_h(len), 2.0f}});
    std::vector<B> bs{{h * 3600, len * 3600, 2.0f}};
    vf::op("%lldh+%lldh", (long long)h, (long long)len);
    for (vf::i64 m = 0; m < 24 * 60; m += r.range(1, 30)) {
        probe(s, bs, m * 60);
        VF_CHECK(s.value_at(k_time_m(m)) == s.value_at(k_time_s(m * 60)), "minutes", "value at minute %lld differs", (long long)m);
    }
}
namespace {
template<size_t... I>
Schedule many(const std::vector<B>& b, std::index_sequence<I...>) {
    return Schedule({Schedule::Block{k_time_s(b[I].start), k_time_s(b[I].len), b[I].value}...});
}
} // namespace
VF_SCENARIO(many_blocks, 0.03) {
    auto bs = blocks(r, 300);
    vf::op("300 blocks");
    Schedule s = many(bs, std::make_index_sequence<300>{});
    for (auto& b : bs)
        for (vf::i64 d = -1; d <= 1; ++d)
            for (vf::i64 e : {b.start + d, b.start + b.len + d}) probe(s, bs, ((e % kDay) + kDay) % kDay);
    VF_EV("many.blocks");
    vf::nontrivial();
}
