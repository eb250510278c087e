// C12: kernel-time arithmetic against 128-bit integers.
#include "vf.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/units/si.hpp"

namespace {
using I = __int128;
template<typename U>
constexpr vf::i64 us_of();
template<>
constexpr vf::i64 us_of<k_time_us>() { return 1; }
template<>
constexpr vf::i64 us_of<k_time_ms>() { return 1000; }
template<>
constexpr vf::i64 us_of<k_time_s>() { return 1000000; }
template<>
constexpr vf::i64 us_of<k_time_m>() { return 60000000; }
template<>
constexpr vf::i64 us_of<k_time_h>() { return 3600000000ll; }
template<>
constexpr vf::i64 us_of<k_time_d>() { return 86400000000ll; }

constexpr vf::i64 kMax = std::numeric_limits<vf::i64>::max(), kMin = std::numeric_limits<vf::i64>::min();
bool fits(I v) { return v >= kMin && v <= kMax; }
I div_half_away(I n, I d) { // d > 0
    I q = n / d, rem = n % d;
    if (rem < 0 ? -rem * 2 >= d : rem * 2 >= d) q += n < 0 ? -1 : 1;
    return q;
}
template<typename From, typename To>
I conv(I v) {
    return div_half_away(v * us_of<From>(), us_of<To>());
}
long long ll(I v) { return static_cast<long long>(v); }

/// values of all sizes, with a preference for rounding boundaries and limits
template<typename A, typename B>
vf::i64 value(vf::Rng& r) {
    vf::i64 ratio = std::max(us_of<A>(), us_of<B>()) / std::min(us_of<A>(), us_of<B>());
    switch (r.below(8)) {
    case 0: return r.range(-20, 20);
    case 1: return r.range(-100000, 100000);
    case 2: return ratio / 2 * r.range(-7, 7) + r.range(-2, 2);
    case 3: return ratio * r.range(-1000, 1000) + ratio / 2 + r.range(-2, 2);
    case 4: return static_cast<vf::i64>(r.next() >> r.below(64));
    case 5: return -static_cast<vf::i64>(r.next() >> r.range(1, 63));
    case 6: {
        // as large as conversion allows
        vf::i64 lim = us_of<A>() > us_of<B>() ? kMax / ratio : kMax;
        return (r.chance(1, 2) ? 1 : -1) * (lim - static_cast<vf::i64>(r.below(1000)));
    }
    default: return (1ll << r.range(20, 55)) + r.range(-3, 3);
    }
}

template<typename F>
void raises(const char* key, F&& f) {
    auto e = vf::catching(f);
    VF_CHECK(e && e->type == "Runtime exception", key, "division by zero raised %s", e ? e->type.c_str() : "no exception");
    VF_EV("divide.by.zero");
}

#define EXACT(got, want, key)                                                                                          \
    do {                                                                                                               \
        auto g_ = (got);                                                                                               \
        I w_ = (want);                                                                                                 \
        VF_CHECK(static_cast<I>(g_) == w_, key, "%s = %lld, exactly %lld (a=%lld [%lldus], b=%lld [%lldus])", #got,    \
                 (long long)g_, ll(w_), (long long)a, (long long)us_of<A>(), (long long)b, (long long)us_of<B>());     \
    } while (0)

template<typename A, typename B>
void pair(vf::Rng& r) {
    int n = 12;
    vf::op("%lld/%lld", (long long)us_of<A>(), (long long)us_of<B>());
    bool rounded = false, large = false;
    for (int i = 0; i < n; ++i) {
        vf::i64 b = value<B, A>(r);
        vf::i64 a = r.chance(1, 2) ? value<A, B>(r) : 0;
        I cb = conv<B, A>(b);
        if (!fits(cb)) {
            b /= us_of<B>() / us_of<A>() * 2;
            cb = conv<B, A>(b);
        }
        if (us_of<A>() > us_of<B>() && b % (us_of<A>() / us_of<B>()) != 0) {
            rounded = true;
            VF_EV("rounded");
        }
        if (b > (1ll << 53) || b < -(1ll << 53)) {
            large = true;
            VF_EV("beyond.double.precision");
        }
        if (a == 0) a = ll(cb) / std::max<vf::i64>(1, r.range(1, 3)) + (cb < kMax - 5 && cb > kMin + 5 ? r.range(-2, 2) : 0); // close to each other
        vf::op("%lld,%lld", (long long)a, (long long)b);
        const A ua(a);
        const B ub(b);
        VF_CHECK(ua.raw() == a, "raw", "raw() is %lld, expected %lld", (long long)ua.raw(), (long long)a);
        // conversion in all spellings
        EXACT(A(ub).raw(), cb, "convert");
        A t(7);
        t = ub;
        EXACT(t.raw(), cb, "assign");
        t = A(3);
        t = B(b);
        EXACT(t.raw(), cb, "assign-temporary");
        if (us_of<B>() >= us_of<A>()) {
            EXACT(B(A(ub)).raw(), b, "round-trip");
            VF_EV("round.trip");
        }
        // addition and subtraction
        if (fits(I(a) + cb)) {
            EXACT((ua + ub).raw(), I(a) + cb, "add");
            t = ua;
            auto& same = (t += ub);
            VF_CHECK(&same == &t, "add-assign-ref", "+= returns another object");
            EXACT(t.raw(), I(a) + cb, "add-assign");
        }
        if (fits(I(a) - cb)) {
            EXACT((ua - ub).raw(), I(a) - cb, "subtract");
            t = ua;
            auto& same = (t -= ub);
            VF_CHECK(&same == &t, "sub-assign-ref", "-= returns another object");
            EXACT(t.raw(), I(a) - cb, "sub-assign");
        }
        if (a != kMin) EXACT((-ua).raw(), -I(a), "negate");
        VF_CHECK(ua.is_negative() == (a < 0), "negative", "is_negative(%lld) is wrong", (long long)a);
        // comparison
        VF_CHECK((ua == ub) == (a == cb), "equal", "== is wrong for %lld and %lld (%lld in the first unit)", (long long)a, (long long)b, ll(cb));
        VF_CHECK((ua != ub) == (a != cb), "not-equal", "!= is wrong for %lld and %lld", (long long)a, (long long)b);
        VF_CHECK((ua < ub) == (a < cb), "less", "< is wrong for %lld and %lld", (long long)a, (long long)b);
        VF_CHECK((ua > ub) == (a > cb), "greater", "> is wrong for %lld and %lld", (long long)a, (long long)b);
        VF_CHECK((ua <= ub) == (a <= cb), "less-equal", "<= is wrong for %lld and %lld", (long long)a, (long long)b);
        VF_CHECK((ua >= ub) == (a >= cb), "greater-equal", ">= is wrong for %lld and %lld", (long long)a, (long long)b);
        if (a == cb) VF_EV("compare.equal");
        // multiplication and division by units
        if (fits(I(a) * cb)) EXACT((ua * ub).raw(), I(a) * cb, "multiply");
        if (cb == 0) {
            raises("divide-zero", [&] { (void)(ua / ub).raw(); });
        } else if (!(a == kMin && cb == -1))
            EXACT((ua / ub).raw(), I(a) / cb, "divide");
        // scalars
        vf::i64 k = r.chance(1, 8) ? 0 : r.chance(1, 4) ? r.range(-1000000, 1000000) : r.range(-9, 9);
        auto scalar = [&](auto s) {
            if (fits(I(a) * k)) {
                EXACT((ua * s).raw(), I(a) * k, "scalar-multiply");
                t = ua;
                t *= s;
                EXACT(t.raw(), I(a) * k, "scalar-multiply-assign");
            }
            if (k == 0) {
                raises("scalar-divide-zero", [&] { (void)(ua / s).raw(); });
                raises("scalar-divide-assign-zero", [&] {
                    t = ua;
                    t /= s;
                });
                EXACT(t.raw(), a, "divide-zero-changed");
            } else if (!(a == kMin && k == -1)) {
                EXACT((ua / s).raw(), I(a) / k, "scalar-divide");
                t = ua;
                t /= s;
                EXACT(t.raw(), I(a) / k, "scalar-divide-assign");
            }
        };
        switch (r.below(6)) {
        case 0: scalar(static_cast<long long>(k)); break;
        case 1:
            if (k >= -32768 && k <= 32767) scalar(static_cast<short>(k));
            break;
        case 2:
            if (k >= 0) scalar(static_cast<uint32_t>(k));
            break;
        default: scalar(static_cast<int>(k));
        }
        if (k >= 0 && r.chance(1, 4)) { // sizes and the like, in place
            const auto s = static_cast<size_t>(k);
            if (fits(I(a) * k)) {
                t = ua;
                t *= s;
                EXACT(t.raw(), I(a) * k, "unsigned-multiply-assign");
            }
            t = ua;
            if (k == 0)
                raises("unsigned-divide-assign-zero", [&] { t /= s; });
            else {
                t /= s;
                EXACT(t.raw(), I(a) / k, "unsigned-divide-assign");
                if (a < 0) VF_EV("negative.by.unsigned");
            }
        }
        if (r.chance(1, 6)) { // fractions that floating point represents exactly
            const int e = static_cast<int>(r.range(1, 8));
            const vf::i64 m = r.range(-100000, 100000);
            t = A(m * (1ll << e));
            t *= 1.0 / (1 << e);
            EXACT(t.raw(), I(m), "fraction-multiply-assign");
            t = A(m);
            t /= 1.0 / (1 << e);
            EXACT(t.raw(), I(m) * (1ll << e), "fraction-divide-assign");
            t = A(m % 1000 * (1ll << e));
            t *= 1.0f / static_cast<float>(1 << e);
            EXACT(t.raw(), I(m % 1000), "fraction-multiply-assign");
            t = A(m);
            raises("fraction-divide-assign-zero", [&] { t /= 0.0; });
            VF_EV("fractional.scalar");
        }
        vf::state(vf::hash_bytes(&a, 8) ^ static_cast<vf::u64>(b));
    }
    if (std::is_same_v<A, B> ? large : (rounded || us_of<A>() < us_of<B>())) vf::nontrivial();
}

template<typename A>
void with(vf::Rng& r) {
    switch (r.below(6)) {
    case 0: return pair<A, k_time_us>(r);
    case 1: return pair<A, k_time_ms>(r);
    case 2: return pair<A, k_time_s>(r);
    case 3: return pair<A, k_time_m>(r);
    case 4: return pair<A, k_time_h>(r);
    default: return pair<A, k_time_d>(r);
    }
}
} // namespace

VF_SCENARIO(kernel_time, 1.0) {
    switch (r.below(6)) {
    case 0: return with<k_time_us>(r);
    case 1: return with<k_time_ms>(r);
    case 2: return with<k_time_s>(r);
    case 3: return with<k_time_m>(r);
    case 4: return with<k_time_h>(r);
    default: return with<k_time_d>(r);
    }
}
// all roundings around every multiple of a half, for every pair of units
template<typename A, typename B>
static void boundary() {
    if constexpr (us_of<A>() > us_of<B>()) {
        vf::i64 ratio = us_of<A>() / us_of<B>();
        for (vf::i64 m = -5; m <= 5; ++m)
            for (vf::i64 o = -2; o <= 2; ++o) {
                vf::i64 v = m * ratio + ratio / 2 + o;
                I want = conv<B, A>(v);
                VF_CHECK(A(B(v)).raw() == want, "half", "%lld of %lldus in units of %lldus is %lld, exactly %lld", (long long)v, (long long)us_of<B>(),
                         (long long)us_of<A>(), (long long)A(B(v)).raw(), ll(want));
                VF_EV("half.boundary");
            }
    }
}
template<typename A>
static void boundaries() {
    boundary<A, k_time_us>();
    boundary<A, k_time_ms>();
    boundary<A, k_time_s>();
    boundary<A, k_time_m>();
    boundary<A, k_time_h>();
    boundary<A, k_time_d>();
}
VF_SCENARIO(rounding_boundaries, 0.0001) {
    vf::op("all pairs");
    boundaries<k_time_us>();
    boundaries<k_time_ms>();
    boundaries<k_time_s>();
    boundaries<k_time_m>();
    boundaries<k_time_h>();
    boundaries<k_time_d>();
    vf::nontrivial();
}
