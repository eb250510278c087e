// C31: point arithmetic is componentwise and magnitudes are Euclidean
#include "vf.hpp"

#include "spine/structure/point.hpp"

using namespace vf;
using spn::structure::XYPoint;
using spn::structure::XYZPoint;

namespace {
template<typename T>
using Arr = std::array<T, 3>;

template<typename P>
struct Dim;
template<typename T>
struct Dim<XYPoint<T>> {
    static constexpr int n = 2;
    using V = T;
    static XYPoint<T> make(const Arr<T>& a) { return XYPoint<T>(a[0], a[1]); }
    static Arr<T> get(const XYPoint<T>& p) { return {p.x, p.y, T(0)}; }
    static T& at(XYPoint<T>& p, int i) { return i == 0 ? p.x : p.y; }
};
template<typename T>
struct Dim<XYZPoint<T>> {
    static constexpr int n = 3;
    using V = T;
    static XYZPoint<T> make(const Arr<T>& a) { return XYZPoint<T>(a[0], a[1], a[2]); }
    static Arr<T> get(const XYZPoint<T>& p) { return {p.x, p.y, p.z}; }
    static T& at(XYZPoint<T>& p, int i) { return i == 0 ? p.x : i == 1 ? p.y : p.z; }
};

template<typename T>
bool same(T a, T b) {
    if constexpr (std::is_floating_point_v<T>) {
        if (a == b) return true;
        if (std::isnan(a) && std::isnan(b)) return true;
        return std::fabs(a - b) <= std::numeric_limits<T>::epsilon() * 4 * std::max(std::fabs(a), std::fabs(b));
    } else {
        return a == b;
    }
}

template<typename T>
T value(Rng& r, bool nonzero = false) {
    if constexpr (std::is_integral_v<T>) {
        i64 lim = sizeof(T) == 8 ? 2000000000ll : sizeof(T) == 4 ? 30000 : 150;
        i64 v = r.chance(1, 5) ? r.range(-2, 2) : r.range(-lim, lim);
        if (std::is_unsigned_v<T> && v < 0) v = -v;
        if (nonzero && v == 0) v = 3;
        return static_cast<T>(v);
    } else {
        double v;
        switch (r.below(6)) {
        case 0: v = static_cast<double>(r.range(-3, 3)); break;
        case 1: v = r.real(-1, 1); break;
        case 2: v = r.real(-1e3, 1e3); break;
        case 3: v = std::ldexp(r.real(-1, 1), static_cast<int>(r.range(-40, 40))); break;
        case 4: v = r.pick({0.0, -0.0, 1.0, -1.0, 3.0, 4.0}); break;
        default: v = r.real(-1e6, 1e6); break;
        }
        if (nonzero && v == 0) v = 0.5;
        return static_cast<T>(v);
    }
}

template<typename T>
std::string show(const Arr<T>& a, int n) {
    char b[120];
    if (n == 2) snprintf(b, sizeof b, "(%.9g, %.9g)", double(a[0]), double(a[1]));
    else snprintf(b, sizeof b, "(%.9g, %.9g, %.9g)", double(a[0]), double(a[1]), double(a[2]));
    return b;
}

template<typename P, typename F>
void expect(const char* what, const P& got, const Arr<typename Dim<P>::V>& a, const Arr<typename Dim<P>::V>& b, F&& f) {
    using D = Dim<P>;
    auto g = D::get(got);
    for (int i = 0; i < D::n; ++i) {
        auto want = f(a[i], b[i]);
        VF_CHECK(same<typename D::V>(g[i], want), what, "%s of %s and %s is %s: component %d should be %.12g", what,
                 show(a, D::n).c_str(), show(b, D::n).c_str(), show(g, D::n).c_str(), i, double(want));
    }
}

template<typename P>
void arithmetic(Rng& r) {
    using D = Dim<P>;
    using T = typename D::V;
    {
        P zero;
        auto z = D::get(zero);
        VF_CHECK(z[0] == T(0) && z[1] == T(0) && z[2] == T(0), "default", "a default point is not the origin");
    }
    Arr<T> a, b;
    for (auto& v : a) v = value<T>(r);
    for (auto& v : b) v = value<T>(r, true);
    if constexpr (std::is_unsigned_v<T>)
        for (int i = 0; i < 3; ++i)
            if (a[i] < b[i]) std::swap(a[i], b[i]);
    if constexpr (std::is_unsigned_v<T>)
        for (auto& v : b)
            if (v == 0) v = 1;
    if constexpr (std::is_unsigned_v<T>)
        for (int i = 0; i < 3; ++i)
            if (a[i] < b[i]) a[i] = b[i];
    const bool alias = r.chance(1, 4);
    if (alias) a = b;
    P pa = D::make(a), pb = D::make(b);
    op("%s,%s", show(a, D::n).c_str(), show(b, D::n).c_str());
    expect("sum", pa + pb, a, b, [](T x, T y) { return static_cast<T>(x + y); });
    expect("difference", pa - pb, a, b, [](T x, T y) { return static_cast<T>(x - y); });
    expect("product", pa * pb, a, b, [](T x, T y) { return static_cast<T>(x * y); });
    expect("dot", pa.dot(pb), a, b, [](T x, T y) { return static_cast<T>(x * y); });
    expect("quotient", pa / pb, a, b, [](T x, T y) { return static_cast<T>(x / y); });
    if constexpr (std::is_integral_v<T>) {
        expect("remainder", pa % pb, a, b, [](T x, T y) { return static_cast<T>(x % y); });
        VF_EV("remainder");
    }
    // the operands are left alone
    expect("left operand", pa, a, a, [](T x, T) { return x; });
    expect("right operand", pb, b, b, [](T x, T) { return x; });
    // equality is componentwise
    {
        P c = D::make(a);
        VF_CHECK(c == pa && !(c != pa), "equal", "a point differs from its equal");
        auto other = static_cast<T>(a[0]);
        for (int mask = 1; mask < (1 << D::n); ++mask) {
            P d = D::make(a);
            for (int i = 0; i < D::n; ++i)
                if (mask >> i & 1) {
                    other = a[i];
                    if constexpr (std::is_floating_point_v<T>) {
                        other = r.chance(1, 2) ? std::nextafter(other, std::numeric_limits<T>::infinity())
                                               : static_cast<T>(other + 1 + std::fabs(other));
                    } else {
                        other = static_cast<T>(other + 1);
                    }
                    D::at(d, i) = other;
                }
            VF_CHECK(!(d == pa) && d != pa && !(pa == d) && pa != d, "unequal", "%s equals %s", show(D::get(d), D::n).c_str(),
                     show(a, D::n).c_str());
            VF_EV("unequal");
        }
    }
    // in place
    {
        P p = pa;
        p.add(pb);
        expect("add", p, a, b, [](T x, T y) { return static_cast<T>(x + y); });
        P q = pa;
        q.subtract(pb);
        expect("subtract", q, a, b, [](T x, T y) { return static_cast<T>(x - y); });
        P s = pa;
        T k = b[r.below(D::n)];
        s.scalar_multiplication(k);
        expect("scale", s, a, b, [k](T x, T) { return static_cast<T>(x * k); });
        P t = pb;
        t.add(t);
        expect("add itself", t, b, b, [](T x, T y) { return static_cast<T>(x + y); });
        P u = pb;
        u.subtract(u);
        expect("subtract itself", u, b, b, [](T x, T y) { return static_cast<T>(x - y); });
        P v = pb;
        int c = static_cast<int>(r.below(D::n));
        T f = D::at(v, c);
        v.scalar_multiplication(D::at(v, c));
        expect("scale by own component", v, b, b, [f](T x, T) { return static_cast<T>(x * f); });
    }
    nontrivial();
    state(hash_bytes(a.data(), sizeof(T) * D::n));
}

template<typename P>
void magnitude(Rng& r) {
    using D = Dim<P>;
    using T = typename D::V;
    Arr<T> a{};
    constexpr int kMaxExp = std::is_same_v<T, float> ? 125 : 480; // lengths of which the square is a double
    const int e = r.chance(1, 3) ? static_cast<int>(r.range(-kMaxExp, kMaxExp)) : static_cast<int>(r.range(-50, 50));
    const int spread = std::abs(e) > 50 ? 30 : 50;
    do {
        for (int i = 0; i < D::n; ++i) {
            switch (r.below(4)) {
            case 0: a[i] = static_cast<T>(std::ldexp(r.real(-1, 1), e)); break;
            case 1: a[i] = T(0); break;
            case 2: a[i] = static_cast<T>(std::ldexp(static_cast<double>(r.range(-5, 5)), std::abs(e) > 50 ? e - 3 : e / 4)); break;
            default: a[i] = static_cast<T>(std::ldexp(r.real(-1, 1), std::min(kMaxExp, static_cast<int>(r.range(-spread, spread)) + (std::abs(e) > 50 ? e : 0)))); break;
            }
        }
    } while (a[0] == 0 && a[1] == 0 && a[2] == 0);
    P p = D::make(a);
    op("mag %s", show(a, D::n).c_str());
    long double sq = 0;
    for (int i = 0; i < D::n; ++i) sq += static_cast<long double>(a[i]) * a[i];
    const long double len = sqrtl(sq);
    const double eps = std::numeric_limits<T>::epsilon() * 16;
    if (len < static_cast<long double>(std::numeric_limits<T>::min()) * 4 || sq < 1e-290L) return; // denormal
    if (len > 1e19L) VF_EV("huge");
    if (len < 1e-19L) VF_EV("tiny");
    VF_CHECK(fabsl(static_cast<long double>(p.mag()) - len) <= eps * len, "magnitude", "%s has magnitude %.12g, not %.12Lg",
             show(a, D::n).c_str(), double(p.mag()), len);
    P n = p;
    n.normalize();
    auto g = D::get(n);
    long double nsq = 0;
    for (int i = 0; i < D::n; ++i) {
        nsq += static_cast<long double>(g[i]) * g[i];
        VF_CHECK(fabsl(static_cast<long double>(g[i]) - a[i] / len) <= eps, "normalized-component",
                 "%s normalised is %s: component %d should be %.12Lg", show(a, D::n).c_str(), show(g, D::n).c_str(), i,
                 a[i] / len);
    }
    VF_CHECK(fabsl(sqrtl(nsq) - 1) <= eps, "unit-length", "%s normalised has length %.12Lg", show(a, D::n).c_str(), sqrtl(nsq));
    VF_EV("normalized");
    nontrivial();
    state(hash_bytes(a.data(), sizeof(T) * D::n));
}

/// whole lengths come out whole
template<typename P>
void whole(Rng& r) {
    using D = Dim<P>;
    using T = typename D::V;
    const i64 k = r.range(1, sizeof(T) == 2 ? 1000 : 60000);
    Arr<T> a{};
    i64 len;
    const int s = std::is_unsigned_v<T> || r.chance(1, 2) ? 1 : -1, i = static_cast<int>(r.below(D::n)), j = (i + 1) % D::n;
    if (r.chance(1, 2)) {
        a[i] = static_cast<T>(3 * k * s), a[j] = static_cast<T>(4 * k), len = 5 * k;
    } else
        a[i] = static_cast<T>(k * s), len = k;
    P p = D::make(a);
    op("whole %s", show(a, D::n).c_str());
    VF_CHECK(p.mag() == static_cast<T>(len), "magnitude", "%s has magnitude %lld, not %lld", show(a, D::n).c_str(), (long long)p.mag(), (long long)len);
    if (len == k) {
        p.normalize();
        auto g = D::get(p);
        for (int c = 0; c < D::n; ++c)
            VF_CHECK(g[c] == (c == i ? static_cast<T>(s) : T(0)), "normalized-component", "%s normalised is %s", show(a, D::n).c_str(), show(g, D::n).c_str());
    }
    VF_EV("whole.length");
    nontrivial();
    state(hash_bytes(a.data(), sizeof(T) * D::n));
}
} // namespace

VF_SCENARIO(whole_xy, 0.3) {
    r.chance(1, 3) ? whole<XYPoint<int>>(r) : r.chance(1, 2) ? whole<XYPoint<int64_t>>(r) : whole<XYPoint<unsigned>>(r);
}
VF_SCENARIO(whole_xyz, 0.3) {
    r.chance(1, 3) ? whole<XYZPoint<int>>(r) : r.chance(1, 2) ? whole<XYZPoint<int64_t>>(r) : whole<XYZPoint<int16_t>>(r);
}
VF_SCENARIO(xy_int, 1.0) { arithmetic<XYPoint<int>>(r); }
VF_SCENARIO(xyz_int, 1.0) { arithmetic<XYZPoint<int>>(r); }
VF_SCENARIO(xy_int64, 0.5) { arithmetic<XYPoint<int64_t>>(r); }
VF_SCENARIO(xyz_int64, 0.5) { arithmetic<XYZPoint<int64_t>>(r); }
VF_SCENARIO(xy_unsigned, 0.5) { arithmetic<XYPoint<unsigned>>(r); }
VF_SCENARIO(xyz_unsigned, 0.5) { arithmetic<XYZPoint<unsigned>>(r); }
VF_SCENARIO(xyz_int16, 0.5) { arithmetic<XYZPoint<int16_t>>(r); }
VF_SCENARIO(xy_float, 1.0) { arithmetic<XYPoint<float>>(r); }
VF_SCENARIO(xyz_float, 1.0) { arithmetic<XYZPoint<float>>(r); }
VF_SCENARIO(xy_double, 1.0) { arithmetic<XYPoint<double>>(r); }
VF_SCENARIO(xyz_double, 1.0) { arithmetic<XYZPoint<double>>(r); }
VF_SCENARIO(mag_xy_float, 1.0) { magnitude<XYPoint<float>>(r); }
VF_SCENARIO(mag_xyz_float, 1.0) { magnitude<XYZPoint<float>>(r); }
VF_SCENARIO(mag_xy_double, 1.0) { magnitude<XYPoint<double>>(r); }
VF_SCENARIO(mag_xyz_double, 1.0) { magnitude<XYZPoint<double>>(r); }
