// C14: compound units against double arithmetic on physical values.
#include "units.hpp"
#include "spine/structure/units/primitives/compound_unit.hpp"

namespace un {
namespace {
using spn::structure::units::CompoundUnit;
constexpr double kTol = 3e-6;

template<typename N, typename D>
struct Ratio {
    using Num = N;
    using Den = D;
    using type = CompoundUnit<typename N::type, typename D::type>;
    static constexpr double f = N::f / D::f;
};
/// physical value, from the numerator and denominator it was given
template<typename R>
double phys_as(const typename R::type& c) {
    return static_cast<double>(c.numerator().raw()) / static_cast<double>(c.denominator().raw()) * R::f;
}
bool close(double got, double want, double scale, double tol = kTol) { return std::fabs(got - want) <= tol * std::fabs(scale); }
template<typename F>
void raises(const char* key, F&& f) {
    auto e = vf::catching(f);
    VF_CHECK(e && e->type == "Runtime exception", key, "zero divisor raised %s", e ? e->type.c_str() : "no exception");
    VF_EV("zero.divisor");
}
real_t num(vf::Rng& r) {
    switch (r.below(5)) {
    case 0: return static_cast<real_t>(r.range(-50, 50));
    case 1: return static_cast<real_t>(r.range(-2000, 2000)) * 0.125f;
    case 2: return static_cast<real_t>(r.real(-1, 1));
    case 3: return static_cast<real_t>(std::pow(10.0, r.real(-4, 5)) * (r.chance(1, 2) ? 1 : -1));
    default: return static_cast<real_t>(r.range(1, 60)) * 60.0f;
    }
}
real_t den(vf::Rng& r) {
    for (;;) {
        real_t v = num(r);
        if (std::fabs(v) > 1e-3f) return v;
    }
}

template<typename R1, typename R2>
void pair(vf::Rng& r) {
    using C1 = typename R1::type;
    using C2 = typename R2::type;
    using N1 = typename C1::NumeratorType;
    using D1 = typename C1::DenominatorType;
    using N2 = typename C2::NumeratorType;
    using D2 = typename C2::DenominatorType;
    vf::op("%s/%s,%s/%s", R1::Num::name, R1::Den::name, R2::Num::name, R2::Den::name);
    constexpr double f1 = R1::f;
    const auto phys = [](const C1& c) { return phys_as<R1>(c); };
    for (int i = 0; i < 6; ++i) {
        real_t n1 = num(r), d1 = den(r), n2 = num(r), d2 = den(r);
        if (r.chance(1, 3)) { // nearly or exactly the same value
            double v = static_cast<double>(n1) / d1 * f1 / R2::f * r.pick({1.0, 1.001, 0.5, -1.0, 1.0, 1 + 2e-5, 1 - 7e-6});
            n2 = static_cast<real_t>(v * d2);
        }
        vf::op("%g/%g,%g/%g", n1, d1, n2, d2);
        const C1 a{N1(n1), D1(d1)};
        const C2 b{N2(n2), D2(d2)};
        const double va = static_cast<double>(n1) / d1 * f1, vb = static_cast<double>(n2) / d2 * R2::f;
        VF_CHECK(close(phys(a), va, va) && close(a.raw() * f1, va, va), "value", "%g/%g has the value %g, expected %g", n1, d1, a.raw() * f1, va);
        // conversion
        C1 t(b);
        VF_CHECK(close(phys(t), vb, vb) && close(t.raw() * f1, vb, vb), "convert", "%g/%g converted has the physical value %.9g, expected %.9g", n2, d2, phys(t), vb);
        t = a;
        t = b;
        VF_CHECK(close(phys(t), vb, vb), "assign", "%g/%g assigned has the physical value %.9g, expected %.9g", n2, d2, phys(t), vb);
        VF_CHECK(close(phys_as<R2>(C2(t)), vb, vb), "round-trip", "%g/%g comes back as %.9g, expected %.9g", n2, d2, phys_as<R2>(C2(t)), vb);
        // addition, subtraction
        double sc = std::fabs(va) + std::fabs(vb);
        VF_CHECK(close(phys(a + b), va + vb, sc), "add", "%.9g + %.9g = %.9g", va, vb, phys(a + b));
        VF_CHECK(close(phys(a - b), va - vb, sc), "subtract", "%.9g - %.9g = %.9g", va, vb, phys(a - b));
        t = a;
        VF_CHECK(&(t += b) == &t && close(phys(t), va + vb, sc), "add-assign", "%.9g += %.9g gives %.9g", va, vb, phys(t));
        t = a;
        VF_CHECK(&(t -= b) == &t && close(phys(t), va - vb, sc), "subtract-assign", "%.9g -= %.9g gives %.9g", va, vb, phys(t));
        VF_CHECK(close(phys_as<R2>(b + a), va + vb, sc), "add", "%.9g + %.9g = %.9g", vb, va, phys_as<R2>(b + a));
        // negation and scalars
        VF_CHECK(close(phys(-a), -va, va), "negate", "-(%.9g) is %.9g", va, phys(-a));
        auto scalar = [&](auto s) {
            double d = static_cast<double>(s);
            t = a;
            VF_CHECK(close(phys(a * s), va * d, va * d) && close(phys(t *= s), va * d, va * d), "scalar-multiply", "%.9g * %g = %.9g", va, d, phys(a * s));
            if (d == 0) {
                raises("scalar-zero", [&] { (void)(a / s); });
                raises("scalar-zero", [&] {
                    t = a;
                    t /= s;
                });
            } else {
                t = a;
                VF_CHECK(close(phys(a / s), va / d, va / d) && close(phys(t /= s), va / d, va / d), "scalar-divide", "%.9g / %g = %.9g", va, d, phys(a / s));
            }
        };
        switch (r.below(3)) {
        case 0: scalar(static_cast<int>(r.range(-5, 5))); break;
        case 1: scalar(static_cast<float>(r.real(0.01, 20))); break;
        default: scalar(r.chance(1, 3) ? 0.0 : r.real(-9, -0.01));
        }
        // simplification
        t = a;
        if (r.chance(1, 2))
            t.simplify();
        else
            t.simplify(r.pick({1.0f, 1e3f, 1e6f, 1e9f}));
        VF_CHECK(t.denominator().raw() != 0, "simplify-zero", "simplifying %g/%g left a zero denominator", n1, d1);
        VF_CHECK(close(phys(t), va, va), "simplify", "simplifying %g/%g changed the value from %.9g to %.9g", n1, d1, va, phys(t));
        VF_EV("simplified");
        if (r.chance(1, 4)) { // far beyond what the scaled integers inside can hold
            const real_t ln = n1 * r.pick({1e6f, 1e12f, 1e18f}), ld = d1 * r.pick({1.0f, 1e9f, 1e18f});
            C1 l{N1(ln), D1(ld)};
            const double vl = static_cast<double>(ln) / ld * f1;
            l.simplify(r.pick({1.0f, 1e6f, 1e9f}));
            VF_CHECK(l.denominator().raw() != 0 && close(phys(l), vl, vl), "simplify-large", "simplifying %g/%g changed the value from %.9g to %.9g", ln, ld, vl, phys(l));
            VF_EV("simplified.large");
        }
        t = a;
        VF_CHECK(&(t += t) == &t && close(phys(t), 2 * va, va), "add-self", "%.9g added to itself gives %.9g", va, phys(t));
        t = a;
        t -= t;
        VF_CHECK(close(phys(t), 0, va), "subtract-self", "%.9g subtracted from itself gives %.9g", va, phys(t));
        // comparison by physical value
        bool eq = a == b, ne = a != b, lt = a < b, gt = a > b, le = a <= b, ge = a >= b;
        VF_CHECK(eq == !ne, "not-equal", "== and != agree");
        VF_CHECK(!(lt && gt) && !(lt && ge) && !(gt && le) && (le || gt) && (ge || lt), "order-consistent", "comparisons of %.9g and %.9g contradict each other", va, vb);
        double gap = va - vb;
        if (std::fabs(gap) > 4e-6 * std::max(std::fabs(va), std::fabs(vb))) {
            VF_CHECK(!eq, "equal", "%g/%g == %g/%g although %.9g is not %.9g", n1, d1, n2, d2, va, vb);
            VF_CHECK(lt == (gap < 0) && le == (gap < 0) && gt == (gap > 0) && ge == (gap > 0), "order", "%.9g and %.9g compare wrong", va, vb);
            VF_EV("ordering.decided");
        } else
            VF_EV("nearly.equal");
        VF_CHECK(C1(b) == b && !(C1(b) != b) && C1(b) <= b && C1(b) >= b, "equal-converted", "%g/%g differs from itself in another magnitude", n2, d2);
        // zero denominators
        if (r.chance(1, 4)) {
            C1 z{N1(n1), D1(real_t(0))};
            raises("zero-denominator", [&] { (void)z.raw(); });
            raises("zero-denominator-compare", [&] { (void)(z < a); });
            const C2 z2{N2(n2), D2(real_t(0))};
            raises("zero-denominator-convert", [&] { (void)C1(z2).raw(); });
            raises("zero-denominator-assign", [&] {
                t = a;
                t = z2;
                (void)t.raw();
            });
            raises("zero-denominator-equal", [&] { (void)(a == z2); });
        }
        vf::state(vf::hash_bytes(&n1, sizeof(n1)) ^ vf::hash_bytes(&d2, sizeof(d2)));
    }
    if (!std::is_same_v<R1, R2>) {
        VF_EV("mixed.magnitudes");
        vf::nontrivial();
    }
}
template<typename A, typename... Bs>
void pick_b(vf::Rng& r) {
    size_t k = r.below(sizeof...(Bs)), i = 0;
    ((i++ == k ? pair<A, Bs>(r) : void()), ...);
}
template<typename... As>
void family(vf::Rng& r) {
    size_t k = r.below(sizeof...(As)), i = 0;
    ((i++ == k ? pick_b<As, As...>(r) : void()), ...);
}
} // namespace

// in parts, for the compiler's sake: the pairs with the first two and with the other speeds as left operand, and the rest
template<typename... As>
static void speeds(vf::Rng& r) {
    size_t k = r.below(sizeof...(As)), i = 0;
    ((i++ == k ? pick_b<As, Ratio<meter, time_s>, Ratio<meter_k, time_h>, Ratio<meter_m, time_ms>, Ratio<meter, time_m>, Ratio<meter_k, time_s>>(r) : void()), ...);
}
#if VF_PART == 0
VF_SCENARIO(speed, 0.4) { speeds<Ratio<meter, time_s>, Ratio<meter_k, time_h>>(r); }
#elif VF_PART == 1
VF_SCENARIO(other_speed, 0.6) { speeds<Ratio<meter_m, time_ms>, Ratio<meter, time_m>, Ratio<meter_k, time_s>>(r); }
#elif VF_PART == 2
VF_SCENARIO(flow, 0.5) {
    family<Ratio<litre, time_s>, Ratio<litre_ml, time_m>, Ratio<cubic_metre, time_h>>(r);
}
#else
VF_SCENARIO(others, 0.5) {
    if (r.chance(1, 2))
        family<Ratio<joule_k, gram>, Ratio<joule, gram_k>, Ratio<joule_m, gram_m>>(r);
    else
        family<Ratio<volt_m, amp>, Ratio<volt, amp_m>, Ratio<volt, amp>>(r);
}
#endif
} // namespace un
