// C13: real-valued units against double arithmetic on base-unit values.
#include "units.hpp"

namespace un {
namespace {
constexpr double kTol = 1.0e-6; // a few units of single precision

bool close(double got, double want, double scale) { return std::fabs(got - want) <= kTol * std::max(std::fabs(scale), 1e-300); }

real_t value(vf::Rng& r) {
    switch (r.below(6)) {
    case 0: return static_cast<real_t>(r.range(-20, 20));
    case 1: return static_cast<real_t>(r.range(-2000, 2000)) * 0.25f;
    case 2: return static_cast<real_t>(r.real(-1, 1));
    case 3: return static_cast<real_t>(r.real(-1e6, 1e6));
    case 4: return static_cast<real_t>(std::pow(10.0, r.real(-6, 9)) * (r.chance(1, 2) ? 1 : -1));
    default: return r.chance(1, 3) ? real_t(0) : static_cast<real_t>(r.range(1, 9)) * std::pow(real_t(10), static_cast<real_t>(r.range(-3, 6)));
    }
}
template<typename F>
void raises(const char* key, F&& f) {
    auto e = vf::catching(f);
    VF_CHECK(e && e->type == "Runtime exception", key, "division by zero raised %s", e ? e->type.c_str() : "no exception");
    VF_EV("divide.by.zero");
}

// what one pair of units does with one pair of values: the only part instantiated per pair of types
struct Obs {
    real_t raw, one, conv, assign, assign_tmp, back, add, sub, add_to, sub_from, neg, mul, div;
    bool negative, add_ref, sub_ref, eq, ne, lt, gt, le, ge, conv_eq, conv_ne, conv_le, conv_ge, self_eq;
};
template<typename UA, typename UB>
__attribute__((noinline)) void observe(real_t va, real_t vb, bool divide, Obs& o) {
    using A = typename UA::type;
    using B = typename UB::type;
    static_assert(std::is_same_v<decltype(A(B(real_t(1))) + B(real_t(1))), A>);
    const A a(va);
    const B b(vb);
    const A ab(b);
    A t(real_t(5));
    o.one = A(B(real_t(1))).raw();
    o.raw = a.raw();
    o.conv = ab.raw();
    t = b;
    o.assign = t.raw();
    t = A(real_t(5));
    t = B(vb);
    o.assign_tmp = t.raw();
    o.back = B(ab).raw();
    o.add = (a + b).raw();
    o.sub = (a - b).raw();
    t = a;
    o.add_ref = &(t += b) == &t;
    o.add_to = t.raw();
    t = a;
    o.sub_ref = &(t -= b) == &t;
    o.sub_from = t.raw();
    o.neg = (-a).raw();
    o.negative = a.is_negative();
    o.mul = (a * b).raw();
    o.eq = a == b, o.ne = a != b, o.lt = a < b, o.gt = a > b, o.le = a <= b, o.ge = a >= b;
    o.conv_eq = ab == b, o.conv_ne = ab != b, o.conv_le = ab <= b, o.conv_ge = ab >= b;
    o.self_eq = a == A(va);
    if (divide) o.div = (a / b).raw();
}
struct SObs {
    real_t mul, mul_to, div, div_to;
    bool mul_ref, div_ref;
};
template<typename UA, typename S>
__attribute__((noinline)) void observe_scalar(real_t va, S s, int what, SObs& o) {
    using A = typename UA::type;
    const A a(va);
    A t(a);
    if (what == 0) {
        o.mul = (a * s).raw();
        o.mul_ref = &(t *= s) == &t;
        o.mul_to = t.raw();
    } else if (what == 1)
        o.div = (a / s).raw();
    else {
        o.div_ref = &(t /= s) == &t;
        o.div_to = t.raw();
    }
}
struct Unit {
    const char* name;
    double factor;
    void (*scalar_i)(real_t, int, int, SObs&);
    void (*scalar_f)(real_t, float, int, SObs&);
    void (*scalar_d)(real_t, double, int, SObs&);
};
struct Pair {
    size_t a, b; // units of the family
    void (*observe)(real_t, real_t, bool, Obs&);
};
struct Family {
    std::vector<Unit> units;
    std::vector<Pair> pairs;
};

void check_scalar(const char* na, real_t va, double d, const std::function<void(int, SObs&)>& run) {
    SObs o{};
    vf::op("scalar %g", d);
    if (std::fabs(va * d) < 1e30) {
        run(0, o);
        VF_CHECK(close(o.mul, va * d, va * d), "scalar-multiply", "%g %s * %g = %.9g", va, na, d, o.mul);
        VF_CHECK(o.mul_ref && close(o.mul_to, va * d, va * d), "scalar-multiply-assign", "%g %s *= %g gives %.9g", va, na, d, o.mul_to);
    }
    if (d == 0) {
        raises("scalar-divide-by-zero", [&] { run(1, o); });
        raises("scalar-divide-assign-by-zero", [&] { run(2, o); });
    } else if (std::fabs(va / d) < 1e30) {
        run(1, o);
        run(2, o);
        VF_CHECK(close(o.div, va / d, va / d), "scalar-divide", "%g %s / %g = %.9g", va, na, d, o.div);
        VF_CHECK(o.div_ref && close(o.div_to, va / d, va / d), "scalar-divide-assign", "%g %s /= %g gives %.9g", va, na, d, o.div_to);
    }
}

void check_pair(vf::Rng& r, const Unit& ua, const Unit& ub, void (*observe)(real_t, real_t, bool, Obs&)) {
    const double fa = ua.factor, fb = ub.factor;
    const char *na = ua.name, *nb = ub.name;
    vf::op("%s,%s", na, nb);
    for (int i = 0; i < 8; ++i) {
        real_t va = value(r), vb = value(r);
        if (r.chance(1, 2)) va = static_cast<real_t>(static_cast<double>(vb) * fb / fa * r.pick({1.0, 0.5, 1.01, -1.0, 3.0, 1 + 1.5e-5, 1 - 3e-6, 1 + 1.6e-6}));
        const double b_in_a = static_cast<double>(vb) * fb / fa;
        auto tame = [](double d) { return d == 0 || (std::fabs(d) < 1e30 && std::fabs(d) > 1e-30); };
        const double prod = va * b_in_a, quot = vb == 0 ? 0 : va / b_in_a;
        if (!tame(b_in_a) || !tame(va)) continue;
        vf::op("%g,%g", va, vb);
        Obs o{};
        observe(va, vb, vb != 0, o);
        VF_CHECK(o.raw == va, "raw", "raw() is %g, expected %g", o.raw, va);
        VF_CHECK(close(o.one, fb / fa, fb / fa), "prefix", "one %s is %g %s, expected %g", nb, o.one, na, fb / fa);
        VF_CHECK(close(o.conv, b_in_a, b_in_a), "convert", "%g %s is %.9g %s, expected %.9g", vb, nb, o.conv, na, b_in_a);
        VF_CHECK(close(o.assign, b_in_a, b_in_a), "assign", "assigning %g %s gives %.9g %s, expected %.9g", vb, nb, o.assign, na, b_in_a);
        VF_CHECK(close(o.assign_tmp, b_in_a, b_in_a), "assign-temporary", "assigning %g %s gives %.9g %s, expected %.9g", vb, nb, o.assign_tmp, na, b_in_a);
        VF_CHECK(close(o.back, vb, vb), "round-trip", "%.9g %s comes back from %s as %.9g", vb, nb, na, o.back);
        const double sc = std::fabs(static_cast<double>(va)) + std::fabs(b_in_a);
        VF_CHECK(close(o.add, va + b_in_a, sc), "add", "%g %s + %g %s = %.9g, expected %.9g", va, na, vb, nb, o.add, va + b_in_a);
        VF_CHECK(close(o.sub, va - b_in_a, sc), "subtract", "%g %s - %g %s = %.9g, expected %.9g", va, na, vb, nb, o.sub, va - b_in_a);
        VF_CHECK(o.add_ref && close(o.add_to, va + b_in_a, sc), "add-assign", "%g %s += %g %s gives %.9g", va, na, vb, nb, o.add_to);
        VF_CHECK(o.sub_ref && close(o.sub_from, va - b_in_a, sc), "subtract-assign", "%g %s -= %g %s gives %.9g", va, na, vb, nb, o.sub_from);
        VF_CHECK(o.neg == -va, "negate", "-(%g) is %g", va, o.neg);
        VF_CHECK(o.negative == (va < 0), "negative", "is_negative(%g) is wrong", va);
        if (tame(prod)) VF_CHECK(close(o.mul, prod, prod), "multiply", "%g %s * %g %s = %.9g, expected %.9g", va, na, vb, nb, o.mul, prod);
        if (vb == 0)
            raises("divide-by-zero", [&] { observe(va, vb, true, o); });
        else if (tame(quot))
            VF_CHECK(close(o.div, quot, quot), "divide", "%g %s / %g %s = %.9g, expected %.9g", va, na, vb, nb, o.div, quot);
        switch (r.below(3)) {
        case 0: {
            int s = static_cast<int>(r.range(-9, 9));
            check_scalar(na, va, s, [&](int w, SObs& so) { ua.scalar_i(va, s, w, so); });
            break;
        }
        case 1: {
            float s = r.chance(1, 8) ? 0.0f : static_cast<float>(r.real(-1000, 1000));
            check_scalar(na, va, s, [&](int w, SObs& so) { ua.scalar_f(va, s, w, so); });
            break;
        }
        default: {
            double s = r.chance(1, 8) ? 0.0 : r.real(-1, 1);
            check_scalar(na, va, s, [&](int w, SObs& so) { ua.scalar_d(va, s, w, so); });
        }
        }
        // ordering: decided whenever the values differ by more than rounding can hide
        VF_CHECK(o.ne == !o.eq, "not-equal", "== and != agree for %g %s and %g %s", va, na, vb, nb);
        VF_CHECK(!(o.lt && o.gt) && !(o.lt && !o.le) && !(o.gt && !o.ge) && !(o.lt && o.ge) && !(o.gt && o.le), "order-consistent",
                 "comparisons of %g %s and %g %s contradict each other", va, na, vb, nb);
        const double gap = va - b_in_a;
        if (std::fabs(gap) > 1e-6 * std::max<double>(std::fabs(va), std::fabs(b_in_a))) {
            VF_CHECK(!o.eq, "equal", "%g %s == %g %s", va, na, vb, nb);
            VF_CHECK(o.lt == (gap < 0) && o.le == (gap < 0) && o.gt == (gap > 0) && o.ge == (gap > 0), "order", "%g %s and %g %s compare wrong", va, na, vb, nb);
            VF_EV("ordering.decided");
        } else if (va == 0 && vb == 0)
            VF_CHECK(o.eq && o.le && o.ge && !o.lt && !o.gt, "equal-zero", "zeros differ");
        // what was converted equals what it was converted from; what is identical is equal
        VF_CHECK(o.conv_eq && !o.conv_ne && o.conv_le && o.conv_ge, "equal-converted", "%g %s differs from itself in %s", vb, nb, na);
        VF_CHECK(o.self_eq, "equal-self", "%g %s differs from itself", va, na);
        vf::state(vf::hash_bytes(&va, sizeof(va)) ^ vf::hash_bytes(na, strlen(na)));
    }
    if (fa != fb) {
        VF_EV("mixed.magnitudes");
        vf::nontrivial();
    }
}

template<typename A, typename... Us>
void row(Family& f, size_t i) {
    size_t j = 0;
    ((f.pairs.push_back({i, j++, &observe<A, Us>})), ...);
}
template<typename... Us>
Family family_units() {
    Family f;
    (f.units.push_back({Us::name, Us::f, &observe_scalar<Us, int>, &observe_scalar<Us, float>, &observe_scalar<Us, double>}), ...);
    return f;
}
template<typename... Us>
Family family() {
    Family f = family_units<Us...>();
    size_t i = 0;
    (row<Us, Us...>(f, i++), ...);
    return f;
}
void run(vf::Rng& r, const std::vector<Family>& all) {
    size_t total = 0;
    for (auto& f : all) total += f.pairs.size();
    size_t k = r.below(total);
    for (auto& f : all) {
        if (k < f.pairs.size()) {
            const Pair& p = f.pairs[k];
            return check_pair(r, f.units[p.a], f.units[p.b], p.observe);
        }
        k -= f.pairs.size();
    }
}
} // namespace

#if VF_PART == 0
VF_SCENARIO(electrical_units, 0.5) {
    static const std::vector<Family> all{family<farad_p, farad_n, farad_u, farad_m, farad>(), family<coulomb_n, coulomb_u, coulomb_m, coulomb>(),
                                         family<siemens_u, siemens_m, siemens>(), family<amp_u, amp_m, amp>(), family<volt_u, volt_m, volt>(),
                                         family<watt_m, watt, watt_k, watt_M, watt_G>(), family<ohm_m, ohm, ohm_k, ohm_M>(), family<henry>(), family<weber>(),
                                         family<tesla>(), family<hertz, hertz_k, hertz_M, hertz_G>()};
    run(r, all);
}
#endif
#if VF_PART == 1
VF_SCENARIO(mechanical_units, 0.6) {
    static const std::vector<Family> all{family<joule_p, joule_n, joule_u, joule_m, joule, joule_k, joule_M, joule_G, joule_T>(), family<newton, newton_k>(),
                                         family<gram_u, gram_m, gram, gram_k>(), family<pascal, pascal_k, pascal_M>(), family<litre_ml, litre, cubic_metre>()};
    run(r, all);
}
#endif
#if VF_PART == 2
VF_SCENARIO(time_and_other_units, 0.6) {
    static const std::vector<Family> all{family<meter_n, meter_u, meter_m, meter_c, meter_d, meter, meter_k>(),
                                         family<time_us, time_ms, time_s, time_m, time_h, time_d, time_W, time_Y>(),
                                         family<gray>(), family<mole>(), family<katal>(), family<sievert>(), family<lux>(), family<lumen>(),
                                         family<becquerel>(), family<kelvin>(), family<celsius>()};
    run(r, all);
}
#endif
#if VF_PART >= 3
// half of the prefixes as the left operand in each of two parts
template<typename... As>
static Family prefix_family() {
    Family f = family_units<any_a, any_f, any_p, any_n, any_u, any_m, any_c, any_d, any_1, any_da, any_h, any_k, any_M, any_G, any_T, any_P, any_E>();
    size_t i = VF_PART == 3 ? 0 : 9;
    (row<As, any_a, any_f, any_p, any_n, any_u, any_m, any_c, any_d, any_1, any_da, any_h, any_k, any_M, any_G, any_T, any_P, any_E>(f, i++), ...);
    return f;
}
#if VF_PART == 3
VF_SCENARIO(small_prefixes, 0.3) {
    static const std::vector<Family> all{prefix_family<any_a, any_f, any_p, any_n, any_u, any_m, any_c, any_d, any_1>()};
    run(r, all);
}
#else
VF_SCENARIO(large_prefixes, 0.3) {
    static const std::vector<Family> all{prefix_family<any_da, any_h, any_k, any_M, any_G, any_T, any_P, any_E>()};
    run(r, all);
}
#endif
#endif

} // namespace un

#if VF_PART == 0
VF_SCENARIO(temperature, 0.1) {
    for (int i = 0; i < 20; ++i) {
        real_t v = r.chance(1, 4) ? static_cast<real_t>(r.range(-273, 5000)) : static_cast<real_t>(r.real(-300, 3000));
        vf::op("%g", v);
        double tol = 3e-7 * (std::fabs(v) + 273.15);
        VF_CHECK(std::fabs(to_kelvin(celsius(v)).raw() - (static_cast<double>(v) + 273.15)) <= tol, "to-kelvin", "%g C is %.9g K", v, to_kelvin(celsius(v)).raw());
        VF_CHECK(std::fabs(to_celsius(kelvin(v)).raw() - (static_cast<double>(v) - 273.15)) <= tol, "to-celsius", "%g K is %.9g C", v, to_celsius(kelvin(v)).raw());
        VF_CHECK(std::fabs(to_celsius(to_kelvin(celsius(v))).raw() - v) <= 2 * tol, "round-trip", "%g C comes back as %.9g C", v,
                 to_celsius(to_kelvin(celsius(v))).raw());
        VF_CHECK(to_celsius(celsius(v)).raw() == v && to_kelvin(kelvin(v)).raw() == v, "same-unit", "converting to the same unit changed %g", v);
        VF_EV("temperature");
    }
    vf::nontrivial();
}

template<typename M>
static void kernel(vf::Rng& r) {
    using Real = spnu::Unit<spnu::TagTime, M, spnu::TimeRawType>;
    using Kern = spnu::Unit<spnu::TagKernelTime, M, spnu::KernelTimeRawType>;
    for (int i = 0; i < 20; ++i) {
        real_t v = r.chance(1, 3)   ? static_cast<real_t>(r.range(-100, 100)) * 0.25f
                  : r.chance(1, 2) ? static_cast<real_t>(r.real(-1e4, 1e4))
                                   : static_cast<real_t>(r.real(-1e12, 1e12));
        vf::op("%g", v);
        VF_CHECK(to_kernel_time(Real(v)).raw() == static_cast<vf::i64>(std::ceil(static_cast<double>(v))), "ceil", "%g becomes %lld", v,
                 (long long)to_kernel_time(Real(v)).raw());
        VF_CHECK(to_kernel_time(Real(v), std::floor).raw() == static_cast<vf::i64>(std::floor(static_cast<double>(v))), "floor", "%g becomes %lld", v,
                 (long long)to_kernel_time(Real(v), std::floor).raw());
        VF_CHECK(to_kernel_time(Real(v), std::round).raw() == static_cast<vf::i64>(std::round(static_cast<double>(v))), "round", "%g becomes %lld", v,
                 (long long)to_kernel_time(Real(v), std::round).raw());
        VF_CHECK(to_kernel_time(Real(v), std::trunc).raw() == static_cast<vf::i64>(std::trunc(static_cast<double>(v))), "trunc", "%g becomes %lld", v,
                 (long long)to_kernel_time(Real(v), std::trunc).raw());
        vf::i64 k = r.chance(1, 2) ? r.range(-1000000, 1000000) : static_cast<vf::i64>(r.next() >> r.range(1, 40));
        double back = to_real_time(Kern(k)).raw();
        VF_CHECK(std::fabs(back - static_cast<double>(k)) <= 1.2e-7 * std::fabs(static_cast<double>(k)), "to-real", "%lld becomes %.9g", (long long)k, back);
        VF_EV("kernel.time");
    }
    vf::nontrivial();
}
VF_SCENARIO(real_and_kernel_time, 0.2) {
    switch (r.below(6)) {
    case 0: return kernel<spnu::Micro>(r);
    case 1: return kernel<spnu::Milli>(r);
    case 2: return kernel<spnu::Base>(r);
    case 3: return kernel<spnu::Minute>(r);
    case 4: return kernel<spnu::Hour>(r);
    default: return kernel<spnu::Day>(r);
    }
}
#endif
