// C22: every filter against its definition, in double precision.
#include "vf.hpp"
#include "spine/platform/hal.hpp"
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/filter/implementations/passthrough.hpp"
#include "spine/core/exception.hpp"

using namespace spn::filter;
namespace {
/// counts exceptions and lets the program go on
struct Counting : spn::core::ExceptionHandler {
    static int n;
    static std::string type;
    void handle_exception(const spn::core::Exception& e) override {
        ++n;
        type = e.error_type();
    }
};
int Counting::n = 0;
std::string Counting::type;
void count_exceptions() {
    Counting::n = 0;
    spn::core::set_machine_exception_handler(std::make_unique<Counting>());
}

template<typename T>
constexpr double eps() { return std::is_same_v<T, float> ? 1e-6 : 1e-13; }

/// one sample in one of the ways a filter takes it; the result and the value read back agree
template<typename T, typename F>
T feed(vf::Rng& r, F& f, T sample) {
    T res;
    switch (r.below(4)) {
    case 0: res = f(sample); break;
    case 1: res = static_cast<Filter<T>&>(f).value(sample); break;
    case 2:
        static_cast<Filter<T>&>(f).new_sample(sample);
        res = f.value();
        break;
    default: res = f.value(sample);
    }
    T again = static_cast<const Filter<T>&>(f).value();
    VF_CHECK(memcmp(&again, &res, sizeof(T)) == 0 || again == res, "latest", "value() reads %g after the result %g", (double)again, (double)res);
    vf::op("%.9g->%.9g", (double)sample, (double)res);
    vf::state(vf::hash_bytes(&res, sizeof res));
    VF_EV("sample");
    return res;
}
template<typename T>
void reset(vf::Rng& r, Filter<T>& f, T to) {
    f.reset_to(to);
    vf::op("reset %.9g", (double)to);
    VF_CHECK(f.value() == to, "reset", "value() reads %g after a reset to %g", (double)f.value(), (double)to);
    VF_EV("reset");
}
template<typename T>
T sample(vf::Rng& r) {
    switch (r.below(4)) {
    case 0: return static_cast<T>(r.range(-50, 50));
    case 1: return static_cast<T>(r.real(-1, 1));
    case 2: return static_cast<T>(r.real(-1e4, 1e4));
    default: return static_cast<T>(std::pow(10.0, r.real(-6, 8)) * (r.chance(1, 2) ? 1 : -1));
    }
}

template<typename T>
void passthrough(vf::Rng& r) {
    Passthrough<T> f(typename Passthrough<T>::Config{});
    for (int i = 0; i < 20; ++i) {
        if (r.chance(1, 6)) reset<T>(r, f, sample<T>(r));
        T s = sample<T>(r), got = feed<T>(r, f, s);
        VF_CHECK(got == s, "passthrough", "%g comes out as %g", (double)s, (double)got);
    }
}
template<typename T>
void invert(vf::Rng& r) {
    T lo, hi;
    std::unique_ptr<Invert<T>> f;
    if (r.chance(1, 3)) {
        lo = 0, hi = 1;
        f = r.chance(1, 2) ? Invert<T>::NormalizedInverter() : std::make_unique<Invert<T>>(typename Invert<T>::Config{});
    } else {
        lo = static_cast<float>(r.real(-100, 100)), hi = static_cast<float>(lo + r.real(0.1, 300));
        f = r.chance(1, 2) ? Invert<T>::NormalizedInverter(static_cast<float>(lo), static_cast<float>(hi))
                           : std::make_unique<Invert<T>>(typename Invert<T>::Config{.input_lower_limit = lo, .input_upper_limit = hi});
    }
    for (int i = 0; i < 20; ++i) {
        if (r.chance(1, 6)) reset<T>(r, *f, sample<T>(r));
        T s = r.chance(1, 5) ? lo : r.chance(1, 4) ? hi : std::min(hi, std::max(lo, static_cast<T>(r.real(lo, hi))));
        double got = feed<T>(r, *f, s), want = (double)hi + lo - s, tol = eps<T>() * (std::fabs((double)hi) + std::fabs((double)lo));
        VF_CHECK(std::fabs(got - want) <= tol, "invert", "%g in %g..%g comes out as %g, expected %g", (double)s, (double)lo, (double)hi, got, want);
        VF_EV("inverted");
    }
}
template<typename T>
void mapped(vf::Rng& r) {
    using M = MappedRange<T>;
    typename M::Config c;
    std::unique_ptr<M> f;
    switch (r.below(4)) {
    case 0:
        c.input_lower_limit = static_cast<float>(r.real(-10, 10)), c.input_upper_limit = static_cast<float>(c.input_lower_limit + r.real(0.5, 100));
        if (r.chance(1, 4)) { // the limits left out, in part or altogether
            c.input_upper_limit = 1, c.input_lower_limit = 0;
            f = M::Percentage();
            VF_EV("default.limits");
        } else if (r.chance(1, 3)) {
            c.input_upper_limit = 1, c.input_lower_limit = static_cast<float>(r.real(-10, 0.9));
            f = M::Percentage(static_cast<float>(c.input_lower_limit));
        } else
            f = M::Percentage(static_cast<float>(c.input_lower_limit), static_cast<float>(c.input_upper_limit));
        break;
    case 1:
        c.output_upper_limit = 1000;
        f = M::Permillage();
        if (r.chance(1, 2)) {
            c.input_lower_limit = static_cast<float>(r.real(-10, 10)), c.input_upper_limit = static_cast<float>(c.input_lower_limit + r.real(0.5, 100));
            f = M::Permillage(static_cast<float>(c.input_lower_limit), static_cast<float>(c.input_upper_limit));
        }
        break;
    default:
        c.input_lower_limit = static_cast<T>(r.real(-1000, 1000)), c.input_upper_limit = static_cast<T>(c.input_lower_limit + r.real(0.5, 2000));
        c.output_lower_limit = static_cast<T>(r.real(-1000, 1000)), c.output_upper_limit = static_cast<T>(r.real(-1000, 1000)); // also falling
        c.throw_for_value_out_of_range = r.chance(1, 2);
        f = std::make_unique<M>(typename M::Config(c));
    }
    vf::op("%g..%g->%g..%g throw=%d", (double)c.input_lower_limit, (double)c.input_upper_limit, (double)c.output_lower_limit, (double)c.output_upper_limit,
           c.throw_for_value_out_of_range);
    count_exceptions();
    const double il = c.input_lower_limit, iu = c.input_upper_limit, ol = c.output_lower_limit, ou = c.output_upper_limit;
    const double tol = eps<T>() * (std::fabs(ol) + std::fabs(ou) + std::fabs(ou - ol) * (std::fabs(il) + std::fabs(iu)) / (iu - il));
    for (int i = 0; i < 20; ++i) {
        if (r.chance(1, 6)) reset<T>(r, *f, sample<T>(r));
        T s;
        switch (r.below(6)) {
        case 0: s = c.input_lower_limit; break;
        case 1: s = c.input_upper_limit; break;
        case 2: s = static_cast<T>(iu + r.real(0.001, 1000)); break;
        case 3: s = static_cast<T>(il - r.real(0.001, 1000)); break;
        default: s = static_cast<T>(r.real(il, iu));
        }
        const int before = Counting::n;
        double got = feed<T>(r, *f, s), in = std::min(iu, std::max(il, (double)s)), want = ol + (in - il) / (iu - il) * (ou - ol);
        VF_CHECK(std::fabs(got - want) <= tol, "mapped", "%g comes out as %g, expected %g", (double)s, got, want);
        VF_CHECK(got >= std::min(ol, ou) - tol && got <= std::max(ol, ou) + tol, "mapped-outside", "%g comes out as %g, outside the output range", (double)s, got);
        bool outside = s < c.input_lower_limit || s > c.input_upper_limit;
        VF_CHECK(Counting::n - before == (outside && c.throw_for_value_out_of_range ? 1 : 0), "mapped-exception", "%d exceptions for %g", Counting::n - before,
                 (double)s);
        if (outside) VF_EV("clamped");
    }
}
template<typename T>
void ewma(vf::Rng& r) {
    T K = static_cast<T>(r.pick({1.0, 2.0, 3.0, 10.0, 100.0, 2.5, static_cast<double>(r.range(1, 50))}));
    const bool longer = r.chance(1, 60); // frames beyond what a byte or a 16-bit counter holds
    if (longer) K = static_cast<T>(r.pick({127.0, 128.0, 255.0, 256.0, 257.0, 300.0, 1000.0, 70000.0}));
    std::unique_ptr<EWMA<T>> f;
    switch (longer ? 3 : r.below(4)) {
    case 0: f = EWMA<T>::Short(), K = 10; break;
    case 1: f = EWMA<T>::Long(), K = 100; break;
    default: f = std::make_unique<EWMA<T>>(typename EWMA<T>::Config{.K = K});
    }
    vf::op("K=%g", (double)K);
    double avg = 0, lo = 1e300, hi = -1e300, mag = 0;
    int seen = 0, n = longer ? r.pick({400, 1500, 70000}) : r.chance(1, 4) ? 300 : 40;
    for (int i = 0; i < n; ++i) {
        if (r.chance(1, longer ? n : 40)) {
            reset<T>(r, *f, sample<T>(r));
            seen = 0, lo = 1e300, hi = -1e300;
        }
        T s = r.chance(1, 3) ? static_cast<T>(r.real(-10, 10)) : sample<T>(r);
        double got = feed<T>(r, *f, s);
        ++seen;
        avg = seen == 1 ? s : avg + ((double)s - avg) / std::min<double>(seen, K);
        mag = std::max(mag, std::fabs((double)s));
        lo = std::min<double>(lo, s), hi = std::max<double>(hi, s);
        double tol = 3 * eps<T>() * mag * std::min<double>(K, seen);
        VF_CHECK(std::fabs(got - avg) <= tol, "average", "sample %d is %g, the average becomes %.9g, expected %.9g", seen, (double)s, got, avg);
        VF_CHECK(got >= lo - tol && got <= hi + tol, "average-range", "average %g outside the samples %g..%g", got, lo, hi);
        if (seen > K) VF_EV("frame.full");
        if (seen > 256 && K > 256) VF_EV("frame.beyond.a.byte");
    }
}
template<typename T>
void bandpass(vf::Rng& r) {
    using B = BandPass<T>;
    typename B::Config c;
    std::unique_ptr<B> f;
    bool exact = false;
    if (r.chance(1, 6)) f = B::Broad();
    else {
        c.mode = r.chance(1, 2) ? B::Mode::RELATIVE : B::Mode::ABSOLUTE;
        exact = r.chance(1, 2);
        c.mantissa = exact ? static_cast<T>(r.range(1, 9)) : static_cast<T>(r.real(1, 9.99));
        c.decades = exact ? static_cast<T>(r.range(-1, 2)) : static_cast<T>(r.real(-3, 3));
        double w = c.mantissa * std::pow(10.0, c.decades + 1);
        if (c.mode == B::Mode::ABSOLUTE) c.offset = exact ? static_cast<T>(r.range(-100, 100)) : sample<T>(r);
        else if (r.chance(1, 3))
            c.offset = static_cast<T>(exact && w >= 3 ? std::floor(w * r.real(-0.9, 0.9)) : w * r.real(-0.9, 0.9));
        c.rejection_limit = r.chance(1, 3) ? r.range(0, 3) : r.chance(1, 40) ? r.pick({127, 128, 255, 256, 300, 40000}) : r.range(0, 15);
        c.throw_on_rejection_limit = r.chance(1, 2);
        f = std::make_unique<B>(typename B::Config(c));
    }
    const double w = (double)c.mantissa * std::pow(10.0, (double)c.decades + 1);
    vf::op("%s m=%g d=%g (+-%g) off=%g limit=%d throw=%d", c.mode == B::Mode::RELATIVE ? "rel" : "abs", (double)c.mantissa, (double)c.decades, w,
           (double)c.offset, c.rejection_limit, c.throw_on_rejection_limit);
    count_exceptions();
    double value = 0;
    bool first = true, limit_reached = false, recovered = false;
    int rejected = 0;
    const bool many = c.rejection_limit > 100;
    for (int i = 0, n = many ? 4 * c.rejection_limit + 30 : static_cast<int>(r.range(15, 60)); i < n; ++i) {
        if (rejected == 0 && !first && r.chance(1, 12)) {
            T to = exact ? static_cast<T>(r.range(-200, 200)) : sample<T>(r);
            reset<T>(r, *f, to);
            value = to;
        }
        double mid = c.mode == B::Mode::RELATIVE ? value + c.offset : (double)c.offset;
        double s;
        bool edge = false;
        switch (many ? (r.chance(1, 3ull * c.rejection_limit) ? 0 : 5) : r.below(6)) {
        case 0: s = mid + w * r.real(-0.99, 0.99); break;
        case 1: s = mid + w * r.pick({1.02, -1.02, 1.5, -1.5, 3.0, 10.0, -10.0}); break;
        case 2:
            s = exact && w >= 1 ? mid + w * r.pick({1.0, -1.0}) : mid;
            edge = exact;
            break;
        case 3: s = mid + w * r.pick({0.98, -0.98}); break;
        default: s = !many && i % 12 < 6 ? mid + w * r.real(-0.9, 0.9) : mid + w * r.real(1.1, 4);
        }
        T sv = static_cast<T>(s);
        if (exact) sv = std::round(sv); // integers: the limits are exact
        if (first) value = sv;
        mid = c.mode == B::Mode::RELATIVE ? value + c.offset : (double)c.offset;
        double dist = std::fabs((double)sv - mid);
        // rounding decides only next to the limits
        double fuzz = exact && std::fabs(w - std::round(w)) == 0 && std::fabs(value) < 1e6 && std::fabs((double)sv) < 1e6
                          ? 0
                          : 4 * eps<T>() * (std::fabs((double)sv) + std::fabs(mid) + w);
        if (fuzz > 0 && std::fabs(dist - w) <= fuzz) continue;
        bool in = dist <= w;
        const int before = Counting::n;
        double got = feed<T>(r, *f, sv);
        int thrown = Counting::n - before, want_thrown = 0;
        first = false;
        if (in) {
            value = sv;
            if (rejected) recovered = true;
            rejected = 0;
            VF_EV("accepted");
            if (edge && dist == w) VF_EV("accepted.on.the.limit");
        } else if (++rejected > c.rejection_limit) {
            value = sv;
            rejected = 0;
            want_thrown = c.throw_on_rejection_limit ? 1 : 0;
            limit_reached = true;
            if (many && c.rejection_limit > 255) VF_EV("rejections.beyond.a.byte");
            VF_EV("rejection.limit.reached");
        } else
            VF_EV("rejected");
        VF_CHECK(got == (double)static_cast<T>(value), in ? "band-accept" : "band-reject", "sample %.9g (distance %.9g, band %.9g, rejection %d of %d) gives %.9g, expected %.9g", (double)sv,
                 dist, w, rejected, c.rejection_limit, got, value);
        VF_CHECK(thrown == want_thrown, "band-exception", "%d exceptions, expected %d", thrown, want_thrown);
        if (want_thrown) VF_CHECK(Counting::type == "Runtime exception", "band-exception-type", "raised '%s'", Counting::type.c_str());
    }
    if (limit_reached && recovered) vf::nontrivial();
}
/// what a filter reads as before its first sample is as good a sample as any other
template<typename T>
void initial_value(vf::Rng& r) {
    using B = BandPass<T>;
    typename B::Config c{.mode = r.chance(1, 2) ? B::Mode::RELATIVE : B::Mode::ABSOLUTE,
                         .mantissa = 1,
                         .decades = static_cast<T>(r.range(0, 2)),
                         .offset = 0,
                         .rejection_limit = static_cast<int>(r.range(2, 5)),
                         .throw_on_rejection_limit = false};
    const T start = B(typename B::Config(c)).value();
    if (c.mode == B::Mode::ABSOLUTE) c.offset = start;
    B f{typename B::Config(c)};
    const T band = static_cast<T>((double)c.mantissa * std::pow(10.0, (double)c.decades + 1));
    const bool by_reset = r.chance(1, 2);
    vf::op("start=%.9g band=%g reset=%d mode=%d", (double)start, (double)band, by_reset, (int)c.mode);
    if (by_reset && c.mode == B::Mode::RELATIVE) reset<T>(r, f, start);
    else
        VF_CHECK(feed<T>(r, f, start) == start, "initial-sample", "the first sample %g was not taken", (double)start);
    for (int i = 0; i < c.rejection_limit; ++i) {
        T got = feed<T>(r, f, start + band * static_cast<T>(r.pick({1.5, -1.5, 4.0})));
        VF_CHECK(got == start, "initial-value", "a sample outside of the band around %g was taken: %g", (double)start, (double)got);
    }
    VF_EV("initial.value.as.sample");
}
} // namespace

#define BOTH(name, weight, nt)                                                                                         \
    VF_SCENARIO(name##_float, weight) {                                                                                \
        name<float>(r);                                                                                                \
        if (nt) vf::nontrivial();                                                                                      \
    }                                                                                                                  \
    VF_SCENARIO(name##_double, weight) {                                                                               \
        name<double>(r);                                                                                               \
        if (nt) vf::nontrivial();                                                                                      \
    }
BOTH(passthrough, 0.1, true)
BOTH(invert, 0.3, true)
BOTH(mapped, 0.5, true)
BOTH(ewma, 0.5, true)
BOTH(bandpass, 1.0, false)
BOTH(initial_value, 0.05, true)
