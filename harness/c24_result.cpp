// C24: Result against an explicit (kind, token) model; every function handed to it counts its calls and looks at its argument.
#include "vf.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/result.hpp"

using spn::structure::Result;
namespace {
// values of different types that carry a token
struct Tracked {
    int token;
    std::unique_ptr<int> owned; // own allocation: double use and use after free show up
    static int alive;
    explicit Tracked(int t) : token(t), owned(new int(t)) { ++alive; }
    Tracked(const Tracked& o) : token(o.owned ? *o.owned : -1), owned(new int(token)) { ++alive; }
    Tracked(Tracked&& o) noexcept : token(o.token), owned(std::move(o.owned)) { o.token = -2, ++alive; }
    Tracked& operator=(const Tracked& o) {
        token = o.owned ? *o.owned : -1;
        owned.reset(new int(token));
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept {
        token = o.token, owned = std::move(o.owned), o.token = -2;
        return *this;
    }
    ~Tracked() { --alive; }
};
int Tracked::alive = 0;
struct Other {
    long token;
    explicit Other(long t) : token(t) {}
};

template<typename T>
struct Make;
template<>
struct Make<int> {
    static int of(int t) { return t; }
    static int token(int v) { return v; }
};
template<>
struct Make<double> {
    static double of(int t) { return t + 0.25; }
    static int token(double v) { return v == std::floor(v) + 0.25 ? static_cast<int>(std::floor(v)) : -99; }
};
template<>
struct Make<std::string> {
    static std::string of(int t) { return "a string long enough for the heap " + std::to_string(t); }
    static int token(const std::string& s) { return s.rfind("a string long enough for the heap ", 0) == 0 ? atoi(s.c_str() + 34) : -98; }
};
template<>
struct Make<std::shared_ptr<int>> {
    static std::shared_ptr<int> of(int t) { return std::make_shared<int>(t); }
    static int token(const std::shared_ptr<int>& p) { return p ? *p : -97; }
};
template<>
struct Make<Tracked> {
    static Tracked of(int t) { return Tracked(t); }
    static int token(const Tracked& v) { return v.owned && *v.owned == v.token ? v.token : -96; }
};
template<>
struct Make<Other> {
    static Other of(int t) { return Other(t); }
    static int token(const Other& v) { return static_cast<int>(v.token); }
};
template<typename T>
T make(int t) {
    return Make<std::decay_t<T>>::of(t);
}
template<typename T>
int token(const T& v) {
    return Make<T>::token(v);
}

enum Kind { EMPTY, OK, INTER, FAILED };
const char* kKind[] = {"empty", "ok", "intermediary", "failed"};
struct Model {
    Kind kind = EMPTY;
    int token = 0;
};

template<typename R>
struct Parts;
template<typename T, typename E, typename I>
struct Parts<Result<T, E, I>> {
    using t = T;
    using e = E;
    using i = I;
};

/// the result is exactly what the model says
template<typename R>
void check(const char* what, const R& res, const Model& m) {
    bool s = res.is_success(), f = res.is_failed(), i = res.is_intermediary();
    VF_CHECK(s == (m.kind == OK) && f == (m.kind == FAILED) && i == (m.kind == INTER), "outcome", "%s: success=%d failed=%d intermediary=%d, expected %s", what, s, f,
             i, kKind[m.kind]);
    VF_CHECK(static_cast<bool>(res) == s, "bool", "%s: converts to %d with success=%d", what, static_cast<bool>(res), s);
    int got = 0;
    if (s) {
        got = token(res.value());
        VF_CHECK(token(*res) == got && res.operator->() == &res.value(), "dereference", "%s: * or -> differ from value()", what);
    } else if (f)
        got = token(res.error_value());
    else if (i)
        got = token(res.intermediary_value());
    VF_CHECK(m.kind == EMPTY || got == m.token, "value", "%s: %s with %d, expected %d", what, kKind[m.kind], got, m.token);
    if (vf::kDebug) { // asking for the value of another outcome is reported
        auto denied = [&](auto&& fn) { return vf::catching(fn).has_value(); };
        if (!s) VF_CHECK(denied([&] { (void)res.value(); }), "wrong-value", "%s: value() of %s is not reported", what, kKind[m.kind]);
        if (!f) VF_CHECK(denied([&] { (void)res.error_value(); }), "wrong-value", "%s: error_value() of %s is not reported", what, kKind[m.kind]);
        if (!i) VF_CHECK(denied([&] { (void)res.intermediary_value(); }), "wrong-value", "%s: intermediary_value() of %s is not reported", what, kKind[m.kind]);
    }
    vf::state(vf::mix(m.kind) ^ vf::mix(m.token));
}
template<typename R>
R build(const Model& m, vf::Rng& r) {
    using P = Parts<R>;
    const auto t = [&] { return make<typename P::t>(m.token); };
    switch (m.kind) {
    case OK: {
        if (r.chance(1, 2)) return R(t());
        if (r.chance(1, 2)) {
            auto v = t();
            R res(v);
            VF_CHECK(token(v) == m.token, "argument-changed", "a result made of a value took that value away from its owner");
            return res;
        }
        const auto v = t();
        return R(v);
    }
    case FAILED: {
        if constexpr (!std::is_same_v<typename P::e, typename P::t>) {
            if (r.chance(1, 3)) return R(make<typename P::e>(m.token));
            if (r.chance(1, 2)) {
                auto v = make<typename P::e>(m.token);
                R res(v);
                VF_CHECK(token(v) == m.token, "argument-changed", "a result made of an error took that error away from its owner");
                VF_EV("error.kept");
                return res;
            }
            if (r.chance(1, 2)) {
                const auto v = make<typename P::e>(m.token);
                R res(v);
                VF_CHECK(token(v) == m.token, "argument-changed", "a result made of a constant error changed that error");
                VF_EV("error.constant");
                return res;
            }
            if constexpr (std::is_same_v<typename P::e, std::string> && !std::is_convertible_v<const char*, typename P::t>) {
                const std::string text = make<std::string>(m.token); // something an error can be made of
                const char* const p = text.c_str();
                VF_EV("error.converted");
                if (r.chance(1, 2)) return R(p);
                const char* q = p;
                return R(q);
            }
        }
        if (r.chance(1, 2)) return R::failed(make<typename P::e>(m.token));
        auto v = make<typename P::e>(m.token);
        R res = R::failed(v);
        VF_CHECK(token(v) == m.token, "argument-changed", "a result made of an error took that error away from its owner");
        return res;
    }
    case INTER: {
        if (r.chance(1, 2)) return R::intermediary(make<typename P::i>(m.token));
        auto v = make<typename P::i>(m.token);
        R res = R::intermediary(v);
        VF_CHECK(token(v) == m.token, "argument-changed", "a result made of an intermediary took it away from its owner");
        return res;
    }
    default: return R();
    }
}
Model any(vf::Rng& r) { return {static_cast<Kind>(r.below(4)), static_cast<int>(r.range(1, 1000000))}; }

/// counts calls, remembers the argument
struct Spy {
    int calls = 0, arg = 0;
    void expect(const char* what, bool called, int want) {
        VF_CHECK(calls == (called ? 1 : 0), "calls", "%s called its function %d times, expected %d", what, calls, called);
        if (called) VF_CHECK(arg == want, "argument", "%s handed %d to its function, expected %d", what, arg, want);
    }
};

template<typename T, typename E, typename I>
struct Program {
    using R = Result<T, E, I>;
    vf::Rng& r;
    R res;
    Model m;

    void run(int n) {
        for (int k = 0; k < n; ++k) step();
    }
    int fresh() { return static_cast<int>(r.range(1, 1000000)); }
    void step() {
        const Model before = m;
        Spy spy, spy2, spy3;
        int nt = fresh();
        switch (r.below(17)) {
        case 0: { // assign another result
            Model o = any(r);
            R other = build<R>(o, r);
            if (r.chance(1, 2)) {
                res = other;
                check("the source of a copy", other, o);
            } else
                res = std::move(other);
            m = o;
            vf::op("=%s", kKind[m.kind]);
            check("assigned", res, m);
            VF_EV("assigned");
            break;
        }
        case 1: { // copy and move construction
            R c = res;
            check("copy", c, m);
            check("the source of a copy", res, m);
            R d = std::move(c);
            check("moved", d, m);
            if (r.chance(1, 2)) res = std::move(d);
            R& self = res;
            if (r.chance(1, 4)) res = self;
            vf::op("copy");
            break;
        }
        case 2:
        case 3:
        case 4: { // chain
            Model next = any(r);
            res = res.chain([&](I& v) -> R {
                ++spy.calls, spy.arg = token(v);
                return build<R>(next, r);
            });
            spy.expect("chain", before.kind == INTER, before.token);
            if (before.kind == INTER) m = next;
            vf::op("chain->%s", kKind[m.kind]);
            check("chain", res, m);
            VF_EV("chain");
            break;
        }
        case 5: {
            res = res.map([&](const T& v) {
                ++spy.calls, spy.arg = token(v);
                return make<T>(nt);
            });
            spy.expect("map", before.kind == OK, before.token);
            if (before.kind == OK) m.token = nt;
            vf::op("map");
            check("map", res, m);
            VF_EV("map");
            break;
        }
        case 6: {
            res = res.map_error([&](const E& v) {
                ++spy.calls, spy.arg = token(v);
                return make<E>(nt);
            });
            spy.expect("map_error", before.kind == FAILED, before.token);
            if (before.kind == FAILED) m.token = nt;
            vf::op("map_error");
            check("map_error", res, m);
            VF_EV("map_error");
            break;
        }
        case 7: {
            res = res.map_intermediary([&](const I& v) {
                ++spy.calls, spy.arg = token(v);
                return make<I>(nt);
            });
            spy.expect("map_intermediary", before.kind == INTER, before.token);
            if (before.kind == INTER) m.token = nt;
            vf::op("map_intermediary");
            check("map_intermediary", res, m);
            VF_EV("map_intermediary");
            break;
        }
        case 8:
        case 9: {
            Model next = any(r);
            res = res.and_then([&](const T& v) -> R {
                ++spy.calls, spy.arg = token(v);
                return build<R>(next, r);
            });
            spy.expect("and_then", before.kind == OK, before.token);
            if (before.kind == OK) m = next;
            vf::op("and_then->%s", kKind[m.kind]);
            check("and_then", res, m);
            VF_EV("and_then");
            break;
        }
        case 10:
        case 11: {
            Model next = any(r);
            res = res.or_else([&](const E& v) -> R {
                ++spy.calls, spy.arg = token(v);
                return build<R>(next, r);
            });
            spy.expect("or_else", before.kind == FAILED, before.token);
            if (before.kind == FAILED) m = next;
            vf::op("or_else->%s", kKind[m.kind]);
            check("or_else", res, m);
            VF_EV("or_else");
            break;
        }
        case 12: {
            vf::op("match");
            std::optional<int> got;
            auto e = vf::catching([&] {
                got = res.match(
                    [&](const T& v) {
                        ++spy.calls, spy.arg = token(v);
                        return 1000;
                    },
                    [&](const E& v) {
                        ++spy2.calls, spy2.arg = token(v);
                        return 2000;
                    },
                    [&](const I& v) {
                        ++spy3.calls, spy3.arg = token(v);
                        return 3000;
                    });
            });
            spy.expect("match on success", m.kind == OK, m.token);
            spy2.expect("match on failure", m.kind == FAILED, m.token);
            spy3.expect("match on intermediary", m.kind == INTER, m.token);
            if (m.kind == EMPTY) {
                VF_CHECK(vf::kDebug ? e.has_value() : got == 0, "match-empty", "matching an empty result: %s", e ? e->type.c_str() : "no report and a value");
                VF_EV("match.empty");
            } else
                VF_CHECK(got == (m.kind == OK ? 1000 : m.kind == FAILED ? 2000 : 3000), "match", "match returned %d for %s", got.value_or(-1), kKind[m.kind]);
            check("match", res, m);
            VF_EV("match");
            break;
        }
        case 13: { // match without a value to return
            int which = 0;
            auto e = vf::catching([&] { res.match([&](const T&) { which += 1; }, [&](const E&) { which += 10; }, [&](const I&) { which += 100; }); });
            VF_CHECK(which == (m.kind == OK ? 1 : m.kind == FAILED ? 10 : m.kind == INTER ? 100 : 0), "match-void", "match called %d for %s", which, kKind[m.kind]);
            vf::op("match void");
            break;
        }
        case 14: {
            int got = token(res.value_or(make<T>(nt)));
            VF_CHECK(got == (m.kind == OK ? m.token : nt), "value-or", "value_or gives %d for %s", got, kKind[m.kind]);
            got = token(res.error_or(make<E>(nt)));
            VF_CHECK(got == (m.kind == FAILED ? m.token : nt), "error-or", "error_or gives %d for %s", got, kKind[m.kind]);
            got = token(res.unwrap_or_else([&] {
                ++spy.calls;
                return make<T>(nt);
            }));
            VF_CHECK(got == (m.kind == OK ? m.token : nt) && spy.calls == (m.kind == OK ? 0 : 1), "unwrap-or-else", "unwrap_or_else gives %d for %s, %d calls", got,
                     kKind[m.kind], spy.calls);
            check("fallbacks", res, m);
            vf::op("fallbacks");
            VF_EV("fallbacks");
            break;
        }
        case 15: { // through other types and back
            vf::op("other types");
            auto mapped = res.map([&](const T& v) { return std::string("m") + std::to_string(token(v)); });
            static_assert(std::is_same_v<decltype(mapped), Result<std::string, E, I>>);
            VF_CHECK(mapped.is_success() == (m.kind == OK) && mapped.is_failed() == (m.kind == FAILED) && mapped.is_intermediary() == (m.kind == INTER), "map-type",
                     "mapping to another type changed the outcome %s", kKind[m.kind]);
            if (m.kind == OK) VF_CHECK(mapped.value() == "m" + std::to_string(m.token), "map-type-value", "mapped to '%s'", mapped.value().c_str());
            if (m.kind == FAILED) VF_CHECK(token(mapped.error_value()) == m.token, "map-type-value", "the error became %d", token(mapped.error_value()));
            if (m.kind == INTER) VF_CHECK(token(mapped.intermediary_value()) == m.token, "map-type-value", "the intermediary became %d", token(mapped.intermediary_value()));
            auto merr = res.map_error([&](const E& v) { return Other(token(v)); });
            check("map_error to another type", merr, m);
            auto mint = res.map_intermediary([&](const I& v) { return Other(token(v)); });
            check("map_intermediary to another type", mint, m);
            auto at = res.and_then([&](const T& v) { return Result<Other, E, I>(Other(token(v))); });
            check("and_then to another type", at, m);
            VF_EV("other.types");
            break;
        }
        default: { // take the value out
            vf::op("unwrap");
            if (m.kind == OK) VF_CHECK(token(res.unwrap()) == m.token, "unwrap", "unwrapping lost %d", m.token);
            else if (m.kind == FAILED)
                VF_CHECK(token(res.unwrap_error_value()) == m.token, "unwrap", "unwrapping lost error %d", m.token);
            else if (m.kind == INTER)
                VF_CHECK(token(res.unwrap_intermediary_value()) == m.token, "unwrap", "unwrapping lost intermediary %d", m.token);
            m = any(r); // what is left behind is moved from
            res = build<R>(m, r);
            VF_EV("unwrap");
        }
        }
    }
};
template<typename T, typename E, typename I>
void program(vf::Rng& r) {
    Tracked::alive = 0;
    {
        Program<T, E, I> p{r, {}, {}};
        check("a new result", p.res, p.m);
        int n = r.range(5, 40);
        p.run(n);
    }
    VF_CHECK(Tracked::alive == 0, "lifetime", "%d values outlive their results", Tracked::alive);
    vf::nontrivial();
}
} // namespace

namespace {
/// a value that shows when it has been moved from
struct Heavy {
    int token;
    explicit Heavy(int t) : token(t) {}
    Heavy(const Heavy& o) = default;
    Heavy(Heavy&& o) noexcept : token(o.token) { o.token = -2; }
    Heavy& operator=(const Heavy& o) = default;
    Heavy& operator=(Heavy&& o) noexcept {
        token = o.token, o.token = -2;
        return *this;
    }
};
template<int kind, typename R>
void handed_on(vf::Rng& r, R&& first, int tok) {
    R a = std::move(first), b;
    for (int i = 0, n = r.range(1, 6); i < n; ++i) {
        if (r.chance(1, 2)) {
            R c = std::move(a);
            a = std::move(c);
        } else {
            b = std::move(a);
            a = std::move(b);
        }
    }
    const Heavy v = [&]() -> Heavy {
        if constexpr (kind == 0) return a.unwrap();
        else if constexpr (kind == 1)
            return a.unwrap_error_value();
        else
            return a.unwrap_intermediary_value();
    }();
    VF_CHECK(v.token == tok, "moved-value", "%d came out as %d", tok, v.token);
    VF_EV("moved.only");
}
} // namespace
#if VF_PART == 0
VF_SCENARIO(handed_on_by_moves, 0.3) {
    using R = Result<Heavy, std::string, int>;
    using F = Result<int, Heavy, std::string>;
    using I = Result<int, std::string, Heavy>;
    using S = Result<Heavy, Heavy, Heavy>;
    const int t = static_cast<int>(r.range(1, 1000000));
    switch (r.below(7)) {
    case 0: return handed_on<0>(r, R(Heavy(t)), t);
    case 1: return handed_on<1>(r, F::failed(Heavy(t)), t);
    case 2: return handed_on<1>(r, F(Heavy(t)), t);
    case 3: return handed_on<2>(r, I::intermediary(Heavy(t)), t);
    case 4: return handed_on<0>(r, S(Heavy(t)), t);
    case 5: return handed_on<1>(r, S::failed(Heavy(t)), t);
    default: return handed_on<2>(r, S::intermediary(Heavy(t)), t);
    }
}
#endif

#define TRIPLE(name, w, ...)                                                                                           \
    VF_SCENARIO(name, w) { program<__VA_ARGS__>(r); }
#if VF_PART == 0
TRIPLE(same_int, 0.5, int, int, int)
TRIPLE(value_is_intermediary, 0.5, Tracked, std::string, Tracked)
#elif VF_PART == 1
TRIPLE(all_distinct, 1.0, Tracked, std::string, int)
TRIPLE(same_string, 0.5, std::string, std::string, std::string)
#elif VF_PART == 2
TRIPLE(error_is_intermediary, 0.5, std::string, Tracked, Tracked)
TRIPLE(convertible, 0.5, int, double, std::string)
#else
TRIPLE(same_tracked, 0.5, Tracked, Tracked, Tracked)
TRIPLE(error_is_value, 0.5, std::shared_ptr<int>, std::shared_ptr<int>, Tracked)
#endif
