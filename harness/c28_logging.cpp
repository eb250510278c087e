// C28: logging is filtered by level and bounded for messages of any length
#include "vf.hpp"

#include "spine/core/debugging.hpp"
#include "spine/core/logging.hpp"
#include "spine/platform/hal.hpp"

using namespace vf;
using spn::logging::LogLevel;

namespace {
constexpr size_t kMax = SPINE_LOGGING_MAX_MSG_SIZE - 1;

const char* label(LogLevel l) {
    switch (l) {
    case LogLevel::ERR: return "ERR";
    case LogLevel::WARN: return "WARN";
    case LogLevel::INFO: return "INFO";
    case LogLevel::DEBUG: return "DBG";
    default: return "OFF";
    }
}

/// an exactly sized heap copy without slack, so that reading past it is seen
struct Text {
    std::unique_ptr<char[]> p;
    size_t n;
    explicit Text(const std::string& s) : p(new char[s.size() + 1]), n(s.size()) { memcpy(p.get(), s.c_str(), n + 1); }
};

std::string letters(Rng& r, size_t n, bool format) {
    std::string s;
    while (s.size() < n) {
        char c = static_cast<char>(r.range(33, 126));
        if (c == '%') {
            if (!format || s.size() + 2 > n) continue;
            s += "%%";
            continue;
        }
        s += c;
    }
    return s;
}

size_t length(Rng& r) {
    switch (r.below(6)) {
    case 0: return r.below(4);
    case 1: return r.below(40);
    case 2: return static_cast<size_t>(std::max<i64>(0, static_cast<i64>(kMax) - 40 + static_cast<i64>(r.below(60))));
    case 3: return 200 + r.below(120);
    case 4: return r.below(1200);
    default: return r.below(5000);
    }
}

std::string formatted(const char* fmt, ...) {
    va_list a, b;
    va_start(a, fmt);
    va_copy(b, a);
    int n = vsnprintf(nullptr, 0, fmt, a);
    va_end(a);
    std::string s(static_cast<size_t>(n) + 1, '\0');
    vsnprintf(s.data(), s.size(), fmt, b);
    va_end(b);
    s.resize(static_cast<size_t>(n));
    return s;
}

std::string prefix(LogLevel l) {
    char b[64];
    snprintf(b, sizeof b, "[%08u] [%s] ", static_cast<unsigned>(static_cast<uint32_t>(HAL::millis().raw())), label(l));
    return b;
}

std::string shown(const std::string& s) { return s.size() < 500 ? s : s.substr(0, 240) + " ... " + s.substr(s.size() - 240); }

/// one line of the output against the full text it should hold
void check_line(LogLevel l, const std::string& full, const std::string& line) {
    const auto want = full.substr(0, kMax);
    VF_CHECK(line.size() <= kMax, "too-long", "a line of %zu characters exceeds the %zu", line.size(), kMax);
    if (l == LogLevel::DEBUG) { // a debug line may go on with where it came from
        VF_CHECK(line.compare(0, want.size(), want) == 0, "line", "line '%s' does not start with '%s'", shown(line).c_str(),
                 shown(want).c_str());
    } else {
        VF_CHECK(line == want, "line", "line '%s', expected '%s'", shown(line).c_str(), shown(want).c_str());
    }
    if (full.size() > kMax) VF_EV("truncated");
    if (full.size() == kMax) VF_EV("exactly.at.limit");
}

std::vector<std::string> lines(const std::string& out) {
    std::vector<std::string> v;
    size_t at = 0;
    while (at < out.size()) {
        auto nl = out.find('\n', at);
        VF_CHECK(nl != std::string::npos, "unterminated", "output not ended by a newline: '%s'", shown(out.substr(at)).c_str());
        v.push_back(out.substr(at, nl - at));
        at = nl + 1;
    }
    return v;
}

struct Capture {
    Capture() { capture_output(true); }
    ~Capture() {
        spn::logging::set_log_level(LogLevel::OFF);
        capture_output(false);
    }
};

LogLevel threshold(Rng& r) {
    return r.pick({LogLevel::OFF, LogLevel::ERR, LogLevel::WARN, LogLevel::INFO, LogLevel::DEBUG});
}
LogLevel level(Rng& r) { return r.pick({LogLevel::ERR, LogLevel::WARN, LogLevel::INFO, LogLevel::DEBUG}); }

i64 random_clock(Rng& r) {
    switch (r.below(4)) {
    case 0: return 0;
    case 1: return r.range(0, 200000) * 1000;
    case 2: return (r.range(99999990, 100000010)) * 1000 + r.range(0, 999);
    default: return (4294967295ll + r.range(-5, 5)) * 1000;
    }
}
} // namespace

VF_SCENARIO(statements, 1.0) {
    Capture cap;
    int steps = static_cast<int>(r.range(1, 12));
    for (int i = 0; i < steps; ++i) {
        auto t = threshold(r);
        auto l = level(r);
        spn::logging::set_log_level(t);
        take_output();
        set_clock_us(random_clock(r));
        VF_CHECK(spn::logging::log_level() == t, "log-level", "log_level() is not the level set");
        const bool on = static_cast<int>(l) <= static_cast<int>(t);
        VF_CHECK(spn::logging::is_loggable(l) == on, "is-loggable", "is_loggable(%s) is %d at threshold %d", label(l), !on,
                 static_cast<int>(t));
        int evaluated = 0;
        auto once = [&](auto v) {
            ++evaluated;
            return v;
        };
        Text text(letters(r, length(r), false)), text2(letters(r, length(r), false));
        int num = static_cast<int>(r.range(-2147483647, 2147483647));
        double fl = r.real(-1e6, 1e6);
        auto shape = r.below(6);
        auto how = r.below(2);
        op("%s@%d/%d:%zu,%zu %d", label(l), static_cast<int>(t), static_cast<int>(shape), text.n, text2.n, num);
        std::string full;
        int args = 0;
        Text format(letters(r, length(r), true));
#define STATEMENT(...)                                                                                                 \
    if (how == 0 && l == LogLevel::ERR) {                                                                              \
        SPN_ERR(__VA_ARGS__);                                                                                          \
    } else if (how == 0 && l == LogLevel::WARN) {                                                                      \
        SPN_WARN(__VA_ARGS__);                                                                                         \
    } else if (how == 0 && l == LogLevel::INFO) {                                                                      \
        SPN_LOG(__VA_ARGS__);                                                                                          \
    } else {                                                                                                           \
        SPN_LOG_IMPL(l, __VA_ARGS__);                                                                                  \
    }
        switch (shape) {
        case 0:
            STATEMENT("%s", once(text.p.get()));
            full = formatted("%s", text.p.get()), args = 1;
            break;
        case 1:
            STATEMENT("%s|%d|%s", once(text.p.get()), once(num), once(text2.p.get()));
            full = formatted("%s|%d|%s", text.p.get(), num, text2.p.get()), args = 3;
            break;
        case 2:
            STATEMENT("value: %.3f%%", once(fl));
            full = formatted("value: %.3f%%", fl), args = 1;
            break;
        case 3:
            STATEMENT(format.p.get());
            full = formatted("%s", format.p.get());
            for (size_t p = 0; (p = full.find("%%", p)) != std::string::npos; ++p) full.erase(p, 1);
            break;
        case 4:
            STATEMENT("%*d", once(static_cast<int>(text.n % 3000)), once(num));
            full = formatted("%*d", static_cast<int>(text.n % 3000), num), args = 2;
            break;
        default:
            STATEMENT("");
            break;
        }
        full = prefix(l) + full;
        auto out = take_output();
        if (!on) {
            VF_CHECK(out.empty(), "not-suppressed", "a suppressed %s statement printed '%s'", label(l), shown(out).c_str());
            VF_CHECK(evaluated == 0, "suppressed-evaluated", "a suppressed %s statement evaluated %d arguments", label(l),
                     evaluated);
            VF_EV("suppressed");
        } else {
            auto ls = lines(out);
            VF_CHECK(ls.size() == 1, "line-count", "a %s statement printed %zu lines", label(l), ls.size());
            check_line(l, full, ls[0]);
            VF_CHECK(evaluated == args, "evaluated", "a %s statement evaluated %d arguments, not %d", label(l), evaluated, args);
            VF_EV("printed");
        }
        state(static_cast<u64>(t) * 64 + static_cast<u64>(l) * 8 + shape + full.size() * 4096);
        nontrivial();
    }
}

namespace {
/// an argument that logs itself
int logging_argument(int v) {
    SPN_WARN("inner %d", v);
    return v + 1;
}
} // namespace

VF_SCENARIO(nested, 0.3) {
    Capture cap;
    auto t = threshold(r);
    auto l = level(r);
    spn::logging::set_log_level(t);
    take_output();
    set_clock_us(random_clock(r));
    int v = static_cast<int>(r.range(0, 1000000));
    op("nested %s@%d %d", label(l), static_cast<int>(t), v);
    SPN_LOG_IMPL(l, "outer %d", logging_argument(v));
    auto ls = lines(take_output());
    const bool outer = l <= t, inner = outer && LogLevel::WARN <= t;
    VF_CHECK(ls.size() == static_cast<size_t>(outer + inner), "nested-count", "%zu lines instead of %d", ls.size(),
             outer + inner);
    if (inner) check_line(LogLevel::WARN, prefix(LogLevel::WARN) + formatted("inner %d", v), ls[0]);
    if (outer) check_line(l, prefix(l) + formatted("outer %d", v + 1), ls.back());
    if (inner) VF_EV("nested");
    // a statement as the only branch of a condition
    bool other = false;
    if (v % 2 == 0) {
        SPN_ERR("even")
    } else {
        other = true;
    }
    auto ls2 = lines(take_output());
    VF_CHECK(ls2.size() == static_cast<size_t>(v % 2 == 0 && t >= LogLevel::ERR), "branch", "%zu lines from a branch", ls2.size());
    VF_CHECK(other == (v % 2 != 0), "branch-other", "the other branch was taken wrongly");
    nontrivial();
}

// the library's own statements carry messages of any length too: an exception nobody handles is logged
VF_SCENARIO(exception_message, 0.3) {
    Capture cap;
    auto old = spn::core::set_machine_exception_handler(nullptr);
    auto t = threshold(r);
    spn::logging::set_log_level(t);
    take_output();
    set_clock_us(random_clock(r));
    Text msg(letters(r, length(r), false));
    op("unhandled %zu@%d", msg.n, static_cast<int>(t));
    spn::throw_exception(spn::runtime_exception(msg.p.get()));
    auto ls = lines(take_output());
    size_t warn = 0;
    for (auto& s : ls) {
        VF_CHECK(s.size() <= kMax, "too-long", "a line of %zu characters exceeds the %zu", s.size(), kMax);
        VF_CHECK(t > LogLevel::OFF, "not-suppressed", "printed although logging is off: '%s'", shown(s).c_str());
        auto pre = prefix(LogLevel::WARN).substr(0, kMax);
        if (s.compare(0, pre.size(), pre) == 0) ++warn;
    }
    if (t < LogLevel::WARN) VF_CHECK(ls.empty(), "not-suppressed", "a suppressed warning was printed");
    if (t >= LogLevel::WARN) VF_CHECK(warn >= 1, "unreported", "an unhandled exception was not logged");
    VF_EV("unhandled.exception");
    spn::logging::set_log_level(LogLevel::OFF);
    install_handler();
    nontrivial();
}

VF_SCENARIO(debug_statements, 0.3) {
    Capture cap;
    auto t = threshold(r);
    spn::logging::set_log_level(t);
    take_output();
    set_clock_us(random_clock(r));
    Text text(letters(r, length(r), false));
    int evaluated = 0;
    auto once = [&](const char* s) {
        ++evaluated;
        return s;
    };
    op("dbg %zu@%d", text.n, static_cast<int>(t));
    SPN_DBG("%s", once(text.p.get()));
    auto ls = lines(take_output());
    const bool on = kDebug && t == LogLevel::DEBUG;
    VF_CHECK(ls.size() == static_cast<size_t>(on), "debug-count", "a debug statement printed %zu lines", ls.size());
    VF_CHECK(evaluated == static_cast<int>(on), "debug-evaluated", "a debug statement evaluated its argument %d times", evaluated);
    if (on) check_line(LogLevel::DEBUG, prefix(LogLevel::DEBUG) + text.p.get(), ls[0]);
    if (on) VF_EV("debug.printed");
    nontrivial();
}

// printing to the monitor with a format is bounded as well
VF_SCENARIO(monitor_printf, 0.3) {
    Capture cap;
    Text a(letters(r, length(r), false)), b(letters(r, length(r), false));
    op("printf %zu %zu", a.n, b.n);
    HAL::printf("%s-%s", a.p.get(), b.p.get());
    auto out = take_output();
    auto full = std::string(a.p.get()) + "-" + b.p.get();
    VF_CHECK(full.compare(0, out.size(), out) == 0 && out.size() >= std::min<size_t>(full.size(), 255), "printf", "printf of %zu characters printed %zu: '%s'", full.size(), out.size(),
             shown(out).c_str());
    VF_EV("monitor.printf");
    if (full.size() > 255) nontrivial();
}
