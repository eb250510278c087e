// C29: raised exceptions and failed assertions reach the installed handler exactly once
#include "vf.hpp"

#include "spine/core/debugging.hpp"
#include "spine/core/exception.hpp"
#include "spine/core/logging.hpp"

using namespace vf;
using spn::core::ExceptionHandler;

namespace {
struct Delivery {
    int handler;
    std::string type, msg;
    const void* what;
};

int g_alive = 0;
int g_destroyed_twice = 0;
std::vector<Delivery> g_log;

struct Thrown {
    int handler;
};

enum class Mode { RETURN, THROW, RAISE_AGAIN, REPLACE_SELF };

struct custom_exception : spn::core::Exception {
    using Exception::Exception;
    const char* error_type() const override { return "Custom exception"; }
};
struct derived_exception : spn::runtime_exception {
    using runtime_exception::runtime_exception;
    const char* error_type() const override { return "Derived exception"; }
};

struct Recorder : ExceptionHandler {
    int id;
    Mode mode;
    u64 canary = 0xfeedfacecafebeefull;
    int depth = 0;
    std::unique_ptr<ExceptionHandler> kept;
    Recorder(int i, Mode m) : id(i), mode(m) { ++g_alive; }
    ~Recorder() override {
        --g_alive;
        if (canary != 0xfeedfacecafebeefull) ++g_destroyed_twice;
        canary = 0;
    }
    void handle_exception(const spn::core::Exception& e) override {
        g_log.push_back({id, e.error_type(), e.what(), e.what()});
        if (depth > 0) return;
        ++depth;
        struct Leave {
            int& d;
            ~Leave() { --d; }
        } leave{depth};
        if (mode == Mode::THROW) throw Thrown{id};
        if (mode == Mode::RAISE_AGAIN) spn::throw_exception(spn::logic_exception("raised by the handler"));
        if (mode == Mode::REPLACE_SELF) {
            // the handler is kept alive here while it runs
            kept = spn::core::set_machine_exception_handler(nullptr);
        }
    }
};

constexpr const char* kTypes[] = {"Exception", "Runtime exception", "Logic exception", "Assertion exception",
                                  "Custom exception", "Derived exception"};

void raise(int kind, const char* msg, int how) {
#define RAISE(T)                                                                                                       \
    if (how == 0) spn::throw_exception(T(msg));                                                                        \
    else if (how == 1) T(msg).throw_error();                                                                           \
    else {                                                                                                             \
        T original(msg);                                                                                               \
        T copy(original);                                                                                              \
        const spn::core::Exception& base = copy;                                                                       \
        spn::throw_exception(base);                                                                                    \
    }
    switch (kind) {
    case 0: RAISE(spn::core::Exception) break;
    case 1: RAISE(spn::runtime_exception) break;
    case 2: RAISE(spn::logic_exception) break;
    case 3: RAISE(spn::assertion_exception) break;
    case 4: RAISE(custom_exception) break;
    default: RAISE(derived_exception) break;
    }
}

bool holds(int& evaluated, bool v) {
    ++evaluated;
    return v;
}

std::string squeezed(std::string s) {
    std::string o;
    for (char c : s)
        if (c != ' ') o += c;
    return o;
}

struct Restore {
    ~Restore() {
        spn::logging::set_log_level(spn::logging::LogLevel::OFF);
        capture_output(false);
        install_handler();
    }
};

size_t count_lines(const std::string& s, const char* needle) {
    size_t n = 0;
    for (size_t p = 0; (p = s.find(needle, p)) != std::string::npos; ++p) ++n;
    return n;
}
} // namespace

VF_SCENARIO(histories, 1.0) {
    Restore restore;
    g_alive = 0;
    g_destroyed_twice = 0;
    g_log.clear();
    spn::core::set_machine_exception_handler(nullptr);
    size_t heap0 = heap();
    {
        Recorder* current = nullptr;
        int current_id = -1, next_id = 0;
        std::vector<std::unique_ptr<ExceptionHandler>> aside; // handlers taken back
        aside.reserve(64);
        std::vector<const ExceptionHandler*> aside_ptr;
        int steps = static_cast<int>(r.range(3, 30));
        const bool log = r.chance(1, 3);
        capture_output(true);
        spn::logging::set_log_level(log ? spn::logging::LogLevel::DEBUG : spn::logging::LogLevel::OFF);
        for (int i = 0; i < steps; ++i) {
            take_output();
            g_log.clear();
            switch (r.below(8)) {
            case 0:
            case 1: { // install a new handler, nothing, or one taken back earlier
                std::unique_ptr<ExceptionHandler> h;
                Recorder* rec = nullptr;
                auto what = r.below(4);
                if (what == 0) {
                    op("uninstall");
                } else if (what == 1 && !aside.empty()) {
                    auto k = r.below(aside.size());
                    h = std::move(aside[k]);
                    aside.erase(aside.begin() + static_cast<long>(k));
                    rec = static_cast<Recorder*>(h.get());
                    op("reinstall %d", rec->id);
                    VF_EV("reinstalled");
                } else {
                    auto mode = r.pick({Mode::RETURN, Mode::THROW, Mode::THROW, Mode::RAISE_AGAIN, Mode::REPLACE_SELF});
                    auto n = std::make_unique<Recorder>(next_id++, mode);
                    rec = n.get();
                    h = std::move(n);
                    op("install %d mode %d", rec->id, static_cast<int>(mode));
                }
                int alive = g_alive;
                auto old = spn::core::set_machine_exception_handler(std::move(h));
                VF_CHECK(h == nullptr, "not-taken", "installing left the handler with the caller");
                VF_CHECK(old.get() == current, "previous", "installing returned %p, previous handler is %p",
                         static_cast<void*>(old.get()), static_cast<void*>(current));
                VF_CHECK(spn::core::machine_exception_handler() == rec, "installed", "the installed handler is another one");
                VF_CHECK(g_alive == alive, "alive", "%d handlers alive after installing, not %d", g_alive, alive);
                VF_CHECK(g_log.empty(), "spurious", "installing delivered an exception");
                if (old) {
                    if (r.chance(1, 2) && aside.size() < 60) {
                        aside.push_back(std::move(old));
                    } else {
                        old.reset();
                        VF_CHECK(g_alive == alive - 1, "released", "dropping the previous handler left %d alive", g_alive);
                    }
                    VF_EV("replaced");
                }
                current = rec;
                current_id = rec ? rec->id : -1;
                break;
            }
            case 2: { // assertions
                int evaluated = 0;
                const bool first = r.chance(1, 2);
                const bool expect = r.chance(1, 3);
                bool thrown = false;
                const int a = static_cast<int>(r.range(0, 9)), b = r.chance(1, 3) ? a : 10;
                const bool ok = first && a < b;
                op("%s(%d)", expect ? "expect" : "assert", ok);
                try {
                    if (expect) {
                        spn_expect(holds(evaluated, first) && a < b);
                    } else {
                        spn_assert(holds(evaluated, first) && a < b);
                    }
                } catch (const Thrown& t) {
                    thrown = true;
                    VF_CHECK(t.handler == current_id, "throw-from", "thrown from handler %d", t.handler);
                }
                VF_CHECK(evaluated == static_cast<int>(kDebug), "evaluated", "a condition was evaluated %d times", evaluated);
                const bool deliver = kDebug && !ok && !expect && current;
                if (!deliver) {
                    VF_CHECK(g_log.empty() && !thrown, "spurious", "delivered '%s' for a passing assertion or an expectation",
                             g_log.empty() ? "" : g_log[0].msg.c_str());
                    if (expect && !ok) {
                        auto out = take_output();
                        VF_CHECK(count_lines(out, "\n") == static_cast<size_t>(kDebug && log), "expect-log",
                                 "a failed expectation logged '%s'", out.c_str());
                        VF_EV("expectation.failed");
                    }
                    if (ok) VF_EV("assertion.passed");
                    if (!kDebug) VF_EV("assertion.off");
                } else {
                    VF_CHECK(!g_log.empty(), "undelivered", "a failed assertion reached no handler");
                    VF_CHECK(g_log[0].handler == current_id, "handler", "delivered to handler %d, not %d", g_log[0].handler,
                             current_id);
                    VF_CHECK(g_log[0].type == "Assertion exception", "assertion-type", "type '%s'", g_log[0].type.c_str());
                    VF_CHECK(squeezed(g_log[0].msg) == "holds(evaluated,first)&&a<b", "assertion-message", "message '%s'",
                             g_log[0].msg.c_str());
                    VF_CHECK(thrown == (current->mode == Mode::THROW), "throw-through", "handler's throw did %spass",
                             thrown ? "" : "not ");
                    size_t want = current->mode == Mode::RAISE_AGAIN ? 2 : 1;
                    VF_CHECK(g_log.size() == want, "delivered-count", "%zu deliveries instead of %zu", g_log.size(), want);
                    VF_EV("assertion.failed");
                    nontrivial();
                }
                if (deliver && current->mode == Mode::REPLACE_SELF) {
                    current->kept.reset(nullptr == current->kept ? nullptr : current->kept.release());
                    aside.push_back(std::move(current->kept));
                    current = nullptr, current_id = -1;
                }
                break;
            }
            default: { // raise
                int kind = static_cast<int>(r.below(6)), how = static_cast<int>(r.below(3));
                std::string text = "m" + std::to_string(r.below(1000000)) + std::string(r.below(4) ? r.below(20) : r.below(700), 'x');
                std::unique_ptr<char[]> msg(new char[text.size() + 1]);
                memcpy(msg.get(), text.c_str(), text.size() + 1);
                op("raise %d/%d len %zu", kind, how, text.size());
                bool thrown = false;
                try {
                    raise(kind, msg.get(), how);
                } catch (const Thrown& t) {
                    thrown = true;
                    VF_CHECK(t.handler == current_id, "throw-from", "thrown from handler %d", t.handler);
                }
                if (!current) {
                    VF_CHECK(g_log.empty(), "no-handler", "delivered to handler %d although none is installed", g_log[0].handler);
                    VF_EV("no.handler");
                    break;
                }
                VF_CHECK(!g_log.empty(), "undelivered", "a raised exception reached no handler");
                VF_CHECK(g_log[0].handler == current_id, "handler", "delivered to handler %d, not %d", g_log[0].handler,
                         current_id);
                VF_CHECK(g_log[0].type == kTypes[kind], "type", "delivered as '%s', raised as '%s'", g_log[0].type.c_str(),
                         kTypes[kind]);
                VF_CHECK(g_log[0].msg == text, "message", "delivered '%s', raised '%s'", g_log[0].msg.c_str(), text.c_str());
                VF_CHECK(thrown == (current->mode == Mode::THROW), "throw-through", "handler's throw did %spass",
                         thrown ? "" : "not ");
                size_t want = current->mode == Mode::RAISE_AGAIN ? 2 : 1;
                VF_CHECK(g_log.size() == want, "delivered-count", "%zu deliveries instead of %zu", g_log.size(), want);
                if (current->mode == Mode::RAISE_AGAIN) {
                    VF_CHECK(g_log[1].type == "Logic exception" && g_log[1].msg == "raised by the handler", "nested",
                             "nested exception delivered as '%s' '%s'", g_log[1].type.c_str(), g_log[1].msg.c_str());
                    VF_EV("nested");
                }
                if (current->mode == Mode::REPLACE_SELF) {
                    VF_CHECK(spn::core::machine_exception_handler() == nullptr, "replaced-while-handling", "still installed");
                    VF_CHECK(current->kept.get() == current, "previous", "removing itself returned another handler");
                    aside.push_back(std::move(current->kept));
                    current = nullptr, current_id = -1;
                    VF_EV("removed.itself");
                }
                VF_EV("delivered");
                nontrivial();
                break;
            }
            }
            VF_CHECK(g_destroyed_twice == 0, "double-delete", "a handler was destroyed twice");
            VF_CHECK(g_alive == static_cast<int>(aside.size()) + (current ? 1 : 0), "alive", "%d handlers alive, expected %zu",
                     g_alive, aside.size() + (current ? 1 : 0));
            VF_CHECK(spn::core::machine_exception_handler() == current, "installed", "the installed handler changed");
            state(static_cast<u64>(aside.size()) * 64 + (current ? 1 + static_cast<u64>(current->mode) : 0) + g_log.size() * 8);
        }
        spn::core::set_machine_exception_handler(nullptr);
        aside.clear();
        VF_CHECK(g_alive == 0, "leaked", "%d handlers leaked", g_alive);
        spn::logging::set_log_level(spn::logging::LogLevel::OFF);
        capture_output(false);
    }
    std::vector<Delivery>().swap(g_log);
    VF_CHECK(heap() <= heap0, "leaked-memory", "heap grew from %zu to %zu", heap0, heap());
}

namespace {
struct Probe {
    int* n;
    explicit Probe(int* p) : n(p) {}
    bool operator()(bool v) const {
        ++*n;
        return v;
    }
};
} // namespace

// assertions as statements in every position, and their side effects
VF_SCENARIO(assertion_positions, 0.5) {
    Restore restore;
    g_alive = 0;
    g_log.clear();
    spn::core::set_machine_exception_handler(std::make_unique<Recorder>(1, Mode::RETURN));
    int n = 0;
    Probe probe(&n);
    int loops = static_cast<int>(r.range(1, 12));
    size_t fails = 0;
    bool branch = false;
    for (int i = 0; i < loops; ++i) {
        bool v = r.chance(1, 2), c = r.chance(1, 2);
        op("%d%d", v, c);
        if (c) {
            spn_assert(probe(v))
            fails += !v;
        } else {
            branch = true;
            spn_assert((probe(v), probe(v) || false));
            fails += !v;
            n -= kDebug ? 1 : 0;
        }
    }
    (void)branch;
    VF_CHECK(n == (kDebug ? loops : 0), "evaluated", "%d conditions evaluated out of %d", n, loops);
    VF_CHECK(g_log.size() == (kDebug ? fails : 0), "delivered-count", "%zu delivered for %zu failing assertions", g_log.size(),
             fails);
    for (auto& d : g_log) VF_CHECK(d.type == "Assertion exception" && d.msg.find("probe(v)") != std::string::npos, "assertion-message", "'%s' '%s'", d.type.c_str(), d.msg.c_str());
    spn::core::set_machine_exception_handler(nullptr);
    VF_CHECK(g_alive == 0, "leaked", "%d handlers leaked", g_alive);
    if (fails) nontrivial();
}
