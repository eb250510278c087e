#include "vf.hpp"

#include "spine/core/exception.hpp"
#include "spine/core/logging.hpp"
#include "spine/platform/hal.hpp"

#include <csignal>
#include <iostream>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" {
size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
}

namespace vf {

std::vector<Scenario>& scenarios() {
    static std::vector<Scenario> s;
    return s;
}

namespace {
constexpr size_t kTraceCap = 1 << 16;
/// where the harness is, in a shared file mapping: it survives however the process ends
struct Position {
    u64 idx;
    u64 trace_len;
    char scenario[112];
    char trace[kTraceCap + 1024]; // fixed buffer: recording never allocates
};
Position* g_pos = nullptr;
char* g_trace = nullptr;
size_t g_trace_len = 0;
u64 g_trace_hash = 0;
bool g_nontrivial = false;
bool g_thorough = false;
const char* g_scn = "?";
u64 g_idx = 0;
FILE* g_out = nullptr;
u64 g_violations = 0;
std::map<std::string, u64> g_keys;
std::vector<Counter*>& counters() {
    static std::vector<Counter*> c = [] {
        std::vector<Counter*> v;
        v.reserve(4096); // registering a counter never allocates during a case
        return v;
    }();
    return c;
}
// open-addressing set with fixed memory, so recording never allocates during a case
constexpr size_t kSet = 1 << 21;
struct FixedSet {
    u64* t = static_cast<u64*>(calloc(kSet, 8));
    u64 n = 0;
    bool add(u64 h) {
        if (!h) h = 1;
        if (n > kSet / 2) return false;
        for (size_t i = h & (kSet - 1);; i = (i + 1) & (kSet - 1)) {
            if (t[i] == h) return false;
            if (!t[i]) {
                t[i] = h;
                ++n;
                return true;
            }
        }
    }
};
FixedSet& states() {
    static FixedSet s;
    return s;
}
FixedSet& cases_seen() {
    static FixedSet s;
    return s;
}

std::string esc(std::string_view s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += static_cast<char>(c);
    }
    return o;
}
std::string trace_text(size_t max) {
    if (g_trace_len <= max) return std::string(g_trace, g_trace_len);
    return std::string(g_trace, max / 3) + " ... " + std::string(g_trace + g_trace_len - max * 2 / 3, max * 2 / 3);
}

void on_hang(int) {
    if (write(2, "\nVF-HANG\n", 9) < 0) _exit(98);
    _exit(97);
}
void arm(int sec) {
    itimerval t{};
    t.it_value.tv_sec = sec;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

struct NullBuf : std::streambuf {
    bool keep = false;
    std::string kept;
    int overflow(int c) override {
        if (keep && c != EOF) kept += static_cast<char>(c);
        return c == EOF ? 0 : c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        if (keep) kept.append(s, static_cast<size_t>(n));
        return n;
    }
};
NullBuf g_buf;

struct Thrower : spn::core::ExceptionHandler {
    void handle_exception(const spn::core::Exception& e) override { throw SpineException{e.error_type(), e.what()}; }
};
} // namespace

Counter::Counter(const char* nm) : name(nm) { counters().push_back(this); }

void op(const char* fmt, ...) {
    if (g_trace_len + 600 > kTraceCap) { // keep the most recent half
        memmove(g_trace, g_trace + kTraceCap / 2, g_trace_len - kTraceCap / 2);
        g_trace_len -= kTraceCap / 2;
    }
    va_list a;
    va_start(a, fmt);
    int n = vsnprintf(g_trace + g_trace_len, 512, fmt, a);
    va_end(a);
    if (n < 0) return;
    size_t w = static_cast<size_t>(n) > 511 ? 511 : static_cast<size_t>(n);
    g_trace_hash = hash_bytes(g_trace + g_trace_len, w, g_trace_hash);
    g_trace_len += w;
    g_trace[g_trace_len++] = ';';
    g_trace[g_trace_len++] = ' ';
    g_pos->trace_len = g_trace_len;
}

static void report(const char* key, const char* msg) {
    std::string k = std::string(g_scn) + "/" + key;
    ++g_violations;
    if (g_keys[k]++ == 0) {
        fprintf(g_out, "{\"violation\": \"%s\", \"scenario\": \"%s\", \"index\": %llu, \"message\": \"%s\", \"trace\": \"%s\"}\n",
                esc(k).c_str(), g_scn, static_cast<unsigned long long>(g_idx), esc(msg).c_str(),
                esc(trace_text(6000)).c_str());
        fflush(g_out);
    }
}

void fail(const char* key, const char* fmt, ...) {
    char b[1024];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    report(key, b);
    throw CaseFailed{};
}

void state(u64 h) { states().add(mix(h)); }
void nontrivial() { g_nontrivial = true; }
bool thorough() { return g_thorough; }
size_t heap() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
std::string take_output() {
    std::string s;
    s.swap(g_buf.kept);
    return s;
}
void capture_output(bool on) {
    g_buf.keep = on;
    std::string().swap(g_buf.kept);
}
void install_handler() { auto old = spn::core::set_machine_exception_handler(std::make_unique<Thrower>()); }
#if !defined(VF_OWN_CLOCK) // platforms with a clock of their own define it in the harness
void set_clock_us(i64 us) {
    auto& m = spn::platform::MockStateInstance();
    m.millis = k_time_ms(us / 1000);
    m.micros = k_time_us(us % 1000);
}
#endif

} // namespace vf

int main(int argc, char** argv) {
    using namespace vf;
    u64 seed = 1, cases = 1000, shard = 0, shards = 1;
    long only_case = -1;
    std::string only, out = "/dev/stdout";
    std::set<std::pair<std::string, u64>> skip;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
        if (a == "--cases") cases = strtoull(v.c_str(), nullptr, 10);
        if (a == "--tier") g_thorough = v == "thorough";
        if (a == "--out") out = v;
        if (a == "--only") only = v;
        if (a == "--case") only_case = strtol(v.c_str(), nullptr, 10);
        if (a == "--shard") shard = strtoull(v.c_str(), nullptr, 10);
        if (a == "--shards") shards = strtoull(v.c_str(), nullptr, 10);
        if (a == "--skip") {
            auto c = v.find(':');
            skip.insert({v.substr(0, c), strtoull(v.c_str() + c + 1, nullptr, 10)});
        }
    }
    g_out = fopen(out.c_str(), "w");
    if (!g_out) return 2;
    {
        int fd = open((out + ".at").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Position)) != 0) return 2;
        void* m = mmap(nullptr, sizeof(Position), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) return 2;
        close(fd);
        g_pos = static_cast<Position*>(m);
        g_trace = g_pos->trace;
    }
    states();
    cases_seen();
    counters();
    auto* old_buf = std::cout.rdbuf(&g_buf);
    setenv("TZ", "UTC", 1);
    signal(SIGVTALRM, on_hang);

    u64 total = 0, nontriv = 0;
    for (auto& s : scenarios()) {
        if (!only.empty() && only != s.name) continue;
        g_scn = s.name;
        u64 n = static_cast<u64>(static_cast<double>(cases) * s.weight);
        if (n == 0) n = 1;
        u64 samples = 0, ran = 0;
        for (u64 i = 0; i < n; ++i) {
            if (only_case >= 0 ? i != static_cast<u64>(only_case) : i % shards != shard) continue;
            if (skip.count({s.name, i})) continue;
            g_idx = i;
            g_trace_len = 0;
            g_pos->idx = i;
            g_pos->trace_len = 0;
            snprintf(g_pos->scenario, sizeof g_pos->scenario, "%s", s.name);
            g_trace_hash = hash_bytes(s.name, strlen(s.name));
            g_nontrivial = false;
            Rng r(mix(seed * 1000003 + i) ^ hash_bytes(s.name, strlen(s.name)));
            set_clock_us(0);
            spn::logging::set_log_level(spn::logging::LogLevel::OFF);
            install_handler();
            arm(g_thorough ? 60 : 30);
            try {
                s.fn(r);
            } catch (const CaseFailed&) {
            } catch (const SpineException& e) {
                report(("unexpected-exception:" + e.type).c_str(), e.msg.c_str());
            } catch (const std::exception& e) {
                report("c++-exception", e.what());
            }
            arm(0);
            ++total;
            ++ran;
            if (g_nontrivial && cases_seen().add(mix(g_trace_hash))) {
                ++nontriv;
                if (samples < 1 && shard == 0) {
                    ++samples;
                    fprintf(g_out, "{\"sample\": \"%s#%llu\", \"trace\": \"%s\"}\n", s.name,
                            static_cast<unsigned long long>(i), esc(trace_text(500)).c_str());
                }
            }
            if (g_violations >= 200) break;
        }
        fprintf(g_out, "{\"scenario\": \"%s\", \"ran\": %llu}\n", s.name, static_cast<unsigned long long>(ran));
    }
    std::cout.rdbuf(old_buf);
    fprintf(g_out, "{\"done\": true, \"cases\": %llu, \"nontrivial\": %llu, \"states\": %llu, \"violations\": %llu, \"events\": {",
            static_cast<unsigned long long>(total), static_cast<unsigned long long>(nontriv),
            static_cast<unsigned long long>(states().n), static_cast<unsigned long long>(g_violations));
    std::map<std::string, u64> ev;
    for (auto* c : counters()) ev[c->name] += c->n;
    bool first = true;
    for (auto& [k, v] : ev) {
        fprintf(g_out, "%s\"%s\": %llu", first ? "" : ", ", k.c_str(), static_cast<unsigned long long>(v));
        first = false;
    }
    fprintf(g_out, "}}\n");
    fclose(g_out);
    unlink((out + ".at").c_str());
    return 0;
}
