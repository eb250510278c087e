// C18: dates against an independent civil-calendar algorithm.
#include "vf.hpp"
#include "spine/core/debugging.hpp"
#include "spine/structure/time/datetime.hpp"

using vf::i64;
namespace {
constexpr i64 kY2k = 946684800;
struct Civil {
    i64 y;
    int mo, d, h, mi, s, wd, yd;
};
bool leap(i64 y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
int month_len(i64 y, int m) {
    static const int l[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return l[m - 1] + (m == 2 && leap(y));
}
/// days since 1970-01-01
i64 days_of(i64 y, int m, int d) {
    i64 n = 0;
    i64 p = y - 1;
    n = p * 365 + p / 4 - p / 100 + p / 400 - 719162; // days before Jan 1st of y (y >= 1)
    for (int i = 1; i < m; ++i) n += month_len(y, i);
    return n + d - 1;
}
Civil civil(i64 t) {
    i64 days = t / 86400, sec = t % 86400;
    if (sec < 0) sec += 86400, --days;
    i64 y = 1970 + days / 366 - 2;
    while (days_of(y + 1, 1, 1) <= days) ++y;
    Civil c{};
    c.y = y;
    c.yd = static_cast<int>(days - days_of(y, 1, 1));
    int rest = c.yd, m = 1;
    while (rest >= month_len(y, m)) rest -= month_len(y, m++);
    c.mo = m, c.d = rest + 1;
    c.h = sec / 3600, c.mi = sec / 60 % 60, c.s = sec % 60;
    c.wd = static_cast<int>(((days + 4) % 7 + 7) % 7);
    return c;
}
/// moments with a taste for month, year and day ends
i64 moment(vf::Rng& r) {
    if (r.chance(1, 10)) { // before the epoch
        i64 t = days_of(r.range(1901, 1969), r.range(1, 12), 1) * 86400 + (r.chance(1, 3) ? r.range(-3, 3) : r.range(0, 31ll * 86400));
        return r.chance(1, 8) ? -r.range(1, 3) : t;
    }
    i64 y = r.chance(1, 8) ? r.pick({1970, 1972, 1999, 2000, 2004, 2038, 2099, 2100, 2101, 2400}) : r.range(1970, r.chance(1, 4) ? 2900 : 2060);
    int m = r.range(1, 12);
    i64 t = days_of(y, m, 1) * 86400;
    switch (r.below(5)) {
    case 0: return std::max<i64>(0, t + r.range(-3, 3));
    case 1: return t + 27 * 86400 + r.range(0, 5) * 86400 + r.range(-2, 2);
    case 2: return std::max<i64>(0, static_cast<i64>(r.below(1ull << r.range(1, 34))));
    default: return t + r.range(0, 31ll * 86400);
    }
}
void same(const DateTime& d, i64 t, const char* how) {
    Civil c = civil(t);
    VF_CHECK(d.getUnixTime() == t, "unix", "%s: unix time %lld, expected %lld", how, (long long)d.getUnixTime(), (long long)t);
    VF_CHECK(d.getY2kTime() == t - kY2k, "y2k", "%s: year-2000 time %lld, expected %lld", how, (long long)d.getY2kTime(), (long long)(t - kY2k));
    VF_CHECK(d.getYear() == c.y && d.getMonth() == c.mo && d.getDay() == c.d, "date", "%s: %d-%d-%d, expected %lld-%d-%d", how, d.getYear(), d.getMonth(),
             d.getDay(), (long long)c.y, c.mo, c.d);
    VF_CHECK(d.getHour() == c.h && d.getMinute() == c.mi && d.getSecond() == c.s, "time", "%s: %d:%d:%d, expected %d:%d:%d", how, d.getHour(), d.getMinute(),
             d.getSecond(), c.h, c.mi, c.s);
    VF_CHECK(d.getWeekDay() == c.wd, "weekday", "%s: weekday %d, expected %d", how, d.getWeekDay(), c.wd);
    VF_CHECK(d.getYearDay() == c.yd, "yearday", "%s: day of year %d, expected %d", how, d.getYearDay(), c.yd);
    VF_CHECK(d.getDST() == 0, "dst", "%s: daylight saving %d in UTC", how, d.getDST());
}
/// leaves non-zero bytes where the next object will live
template<typename F>
void dirty(F&& make) {
    alignas(DateTime) unsigned char mem[sizeof(DateTime)];
    memset(mem, 0x5a, sizeof mem);
    DateTime* d = make(mem);
    (void)d;
}
const char* kMonth[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
} // namespace

VF_SCENARIO(timestamps, 1.0) {
    same(DateTime(), 0, "without arguments");
    for (int i = 0; i < 12; ++i) {
        i64 t = moment(r);
        vf::op("%lld", (long long)t);
        Civil c = civil(t);
        dirty([&](void* m) {
            DateTime* d = new (m) DateTime(static_cast<time_t>(t));
            same(*d, t, "from timestamp");
            return d;
        });
        dirty([&](void* m) {
            DateTime* d = new (m) DateTime(static_cast<int>(c.y), c.mo, c.d, c.h, c.mi, c.s);
            same(*d, t, "from fields");
            same(DateTime(d->getUnixTime()), t, "from its own timestamp");
            return d;
        });
        // weekday, day of year and dst arguments do not change the moment
        DateTime e(static_cast<int>(c.y), c.mo, c.d, c.h, c.mi, c.s, r.range(0, 7), r.range(0, 365), r.pick({-1, 0}));
        same(e, t, "from fields with extra fields");
        if (c.h == 0 && c.mi == 0 && c.s == 0) same(DateTime(static_cast<int>(c.y), c.mo, c.d), t, "from a date");
        if (c.mo == 2 && c.d == 29) VF_EV("leap.day");
        if (c.d == month_len(c.y, c.mo)) VF_EV("month.end");
        if (t < 0) VF_EV("before.1970");
        if (c.y < 2000) VF_EV("before.2000");
        if (t > 0x7fffffff) VF_EV("beyond.2038");
        if (c.y > 2100) VF_EV("beyond.2100");
        vf::state(vf::mix(t / 86400));
    }
    vf::nontrivial();
}
VF_SCENARIO(compiler_strings, 1.0) {
    for (int i = 0; i < 8; ++i) {
        Civil c = civil(moment(r));
        if (c.y > 9999) continue;
        char* date = static_cast<char*>(malloc(12));
        char* time = static_cast<char*>(malloc(9));
        snprintf(date, 12, r.chance(1, 2) ? "%s %2d %4d" : "%s %02d %4d", kMonth[c.mo - 1], c.d, static_cast<int>(c.y)); // __DATE__ pads with a blank
        snprintf(time, 9, "%02d:%02d:%02d", c.h, c.mi, c.s);
        vf::op("%s %s", date, time);
        i64 t = days_of(c.y, c.mo, c.d) * 86400 + c.h * 3600 + c.mi * 60 + c.s;
        dirty([&](void* m) {
            DateTime* d = new (m) DateTime(date, time);
            same(*d, t, "from strings");
            return d;
        });
        if (c.d == 8 || c.d == 9 || c.h == 8 || c.h == 9 || c.mi == 8 || c.mi == 9 || c.s == 8 || c.s == 9) VF_EV("eight.or.nine");
        VF_EV("compiler.string");
        free(date), free(time);
    }
    vf::nontrivial();
}
VF_SCENARIO(formatting, 0.6) {
    i64 t = moment(r);
    Civil c = civil(t);
    DateTime d(static_cast<time_t>(t));
    vf::op("%lld", (long long)t);
    static const char* wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
    char want[64];
    int variant = r.below(3);
    const char* spec = nullptr;
    if (variant == 0)
        snprintf(want, sizeof want, "%s %s %02d %02d:%02d:%02d %lld", wd[c.wd], kMonth[c.mo - 1], c.d, c.h, c.mi, c.s, (long long)c.y);
    else if (variant == 1) {
        spec = "%Y-%m-%dT%H:%M:%S";
        snprintf(want, sizeof want, "%lld-%02d-%02dT%02d:%02d:%02d", (long long)c.y, c.mo, c.d, c.h, c.mi, c.s);
    } else {
        spec = "%j %y";
        snprintf(want, sizeof want, "%03d %02d", c.yd + 1, static_cast<int>(c.y % 100));
    }
    size_t full = strlen(want);
    size_t size = r.chance(1, 2) ? full + r.range(0, 2) : r.range(1, 60);
    char* buf = static_cast<char*>(malloc(size)); // exactly as large: the address sanitizer watches its end
    memset(buf, 1, size);
    size_t n = spec ? d.strf_DateTime(buf, size, spec) : d.strf_DateTime(buf, size);
    if (size > full) {
        VF_CHECK(n == full && memcmp(buf, want, full + 1) == 0, "format", "formatted '%.*s' (%zu), expected '%s'", (int)size, buf, n, want);
        VF_EV("formatted");
    } else {
        VF_CHECK(n == 0, "format-short", "formatting %zu characters into %zu bytes returned %zu", full, size, n);
        VF_EV("format.does.not.fit");
    }
    same(d, t, "after formatting");
    free(buf);
    vf::nontrivial();
}
// a timestamp is shown in UTC whatever the host's time zone
VF_SCENARIO(host_time_zone, 0.1) {
    setenv("TZ", r.pick({"EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3"}), 1);
    tzset();
    struct Restore {
        ~Restore() {
            setenv("TZ", "UTC", 1);
            tzset();
        }
    } restore;
    for (int i = 0; i < 6; ++i) {
        i64 t = moment(r);
        if (r.chance(1, 2)) { // close to a moment at which the zone's clock is changed, where it may show a time twice
            auto offset = [](i64 x) {
                const time_t xt = static_cast<time_t>(x);
                tm b{};
                localtime_r(&xt, &b);
                return b.tm_gmtoff;
            };
            i64 lo = r.range(0, 4102444800), hi = lo;
            for (int day = 0; day < 400 && offset(hi) == offset(lo); ++day) lo = hi, hi += 86400;
            while (hi - lo > 1) {
                i64 mid = lo + (hi - lo) / 2;
                (offset(mid) == offset(lo) ? lo : hi) = mid;
            }
            t = hi + r.range(-7200, 7200);
            if (offset(hi) < offset(lo) && t >= hi - 3600 && t < hi + 3600) VF_EV("hour.shown.twice");
        }
        vf::op("%lld", (long long)t);
        same(DateTime(static_cast<time_t>(t)), t, "in another host time zone");
        // fields and strings are local time there: they denote the moment the zone's clock shows them
        const time_t tt = static_cast<time_t>(t);
        tm l{};
        localtime_r(&tt, &l);
        const int y = l.tm_year + 1900;
        auto shows = [&](const DateTime& d, const char* how) {
            VF_CHECK(d.getUnixTime() == t && d.getY2kTime() == t - kY2k, "local-unix", "%s: unix time %lld, expected %lld", how, (long long)d.getUnixTime(), (long long)t);
            VF_CHECK(d.getYear() == y && d.getMonth() == l.tm_mon + 1 && d.getDay() == l.tm_mday && d.getHour() == l.tm_hour && d.getMinute() == l.tm_min &&
                         d.getSecond() == l.tm_sec && d.getWeekDay() == l.tm_wday && d.getYearDay() == l.tm_yday && d.getDST() == l.tm_isdst,
                     "local-fields", "%s: the fields changed", how);
        };
        shows(DateTime(y, l.tm_mon + 1, l.tm_mday, l.tm_hour, l.tm_min, l.tm_sec, 0, 0, l.tm_isdst), "from local fields");
        const time_t before = tt - 7200, after = tt + 7200; // the clock does not show the same time twice
        tm lb{}, la{};
        localtime_r(&before, &lb), localtime_r(&after, &la);
        if (lb.tm_gmtoff == l.tm_gmtoff && la.tm_gmtoff == l.tm_gmtoff && y > 999 && y < 10000) {
            shows(DateTime(y, l.tm_mon + 1, l.tm_mday, l.tm_hour, l.tm_min, l.tm_sec), "from local fields without a daylight saving flag");
            char date[16], time[16];
            snprintf(date, sizeof date, "%s %2d %4d", kMonth[l.tm_mon], l.tm_mday, y);
            snprintf(time, sizeof time, "%02d:%02d:%02d", l.tm_hour, l.tm_min, l.tm_sec);
            shows(DateTime(date, time), "from local strings");
            if (l.tm_isdst > 0) VF_EV("daylight.saving");
        }
        VF_EV("host.time.zone");
    }
    vf::nontrivial();
}
