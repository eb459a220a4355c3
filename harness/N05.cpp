// N05: time conversions preserve the represented instant.
#include <limits.h>
#include <stdint.h>
#include <string.h>
#include <time.h>
#include <amtl/am-time.h>
#include <algorithm>
#include <string>
#include <vector>
#include <mc/core.h>

namespace {
using std::chrono::nanoseconds;
typedef __int128 Wide;

template <class Rep, class Period> struct Clock {
    typedef Rep rep;
    typedef Period period;
    typedef std::chrono::duration<Rep, Period> duration;
    typedef std::chrono::time_point<Clock> time_point;
};
// the tick must divide into whole nanoseconds for the result type to hold it
typedef Clock<int64_t, std::nano> NanoClock;
typedef Clock<int64_t, std::ratio<1, 10000000>> TenthMicroClock;
typedef Clock<int64_t, std::micro> MicroClock;
typedef Clock<int64_t, std::milli> MilliClock;
typedef Clock<int64_t, std::ratio<1>> SecondClock;
typedef Clock<int64_t, std::ratio<1, 60>> FrameClock;

std::vector<int64_t> seconds() {
    std::vector<int64_t> v;
    for (int i = 0; i < 33; i++) for (int d = -1; d <= 1; d++) { v.push_back((1LL << i) + d); v.push_back(-(1LL << i) + d); }
    for (int64_t s : {0LL, 59LL, 60LL, 86399LL, 86400LL, 1700000000LL, 2147483647LL, 4102444800LL, 9223372034LL, -9223372034LL}) v.push_back(s);
    for (int s = -70; s <= 70; s++) v.push_back(s);
    if (mc::thorough()) for (int s = -3000; s <= 3000; s++) v.push_back(s * 1000003LL);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
std::vector<int64_t> nanos() {
    std::vector<int64_t> v;
    for (int64_t p = 1; p <= 1000000000; p *= 10) for (int d = -2; d <= 2; d++) for (int m : {1, 5, 9}) { int64_t x = p * m + d; v.push_back(x); v.push_back(-x); }
    for (int64_t x : {0LL, 16666666LL, 16666667LL, 123456789LL, 999999999LL, 500000000LL}) v.push_back(x);
    for (auto& x : v) if (x > 999999999 || x < -999999999) x = 999999998;
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
template <class C> void point(timespec ts, Wide total) {
    auto tp = ke::TimespecToTimePoint<C>(ts);
    typedef decltype(tp) TP;
    static_assert(std::is_same_v<typename TP::clock, C>);
    Wide got = nanoseconds(tp.time_since_epoch()).count();
    // the tick length in nanoseconds; a finer or equal clock must be exact
    constexpr Wide num = Wide(C::period::num) * 1000000000, den = C::period::den;
    if (num <= den ? got != total : (got > total ? got - total : total - got) * den >= num + den)
        mc::fail("time point of %lld s + %lld ns is off by %lld ns (tick %lld/%lld s)", (long long)ts.tv_sec, (long long)ts.tv_nsec, (long long)(got - total), (long long)C::period::num, (long long)C::period::den);
}
void conversions() {
    auto ss = seconds(), ns = nanos();
    uint64_t lo, hi, n = 0;
    mc::slice(ss.size(), &lo, &hi);
    for (uint64_t k = lo; k < hi; k++) {
        for (int64_t x : ns) {
            timespec ts;
            ts.tv_sec = ss[k];
            ts.tv_nsec = x;
            Wide total = Wide(ss[k]) * 1000000000 + x;
            nanoseconds d = ke::TimespecToDuration(ts);
            if (Wide(d.count()) != total) mc::fail("duration of %lld s + %lld ns is %lld ns", (long long)ss[k], (long long)x, (long long)d.count());
            point<NanoClock>(ts, total);
            point<TenthMicroClock>(ts, total);
            point<MicroClock>(ts, total);
            point<MilliClock>(ts, total);
            point<SecondClock>(ts, total);
            point<std::chrono::system_clock>(ts, total);
            point<std::chrono::steady_clock>(ts, total);
            if (std::chrono::duration_cast<nanoseconds>(ke::TimespecToTimePoint<std::chrono::system_clock>(ts).time_since_epoch()) != d) mc::fail("duration and time point differ");
            n++;
        }
        mc::state(uint64_t(ss[k]));
    }
    mc::evaluations(n);
    mc::op("conversions");
}
template <class TP, class T> void epoch1(T t) {
    TP tp = ke::EpochValueToTimePoint<TP>(t);
    if (Wide(tp.time_since_epoch().count()) != Wide(t)) mc::fail("epoch value %lld gives %lld ticks", (long long)t, (long long)tp.time_since_epoch().count());
}
void epochs() {
    for (int64_t s : seconds()) {
        epoch1<std::chrono::system_clock::time_point>(s);
        epoch1<std::chrono::steady_clock::time_point>(s);
        epoch1<SecondClock::time_point>(s);
        epoch1<FrameClock::time_point>(s);
        epoch1<MilliClock::time_point>(int32_t(s));
        epoch1<MicroClock::time_point>(uint32_t(s));
        epoch1<std::chrono::time_point<MilliClock, std::chrono::duration<int32_t, std::milli>>>(int32_t(s));
        mc::evaluations(7);
    }
    for (int64_t s : {int64_t(INT64_MAX), int64_t(INT64_MIN)}) epoch1<std::chrono::system_clock::time_point>(s);
    mc::op("epoch values");
}
// Usable in constant expressions, with the same values.
constexpr timespec kTs{-3, 250000001};
constexpr auto kDur = [] { return (long long)ke::TimespecToDuration(kTs).count(); };
constexpr auto kPoint = [] { return (long long)ke::TimespecToTimePoint<NanoClock>(kTs).time_since_epoch().count(); };
constexpr auto kEpoch = [] { return (long long)ke::EpochValueToTimePoint<SecondClock::time_point>(-7).time_since_epoch().count(); };
template <const auto& F, long long Value = F()> constexpr bool is_constant(long long want, int) { return Value == want; }
template <const auto& F> constexpr bool is_constant(long long, ...) { return false; }
void constants() {
    if (!is_constant<kDur>(-2749999999LL, 0)) mc::fail("TimespecToDuration at compile time");
    if (!is_constant<kPoint>(-2749999999LL, 0)) mc::fail("TimespecToTimePoint at compile time");
    if (!is_constant<kEpoch>(-7, 0)) mc::fail("EpochValueToTimePoint at compile time");
    mc::op("constants");
}
std::vector<struct tm> times() {
    std::vector<struct tm> v;
    for (int64_t t : {0LL, -1LL, 951782399LL, 951782400LL, 1078012800LL, 1104537599LL, 1230768000LL, 1419984000LL, 2147483647LL, 2147483648LL, 4107542399LL,
                      253402300799LL, 253402300800LL, -62135596800LL, -62135596801LL, -3000000000LL, 67767976233532799LL}) {
        time_t x = t;
        struct tm r;
        if (gmtime_r(&x, &r)) v.push_back(r);
    }
    for (int m = 0; m < 12; m++) for (int h : {0, 11, 12, 23}) {
        time_t x = 1577836800 + m * 2678399LL + h * 3600;
        struct tm r;
        gmtime_r(&x, &r);
        v.push_back(r);
    }
    for (int wd = 0; wd < 7; wd++) { time_t x = 1199059200 + wd * 86400LL; struct tm r; gmtime_r(&x, &r); v.push_back(r); }   // year boundary weeks
    struct tm leap = v[0];
    leap.tm_sec = 60;
    v.push_back(leap);
    return v;
}
std::string reference(const struct tm& t, const std::string& f) {
    if (f.empty()) return "";
    std::string buf(f.size() * 16 + 4000, '\0');
    std::string g = f + "!";
    size_t n = strftime(&buf[0], buf.size(), g.c_str(), &t);
    return n ? std::string(buf.data(), n - 1) : std::string("<does not fit>");
}
void format1(const struct tm& t, const std::string& f) {
    struct tm c = t;
    std::string want = reference(t, f);
    char* exact = strdup(f.c_str());
    std::string a = ke::FormatTime(c, (const char*)exact), b = ke::FormatTime(c, f);
    free(exact);
    if (a != want || b != want) mc::fail("FormatTime(%s) gives %.80s (length %zu) / %.80s, the C library %.80s (length %zu)", f.substr(0, 60).c_str(), a.c_str(), a.size(), b.c_str(), want.c_str(), want.size());
    if (memcmp(&c, &t, sizeof c)) mc::fail("FormatTime changed the time");
    mc::observe(mc::hash_str(want));
    mc::evaluations(1);
}
std::vector<std::string> convs() {
    std::vector<std::string> v;
    for (const char* c = "aAbBcCdDeFgGhHIjmMnprRStTuUVwWxXyYzZ%"; *c; c++) v.push_back(std::string("%") + *c);
    for (const char* c = "cCxXyY"; *c; c++) v.push_back(std::string("%E") + *c);
    for (const char* c = "deHImMSuUVwWy"; *c; c++) v.push_back(std::string("%O") + *c);
    return v;
}
void formats() {
    auto ts = times();
    auto cs = convs();
    uint64_t lo, hi;
    mc::slice(ts.size(), &lo, &hi);
    for (uint64_t k = lo; k < hi; k++) {
        for (auto& a : cs) {
            format1(ts[k], a);
            format1(ts[k], "<" + a + ">");
            if (k % 4 == 0 || mc::thorough()) for (auto& b : cs) { format1(ts[k], a + b); format1(ts[k], a + "-" + b); }
        }
        format1(ts[k], "");
        for (int c = 1; c < 256; c++) if (c != '%') { format1(ts[k], std::string(1, char(c))); format1(ts[k], std::string("%H") + char(c) + "%M"); }
    }
    mc::op("formats");
}
void lengths() {
    auto ts = times();
    uint64_t lo, hi;
    mc::slice(mc::thorough() ? 5000 : 1400, &lo, &hi);
    for (uint64_t k = lo; k < hi; k++) {
        format1(ts[k % ts.size()], std::string(k, 'x'));
        format1(ts[k % ts.size()], std::string(k, 'x') + "%Y");
        std::string s;
        for (uint64_t j = 0; j < k / 8; j++) s += "%c %j";
        format1(ts[k % ts.size()], s);
    }
    mc::op("lengths");
}
}  // namespace

void mc_register() {
    mc::add("conversions", conversions, 0, -1);
    mc::add("epochs", epochs, 0, 0);
    mc::add("constants", constants, 0, 0);
    mc::add("formats", formats, 0, -1);
    mc::add("lengths", lengths, 0, -1);
}
