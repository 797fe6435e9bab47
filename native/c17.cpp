#include "models.h"
#include "TimeMachine.h"
#include "UtilsDateTime.h"
using namespace hb;

// an independent calendar (days since 1858-11-17, proleptic Gregorian)
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int mlen(int y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : d[m - 1]; }
static long dayNo(int y, int m, int d) {   // days since 1858-11-17
    long n = 0;
    if (y >= 1858) for (int k = 1858; k < y; k++) n += leap(k) ? 366 : 365;
    else for (int k = y; k < 1858; k++) n -= leap(k) ? 366 : 365;
    for (int k = 1; k < m; k++) n += mlen(y, k);
    n += d - 1;
    return n - 320;   // 1858-11-17 is the 321st day of 1858
}
static int doyOf(int y, int m, int d) { int n = d; for (int k = 1; k < m; k++) n += mlen(y, k); return n; }

struct D { int y, m, d, h, mi, s; };
static D aDate(Ctx& c, bool time) {
    D x{};
    x.y = c.chance(0.3) ? (const int[]){1900, 1904, 1999, 2000, 2001, 2004, 2096, 2100}[c.integer(0, 7)] : c.integer(1900, 2100);
    x.m = c.integer(1, 12);
    x.d = c.chance(0.3) ? mlen(x.y, x.m) : c.chance(0.2) ? 1 : c.integer(1, mlen(x.y, x.m));
    if (c.chance(0.1)) { x.m = 2; x.d = mlen(x.y, 2); }
    if (c.chance(0.1)) { x.m = 12; x.d = 31; }
    if (time) { x.h = c.chance(0.2) ? 23 : c.integer(0, 23); x.mi = c.chance(0.2) ? 59 : c.integer(0, 59); x.s = c.chance(0.2) ? 59 : c.integer(0, 59); }
    c.note("date", std::to_string(x.y) + "-" + std::to_string(x.m) + "-" + std::to_string(x.d) + "T" + std::to_string(x.h) + ":" + std::to_string(x.mi) + ":" + std::to_string(x.s));
    return x;
}

HB_CASE(calendar, 4) {
    D x = aDate(c, c.flag("time"));
    double want = (double)dayNo(x.y, x.m, x.d) + (x.h * 3600 + x.mi * 60 + x.s) / 86400.0;
    double mjd = GetMJD(x.y, x.m, x.d, x.h, x.mi, x.s);
    c.eq(mjd, want, "C17 the date number counts the days of the Gregorian calendar", 0, 1e-9);
    Time t = GetTimeStructFromMJD(mjd);
    c.check(t.year == x.y && t.month == x.m && t.day == x.d && t.hour == x.h && t.min == x.mi && t.sec == x.s, "C17 a date survives the conversion to a number and back",
            std::to_string(t.year) + "-" + std::to_string(t.month) + "-" + std::to_string(t.day) + "T" + std::to_string(t.hour) + ":" + std::to_string(t.min) + ":" + std::to_string(t.sec));
    if (mjd > 0) {
        TimeMachine tm;
        tm.Initialize(mjd, mjd + 10, 1, TimeUnit::Day);
        c.eq(tm.GetCurrentDayOfYear(), doyOf(x.y, x.m, x.d), "C17 day of the year", 0, 0);
    }
    c.cover(leap(x.y) ? (x.m > 2 ? "leap/after" : "leap/before") : "common");
    for (int k = 0; k < 3; k++) {   // whole-number increments
        int n = c.integer(-400, 4000), u = c.integer(0, 3);
        double per = (const double[]){7, 1, 1 / 24.0, 1 / 1440.0}[u];
        double got = IncrementDateBy(mjd, n, (const TimeUnit[]){TimeUnit::Week, TimeUnit::Day, TimeUnit::Hour, TimeUnit::Minute}[u]);
        c.eq(got, mjd + n * per, "C17 date increments", 0, 1e-9);
    }
}

HB_CASE(parse, 3) {
    bool time = c.flag("time"), secs = time && c.flag("seconds"), iso = c.chance(0.5);
    D x = aDate(c, time);
    if (!secs) x.s = 0;
    const char sep = ".-/"[c.integer(0, 2)];
    char b[64];
    TimeFormat f;
    char day[32];
    if (iso) snprintf(day, sizeof day, "%04d%c%02d%c%02d", x.y, sep, x.m, sep, x.d);
    else snprintf(day, sizeof day, "%02d%c%02d%c%04d", x.d, sep, x.m, sep, x.y);
    if (!time) { snprintf(b, sizeof b, "%s", day); f = iso ? (c.chance(0.5) ? ISOdate : YYYY_MM_DD) : DD_MM_YYYY; }
    else if (!secs) { snprintf(b, sizeof b, "%s %02d:%02d", day, x.h, x.mi); f = iso ? YYYY_MM_DD_hh_mm : DD_MM_YYYY_hh_mm; }
    else { snprintf(b, sizeof b, "%s %02d:%02d:%02d", day, x.h, x.mi, x.s); f = iso ? YYYY_MM_DD_hh_mm_ss : DD_MM_YYYY_hh_mm_ss; }
    bool g = c.chance(0.4);
    if (g) f = guess;
    if (g && iso && sep == '.' && !time) return;   // not among the guessed patterns
    c.note("text", b);
    double want = (double)dayNo(x.y, x.m, x.d) + (x.h * 3600 + x.mi * 60 + x.s) / 86400.0;
    try { c.eq(ParseDate(b, f), want, "C17 a written date is read as that date", 0, 1e-9); c.cover(g ? "parsed/guess" : "parsed"); }
    catch (const std::exception& e) { c.check(false, "C17 a written date is read as that date", std::string("refused: ") + e.what()); }
    // dates that do not exist are refused
    D y = x;
    if (c.chance(0.5)) { y.m = (const int[]){2, 4, 6, 9, 11}[c.integer(0, 4)]; y.d = mlen(y.y, y.m) + 1; }
    else y.m = c.integer(13, 19);
    if (y.d < 13 && y.m > 12) y.d = 13 + c.integer(0, 10);
    snprintf(b, sizeof b, "%04d-%02d-%02d", y.y, y.m, y.d);
    c.note("no date", b);
    bool refused = false;
    try { (void)ParseDate(b, c.chance(0.5) ? guess : YYYY_MM_DD); } catch (const std::exception&) { refused = true; }
    c.check(refused, "C17 a date that does not exist is refused", b);
    refused = false;
    try { (void)GetMJD(y.y, y.m, y.d); } catch (const std::exception&) { refused = true; }
    c.check(refused, "C17 a date that does not exist is refused", b);
}

HB_CASE(clock, 5) {
    int unit = c.integer(0, 3), step = c.chance(0.5) ? 1 : c.inum("step", 1, unit == 3 ? 120 : unit == 2 ? 36 : 10);
    static const long per[] = {7 * 1440, 1440, 60, 1};
    static const TimeUnit U[] = {TimeUnit::Week, TimeUnit::Day, TimeUnit::Hour, TimeUnit::Minute};
    static const char* N[] = {"week", "day", "hour", "minute"};
    c.note("unit", N[unit]);
    long st = step * per[unit];
    D x = aDate(c, true);
    x.s = 0;
    if (c.chance(0.5)) x.h = x.mi = 0;
    long m0 = dayNo(x.y, x.m, x.d) * 1440 + x.h * 60 + x.mi;
    if (m0 <= 1440) return;
    long n = c.chance(0.1) ? c.integer(1, 9000) : c.integer(0, 400);
    long m1 = m0 + n * st + (c.chance(0.6) ? 0 : c.integer(0, (int)st - 1));
    c.note("minutes", (double)(m1 - m0));
    double start = GetMJD(x.y, x.m, x.d, x.h, x.mi), end = (double)(m1 / 1440) + (double)(m1 % 1440) / 1440.0;
    TimeMachine tm;
    Time te = GetTimeStructFromMJD(end);
    bool text = unit > 0 && te.year <= 2100 && c.chance(0.4);
    if (text) {
        SettingsModel ms;
        char a[40], b[40];
        snprintf(a, sizeof a, "%04d-%02d-%02d %02d:%02d", x.y, x.m, x.d, x.h, x.mi);
        snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d", te.year, te.month, te.day, te.hour, te.min);
        TimerSettings ts;
        ts.start = a, ts.end = b, ts.timeStep = step, ts.timeStepUnit = N[unit];
        tm.Initialize(ts);
    } else tm.Initialize(start, end, step, U[unit]);
    c.eq(*tm.GetTimeStepPointer(), (double)st / 1440.0, "C17 length of the time step", 1e-14, 0);
    c.eq(tm.GetTimeStepCount(), (double)(n + 1), "C17 number of steps: start and end included", 0, 0);
    for (int pass = 0; pass < 2; pass++) {
        c.check(tm.GetDate() == start || std::abs(tm.GetDate() - start) < 1e-10, "C17 the clock starts at the start");
        long k = 0;
        double worst = 0;
        bool doy = true;
        while (!tm.IsOver() && k <= n + 3) {
            double want = (double)((m0 + k * st) / 1440) + (double)((m0 + k * st) % 1440) / 1440.0;
            worst = std::max(worst, std::abs(tm.GetDate() - want));
            if (k < 50) {
                Time t = GetTimeStructFromMJD(want);
                doy = doy && tm.GetCurrentDayOfYear() == doyOf(t.year, t.month, t.day);
            }
            tm.IncrementTime();
            k++;
        }
        c.eq((double)k, (double)(n + 1), "C17 a run has every step once", 0, 0);
        c.check(worst <= 1e-9, "C17 the date of each step is exact", std::to_string(worst * 86400) + " s");
        c.check(doy, "C17 day of the year of each step");
        tm.Reset();
    }
    c.cover(std::string(N[unit]) + (text ? "/text" : ""));
}

// the model steps, the records and the clock agree
HB_CASE(run, 1) {
    Mdl d;
    Opt o;
    o.kind = K_LINEAR;
    if (!build(c, d, o)) return;
    auto r = d.m->Run();
    if (!r) return;
    c.eq((double)d.m->_logger._time.size(), d.nSteps, "C17 as many records as steps", 0, 0);
    double s = d.m->GetTimeMachine()->GetStart();
    for (int i = 0; i < d.nSteps; i++) c.check(d.m->_logger._time(i) == s + i, "C17 the records carry the dates of the steps");
    c.cover("run");
}

int main(int argc, char** argv) { return Main(argc, argv); }
