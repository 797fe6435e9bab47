// Native side of the checks: runs the real code and evaluates the same contract clauses on it.
#ifndef VERIF_HB_H
#define VERIF_HB_H
#include <algorithm>
#include <cmath>
#include <deque>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>

namespace hb {

struct Stop {};   // a violation was recorded: leave the case

struct Ctx {
    uint64_t s = 1;
    uint64_t seed = 1;
    long caseNo = 0;
    std::vector<double> dict;
    std::string log;          // inputs of the running case
    std::map<std::string, long> counters;
    std::map<std::string, std::string> fails;  // clause -> description of the first case
    std::set<std::string> sigs;                 // distinct non-trivial situations
    std::vector<std::string> samples;
    long clauses = 0;
    bool failed = false;

    void start(uint64_t sd, long n) {
        seed = sd;
        caseNo = n;
        s = sd * 0x9E3779B97F4A7C15ull + (uint64_t)n * 0xD1B54A32D192ED03ull + 0x1234567;
        log.clear();
        failed = false;
        for (int i = 0; i < 3; i++) u64();
    }
    uint64_t u64() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double u() { return (double)(u64() >> 11) / 9007199254740992.0; }
    double u(double a, double b) { return a + (b - a) * u(); }
    int integer(int lo, int hi) { return lo + (int)(u64() % (uint64_t)(hi - lo + 1)); }
    bool chance(double p) { return u() < p; }
    int pick(const char* nm, int n) { int i = integer(0, n - 1); note(nm, i); return i; }
    bool flag(const char* nm, double p = 0.5) { bool b = chance(p); note(nm, b ? 1 : 0); return b; }
    int inum(const char* nm, int lo, int hi) { int i = integer(lo, hi); note(nm, i); return i; }
    // a number in [lo, hi]: boundaries, values of solver models, round values, log-uniform, uniform
    double raw(double lo, double hi) {
        double r = u();
        if (r < 0.06) return lo;
        if (r < 0.10) return hi;
        if (r < 0.25 && !dict.empty()) {
            double v = dict[u64() % dict.size()];
            if (v >= lo && v <= hi) return v;
        }
        if (r < 0.33) {
            static const double sp[] = {0, 1, 0.5, 2, 1e-9, 1e-8, 2e-8, 1e-6, 1e-3, 10, 100, -1, 0.1, 0.9, 3, 4};
            double v = sp[u64() % (sizeof(sp) / sizeof(*sp))];
            if (v >= lo && v <= hi) return v;
        }
        if (r < 0.5 && hi > 0) {
            double a = std::max(lo, 1e-7), e = std::log(a) + u() * (std::log(hi) - std::log(a));
            if (a < hi) return std::exp(e);
        }
        if (r < 0.6) { double v = std::round(lo + u() * (hi - lo)); if (v >= lo && v <= hi) return v; }
        return lo + u() * (hi - lo);
    }
    double num(const char* nm, double lo, double hi) { double v = raw(lo, hi); note(nm, v); return v; }
    float numf(const char* nm, double lo, double hi) { float v = (float)raw(lo, hi); note(nm, v); return v; }
    void note(const std::string& nm, double v) {
        if (log.size() > 6000) return;
        char b[64];
        snprintf(b, sizeof b, "%.17g", v);
        log += nm + "=" + b + " ";
    }
    void note(const std::string& nm, const std::string& v) { if (log.size() < 6000) log += nm + "=" + v + " "; }
    void cover(const std::string& k) { sigs.insert(k); counters[k]++; }
    void fail(const std::string& clause, const std::string& what) {
        if (!fails.count(clause)) {
            char b[64];
            snprintf(b, sizeof b, "seed=%llu case=%ld ", (unsigned long long)seed, caseNo);
            fails[clause] = std::string(b) + what + " | inputs: " + log;
        }
        failed = true;
    }
    bool check(bool ok, const std::string& clause, const std::string& what = "") {
        clauses++;
        if (!ok) fail(clause, what);
        return ok;
    }
    static bool near(double a, double b, double rel = 1e-9, double abs = 1e-9) {
        if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
        if (a == b) return true;
        return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
    }
    bool eq(double got, double want, const std::string& clause, double rel = 1e-9, double abs = 1e-9) {
        clauses++;
        if (near(got, want, rel, abs)) return true;
        char b[128];
        snprintf(b, sizeof b, "got %.17g, specified %.17g", got, want);
        fail(clause, b);
        return false;
    }
    bool le(double a, double b, const std::string& clause, double tol = 1e-9) {
        clauses++;
        if (a <= b + tol * (1 + std::fabs(b))) return true;
        char t[128];
        snprintf(t, sizeof t, "%.17g is not <= %.17g", a, b);
        fail(clause, t);
        return false;
    }
};

typedef void (*CaseFn)(Ctx&);
struct Harness { const char* name; CaseFn fn; double weight; };
inline std::vector<Harness>& harnesses() { static std::vector<Harness> v; return v; }
struct Reg { Reg(const char* n, CaseFn f, double w) { harnesses().push_back({n, f, w}); } };
#define HB_CASE(name, weight) static void name(hb::Ctx& c); static hb::Reg reg_##name(#name, name, weight); static void name([[maybe_unused]] hb::Ctx& c)

inline std::string jesc(const std::string& s) {
    std::string o;
    for (char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if ((unsigned char)ch < 32) o += ' ';
        else o += ch;
    }
    return o;
}

inline Ctx*& cur() { static Ctx* p = nullptr; return p; }
inline int& crashFd() { static int f = 1; return f; }
inline void onCrash(int sg) {
    char b[1200];
    int n = snprintf(b, sizeof b, "\nHBCASE signal=%d seed=%llu case=%ld %.900s\n", sg, (unsigned long long)cur()->seed, cur()->caseNo, cur()->log.c_str());
    if (write(crashFd(), b, n) < 0) {}
    signal(sg, SIG_DFL);
    raise(sg);
}

inline int Main(int argc, char** argv) {
    uint64_t seed = 1;
    double secs = 5;
    long only = -1, maxCases = 1000000000L;
    std::string which;
    bool verbose = false;
    Ctx c;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--seed") seed = std::stoull(nx());
        else if (a == "--secs") secs = std::stod(nx());
        else if (a == "--case") only = std::stol(nx());
        else if (a == "--cases") maxCases = std::stol(nx());
        else if (a == "--harness") which = nx();
        else if (a == "--verbose") verbose = true;
        else if (a == "--dict") { std::ifstream f(nx()); double v; while (f >> v) c.dict.push_back(v); }
    }
    int keep = dup(1);
    if (!verbose) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        dup2(nul, 2);
    }
    cur() = &c;
    crashFd() = keep;
    for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(sg, onCrash);
    auto t0 = std::chrono::steady_clock::now();
    auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    long total = 0;
    std::map<std::string, long> per;
    // every harness at least minCases, then round robin by weight until the time is used up
    double wsum = 0;
    for (auto& h : harnesses()) if (which.empty() || which == h.name) wsum += h.weight;
    bool crashed = false;
    for (auto& h : harnesses()) {
        if (!which.empty() && which != h.name) continue;
        double share = secs * h.weight / wsum, h0 = el();
        for (long n = 0; n < maxCases; n++) {
            if (only >= 0) n = only;
            if (only < 0 && n >= 20 && el() - h0 > share) break;
            c.start(seed, n);
            c.note("harness", std::string(h.name));
            try { h.fn(c); }
            catch (const Stop&) {}
            catch (const std::exception& e) { c.fail(std::string(h.name) + ": unexpected exception", e.what()); }
            total++;
            per[h.name]++;
            if (n % 97 == 0 && c.samples.size() < 8 && (int)per[h.name] <= 2) c.samples.push_back(c.log.substr(0, 400));
            if (c.fails.size() > 20) break;
            if (only >= 0) break;
        }
    }
    (void)crashed;
    FILE* out = fdopen(keep, "w");
    fprintf(out, "\nHBRESULT {\"evaluations\": %ld, \"clauses\": %ld, \"distinct\": %zu, \"per\": {", total, c.clauses, c.sigs.size());
    bool first = true;
    for (auto& p : per) { fprintf(out, "%s\"%s\": %ld", first ? "" : ", ", p.first.c_str(), p.second); first = false; }
    fprintf(out, "}, \"counters\": {");
    first = true;
    for (auto& p : c.counters) { fprintf(out, "%s\"%s\": %ld", first ? "" : ", ", jesc(p.first).c_str(), p.second); first = false; }
    fprintf(out, "}, \"samples\": [");
    first = true;
    for (auto& p : c.samples) { fprintf(out, "%s\"%s\"", first ? "" : ", ", jesc(p).c_str()); first = false; }
    fprintf(out, "], \"fails\": {");
    first = true;
    for (auto& p : c.fails) { fprintf(out, "%s\"%s\": \"%s\"", first ? "" : ", ", jesc(p.first).c_str(), jesc(p.second).c_str()); first = false; }
    fprintf(out, "}}\n");
    fflush(out);
    _exit(c.fails.empty() ? 0 : 3);
}
}  // namespace hb
#endif
