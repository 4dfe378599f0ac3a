// Native runtime of the contract language: replays a counterexample on the
// real code, or searches for one by sampling the quantified inputs.
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstdint>
#include <csetjmp>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <random>
#include <chrono>
#include <fstream>
#include <sstream>
#include <iostream>
#include <exception>
#include <csignal>
#include <unistd.h>

#define VC_NATIVE
#include "vc.hpp"

static std::map<std::string, void(*)()>& proofs() { static std::map<std::string, void(*)()> m; return m; }
vc_registrar::vc_registrar(const char* n, void(*f)()) { proofs()[n] = f; }

static std::map<std::string, double> given;            // replay values
static bool replay = false;
static std::vector<std::pair<std::string, double>> used;
static std::map<std::string, int> counts;
static std::vector<std::pair<std::string, std::string>> fails;
static std::mt19937_64 rng(1);
static uint64_t ufseed = 1;
static jmp_buf env;
static double tol = 1e-6;
static long asserts_checked = 0;
static int mode = 0;

static std::string fresh(const char* n)
{
    int k = counts[n]++;
    return k == 0 ? std::string(n) : std::string(n) + "#" + std::to_string(k);
}
static double u01() { return std::uniform_real_distribution<double>(0, 1)(rng); }

static double sample(double lo, double hi)
{
    double r = u01();
    if (mode == 1) return lo + (hi - lo) * u01();
    if (r < 0.08 && ! used.empty()) { double v = used[rng() % used.size()].second; if (v >= lo && v <= hi) return v; }
    if (r < 0.11 && ! used.empty()) { double v = -used[rng() % used.size()].second; if (v >= lo && v <= hi) return v; }
    if (r < 0.20)
    {
        static const double sp[] = {0, 1, -1, 0.5, 2, -0.5, -2, 1e-3, -1e-3, 10, 3, 4, 1e-8};
        double v = sp[rng() % (sizeof sp / sizeof *sp)];
        if (v >= lo && v <= hi) return v;
    }
    if (r < 0.26) return (rng() & 1) ? lo : hi;
    if (r < 0.42 && lo > 0) return std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * u01());
    if (r < 0.50 && lo <= 0 && hi >= 0) { double m = std::exp(std::log(1e-4) * u01()); double v = lo + (hi - lo) * u01(); return v * m; }
    if (r < 0.58) { double v = std::floor(lo + (hi - lo) * u01()); if (v >= lo && v <= hi) return v; }
    return lo + (hi - lo) * u01();
}

extern "C" double vc_real(const char* name, double lo, double hi)
{
    auto n = fresh(name);
    double v;
    if (replay && given.count(n)) v = given[n];
    else v = sample(lo, hi);
    used.emplace_back(n, v);
    return v;
}
extern "C" long vc_int(const char* name, long lo, long hi)
{
    auto n = fresh(name);
    long v;
    if (hi < lo) longjmp(env, 1);
    if (replay && given.count(n)) v = (long) given[n];
    else
    {
        double r = u01();
        unsigned long span = (unsigned long)(hi - lo);
        if (r < 0.08) v = lo;
        else if (r < 0.16) v = hi;
        else if (r < 0.55) v = lo + (long)(rng() % (span < 12 ? span + 1 : 12));
        else if (r < 0.65) v = (lo <= 0 && hi >= 0) ? (long)(rng() % (hi < 20 ? hi + 1 : 20)) : lo;
        else if (r < 0.80) v = lo + (long)(rng() % (span < 200 ? span + 1 : 200));
        else v = span == ~0ul ? (long) rng() : lo + (long)(rng() % (span + 1));
    }
    if (v < lo || v > hi) longjmp(env, 1);
    used.emplace_back(n, (double) v);
    return v;
}
extern "C" bool vc_bool(const char* name)
{
    auto n = fresh(name);
    bool v = (replay && given.count(n)) ? given[n] != 0 : (rng() & 1);
    used.emplace_back(n, v);
    return v;
}
extern "C" long vc_choose(const char* name, long lo, long hi)
{
    auto n = fresh(name);
    long v = (replay && given.count(n)) ? (long) given[n] : lo + (long)(rng() % (unsigned long)(hi - lo + 1));
    used.emplace_back(n, (double) v);
    return v;
}
extern "C" long vc_concretize(long x) { return x; }
extern "C" void vc_assume(bool c) { if (! c) longjmp(env, 1); }
extern "C" void vc_axiom(const char*, bool c) { if (! c) longjmp(env, 1); }
extern "C" double vc_bind(const char*, double v) { return v; }
extern "C" void vc_note(const char*) {}
extern "C" void vc_cut_loops() {}
extern "C" void vc_opaque_text() {}
extern "C" void vc_simplify_branches() {}
extern "C" void vc_assume_defined(const char*) {}
extern "C" void vc_record(const char* n, double v) { for (auto& u : used) if (u.first == n) u.second = v; }
extern "C" void vc_cover(const char*) {}
extern "C" void vc_use_contract(const char*) {}
extern "C" void vc_use_hypothesis(const char*) {}
extern "C" void vc_drop_contract(const char*) {}
extern "C" void vc_assert(const char* n, bool c)
{
    ++asserts_checked;
    if (! c) fails.emplace_back(n, "condition is false");
}
extern "C" void vc_assert_eq(const char* n, double a, double b)
{
    ++asserts_checked;
    if (std::isinf(a) && std::isinf(b) && (a > 0) == (b > 0)) return;
    if (! (std::fabs(a - b) <= tol * (std::fabs(a) + std::fabs(b)) + 0.1 * tol))
    { char buf[128]; snprintf(buf, sizeof buf, "%.17g != %.17g", a, b); fails.emplace_back(n, buf); }
}
extern "C" void vc_assert_ieq(const char* n, long a, long b)
{
    ++asserts_checked;
    if (a != b) { char buf[128]; snprintf(buf, sizeof buf, "%ld != %ld", a, b); fails.emplace_back(n, buf); }
}
extern "C" void vc_assert_le(const char* n, double a, double b)
{
    ++asserts_checked;
    if (! (a <= b + tol * (std::fabs(a) + std::fabs(b)) + 0.1 * tol))
    { char buf[128]; snprintf(buf, sizeof buf, "not %.17g <= %.17g", a, b); fails.emplace_back(n, buf); }
}
extern "C" void vc_lemma(const char* n, bool c) { vc_assert(n, c); }
extern "C" void vc_lemma_eq(const char* n, double a, double b) { vc_assert_eq(n, a, b); }
static uint64_t mix(uint64_t h, uint64_t x)
{
    h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33;
    return h;
}
static uint64_t hstr(const char* s) { uint64_t h = ufseed; while (*s) h = mix(h, (unsigned char) *s++); return h; }
extern "C" double vc_uf(const char* name, int n, ...)
{
    va_list ap; va_start(ap, n);
    uint64_t h = hstr(name);
    for (int i = 0; i < n; ++i) h = mix(h, (uint64_t) va_arg(ap, long));
    va_end(ap);
    return (double)(int64_t)(h % 8001) / 1000.0 - 4.0;
}
extern "C" long vc_ufi(const char* name, int n, ...)
{
    va_list ap; va_start(ap, n);
    uint64_t h = hstr(name);
    for (int i = 0; i < n; ++i) h = mix(h, (uint64_t) va_arg(ap, long));
    va_end(ap);
    return (long)(h % 1000);
}
extern "C" double vc_ufr(const char* name, int n, ...)
{
    va_list ap; va_start(ap, n);
    uint64_t h = hstr(name);
    for (int i = 0; i < n; ++i) { double d = va_arg(ap, double); if (d == 0) d = 0; uint64_t b; memcpy(&b, &d, 8); h = mix(h, b); }
    va_end(ap);
    return (double)(int64_t)(h % 8001) / 1000.0 - 4.0;
}

static int once(void (*f)())
{
    used.clear(); counts.clear(); fails.clear();
    volatile int rc = 0;
    if (setjmp(env) == 0)
    {
        try { f(); }
        catch (const std::exception& e) { fails.emplace_back("no-exception-escapes", e.what()); }
        catch (...) { fails.emplace_back("no-exception-escapes", "unknown exception"); }
    }
    else rc = 1;
    return rc;
}
static const char* crash_name = "";
static void on_crash(int sig)
{
    // a crash of the code under contract is a failed safety obligation
    char buf[256];
    int n = sig == SIGALRM ? snprintf(buf, sizeof buf, "FAIL\treturns\tstill running after 20 s\n")
                           : snprintf(buf, sizeof buf, "FAIL\tmemory-safety\tsignal %d\n", sig);
    (void) ! write(1, buf, n);
    for (auto& u : used) { n = snprintf(buf, sizeof buf, "VAL\t%s\t%.17g\n", u.first.c_str(), u.second); (void) ! write(1, buf, n); }
    n = snprintf(buf, sizeof buf, "UFSEED\t%llu\nEND\n", (unsigned long long) ufseed);
    (void) ! write(1, buf, n);
    _exit(1);
}
static void dump()
{
    for (auto& f : fails) printf("FAIL\t%s\t%s\n", f.first.c_str(), f.second.c_str());
    for (auto& u : used) printf("VAL\t%s\t%.17g\n", u.first.c_str(), u.second);
    printf("UFSEED\t%llu\nEND\n", (unsigned long long) ufseed);
}

int main(int argc, char** argv)
{
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "list") { for (auto& p : proofs()) puts(p.first.c_str()); return 0; }
    if (argc < 4 || ! proofs().count(argv[2])) { fprintf(stderr, "usage: native run|search PROOF ...\n"); return 2; }
    auto f = proofs()[argv[2]];
    for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL}) signal(s, on_crash);
    if (cmd == "run")
    {
        replay = true;
        std::ifstream in(argv[3]);
        std::string line;
        while (std::getline(in, line))
        {
            std::istringstream ss(line);
            std::string k, n; std::getline(ss, k, '\t');
            if (k == "VAL") { std::getline(ss, n, '\t'); std::string v; std::getline(ss, v); given[n] = strtod(v.c_str(), nullptr); }
            if (k == "UFSEED") { std::string v; std::getline(ss, v); ufseed = strtoull(v.c_str(), nullptr, 10); }
        }
        tol = 1e-9;
        alarm(60);
        int tries = 1;
        for (int t = 0; t < tries; ++t)
        {
            int rc = once(f);
            if (rc == 0 && ! fails.empty()) { dump(); return 1; }
            if (rc == 1) { puts("ASSUME"); }
        }
        puts("PASS");
        return 0;
    }
    if (cmd == "sample")     // fixed number of cases inside the precondition: native sample PROOF seed count tol
    {
        rng.seed(strtoull(argv[3], nullptr, 10));
        long want = argc > 4 ? atol(argv[4]) : 1000, n = 0, ok = 0;
        if (argc > 5) tol = atof(argv[5]);
        signal(SIGALRM, on_crash);
        for (; ok < want && n < 200 * want; ++n)
        {
            alarm(20);
            ufseed = rng();
            mode = (n % 4 == 0);
            if (once(f) == 0) { ++ok; if (! fails.empty()) { dump(); return 1; } }
        }
        printf("PASS\t%ld\t%ld\t%ld\n", n, ok, asserts_checked);
        return ok < want ? 3 : 0;
    }
    if (cmd == "search")
    {
        uint64_t seed = strtoull(argv[3], nullptr, 10);
        double secs = argc > 4 ? atof(argv[4]) : 5;
        std::string want = "";
        if (argc > 5) tol = atof(argv[5]);
        rng.seed(seed);
        auto t0 = std::chrono::steady_clock::now();
        long n = 0, ok = 0;
        while (true)
        {
            ++n;
            ufseed = rng();
            mode = (n % 4 == 0);
            int rc = once(f);
            if (rc == 0) { ++ok; if (! fails.empty()) { bool hit = want.empty(); for (auto& x : fails) if (x.first == want) hit = true; if (hit) { dump(); return 1; } } }
            if ((n & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
        }
        printf("PASS\t%ld\t%ld\t%ld\n", n, ok, asserts_checked);
        return 0;
    }
    return 2;
}
