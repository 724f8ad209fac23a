// Native side of the harness API: replays the inputs of one path on the natively compiled code.
// usage: replay FILE   exit 0: all assertions held, 1: an assertion failed (or the program died), 77: not applicable
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>
#include "pse.h"

struct In { char k; std::string name, val; };
static std::vector<In> ins;
static size_t pos = 0;
static std::map<std::string, int> cnt;
static std::set<std::string> reached;
static bool random_mode = false;
static uint64_t rng = 88172645463325252ULL;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static bool failed = false;

static void na(const char* why)
{
    if (failed) { fflush(stdout); _exit(1); }
    printf("NOT-APPLICABLE %s\n", why);
    fflush(stdout);
    _exit(77);
}
static const std::string* next(char k, const char* name)
{
    std::string n = std::string(name) + "#" + std::to_string(cnt[name]++);
    if (random_mode) return nullptr;
    if (pos >= ins.size()) na(("no recorded input left for " + n).c_str());
    In& i = ins[pos++];
    if (i.name != n || i.k != k) na(("recorded input " + i.name + " where " + n + " is asked for").c_str());
    return &i.val;
}
extern "C" {
int pse_symbolic() { return 0; }
double pse_double(const char* name)
{
    auto* v = next('d', name);
    if (!v) { int64_t m = int64_t(rnd() % 2001) - 1000; return double(m) / 8; }
    if (v->rfind("bits:", 0) == 0) { uint64_t b = strtoull(v->c_str() + 5, nullptr, 16); double d; memcpy(&d, &b, 8); return d; }
    return strtod(v->c_str(), nullptr);
}
double pse_double_in(const char* name, double lo, double hi)
{
    if (random_mode) { next('d', name); return lo + (hi - lo) * double(rnd() % 1025) / 1024; }
    double d = pse_double(name);
    if (!(d >= lo && d <= hi)) na("range");
    return d;
}
int pse_int(const char* name) { auto* v = next('i', name); return v ? int(uint32_t(strtoull(v->c_str(), nullptr, 10))) : int(rnd()); }
int pse_int_in(const char* name, int lo, int hi)
{
    if (random_mode) { next('i', name); return lo + int(rnd() % uint64_t(int64_t(hi) - lo + 1)); }
    int i = pse_int(name);
    if (i < lo || i > hi) na("range");
    return i;
}
unsigned char pse_char(const char* name) { auto* v = next('i', name); return v ? (unsigned char)strtoul(v->c_str(), nullptr, 10) : (unsigned char)rnd(); }
bool pse_bool(const char* name) { auto* v = next('b', name); return v ? *v == "1" : rnd() & 1; }
int pse_choice(const char* name, int n) { auto* v = next('c', name); return v ? atoi(v->c_str()) : int(rnd() % uint64_t(n)); }
void pse_assume(bool c) { if (!c) na("assumption does not hold"); }
void pse_assert(bool c, const char* msg)
{
    if (!c)
    {
        printf("FAILED %s\n", msg);
        fflush(stdout);
        failed = true;
        _exit(1);
    }
}
void pse_reach(const char* l) { reached.insert(l); }
bool pse_close(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol; }
bool pse_same(double a, double b) { return memcmp(&a, &b, 8) == 0 || (a != a && b != b) || a == b; }
bool pse_and(bool a, bool b) { return a && b; }
bool pse_or(bool a, bool b) { return a || b; }
bool pse_not(bool a) { return !a; }
double pse_ite(bool c, double a, double b) { return c ? a : b; }
bool pse_fork(bool c) { return c; }
bool pse_is_symbolic_d(double) { return false; }
bool pse_is_symbolic_i(long long) { return false; }
void pse_stop() { fflush(stdout); _exit(failed ? 1 : 0); }
void pse_tmpfile(char* buf, size_t n)
{
    static int k = 0;
    const char* d = getenv("PSE_TMP");
    snprintf(buf, n, "%s/rp-%d-%d", d ? d : "/tmp", int(getpid()), k++);
}
double pse_parse_double(const char* s) { return strtod(s, nullptr); }
void pse_log(const char*) {}
void pse_log_d(const char* s, double v) { if (getenv("PSE_LOG")) printf("%s = %.17g\n", s, v); }
}
int main(int argc, char** argv)
{
    if (argc > 2 && !strcmp(argv[1], "--random"))
    {
        random_mode = true;
        rng ^= strtoull(argv[2], nullptr, 10) * 0x9E3779B97F4A7C15ULL;
        for (int i = 0; i < 10; i++) rnd();
    }
    else if (argc > 1)
    {
        FILE* f = fopen(argv[1], "r");
        if (!f) return 77;
        char k; char name[512], val[512];
        while (fscanf(f, " %c %511s %511s", &k, name, val) == 3) ins.push_back({k, name, val});
        fclose(f);
    }
    std::cout.setstate(std::ios::failbit); // silence the library's warnings
    std::set_terminate([] { printf("FAILED terminate/uncaught exception\n"); if (auto p = std::current_exception()) { try { std::rethrow_exception(p); } catch (std::exception& e) { printf("%s\n", e.what()); } catch (...) {} } fflush(stdout); _exit(1); });
    pse_main();
    for (auto& r : reached) printf("REACHED %s\n", r.c_str());
    printf("OK\n");
    fflush(stdout);
    _exit(0);
}
