// Native side of the harness API: replays one solver model on the real (uninstrumented) code.
// usage: replay HARNESS VALUES_FILE ; exit 0 held, 1 violated, 2 model not admissible (assumption false)
#include "sx.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <map>
#include <set>
#include <vector>
#include <unistd.h>
struct V { std::string name; char t; std::string v; };
static std::vector<V> g_v; static size_t g_p; static bool g_bad; static std::set<std::string> g_known;
static std::map<std::string, void (*)()>* g_reg;
static void need(const char* n, char t) { if (g_p >= g_v.size() || g_v[g_p].t != t || g_v[g_p].name != n) { printf("DIVERGED at input %zu (%s)\n", g_p, n); fflush(stdout); _exit(g_bad ? 1 : 2); } }
extern "C" {
int64_t sx_int(const char* n, int64_t lo, int64_t hi) { need(n, 'i'); int64_t r = strtoll(g_v[g_p++].v.c_str(), nullptr, 10); if (r < lo || r > hi) { printf("OUT-OF-RANGE %s\n", n); _exit(2); } printf("INPUT %s = %lld\n", n, (long long)r); return r; }
double sx_double(const char* n, double lo, double hi) { need(n, 'd'); double r = strtod(g_v[g_p++].v.c_str(), nullptr); if (!(r >= lo && r <= hi)) { printf("OUT-OF-RANGE %s\n", n); _exit(2); } printf("INPUT %s = %.17g\n", n, r); return r; }
void sx_assume(bool c) { if (!c) { printf("ASSUMPTION-FALSE\n"); fflush(stdout); _exit(2); } }
void sx_assert(bool c, const char* w) { if (!c) { printf("ASSERTION VIOLATED: %s\n", w); fflush(stdout); g_bad = true; } }
void sx_observe(const char* n, int64_t v) { printf("OBS %s %lld\n", n, (long long)v); }
void sx_observe_d(const char* n, double v) { printf("OBS %s %a\n", n, v); }
void sx_reach(const char*) {}
int64_t sx_concrete(int64_t v) { return v; }
const char* sx_numstr(double v) { char b[64]; snprintf(b, 64, "%.17g", v); return strdup(b); }
int sx_is_symbolic() { return 0; }
int sx_known(const char* id) { return g_known.count(id); }
void sx_print(const char*) {}
double sx_num(const char* s, const char** e) { char* x; double d = strtod(s, &x); if (e) *e = x; return d; }
int64_t sx_mm(const char* s, const char** e) { char* x; double d = strtod(s, &x); if (e) *e = x; return llround(d * 1000); }
void sx_digits(int) {}
const char* sx_fmt_i(int64_t, int) { return ""; }
const char* sx_fmt_d(double, int, int) { return ""; }
void sx_register(const char* n, void (*f)(), const char*) { if (!g_reg) g_reg = new std::map<std::string, void (*)()>; (*g_reg)[n] = f; }
}
static void crash(int s) { char b[80]; int n = snprintf(b, 80, "CRASHED: signal %d\n", s); fflush(stdout); ssize_t k = write(1, b, n); (void)k; _exit(1); }
int main(int argc, char** argv) {
    if (argc < 3) return 3; FILE* f = fopen(argv[2], "r"); if (!f) return 3; char a[512], t, v[256];
    while (fscanf(f, "%511s %c %255s", a, &t, v) == 3) g_v.push_back({a, t, v}); fclose(f);
    if (const char* k = getenv("SX_KNOWN")) { std::string s = k; size_t p = 0; while (p <= s.size()) { size_t e = s.find(',', p); if (e == std::string::npos) e = s.size(); if (e > p) g_known.insert(s.substr(p, e - p)); p = e + 1; } }
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, crash);
    if (!g_reg || !g_reg->count(argv[1])) return 3; alarm(60); (*g_reg)[argv[1]](); fflush(stdout); return g_bad ? 1 : 0; }
