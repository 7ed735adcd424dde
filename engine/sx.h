// Harness API. The same harness source is compiled twice: instrumented (symbolic, engine/rt.cpp)
// and natively (replay of solver models on the real code, engine/native.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
extern "C" {
// symbolic integer in [lo,hi]
int64_t sx_int(const char* name, int64_t lo, int64_t hi);
// symbolic double in [lo,hi]
double sx_double(const char* name, double lo, double hi);
void sx_assume(bool c);
void sx_assert(bool c, const char* what);
// observed output: compared between the encoding (under a solver model) and the native run
void sx_observe(const char* name, int64_t v);
void sx_observe_d(const char* name, double v);
// reachability witness: some feasible path must pass here
void sx_reach(const char* label);
// fork over all feasible values; the result is concrete on each path
int64_t sx_concrete(int64_t v);
// write a (possibly symbolic) number into a string that atof/strtod/stoi will read back
const char* sx_numstr(double v);
int sx_is_symbolic();       // 1 inside the engine, 0 in native replay
void sx_register(const char* name, void (*fn)(), const char* desc);
// the file backing one-shot known findings: returns 1 when a finding id is listed as known
int sx_known(const char* id);
void sx_print(const char* s);
// numbers through text: sx_num reads a number that the code under test printed; sx_digits(1) makes printed symbolic numbers appear as symbolic digits
double sx_num(const char* s, const char** end);
int64_t sx_mm(const char* s, const char** end); // micron value of a coordinate printed in millimetres
void sx_digits(int on);
const char* sx_fmt_i(int64_t v, int uns);
const char* sx_fmt_d(double v, int prec, int fixed);
}
struct SxReg { SxReg(const char* n, void (*f)(), const char* d) { sx_register(n, f, d); } };
#define SX_HARNESS(name, desc) static void name##_body(); static SxReg name##_reg(#name, name##_body, desc); static void name##_body()
#define SX_ASSERT(c) sx_assert((c), #c)
// branch-free boolean connectives (avoid needless path splits in oracles)
static inline bool sx_and(bool a, bool b) { return (bool)((int)a & (int)b); }
static inline bool sx_or(bool a, bool b) { return (bool)((int)a | (int)b); }
static inline bool sx_imp(bool a, bool b) { return (bool)((int)!a | (int)b); }
static inline int64_t sx_abs(int64_t a) { return a < 0 ? -a : a; }
