// Expression DAG of the symbolic executor: hash-consed, simplified, interval-annotated.
#pragma once
#include "ops.h"
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <limits>
#include <map>
#include <set>
#include <sys/mman.h>

typedef __int128 i128;
typedef unsigned __int128 u128;

enum EOp : uint8_t {
    E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_SDIV, E_UDIV, E_SREM, E_UREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
    E_SEXT, E_ZEXT, E_TRUNC, E_EQ, E_SLT, E_SLE, E_ULT, E_ULE, E_NOT, E_ITE, E_FTOI, E_ISQRT, E_POP, E_CLZ, E_CTZ, E_BSWAP, E_F2BITS,
    E_FCONST, E_FVAR, E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FREM, E_FNEG, E_FSQRT, E_I2F, E_FCVT, E_FUN, E_BITS2F, E_FEQ, E_FLT, E_FLE
};
enum { R_TRUNC, R_FLOOR, R_CEIL, R_EVEN, R_AWAY };

struct Expr {
    uint8_t op, w, fp, aux;      // w: bit width (fp: 32/64); fp: 1 if floating
    uint8_t exact;               // fp ops: the operation does not round
    uint8_t negz;                // fp: may be -0.0
    int dy;                      // fp: value is an integer multiple of 2^dy
    uint32_t id, idx;            // idx: variable index
    Expr *k0, *k1, *k2;
    i128 c;                      // int constant (signed value; i1: 0/1)
    double d;                    // fp constant
    i128 lo, hi;                 // int: value interval (signed)
    i128 rlo, rhi;               // interval refined by the current path condition
    double flo, fhi;             // fp interval
    uint64_t epoch; i128 ev; double ed; // evaluation cache
    const std::vector<int>* vars;
};
static const int DY_NONE = -2000;

[[noreturn]] void path_unmodelled(const char* why);
struct DivZero {};

inline i128 smin_w(int w) { return w == 1 ? 0 : w >= 128 ? ((i128)1 << 127) : -((i128)1 << (w - 1)); }
inline i128 smax_w(int w) { return w == 1 ? 1 : w >= 128 ? ~((i128)1 << 127) : ((i128)1 << (w - 1)) - 1; }
inline i128 norm(i128 v, int w) { // signed normalisation
    if (w >= 128) return v; if (w == 1) return v & 1;
    u128 m = ((u128)1 << w) - 1; u128 u = (u128)v & m; if (u >> (w - 1)) u |= ~m; return (i128)u; }
inline u128 uns(i128 v, int w) { return w >= 128 ? (u128)v : (u128)v & (((u128)1 << w) - 1); }

static inline int dyOf(double x, int& mbits) { // x = m * 2^dy, m odd
    if (x == 0) { mbits = 0; return 0; }
    int e; double m = std::frexp(std::fabs(x), &e); uint64_t mi = (uint64_t)std::ldexp(m, 53); int t = __builtin_ctzll(mi); mbits = 53 - t; return e - 53 + t; }

struct EHash { size_t operator()(const Expr* e) const {
    uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w * 31 + e->fp * 7 + e->aux * 131 + e->idx * 1009;
    auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
    if (e->op == E_CONST) { mix((uint64_t)e->c); mix((uint64_t)(e->c >> 64)); }
    else if (e->op == E_FCONST) { uint64_t b; memcpy(&b, &e->d, 8); mix(b); }
    else { mix(e->k0 ? e->k0->id + 1 : 0); mix(e->k1 ? e->k1->id + 1 : 0); mix(e->k2 ? e->k2->id + 1 : 0); }
    return h; } };
struct EEq { bool operator()(const Expr* a, const Expr* b) const {
    if (a->op != b->op || a->w != b->w || a->fp != b->fp || a->aux != b->aux || a->idx != b->idx) return false;
    if (a->op == E_CONST) return a->c == b->c;
    if (a->op == E_FCONST) return memcmp(&a->d, &b->d, 8) == 0;
    return a->k0 == b->k0 && a->k1 == b->k1 && a->k2 == b->k2; } };

extern std::unordered_set<Expr*, EHash, EEq> g_tab;
extern std::vector<Expr*> g_all;
Expr* arenaAlloc();

Expr* mkConst(i128 v, int w);
Expr* mkFConst(double d, int w);
Expr* mkBin(int op, Expr* a, Expr* b);   // op: E_ADD..E_ASHR
Expr* mkNot(Expr* a);
Expr* mkCmp(int op, Expr* a, Expr* b);   // E_EQ E_SLT E_SLE E_ULT E_ULE
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkExt(int op, Expr* a, int w);     // E_SEXT E_ZEXT E_TRUNC
extern bool g_ideal;
Expr* mkFBin(int op, Expr* a, Expr* b);  // E_FADD.. E_FREM
Expr* mkFNeg(Expr* a);
Expr* mkFSqrt(Expr* a);
Expr* mkFToI(int mode, Expr* a, int w);
Expr* mkI2F(Expr* a, int w);
Expr* mkFCvt(Expr* a, int w);
Expr* mkFCmp(int op, Expr* a, Expr* b);  // E_FEQ E_FLT E_FLE
Expr* mkFun(int f, Expr* a, Expr* b, int w);
Expr* mkVar(int idx, int w, i128 lo, i128 hi);
Expr* mkFVar(int idx, double lo, double hi);
inline bool isC(Expr* e) { return e->op == E_CONST; }
inline bool isFC(Expr* e) { return e->op == E_FCONST; }
inline bool isTrue(Expr* e) { return e->op == E_CONST && e->c; }
inline bool isFalse(Expr* e) { return e->op == E_CONST && !e->c; }
void evalReset();
i128 evalI(Expr* e);
double evalF(Expr* e);
std::string show(Expr* e, int depth = 6);
struct Val { i128 i; double d; };
extern std::vector<Val> g_model; // value per variable
