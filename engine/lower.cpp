#include <unistd.h>
// Lowering of expressions to Z3 terms, four encodings:
//   BV   : integers as narrow bit-vectors (width from proven value intervals), doubles as exact/enclosed scaled rationals
//   INT  : same on mathematical integers (machine wrap-around made explicit whenever an interval does not exclude it)
//   REALZ: integers as Int, doubles as Real with explicit rounding error terms
//   REL  : everything Real (integrality relaxed; only UNSAT or verified models are used)
#include "expr.h"
#include "lower.h"
#include <z3.h>
#include <array>
#include <functional>
#include <stdexcept>

namespace {
struct Unsup { const char* why; };
static std::string dec(i128 v) { bool n = v < 0; u128 u = n ? -(u128)v : (u128)v; std::string s; do { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; } while (u); return n ? "-" + s : s; }

struct IT { Z3_ast a; i128 lo, hi; };
struct FQ { IT N, D; int e; double err; bool cr = false; }; // cr: the double is the correct rounding of N/D*2^e
static const i128 LIM = (i128)1 << 120;

struct Low {
    Z3_context c; int mode; Z3_sort S; // S: integer sort for non-BV modes
    std::vector<Z3_ast> side;
    std::unordered_map<Expr*, IT> mi; std::unordered_map<Expr*, Z3_ast> mb, mr; std::unordered_map<Expr*, FQ> mf;
    std::map<int, Z3_ast> vars;
    std::map<std::pair<Expr*, Expr*>, Z3_ast> tri;
    int fresh = 0; bool relround = true;
    bool isReal() { return mode == M_REALZ || mode == M_REL; }

    Z3_ast T() { return Z3_mk_true(c); } Z3_ast F() { return Z3_mk_false(c); }
    Z3_ast And(std::vector<Z3_ast> v) { return v.size() == 1 ? v[0] : Z3_mk_and(c, v.size(), v.data()); }
    Z3_ast Or(std::vector<Z3_ast> v) { return v.size() == 1 ? v[0] : Z3_mk_or(c, v.size(), v.data()); }
    Z3_ast Not(Z3_ast a) { return Z3_mk_not(c, a); }
    Z3_ast Ite(Z3_ast a, Z3_ast b, Z3_ast d) { return Z3_mk_ite(c, a, b, d); }
    Z3_ast freshBool() { return Z3_mk_const(c, Z3_mk_string_symbol(c, ("b!" + std::to_string(fresh++)).c_str()), Z3_mk_bool_sort(c)); }

    static int bw(i128 lo, i128 hi) { int n = 1; while (n < 127 && (lo < -((i128)1 << (n - 1)) || hi > ((i128)1 << (n - 1)) - 1)) n++; return n; }
    static void chk(i128 lo, i128 hi) { if (lo < -LIM || hi > LIM) throw Unsup{"magnitude"}; }
    int W(const IT& x) { return bw(x.lo, x.hi); }
    Z3_ast fit(const IT& x, int w) { int k = W(x); if (k == w) return x.a; if (k < w) return Z3_mk_sign_ext(c, w - k, x.a); return Z3_mk_extract(c, w - 1, 0, x.a); }
    IT num(i128 v) { chk(v, v); Z3_ast a = mode == M_BV ? Z3_mk_numeral(c, dec(v).c_str(), Z3_mk_bv_sort(c, bw(v, v))) : Z3_mk_numeral(c, dec(v).c_str(), S); return {a, v, v}; }
    bool isNum(const IT& x) { return x.lo == x.hi; }
    IT freshI(i128 lo, i128 hi, const char* p = "i") { chk(lo, hi);
        Z3_sort s = mode == M_BV ? Z3_mk_bv_sort(c, bw(lo, hi)) : S;
        IT r{Z3_mk_const(c, Z3_mk_string_symbol(c, (std::string(p) + "!" + std::to_string(fresh++)).c_str()), s), lo, hi};
        bound(r); return r; }
    void bound(const IT& r) { IT l = num(r.lo), h = num(r.hi); int w = W(r);
        if (mode == M_BV) { if (r.lo != -((i128)1 << (w - 1))) side.push_back(Z3_mk_bvsge(c, r.a, fit(l, w))); if (r.hi != ((i128)1 << (w - 1)) - 1) side.push_back(Z3_mk_bvsle(c, r.a, fit(h, w))); }
        else { side.push_back(Z3_mk_ge(c, r.a, l.a)); side.push_back(Z3_mk_le(c, r.a, h.a)); } }
    static i128 mulx(i128 a, i128 b) { i128 r; if (__builtin_mul_overflow(a, b, &r)) throw Unsup{"magnitude"}; return r; }
    IT add(const IT& x, const IT& y) { i128 lo = x.lo + y.lo, hi = x.hi + y.hi; chk(lo, hi); if (isNum(x) && x.lo == 0) return y; if (isNum(y) && y.lo == 0) return x; if (lo == hi) return num(lo);
        if (mode == M_BV) { int w = bw(lo, hi); return {Z3_mk_bvadd(c, fit(x, w), fit(y, w)), lo, hi}; }
        Z3_ast v[2] = {x.a, y.a}; return {Z3_mk_add(c, 2, v), lo, hi}; }
    IT sub(const IT& x, const IT& y) { i128 lo = x.lo - y.hi, hi = x.hi - y.lo; chk(lo, hi); if (isNum(y) && y.lo == 0) return x; if (lo == hi) return num(lo);
        if (mode == M_BV) { int w = bw(lo, hi); return {Z3_mk_bvsub(c, fit(x, w), fit(y, w)), lo, hi}; }
        Z3_ast v[2] = {x.a, y.a}; return {Z3_mk_sub(c, 2, v), lo, hi}; }
    IT mul(const IT& x, const IT& y) {
        if (isNum(x) && x.lo == 1) return y; if (isNum(y) && y.lo == 1) return x;
        i128 k[4] = {mulx(x.lo, y.lo), mulx(x.lo, y.hi), mulx(x.hi, y.lo), mulx(x.hi, y.hi)}; i128 lo = *std::min_element(k, k + 4), hi = *std::max_element(k, k + 4);
        if (x.a == y.a && lo < 0) lo = 0; chk(lo, hi); if (lo == hi) return num(lo);
        if (mode == M_BV) { int w = bw(lo, hi); return {Z3_mk_bvmul(c, fit(x, w), fit(y, w)), lo, hi}; }
        Z3_ast v[2] = {x.a, y.a}; return {Z3_mk_mul(c, 2, v), lo, hi}; }
    IT neg(const IT& x) { return sub(num(0), x); }
    IT shlc(const IT& x, int k) { return k == 0 ? x : mul(x, num((i128)1 << k)); }
    Z3_ast le(const IT& x, const IT& y) { if (x.hi <= y.lo) return T(); if (x.lo > y.hi) return F();
        if (mode == M_BV) { int w = std::max(W(x), W(y)); return Z3_mk_bvsle(c, fit(x, w), fit(y, w)); } return Z3_mk_le(c, x.a, y.a); }
    Z3_ast lt(const IT& x, const IT& y) { if (mode == M_REL) return le(add(x, num(1)), y); return Not(le(y, x)); }
    Z3_ast eq(const IT& x, const IT& y) { if (x.hi < y.lo || y.hi < x.lo) return F(); if (isNum(x) && isNum(y)) return x.lo == y.lo ? T() : F();
        if (mode == M_BV) { int w = std::max(W(x), W(y)); return Z3_mk_eq(c, fit(x, w), fit(y, w)); } return Z3_mk_eq(c, x.a, y.a); }
    IT ite(Z3_ast b, const IT& x, const IT& y) { i128 lo = std::min(x.lo, y.lo), hi = std::max(x.hi, y.hi);
        if (mode == M_BV) { int w = bw(lo, hi); return {Ite(b, fit(x, w), fit(y, w)), lo, hi}; } return {Ite(b, x.a, y.a), lo, hi}; }
    // floor division (b > 0) with remainder
    void fdiv(const IT& x, const IT& b, IT& q, IT& r) {
        auto fd = [](i128 a, i128 b) { i128 t = a / b; if (a % b != 0 && a < 0) t--; return t; };
        i128 bl = std::max(b.lo, (i128)1), k[4] = {fd(x.lo, bl), fd(x.lo, b.hi), fd(x.hi, bl), fd(x.hi, b.hi)};
        i128 lo = *std::min_element(k, k + 4), hi = *std::max_element(k, k + 4);
        if (isNum(b) && b.lo == 1) { q = x; r = num(0); return; }
        if (mode == M_BV) {
            int w = std::max(W(x), W(b)) + 1;
            if (isNum(b) && (b.lo & (b.lo - 1)) == 0) { int s = 0; while (((i128)1 << s) < b.lo) s++;
                Z3_ast xe = fit(x, w); Z3_ast sh = Z3_mk_bvashr(c, xe, fit(num(s), w)); IT qq{sh, -((i128)1 << (w - 1)), ((i128)1 << (w - 1)) - 1}; q = {fit(qq, bw(lo, hi)), lo, hi};
                r = sub(x, mul(q, b)); r.a = fit(r, bw(0, b.hi - 1)); r.lo = 0; r.hi = b.hi - 1; return; }
            Z3_ast xe = fit(x, w), be = fit(b, w);
            Z3_ast t = Z3_mk_bvsdiv(c, xe, be), m = Z3_mk_bvsrem(c, xe, be);
            if (x.lo < 0) { Z3_ast z = fit(num(0), w); Z3_ast ng = Z3_mk_bvslt(c, m, z); t = Ite(ng, Z3_mk_bvsub(c, t, fit(num(1), w)), t); m = Ite(ng, Z3_mk_bvadd(c, m, be), m); }
            IT tw{t, -((i128)1 << (w - 1)), ((i128)1 << (w - 1)) - 1}, mw{m, tw.lo, tw.hi};
            q = {fit(tw, bw(lo, hi)), lo, hi}; r = {fit(mw, bw(0, b.hi - 1)), 0, b.hi - 1}; return; }
        if (mode != M_REL && isNum(b)) { q = {Z3_mk_div(c, x.a, b.a), lo, hi}; r = {Z3_mk_mod(c, x.a, b.a), 0, b.hi - 1}; return; }
        q = freshI(lo, hi, "q"); Z3_ast p[2] = {q.a, b.a}; Z3_ast qb = Z3_mk_mul(c, 2, p); Z3_ast rr[2] = {x.a, qb};
        r = {Z3_mk_sub(c, 2, rr), 0, b.hi - 1}; side.push_back(Z3_mk_ge(c, r.a, num(0).a)); side.push_back(le(r, sub(b, num(1)))); }
    // truncating division, b != 0
    void tdiv(const IT& x, const IT& b, IT& q, IT& r) {
        if (b.lo > 0 && x.lo >= 0) { fdiv(x, b, q, r); return; }
        IT ax = x.lo >= 0 ? x : x.hi <= 0 ? neg(x) : ite(le(num(0), x), x, neg(x)), ab = b.lo > 0 ? b : b.hi < 0 ? neg(b) : ite(le(num(1), b), b, neg(b));
        if (ax.lo < 0) ax.lo = 0; // |x|
        { i128 m = std::max(x.hi < 0 ? -x.hi : x.hi, x.lo < 0 ? -x.lo : x.lo); if (mode == M_BV) { IT t{nullptr, 0, m}; t.a = fit(IT{ax.a, std::min(x.lo, -x.hi), std::max(x.hi, -x.lo)}, W(t)); if (x.lo >= 0) t = x; else if (x.hi <= 0) t = neg(x); ax = t; } else { ax.lo = 0; ax.hi = m; } }
        IT bb = ab; if (bb.lo < 1) { i128 m = std::max(b.hi < 0 ? -b.hi : b.hi, b.lo < 0 ? -b.lo : b.lo); if (mode == M_BV) { IT t{nullptr, 1, m}; t.a = fit(IT{ab.a, std::min(b.lo, -b.hi), std::max(b.hi, -b.lo)}, W(t)); bb = t; } else { bb.lo = 1; bb.hi = m; } }
        IT fq, fr; fdiv(ax, bb, fq, fr);
        Z3_ast xn = x.lo >= 0 ? F() : x.hi < 0 ? T() : lt(x, num(0)), bn = b.lo > 0 ? F() : b.hi < 0 ? T() : lt(b, num(0));
        q = ite(Z3_mk_xor(c, xn, bn), neg(fq), fq); r = ite(xn, neg(fr), fr); }
    IT wrapS(const IT& x, int w) { // reduce to signed w-bit
        i128 lo = smin_w(w), hi = smax_w(w); if (w == 1) throw Unsup{"wrap1"};
        if (x.lo >= lo && x.hi <= hi) return x;
        if (w >= 128) throw Unsup{"wrap128"};
        if (mode == M_BV) return {fit(x, w), lo, hi};
        IT q, r; fdiv(sub(x, num(lo)), num((i128)1 << w), q, r); IT y = add(r, num(lo)); return {y.a, lo, hi}; }
    IT wrapU(const IT& x, int w) { // unsigned value of a signed w-bit quantity
        if (x.lo >= 0) return x; if (w >= 120) throw Unsup{"unsigned128"};
        IT y = ite(lt(x, num(0)), add(x, num((i128)1 << w)), x); i128 hi = ((i128)1 << w) - 1;
        if (mode == M_BV) { IT z{nullptr, 0, hi}; z.a = fit(y, W(z)); return z; } y.lo = 0; y.hi = hi; return y; }
    IT clip(IT x, Expr* e) { // value is known to lie in [e->lo,e->hi]
        i128 lo = std::max(x.lo, e->lo), hi = std::min(x.hi, e->hi); if (lo > hi) return x; if (lo == x.lo && hi == x.hi) return x;
        if (mode == M_BV) { IT y{nullptr, lo, hi}; y.a = fit(x, W(y)); return y; } x.lo = lo; x.hi = hi; return x; }

    // ------------------------------------------------------------- booleans
    Z3_ast B(Expr* e) {
        auto it = mb.find(e); if (it != mb.end()) return it->second;
        Z3_ast r = B0(e); mb[e] = r; return r; }
    Z3_ast B0(Expr* e) {
        switch (e->op) {
        case E_CONST: return e->c ? T() : F();
        case E_NOT: return Not(B(e->k0));
        case E_AND: return And({B(e->k0), B(e->k1)}); case E_OR: return Or({B(e->k0), B(e->k1)}); case E_XOR: return Z3_mk_xor(c, B(e->k0), B(e->k1));
        case E_ITE: return Ite(B(e->k0), B(e->k1), B(e->k2));
        case E_EQ: return eq(I(e->k0), I(e->k1));
        case E_SLT: return lt(I(e->k0), I(e->k1)); case E_SLE: return le(I(e->k0), I(e->k1));
        case E_ULT: if (mode == M_ABS && (I(e->k0).lo < 0 || I(e->k1).lo < 0)) return freshBool(); return lt(wrapU(I(e->k0), e->aux), wrapU(I(e->k1), e->aux)); case E_ULE: if (mode == M_ABS && (I(e->k0).lo < 0 || I(e->k1).lo < 0)) return freshBool(); return le(wrapU(I(e->k0), e->aux), wrapU(I(e->k1), e->aux));
        case E_TRUNC: { if (mode == M_ABS) return freshBool(); IT x = I(e->k0); if (mode == M_BV) return Z3_mk_eq(c, Z3_mk_extract(c, 0, 0, x.a), Z3_mk_numeral(c, "1", Z3_mk_bv_sort(c, 1))); IT q, r; fdiv(x, num(2), q, r); if (mode == M_REL) throw Unsup{"parity"}; return eq(r, num(1)); }
        case E_VAR: { IT x = I(e); return Not(eq(x, num(0))); }
        case E_FEQ: case E_FLT: case E_FLE: return fcmp(e);
        default: if (mode == M_ABS) return freshBool(); throw Unsup{"bool op"}; } }
    Z3_ast fcmp(Expr* e) {
        if (isReal() || mode == M_ABS) { Z3_ast a = R(e->k0), b = R(e->k1); return e->op == E_FEQ ? Z3_mk_eq(c, a, b) : e->op == E_FLT ? Z3_mk_lt(c, a, b) : Z3_mk_le(c, a, b); }
        FQ a = Q(e->k0), b = Q(e->k1);
        IT x, y; double E; align(a, b, x, y, E);
        IT X = sub(x, y);
        // a correctly rounded value against a constant of the format: only half an ulp around the constant is undecided
        if (E > 0) for (int sd = 0; sd < 2; sd++) { const FQ& v = sd ? b : a; Expr* k = sd ? e->k0 : e->k1; Expr* ve = sd ? e->k1 : e->k0; if (!(v.cr && isFC(k) && v.err > 0)) continue; bool f32 = ve->w == 32; if (f32 && (double)(float)k->d != k->d) continue;
            double hu = k->d == 0 ? 1e-300 : std::ldexp(std::fabs(k->d), f32 ? -24 : -53); E = std::min(E, hu * 1.0000001); }
        if (E == 0) return e->op == E_FEQ ? eq(X, num(0)) : e->op == E_FLT ? lt(X, num(0)) : le(X, num(0));
        // tolerance in units of X
        double unit = std::ldexp(1.0, std::min(a.e, b.e)) / ((double)a.D.hi * (double)b.D.hi); double t = E / unit * 1.0000001;
        if (!(t < 1e30)) throw Unsup{"tolerance"}; i128 Tt = (i128)std::floor(t);
        bool A = a.err == 0 || a.cr, Bc = b.err == 0 || b.cr; // X == 0 means equal doubles
        if (Tt == 0 && A && Bc && (a.err == 0 || b.err == 0)) return e->op == E_FEQ ? eq(X, num(0)) : e->op == E_FLT ? lt(X, num(0)) : le(X, num(0));
        Z3_ast z = Or({lt(X, num(-Tt)), lt(num(Tt), X)}); // decided
        if (A && Bc) z = Or({z, eq(X, num(0))});
        auto key = std::make_pair(std::min(e->k0, e->k1), std::max(e->k0, e->k1)); bool sw = e->k0 != key.first;
        // undecided zone: tri-state shared between comparisons of the same operands
        Z3_ast lt_, eq_; { auto it = tri.find(key); if (it == tri.end()) { tri[key] = freshBool(); lt_ = tri[key]; auto k2 = std::make_pair((Expr*)((char*)key.first + 1), key.second); tri[k2] = freshBool(); eq_ = tri[k2]; side.push_back(Not(And({lt_, eq_}))); } else { lt_ = it->second; eq_ = tri[std::make_pair((Expr*)((char*)key.first + 1), key.second)]; } }
        Z3_ast ltk = sw ? And({Not(lt_), Not(eq_)}) : lt_;
        Z3_ast dec_ = e->op == E_FEQ ? eq(X, num(0)) : e->op == E_FLT ? lt(X, num(0)) : le(X, num(0)); Z3_ast und = e->op == E_FEQ ? eq_ : e->op == E_FLT ? ltk : Or({ltk, eq_});
        return Ite(z, dec_, und); }

    // ------------------------------------------------------------- integers
    IT I(Expr* e) { auto it = mi.find(e); if (it != mi.end()) return it->second; IT r = I0(e); if (e->op != E_CONST && e->op != E_VAR) r = clip(r, e); mi[e] = r; return r; }
    struct DM { bool has = false; IT q, r; }; std::map<std::pair<Expr*, Expr*>, DM> divm, udivm;
    IT I0(Expr* e) {
        int w = e->w;
        if (w == 1 && e->op != E_VAR) return ite(B(e), num(1), num(0));
        if (mode == M_ABS) { bool lin; switch (e->op) { case E_CONST: case E_VAR: case E_ADD: case E_SUB: case E_SEXT: case E_ITE: lin = true; break; case E_MUL: lin = isC(e->k0) || isC(e->k1); break; case E_ZEXT: lin = e->k0->w == 1 || e->k0->lo >= 0; break; case E_TRUNC: lin = e->k0->lo >= smin_w(w) && e->k0->hi <= smax_w(w); break; default: lin = false; }
            if (lin && (e->op == E_ADD || e->op == E_SUB || e->op == E_MUL)) { IT x = I(e->k0), y = I(e->k1); i128 lo, hi; if (e->op == E_ADD) lo = x.lo + y.lo, hi = x.hi + y.hi; else if (e->op == E_SUB) lo = x.lo - y.hi, hi = x.hi - y.lo; else { IT m = mul(x, y); lo = m.lo; hi = m.hi; } lin = lo >= smin_w(w) && hi <= smax_w(w); }
            if (!lin) { i128 lo = e->lo, hi = e->hi; if (e->op == E_MUL && e->k0 == e->k1 && lo < 0 && hi < ((i128)1 << 62)) lo = 0; return freshI(lo, hi, "a"); } }
        switch (e->op) {
        case E_CONST: return num(e->c);
        case E_VAR: { auto it = vars.find(e->idx); Z3_sort s = mode == M_BV ? Z3_mk_bv_sort(c, bw(e->lo, e->hi)) : S;
            IT r{it == vars.end() ? (vars[e->idx] = Z3_mk_const(c, Z3_mk_string_symbol(c, ("v" + std::to_string(e->idx)).c_str()), s)) : it->second, e->lo, e->hi}; if (it == vars.end()) bound(r); return r; }
        case E_ADD: return wrapS(add(I(e->k0), I(e->k1)), w); case E_SUB: return wrapS(sub(I(e->k0), I(e->k1)), w);
        case E_MUL: { IT a = I(e->k0), b = I(e->k1); i128 t; if (mode == M_BV && (__builtin_mul_overflow(std::max(-a.lo, a.hi), std::max(-b.lo, b.hi), &t) || t > LIM)) return {Z3_mk_bvmul(c, fit(a, w), fit(b, w)), smin_w(w), smax_w(w)}; return wrapS(mul(a, b), w); }
        case E_SDIV: case E_SREM: { auto& dm = divm[{e->k0, e->k1}]; if (!dm.has) { tdiv(I(e->k0), I(e->k1), dm.q, dm.r); dm.has = true; } IT q = dm.q, r = dm.r; return e->op == E_SDIV ? wrapS(q, w) : r; }
        case E_UDIV: case E_UREM: { auto& dm = udivm[{e->k0, e->k1}]; if (!dm.has) { fdiv(wrapU(I(e->k0), w), wrapU(I(e->k1), w), dm.q, dm.r); dm.has = true; } IT q = dm.q, r = dm.r; return wrapS(e->op == E_UDIV ? q : r, w); }
        case E_AND: case E_OR: case E_XOR: { IT a = I(e->k0), b = I(e->k1);
            if (mode == M_BV) { int k = std::max(W(a), W(b)); Z3_ast x = fit(a, k), y = fit(b, k); Z3_ast r = e->op == E_AND ? Z3_mk_bvand(c, x, y) : e->op == E_OR ? Z3_mk_bvor(c, x, y) : Z3_mk_bvxor(c, x, y); return {r, -((i128)1 << (k - 1)), ((i128)1 << (k - 1)) - 1}; }
            if (e->op == E_AND && isC(e->k1) && e->k1->c > 0 && (e->k1->c & (e->k1->c + 1)) == 0 && mode != M_REL) { IT q, r; fdiv(a, num(e->k1->c + 1), q, r); return r; }
            if (e->op == E_XOR && isC(e->k1) && e->k1->c == -1) return sub(num(-1), a);
            throw Unsup{"bitwise"}; }
        case E_SHL: { if (mode != M_BV) throw Unsup{"shl"}; IT a = I(e->k0), b = I(e->k1); return {Z3_mk_bvshl(c, fit(a, w), fit(b, w)), smin_w(w), smax_w(w)}; }
        case E_ASHR: case E_LSHR: { IT a = I(e->k0); if (!isC(e->k1)) { if (mode != M_BV) throw Unsup{"shr"}; IT b = I(e->k1); Z3_ast r = e->op == E_ASHR ? Z3_mk_bvashr(c, fit(a, w), fit(b, w)) : Z3_mk_bvlshr(c, fit(a, w), fit(b, w)); return {r, smin_w(w), smax_w(w)}; }
            if (e->op == E_LSHR) a = wrapU(a, w); IT q, r; fdiv(a, num((i128)1 << (int)e->k1->c), q, r); return wrapS(q, w); }
        case E_SEXT: return I(e->k0);
        case E_ZEXT: if (e->k0->w == 1) return ite(B(e->k0), num(1), num(0)); return wrapU(I(e->k0), e->k0->w);
        case E_TRUNC: return wrapS(I(e->k0), w);
        case E_ITE: return ite(B(e->k0), I(e->k1), I(e->k2));
        case E_FTOI: return ftoi(e);
        case E_ISQRT: { IT n = I(e->k0); IT s = freshI(e->lo, e->hi, "s"); IT s2 = mul(s, s);
            if (e->aux == 0) { side.push_back(le(s2, n)); side.push_back(lt(n, add(s2, add(s, add(s, num(1)))))); }
            else { side.push_back(le(n, add(s2, s))); side.push_back(Or({And({le(s, num(0)), le(n, num(0))}), And({le(num(1), s), le(add(sub(s2, s), num(1)), n)})})); }
            return s; }
        case E_POP: case E_CLZ: case E_CTZ: case E_BSWAP: throw Unsup{"bitop"};
        default: throw Unsup{"int op"}; } }
    IT ftoi(Expr* e) {
        if (isReal()) {
            Z3_ast z = R(e->k0); IT t = freshI(e->lo, e->hi, "t"); Z3_ast tr = toR(t);
            auto plus = [&](Z3_ast a, double d) { Z3_ast v[2] = {a, rnum(d)}; return Z3_mk_add(c, 2, v); };
            auto flo = [&]() { return And({Z3_mk_le(c, tr, z), Z3_mk_lt(c, z, plus(tr, 1))}); };
            auto cei = [&]() { return And({Z3_mk_ge(c, tr, z), Z3_mk_gt(c, z, plus(tr, -1))}); };
            switch (e->aux) { case R_FLOOR: side.push_back(flo()); break; case R_CEIL: side.push_back(cei()); break;
            case R_TRUNC: side.push_back(Ite(Z3_mk_ge(c, z, rnum(0)), flo(), cei())); break;
            default: side.push_back(And({Z3_mk_le(c, plus(tr, -0.5), z), Z3_mk_le(c, z, plus(tr, 0.5))}));
                if (e->aux == R_AWAY) { side.push_back(Z3_mk_implies(c, Z3_mk_ge(c, z, rnum(0)), Z3_mk_lt(c, z, plus(tr, 0.5)))); side.push_back(Z3_mk_implies(c, Z3_mk_le(c, z, rnum(0)), Z3_mk_gt(c, z, plus(tr, -0.5)))); } }
            return t; }
        FQ q = Q(e->k0); int m = e->aux;
        // q = N/D * 2^e, tolerance err
        IT N = q.N, D = q.D; if (q.e >= 0) N = shlc(N, q.e); else D = shlc(D, -q.e);
        double t = q.err * (double)D.hi * 1.0000001; bool inexact = q.err > 0; if (!(t < 1e30)) throw Unsup{"tolerance"}; i128 Tt = (i128)std::floor(t); if (q.cr && Tt == 0 && m != R_EVEN && m != R_AWAY) inexact = false;
        auto floorQ = [&](IT n, IT d, i128 Tz) { IT fq, fr; fdiv(n, d, fq, fr); if (!inexact) return fq;
            IT res = fq; Z3_ast b1 = freshBool(); Z3_ast low = le(fr, num(Tz)); res = ite(And({low, b1}), sub(fq, num(1)), fq);
            if (Tz > 0) { Z3_ast b2 = freshBool(); Z3_ast hig = le(sub(d, fr), num(Tz)); res = ite(And({hig, b2}), add(fq, num(1)), res); }
            return res; };
        switch (m) {
        case R_FLOOR: return floorQ(N, D, Tt);
        case R_CEIL: return neg(floorQ(neg(N), D, Tt));
        case R_TRUNC: { if (N.lo >= 0) { IT f = floorQ(N, D, Tt); if (inexact) return ite(lt(f, num(0)), num(0), f); return f; } if (N.hi <= 0) { IT f = neg(floorQ(neg(N), D, Tt)); if (inexact) return ite(lt(num(0), f), num(0), f); return f; }
            Z3_ast p = le(num(0), N); IT aN = ite(p, N, neg(N)); { i128 mm = std::max(N.hi, -N.lo); if (mode == M_BV) { IT x{nullptr, 0, mm}; x.a = fit(aN, W(x)); aN = x; } else { aN.lo = 0; aN.hi = mm; } }
            IT f = floorQ(aN, D, Tt); if (inexact) f = ite(lt(f, num(0)), num(0), f); return ite(p, f, neg(f)); }
        default: { // nearest: floor((2N + D) / 2D), ties
            IT N2 = add(shlc(N, 1), D), D2 = shlc(D, 1); IT fq, fr; fdiv(N2, D2, fq, fr);
            if (!inexact) { Z3_ast tie = eq(fr, num(0)); if (m == R_EVEN) { IT h, par; fdiv(fq, num(2), h, par); if (mode == M_REL) throw Unsup{"even"}; return ite(And({tie, eq(par, num(1))}), sub(fq, num(1)), fq); }
                return ite(And({tie, lt(N, num(0))}), sub(fq, num(1)), fq); }
            return floorQ(N2, D2, (i128)std::floor(2 * t)); } } }

    // ------------------------------------------------------------- doubles as enclosed rationals
    void align(const FQ& a, const FQ& b, IT& x, IT& y, double& E) {
        x = a.N; y = b.N; if (!(isNum(a.D) && a.D.lo == 1)) y = mul(y, a.D); if (!(isNum(b.D) && b.D.lo == 1)) x = mul(x, b.D);
        int m = std::min(a.e, b.e); if (a.e - m > 110 || b.e - m > 110) throw Unsup{"scale"}; x = shlc(x, a.e - m); y = shlc(y, b.e - m); E = a.err + b.err; }
    double mag(Expr* e) { return std::max(std::fabs(e->flo), std::fabs(e->fhi)); }
    double ulp(Expr* e) { return e->exact ? 0 : mag(e) * std::ldexp(1.0, e->w == 32 ? -24 : -53) * 1.0000001 + 1e-300; }
    FQ Q(Expr* e) { auto it = mf.find(e); if (it != mf.end()) return it->second; FQ r = Q0(e); mf[e] = r; return r; }
    FQ Q0(Expr* e) {
        IT one = num(1);
        switch (e->op) {
        case E_FCONST: { if (!std::isfinite(e->d)) throw Unsup{"nonfinite"}; if (e->d == 0) return {num(0), one, 0, 0}; int mb; int dy = dyOf(e->d, mb); double m = std::ldexp(e->d, -dy); return {num((i128)m), one, dy, 0}; }
        case E_I2F: { IT n = I(e->k0); return {n, one, 0, ulp(e), true}; }
        case E_FCVT: { FQ a = Q(e->k0); a.cr = a.err == 0 || (a.cr && e->exact); a.err += ulp(e); return a; }
        case E_FNEG: { FQ a = Q(e->k0); a.N = neg(a.N); return a; }
        case E_FADD: case E_FSUB: { FQ a = Q(e->k0), b = Q(e->k1); IT x, y; double E; align(a, b, x, y, E); FQ r; r.N = e->op == E_FADD ? add(x, y) : sub(x, y); r.D = isNum(a.D) && a.D.lo == 1 ? b.D : isNum(b.D) && b.D.lo == 1 ? a.D : mul(a.D, b.D); r.e = std::min(a.e, b.e); r.err = E + ulp(e); r.cr = E == 0; return r; }
        case E_FMUL: { FQ a = Q(e->k0), b = Q(e->k1); FQ r; r.N = mul(a.N, b.N); r.D = mul(a.D, b.D); r.e = a.e + b.e; double ma = mag(e->k0) + a.err, mb_ = mag(e->k1) + b.err; r.err = (a.err * mb_ + b.err * ma) * 1.0000001 + ulp(e); r.cr = a.err == 0 && b.err == 0; if (!std::isfinite(r.err)) throw Unsup{"err"}; return r; }
        case E_FDIV: { FQ a = Q(e->k0), b = Q(e->k1); FQ r; IT bn = b.N;
            if (b.err != 0 && !(e->k1->flo > 0 || e->k1->fhi < 0)) throw Unsup{"div err"};
            IT num_ = isNum(b.D) && b.D.lo == 1 ? a.N : mul(a.N, b.D), den = isNum(a.D) && a.D.lo == 1 ? bn : mul(bn, a.D);
            if (e->k1->flo > 0 && den.lo <= 0) { if (mode == M_BV) { IT d{nullptr, 1, den.hi}; d.a = fit(den, W(d)); den = d; } else den.lo = 1; }
            if (den.lo > 0) { r.N = num_; r.D = den; }
            else if (den.hi < 0) { r.N = neg(num_); r.D = neg(den); }
            else { Z3_ast p = lt(num(0), den); r.N = ite(p, num_, neg(num_)); IT d = ite(p, den, neg(den)); i128 m = std::max(den.hi, -den.lo); if (mode == M_BV) { IT x{nullptr, 1, m}; x.a = fit(d, W(x)); d = x; } else { d.lo = 1; d.hi = m; } r.D = d; }
            r.e = a.e - b.e; double minb = e->k1->flo > 0 ? e->k1->flo : e->k1->fhi < 0 ? -e->k1->fhi : (e->k1->dy != DY_NONE ? std::ldexp(1.0, e->k1->dy) : 0);
            double md = minb - b.err; if (!(md > 0)) { if (a.err == 0 && b.err == 0) md = 1; else throw Unsup{"div err"}; }
            r.err = (a.err == 0 && b.err == 0) ? ulp(e) : (a.err + (mag(e) + 1) * b.err) / md * 1.0000001 + ulp(e); r.cr = a.err == 0 && b.err == 0; if (!std::isfinite(r.err)) throw Unsup{"err"}; return r; }
        case E_FREM: { FQ a = Q(e->k0), b = Q(e->k1); if (a.err || b.err || !isNum(a.D) || !isNum(b.D) || a.D.lo != 1 || b.D.lo != 1) throw Unsup{"frem"}; IT x, y; double E; align(a, b, x, y, E); IT q, r; tdiv(x, y, q, r); return {r, one, std::min(a.e, b.e), 0}; }
        case E_FSQRT: { FQ a = Q(e->k0); if (!(isNum(a.D) && a.D.lo == 1) || a.err) throw Unsup{"sqrt"};
            int k = 12; while ((a.e + 2 * k) < 0) k++; IT X = shlc(a.N, a.e + 2 * k); if (X.lo < 0) X.lo = 0; if (X.hi > ((i128)1 << 100)) throw Unsup{"sqrt mag"};
            if (mode == M_BV) { IT y{nullptr, 0, X.hi}; y.a = fit(IT{X.a, shlc(a.N, a.e + 2 * k).lo, X.hi}, W(y)); X = y; }
            IT s = freshI(0, (i128)(std::sqrt((double)X.hi) * 1.0000001) + 1, "s"); IT s2 = mul(s, s); side.push_back(le(s2, X)); side.push_back(lt(X, add(s2, add(s, add(s, num(1))))));
            return {s, one, -k, std::ldexp(1.0, -k) + ulp(e)}; }
        case E_ITE: { Z3_ast p = B(e->k0); FQ a = Q(e->k1), b = Q(e->k2); int m = std::min(a.e, b.e); if (a.e - m > 110 || b.e - m > 110) throw Unsup{"scale"}; return {ite(p, shlc(a.N, a.e - m), shlc(b.N, b.e - m)), ite(p, a.D, b.D), m, std::max(a.err, b.err), (a.cr || a.err == 0) && (b.cr || b.err == 0)}; }
        default: throw Unsup{"fp op"}; } }

    // ------------------------------------------------------------- doubles as reals with rounding terms
    Z3_ast rnum(double d) { if (g_ideal && std::fabs(d) > 1e-9 && std::fabs(d) < 1e15 && d != std::floor(d)) { char b[64]; snprintf(b, 64, "%.12f", d); return Z3_mk_numeral(c, b, Z3_mk_real_sort(c)); }
        if (d == 0) return Z3_mk_numeral(c, "0", Z3_mk_real_sort(c)); int mb; int dy = dyOf(d, mb); i128 m = (i128)std::ldexp(d, -dy);
        if (dy >= 0) { std::string s = dec(m); Z3_ast r = Z3_mk_numeral(c, s.c_str(), Z3_mk_real_sort(c)); while (dy > 0) { int k = std::min(dy, 60); Z3_ast v[2] = {r, Z3_mk_numeral(c, dec((i128)1 << k).c_str(), Z3_mk_real_sort(c))}; r = Z3_mk_mul(c, 2, v); dy -= k; } return Z3_simplify(c, r); }
        if (dy < -120) { Z3_ast r = Z3_mk_numeral(c, dec(m).c_str(), Z3_mk_real_sort(c)); int k = -dy; while (k > 0) { int s = std::min(k, 60); r = Z3_mk_div(c, r, Z3_mk_numeral(c, dec((i128)1 << s).c_str(), Z3_mk_real_sort(c))); k -= s; } return Z3_simplify(c, r); }
        return Z3_mk_numeral(c, (dec(m) + "/" + dec((i128)1 << -dy)).c_str(), Z3_mk_real_sort(c)); }
    Z3_ast toR(const IT& x) { return mode == M_REL ? x.a : Z3_mk_int2real(c, x.a); }
    Z3_ast freshR(const char* p) { return Z3_mk_const(c, Z3_mk_string_symbol(c, (std::string(p) + "!" + std::to_string(fresh++)).c_str()), Z3_mk_real_sort(c)); }
    Z3_ast a2(int op, Z3_ast x, Z3_ast y) { Z3_ast v[2] = {x, y}; return op == 0 ? Z3_mk_add(c, 2, v) : op == 1 ? Z3_mk_sub(c, 2, v) : Z3_mk_mul(c, 2, v); }
    Z3_ast round(Expr* e, Z3_ast exact) {
        if (e->exact || g_ideal) return exact;
        Z3_ast z = freshR("r"); double u = std::ldexp(1.0, e->w == 32 ? -24 : -53); double m = mag(e);
        if (std::isfinite(m)) { double ab = m * u * 1.0000001 + 1e-300; side.push_back(Z3_mk_le(c, a2(1, z, exact), rnum(ab))); side.push_back(Z3_mk_le(c, a2(1, exact, z), rnum(ab))); }
        else { Z3_ast x = exact, b = a2(2, rnum(u), Ite(Z3_mk_ge(c, x, rnum(0)), x, Z3_mk_unary_minus(c, x))); b = a2(0, b, rnum(1e-300)); side.push_back(Z3_mk_le(c, a2(1, z, exact), b)); side.push_back(Z3_mk_le(c, a2(1, exact, z), b)); }
        // rounding is monotone and keeps sign
        if (std::isfinite(m) && (e->op == E_FDIV || e->op == E_FMUL) && relround) { Z3_ast zr = rnum(0), up = a2(2, rnum(1 + 1.0000001 * u), exact), dn = a2(2, rnum(1 - 1.0000001 * u), exact), p = Z3_mk_ge(c, exact, zr);
            side.push_back(Z3_mk_implies(c, p, And({Z3_mk_le(c, a2(1, z, up), rnum(1e-300)), Z3_mk_le(c, a2(1, dn, z), rnum(1e-300))}))); side.push_back(Z3_mk_or(c, 2, std::array<Z3_ast, 2>{p, And({Z3_mk_le(c, a2(1, z, dn), rnum(1e-300)), Z3_mk_le(c, a2(1, up, z), rnum(1e-300))})}.data())); }
        Z3_ast zero = rnum(0); side.push_back(Z3_mk_implies(c, Z3_mk_ge(c, exact, zero), Z3_mk_ge(c, z, zero))); side.push_back(Z3_mk_implies(c, Z3_mk_le(c, exact, zero), Z3_mk_le(c, z, zero)));
        if (std::isfinite(e->flo)) side.push_back(Z3_mk_ge(c, z, rnum(e->flo))); if (std::isfinite(e->fhi)) side.push_back(Z3_mk_le(c, z, rnum(e->fhi)));
        return z; }
    Z3_ast R(Expr* e) { auto it = mr.find(e); if (it != mr.end()) return it->second; Z3_ast r = R0(e); mr[e] = r; return r; }
    Z3_ast R0(Expr* e) {
        if (mode == M_ABS && !(e->op == E_FCONST || e->op == E_FVAR || e->op == E_ITE || e->op == E_FNEG || (e->op == E_I2F && e->exact))) { if (std::isnan(e->flo) || std::isnan(e->fhi)) throw Unsup{"nan"}; Z3_ast q = freshR("a"); if (std::isfinite(e->flo)) side.push_back(Z3_mk_ge(c, q, rnum(e->flo))); if (std::isfinite(e->fhi)) side.push_back(Z3_mk_le(c, q, rnum(e->fhi))); return q; }
        switch (e->op) {
        case E_FCONST: if (!std::isfinite(e->d)) throw Unsup{"nonfinite"}; return rnum(e->d);
        case E_FVAR: { auto it = vars.find(e->idx); if (it != vars.end()) return it->second; Z3_ast v = Z3_mk_const(c, Z3_mk_string_symbol(c, ("v" + std::to_string(e->idx)).c_str()), Z3_mk_real_sort(c)); vars[e->idx] = v;
            if (std::isfinite(e->flo)) side.push_back(Z3_mk_ge(c, v, rnum(e->flo))); if (std::isfinite(e->fhi)) side.push_back(Z3_mk_le(c, v, rnum(e->fhi))); return v; }
        case E_I2F: return round(e, toR(I(e->k0)));
        case E_FCVT: return round(e, R(e->k0));
        case E_FNEG: return Z3_mk_unary_minus(c, R(e->k0));
        case E_FADD: return round(e, a2(0, R(e->k0), R(e->k1))); case E_FSUB: return round(e, a2(1, R(e->k0), R(e->k1)));
        case E_FMUL: { // product of two comparisons results etc. handled by the solver
            return round(e, a2(2, R(e->k0), R(e->k1))); }
        case E_FDIV: { Z3_ast x = R(e->k0), y = R(e->k1); if (isFC(e->k1)) return round(e, Z3_mk_div(c, x, y)); Z3_ast q = freshR("d"); side.push_back(Z3_mk_eq(c, a2(2, q, y), x)); 
            return round(e, q); }
        case E_FSQRT: { Z3_ast x = R(e->k0); Z3_ast q = freshR("s"); side.push_back(Z3_mk_eq(c, a2(2, q, q), x)); side.push_back(Z3_mk_ge(c, q, rnum(0))); return round(e, q); }
        case E_ITE: return Ite(B(e->k0), R(e->k1), R(e->k2));
        case E_FUN: { Z3_ast q = freshR("f"); if (std::isfinite(e->flo)) side.push_back(Z3_mk_ge(c, q, rnum(e->flo))); if (std::isfinite(e->fhi)) side.push_back(Z3_mk_le(c, q, rnum(e->fhi))); R(e->k0); if (e->k1) R(e->k1);
            if (e->aux == F_ACOS) { }
            return q; }
        case E_FREM: { Z3_ast q = freshR("m"); side.push_back(Z3_mk_ge(c, q, rnum(e->flo))); side.push_back(Z3_mk_le(c, q, rnum(e->fhi))); R(e->k0); R(e->k1); return q; }
        default: throw Unsup{"real op"}; } }
};
static void zerr(Z3_context, Z3_error_code e) { throw std::runtime_error("z3 error " + std::to_string(e)); }
} // namespace

static std::string numstr(Z3_context c, Z3_ast v) {
    if (Z3_get_ast_kind(c, v) == Z3_NUMERAL_AST) return Z3_get_numeral_string(c, v);
    if (Z3_is_algebraic_number(c, v)) { Z3_ast l = Z3_get_algebraic_number_lower(c, v, 30); return Z3_get_numeral_string(c, l); }
    return "0"; }
static i128 parseI(const std::string& s) { bool n = s[0] == '-'; i128 r = 0; for (char ch : s) if (ch >= '0' && ch <= '9') r = r * 10 + (ch - '0'); return n ? -r : r; }
static double parseR(const std::string& s) { size_t p = s.find('/'); auto ld = [](const std::string& t) { return strtold(t.c_str(), nullptr); }; if (p == std::string::npos) return (double)ld(s); return (double)(ld(s.substr(0, p)) / ld(s.substr(p + 1))); }

int solveIn(int mode, const std::vector<Expr*>& cs, unsigned timeout_ms, std::map<int, Val>& out, std::string& err, const char* dumpTo) {
    try {
        Z3_config cfg = Z3_mk_config(); Z3_context c = Z3_mk_context(cfg); Z3_set_error_handler(c, zerr);
        Low L; L.c = c; L.mode = mode; L.S = mode == M_REL ? Z3_mk_real_sort(c) : mode == M_BV ? nullptr : Z3_mk_int_sort(c);
        std::vector<Z3_ast> as; for (Expr* e : cs) as.push_back(L.B(e));
        Z3_solver s;
        if (mode == M_ABS) s = Z3_mk_simple_solver(c);
        else if (mode == M_BV) s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV"));
        else if (mode == M_REL) s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_NRA"));
        else s = Z3_mk_solver(c);
        Z3_solver_inc_ref(c, s);
        Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeout_ms); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "random_seed"), 1); Z3_solver_set_params(c, s, p);
        for (auto a : L.side) Z3_solver_assert(c, s, a); for (auto a : as) Z3_solver_assert(c, s, a);
        static const char* dd = getenv("SX_DUMP"); static int dn = 0; std::string df; if (!dumpTo && dd && mode == M_REALZ) { df = std::string(dd) + "/q" + std::to_string(getpid()) + "_" + std::to_string(dn++) + ".smt2"; dumpTo = df.c_str(); }
        if (dumpTo) { FILE* f = fopen(dumpTo, "w"); if (f) { fputs(Z3_solver_to_string(c, s), f); fclose(f); } }
        Z3_lbool r = Z3_solver_check(c, s);
        if (r == Z3_L_FALSE) return -1;
        if (r == Z3_L_UNDEF) { err = Z3_solver_get_reason_unknown(c, s); return 0; }
        Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
        for (auto& [idx, v] : L.vars) {
            Z3_ast val; if (!Z3_model_eval(c, m, v, true, &val)) continue;
            Val x{0, 0};
            Z3_sort st = Z3_get_sort(c, v); Z3_sort_kind k = Z3_get_sort_kind(c, st);
            if (k == Z3_BV_SORT) { int w = Z3_get_bv_sort_size(c, st); x.i = norm(parseI(numstr(c, val)), w); if (w == 1) x.i = x.i ? -1 : 0; x.d = (double)x.i; }
            else { std::string t = numstr(c, val); if (t.find('/') == std::string::npos) x.i = parseI(t); else { double d = parseR(t); x.i = (i128)std::nearbyint(d); } x.d = parseR(t); }
            out[idx] = x; }
        return 1;
    } catch (Unsup& u) { err = std::string("unsupported: ") + u.why; return 2; }
    catch (std::exception& x) { err = x.what(); return 2; } }
