#include "expr.h"

std::unordered_set<Expr*, EHash, EEq> g_tab;
std::vector<Expr*> g_all;
std::vector<Val> g_model;
static uint64_t g_epoch = 1;
static const std::vector<int> g_novars;
static std::set<std::vector<int>> g_varsets;

Expr* arenaAlloc() {
    static char* cur = nullptr; static size_t left = 0;
    if (left < sizeof(Expr) + 16) { left = 4 << 20; cur = (char*)mmap(nullptr, left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    size_t s = (sizeof(Expr) + 15) / 16 * 16; Expr* e = (Expr*)cur; cur += s; left -= s; return e; }

static const std::vector<int>* unionVars(const std::vector<int>* a, const std::vector<int>* b) {
    if (a->empty()) return b; if (b->empty() || a == b) return a;
    std::vector<int> r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    if (r.size() == a->size()) return a; if (r.size() == b->size()) return b;
    return &*g_varsets.insert(std::move(r)).first; }

static i128 sat(bool ovf, i128 v, i128 s) { return ovf ? s : v; }
static void setFull(Expr* e) { e->lo = smin_w(e->w); e->hi = smax_w(e->w); }
static bool fitsW(i128 lo, i128 hi, int w) { return lo >= smin_w(w) && hi <= smax_w(w); }
static int bitsOf(u128 v) { int n = 0; while (v) { n++; v >>= 1; } return n; }

struct IV { i128 lo, hi; bool full; };
static IV ivBin(int op, i128 al, i128 ah, i128 bl, i128 bh, int w) {
    IV r{0, 0, false}; auto full = [&]() { r.full = true; return r; };
    switch (op) {
    case E_ADD: if (__builtin_add_overflow(al, bl, &r.lo) || __builtin_add_overflow(ah, bh, &r.hi)) return full(); break;
    case E_SUB: if (__builtin_sub_overflow(al, bh, &r.lo) || __builtin_sub_overflow(ah, bl, &r.hi)) return full(); break;
    case E_MUL: { i128 c[4]; if (__builtin_mul_overflow(al, bl, &c[0]) || __builtin_mul_overflow(al, bh, &c[1]) || __builtin_mul_overflow(ah, bl, &c[2]) || __builtin_mul_overflow(ah, bh, &c[3])) return full();
        r.lo = *std::min_element(c, c + 4); r.hi = *std::max_element(c, c + 4); break; }
    case E_UDIV: if (al < 0 || bl < 0) return full(); [[fallthrough]];
    case E_SDIV: { // truncating
        std::vector<i128> bs; if (bl <= -1 && bh >= -1) bs.push_back(-1); if (bl <= 1 && bh >= 1) bs.push_back(1); if (bl) bs.push_back(bl); if (bh) bs.push_back(bh);
        if (bs.empty()) return full(); bool f = true;
        for (i128 a : {al, ah}) for (i128 b : bs) { i128 q = a / b; if (f || q < r.lo) r.lo = q; if (f || q > r.hi) r.hi = q; f = false; }
        if (al < 0 && ah > 0) { r.lo = std::min(r.lo, (i128)0); r.hi = std::max(r.hi, (i128)0); } break; }
    case E_UREM: if (al < 0 || bl < 0) return full(); [[fallthrough]];
    case E_SREM: { i128 m = std::max(bh < 0 ? -bh : bh, bl < 0 ? -bl : bl) - 1; if (m < 0) return full();
        r.lo = al < 0 ? -std::min(m, -al) : 0; r.hi = ah > 0 ? std::min(m, ah) : 0; break; }
    case E_AND: if (al >= 0 && bl >= 0) { r.lo = 0; r.hi = std::min(ah, bh); } else if (al >= 0) { r.lo = 0; r.hi = ah; } else if (bl >= 0) { r.lo = 0; r.hi = bh; } else return full(); break;
    case E_OR: case E_XOR: if (al >= 0 && bl >= 0) { int n = std::max(bitsOf(ah), bitsOf(bh)); r.lo = op == E_OR ? std::max(al, bl) : 0; r.hi = ((i128)1 << n) - 1; } else return full(); break;
    case E_SHL: if (bl == bh && bl >= 0 && bl < 126) return ivBin(E_MUL, al, ah, (i128)1 << bl, (i128)1 << bl, w); return full();
    case E_LSHR: if (al < 0) { if (bl == bh && bl > 0 && w < 128) { r.lo = 0; r.hi = (i128)((((u128)1 << w) - 1) >> (int)bl); break; } return full(); } [[fallthrough]];
    case E_ASHR: if (bl != bh) return full(); r.lo = al >> (int)bl; r.hi = ah >> (int)bl; break;
    default: return full(); }
    return r; }

static double dn(double x) { return std::nextafter(x, -INFINITY); }
static double up(double x) { return std::nextafter(x, INFINITY); }

static void annotate(Expr* e) {
    Expr *a = e->k0, *b = e->k1;
    e->exact = 1; e->negz = 0; e->dy = DY_NONE; e->epoch = 0;
    e->vars = &g_novars;
    if (a) e->vars = unionVars(e->vars, a->vars); if (b) e->vars = unionVars(e->vars, b->vars); if (e->k2) e->vars = unionVars(e->vars, e->k2->vars);
    if (!e->fp) {
        bool doR = false; IV base{0, 0, true}, ref{0, 0, true};
        switch (e->op) {
        case E_CONST: e->lo = e->hi = e->c; break;
        case E_VAR: break;
        case E_ADD: case E_SUB: case E_MUL: case E_SDIV: case E_UDIV: case E_SREM: case E_UREM: case E_AND: case E_OR: case E_XOR: case E_SHL: case E_LSHR: case E_ASHR:
            if (e->w == 1) { e->lo = 0; e->hi = 1; break; }
            base = ivBin(e->op, a->lo, a->hi, b->lo, b->hi, e->w); ref = ivBin(e->op, a->rlo, a->rhi, b->rlo, b->rhi, e->w); doR = true; break;
        case E_SEXT: base = {a->lo, a->hi, false}; ref = {a->rlo, a->rhi, false}; doR = true; break;
        case E_ZEXT: if (a->w == 1) { e->lo = 0; e->hi = 1; break; } if (a->lo >= 0) base = {a->lo, a->hi, false}; else base = {0, (i128)(((u128)1 << a->w) - 1), false};
            ref = a->rlo >= 0 ? IV{a->rlo, a->rhi, false} : base; doR = true; break;
        case E_TRUNC: base = {a->lo, a->hi, !fitsW(a->lo, a->hi, e->w)}; ref = {a->rlo, a->rhi, !fitsW(a->rlo, a->rhi, e->w)}; doR = true; break;
        case E_EQ: case E_SLT: case E_SLE: case E_ULT: case E_ULE: case E_NOT: case E_FEQ: case E_FLT: case E_FLE: e->lo = 0; e->hi = 1; break;
        case E_ITE: base = {std::min(b->lo, e->k2->lo), std::max(b->hi, e->k2->hi), false}; ref = {std::min(b->rlo, e->k2->rlo), std::max(b->rhi, e->k2->rhi), false}; doR = true; break;
        case E_FTOI: { double l = a->flo, h = a->fhi; auto rd = [&](double x) { switch (e->aux) { case R_TRUNC: return std::trunc(x); case R_FLOOR: return std::floor(x); case R_CEIL: return std::ceil(x); case R_EVEN: return std::nearbyint(x); default: return std::round(x); } };
            if (!(l > -9.2e18) || !(h < 9.2e18)) { base.full = true; } else base = {(i128)rd(l), (i128)rd(h), false}; ref = base; doR = true; break; }
        case E_ISQRT: { auto s = [](i128 v) { return v <= 0 ? (i128)0 : (i128)std::sqrt((double)v); }; base = {s(a->lo) - (a->lo > 0), s(a->hi) + 1, false}; ref = {s(a->rlo) - (a->rlo > 0), s(a->rhi) + 1, false};
            if (base.lo < 0) base.lo = 0; if (ref.lo < 0) ref.lo = 0; doR = true; break; }
        case E_POP: case E_CLZ: case E_CTZ: e->lo = 0; e->hi = e->w; if (!fitsW(0, e->w, e->w)) setFull(e); break;
        default: setFull(e); }
        if (doR) {
            if (base.full || !fitsW(base.lo, base.hi, e->w)) setFull(e); else { e->lo = base.lo; e->hi = base.hi; }
            if (ref.full || !fitsW(ref.lo, ref.hi, e->w)) { e->rlo = e->lo; e->rhi = e->hi; } else { e->rlo = std::max(ref.lo, e->lo); e->rhi = std::min(ref.hi, e->hi); if (e->rlo > e->rhi) { e->rlo = e->lo; e->rhi = e->hi; } }
        } else { e->rlo = e->lo; e->rhi = e->hi; }
        return; }
    // floating point
    int P = e->w == 32 ? 24 : 53;
    auto maxabs = [&]() { return std::max(std::fabs(e->flo), std::fabs(e->fhi)); };
    auto setExact = [&](int dy) { e->dy = dy; e->exact = dy != DY_NONE && dy > -1000 && maxabs() <= std::ldexp(1.0, P + dy); };
    auto widen = [&]() { if (!e->exact) { if (e->w == 32) { e->flo = std::nextafterf((float)e->flo, -INFINITY); e->fhi = std::nextafterf((float)e->fhi, INFINITY); } else { e->flo = dn(e->flo); e->fhi = up(e->fhi); } } };
    switch (e->op) {
    case E_FCONST: { e->flo = e->fhi = e->d; int m; e->dy = std::isfinite(e->d) ? dyOf(e->d, m) : DY_NONE; e->negz = e->d == 0 && std::signbit(e->d); break; }
    case E_FVAR: break;
    case E_FADD: case E_FSUB: {
        if (e->op == E_FADD) { e->flo = a->flo + b->flo; e->fhi = a->fhi + b->fhi; } else { e->flo = a->flo - b->fhi; e->fhi = a->fhi - b->flo; }
        setExact(a->dy == DY_NONE || b->dy == DY_NONE ? DY_NONE : std::min(a->dy, b->dy)); widen(); e->negz = a->negz && (e->op == E_FSUB || b->negz); break; }
    case E_FMUL: { double c[4] = {a->flo * b->flo, a->flo * b->fhi, a->fhi * b->flo, a->fhi * b->fhi}; e->flo = *std::min_element(c, c + 4); e->fhi = *std::max_element(c, c + 4);
        if (a == b && e->flo < 0) e->flo = 0;
        setExact(a->dy == DY_NONE || b->dy == DY_NONE ? DY_NONE : a->dy + b->dy); widen(); if (a == b && e->flo < 0) e->flo = 0;
        e->negz = !(a->flo >= 0 && b->flo >= 0 && !a->negz && !b->negz) && a != b; break; }
    case E_FDIV: {
        if (isFC(b) && b->d != 0) { int m; int dyb = dyOf(b->d, m); double c1 = a->flo / b->d, c2 = a->fhi / b->d; e->flo = std::min(c1, c2); e->fhi = std::max(c1, c2);
            if (m == 1 && a->dy != DY_NONE) setExact(a->dy - dyb); else e->exact = 0; widen(); }
        else { e->exact = 0; if (b->flo > 0 || b->fhi < 0) { double c[4] = {a->flo / b->flo, a->flo / b->fhi, a->fhi / b->flo, a->fhi / b->fhi}; e->flo = *std::min_element(c, c + 4); e->fhi = *std::max_element(c, c + 4); }
            else { // denominator is known to be non-zero on this path; use its granularity
                double mb = b->dy != DY_NONE ? std::ldexp(1.0, b->dy) : 5e-324; double ma = std::max(std::fabs(a->flo), std::fabs(a->fhi)); e->flo = -(ma / mb); e->fhi = ma / mb; }
            widen(); }
        e->negz = 1; break; }
    case E_FREM: { double m = std::max(std::fabs(b->flo), std::fabs(b->fhi)); e->flo = a->flo >= 0 ? 0 : std::max(-m, a->flo); e->fhi = a->fhi <= 0 ? 0 : std::min(m, a->fhi); e->dy = a->dy == DY_NONE || b->dy == DY_NONE ? DY_NONE : std::min(a->dy, b->dy); e->negz = 1; break; }
    case E_FNEG: e->flo = -a->fhi; e->fhi = -a->flo; e->dy = a->dy; e->negz = 1; break;
    case E_FSQRT: e->exact = 0; e->flo = a->flo <= 0 ? 0 : dn(std::sqrt(a->flo)); e->fhi = a->fhi <= 0 ? 0 : up(std::sqrt(a->fhi)); if (e->w == 32) { e->flo = e->flo > 0 ? std::nextafterf((float)e->flo, 0) : 0; e->fhi = std::nextafterf((float)e->fhi, INFINITY); } break;
    case E_I2F: e->flo = (double)a->lo; e->fhi = (double)a->hi; setExact(0); if (e->w == 32 && !e->exact) { } widen(); break;
    case E_FCVT: e->flo = a->flo; e->fhi = a->fhi; e->negz = a->negz; if (e->w == 64) { e->dy = a->dy; } else { setExact(a->dy); widen(); } break;
    case E_ITE: e->flo = std::min(b->flo, e->k2->flo); e->fhi = std::max(b->fhi, e->k2->fhi); e->dy = b->dy == DY_NONE || e->k2->dy == DY_NONE ? DY_NONE : std::min(b->dy, e->k2->dy);
        if (isFC(b) && b->d == 0) e->dy = e->k2->dy; else if (isFC(e->k2) && e->k2->d == 0) e->dy = b->dy;
        e->negz = b->negz || e->k2->negz; break;
    case E_FUN: e->exact = 0; e->negz = 1;
        switch (e->aux) { case F_SIN: case F_COS: e->flo = -1; e->fhi = 1; break; case F_ATAN: e->flo = -1.5707963267948968; e->fhi = 1.5707963267948968; break;
        case F_ATAN2: e->flo = -3.1415926535897936; e->fhi = 3.1415926535897936; break; case F_ACOS: e->flo = 0; e->fhi = 3.1415926535897936; break; case F_ASIN: e->flo = -1.5707963267948968; e->fhi = 1.5707963267948968; break;
        case F_EXP: e->flo = 0; e->fhi = up(std::exp(a->fhi)) * (1 + 1e-15); break; case F_CBRT: e->flo = dn(std::cbrt(a->flo)); e->fhi = up(std::cbrt(a->fhi)); break;
        default: e->flo = -INFINITY; e->fhi = INFINITY; } break;
    default: e->flo = -INFINITY; e->fhi = INFINITY; e->exact = 0; e->negz = 1; }
    if (std::isnan(e->flo)) e->flo = -INFINITY; if (std::isnan(e->fhi)) e->fhi = INFINITY;
}

static Expr* intern(Expr& t) {
    auto it = g_tab.find(&t); if (it != g_tab.end()) return *it;
    Expr* e = arenaAlloc(); *e = t; e->id = g_all.size(); annotate(e); 
    g_all.push_back(e); g_tab.insert(e); return e; }
static Expr blank(int op, int w, int fp) { Expr t; memset(&t, 0, sizeof t); t.op = op; t.w = w; t.fp = fp; return t; }
static Expr* mk(int op, int w, int fp, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr, int aux = 0) {
    Expr t = blank(op, w, fp); t.k0 = a; t.k1 = b; t.k2 = c; t.aux = aux; return intern(t); }

Expr* mkConst(i128 v, int w) { Expr t = blank(E_CONST, w, 0); t.c = norm(v, w); return intern(t); }
Expr* mkFConst(double d, int w) { Expr t = blank(E_FCONST, w, 1); t.d = w == 32 ? (double)(float)d : d; return intern(t); }
Expr* mkVar(int idx, int w, i128 lo, i128 hi) {
    Expr t = blank(E_VAR, w, 0); t.idx = idx; auto it = g_tab.find(&t); if (it != g_tab.end()) return *it;
    Expr* e = arenaAlloc(); *e = t; e->id = g_all.size(); annotate(e); e->lo = e->rlo = lo; e->hi = e->rhi = hi; e->vars = &*g_varsets.insert(std::vector<int>{idx}).first; g_all.push_back(e); g_tab.insert(e); return e; }
Expr* mkFVar(int idx, double lo, double hi) {
    Expr t = blank(E_FVAR, 64, 1); t.idx = idx; auto it = g_tab.find(&t); if (it != g_tab.end()) return *it;
    Expr* e = arenaAlloc(); *e = t; e->id = g_all.size(); annotate(e); e->flo = lo; e->fhi = hi; e->negz = lo <= 0 && hi >= 0 ? 0 : 0; e->vars = &*g_varsets.insert(std::vector<int>{idx}).first; g_all.push_back(e); g_tab.insert(e); return e; }

static i128 binVal(int op, i128 a, i128 b, int w) {
    switch (op) {
    case E_ADD: return norm((i128)((u128)a + (u128)b), w); case E_SUB: return norm((i128)((u128)a - (u128)b), w); case E_MUL: return norm((i128)((u128)a * (u128)b), w);
    case E_SDIV: return b ? norm(a == smin_w(128) && b == -1 ? a : a / b, w) : 0; case E_SREM: return b ? norm(b == -1 ? 0 : a % b, w) : 0;
    case E_UDIV: return b ? norm((i128)(uns(a, w) / uns(b, w)), w) : 0; case E_UREM: return b ? norm((i128)(uns(a, w) % uns(b, w)), w) : 0;
    case E_AND: return norm(a & b, w); case E_OR: return norm(a | b, w); case E_XOR: return norm(a ^ b, w);
    case E_SHL: return b < 0 || b >= w ? 0 : norm((i128)((u128)a << (int)b), w); case E_LSHR: return b < 0 || b >= w ? 0 : norm((i128)(uns(a, w) >> (int)b), w); case E_ASHR: return b < 0 || b >= w ? 0 : norm(a >> (int)b, w);
    } return 0; }
static bool cmpVal(int op, i128 a, i128 b, int w) {
    switch (op) { case E_EQ: return a == b; case E_SLT: return a < b; case E_SLE: return a <= b; case E_ULT: return uns(a, w) < uns(b, w); case E_ULE: return uns(a, w) <= uns(b, w); } return false; }

Expr* mkNot(Expr* a) {
    if (isC(a)) return mkConst(!a->c, 1);
    if (a->op == E_NOT) return a->k0;
    if (a->op == E_SLT) return mkCmp(E_SLE, a->k1, a->k0);
    if (a->op == E_SLE) return mkCmp(E_SLT, a->k1, a->k0);
    if (a->op == E_ULT) return mkCmp(E_ULE, a->k1, a->k0);
    if (a->op == E_ULE) return mkCmp(E_ULT, a->k1, a->k0);
    if (a->op == E_FLT) return mkFCmp(E_FLE, a->k1, a->k0);
    if (a->op == E_FLE) return mkFCmp(E_FLT, a->k1, a->k0);
    return mk(E_NOT, 1, 0, a); }

Expr* mkBin(int op, Expr* a, Expr* b) {
    int w = a->w;
    if (isC(a) && isC(b)) { if ((op >= E_SDIV && op <= E_UREM) && b->c == 0) return mkConst(0, w); return mkConst(binVal(op, a->c, b->c, w), w); }
    if ((op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    if (w == 1) {
        if (op == E_ADD || op == E_SUB) op = E_XOR; if (op == E_MUL) op = E_AND;
        if (op == E_AND) { if (isC(b)) return b->c ? a : b; if (a == b) return a; if (mkNot(a) == b) return mkConst(0, 1); }
        if (op == E_OR) { if (isC(b)) return b->c ? b : a; if (a == b) return a; if (mkNot(a) == b) return mkConst(1, 1); }
        if (op == E_XOR) { if (isC(b)) return b->c ? mkNot(a) : a; if (a == b) return mkConst(0, 1); }
        return mk(op, w, 0, a, b); }
    i128 bc = isC(b) ? b->c : 0;
    if (isC(b)) switch (op) {
        case E_ADD: case E_SUB: case E_OR: case E_XOR: case E_SHL: case E_LSHR: case E_ASHR: if (bc == 0) return a; break;
        case E_MUL: if (bc == 0) return b; if (bc == 1) return a; break;
        case E_AND: if (bc == 0) return b; if (bc == -1) return a; if (bc > 0 && a->rlo >= 0 && (bc & (bc + 1)) == 0 && a->rhi <= bc) return a; break;
        case E_SDIV: case E_UDIV: if (bc == 1) return a; break;
        case E_SREM: case E_UREM: if (bc == 1) return mkConst(0, w); break; }
    if (op == E_MUL && !isC(a) && !isC(b)) { // (x + (c ? k1 : k2)) * y with small constants: distribute
        for (int sw = 0; sw < 2; sw++) { Expr *x = sw ? b : a, *y = sw ? a : b; Expr* d = nullptr; Expr* base = nullptr;
            auto small = [](Expr* e) { auto k = [](Expr* z) { return isC(z) && z->c >= -4 && z->c <= 4; }; return e->op == E_ITE ? k(e->k1) && k(e->k2) : e->op == E_ZEXT || e->op == E_SEXT ? e->k0->w == 1 : false; };
            if (x->op == E_ADD && small(x->k1)) d = x->k1, base = x->k0; else if (x->op == E_ADD && small(x->k0)) d = x->k0, base = x->k1; else if (small(x)) d = x;
            if (!d) continue; Expr* m = d->op == E_ITE ? mkIte(d->k0, mkBin(E_MUL, y, d->k1), mkBin(E_MUL, y, d->k2)) : mkIte(d->k0, d->op == E_SEXT ? mkBin(E_SUB, mkConst(0, w), y) : y, mkConst(0, w));
            return base ? mkBin(E_ADD, mkBin(E_MUL, base, y), m) : m; } }
    if (op == E_OR && isC(b) && bc == -1) return b;
    if (op == E_SUB && isC(b) && bc != smin_w(w)) return mkBin(E_ADD, a, mkConst(-bc, w));
    if (op == E_SUB && a == b) return mkConst(0, w);
    if (op == E_XOR && a == b) return mkConst(0, w);
    if ((op == E_AND || op == E_OR) && a == b) return a;
    if (op == E_SHL && isC(b) && bc < w && bc >= 0 && bc < 126) return mkBin(E_MUL, a, mkConst((i128)1 << (int)bc, w));
    if (op == E_ADD && isC(b) && a->op == E_ADD && isC(a->k1)) return mkBin(E_ADD, a->k0, mkConst((i128)((u128)a->k1->c + (u128)bc), w));
    if (op == E_MUL && isC(b) && a->op == E_MUL && isC(a->k1)) return mkBin(E_MUL, a->k0, mkConst((i128)((u128)a->k1->c * (u128)bc), w));
    if (op == E_SUB && isC(a) && a->c == 0 && b->op == E_SUB && isC(b->k0) && b->k0->c == 0) return b->k1;
    if (op == E_SUB && a->op == E_ADD && a->k0 == b) return a->k1;
    if (op == E_SUB && a->op == E_ADD && a->k1 == b) return a->k0;
    // push constants into ITE of constants
    if (isC(b) && a->op == E_ITE && isC(a->k1) && isC(a->k2) && !((op >= E_SDIV && op <= E_UREM) && bc == 0)) return mkIte(a->k0, mkBin(op, a->k1, b), mkBin(op, a->k2, b));
    if (isC(a) && b->op == E_ITE && isC(b->k1) && isC(b->k2) && !(op >= E_SDIV && op <= E_UREM)) return mkIte(b->k0, mkBin(op, a, b->k1), mkBin(op, a, b->k2));
    if (op == E_UDIV && a->rlo >= 0 && b->rlo >= 0) op = E_SDIV;
    if (op == E_UREM && a->rlo >= 0 && b->rlo >= 0) op = E_SREM;
    if (op == E_LSHR && a->rlo >= 0) op = E_ASHR;
    if (op == E_SREM && isC(b) && bc > 0 && a->rlo >= 0 && a->rhi < bc) return a;
    if (op == E_UREM && isC(b) && bc > 0 && a->rlo >= 0 && a->rhi < bc) return a;
    if (op == E_LSHR && isC(b) && bc == w - 1 && w <= 64) return mkExt(E_ZEXT, mkCmp(E_SLT, a, mkConst(0, w)), w);
    if (op == E_ASHR && isC(b) && bc == w - 1 && w <= 64) return mkIte(mkCmp(E_SLT, a, mkConst(0, w)), mkConst(-1, w), mkConst(0, w));
    if (op == E_ASHR && a->rlo >= 0 && isC(b) && (a->rhi >> (int)std::min(bc, (i128)126)) == 0) return mkConst(0, w);
    // low-bit mask / single sign bit tests
    if (op == E_AND && isC(b) && a->op == E_ZEXT && a->k0->w == 1 && (bc & 1)) return a;
    return mk(op, w, 0, a, b); }

static Expr* stripv(Expr* e) { // strip value preserving extensions / truncations
    for (;;) {
        if (e->op == E_SEXT) { e = e->k0; continue; }
        if (e->op == E_ZEXT && e->k0->w > 1 && e->k0->rlo >= 0) { e = e->k0; continue; }
        if (e->op == E_TRUNC && fitsW(e->k0->rlo, e->k0->rhi, e->w)) { e = e->k0; continue; }
        return e; } }

Expr* mkCmp(int op, Expr* a, Expr* b) {
    int w = a->w;
    if (a == b) return mkConst(op == E_EQ || op == E_SLE || op == E_ULE, 1);
    if (isC(a) && isC(b)) return mkConst(cmpVal(op, a->c, b->c, w), 1);
    if (w == 1) { // boolean comparisons (i1 values are 0/1 here; signed order on i1 is reversed)
        if (op == E_EQ) { if (isC(b)) return b->c ? a : mkNot(a); if (isC(a)) return a->c ? b : mkNot(a == b ? a : b); return mkNot(mkBin(E_XOR, a, b)); }
        if (op == E_SLT) return mkBin(E_AND, a, mkNot(b)); if (op == E_SLE) return mkBin(E_OR, a, mkNot(b));
        if (op == E_ULT) return mkBin(E_AND, mkNot(a), b); return mkBin(E_OR, mkNot(a), b); }
    if (op == E_ULT || op == E_ULE) {
        if (a->rlo >= 0 && b->rlo >= 0) op = op == E_ULT ? E_SLT : E_SLE;
        else if (isC(b) && b->c >= 0 && a->rlo < 0 && a->rhi < ((i128)1 << (w - 1))) {
            // a <u c  <=>  0 <= a < c   for c non-negative
            return mkBin(E_AND, mkCmp(E_SLE, mkConst(0, w), a), mkCmp(op == E_ULT ? E_SLT : E_SLE, a, b)); }
        else if (isC(a) && a->c >= 0) { return mkNot(mkCmp(op == E_ULT ? E_ULE : E_ULT, b, a)); }
    }
    if (op == E_EQ || op == E_SLT || op == E_SLE) {
        a = stripv(a); b = stripv(b);
        if (a == b) return mkConst(op != E_SLT, 1);
        if (op == E_EQ) { if (a->rhi < b->rlo || b->rhi < a->rlo) return mkConst(0, 1); if (a->rlo == a->rhi && b->rlo == b->rhi && a->rlo == b->rlo) return mkConst(1, 1); }
        if (op == E_SLT) { if (a->rhi < b->rlo) return mkConst(1, 1); if (a->rlo >= b->rhi) return mkConst(0, 1); }
        if (op == E_SLE) { if (a->rhi <= b->rlo) return mkConst(1, 1); if (a->rlo > b->rhi) return mkConst(0, 1); }
        if (op == E_EQ && isC(a)) std::swap(a, b);
        if (op == E_EQ && !isC(b) && a->id > b->id) std::swap(a, b);
        auto boolOf = [&](Expr* x) { return (x->op == E_ZEXT && x->k0->w == 1) ? x->k0 : nullptr; };
        if (isC(b)) if (Expr* q = boolOf(a)) {
            bool v1 = cmpVal(op, 1, b->c, 64), v0 = cmpVal(op, 0, b->c, 64); return v1 && v0 ? mkConst(1, 1) : v1 ? q : v0 ? mkNot(q) : mkConst(0, 1); }
        if (isC(a)) if (Expr* q = boolOf(b)) {
            bool v1 = cmpVal(op, a->c, 1, 64), v0 = cmpVal(op, a->c, 0, 64); return v1 && v0 ? mkConst(1, 1) : v1 ? q : v0 ? mkNot(q) : mkConst(0, 1); }
        if (isC(b) && a->op == E_ITE && (isC(a->k1) || isC(a->k2))) return mkIte(a->k0, mkCmp(op, a->k1, mkConst(b->c, std::max<int>(b->w, a->w))), mkCmp(op, a->k2, mkConst(b->c, std::max<int>(b->w, a->w))));
        if (isC(a) && b->op == E_ITE && (isC(b->k1) || isC(b->k2))) return mkIte(b->k0, mkCmp(op, mkConst(a->c, std::max<int>(b->w, a->w)), b->k1), mkCmp(op, mkConst(a->c, std::max<int>(b->w, a->w)), b->k2));
        if (op == E_EQ && isC(b) && a->op == E_ADD && isC(a->k1)) return mkCmp(E_EQ, a->k0, mkConst(norm((i128)((u128)b->c - (u128)a->k1->c), a->w), a->w));
        if (op == E_EQ && isC(b) && b->c == 0 && a->op == E_SUB && a->lo > smin_w(a->w) ) return mkCmp(E_EQ, a->k0, a->k1);
        if (op == E_EQ && isC(b) && a->op == E_XOR && isC(a->k1)) return mkCmp(E_EQ, a->k0, mkConst(a->k1->c ^ b->c, a->w));
        // sign tests of bitwise combinations
        if (op == E_SLT && isC(b) && b->c == 0 && (a->op == E_XOR || a->op == E_AND || a->op == E_OR)) return mkBin(a->op, mkCmp(E_SLT, a->k0, mkConst(0, a->w)), mkCmp(E_SLT, a->k1, mkConst(0, a->w)));
        if (op == E_SLE && isC(a) && a->c == 0 && (b->op == E_XOR || b->op == E_AND || b->op == E_OR)) return mkNot(mkBin(b->op, mkCmp(E_SLT, b->k0, mkConst(0, b->w)), mkCmp(E_SLT, b->k1, mkConst(0, b->w))));
        if (op == E_SLE && isC(b) && b->c == -1 && (a->op == E_XOR || a->op == E_AND || a->op == E_OR)) return mkBin(a->op, mkCmp(E_SLT, a->k0, mkConst(0, a->w)), mkCmp(E_SLT, a->k1, mkConst(0, a->w)));
        if (op == E_SLT && isC(a) && a->c == -1 && (b->op == E_XOR || b->op == E_AND || b->op == E_OR)) return mkNot(mkBin(b->op, mkCmp(E_SLT, b->k0, mkConst(0, b->w)), mkCmp(E_SLT, b->k1, mkConst(0, b->w))));
        // normalise integer order against constants: a < c  ->  a <= c-1
        if (op == E_SLT && isC(b)) { op = E_SLE; b = mkConst(b->c - 1, 128); }
        else if (op == E_SLT && isC(a)) { op = E_SLE; a = mkConst(a->c + 1, 128); }
        if (isC(a)) a = mkConst(a->c, 128); if (isC(b)) b = mkConst(b->c, 128);
        return mk(op, 1, 0, a, b); }
    return mk(op, 1, 0, a, b, nullptr, w); }

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
    if (isTrue(c)) return a; if (isFalse(c)) return b; if (a == b) return a;
    if (c->op == E_NOT) return mkIte(c->k0, b, a);
    if (!a->fp && a->w == 1) {
        if (isTrue(a) && isFalse(b)) return c; if (isFalse(a) && isTrue(b)) return mkNot(c);
        if (isTrue(a)) return mkBin(E_OR, c, b); if (isFalse(a)) return mkBin(E_AND, mkNot(c), b);
        if (isTrue(b)) return mkBin(E_OR, mkNot(c), a); if (isFalse(b)) return mkBin(E_AND, c, a); }
    if (a->op == E_ITE && a->k0 == c) a = a->k1; if (b->op == E_ITE && b->k0 == c) b = b->k2;
    if (a == b) return a;
    if (a->fp) {
        // keep integer valued selections in integer land
        if (a->op == E_I2F && b->op == E_I2F && a->exact && b->exact && a->w == b->w) { int w = std::max(a->k0->w, b->k0->w); return mkI2F(mkIte(c, mkExt(E_SEXT, a->k0, w), mkExt(E_SEXT, b->k0, w)), a->w); }
        auto intC = [](Expr* x) { return isFC(x) && std::fabs(x->d) < 9e15 && x->d == std::floor(x->d) && !(x->d == 0 && std::signbit(x->d)); };
        if (a->op == E_I2F && a->exact && intC(b)) { int w = 64; if (a->k0->w <= 64) return mkI2F(mkIte(c, mkExt(E_SEXT, a->k0, w), mkConst((i128)b->d, w)), a->w); }
        if (b->op == E_I2F && b->exact && intC(a)) { int w = 64; if (b->k0->w <= 64) return mkI2F(mkIte(c, mkConst((i128)a->d, w), mkExt(E_SEXT, b->k0, w)), b->w); }
        if (intC(a) && intC(b)) return mkI2F(mkIte(c, mkConst((i128)a->d, 64), mkConst((i128)b->d, 64)), a->w);
        return mk(E_ITE, a->w, 1, c, a, b); }
    if (a->w > 1 && isC(a) && isC(b)) { if (a->c == 1 && b->c == 0) return mkExt(E_ZEXT, c, a->w); if (a->c == 0 && b->c == 1) return mkExt(E_ZEXT, mkNot(c), a->w); }
    // a<b?a:b style on extensions
    if (a->op == E_SEXT && b->op == E_SEXT && a->k0->w == b->k0->w) return mkExt(E_SEXT, mkIte(c, a->k0, b->k0), a->w);
    // c ? x+k1 : x+k2  ->  x + (c ? k1 : k2)
    if (a->w > 8) { auto base = [](Expr* e, i128& k) { if (e->op == E_ADD && isC(e->k1)) { k = e->k1->c; return e->k0; } k = 0; return e; }; i128 ka, kb; Expr *xa = base(a, ka), *xb = base(b, kb);
        if (xa == xb && !isC(xa)) return mkBin(E_ADD, xa, mkIte(c, mkConst(ka, a->w), mkConst(kb, a->w))); }
    return mk(E_ITE, a->w, 0, c, a, b); }

Expr* mkExt(int op, Expr* a, int w) {
    if (a->w == w) return a;
    if (isC(a)) { if (op == E_ZEXT) return mkConst((i128)uns(a->c, a->w), w); if (op == E_SEXT && a->w == 1) return mkConst(a->c ? -1 : 0, w); return mkConst(a->c, w); }
    if (op == E_SEXT && a->w == 1) return mkIte(a, mkConst(-1, w), mkConst(0, w));
    if (op == E_ZEXT && a->w > 1 && a->lo >= 0) op = E_SEXT;
    if (op == E_SEXT) {
        if (a->op == E_SEXT) return mkExt(E_SEXT, a->k0, w);
        if (a->op == E_ZEXT) return mkExt(E_ZEXT, a->k0, w);
        if (a->op == E_TRUNC && fitsW(a->k0->lo, a->k0->hi, a->w)) return a->k0->w == w ? a->k0 : a->k0->w < w ? mkExt(E_SEXT, a->k0, w) : mkExt(E_TRUNC, a->k0, w);
        if (a->op == E_ITE && isC(a->k1) && isC(a->k2)) return mkIte(a->k0, mkExt(E_SEXT, a->k1, w), mkExt(E_SEXT, a->k2, w)); }
    if (op == E_ZEXT) {
        if (a->op == E_ZEXT) return mkExt(E_ZEXT, a->k0, w);
        if (a->w > 1 && a->op == E_ITE && isC(a->k1) && isC(a->k2)) return mkIte(a->k0, mkExt(E_ZEXT, a->k1, w), mkExt(E_ZEXT, a->k2, w)); }
    if (op == E_TRUNC) {
        if (a->op == E_TRUNC) return mkExt(E_TRUNC, a->k0, w);
        if (a->op == E_SEXT || a->op == E_ZEXT) { Expr* x = a->k0; if (x->w == w) return x; if (x->w > w) return mkExt(E_TRUNC, x, w); if (x->w == 1 && a->op == E_SEXT) return mkExt(E_SEXT, x, w); return mkExt(a->op, x, w); }
        if (a->op == E_ITE) return mkIte(a->k0, mkExt(E_TRUNC, a->k1, w), mkExt(E_TRUNC, a->k2, w));
        if (w == 1) { // parity
            if (a->op == E_XOR) return mkBin(E_XOR, mkExt(E_TRUNC, a->k0, 1), mkExt(E_TRUNC, a->k1, 1));
            if (a->op == E_AND) return mkBin(E_AND, mkExt(E_TRUNC, a->k0, 1), mkExt(E_TRUNC, a->k1, 1));
            if (a->op == E_OR) return mkBin(E_OR, mkExt(E_TRUNC, a->k0, 1), mkExt(E_TRUNC, a->k1, 1)); } }
    return mk(op, w, 0, a); }

// ---------------------------------------------------------------- floating point
static double fop(int op, double a, double b, int w) {
    if (w == 32) { float x = a, y = b; switch (op) { case E_FADD: return x + y; case E_FSUB: return x - y; case E_FMUL: return x * y; case E_FDIV: return x / y; case E_FREM: return fmodf(x, y); } }
    switch (op) { case E_FADD: return a + b; case E_FSUB: return a - b; case E_FMUL: return a * b; case E_FDIV: return a / b; case E_FREM: return std::fmod(a, b); } return 0; }
static bool intConst(Expr* x) { return isFC(x) && std::fabs(x->d) < 4e15 && x->d == std::floor(x->d) && !(x->d == 0 && std::signbit(x->d)); }
static Expr* asInt(Expr* x) { if (x->op == E_I2F && x->exact) return x->k0; if (intConst(x)) return mkConst((i128)x->d, 64); return nullptr; }

// idealised real arithmetic (SX_IDEAL): rounding is ignored, so affine terms of one atom are kept in the form m*atom+k
bool g_ideal = getenv("SX_IDEAL") != nullptr;
struct Aff { Expr* at; double m, k; };
static bool fin(double x) { return std::isfinite(x); }
static Aff aff(Expr* e) {
    if (isFC(e)) return {nullptr, 0, e->d};
    if (e->op == E_FNEG) { Aff r = aff(e->k0); return {r.at, -r.m, -r.k}; }
    if (e->op == E_FADD && isFC(e->k1)) { Aff r = aff(e->k0); return {r.at, r.m, r.k + e->k1->d}; }
    if (e->op == E_FSUB && isFC(e->k1)) { Aff r = aff(e->k0); return {r.at, r.m, r.k - e->k1->d}; }
    if (e->op == E_FMUL && isFC(e->k1)) { Aff r = aff(e->k0); return {r.at, r.m * e->k1->d, r.k * e->k1->d}; }
    return {e, 1, 0}; }
static Expr* unaff(Aff f, int w) {
    if (!f.at || f.m == 0) return mkFConst(f.k, w); Expr* e = f.at; if (f.m != 1) e = mk(E_FMUL, w, 1, f.at, mkFConst(f.m, w)); if (f.k != 0) e = mk(E_FADD, w, 1, e, mkFConst(f.k, w)); return e; }
Expr* mkFBin(int op, Expr* a, Expr* b) {
    int w = a->w;
    if (isFC(a) && isFC(b)) return mkFConst(fop(op, a->d, b->d, w), w);
    if (g_ideal && op != E_FREM && !(isFC(a) && !fin(a->d)) && !(isFC(b) && !fin(b->d))) {
        if (isFC(b) && a->op == E_ITE && op != E_FDIV) return mkIte(a->k0, mkFBin(op, a->k1, b), mkFBin(op, a->k2, b));
        if (isFC(a) && b->op == E_ITE && op != E_FDIV) return mkIte(b->k0, mkFBin(op, a, b->k1), mkFBin(op, a, b->k2));
        if (op == E_FMUL && a == b && a->op == E_FSQRT) return a->k0;
        if (op == E_FMUL && a == b && a->op == E_ITE) return mkIte(a->k0, mkFBin(op, a->k1, a->k1), mkFBin(op, a->k2, a->k2));
        Aff x = aff(a), y = aff(b); auto ok = [&](Aff r) { return fin(r.m) && fin(r.k) && std::fabs(r.m) > 1e-12; };
        if ((op == E_FADD || op == E_FSUB) && (!x.at || !y.at || x.at == y.at)) { double g = op == E_FADD ? 1 : -1; Aff r{x.at ? x.at : y.at, x.m + g * y.m, x.k + g * y.k}; if (std::fabs(r.m) < 1e-12 * (std::fabs(x.m) + std::fabs(y.m))) r.m = 0; if (r.m == 0 || ok(r)) return unaff(r, w); }
        if (op == E_FMUL && (!x.at || !y.at)) { double c = x.at ? y.k : x.k; Aff r = x.at ? x : y; r.m *= c; r.k *= c; if (c == 0 || ok(r)) return unaff(c == 0 ? Aff{nullptr, 0, 0} : r, w); }
        if (op == E_FDIV && !y.at && y.k != 0) { Aff r{x.at, x.m / y.k, x.k / y.k}; if (ok(r)) return unaff(r, w); }
        if (op == E_FDIV && x.at && x.at == y.at && x.k == 0 && y.k == 0) return mkFConst(x.m / y.m, w);
        if (op == E_FMUL && x.at && y.at && x.k == 0 && y.k == 0 && (x.m != 1 || y.m != 1)) { Expr *p = x.at, *q = y.at; if (p->id > q->id) std::swap(p, q); Aff r = p == q && p->op == E_FSQRT ? aff(p->k0) : Aff{mk(E_FMUL, w, 1, p, q), 1, 0}; double c = x.m * y.m; r.m *= c; r.k *= c; if (ok(r)) return unaff(r, w); }
    }
    if ((isFC(a) && !std::isfinite(a->d)) || (isFC(b) && !std::isfinite(b->d))) { // non-finite constants absorb
        double c = isFC(a) && !std::isfinite(a->d) ? a->d : b->d;
        if (std::isnan(c)) return mkFConst(c, w);
        if (op == E_FADD) return mkFConst(c, w); if (op == E_FSUB) return mkFConst(isFC(a) && !std::isfinite(a->d) ? a->d : -b->d, w);
        if (op == E_FDIV && isFC(b) && !std::isfinite(b->d)) return mkFConst(0.0, w); // sign of zero not tracked
        if (op == E_FMUL || op == E_FDIV) { Expr* o = isFC(a) && !std::isfinite(a->d) ? b : a; if (o->flo > 0) return mkFConst(c, w); if (o->fhi < 0) return mkFConst(-c, w); }
        path_unmodelled("arithmetic on infinity with symbolic operand"); }
    if ((op == E_FADD || op == E_FMUL) && (isFC(a) || (!isFC(b) && a->id > b->id))) std::swap(a, b);
    if (isFC(b)) { if ((op == E_FADD || op == E_FSUB) && b->d == 0) return a; if ((op == E_FMUL || op == E_FDIV) && b->d == 1) return a; if (op == E_FMUL && b->d == 0) return mkFConst(0.0, w); if (op == E_FMUL && b->d == -1) return mkFNeg(a); }
    if (isFC(a) && a->d == 0) { if (op == E_FSUB) return mkFNeg(b); if (op == E_FDIV) return mkFConst(0.0, w); }
    if (op == E_FSUB && a == b) return mkFConst(0.0, w);
    if (op == E_FDIV && a == b) return mkFConst(1.0, w);
    Expr *ia = asInt(a), *ib = asInt(b);
    if (ia && ib && (op == E_FADD || op == E_FSUB || op == E_FMUL)) {
        int iop = op == E_FADD ? E_ADD : op == E_FSUB ? E_SUB : E_MUL;
        IV r = ivBin(iop, ia->lo, ia->hi, ib->lo, ib->hi, 64); i128 lim = (i128)1 << (w == 32 ? 24 : 53);
        if (!r.full && r.lo >= -lim && r.hi <= lim) { auto wd = [](Expr* x) { return x->w < 64 ? mkExt(E_SEXT, x, 64) : x->w > 64 ? mkExt(E_TRUNC, x, 64) : x; };
            return mkI2F(mkBin(iop, wd(ia), wd(ib)), w); } }
    if (op == E_FADD && b->op == E_FNEG) return mkFBin(E_FSUB, a, b->k0);
    if (op == E_FADD && a->op == E_FNEG) return mkFBin(E_FSUB, b, a->k0);
    if (op == E_FSUB && b->op == E_FNEG) return mkFBin(E_FADD, a, b->k0);
    return mk(op, w, 1, a, b); }
Expr* mkFNeg(Expr* a) { if (isFC(a)) return mkFConst(-a->d, a->w); if (a->op == E_FNEG) return a->k0;
    if (a->op == E_I2F && a->exact) { Expr* x = a->k0; if (x->w < 64) x = mkExt(E_SEXT, x, 64); return mkI2F(mkBin(E_SUB, mkConst(0, x->w), x), a->w); }
    if (a->op == E_FSUB) return mk(E_FSUB, a->w, 1, a->k1, a->k0);
    return mk(E_FNEG, a->w, 1, a); }
Expr* mkFSqrt(Expr* a) { if (isFC(a)) return mkFConst(a->w == 32 ? sqrtf(a->d) : std::sqrt(a->d), a->w);
    if (g_ideal && a->op == E_ITE) return mkIte(a->k0, mkFSqrt(a->k1), mkFSqrt(a->k2));
    if (g_ideal && a->op == E_FCVT) { Expr* in = mkFSqrt(a->k0); if (in->op != E_FSQRT) return mkFCvt(in, a->w); }
    if (g_ideal) { Aff f = aff(a); if (f.at && f.k == 0 && f.m > 0 && f.at->op == E_FMUL && f.at->k0 == f.at->k1) { Expr* x = f.at->k0; Expr* m = mkFConst(std::sqrt(f.m), a->w); return mkFBin(E_FMUL, mkIte(mkFCmp(E_FLT, x, mkFConst(0, a->w)), mkFNeg(x), x), m); } }
    if (a->op == E_FMUL && a->k0 == a->k1 && a->exact && a->flo > -1e150 && a->fhi < 1e150) return mkIte(mkFCmp(E_FLT, a->k0, mkFConst(0, a->w)), mkFNeg(a->k0), a->k0);
    return mk(E_FSQRT, a->w, 1, a); }
static double rdMode(int m, double x) { switch (m) { case R_TRUNC: return std::trunc(x); case R_FLOOR: return std::floor(x); case R_CEIL: return std::ceil(x); case R_EVEN: return std::nearbyint(x); default: return std::round(x); } }
static i128 d2i(double x, int w) { if (std::isnan(x) || x >= 9.3e18 || x <= -9.3e18) return smin_w(w); return norm((i128)x, w); }
Expr* mkFToI(int mode, Expr* a, int w) {
    if (isFC(a)) return mkConst(d2i(rdMode(mode, a->d), w), w);
    if (a->op == E_I2F && a->exact) { Expr* x = a->k0; return x->w == w ? x : x->w < w ? mkExt(E_SEXT, x, w) : mkExt(E_TRUNC, x, w); }
    if (a->op == E_ITE) { Expr* r = mkIte(a->k0, mkFToI(mode, a->k1, w), mkFToI(mode, a->k2, w)); return r; }
    if (a->op == E_FSQRT && a->w == 64 && a->k0->op == E_I2F && a->k0->exact && a->k0->k0->hi < ((i128)1 << 48)) {
        Expr* n = a->k0->k0; if (n->w < 64) n = mkExt(E_SEXT, n, 64); Expr* r = nullptr;
        if (mode == R_TRUNC || mode == R_FLOOR) r = mk(E_ISQRT, n->w, 0, n, nullptr, nullptr, 0);
        if (mode == R_EVEN || mode == R_AWAY) r = mk(E_ISQRT, n->w, 0, n, nullptr, nullptr, 1);
        if (r) return r->w == w ? r : r->w < w ? mkExt(E_SEXT, r, w) : mkExt(E_TRUNC, r, w); }
    // exact integer quotient
    if (a->op == E_FDIV && a->w == 64) { Expr *x = asInt(a->k0), *y = asInt(a->k1);
        i128 L = (i128)1 << 50;
        if (x && y && x->lo > -L && x->hi < L && y->lo > -L && y->hi < L && (mode == R_TRUNC)) {
            auto wd = [](Expr* x) { return x->w < 64 ? mkExt(E_SEXT, x, 64) : x->w > 64 ? mkExt(E_TRUNC, x, 64) : x; };
            Expr* q = mkBin(E_SDIV, wd(x), wd(y)); return w == 64 ? q : w < 64 ? mkExt(E_TRUNC, q, w) : mkExt(E_SEXT, q, w); } }
    return mk(E_FTOI, w, 0, a, nullptr, nullptr, mode); }
Expr* mkI2F(Expr* a, int w) { if (isC(a)) return mkFConst(w == 32 ? (double)(float)a->c : (double)a->c, w);
    a = stripv(a); if (a->op == E_FTOI && a->k0->w == w && a->k0->dy != DY_NONE && a->k0->dy >= 0) return a->k0;
    return mk(E_I2F, w, 1, a); }
Expr* mkFCvt(Expr* a, int w) { if (a->w == w) return a; if (isFC(a)) return mkFConst(a->d, w);
    if (g_ideal && w == 64 && a->op == E_FCVT && a->k0->w == 64) return a->k0;
    if (a->op == E_I2F && a->exact && (w == 64 || (a->flo >= -16777216 && a->fhi <= 16777216))) return mkI2F(a->k0, w);
    if (w == 32 && a->op == E_FCVT && a->k0->w == 32) return a->k0;
    return mk(E_FCVT, w, 1, a); }
static bool fcmpVal(int op, double a, double b) { return op == E_FEQ ? a == b : op == E_FLT ? a < b : a <= b; }
Expr* mkFCmp(int op, Expr* a, Expr* b) {
    if (isFC(a) && isFC(b)) return mkConst(fcmpVal(op, a->d, b->d), 1);
    if ((isFC(a) && std::isnan(a->d)) || (isFC(b) && std::isnan(b->d))) return mkConst(0, 1);
    if (a == b) return mkConst(op != E_FLT, 1);
    if (op == E_FEQ && (a->fhi < b->flo || b->fhi < a->flo)) return mkConst(0, 1);
    if (op == E_FLT) { if (a->fhi < b->flo) return mkConst(1, 1); if (a->flo >= b->fhi) return mkConst(0, 1); }
    if (op == E_FLE) { if (a->fhi <= b->flo) return mkConst(1, 1); if (a->flo > b->fhi) return mkConst(0, 1); }
    if (isFC(b) && std::isinf(b->d)) { return mkConst(b->d > 0 ? op != E_FEQ : 0, 1); }
    if (isFC(a) && std::isinf(a->d)) { return mkConst(a->d < 0 ? op != E_FEQ : 0, 1); }
    if (a->op == E_FCVT && b->op == E_FCVT && a->w == 64 && a->k0->w == b->k0->w) return mkFCmp(op, a->k0, b->k0);
    Expr *ia = asInt(a), *ib = asInt(b);
    auto w64 = [](Expr* x) { return x->w < 64 ? mkExt(E_SEXT, x, 64) : x; };
    if (ia && ib) { ia = w64(ia); ib = w64(ib); return mkCmp(op == E_FEQ ? E_EQ : op == E_FLT ? E_SLT : E_SLE, ia, ib); }
    if (ia && isFC(b)) { double c = b->d; ia = w64(ia); if (std::fabs(c) < 9e17) { if (op == E_FEQ) return mkConst(0, 1); return op == E_FLT ? mkCmp(E_SLT, ia, mkConst((i128)std::ceil(c), 64)) : mkCmp(E_SLE, ia, mkConst((i128)std::floor(c), 64)); } }
    if (ib && isFC(a)) { double c = a->d; ib = w64(ib); if (std::fabs(c) < 9e17) { if (op == E_FEQ) return mkConst(0, 1); return op == E_FLT ? mkCmp(E_SLT, mkConst((i128)std::floor(c), 64), ib) : mkCmp(E_SLE, mkConst((i128)std::ceil(c), 64), ib); } }
    // sign-preserving operations against zero
    if (isFC(b) && b->d == 0) {
        if (a->op == E_FSQRT) return mkFCmp(op, a->k0, b);
        if (a->op == E_FSUB && a->w == 64) return mkFCmp(op, a->k0, a->k1);   // gradual underflow: x-y==0 iff x==y
        if (a->op == E_FNEG) return mkFCmp(op, mkFConst(0, a->w), a->k0);
        if (a->op == E_ITE) return mkIte(a->k0, mkFCmp(op, a->k1, b), mkFCmp(op, a->k2, b)); }
    if (isFC(a) && a->d == 0) {
        if (b->op == E_FSQRT) return mkFCmp(op, a, b->k0);
        if (b->op == E_FSUB && b->w == 64) return mkFCmp(op, b->k1, b->k0);
        if (b->op == E_FNEG) return mkFCmp(op, b->k0, mkFConst(0, b->w)); 
        if (b->op == E_ITE) return mkIte(b->k0, mkFCmp(op, a, b->k1), mkFCmp(op, a, b->k2)); }
    // sqrt of integers against integer-valued constants: compare squares (gap argument, |values| < 2^23)
    if (a->op == E_FSQRT && a->k0->op == E_I2F && a->k0->exact && a->k0->fhi < 7e13 && intConst(b) && std::fabs(b->d) < 8e6) {
        if (b->d < 0) return mkConst(0, 1); return mkFCmp(op, a->k0, mkFConst(b->d * b->d, a->w)); }
    if (b->op == E_FSQRT && b->k0->op == E_I2F && b->k0->exact && b->k0->fhi < 7e13 && intConst(a) && std::fabs(a->d) < 8e6) {
        if (a->d < 0) return mkConst(op != E_FEQ, 1); return mkFCmp(op, mkFConst(a->d * a->d, a->w), b->k0); }
    if (a->op == E_FSQRT && b->op == E_FSQRT && a->w == 64 && a->k0->dy >= 0 && b->k0->dy >= 0 && a->k0->fhi < 7e13 && b->k0->fhi < 7e13) return mkFCmp(op, a->k0, b->k0);
    if (op == E_FEQ && a->id > b->id) std::swap(a, b);
    return mk(op, 1, 0, a, b); }
static double funVal(int f, double a, double b, int w) {
    if (w == 32) { float x = a, y = b; switch (f) { case F_SIN: return sinf(x); case F_COS: return cosf(x); case F_TAN: return tanf(x); case F_ASIN: return asinf(x); case F_ACOS: return acosf(x); case F_ATAN: return atanf(x); case F_EXP: return expf(x); case F_LOG: return logf(x); case F_LOG2: return log2f(x); case F_LOG10: return log10f(x); case F_CBRT: return cbrtf(x); case F_POW: return powf(x, y); case F_ATAN2: return atan2f(x, y); case F_HYPOT: return hypotf(x, y); } }
    switch (f) { case F_SIN: return sin(a); case F_COS: return cos(a); case F_TAN: return tan(a); case F_ASIN: return asin(a); case F_ACOS: return acos(a); case F_ATAN: return atan(a); case F_EXP: return exp(a); case F_LOG: return log(a); case F_LOG2: return log2(a); case F_LOG10: return log10(a); case F_CBRT: return cbrt(a); case F_POW: return pow(a, b); case F_ATAN2: return atan2(a, b); case F_HYPOT: return hypot(a, b); } return 0; }
Expr* mkFun(int f, Expr* a, Expr* b, int w) {
    if (isFC(a) && (!b || isFC(b))) return mkFConst(funVal(f, a->d, b ? b->d : 0, w), w);
    if (f == F_POW && b && isFC(b)) { if (b->d == 2) return mkFBin(E_FMUL, a, a); if (b->d == 1) return a; if (b->d == 0) return mkFConst(1, w); if (b->d == 0.5) return mkFSqrt(a); }
    return mk(E_FUN, w, 1, a, b, nullptr, f); }

// ---------------------------------------------------------------- evaluation (exact machine semantics)
void evalReset() { g_epoch++; }
i128 evalI(Expr* e) {
    if (e->op == E_CONST) return e->c;
    if (e->epoch == g_epoch) return e->ev;
    i128 r = 0;
    switch (e->op) {
    case E_VAR: r = g_model[e->idx].i; break;
    case E_ADD: case E_SUB: case E_MUL: case E_SDIV: case E_UDIV: case E_SREM: case E_UREM: case E_AND: case E_OR: case E_XOR: case E_SHL: case E_LSHR: case E_ASHR: r = binVal(e->op, evalI(e->k0), evalI(e->k1), e->w); break;
    case E_SEXT: r = evalI(e->k0); break; case E_ZEXT: r = (i128)uns(evalI(e->k0), e->k0->w); break; case E_TRUNC: r = norm(evalI(e->k0), e->w); break;
    case E_EQ: case E_SLT: case E_SLE: r = cmpVal(e->op, evalI(e->k0), evalI(e->k1), 128); break;
    case E_ULT: case E_ULE: r = cmpVal(e->op, evalI(e->k0), evalI(e->k1), e->aux); break;
    case E_NOT: r = !evalI(e->k0); break;
    case E_ITE: r = evalI(e->k0) ? evalI(e->k1) : evalI(e->k2); break;
    case E_FTOI: r = d2i(rdMode(e->aux, evalF(e->k0)), e->w); break;
    case E_ISQRT: { double s = std::sqrt((double)evalI(e->k0)); r = (i128)(e->aux ? std::nearbyint(s) : std::trunc(s)); break; }
    case E_POP: r = __builtin_popcountll((uint64_t)uns(evalI(e->k0), e->w)); break;
    case E_CLZ: { u128 u = uns(evalI(e->k0), e->w); int n = 0; for (int i = e->w - 1; i >= 0 && !((u >> i) & 1); i--) n++; r = n; break; }
    case E_CTZ: { u128 u = uns(evalI(e->k0), e->w); int n = 0; for (int i = 0; i < e->w && !((u >> i) & 1); i++) n++; r = n; break; }
    case E_BSWAP: { u128 u = uns(evalI(e->k0), e->w), v = 0; for (int i = 0; i < e->w; i += 8) { v = (v << 8) | (u & 255); u >>= 8; } r = norm((i128)v, e->w); break; }
    case E_F2BITS: { double d = evalF(e->k0); if (e->w == 32) { float f = d; int32_t b; memcpy(&b, &f, 4); r = b; } else { int64_t b; memcpy(&b, &d, 8); r = b; } break; }
    case E_FEQ: case E_FLT: case E_FLE: r = fcmpVal(e->op, evalF(e->k0), evalF(e->k1)); break;
    default: fprintf(stderr, "evalI op %d\n", e->op); abort(); }
    e->epoch = g_epoch; e->ev = r; return r; }
double evalF(Expr* e) {
    if (e->op == E_FCONST) return e->d;
    if (e->epoch == g_epoch) return e->ed;
    double r = 0;
    switch (e->op) {
    case E_FVAR: r = g_model[e->idx].d; break;
    case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV: case E_FREM: r = fop(e->op, evalF(e->k0), evalF(e->k1), e->w); break;
    case E_FNEG: r = -evalF(e->k0); break; case E_FSQRT: r = e->w == 32 ? sqrtf(evalF(e->k0)) : std::sqrt(evalF(e->k0)); break;
    case E_I2F: r = e->w == 32 ? (double)(float)evalI(e->k0) : (double)evalI(e->k0); break;
    case E_FCVT: r = e->w == 32 ? (double)(float)evalF(e->k0) : evalF(e->k0); break;
    case E_ITE: r = evalI(e->k0) ? evalF(e->k1) : evalF(e->k2); break;
    case E_FUN: r = funVal(e->aux, evalF(e->k0), e->k1 ? evalF(e->k1) : 0, e->w); break;
    case E_BITS2F: { i128 v = evalI(e->k0); if (e->w == 32) { uint32_t b = v; float f; memcpy(&f, &b, 4); r = f; } else { uint64_t b = v; memcpy(&r, &b, 8); } break; }
    default: fprintf(stderr, "evalF op %d\n", e->op); abort(); }
    e->epoch = g_epoch; e->ed = r; return r; }

static std::string i128s(i128 v) { bool n = v < 0; u128 u = n ? -(u128)v : (u128)v; std::string s; do { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; } while (u); return n ? "-" + s : s; }
std::string show(Expr* e, int depth) {
    static const char* names[] = {"const", "var", "+", "-", "*", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr", "sext", "zext", "trunc", "=", "<", "<=", "u<", "u<=", "not", "ite", "ftoi", "isqrt", "pop", "clz", "ctz", "bswap", "f2bits", "fconst", "fvar", "f+", "f-", "f*", "f/", "frem", "fneg", "fsqrt", "i2f", "fcvt", "fun", "bits2f", "f=", "f<", "f<="};
    if (e->op == E_CONST) return i128s(e->c); if (e->op == E_FCONST) { char b[40]; snprintf(b, 40, "%.17g", e->d); return b; }
    if (e->op == E_VAR || e->op == E_FVAR) return "v" + std::to_string(e->idx);
    if (depth == 0) return "..";
    std::string s = std::string("(") + names[e->op]; if (e->op == E_FTOI || e->op == E_FUN) s += std::to_string(e->aux);
    for (Expr* k : {e->k0, e->k1, e->k2}) if (k) s += " " + show(k, depth - 1); return s + ")"; }
Expr* mkRaw(int op, int w, int fp, Expr* a) { return mk(op, w, fp, a); }
