// Runtime of the symbolic executor: shadow memory, path exploration by fork(2), solver dispatch, violation reports.
#include "expr.h"
#include "lower.h"
#include "sx.h"
#include <cstdarg>
#include <atomic>
#include <execinfo.h>
#include <new>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>

extern "C" { void* __sx_args[512]; void* __sx_ret[512]; void* __sx_callee; }
Expr* mkRaw(int op, int w, int fp, Expr* a);

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- shared state
struct Shared {
    std::atomic<long> live, paths, infeasible, truncated, unmodelled, unver, queries, qsat, qunsat, qunknown, spurious, cachehit, fastsat, solver_us, branches, forks;
    std::atomic<long> as_total, as_trivial, as_proved, as_unknown, viol, killed, observed, maxterms;
    std::atomic<long> bymode[M_COUNT];
    std::atomic<int> stop; std::atomic<long> samples;
    sem_t tok;
    struct { char label[64]; std::atomic<long> n; } reach[64];
    struct { char what[120]; std::atomic<long> seen, proved, unknown; } asr[128];
    std::atomic<int> msgs; std::atomic<int> nfn; std::atomic<long> fncount; std::atomic<uint64_t> fn[4096];
};
static Shared* S;
static FILE* g_out; static int g_outfd = -1;
static double g_deadline, g_t0;
static int g_jobs = 8; static unsigned g_tq = 3000, g_tl = 30000; // solver budgets: quick / long (ms)
static long g_maxBranches = 60000; static int g_nsamples = 12;
static bool g_ownToken = false, g_active = false;
static std::string g_hname;
static std::map<std::string, std::pair<void (*)(), std::string>>* g_reg;
static std::set<std::string> g_known; 

static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { r += ' '; } else r += c; } return r; }
static void emit(const std::string& s) { std::string t = s + "\n"; if (g_outfd >= 0) { ssize_t k = write(g_outfd, t.data(), t.size()); (void)k; } }

// ---------------------------------------------------------------- path state
struct VarInfo { std::string name; bool fp; i128 lo, hi; double flo, fhi; };
static std::vector<VarInfo> g_vars; static std::vector<Expr*> g_varE;
static std::vector<Expr*> g_pc; static std::unordered_set<Expr*> g_pcset;
static bool g_haveModel = true; static long g_nb = 0;
static std::vector<std::pair<std::string, Expr*>> g_obs; static std::vector<std::pair<std::string, std::string>> g_obsC;
static std::unordered_map<uint64_t, int> g_qcache;
static std::vector<std::string> g_numstr;

static void finish(int code) { // end of this process' path
    S->live--; if (g_ownToken) sem_post(&S->tok); _exit(code); }
static std::string i128str(i128 v) { bool n = v < 0; u128 u = n ? -(u128)v : (u128)v; std::string s; do { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; } while (u); return n ? "-" + s : s; }
static std::string modelJson() {
    std::string s = "["; for (size_t i = 0; i < g_vars.size(); i++) { if (g_vars[i].name[0] == '~') continue; char b[64]; if (g_vars[i].fp) snprintf(b, 64, "%a", g_model[i].d); 
        s += (s.size() > 1 ? "," : "") + std::string("[\"") + jesc(g_vars[i].name) + "\",\"" + (g_vars[i].fp ? "d" : "i") + "\",\"" + (g_vars[i].fp ? std::string(b) : i128str(g_model[i].i)) + "\"]"; }
    return s + "]"; }
static void note(const char* kind, const std::string& what) { if (S->msgs++ < 60) emit("{\"t\":\"" + std::string(kind) + "\",\"what\":\"" + jesc(what) + "\"}"); }

[[noreturn]] void path_unmodelled(const char* why) { S->unmodelled++; if (getenv("SX_BT")) { void* bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); } note("unmodelled", why); finish(0); abort(); }

// ---------------------------------------------------------------- solving
static bool checkModel(const std::vector<Expr*>& cs) { evalReset(); for (Expr* c : cs) if (!evalI(c)) return false; return true; }
static std::vector<Expr*> slice(Expr* goal) {
    std::vector<Expr*> r; std::set<int> vs(goal->vars->begin(), goal->vars->end()); std::vector<char> used(g_pc.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < g_pc.size(); i++) if (!used[i]) { bool hit = false; for (int v : *g_pc[i]->vars) if (vs.count(v)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; for (int v : *g_pc[i]->vars) vs.insert(v); } } }
    for (size_t i = 0; i < g_pc.size(); i++) if (used[i]) r.push_back(g_pc[i]);
    r.push_back(goal); return r; }

struct Child { pid_t pid; int fd; int mode; std::string buf; };
static Child spawn(const std::vector<Expr*>& cs, std::vector<int> modes, unsigned ms) { // one solver process; several encodings run one after another
    int p[2]; if (pipe(p)) { note("error", std::string("pipe: ") + strerror(errno)); S->truncated++; finish(0); } pid_t pid = fork(); if (pid < 0) { close(p[0]); close(p[1]); note("error", std::string("fork: ") + strerror(errno)); S->truncated++; finish(0); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); close(p[0]);
        signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGFPE, SIG_DFL);
        g_active = false;
        rlimit rl{(rlim_t)6 << 30, (rlim_t)6 << 30}; setrlimit(RLIMIT_AS, &rl);
        std::map<int, Val> out; std::string err; int r = 0, mode = modes[0];
        for (int m : modes) { out.clear(); mode = m; r = solveIn(m, cs, m == M_ABS ? std::min(ms, 250u) : ms, out, err); if (r == -1) break; if (r == 1 && m != M_ABS) break; }
        std::string s = std::to_string(r) + " " + std::to_string(mode) + "\n"; if (r == 1) for (auto& [i, v] : out) { char b[200]; snprintf(b, 200, "%d %s %a\n", i, i128str(v.i).c_str(), v.d); s += b; } else s += err + "\n";
        size_t o = 0; while (o < s.size()) { ssize_t k = write(p[1], s.data() + o, s.size() - o); if (k <= 0) break; o += k; }
        _exit(0); }
    close(p[1]); return {pid, p[0], modes[0], ""}; }

static bool applyModel(const std::string& buf, const std::vector<Expr*>& cs, std::vector<Val>& saved) {
    saved = g_model; size_t pos = buf.find('\n') + 1;
    std::vector<int> fps;
    while (pos < buf.size()) { size_t e = buf.find('\n', pos); std::string l = buf.substr(pos, e - pos); pos = e + 1; char is[100]; double d; int idx; if (sscanf(l.c_str(), "%d %99s %la", &idx, is, &d) != 3) continue;
        bool n = is[0] == '-'; i128 v = 0; for (char* q = is; *q; q++) if (*q >= '0' && *q <= '9') v = v * 10 + (*q - '0'); if (n) v = -v;
        if (idx < (int)g_model.size()) { if (g_vars[idx].fp) { d = std::min(std::max(d, g_vars[idx].flo), g_vars[idx].fhi); fps.push_back(idx); } else v = std::min(std::max(v, g_vars[idx].lo), g_vars[idx].hi); g_model[idx] = {v, d}; } }
    if (checkModel(cs)) return true;
    // floating inputs: the real-valued solution may need nudging onto representable values
    if (!fps.empty()) { std::vector<Val> base = g_model; unsigned seed = 12345;
        for (int t = 0; t < 400; t++) { g_model = base; for (int i : fps) { seed = seed * 1103515245 + 12345; int k = (int)((seed >> 16) % 9) - 4; double d = g_model[i].d; double step = t < 200 ? 0 : std::fabs(d) * std::ldexp(1.0, -(int)(seed % 40) - 5); if (step == 0) for (int j = 0; j < std::abs(k); j++) d = std::nextafter(d, k > 0 ? INFINITY : -INFINITY); else d += k * step;
                g_model[i].d = std::min(std::max(d, g_vars[i].flo), g_vars[i].fhi); }
            if (checkModel(cs)) return true; } }
    g_model = saved; return false; }

static uint64_t g_rng = 88172645463325252ull;
static uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }

// result: 1 sat with a verified model installed in g_model; -1 unsat; 0 undecided (incl. only unverifiable models)
static int solve(Expr* goal, bool isAssert, bool local = true) {
    if (isTrue(goal)) return g_haveModel ? 1 : 0; if (isFalse(goal)) return -1;
    std::vector<Expr*> cs = slice(goal);
    uint64_t key = 1469598103934665603ull; { std::vector<uint32_t> ids; for (auto* e : cs) ids.push_back(e->id); std::sort(ids.begin(), ids.end()); for (auto i : ids) key = (key ^ i) * 1099511628211ull; }
    auto ci = g_qcache.find(key); if (ci != g_qcache.end() && ci->second == -1) { S->cachehit++; return -1; }
    // local search over the free variables of the slice for a model (satisfiable side only)
    std::vector<Val> saved = g_model;
    if (local && g_haveModel && !goal->vars->empty()) {
        const std::vector<int>& vs = *goal->vars; 
        for (int t = 0; t < 24; t++) {
            g_model = saved; int nch = t < 12 ? 1 : 1 + rnd() % 3;
            for (int k = 0; k < nch; k++) { int v = vs[rnd() % vs.size()]; VarInfo& I = g_vars[v];
                if (I.fp) { double r = (rnd() >> 11) * (1.0 / 9007199254740992.0); g_model[v].d = rnd() % 4 == 0 ? I.flo : rnd() % 4 == 0 ? I.fhi : I.flo + r * (I.fhi - I.flo); }
                else { i128 span = I.hi - I.lo + 1; int m = rnd() % 6; if (m == 0) g_model[v].i = I.lo; else if (m == 1) g_model[v].i = I.hi; else if (m == 2 && I.lo <= 0 && I.hi >= 0) g_model[v].i = 0; else if (m == 3) { i128 x = g_model[v].i + (i128)(rnd() % 5) - 2; g_model[v].i = std::min(std::max(x, I.lo), I.hi); } else if (m == 4) { int u = vs[rnd() % vs.size()]; if (!g_vars[u].fp) { i128 x = g_model[u].i; g_model[v].i = std::min(std::max(x, I.lo), I.hi); } } else g_model[v].i = I.lo + (i128)(((u128)rnd()) % (u128)span); } }
            evalReset(); if (!evalI(goal)) continue; bool ok = true; for (Expr* c : cs) if (!evalI(c)) { ok = false; break; }
            if (ok) { S->fastsat++; return 1; } }
        g_model = saved; evalReset(); }
    double t0 = now(); S->queries++;
    bool fpv = false, fpu = false; { std::vector<Expr*> st(cs.begin(), cs.end()); std::unordered_set<Expr*> seen; while (!st.empty()) { Expr* e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (e->fp) { fpu = true; if (e->op == E_FVAR || e->op == E_FUN) fpv = true; } for (Expr* k : {e->k0, e->k1, e->k2}) if (k) st.push_back(k); } long n = seen.size(); long mx = S->maxterms; while (n > mx && !S->maxterms.compare_exchange_weak(mx, n)); }
    int result = 0; bool sawSpurious = false; std::string lasterr;
    auto race = [&](std::vector<std::vector<int>> modes, unsigned ms) {
        std::vector<Child> ch; for (auto& m : modes) ch.push_back(spawn(cs, m, ms)); double end = now() + ms / 1000.0 + 0.6; int open = ch.size(); std::vector<int> un;
        while (open > 0 && result == 0) {
            std::vector<pollfd> pf; std::vector<int> ix; for (size_t i = 0; i < ch.size(); i++) if (ch[i].fd >= 0) { pf.push_back({ch[i].fd, POLLIN, 0}); ix.push_back(i); }
            int to = (int)((end - now()) * 1000); if (to <= 0) break; int k = poll(pf.data(), pf.size(), to); if (k < 0 && errno == EINTR) continue; if (k <= 0) break;
            for (size_t j = 0; j < pf.size() && result == 0; j++) if (pf[j].revents) { Child& c = ch[ix[j]]; char b[4096]; ssize_t n = read(c.fd, b, sizeof b); if (n > 0) { c.buf.append(b, n); continue; }
                close(c.fd); c.fd = -1; open--; int r = 0; if (!c.buf.empty()) sscanf(c.buf.c_str(), "%d %d", &r, &c.mode);
                if (r == -1) { result = -1; S->bymode[c.mode]++; } else if (r == 1) { std::vector<Val> sv; if (applyModel(c.buf, cs, sv)) { result = 1; S->bymode[c.mode]++; } else sawSpurious = true; } else if (r == 2 && c.buf.size() > 2) lasterr = c.buf.substr(2, 80); } }
        for (auto& c : ch) { kill(c.pid, SIGKILL); if (c.fd >= 0) close(c.fd); int st; waitpid(c.pid, &st, 0); } };
    static const bool big = getenv("SX_MODES") != nullptr;
    unsigned ms = isAssert ? g_tl : g_tq; unsigned q1 = std::min(ms, 400u);
    if (big) { std::vector<std::vector<int>> md; for (char* q = getenv("SX_MODES"); *q; q++) md.push_back({*q - '0'}); race(md, ms); }
    else if (fpv) { race({{M_ABS, M_REL}}, q1); if (!result && ms > q1) race({{M_REALZ}, {M_REL}}, ms); }
    else if (fpu) { race({{M_ABS, M_BV}}, q1); if (!result && ms > q1) race({{M_BV}, {M_INT}, {M_REL, M_REALZ}}, ms); }
    else { race({{M_ABS, M_BV}}, q1); if (!result && ms > q1) race({{M_BV}, {M_INT}, {M_REL}}, ms); }
    S->solver_us += (long)((now() - t0) * 1e6);
    if (result == 1) S->qsat++; else if (result == -1) { S->qunsat++; g_qcache[key] = -1; } else { S->qunknown++; if (sawSpurious) S->spurious++; if (getenv("SX_DEBUG")) { std::string d = "undecided query (" + std::to_string(cs.size()) + " constraints, " + lasterr + ")"; for (auto* e : cs) d += " & " + show(e, 9); note("unknown", d); } }
    if (result != 1) { g_model = saved; evalReset(); }
    return result; }

static void refine(Expr* c) { // use simple bounds to tighten intervals for later simplification
    if (c->op == E_AND) { refine(c->k0); refine(c->k1); return; }
    if (c->op == E_SLE && isC(c->k1)) { Expr* x = c->k0; x->rhi = std::min(x->rhi, c->k1->c); if (x->rhi < x->rlo) x->rhi = x->rlo; }
    if (c->op == E_SLE && isC(c->k0)) { Expr* x = c->k1; x->rlo = std::max(x->rlo, c->k0->c); if (x->rhi < x->rlo) x->rlo = x->rhi; }
    if (c->op == E_EQ && isC(c->k1)) { Expr* x = c->k0; if (c->k1->c >= x->rlo && c->k1->c <= x->rhi) x->rlo = x->rhi = c->k1->c; } }
static void addPC(Expr* c) { if (isTrue(c) || !g_pcset.insert(c).second) return;
    if (c->op == E_AND) { addPC(c->k0); addPC(c->k1); return; }
    g_pc.push_back(c); refine(c); }

static void checkStop() { if (S->stop.load(std::memory_order_relaxed)) { finish(0); } if (now() > g_deadline) { S->truncated++; finish(0); } }

// fork: returns true in the child
static bool forkPath() {
    S->forks++; S->live++;
    bool conc = sem_trywait(&S->tok) == 0;
    pid_t pid = fork();
    if (pid < 0) { S->live--; if (conc) sem_post(&S->tok); S->truncated++; note("error", "fork failed"); return false; }
    if (pid == 0) { g_ownToken = conc; g_rng ^= (uint64_t)getpid() * 0x9E3779B97F4A7C15ull; return true; }
    if (!conc) { int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR); if (!WIFEXITED(st)) { S->killed++; } checkStop(); }
    else { int st; while (waitpid(-1, &st, WNOHANG) > 0) if (!WIFEXITED(st)) S->killed++; }
    return false; }

static bool decide(Expr* c) {
    if (isC(c)) return c->c;
    if (g_pcset.count(c)) return true; Expr* nc = mkNot(c); if (g_pcset.count(nc)) return false;
    S->branches++; if (++g_nb > g_maxBranches) { S->truncated++; note("truncated", "branch bound on one path exceeded"); finish(0); }
    if ((g_nb & 63) == 0) checkStop();
    if (g_haveModel) {
        evalReset(); bool s = evalI(c); std::vector<Val> cur = g_model; Expr* other = s ? nc : c;
        int r = solve(other, false);
        if (r == -1) { g_pcset.insert(s ? c : nc); return s; }
        checkStop();
        if (forkPath()) { if (r != 1) { g_haveModel = false; S->unver++; } addPC(other); return !s; }
        g_model = cur; evalReset(); addPC(s ? c : nc); return s; }
    int r1 = solve(c, false, false); std::vector<Val> m1 = g_model; int r2 = solve(nc, false, false);
    if (r1 == -1 && r2 == -1) { S->infeasible++; finish(0); }
    if (r1 == -1) { addPC(nc); if (r2 == 1) { g_haveModel = true; } return false; }
    if (r2 == -1) { addPC(c); if (r1 == 1) { g_model = m1; evalReset(); g_haveModel = true; } return true; }
    // note: a model for the slice only is a full model only if the rest of the path condition is satisfied too
    if (forkPath()) { addPC(nc); g_haveModel = r2 == 1 && checkModel(g_pc); return false; }
    g_model = m1; evalReset(); addPC(c); g_haveModel = r1 == 1 && checkModel(g_pc); return true; }

static void fixModelFlag() { if (g_haveModel && !checkModel(g_pc)) g_haveModel = false; }

static void report(const std::string& what, const char* kind) {
    if (++S->viol >= 24) S->stop = 1; emit("{\"t\":\"violation\",\"kind\":\"" + std::string(kind) + "\",\"harness\":\"" + g_hname + "\",\"what\":\"" + jesc(what) + "\",\"model\":" + modelJson() + "}");
    }
static int asrSlot(const char* what) { for (int i = 0; i < 128; i++) { if (!S->asr[i].what[0]) { strncpy(S->asr[i].what, what, 119); return i; } if (!strncmp(S->asr[i].what, what, 119)) return i; } return 127; }

static i128 concretise(Expr* e) {
    for (;;) {
        if (isC(e)) return e->c;
        if (e->rlo == e->rhi) return e->rlo;
        i128 v;
        if (g_haveModel) { evalReset(); v = evalI(e); }
        else if (e->rhi - e->rlo < 64) { for (i128 k = e->rlo; k < e->rhi; k++) if (decide(mkCmp(E_EQ, e, mkConst(k, e->w)))) return k; return e->rhi; }
        else { int r = solve(mkConst(1, 1), false, false); (void)r; 
            // need some value: ask the solver for a full model of the path condition
            Expr* all = mkConst(1, 1); for (Expr* c : g_pc) all = mkBin(E_AND, all, c); int q = solve(all, true, false);
            if (q == -1) { S->infeasible++; finish(0); } if (q != 1) path_unmodelled("cannot enumerate values of an address/size"); g_haveModel = true; fixModelFlag(); if (!g_haveModel) path_unmodelled("cannot enumerate values of an address/size"); evalReset(); v = evalI(e); }
        Expr* eq = mkCmp(E_EQ, e, mkConst(v, e->w));
        if (decide(eq)) return v; } }

// ---------------------------------------------------------------- shadow memory
struct Page { Expr* e[4096]; uint8_t off[4096]; int live; };
static std::unordered_map<uint64_t, Page*>* g_pages; static uint8_t g_maybe[1 << 16]; static bool g_anysym = false;
static inline bool maybe(uint64_t pg) { return g_anysym && g_maybe[(pg ^ (pg >> 16)) & 0xffff]; }
static Page* page(uint64_t pg, bool create) {
    static uint64_t last = ~0ull; static Page* lp = nullptr; if (pg == last && lp) return lp;
    auto it = g_pages->find(pg); if (it != g_pages->end()) { last = pg; lp = it->second; return lp; }
    if (!create) return nullptr;
    Page* p = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); (*g_pages)[pg] = p; g_maybe[(pg ^ (pg >> 16)) & 0xffff] = 1; g_anysym = true; last = pg; lp = p; return p; }
static inline void setB(uint64_t a, Expr* e, uint8_t o) { Page* p = page(a >> 12, e != nullptr); if (!p) return; int i = a & 4095; if (p->e[i]) p->live--; p->e[i] = e; p->off[i] = o; if (e) p->live++; }
static inline Expr* getB(uint64_t a, uint8_t& o) { if (!maybe(a >> 12)) return nullptr; Page* p = page(a >> 12, false); if (!p) return nullptr; o = p->off[a & 4095]; return p->e[a & 4095]; }
static void clearRange(uint64_t a, uint64_t n) {
    if (!g_anysym || !n) return; uint64_t e = a + n;
    while (a < e) { uint64_t pe = std::min((a | 4095) + 1, e); if (maybe(a >> 12)) if (Page* p = page(a >> 12, false)) if (p->live) for (uint64_t x = a; x < pe; x++) { int i = x & 4095; if (p->e[i]) { p->e[i] = nullptr; p->live--; } } a = pe; } }
static bool bitsTree(Expr* r) { return r->op == E_F2BITS || isC(r) || r->op == E_BITS2F || (r->op == E_ITE && bitsTree(r->k1) && bitsTree(r->k2)); }
static Expr* bitsToF(Expr* r, int w) {
    if (r->op == E_F2BITS) return r->k0;
    if (isC(r)) { if (w == 64) { int64_t b = (int64_t)r->c; double d; memcpy(&d, &b, 8); return mkFConst(d, 64); } int32_t b = (int32_t)r->c; float f; memcpy(&f, &b, 4); return mkFConst(f, 32); }
    if (r->op == E_ITE && bitsTree(r)) return mkIte(r->k0, bitsToF(r->k1, w), bitsToF(r->k2, w));
    return mkRaw(E_BITS2F, w, 1, r); }
static Expr* bytesOf(Expr* e) { return e->fp ? (e->op == E_BITS2F ? e->k0 : mkRaw(E_F2BITS, e->w, 0, e)) : e; }
static Expr* asInt8n(Expr* e) { return e; }
static void storeVal(uint64_t a, int size, Expr* e) {
    if (!e) { clearRange(a, size); return; }
    if (isC(e)) { /* constant expression: keep it, memory holds a placeholder */ }
    if (!e->fp && e->w < size * 8) e = mkExt(E_ZEXT, e, size * 8);
    for (int i = 0; i < size; i++) setB(a + i, e, i); }
static Expr* loadVal(uint64_t a, int size, int kind, int w) {
    if (!maybe(a >> 12) && !maybe((a + size - 1) >> 12)) return nullptr;
    Expr* es[16]; uint8_t of[16]; bool any = false; for (int i = 0; i < size; i++) { es[i] = getB(a + i, of[i]); any |= es[i] != nullptr; }
    if (!any) return nullptr;
    Expr* r = nullptr; bool same = true; for (int i = 1; i < size; i++) if (es[i] != es[0] || of[i] != of[0] + i) same = false;
    if (same && es[0]) { Expr* e = es[0];
        if (of[0] == 0 && e->w == size * 8) r = e;
        else { Expr* b = bytesOf(e); Expr* sh = of[0] ? mkBin(E_LSHR, b, mkConst(of[0] * 8, b->w)) : b; r = sh->w == size * 8 ? sh : mkExt(E_TRUNC, sh, size * 8); } }
    else {
        int n = size * 8; r = mkConst(0, n);
        for (int i = 0; i < size;) {
            if (!es[i]) { r = mkBin(E_OR, r, mkConst((i128)((u128)((uint8_t*)a)[i] << (8 * i)), n)); i++; continue; }
            int j = i + 1; while (j < size && es[j] == es[i] && of[j] == of[i] + (j - i)) j++;
            Expr* b = bytesOf(es[i]); Expr* sh = of[i] ? mkBin(E_LSHR, b, mkConst(of[i] * 8, b->w)) : b; int bits = (j - i) * 8; if (sh->w > bits) sh = mkExt(E_TRUNC, sh, bits); else if (sh->w < bits) sh = mkExt(E_ZEXT, sh, bits);
            Expr* z = mkExt(E_ZEXT, sh, n); if (i) z = mkBin(E_SHL, z, mkConst(8 * i, n)); r = isC(r) && r->c == 0 ? z : mkBin(E_OR, r, z); i = j; } }
    if (kind == 0) { if (r->fp) r = bytesOf(r); if (w < r->w) r = mkExt(E_TRUNC, r, w); }
    else if (!r->fp) { if (isC(r)) { if (kind == 2) { int64_t b = (int64_t)r->c; double d; memcpy(&d, &b, 8); r = mkFConst(d, 64); } else { int32_t b = (int32_t)r->c; float f; memcpy(&f, &b, 4); r = mkFConst(f, 32); } }
        else r = bitsToF(r, w); }
    return r; }

// ---------------------------------------------------------------- hooks called by instrumented code
#define EX(x) ((Expr*)(x))
static Expr* ci(uint64_t v, int w) { return mkConst((i128)(int64_t)v, w); }
static Expr* cd(double d, int w) { return mkFConst(d, w); }
static const int OPM[] = {0, E_ADD, E_SUB, E_MUL, E_SDIV, E_UDIV, E_SREM, E_UREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR};
static Expr* icmpE(int p, Expr* a, Expr* b) { // llvm predicates: EQ 32 NE 33 UGT 34 UGE 35 ULT 36 ULE 37 SGT 38 SGE 39 SLT 40 SLE 41
    switch (p) { case 32: return mkCmp(E_EQ, a, b); case 33: return mkNot(mkCmp(E_EQ, a, b)); case 34: return mkCmp(E_ULT, b, a); case 35: return mkCmp(E_ULE, b, a); case 36: return mkCmp(E_ULT, a, b); case 37: return mkCmp(E_ULE, a, b); case 38: return mkCmp(E_SLT, b, a); case 39: return mkCmp(E_SLE, b, a); case 40: return mkCmp(E_SLT, a, b); default: return mkCmp(E_SLE, a, b); } }
static void* ret(Expr* e) { return e; }
static bool nonneg(Expr* x) { return x->flo >= 0; }

static std::vector<const char*> g_fnames; // functions entered on this path
extern "C" {
void __sx_enter(char* flag, const char* name) { if (*flag || !g_active) return; *flag = 1; { uint64_t h = 1469598103934665603ull; for (const char* q = name; *q; q++) h = (h ^ (uint8_t)*q) * 1099511628211ull;
        // open addressing set of name hashes; only the first to insert prints the name
        for (unsigned k = 0; k < 4096; k++) { auto& sl = S->fn[(h + k) & 4095]; uint64_t z = 0; if (sl.compare_exchange_strong(z, h | 1)) { emit(std::string("{\"t\":\"fn\",\"name\":\"") + name + "\"}"); S->fncount++; break; } if (z == (h | 1)) break; } } }
void* __sx_bin(int op, int w, uint64_t a, void* sa, uint64_t b, void* sb) {
    if (!sa && !sb) return nullptr;
    Expr *x = sa ? EX(sa) : ci(a, w), *y = sb ? EX(sb) : ci(b, w);
    if (x->fp) x = bytesOf(x); if (y->fp) y = bytesOf(y);
    // sign manipulation of float bits (fabs/fneg/copysign lowered to integer ops)
    if (x->op == E_F2BITS && isC(y) && op == O_AND && y->c == smax_w(w)) return ret(bytesOf(mkIte(mkFCmp(E_FLT, x->k0, mkFConst(0, x->k0->w)), mkFNeg(x->k0), x->k0)));
    if (x->op == E_F2BITS && isC(y) && op == O_XOR && y->c == smin_w(w)) return ret(bytesOf(mkFNeg(x->k0)));
    return ret(mkBin(OPM[op], x, y)); }
void* __sx_bin128(int op, int w, uint64_t al, uint64_t ah, void* sa, uint64_t bl, uint64_t bh, void* sb) {
    if (!sa && !sb) return nullptr;
    Expr *x = sa ? EX(sa) : mkConst((i128)(((u128)ah << 64) | al), w), *y = sb ? EX(sb) : mkConst((i128)(((u128)bh << 64) | bl), w);
    return ret(mkBin(OPM[op], x, y)); }
void* __sx_icmp(int p, int w, uint64_t a, void* sa, uint64_t b, void* sb) {
    if (!sa && !sb) return nullptr;
    Expr *x = sa ? EX(sa) : ci(a, w), *y = sb ? EX(sb) : ci(b, w);
    if (x->op == E_F2BITS && isC(y) && y->c == 0 && (p == 40)) return ret(mkFCmp(E_FLT, x->k0, mkFConst(0, x->k0->w)));
    if (x->op == E_F2BITS && isC(y) && y->c == -1 && (p == 38)) return ret(mkNot(mkFCmp(E_FLT, x->k0, mkFConst(0, x->k0->w))));
    return ret(icmpE(p, x, y)); }
void* __sx_icmp128(int p, int w, uint64_t al, uint64_t ah, void* sa, uint64_t bl, uint64_t bh, void* sb) {
    if (!sa && !sb) return nullptr;
    Expr *x = sa ? EX(sa) : mkConst((i128)(((u128)ah << 64) | al), w), *y = sb ? EX(sb) : mkConst((i128)(((u128)bh << 64) | bl), w);
    return ret(icmpE(p, x, y)); }
void* __sx_fbin(int op, int w, double a, void* sa, double b, void* sb) {
    if (!sa && !sb) return nullptr;
    Expr *x = sa ? EX(sa) : cd(a, w), *y = sb ? EX(sb) : cd(b, w);
    switch (op) {
    case F_ADD: return ret(mkFBin(E_FADD, x, y)); case F_SUB: return ret(mkFBin(E_FSUB, x, y)); case F_MUL: return ret(mkFBin(E_FMUL, x, y));
    case F_DIV: case F_REM: {
        if (x == y && !isFC(x) && (x->flo > 0 || x->fhi < 0)) return ret(mkFConst(op == F_DIV ? 1.0 : 0.0, w));
        Expr* z = mkFCmp(E_FEQ, y, mkFConst(0, w));
        if (decide(z)) {
            if (op == F_REM) return ret(mkFConst(NAN, w));
            double zero = isFC(y) ? y->d : 0.0;
            if (decide(mkFCmp(E_FEQ, x, mkFConst(0, w)))) return ret(mkFConst(NAN, w));
            bool neg = decide(mkFCmp(E_FLT, x, mkFConst(0, w))); return ret(mkFConst((neg != (bool)std::signbit(zero)) ? -INFINITY : INFINITY, w)); }
        // a remainder by a constant: fork over the (few) quotients, the difference is exact
        if (op == F_REM && isFC(y) && std::isfinite(y->d) && std::isfinite(x->flo) && std::isfinite(x->fhi)) {
            double m = std::fabs(y->d), t = std::max(std::fabs(x->flo), std::fabs(x->fhi)) / m;
            if (t < 16) { bool neg = x->flo < 0 && decide(mkFCmp(E_FLT, x, mkFConst(0, w))); Expr* a = neg ? mkFNeg(x) : x;
                for (int k = 0; k < 18; k++) { double lo = k * m, hi = (k + 1) * m; if (!g_ideal && std::fma(k + 1.0, m, -hi) != 0) break;
                    if (decide(mkFCmp(E_FLT, a, mkFConst(hi, w)))) { Expr* r = k ? mkFBin(E_FSUB, a, mkFConst(lo, w)) : a; return ret(neg ? mkFNeg(r) : r); } } } }
        return ret(mkFBin(op == F_DIV ? E_FDIV : E_FREM, x, y)); }
    case F_MIN: return ret(mkIte(mkFCmp(E_FLT, y, x), y, x)); case F_MAX: return ret(mkIte(mkFCmp(E_FLT, x, y), y, x));
    case F_COPYSIGN: { Expr* ax = mkIte(mkFCmp(E_FLT, x, mkFConst(0, w)), mkFNeg(x), x); if (isFC(y)) return ret(std::signbit(y->d) ? mkFNeg(ax) : ax); return ret(mkIte(mkFCmp(E_FLT, y, mkFConst(0, w)), mkFNeg(ax), ax)); }
    case F_HYPOT: path_unmodelled("hypot");
    case F_POW: return ret(mkFun(F_POW, x, y, w)); case F_ATAN2: return ret(mkFun(F_ATAN2, x, y, w)); }
    path_unmodelled("fbin"); }
void* __sx_funop(int op, int w, void* s) {
    if (!s) return nullptr; Expr* x = EX(s);
    switch (op) {
    case F_NEG: return ret(mkFNeg(x));
    case F_ABS: return ret(x->flo >= 0 ? x : mkIte(mkFCmp(E_FLT, x, mkFConst(0, w)), mkFNeg(x), x));
    case F_SQRT: if (!nonneg(x) && decide(mkFCmp(E_FLT, x, mkFConst(0, w)))) return ret(mkFConst(NAN, w)); return ret(mkFSqrt(x));
    case F_FLOOR: case F_CEIL: case F_TRUNC: case F_ROUND: case F_RINT: {
        if (isFC(x)) return ret(mkFConst(op == F_FLOOR ? std::floor(x->d) : op == F_CEIL ? std::ceil(x->d) : op == F_TRUNC ? std::trunc(x->d) : op == F_ROUND ? std::round(x->d) : std::nearbyint(x->d), w));
        if (x->dy != DY_NONE && x->dy >= 0) return ret(x);
        if (!(x->flo > -9e15 && x->fhi < 9e15)) path_unmodelled("rounding of unbounded value");
        return ret(mkI2F(mkFToI(op == F_FLOOR ? R_FLOOR : op == F_CEIL ? R_CEIL : op == F_TRUNC ? R_TRUNC : op == F_ROUND ? R_AWAY : R_EVEN, x, 64), w)); }
    case F_ACOS: case F_ASIN: if (decide(mkFCmp(E_FLT, mkFConst(1, w), x))) return ret(mkFConst(NAN, w)); if (decide(mkFCmp(E_FLT, x, mkFConst(-1, w)))) return ret(mkFConst(NAN, w)); return ret(mkFun(op, x, nullptr, w));
    default: return ret(mkFun(op, x, nullptr, w)); } }
void* __sx_cast(int op, int sw, int dw, void* s) {
    if (!s) return nullptr; Expr* x = EX(s);
    switch (op) {
    case CI_TRUNC: if (x->fp) x = bytesOf(x); return ret(mkExt(E_TRUNC, x, dw)); case CI_ZEXT: return ret(mkExt(E_ZEXT, x, dw)); case CI_SEXT: return ret(mkExt(E_SEXT, x, dw));
    case CI_FPTOSI: return ret(mkFToI(R_TRUNC, x, dw)); 
    case CI_FPTOUI: { Expr* t = mkFToI(R_TRUNC, x, std::max(dw, 64)); if (dw < 64) t = mkExt(E_TRUNC, t, dw); return ret(t); }
    case CI_LROUND: return ret(mkFToI(R_AWAY, x, dw)); case CI_LRINT: return ret(mkFToI(R_EVEN, x, dw));
    case CI_SITOFP: if (x->w == 1) x = mkExt(E_SEXT, x, 64); return ret(mkI2F(x, dw)); case CI_UITOFP: if (x->w == 1) x = mkExt(E_ZEXT, x, 64); else if (x->lo < 0 && x->rlo < 0) x = mkExt(E_ZEXT, x, 128); return ret(mkI2F(x, dw));
    case CI_FPEXT: case CI_FPTRUNC: return ret(mkFCvt(x, dw));
    case CI_F2BITS: return ret(bytesOf(x)); case CI_BITS2F: return ret(bitsToF(x, dw));
    case CI_POP: return ret(isC(x) ? mkConst(__builtin_popcountll((uint64_t)uns(x->c, sw)), sw) : mkRaw(E_POP, sw, 0, x)); case CI_CLZ: if (isC(x)) break; return ret(mkRaw(E_CLZ, sw, 0, x)); case CI_CTZ: if (isC(x)) break; return ret(mkRaw(E_CTZ, sw, 0, x)); case CI_BSWAP: return ret(mkRaw(E_BSWAP, sw, 0, x)); }
    path_unmodelled("cast"); }
void* __sx_fcmp(int p, int w, double a, void* sa, double b, void* sb) {
    if (!sa && !sb) return nullptr;
    Expr *x = sa ? EX(sa) : cd(a, w), *y = sb ? EX(sb) : cd(b, w);
    bool nan = (isFC(x) && std::isnan(x->d)) || (isFC(y) && std::isnan(y->d));
    // llvm: FALSE 0 OEQ 1 OGT 2 OGE 3 OLT 4 OLE 5 ONE 6 ORD 7 UNO 8 UEQ 9 UGT 10 UGE 11 ULT 12 ULE 13 UNE 14 TRUE 15
    if (nan) return ret(mkConst(p >= 8, 1));
    switch (p & 7) { case 0: return ret(mkConst(p >= 8 ? (p == 8 ? 0 : 1) : 0, 1)); case 7: return ret(mkConst(1, 1)); default: break; }
    switch (p) { case 1: case 9: return ret(mkFCmp(E_FEQ, x, y)); case 2: case 10: return ret(mkFCmp(E_FLT, y, x)); case 3: case 11: return ret(mkFCmp(E_FLE, y, x)); case 4: case 12: return ret(mkFCmp(E_FLT, x, y)); case 5: case 13: return ret(mkFCmp(E_FLE, x, y)); case 6: case 14: return ret(mkNot(mkFCmp(E_FEQ, x, y))); }
    return nullptr; }
void* __sx_fpclass(void* s, int mask) { // finite, non-nan symbolic values
    Expr* x = EX(s); if (isFC(x)) { double d = x->d; int m = std::isnan(d) ? 3 : std::isinf(d) ? (d < 0 ? 4 : 0x200) : d == 0 ? (std::signbit(d) ? 0x20 : 0x40) : d < 0 ? 8 : 0x100; return ret(mkConst((mask & m) != 0, 1)); }
    Expr* z = mkFConst(0, x->w); Expr* r = mkConst(0, 1); Expr* isz = mkFCmp(E_FEQ, x, z); if (mask & 0x60) r = mkBin(E_OR, r, isz); if (mask & 0x18) r = mkBin(E_OR, r, mkFCmp(E_FLT, x, z)); if (mask & 0x180) r = mkBin(E_OR, r, mkFCmp(E_FLT, z, x)); return ret(r); }
void* __sx_select(int c, void* sc, int kind, int w, uint64_t a, void* sa, uint64_t b, void* sb) {
    if (!sc) return c ? sa : sb;
    if (!sa && !sb && a == b) return nullptr;
    Expr *x, *y;
    if (kind == 0) { x = sa ? EX(sa) : ci(a, w); y = sb ? EX(sb) : ci(b, w); if (x->fp) x = bytesOf(x); if (y->fp) y = bytesOf(y); }
    else { double da, db; if (kind == 2) { memcpy(&da, &a, 8); memcpy(&db, &b, 8); } else { float f; memcpy(&f, &a, 4); da = f; memcpy(&f, &b, 4); db = f; } x = sa ? EX(sa) : cd(da, w); y = sb ? EX(sb) : cd(db, w);
        auto fin = [](Expr* e) { return !isFC(e) || std::isfinite(e->d); };
        if (!fin(x) || !fin(y)) return ret(decide(EX(sc)) ? x : y); }
    return ret(mkIte(EX(sc), x, y)); }
int __sx_branch(int c, void* sc) { if (!sc) return c; return decide(EX(sc)); }
uint64_t __sx_switch(uint64_t v, void* s, int w, int64_t* cases, int n) {
    if (!s) return v; Expr* x = EX(s); if (isC(x)) return (uint64_t)x->c;
    for (int i = 0; i < n; i++) if (decide(mkCmp(E_EQ, x, mkConst(cases[i], w)))) return (uint64_t)cases[i];
    for (uint64_t k = 0;; k++) { bool used = false; for (int i = 0; i < n; i++) used |= norm(cases[i], w) == norm((i128)k, w); if (!used || k > 100000) return k; } }
uint64_t __sx_conc(uint64_t v, void* s, int kind) { if (!s) return v; if (EX(s)->fp) { Expr* e = EX(s); if (isFC(e)) { uint64_t b; if (e->w == 64) memcpy(&b, &e->d, 8); else { float f = e->d; uint32_t c; memcpy(&c, &f, 4); b = c; } return b; } path_unmodelled("concretise floating value"); } return (uint64_t)concretise(EX(s)); }
void* __sx_addr(void* p, void* s) { if (!s) return p; return (void*)(uint64_t)concretise(EX(s)); }
static bool leaves(Expr* e, int& n) { if (isC(e)) return ++n <= 16; if (e->op == E_ITE && !e->fp) return leaves(e->k1, n) && leaves(e->k2, n); return false; }
static Expr* normPtr(Expr* e) { // push constant offsets into ITE trees of constant addresses
    if (e->op == E_ADD && isC(e->k1)) { Expr* b = normPtr(e->k0); int n = 0; if (b->op == E_ITE && leaves(b, n)) { struct R { static Expr* go(Expr* x, Expr* k) { return isC(x) ? mkBin(E_ADD, x, k) : mkIte(x->k0, go(x->k1, k), go(x->k2, k)); } }; return R::go(b, e->k1); } }
    return e; }
void* __sx_addr_load(void* p, void* s) { if (!s) return p; Expr* e = normPtr(EX(s)); int n = 0; if (e->op == E_ITE && leaves(e, n)) { Expr* x = e; while (!isC(x)) { // pick a leaf that is mapped: feasible under the current model if there is one
                if (g_haveModel) { evalReset(); x = evalI(x->k0) ? x->k1 : x->k2; } else return (void*)(uint64_t)concretise(e); } return (void*)(uint64_t)x->c; } return (void*)(uint64_t)concretise(e); }
static Expr* constAt(uint64_t a, int size, int kind, int w) { if (kind == 2) { double d; memcpy(&d, (void*)a, 8); return mkFConst(d, 64); } if (kind == 1) { float f; memcpy(&f, (void*)a, 4); return mkFConst(f, 32); } uint64_t v = 0; memcpy(&v, (void*)a, std::min(size, 8)); return mkConst((i128)(int64_t)v, w); }
static Expr* loadTree(Expr* e, int size, int kind, int w) {
    if (isC(e)) { Expr* r = loadVal((uint64_t)e->c, size, kind, w); return r ? r : constAt((uint64_t)e->c, size, kind, w); }
    // infeasible alternatives may be unmapped: only load where the condition can hold
    if (decide(e->k0)) return loadTree(e->k1, size, kind, w); return loadTree(e->k2, size, kind, w); }
static bool mapped(Expr* e) { if (isC(e)) { uint64_t a = (uint64_t)e->c; return a > 4096 && msync((void*)(a & ~4095ull), 1, MS_ASYNC) == 0; } return mapped(e->k1) && mapped(e->k2); }
static Expr* loadTreeM(Expr* e, int size, int kind, int w) { if (isC(e)) { Expr* r = loadVal((uint64_t)e->c, size, kind, w); return r ? r : constAt((uint64_t)e->c, size, kind, w); } Expr *x = loadTreeM(e->k1, size, kind, w), *y = loadTreeM(e->k2, size, kind, w); 
    if (x->fp && ((isFC(x) && !std::isfinite(x->d)) || (isFC(y) && !std::isfinite(y->d)))) return decide(e->k0) ? x : y;
    return mkIte(e->k0, x, y); }
void* __sx_load(void* p, void* sp, int size, int kind, int w) {
    if (sp) { Expr* e = normPtr(EX(sp)); int n = 0; if (!isC(e) && e->op == E_ITE && leaves(e, n)) { Expr* r = mapped(e) ? loadTreeM(e, size, kind, w) : loadTree(e, size, kind, w); return ret(r); } }
    return loadVal((uint64_t)p, size, kind, w); }
void __sx_store(void* p, int size, void* s) { if (!s && !g_anysym) return; storeVal((uint64_t)p, size, EX(s)); }
void __sx_clear(void* p, uint64_t n) { clearRange((uint64_t)p, n); }
void __sx_memcpy(void* d, void* s, uint64_t n) {
    if (!g_anysym || d == s) return; uint64_t a = (uint64_t)s, b = (uint64_t)d; bool any = false; for (uint64_t x = a >> 12; x <= (a + n - 1) >> 12 && n; x++) if (maybe(x)) { Page* p = page(x, false); if (p && p->live) any = true; }
    if (!any) { clearRange(b, n); return; }
    if (b <= a || b >= a + n) for (uint64_t i = 0; i < n; i++) { uint8_t o = 0; Expr* e = getB(a + i, o); setB(b + i, e, o); }
    else for (uint64_t i = n; i-- > 0;) { uint8_t o = 0; Expr* e = getB(a + i, o); setB(b + i, e, o); } }
void __sx_memset(void* d, void* sv, uint64_t n) { if (!sv) { clearRange((uint64_t)d, n); return; } Expr* e = EX(sv); if (e->w != 8) e = mkExt(E_TRUNC, e, 8); for (uint64_t i = 0; i < n; i++) setB((uint64_t)d + i, e, 0); }
void __sx_byval(void* d, void* src, uint64_t n) { if (!src) { clearRange((uint64_t)d, n); return; } __sx_memcpy(d, src, n); }
void __sx_divcheck(void* s) { Expr* x = EX(s); if (!x) return; if (decide(mkCmp(E_EQ, x, mkConst(0, x->w)))) { fixModelFlag(); if (g_haveModel) report("integer division by zero", "crash"); else { S->as_unknown++; note("unknown", "possible division by zero (no verified model)"); } S->paths++; finish(0); } }
void* __sx_ovf(int op, int sg, int w, uint64_t a, void* sa, uint64_t b, void* sb) {
    if (!sa && !sb) return nullptr; Expr *x = sa ? EX(sa) : ci(a, w), *y = sb ? EX(sb) : ci(b, w); int e = sg ? E_SEXT : E_ZEXT; int W = std::min(128, 2 * w + 2);
    Expr* r = mkBin(OPM[op], mkExt(e, x, W), mkExt(e, y, W)); i128 lo = sg ? smin_w(w) : 0, hi = sg ? smax_w(w) : (i128)(((u128)1 << w) - 1);
    return ret(mkNot(mkBin(E_AND, mkCmp(E_SLE, mkConst(lo, W), r), mkCmp(E_SLE, r, mkConst(hi, W))))); }
void* __sx_fsh(int left, int w, uint64_t a, void* sa, uint64_t b, void* sb, uint64_t amt) { if (!sa && !sb) return nullptr; Expr *x = sa ? EX(sa) : ci(a, w), *y = sb ? EX(sb) : ci(b, w); int k = amt % w; if (!left) k = k ? w - k : 0; if (!left && k == 0) return ret(y); if (k == 0) return ret(x);
    return ret(mkBin(E_OR, mkBin(E_SHL, x, mkConst(k, w)), mkBin(E_LSHR, y, mkConst(w - k, w)))); }
void __sx_unsupported(void* s, const char* what) { if (s && g_active) path_unmodelled(what); }
void __sx_atomic(void* p, int size) { Expr* e = loadVal((uint64_t)p, size, 0, size * 8); if (e && !isC(e)) { i128 v = concretise(e); memcpy(p, &v, size); } clearRange((uint64_t)p, size); }

// ---------------------------------------------------------------- calls to code outside the instrumented set
extern char __executable_start, etext;
static std::unordered_map<void*, int>* g_ext;
static const char* const ALLOW[] = {"_Znw", "_Zna", "_Zdl", "_Zda", "__cxa_", "_Unwind", "__gxx", "_ZSt", "_ZNSt", "_ZNKSt", "_ZNSi", "_ZNSo", "_ZTv", "_ZN6spdlog", "_ZNK6spdlog", "_ZN3fmt", "_ZNK3fmt", "pthread_", "malloc", "free", "calloc", "realloc", "abort", "__assert", "exit", "atexit", "clock", "gettimeofday", "time", "getenv", "__errno", "fopen", "fclose", "fputs", "fflush", "puts", "printf", "fprintf", "__libc", "syscall", "sysconf", "sched_", "getpid", "posix_memalign", "aligned_alloc", "__tls", "_ZdlPv", "__dynamic_cast", "tolower", "toupper", "isdigit", "btowc", "wctob", "strcoll", "strxfrm", "_ZN3tbb", "_ZNK3tbb", nullptr};
// library code that would read numbers out of memory without the engine seeing it
static const char* const DENY[] = {"_ZSt11_Hash_bytes", "_ZSt15_Fnv_hash_bytes", "_ZN10ClipperLib", "_ZNK10ClipperLib", "_ZNSo9_M_insert", "_ZNSolsE", "vsnprintf", "snprintf", "sprintf", "_ZNSi10_M_extract", nullptr};
static std::vector<std::string> g_allowExtra;
int __sx_callcheck(void* f) {
    if ((char*)f >= &__executable_start && (char*)f < &etext) return 0;
    if (!g_active) return 1;
    auto it = g_ext->find(f); if (it == g_ext->end()) {
        Dl_info di; int v = 2; std::string n = "?"; if (dladdr(f, &di)) { if (di.dli_sname) n = di.dli_sname; else if (di.dli_fname) { n = std::string("? in ") + di.dli_fname; if (strstr(di.dli_fname, "libstdc++")) v = 1; } }
        auto pre = [&](const char* const* l) { for (int i = 0; l[i]; i++) if (n.compare(0, strlen(l[i]), l[i]) == 0) return true; return false; };
        if (pre(DENY)) v = 3; else if (pre(ALLOW)) v = 1; for (auto& a : g_allowExtra) if (n.compare(0, a.size(), a) == 0) v = 1;
        if (v >= 2) { static char buf[300]; snprintf(buf, 300, "external call %s", n.c_str()); if (v == 2) note("external", n); }
        it = g_ext->emplace(f, v).first; if (v >= 2 && g_anysym) { std::string m = "external call without model: " + n; path_unmodelled(m.c_str()); } }
    else if (it->second >= 2 && g_anysym) { Dl_info di; std::string n = "?"; if (dladdr(f, &di) && di.dli_sname) n = di.dli_sname; std::string m = "external call without model: " + n; path_unmodelled(m.c_str()); }
    return 1; }
uint64_t __sx_arg(uint64_t v, void* s, int kind, int ext) { if (!ext || !s) return v; return __sx_conc(v, s, kind); }

// ---------------------------------------------------------------- models of C library functions
static Expr* byteAt(const void* p) { uint8_t o = 0; Expr* e = getB((uint64_t)p, o); if (!e) return nullptr; return loadVal((uint64_t)p, 1, 0, 8); }
static int cbyte(const char* p) { Expr* e = byteAt(p); if (!e) return (unsigned char)*p; return (int)(unsigned char)(uint64_t)concretise(e); }
static bool byteIs(const char* p, int c) { Expr* e = byteAt(p); if (!e) return (unsigned char)*p == (unsigned char)c; return decide(mkCmp(E_EQ, e, mkConst((signed char)c, 8))); }
int __sx_x_memcmp(const void* a, const void* b, size_t n) { __sx_ret[0] = nullptr; for (size_t i = 0; i < n; i++) { int x = cbyte((const char*)a + i), y = cbyte((const char*)b + i); if (x != y) return x - y; } return 0; }
int __sx_x_bcmp(const void* a, const void* b, size_t n) { 
    __sx_ret[0] = nullptr; for (size_t i = 0; i < n; i++) { const char *p = (const char*)a + i, *q = (const char*)b + i; Expr *x = byteAt(p), *y = byteAt(q); if (!x && !y) { if (*p != *q) return 1; continue; }
        if (!decide(mkCmp(E_EQ, x ? x : mkConst(*p, 8), y ? y : mkConst(*q, 8)))) return 1; } return 0; }
size_t __sx_x_strlen(const char* s) { __sx_ret[0] = nullptr; size_t n = 0; while (!byteIs(s + n, 0)) n++; return n; }
void* __sx_x_memchr(const void* s, int c, size_t n) { __sx_ret[0] = nullptr; for (size_t i = 0; i < n; i++) if (byteIs((const char*)s + i, c)) return (char*)s + i; return nullptr; }
char* __sx_x_strchr(const char* s, int c) { __sx_ret[0] = nullptr; for (;; s++) { if (byteIs(s, (unsigned char)c)) return (char*)s; if (byteIs(s, 0)) return nullptr; } }
int __sx_x_strcmp(const char* a, const char* b) { __sx_ret[0] = nullptr; for (;; a++, b++) { int x = cbyte(a), y = cbyte(b); if (x != y) return x - y; if (!x) return 0; } }
int __sx_x_strncmp(const char* a, const char* b, size_t n) { __sx_ret[0] = nullptr; for (; n; n--, a++, b++) { int x = cbyte(a), y = cbyte(b); if (x != y) return x - y; if (!x) return 0; } return 0; }
void* __sx_x_memcpy(void* d, const void* s, size_t n) { __sx_memcpy(d, (void*)s, n); memcpy(d, s, n); __sx_ret[0] = nullptr; return d; }
void* __sx_x_memmove(void* d, const void* s, size_t n) { __sx_memcpy(d, (void*)s, n); memmove(d, s, n); __sx_ret[0] = nullptr; return d; }
void* __sx_x_memset(void* d, int c, size_t n) { clearRange((uint64_t)d, n); memset(d, c, n); __sx_ret[0] = nullptr; return d; }
static std::vector<Expr*> g_strnum;
// a symbolic number travels through text as "@sx" + nine letters (no digits, so text surgery such as stripping zeros leaves it alone; a '.' may be inserted)
static void tokText(char* b) { size_t n = g_strnum.size() - 1; strcpy(b, "@sx"); for (int i = 8; i >= 0; i--) { b[3 + i] = 'a' + n % 10; n /= 10; } b[12] = 0; }
static Expr* strNum(const char* s, bool* dot = nullptr, int* len = nullptr) { const char* s0 = s; while (*s == 0x20 || (*s >= 9 && *s <= 13)) s++; if (strncmp(s, "@sx", 3)) return nullptr; size_t n = 0; int k = 0, i = 3; for (; k < 9; i++) { if (s[i] == '.') { if (dot) *dot = true; continue; } if (s[i] < 'a' || s[i] > 'j') return nullptr; n = n * 10 + (s[i] - 'a'); k++; } if (len) *len = i + (int)(s - s0); return n < g_strnum.size() ? g_strnum[n] : nullptr; }
double __sx_x_atof(const char* s) { if (Expr* e = strNum(s)) { __sx_ret[0] = e; return 0; } __sx_ret[0] = nullptr; return atof(s); }
double __sx_x_strtod(const char* s, char** end) { int len = 0; if (Expr* e = strNum(s, nullptr, &len)) { if (end) *end = (char*)s + len; __sx_ret[0] = e; return 0; } __sx_ret[0] = nullptr; return strtod(s, end); }
static Expr* asI(Expr* e, int w) { return e->fp ? mkFToI(R_TRUNC, e, w) : e; }
int __sx_x_atoi(const char* s) { if (Expr* e = strNum(s)) { __sx_ret[0] = asI(e, 32); return 0; } __sx_ret[0] = nullptr; return atoi(s); }
long __sx_x_strtol(const char* s, char** end, int b) { int len = 0; if (Expr* e = strNum(s, nullptr, &len)) { if (end) *end = (char*)s + len; __sx_ret[0] = asI(e, 64); return 0; } __sx_ret[0] = nullptr; return strtol(s, end, b); }
unsigned long __sx_x_strtoul(const char* s, char** end, int b) { int len = 0; if (Expr* e = strNum(s, nullptr, &len)) { if (end) *end = (char*)s + len; __sx_ret[0] = asI(e, 64); return 0; } __sx_ret[0] = nullptr; return strtoul(s, end, b); }
unsigned long long __sx_x_strtoull(const char* s, char** end, int b) { return __sx_x_strtoul(s, end, b); }
long __sx_x___isoc23_strtol(const char* s, char** end, int b) { return __sx_x_strtol(s, end, b); }
long __sx_x___isoc23_strtoll(const char* s, char** end, int b) { return __sx_x_strtol(s, end, b); }
long __sx_x___isoc23_strtoimax(const char* s, char** end, int b) { return __sx_x_strtol(s, end, b); }
unsigned long __sx_x___isoc23_strtoul(const char* s, char** end, int b) { return __sx_x_strtoul(s, end, b); }
unsigned long __sx_x___isoc23_strtoull(const char* s, char** end, int b) { return __sx_x_strtoul(s, end, b); }
unsigned long __sx_x___isoc23_strtoumax(const char* s, char** end, int b) { return __sx_x_strtoul(s, end, b); }
long __sx_x_strtoimax(const char* s, char** end, int b) { return __sx_x_strtol(s, end, b); }
unsigned long __sx_x_strtoumax(const char* s, char** end, int b) { return __sx_x_strtoul(s, end, b); }
size_t __sx_x__ZSt11_Hash_bytesPKvmm(const void* p, size_t n, size_t seed) { __sx_ret[0] = nullptr; std::string t(n, 0); for (size_t i = 0; i < n; i++) t[i] = (char)cbyte((const char*)p + i); return std::_Hash_bytes(t.data(), n, seed); }
long long __sx_x_strtoll(const char* s, char** end, int b) { return __sx_x_strtol(s, end, b); }
const char* sx_numstr(double v) { Expr* e = __sx_callee == (void*)sx_numstr ? EX(__sx_args[0]) : nullptr; __sx_ret[0] = nullptr; __sx_callee = nullptr;
    char b[64]; if (!e) { snprintf(b, 64, "%.17g", v); } else { g_strnum.push_back(e); tokText(b); } char* r = strdup(b); clearRange((uint64_t)r, strlen(b) + 1); return r; }

// text of numbers: an opaque token that reads back as the same term, or (digit mode) symbolic characters
static bool g_digits = false;
static Expr* argE(void* self, int i);
static std::string g_txt; static std::vector<Expr*> g_txtE; // text with, per character, null or an 8-bit term
static void tput(char c, Expr* e = nullptr) { g_txt += c; g_txtE.push_back(e); }
static void tputs(const char* s) { for (; *s; s++) tput(*s); }
static void tdigits(Expr* m, int mindigits) { // m >= 0
    int n = 1; if (isC(m)) { std::string s; i128 v = m->c; do { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } while (v); while ((int)s.size() < mindigits) s.insert(s.begin(), '0'); tputs(s.c_str()); return; }
    i128 p10 = 10; for (; n < 19; n++, p10 *= 10) if (n >= mindigits && decide(mkCmp(E_SLT, m, mkConst(p10, 64)))) break;
    // the digits are fresh bounded integers tied to the value by one linear equation
    if (g_haveModel) evalReset(); i128 mv = g_haveModel ? evalI(m) : 0; std::vector<Expr*> ds; Expr* sum = nullptr; i128 q = 1;
    for (int k = 0; k < n; k++, q *= 10) { i128 dv = (mv / q) % 10; int idx = g_vars.size(); bool lead = k == n - 1 && n > mindigits; g_vars.push_back({"~digit", false, lead ? 1 : 0, 9, 0, 0}); g_model.push_back({dv, (double)dv}); Expr* d = mkVar(idx, 64, lead ? 1 : 0, 9); g_varE.push_back(d); ds.push_back(d); Expr* t = q == 1 ? d : mkBin(E_MUL, d, mkConst(q, 64)); sum = sum ? mkBin(E_ADD, sum, t) : t; }
    addPC(mkCmp(E_EQ, m, sum)); evalReset(); fixModelFlag();
    for (int k = n - 1; k >= 0; k--) tput('0', mkExt(E_TRUNC, mkBin(E_ADD, ds[k], mkConst('0', 64)), 8)); }
static void tint(Expr* e) { if (e->w < 64) e = mkExt(E_SEXT, e, 64); if (decide(mkCmp(E_SLT, e, mkConst(0, 64)))) { tput('-'); e = mkBin(E_SUB, mkConst(0, 64), e); } tdigits(e, 1); }
static void tdbl(Expr* v, int prec) { i128 p = 1; for (int i = 0; i < prec; i++) p *= 10; Expr* z = mkFConst(0, 64); if (decide(mkFCmp(E_FLT, v, z))) { tput('-'); v = mkFBin(E_FSUB, z, v); }
    Expr* n = mkFToI(R_EVEN, mkFBin(E_FMUL, v, mkFConst((double)p, 64)), 64); if (prec == 0) { tdigits(n, 1); return; }
    size_t at = g_txt.size(); tdigits(n, prec + 1); at = g_txt.size() - prec; g_txt.insert(g_txt.begin() + at, '.'); g_txtE.insert(g_txtE.begin() + at, nullptr); }
static void ttoken(Expr* e) { g_strnum.push_back(e); char b[64]; tokText(b); tputs(b); }
static const char* tdone() { char* r = (char*)malloc(g_txt.size() + 1); memcpy(r, g_txt.c_str(), g_txt.size() + 1); clearRange((uint64_t)r, g_txt.size() + 1); for (size_t i = 0; i < g_txt.size(); i++) if (g_txtE[i]) setB((uint64_t)r + i, g_txtE[i], 0); g_anysym = true; return r; }
static void tbegin() { g_txt.clear(); g_txtE.clear(); }
extern "C" {
void sx_digits(int on) { __sx_callee = nullptr; g_digits = on; }
const char* sx_fmt_i(int64_t v, int uns) { Expr* e = argE((void*)sx_fmt_i, 0); __sx_callee = nullptr; __sx_ret[0] = nullptr; tbegin(); if (e && !isC(e)) { if (g_digits) tint(e); else ttoken(e); } else { if (e) v = (int64_t)e->c; char b[64]; snprintf(b, 64, uns ? "%lu" : "%ld", v); tputs(b); } return tdone(); }
const char* sx_fmt_d(double v, int prec, int fixed) { Expr* e = argE((void*)sx_fmt_d, 0); __sx_callee = nullptr; __sx_ret[0] = nullptr; tbegin(); if (e && !isFC(e)) { if (g_digits && fixed) tdbl(e, prec); else ttoken(e); } else { if (e) v = e->d; char b[500]; snprintf(b, 500, fixed ? "%.*f" : "%.*g", prec, v); tputs(b); } return tdone(); }
double sx_num(const char* s, const char** end) { __sx_callee = nullptr; __sx_ret[0] = nullptr; bool dot = false; int len = 0; if (Expr* e = strNum(s, &dot, &len)) { if (end) *end = s + len; if (!e->fp) { if (e->w < 64) e = mkExt(E_SEXT, e, 64); e = mkI2F(e, 64); } if (dot) e = mkFBin(E_FDIV, e, mkFConst(1000, 64)); __sx_ret[0] = e; return 0; } char* x; double d = strtod(s, &x); if (end) *end = x; return d; }
int64_t sx_mm(const char* s, const char** end) { __sx_callee = nullptr; __sx_ret[0] = nullptr; bool dot = false; int len = 0; if (Expr* e = strNum(s, &dot, &len)) { if (e->fp || !dot) path_unmodelled("coordinate printed in another format"); if (end) *end = s + len; if (e->w < 64) e = mkExt(E_SEXT, e, 64); __sx_ret[0] = e; return 0; } char* x; double d = strtod(s, &x); if (end) *end = x; return llround(d * 1000); }
int sx_r_snprintf(char* buf, size_t n, const char* fmt, ...) {
    Expr* a = argE((void*)sx_r_snprintf, 3); int nspec = 0; for (const char* q = fmt; *q; q++) if (*q == '%') { if (q[1] == '%') q++; else nspec++; } bool more = nspec > 1 && argE((void*)sx_r_snprintf, 4) != nullptr; __sx_callee = nullptr; __sx_ret[0] = nullptr;
    va_list ap; va_start(ap, fmt); int r;
    if (!a || isC(a) || isFC(a)) { if (more) path_unmodelled("snprintf with several symbolic arguments"); r = vsnprintf(buf, n, fmt, ap); clearRange((uint64_t)buf, std::min<size_t>(n, r + 1)); va_end(ap); return r; }
    va_end(ap); tbegin(); const char* q = fmt; while (*q && *q != '%') tput(*q++);
    if (*q == '%') { q++; int prec = -1; if (*q == '.') { prec = 0; q++; while (*q >= '0' && *q <= '9') prec = prec * 10 + *q++ - '0'; } while (*q == 'l' || *q == 'z') q++;
        if (*q == 'd' || *q == 'u' || *q == 'i') { if (g_digits) tint(a); else ttoken(a); } else if (*q == 'f' || *q == 'F') { if (g_digits) tdbl(a, prec < 0 ? 6 : prec); else ttoken(a); } else if (*q == 'g') ttoken(a); else path_unmodelled("snprintf format");
        q++; while (*q && *q != '%') tput(*q++); if (*q) path_unmodelled("snprintf format"); }
    r = (int)g_txt.size(); for (size_t i = 0; i < n; i++) { bool z = i >= g_txt.size() || i == n - 1; buf[i] = z ? 0 : g_txt[i]; setB((uint64_t)buf + i, z ? nullptr : g_txtE[i], 0); if (z) break; } g_anysym = true; return r; }
}

// ---------------------------------------------------------------- harness API
static Expr* argE(void* self, int i) { return __sx_callee == self ? EX(__sx_args[i]) : nullptr; }
int64_t sx_int(const char* name, int64_t lo, int64_t hi) {
    Expr *el = argE((void*)sx_int, 1), *eh = argE((void*)sx_int, 2); __sx_callee = nullptr; if ((el && !isC(el)) || (eh && !isC(eh))) path_unmodelled("symbolic bounds in sx_int"); if (el) lo = (int64_t)el->c; if (eh) hi = (int64_t)eh->c;
    if (lo == hi) { __sx_ret[0] = nullptr; int idx = g_vars.size(); g_vars.push_back({name, false, lo, hi, 0, 0}); g_model.push_back({lo, (double)lo}); g_varE.push_back(nullptr); (void)idx; return lo; }
    int idx = g_vars.size(); g_vars.push_back({name, false, lo, hi, 0, 0}); i128 v = lo <= 0 && hi >= 0 ? 0 : lo; v = lo + (i128)(rnd() % (uint64_t)std::min<i128>((i128)hi - lo + 1, (i128)1 << 62)); g_model.push_back({v, (double)v}); Expr* e = mkVar(idx, 64, lo, hi); g_varE.push_back(e); __sx_ret[0] = e; return lo; }
double sx_double(const char* name, double lo, double hi) {
    __sx_callee = nullptr; int idx = g_vars.size(); g_vars.push_back({name, true, 0, 0, lo, hi}); double v = lo + (hi - lo) * ((rnd() >> 11) * (1.0 / 9007199254740992.0)); g_model.push_back({0, v}); Expr* e = mkFVar(idx, lo, hi); g_varE.push_back(e); __sx_ret[0] = e; return lo; }
void sx_assume(bool c) {
    Expr* e = argE((void*)sx_assume, 0); __sx_callee = nullptr; if (e && e->w != 1) e = mkNot(mkCmp(E_EQ, e, mkConst(0, e->w))); if (!e) { if (!c) { S->infeasible++; finish(0); } return; }
    if (isC(e)) { if (!e->c) { S->infeasible++; finish(0); } return; }
    if (g_pcset.count(e)) return;
    if (g_haveModel) { evalReset(); if (evalI(e)) { addPC(e); return; } }
    int r = solve(e, true); if (r == -1) { S->infeasible++; finish(0); } addPC(e); g_haveModel = r == 1; if (r == 1) fixModelFlag(); if (!g_haveModel) S->unver++; }
void sx_assert(bool c, const char* what) {
    Expr* e = argE((void*)sx_assert, 0); __sx_callee = nullptr; S->as_total++; int k = asrSlot(what); S->asr[k].seen++;
    if (e && e->w != 1) e = mkNot(mkCmp(E_EQ, e, mkConst(0, e->w)));
    if (!e || isC(e)) { bool v = e ? (bool)e->c : c; if (v) { S->as_trivial++; S->asr[k].proved++; return; }
        // concretely false on this path: need a model of the path condition
        if (!g_haveModel) { Expr* all = mkConst(1, 1); for (Expr* q : g_pc) all = mkBin(E_AND, all, q); int r = solve(all, true, false); if (r == -1) { S->infeasible++; finish(0); } if (r == 1) { g_haveModel = true; fixModelFlag(); } }
        if (g_haveModel) report(what, "assert"); else { S->as_unknown++; S->asr[k].unknown++; note("unknown", std::string("assertion false on a path without verified model: ") + what); }
        S->paths++; finish(0); }
    if (g_pcset.count(e)) { S->as_trivial++; S->asr[k].proved++; return; }
    Expr* n = mkNot(e);
    if (g_haveModel) { evalReset(); if (!evalI(e)) { report(what, "assert"); S->paths++; finish(0); } }
    std::vector<Val> cur = g_model; int r = solve(n, true);
    if (r == -1) { S->as_proved++; S->asr[k].proved++; g_pcset.insert(e); return; }
    if (r == 1) { bool ok = true; if (!g_haveModel) ok = checkModel(g_pc); if (ok) { report(what, "assert"); } else { S->as_unknown++; S->asr[k].unknown++; } g_model = cur; evalReset(); addPC(e); return; }
    S->as_unknown++; S->asr[k].unknown++; note("unknown", std::string("assertion undecided: ") + what); addPC(e); }
void sx_observe(const char* name, int64_t v) { Expr* e = argE((void*)sx_observe, 1); __sx_callee = nullptr; if (e) g_obs.push_back({name, e}); else g_obs.push_back({name, mkConst(v, 64)}); }
void sx_observe_d(const char* name, double v) { Expr* e = argE((void*)sx_observe_d, 1); __sx_callee = nullptr; if (e) g_obs.push_back({name, e}); else g_obs.push_back({name, mkFConst(v, 64)}); }
void sx_reach(const char* label) { __sx_callee = nullptr; fixModelFlag(); if (!g_haveModel) return; for (int i = 0; i < 64; i++) { if (!S->reach[i].label[0]) strncpy(S->reach[i].label, label, 63); if (!strncmp(S->reach[i].label, label, 63)) { S->reach[i].n++; return; } } }
int64_t sx_concrete(int64_t v) { Expr* e = argE((void*)sx_concrete, 0); __sx_callee = nullptr; __sx_ret[0] = nullptr; if (!e) return v; return (int64_t)concretise(e); }
int sx_is_symbolic() { __sx_ret[0] = nullptr; __sx_callee = nullptr; return 1; }
void sx_register(const char* n, void (*f)(), const char* d) { __sx_callee = nullptr; if (!g_reg) g_reg = new std::map<std::string, std::pair<void (*)(), std::string>>; (*g_reg)[n] = {f, d}; }
int sx_known(const char* id) { __sx_ret[0] = nullptr; __sx_callee = nullptr; return g_known.count(id); }
void sx_print(const char* s) { __sx_callee = nullptr; fprintf(stderr, "%s\n", s); }
} // extern C

// heap: forget shadows of recycled memory
void* operator new(size_t n) { void* p = malloc(n); if (!p) throw std::bad_alloc(); if (g_anysym && g_active) clearRange((uint64_t)p, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

static void pathEnd() {
    fixModelFlag(); S->paths++;
    if (g_haveModel && S->samples++ < g_nsamples) { evalReset(); std::string o = "["; for (size_t i = 0; i < g_obs.size(); i++) { char b[64]; Expr* e = g_obs[i].second; if (e->fp) { snprintf(b, 64, "%a", evalF(e)); } else snprintf(b, 64, "%s", i128str(evalI(e)).c_str()); o += (i ? "," : "") + std::string("[\"") + jesc(g_obs[i].first) + "\",\"" + b + "\"]"; } o += "]";
        emit("{\"t\":\"sample\",\"harness\":\"" + g_hname + "\",\"model\":" + modelJson() + ",\"obs\":" + o + "}"); }
    finish(0); }

static void crash(int sig) {
    if (!g_active) _exit(99);
    g_active = false; if (getenv("SX_DEBUG")) { void* bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); } fixModelFlag(); char b[100]; snprintf(b, 100, "signal %d (%s)", sig, strsignal(sig));
    if (g_haveModel) report(b, "crash"); else { S->as_unknown++; note("unknown", std::string("crash without verified model: ") + b); }
    S->paths++; finish(0); }

static void dumpStats(const std::string& h, const std::string& d, double wall, bool complete) {
    std::string s = "{\"t\":\"stats\",\"harness\":\"" + h + "\",\"desc\":\"" + jesc(d) + "\",\"complete\":" + (complete ? "true" : "false");
    auto f = [&](const char* k, long v) { s += std::string(",\"") + k + "\":" + std::to_string(v); };
    f("paths", S->paths); f("infeasible", S->infeasible); f("truncated", S->truncated); f("unmodelled", S->unmodelled); f("unverified_branches", S->unver); f("branches", S->branches); f("forks", S->forks);
    f("queries", S->queries); f("sat", S->qsat); f("unsat", S->qunsat); f("unknown", S->qunknown); f("spurious", S->spurious); f("cache_hits", S->cachehit); f("local_search_sat", S->fastsat); f("solver_ms", S->solver_us / 1000);
    f("asserts", S->as_total); f("asserts_trivial", S->as_trivial); f("asserts_unsat", S->as_proved); f("asserts_unknown", S->as_unknown); f("violations", S->viol); f("killed", S->killed); f("live", S->live); f("max_terms", S->maxterms); f("stopped", S->stop);
    f("functions", S->fncount); f("by_bv", S->bymode[0]); f("by_int", S->bymode[1]); f("by_realz", S->bymode[2]); f("by_rel", S->bymode[3]); f("by_abs", S->bymode[4]);
    char b[40]; snprintf(b, 40, "%.2f", wall); s += std::string(",\"wall_s\":") + b;
    s += ",\"reach\":{"; bool first = true; for (auto& r : S->reach) if (r.label[0]) { s += (first ? "" : ",") + std::string("\"") + jesc(r.label) + "\":" + std::to_string(r.n); first = false; }
    s += "},\"obligations\":{"; first = true; for (auto& a : S->asr) if (a.what[0]) { s += (first ? "" : ",") + std::string("\"") + jesc(a.what) + "\":[" + std::to_string(a.seen) + "," + std::to_string(a.proved) + "," + std::to_string(a.unknown) + "]"; first = false; }
    s += "}}"; emit(s); }

int main(int argc, char** argv) {
    rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (512u << 20) && !getenv("SX_REEXEC")) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, (rlim_t)1 << 30); setrlimit(RLIMIT_STACK, &rl); setenv("SX_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    if (!g_reg) { fprintf(stderr, "no harness\n"); return 3; }
    if (argc < 3) { for (auto& [n, p] : *g_reg) printf("%s\n", n.c_str()); return 0; }
    g_outfd = open(argv[1], O_WRONLY | O_CREAT | O_APPEND, 0644); double budget = atof(argv[2]);
    if (getenv("SX_JOBS")) g_jobs = atoi(getenv("SX_JOBS")); if (getenv("SX_TQ")) g_tq = atoi(getenv("SX_TQ")); if (getenv("SX_TL")) g_tl = atoi(getenv("SX_TL")); if (getenv("SX_SAMPLES")) g_nsamples = atoi(getenv("SX_SAMPLES"));
    uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1; g_rng ^= seed * 0x9E3779B97F4A7C15ull; rnd(); rnd();
    if (const char* k = getenv("SX_KNOWN")) { std::string s = k; size_t p = 0; while (p <= s.size()) { size_t e = s.find(',', p); if (e == std::string::npos) e = s.size(); if (e > p) g_known.insert(s.substr(p, e - p)); p = e + 1; } }
    if (const char* k = getenv("SX_ALLOW")) { std::string s = k; size_t p = 0; while (p <= s.size()) { size_t e = s.find(',', p); if (e == std::string::npos) e = s.size(); if (e > p) g_allowExtra.push_back(s.substr(p, e - p)); p = e + 1; } }
    g_pages = new std::unordered_map<uint64_t, Page*>; g_ext = new std::unordered_map<void*, int>;
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<std::string> names; for (int i = 3; i < argc; i++) names.push_back(argv[i]); if (names.empty()) for (auto& [n, p] : *g_reg) names.push_back(n);
    static char altst[1 << 20]; stack_t ss{altst, 0, sizeof altst};
    for (auto& n : names) {
        if (!g_reg->count(n)) { fprintf(stderr, "no harness %s\n", n.c_str()); return 3; }
        memset((void*)S, 0, sizeof(Shared)); sem_init(&S->tok, 1, g_jobs - 1); S->live = 1; g_hname = n; g_t0 = now(); g_deadline = g_t0 + budget;
        int alive[2]; if (pipe(alive)) return 3;
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0); close(alive[0]); sigaltstack(&ss, nullptr); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK; for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(sg, &sa, nullptr);
            g_active = true; g_ownToken = false; __sx_callee = nullptr; (*g_reg)[n].first(); pathEnd(); _exit(0); }
        setpgid(pid, pid); close(alive[1]); bool complete = true;
        for (;;) { pollfd pf{alive[0], POLLIN, 0}; int k = poll(&pf, 1, 200); int st = 0; if (waitpid(-1, &st, WNOHANG) > 0 && WIFSIGNALED(st)) S->killed++; if (k > 0) break; if (now() > g_deadline + 8) { kill(-pid, SIGKILL); complete = false; break; } }
        close(alive[0]); { int st = 0; pid_t q; while ((q = waitpid(-1, &st, WNOHANG)) > 0) if (WIFSIGNALED(st) && complete) S->killed++; kill(-pid, SIGKILL); }
        if (S->live != 0 || S->truncated || S->killed || S->stop) complete = false;
        dumpStats(n, (*g_reg)[n].second, now() - g_t0, complete); }
    return 0; }
