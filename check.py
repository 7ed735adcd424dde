#!/usr/bin/env python3
"""Solver-based checks of CuraEngine.  usage: check.py PROPERTY [quick|thorough] | --setup | --replay PROPERTY HARNESS VALUES

For one property: compile its harness and the /repo translation units it exercises with the symbolic-execution pass
(engine/sxpass.cpp), run the executor (engine/rt.cpp, Z3), replay every counterexample on a plain g++ -O2 build of the same
/repo sources, and write evidence/<id>.json.  Exit 0: held within the bounds.  Exit 1 + VIOLATION line: a reproduced
counterexample.  Exit 2: the check itself could not run (for example the harness does not compile)."""
import concurrent.futures as cf, hashlib, json, os, re, shlex, subprocess, sys, time, glob, shutil
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("SX_REPO", "/repo")
CACHE = os.path.join(V, ".cache"); EV = os.path.join(V, "evidence")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CLANG = "clang++-18"; GXX = "g++"
DEFS = ["-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DBUILD_TESTS", '-DCURA_ENGINE_VERSION="5.14.0-alpha.0"', '-DCURA_ENGINE_HASH="unknown"', "-D_DISABLE_CONSTEXPR_MUTEX_CONSTRUCTOR=1", '-DSENTRY_ENVIRONMENT=""', "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"]
LIBS = ["-lspdlog", "-lfmt", "-lpolyclipping", "-lpng", "-ltbb", "-lz", "-ldl", "-lpthread"]
JOBS = int(os.environ.get("SX_JOBS", str(os.cpu_count() or 8)))
os.environ.setdefault("VERIF_SEED", "1")

class Broken(Exception): pass
def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
    return r.returncode, r.stdout
def must(cmd, what):
    rc, out = sh(cmd)
    if rc: raise Broken(f"{what} failed: {' '.join(cmd)}\n{out[-6000:]}")
def hfile(p, memo={}):
    try: st = os.stat(p)
    except OSError: return "none"
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in memo: memo[k] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    return memo[k]
def hstr(s): return hashlib.sha256(s.encode()).hexdigest()[:24]

def compile_obj(cmd, src, extra=""):
    """cmd without -c/-o; the object is reused only if command, tool and every non-system dependency are unchanged"""
    key = hstr("\0".join(cmd) + "\0" + src + "\0" + extra); base = os.path.join(CACHE, key); obj, dep = base + ".o", base + ".deps"
    if os.path.exists(obj) and os.path.exists(dep):
        try:
            if all(hfile(p) == h for p, h in json.load(open(dep))): return obj
        except Exception: pass
    tmp = f"{base}.{os.getpid()}.tmp"
    must(cmd + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"], f"compiling {src}")
    deps = re.sub(r"\\\n", " ", open(tmp + ".d").read()).split(":", 1)[1].split()
    json.dump([[p, hfile(p)] for p in deps], open(tmp + ".deps", "w")); os.remove(tmp + ".d")
    os.replace(tmp + ".o", obj); os.replace(tmp + ".deps", dep)
    return obj

def engine(pool):
    E = os.path.join(V, "engine"); os.makedirs(CACHE, exist_ok=True)
    h = hstr("".join(hfile(os.path.join(E, f)) for f in sorted(os.listdir(E)) if f.endswith((".cpp", ".h"))))
    so = os.path.join(CACHE, f"sxpass-{h}.so")
    def mkso():
        if os.path.exists(so): return
        t = f"{so}.{os.getpid()}"
        must([GXX, "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-I/usr/include/llvm-18", "-I/usr/include/llvm-c-18", os.path.join(E, "sxpass.cpp"), "-o", t], "building the pass"); os.replace(t, so)
    fso = pool.submit(mkso)
    # the runtime gets private copies of every std:: template it uses: it must never run instrumented code
    parts = [pool.submit(compile_obj, [GXX, "-std=c++20", "-O1", "-fPIE", "-D_GLIBCXX_EXTERN_TEMPLATE=0", f"-I{Z3}/include"], os.path.join(E, f)) for f in ("rt.cpp", "expr.cpp", "lower.cpp")]
    def mkrt():
        o = os.path.join(CACHE, f"rt-{h}.o")
        if os.path.exists(o): return o
        ob = [f.result() for f in parts]; t = f"{o}.{os.getpid()}"
        must(["ld", "-r", "--force-group-allocation", *ob, "-o", t], "merging the runtime")
        must(["objcopy", "--wildcard", "-G", "__sx_*", "-G", "sx_*", "-G", "main", "-G", "_Zn*", "-G", "_Zd*", t], "localising the runtime"); os.replace(t, o); return o
    rt = [cf.ThreadPoolExecutor(1).submit(mkrt)]
    nat = pool.submit(compile_obj, [GXX, "-std=c++20", "-O1", "-fPIE"], os.path.join(E, "native.cpp"))
    return so, fso, rt, nat

def parse(pid):
    p = os.path.join(V, "harness", pid + ".cpp"); m = dict(path=p, src=[], run=[], bound=[], assume=[], inc=[], defs=[], mode="", allow=[], note=[])
    for l in open(p):
        k = re.match(r"//@ (\w+): (.*)", l.rstrip())
        if not k: continue
        n, v = k.groups()
        if n == "src": m["src"] += v.split()
        elif n == "run":
            a = v.split(); m["run"].append((a[0], dict(x.split("=") for x in a[1:])))
        elif n in ("bound", "assume", "note"): m[n].append(v)
        elif n in ("inc", "defs", "allow"): m[n] += v.split()
    return m

def source(s):
    """the file to compile for a /repo source (Shape.cpp loses the one function that needs an unavailable library)"""
    p = os.path.join(REPO, s)
    if not os.path.exists(p): raise Broken(f"{s} is not in the repository")
    if s == "src/geometry/Shape.cpp":
        out = os.path.join(CACHE, "cut", "Shape.cpp"); os.makedirs(os.path.dirname(out), exist_ok=True)
        t = out + f".{os.getpid()}"; must([sys.executable, os.path.join(V, "engine", "cut_wagyu.py"), p, t], "cutting Shape.cpp")
        if not os.path.exists(out) or open(out).read() != open(t).read(): os.replace(t, out)
        else: os.remove(t)
        return out
    return p

def find_defs(und, have):
    """repository sources that define the undefined symbols"""
    names = set(); bases = set()
    for u in und:
        vm = re.match(r"^(?:vtable|typeinfo|VTT)(?: name)? for (?:\w+::)*(\w+)", u)
        if vm: bases.add(vm.group(1) + ".cpp")
        u = re.sub(r"\[abi:[^]]*\]", "", u); d = 0; n = ""
        if "operator" in u: m = re.search(r"(?:(\w+)::)?(operator\s*[^\s(]+)\(", u); n = ((m.group(1) + "::") if m and m.group(1) and m.group(1) != "cura" else "") + (m.group(2) if m else "")
        else:
            u = re.sub(r"^(vtable|typeinfo|VTT|guard variable|construction vtable) (name )?for ", "", u)
            for c in u:
                if c == "<": d += 1
                elif c == ">": d -= 1
                elif c == "(" and d == 0: break
                elif d == 0: n += c
            n = n.split()[-1] if n.split() else ""
            n = "::".join(n.split("::")[-2:])
            n = re.sub(r"^cura::", "", n)
        if n: names.add(n)
    out = []; hv = {os.path.basename(f) for f in have}
    for f in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)):
        if os.path.basename(f) in hv: continue
        if os.path.basename(f) in bases: out.append(os.path.relpath(f, REPO)); continue
        t = open(f, errors="replace").read()
        for n in names:
            m = re.search(r"^(?![ \t]*(?://|\*|return\b|#))[^;\n=]*?(?<![\w.>])" + re.escape(n).replace(r"\ ", r"\s*").replace("::", r"(?:<[^<>;]*>)?::") + r"\s*(\([^;]*?\)[^;]*?\{|;|=|\{)", t, re.M | re.S) if "::" in n else re.search(r"^[\w:&<>\*][^;\n(=]*(?<![\w.>:])" + re.escape(n) + r"\s*\([^;{}]*\)[^;{}]*\{", t, re.M)
            if m: out.append(os.path.relpath(f, REPO)); break
    return out

def build(pid, meta, tier, pool, native=True, sym=True):
    so, fso, rt, nat = engine(pool)
    incs = [f"-I{V}/stubs"] if "stubs" in meta["inc"] else []
    incs += [f"-I{V}/engine", f"-I{REPO}/include", "-I/usr/include/stb"] + [x for x in meta["inc"] if x.startswith("-I")]
    defs = DEFS + meta["defs"] + (["-DSX_THOROUGH"] if tier == "thorough" else [])
    files = [meta["path"]] + [source(s) for s in meta["src"]]
    common = ["-std=c++20", "-fPIE", "-ffunction-sections", "-fdata-sections", "-w"]
    ncmd = [GXX, *common, "-O2", *DEFS, *meta["defs"], *incs]
    fn = [pool.submit(compile_obj, ncmd + (["-DSX_THOROUGH"] if i == 0 and tier == "thorough" else []), f) for i, f in enumerate(files)] if native else []
    fs = []
    if sym:
        fso.result()
        scmd = [CLANG, *common, "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-math-errno", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DSX_SYMBOLIC", f"-fpass-plugin={so}", *DEFS, *meta["defs"], *incs]
        fs = [pool.submit(compile_obj, scmd + (["-DSX_THOROUGH"] if i == 0 and tier == "thorough" else []), f) for i, f in enumerate(files + [os.path.join(V, "engine", "models.cpp")])]
    w = os.path.join(CACHE, "bin"); os.makedirs(w, exist_ok=True); exe, rep = os.path.join(w, f"{pid}-{tier}"), os.path.join(w, f"{pid}-{tier}-native")
    def link(objs, tail, out, sy, comp):
        # sources that the linked code turns out to need (for example after a helper moved to another file) are added on demand
        extra = []; have = list(files)
        for rnd in range(8):
            allo = objs + extra + tail; key = hstr("|".join(allo) + "".join(hfile(o) for o in allo)); st = out + ".key"
            if os.path.exists(out) and os.path.exists(st) and open(st).read() == key: return out
            cmd = [GXX, "-pie", *allo, *(["-L" + Z3 + "/lib", "-Wl,-rpath," + Z3 + "/lib", "-lz3"] if sy else []), "-Wl,--gc-sections", "-Wl,--allow-multiple-definition", *LIBS, "-o", out + ".t"]
            rc, o = sh(cmd)
            if rc == 0: os.replace(out + ".t", out); open(st, "w").write(key); return out
            und = set(re.findall(r"undefined reference to `([^']+)'", o)); more = find_defs(und, have)
            if not more: raise Broken(f"linking failed: {o[-3000:]}")
            have += more; extra += [f.result() for f in [pool.submit(comp, source(m)) for m in more]]
        raise Broken("linking failed: missing sources keep appearing")
    def lsym(): return link([f.result() for f in fs], [f.result() for f in rt], exe, True, lambda f: compile_obj(scmd, f))
    def lnat(): return link([f.result() for f in fn], [nat.result()], rep, False, lambda f: compile_obj(ncmd, f))
    return (lsym if sym else None), (lnat if native else None)

def values_file(path, model):
    with open(path, "w") as f:
        for n, t, v in model: f.write(f"{n} {t} {v}\n")
def replay(rep, harness, vf, env=None):
    try: r = subprocess.run([rep, harness, vf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=90, env=env)
    except subprocess.TimeoutExpired: return 1, "HANG: the replay did not finish in 90 s\n"
    rc = r.returncode
    if rc == 3 or rc == 2: return rc, r.stdout
    return (0, r.stdout) if rc == 0 else (1, r.stdout + (f"terminated by signal {-rc}\n" if rc < 0 else ""))

def known(pid):
    out = []; p = os.path.join(V, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)):
            if k["property"] == pid and k.get("status") == "known": out.append(k)
    return out

def main(pid, tier):
    t0 = time.time(); meta = parse(pid); os.makedirs(EV, exist_ok=True)
    pool = cf.ThreadPoolExecutor(JOBS); lsym, lnat = build(pid, meta, tier, pool)
    exe = lsym(); fnat = cf.ThreadPoolExecutor(1).submit(lnat); tb = time.time() - t0
    kn = known(pid); env = dict(os.environ); env["SX_KNOWN"] = ",".join(k["id"] for k in kn); env["SX_JOBS"] = str(JOBS)
    if meta["allow"]: env["SX_ALLOW"] = ",".join(meta["allow"])
    out = os.path.join(CACHE, f"out-{pid}-{tier}.jsonl"); 
    if os.path.exists(out): os.remove(out)
    recs = []; engine_fail = []
    budget_total = 780 if tier == "quick" else 1e9
    for h, o in meta["run"]:
        if tier == "quick" and o.get("tier") == "thorough": continue
        b = float(o.get(tier, o.get("quick", 60))); b = min(b, budget_total - (time.time() - t0))
        if b < 3: engine_fail.append(f"{h}: no time left"); continue
        e2 = dict(env)
        for a, bb in (("tq", "SX_TQ"), ("tl", "SX_TL"), ("modes", "SX_MODES"), ("samples", "SX_SAMPLES"), ("ideal", "SX_IDEAL")):
            if a in o: e2[bb] = o[a]
        if tier == "thorough": e2["SX_TL"] = str(int(o.get("tl", 30000)) * 4); e2["SX_TQ"] = str(int(o.get("tq", 3000)) * 3)
        try: r = subprocess.run([exe, out, str(b), h], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e2, timeout=b + 60)
        except subprocess.TimeoutExpired: engine_fail.append(f"{h}: engine timeout"); continue
        if r.returncode: engine_fail.append(f"{h}: engine exit {r.returncode}: {r.stdout[-300:]}")
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try: recs.append(json.loads(l))
            except Exception: pass
    stats = [r for r in recs if r["t"] == "stats"]
    rep = fnat.result()
    # --- counterexamples: replay on the real build
    viol, spurious, seen = [], [], {}
    for f in glob.glob(os.path.join(EV, f"replay_{pid}_*.txt")): os.remove(f)
    for r in [r for r in recs if r["t"] == "violation"]:
        k = (r["harness"], r["what"])
        if seen.get(k, 0) >= 4 or any(v["k"] == k for v in viol): continue
        seen[k] = seen.get(k, 0) + 1
        vf = os.path.join(EV, f"replay_{pid}_{len(viol) + len(spurious)}.txt"); values_file(vf, r["model"]); rc, o = replay(rep, r["harness"], vf, env)
        if rc == 1: viol.append(dict(k=k, harness=r["harness"], what=r["what"], values=r["model"], replay=vf, output=o[-1500:]))
        else: spurious.append(dict(harness=r["harness"], what=r["what"], values=r["model"], rc=rc, output=o[-300:])); os.remove(vf)
    # --- path models: the encoding and the real code must compute the same observations
    samples = [r for r in recs if r["t"] == "sample"]; validated = disagree = 0; dis = []
    for r in samples:
        if time.time() - t0 > 850 and tier == "quick": break
        vf = os.path.join(CACHE, f"sample-{pid}.txt"); values_file(vf, r["model"]); rc, o = replay(rep, r["harness"], vf, env)
        if rc == 1:
            w = next((l for l in o.splitlines() if l.startswith(("ASSERTION VIOLATED", "CRASHED", "HANG"))), "abnormal end")
            k = (r["harness"], w)
            if not any(v["k"] == k for v in viol):
                p = os.path.join(EV, f"replay_{pid}_{len(viol) + len(spurious)}.txt"); shutil.copy(vf, p); viol.append(dict(k=k, harness=r["harness"], what=w, values=r["model"], replay=p, output=o[-1500:]))
            continue
        tol = 1e-7 if dict(meta["run"]).get(r["harness"], {}).get("ideal") else 0.0
        def feq(x, y): a, b = float.fromhex(x), float.fromhex(y); return a == b or abs(a - b) <= tol * max(1.0, abs(a))
        obs = [l.split()[1:] for l in o.splitlines() if l.startswith("OBS ")]
        same = rc == 0 and len(obs) == len(r["obs"]) and all(a[0] == b[0] and (a[1] == b[1] or ("x" in a[1] and feq(a[1], b[1])) or (a[1] in ("nan", "-nan") and b[1] in ("nan", "-nan"))) for a, b in zip(obs, r["obs"]))
        if same: validated += 1
        else: disagree += 1; dis.append(dict(harness=r["harness"], model=r["model"], engine=r["obs"][:40], native=obs[:40], rc=rc))
    tot = lambda k: sum(s.get(k, 0) for s in stats)
    obl = {}
    for s in stats:
        for w, (n, p, u) in s["obligations"].items(): obl[f"{s['harness']}: {w}"] = dict(checked=n, proved=p, undecided=u)
    unreached = [f"{s['harness']}:{k}" for s in stats for k, v in s["reach"].items() if v == 0] + [f"{s['harness']}: no reachability witness" for s in stats if not s["reach"]]
    notes = [f"{r['t']}: {r['what']}" for r in recs if r["t"] in ("unmodelled", "unknown", "truncated", "error", "external")]
    incomplete = [s["harness"] for s in stats if not s["complete"] or s["unmodelled"] or s["asserts_unknown"]]
    fns = sorted({r["name"] for r in recs if r["t"] == "fn"})
    if fns:
        rc, dm = sh(["c++filt"], input="\n".join(fns)) if shutil.which("c++filt") else (1, "")
        if rc == 0: fns = dm.split("\n")[:len(fns)]
    fns = [f for f in fns if "cura::" in f]
    ev = dict(property=pid, tier=tier, seed=int(os.environ["VERIF_SEED"] or 1), level="model_checking",
        coverage=dict(states=tot("paths"), transitions=tot("branches"), traces_validated_against_impl=validated,
            samples=[dict(harness=r["harness"], inputs={n: v for n, t, v in r["model"]}, observed=r["obs"][:20]) for r in samples[:6]],
            explanation="states = feasible paths of the real code, each standing for every input that follows it; transitions = symbolic branch decisions; traces validated = path models replayed on a g++ -O2 build of the same sources with identical observed outputs",
            obligations=tot("asserts"), discharged=tot("asserts_trivial") + tot("asserts_unsat"), discharged_by_solver=tot("asserts_unsat"), undecided=tot("asserts_unknown"),
            solver=dict(name="Z3 5.x", queries=tot("queries"), sat=tot("sat"), unsat=tot("unsat"), unknown=tot("unknown"), unsat_cache_hits=tot("cache_hits"), sat_by_concrete_search=tot("local_search_sat"), seconds=tot("solver_ms") / 1000.0,
                by_encoding=dict(bitvector=tot("by_bv"), integer=tot("by_int"), int_real=tot("by_realz"), real_relaxation=tot("by_rel"), linear_abstraction=tot("by_abs"))),
            bounds=meta["bound"], exhaustive_within_bounds=not incomplete and not engine_fail, incomplete_harnesses=incomplete, engine_failures=engine_fail,
            paths_cut_by_time_or_memory=tot("truncated") + tot("killed"), paths_not_encodable=tot("unmodelled"), paths_kept_without_verified_model=tot("unverified_branches"),
            per_obligation=obl, reach={f"{s['harness']}:{k}": v for s in stats for k, v in s["reach"].items()}, unreached=unreached,
            functions_encoded=len(fns), function_list=fns[:400], sources=meta["src"], harness_stats=[{k: v for k, v in s.items() if k not in ("obligations", "reach", "t")} for s in stats],
            encoding_disagreements=disagree, disagreement_samples=dis[:3], counterexamples_not_reproduced=spurious[:5], notes=sorted(set(notes))[:60], build_s=round(tb, 1)),
        assumptions=meta["assume"] + ["heap allocation succeeds; IEEE-754 doubles are encoded by enclosing rationals (error-bounded), negative zero is identified with zero", "instrumented code is clang 18 -O1 IR; counterexamples and path models are replayed on g++ -O2"],
        wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    for k in kn: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid} {tier}: paths={tot('paths')} obligations={tot('asserts')} undecided={tot('asserts_unknown')} queries={tot('queries')} solver={tot('solver_ms')/1000:.1f}s validated={validated}/{len(samples)} disagree={disagree} build={tb:.1f}s wall={time.time()-t0:.1f}s" + (f" INCOMPLETE {incomplete}" if incomplete else "") + (f" ENGINE-FAIL {engine_fail}" if engine_fail else "") + (f" unreproduced={len(spurious)}" if spurious else "") + (f" UNREACHED {unreached}" if unreached else ""))
    if os.environ.get("SX_VERBOSE"):
        for s in stats: print("  ", s["harness"], f"paths={s['paths']} asserts={s['asserts']} unk={s['asserts_unknown']} unm={s['unmodelled']} trunc={s['truncated']} kill={s['killed']} unver={s['unverified_branches']} q={s['queries']} solver={s['solver_ms']/1000:.1f} wall={s['wall_s']} {s['reach']}")
        for n in sorted(set(notes))[:40]: print("  note:", n[:400])
        for d in dis[:3]: print("  DISAGREE", json.dumps(d)[:1500])
        for d in spurious[:3]: print("  SPURIOUS", json.dumps(d)[:1500])
    for v in viol:
        print(f"  {v['harness']}: {v['what']}\n    inputs: " + " ".join(f"{n}={float.fromhex(x) if t == 'd' else x}" for n, t, x in v["values"]) + "\n    " + v["output"].strip()[-600:].replace("\n", "\n    "))
    if viol:
        for v in viol: print(f"VIOLATION property={pid} replay={v['replay']}")
        return 1
    if not stats: raise Broken("the executor produced no result: " + "; ".join(engine_fail))
    return 0

if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            p = cf.ThreadPoolExecutor(JOBS); so, fso, rt, nat = engine(p); fso.result(); [f.result() for f in rt]; nat.result(); print("engine built"); sys.exit(0)
        if sys.argv[1] == "--replay":
            m = parse(sys.argv[2]); p = cf.ThreadPoolExecutor(JOBS); _, ln = build(sys.argv[2], m, "quick", p, sym=False); rc, o = replay(ln(), sys.argv[3], sys.argv[4]); print(o); sys.exit(rc)
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except Broken as e:
        print(f"CHECK-ERROR {e}"); sys.exit(2)
