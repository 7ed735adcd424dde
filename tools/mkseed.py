#!/usr/bin/env python3
"""Makes and confirms planted bugs. Usage: mkseed.py SPEC.py [id ...]
SPEC defines seed(id, prop, edits=[(file, old, new)], needs, breaks, demo=C++ text, srcs=[...], stubs=bool)."""
import sys, os, subprocess, json, shutil
V = "/verif"; R = "/repo"; seeds = []
def seed(id, prop, edits, needs, breaks, demo, srcs=(), stubs=False, flags=""): seeds.append(locals() | {})
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2; trap 'rm -rf "$t"' EXIT
defs='-DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DCURA_ENGINE_VERSION="x" -DCURA_ENGINE_HASH="x" -DSENTRY_ENVIRONMENT="" -DNDEBUG'
n=0; objs=""
for f in "$d/demo.cpp" %s; do n=$((n+1)); g++ -std=c++20 -O1 -w $defs %s -I"$d" -I"$d/stubs" -I"$PWD/include" -I/usr/include/stb -ffunction-sections -fdata-sections -c "$f" -o "$t/$n.o" & objs="$objs $t/$n.o"; done; wait
g++ $objs _build/lib_CuraEngine.a -Wl,--gc-sections -Wl,--allow-multiple-definition -lspdlog -lfmt -lpolyclipping -lpng -ltbb -lz -lpthread -o "$t/demo" || exit 2
timeout 100 "$t/demo"
'''
def main():
    exec(open(sys.argv[1]).read(), globals()); want = sys.argv[2:]
    if sh(f"git -C {R} status --porcelain -uno").stdout.strip(): sys.exit("repo dirty")
    for s in seeds:
        if want and s["id"] not in want: continue
        d = f"{V}/seeded/{s['id']}"
        if not want and os.path.exists(d + "/patch.diff"): continue
        os.makedirs(d, exist_ok=True); open(d + "/demo.cpp", "w").write(s["demo"]); open(d + "/demo.sh", "w").write(SH % (" ".join(f'"$PWD/{x}"' for x in s["srcs"]), s["flags"])); os.chmod(d + "/demo.sh", 0o755)
        if s["stubs"]: shutil.copytree(V + "/stubs", d + "/stubs", dirs_exist_ok=True); [shutil.copy(f"{V}/engine/{h}", d) for h in ("app.h",)]; open(d + "/hx.h", "w").write('#pragma once\n#include <spdlog/spdlog.h>\n#include <cstdio>\n#include <cstdlib>\n#include <cmath>\n')
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        bad = None; r0 = sh(f"bash /opt/vp/build.sh && cd {R} && bash {d}/demo.sh")
        if r0.returncode: bad = "demo fails on the unchanged tree: " + r0.stdout[-1500:]
        else:
            try:
                for f, o, n in s["edits"]:
                    t = open(f"{R}/{f}").read()
                    if t.count(o) != 1: bad = f"{f}: {t.count(o)} matches of {o!r}"; break
                    open(f"{R}/{f}", "w").write(t.replace(o, n))
                if not bad:
                    open(d + "/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
                    b = sh("bash /opt/vp/build.sh")
                    if b.returncode: bad = "does not build: " + b.stdout[-1500:]
                    else:
                        t = sh("bash /opt/vp/test.sh /tmp/seed.json"); j = json.load(open("/tmp/seed.json")); base = json.load(open("/opt/vp/BASELINE.json")); base = base["stable"]
                        miss = [x for x in base if x not in j["passed"]]
                        if miss: bad = f"tests fail: {miss[:5]}"
                        else:
                            r1 = sh(f"cd {R} && bash {d}/demo.sh")
                            if r1.returncode == 0: bad = "demo passes with the patch"
                            elif r1.returncode == 2 and "error" in r1.stdout: bad = "demo does not compile with the patch: " + r1.stdout[-800:]
            finally: sh(f"git -C {R} checkout -- .")
        print(s["id"], "BAD " + bad if bad else "ok", flush=True)
        if bad and os.path.exists(d + "/patch.diff"): os.remove(d + "/patch.diff")
    sh("bash /opt/vp/build.sh")
main()
