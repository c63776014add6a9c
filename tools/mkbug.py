#!/usr/bin/env python3
"""dev: mkbug.py SPEC.py -- SPEC defines id, prop, edits=[(file, old, new)], needs, breaks, demo (C++ body or full demo.cc text).
Creates seeded/<id>/ from /repo's HEAD in a scratch clone."""
import sys, os, json, subprocess, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
bugs = ns["bugs"]
R = "/tmp/bw/repo"
if not os.path.isdir(R): subprocess.run("mkdir -p /tmp/bw && cp -a /repo /tmp/bw/repo && rm -rf /tmp/bw/repo/_build", shell=True, check=True)
H = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
subprocess.run(f"cd {R} && git checkout -q -- . && git fetch -q /repo main && git reset -q --hard {H}", shell=True, check=True)
PRE = '''#include "MSTK.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <map>
#include <set>
#include <string>
#include <algorithm>
#define CHECK(c) do { if (!(c)) { printf("line %d: %s does not hold\\n", __LINE__, #c); exit(1); } } while (0)
'''
for b in bugs:
    d = f"/verif/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
    for f, old, new in b["edits"]:
        p = f"{R}/{f}"; s = open(p).read(); n = b.get("nth", {}).get(f)
        if s.count(old) != 1 and not n: sys.exit(f"{b['id']}: {f}: {s.count(old)} occurrences of {old!r}")
        if n:
            i = -1
            for _ in range(n): i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        else: s = s.replace(old, new)
        open(p, "w").write(s)
    diff = subprocess.check_output(["git", "-C", R, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    open(d + "/demo.cc", "w").write((PRE if "#include \"MSTK.h\"" not in b["demo"] else "") + b["demo"].lstrip("\n"))
    t = open("/verif/tools/demo_template.sh").read()
    if b.get("np"): t = t.replace("timeout 120 ./demo", f"timeout 200 mpiexec -n {b['np']} ./demo </dev/null")
    open(d + "/demo.sh", "w").write(t)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("made", b["id"])
