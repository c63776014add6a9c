#!/usr/bin/env python3
"""check.py PROP [quick|thorough]  -- decide one property on /repo's working tree
   check.py PROP replay FILE       -- re-run one recorded failing case
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Anything else: the check itself failed."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import vbuild

MPI_ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1",
               OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_btl="self,vader",
               OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_pml="ob1", OMPI_MCA_plm="isolated")


def main():
    prop = sys.argv[1]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    if not vbuild.build([prop]):
        print("build failed"); return 3
    exe = os.path.join(vbuild.BUILD, "bin", prop)
    env = vbuild.env(); env.update(MPI_ENV)
    env["VERIF_BIN"] = os.path.join(vbuild.BUILD, "bin")
    env["VERIF_REPO"] = vbuild.REPO
    if mode == "replay":
        return subprocess.run([exe, "--replay", os.path.abspath(sys.argv[3])], env=env).returncode
    for t in range(4):
        try: info = json.loads(subprocess.run([exe, "--info"], stdout=subprocess.PIPE, env=env, text=True).stdout); break
        except ValueError: time.sleep(1 + t)
    else:
        print("no answer from %s --info" % exe); return 3
    nw = min(8, os.cpu_count() or 8)
    if info.get("mpi"): nw = max(1, min(nw, info["mpi"]))
    cases = 3 * info["quick"] if mode == "quick" else info["thorough"]
    tlim = float(os.environ.get("VERIF_TIME", "40" if mode == "quick" else "780"))
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    env["TMPDIR"] = scratch
    try:
        procs = []
        def start(w, lim):
            log = open(os.path.join(scratch, "log%d" % w), "w")
            return subprocess.Popen([exe, "--seed", str(seed), "--worker", str(w), "--nworkers", str(nw), "--cases", str(cases),
                         "--time", str(lim), "--out", os.path.join(scratch, "out%d.json" % w), "--maxsize", "60" if mode == "quick" else "100"], stdout=log, stderr=log, env=env, cwd=scratch)
        for w in range(nw): procs.append((os.path.join(scratch, "out%d.json" % w), start(w, tlim)))
        hard = time.time() + tlim + 480
        res = []; bad = None
        for w, (out, p) in enumerate(procs):
            tries = 0
            while True:
                try: p.wait(max(1, hard - time.time()))
                except subprocess.TimeoutExpired: break
                # the MPI library could not start (before any case ran): the environment's fault, try again
                if p.returncode == 0 or os.path.exists(out) or tries == 4 or time.time() > hard: break
                if "MPI_INIT" not in open(os.path.join(scratch, "log%d" % w), errors="replace").read(): break
                tries += 1; time.sleep(tries); p = start(w, max(10, min(tlim, hard - 400 - time.time())))
            if p.poll() is None:
                p.kill(); p.wait(); bad = "worker did not finish"; continue
            try: res.append(json.load(open(out)))
            except Exception as e:
                bad = "worker %s ended with %s (%s)" % (out[-6], p.returncode, e)
                try: sys.stdout.write(open(out.replace("out", "log").replace(".json", "")).read()[-1500:])
                except Exception: pass
        def mpirun(a):
            for t in range(4):
                r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=scratch, errors="replace")
                if r.returncode == 0 or "FAILS kind=" in r.stdout or "MPI_INIT" not in r.stderr: break
                time.sleep(1 + t)
            return r
        # known findings: directed cases, listed in the committed file only
        kf = json.load(open(os.path.join(V, "known_findings.json")))
        viol = []
        kdone = []
        for k in kf["findings"]:
            if k["property"] != prop: continue
            r = mpirun([exe, "--known", k["case"]])
            m = re.search(r"FAILS kind=(.*)", r.stdout)
            if r.returncode == 1 and m:
                if re.search(k.get("kind", "."), m.group(1)):
                    print("KNOWN-FINDING: property=%s %s" % (prop, k["what"])); kdone.append(k["case"])
                else:
                    f = os.path.join(scratch, "known.replay"); open(f, "w").write("# directed case %s\n# %s\n" % (k["case"], r.stdout[:2000].replace("\n", "\n# ")))
                    viol.append((dict(kind=m.group(1), replay=f, draws=0, msg=r.stdout[:1500], directed=k["case"])))
        for d in res:
            if d.get("fail"): viol.append(d["fail"])
        confirmed = None
        for v in sorted(viol, key=lambda x: x["draws"]):
            ok = True
            if not v.get("directed"):
                for _ in range(3):
                    r = mpirun([exe, "--replay", v["replay"]])
                    if r.returncode != 1 or "FAILS kind=" not in r.stdout: ok = False; break
            if ok:
                rd = os.path.join(V, "replays"); os.makedirs(rd, exist_ok=True)
                dst = os.path.join(rd, "%s-seed%d.replay" % (prop, seed)); shutil.copy(v["replay"], dst)
                v["saved"] = dst; confirmed = v; break
        lab = {}; keys = set(); samples = []
        for d in res:
            keys |= set(d["keys"])
            for k, n in d["labels"].items(): lab[k] = lab.get(k, 0) + n
        i = 0
        while len(samples) < 10 and i < 6:
            for d in res:
                if i < len(d["samples"]) and len(samples) < 10: samples.append(d["samples"][i])
            i += 1
        ev = dict(property=prop, tier="thorough" if mode == "thorough" else "quick", seed=seed, level="exploration",
                  coverage=dict(evaluations=sum(d["cases"] for d in res), distinct_nontrivial=len(keys), rule=info["rule"], samples=samples or ["(no case finished)"],
                                classes=lab, inconclusive=sum(d["inconclusive"] for d in res), not_reproducible=sum(d["flaky"] for d in res),
                                workers=nw, known_findings_seen=kdone),
                  assumptions=["oracle and generators in /verif/harness are trusted", "the library is built -O1 with AddressSanitizer and NDEBUG from /repo's working tree"],
                  wall_s=round(time.time() - t0, 2), violations=1 if confirmed else 0)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
        if confirmed:
            print("%s: %s\n%s" % (prop, confirmed["kind"], confirmed["msg"][:1200]))
            print("VIOLATION property=%s replay=%s" % (prop, confirmed["saved"]))
            return 1
        if bad:
            print(bad); return 3
        tot = ev["coverage"]["evaluations"]
        if not tot or ev["coverage"]["inconclusive"] * 2 > tot or (len(keys) == 0):
            print("too few conclusive cases: %s" % ev["coverage"]["evaluations"]); return 4
        print("%s %s: ok, %d cases, %d distinct non-trivial, %.1f s" % (prop, mode, tot, len(keys), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
