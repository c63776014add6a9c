#!/usr/bin/env python3
"""Build libmstk (with AddressSanitizer) from /repo's working tree plus the
harness of one property.  Everything goes to /verif/build (git-ignored)."""
import glob, os, re, shutil, subprocess, sys, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SUBDIRS = ["base", "hilev", "io", "misc", "util", "mod", "par"]

LIBDEFS = ["-DENABLE_ExodusII", "-D_MSTK_HAVE_METIS", "-DMETIS_5", "-D_MSTK_HAVE_ZOLTAN", "-DNDEBUG"]
LIBS = ("-lexoIIv2c -lnetcdf -lmetis -ltrilinos_zoltan -lm").split()
SAN = "-fsanitize=address -fno-omit-frame-pointer"
MPI_INC = None


def env():
    e = dict(os.environ)
    e.update(OMPI_CC="/usr/bin/gcc", OMPI_CXX="/usr/bin/g++", LC_ALL="C.UTF-8")
    for k in ("LD_PRELOAD", "CFLAGS", "CXXFLAGS", "LDFLAGS", "MAKEFLAGS"):
        e.pop(k, None)
    return e


def write_if_changed(path, data):
    if os.path.exists(path) and open(path).read() == data:
        return
    open(path, "w").write(data)


def headers():
    inc = os.path.join(BUILD, "include")
    os.makedirs(inc, exist_ok=True)
    want = set()
    for h in glob.glob(os.path.join(REPO, "include", "*.h")):
        b = os.path.basename(h)
        want.add(b)
        data = open(h).read()
        if b == "MSTK_defines.h":
            cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
            for part in ("MAJOR", "MINOR", "PATCH"):
                v = re.search(r"set\(MSTK_VERSION_%s\s+(\d+)\)" % part, cm)
                data = data.replace("@MSTK_VERSION_%s@" % part, v.group(1) if v else "0")
            data = data.replace("#cmakedefine MSTK_HAVE_MPI", "#define MSTK_HAVE_MPI")
        write_if_changed(os.path.join(inc, b), data)
    for h in glob.glob(os.path.join(inc, "*.h")):
        if os.path.basename(h) not in want:
            os.remove(h)
    return inc


TOOLS = {"C33"}   # harnesses that call the command-line tools


def tools_objects(w):
    """Each tool as one object whose only global symbol is NAME_main (its renamed main)."""
    w("rule tcc\n command = mpicc -std=gnu99 -O1 -g1 -w %s %s -I%s -Dmain=$main -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc" % (SAN, " ".join(LIBDEFS), os.path.join(BUILD, "include")))
    w("rule tcxx\n command = mpicxx -std=c++17 -O1 -g1 -w %s %s -I%s -Dmain=$main -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc" % (SAN, " ".join(LIBDEFS), os.path.join(BUILD, "include")))
    w("rule one\n command = ld -r -o $out.tmp $in && objcopy --keep-global-symbol=$main $out.tmp $out && rm -f $out.tmp")
    t = []
    for name in ("meshconvert", "chkmesh", "mkstruc", "exoatt", "tet2hex", "tri2quad"):
        src = sorted(glob.glob(os.path.join(REPO, "utils", name, "src", "*.c")) +
                     glob.glob(os.path.join(REPO, "utils", name, "src", "*.cc")))
        objs = []
        for s in src:
            o = "t/%s_%s.o" % (name, os.path.splitext(os.path.basename(s))[0])
            w("build %s: %s %s\n main = %s_main" % (o, "tcc" if s.endswith(".c") else "tcxx", s, name))
            objs.append(o)
        w("build t/%s.o: one %s\n main = %s_main" % (name, " ".join(objs), name))
        t.append("t/%s.o" % name)
    return t


def build(props, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        inc = headers()
        out = []
        w = out.append
        sdefs = " ".join(LIBDEFS)
        w("builddir = .")
        w("rule cc\n command = mpicc -std=gnu99 -O1 -g1 -w %s %s -I%s -I/usr/include/trilinos $xinc -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc" % (SAN, sdefs, inc))
        w("rule cxx\n command = mpicxx -std=c++17 -O1 -g1 -w -fno-access-control %s %s -I%s -I%s -I/usr/include/trilinos $xinc -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc" % (SAN, sdefs, inc, os.path.join(VERIF, "harness")))
        w("rule ar\n command = rm -f $out && ar crs $out $in")
        w("rule link\n command = mpicxx %s -o $out $in %s" % (SAN, " ".join(LIBS)))
        objs = []
        for d in SUBDIRS:
            for c in sorted(glob.glob(os.path.join(REPO, "src", d, "*.c"))):
                o = "lib/%s_%s.o" % (d, os.path.basename(c)[:-2])
                w("build %s: cc %s" % (o, c))
                objs.append(o)
        w("build libmstk.a: ar " + " ".join(objs))
        H = os.path.join(VERIF, "harness")
        core = []
        for c in sorted(glob.glob(os.path.join(H, "core_*.cc"))):
            o = "h/%s.o" % os.path.basename(c)[:-3]
            w("build %s: cxx %s" % (o, c))
            core.append(o)
        w("build libcore.a: ar " + " ".join(core))
        targets = []
        for p in props:
            w("build h/%s.o: cxx %s/%s.cc" % (p, H, p))
            extra = " ".join(tools_objects(w)) if p in TOOLS else ""
            w("build bin/%s: link h/%s.o %s libcore.a libmstk.a" % (p, p, extra))
            targets.append("bin/" + p)
        bn = os.path.join(BUILD, "build-%s.ninja" % ("_".join(props) or "none"))
        write_if_changed(bn, "\n".join(out) + "\n")
        r = subprocess.run(["ninja", "-C", BUILD, "-f", bn, "-j", str(os.cpu_count() or 8)] + targets,
                           env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write("\n".join(l[:400] for l in r.stdout.splitlines()[-25:]))
            return False
        if not quiet:
            sys.stderr.write(r.stdout.splitlines()[-1][:200] + "\n")
        return True
    finally:
        lock.close()


if __name__ == "__main__":
    sys.exit(0 if build(sys.argv[1:], quiet=False) else 3)
