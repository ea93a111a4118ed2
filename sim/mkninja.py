#!/usr/bin/env python3
"""Write build.ninja: the library from the sources listed in /repo/src/Makefile.inc, then the simulator."""
import re, sys, os, glob, subprocess
repo, verif, out = sys.argv[1:4]
txt = open(f"{repo}/src/Makefile.inc").read().replace("\\\n", " ")
v = {m.group(1): m.group(2).split() for m in re.finditer(r"^(\w+)\s*=\s*(.*)$", txt, re.M)}
srcs = []
for k in ("basic_SOURCES", "fftw_SOURCES", "arpack_cpp_SOURCES", "arpack_SOURCES", "rand64_SOURCES"):
    srcs += v.get(k, [])
inc = f"-I{verif}/sim/config -I{repo}/include -I{repo} -I{repo}/src"
cov = "-fsanitize-coverage=trace-pc,trace-cmp"
# back ends: wrapped where the library calls them; locks: wrapped everywhere, because headers may use them
SYNC = "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __cxa_thread_atexit".split()
WRAP = [w + "_" for w in "dgesv zgesv dgeev zgeev dsyev zheev dgesvd zgesvd dsaupd znaupd dseupd zneupd".split()] + ["fftw_" + w for w in "plan_dft plan_dft_1d plan_dft_2d plan_dft_3d plan_many_dft plan_guru_dft plan_guru64_dft destroy_plan cleanup".split()] + SYNC
L = [f"cxx = g++ -std=gnu++17 -g1 -fno-omit-frame-pointer -w {inc}",
 "rule cc\n command = $cxx $fl -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
 f"rule f\n command = gfortran -O1 -g1 -fallow-argument-mismatch -w {cov} -c $in -o $out",
 "rule rel\n command = ld -r -d " + " ".join("--wrap=" + w for w in WRAP) + " -o $out @$out.rsp\n rspfile = $out.rsp\n rspfile_content = $in",
 "rule link\n command = g++ -no-pie " + " ".join("-Wl,--wrap=" + w for w in SYNC) + " -o $out $objs -lopenblas -lfftw3 -lgfortran -ldl -lm"]
objs = []
for s in dict.fromkeys(srcs):
    o = "lib/" + s.replace("/", "_") + ".o"
    if s.endswith(".f"): L.append(f"build {o}: f {repo}/src/{s}")
    elif s.endswith((".cc", ".cpp", ".cxx", ".c")): L.append(f"build {o}: cc {repo}/src/{s}\n fl = -O1 {cov}")
    else: continue
    objs.append(o)
sim = f"{verif}/sim/src"
def obj(n, fl):
    L.append(f"build {n}.o: cc {sim}/{n}.cc\n fl = {fl}")
    return f"{n}.o"
scen = [obj(os.path.basename(p)[:-3], f"-O1 {cov}") for p in sorted(glob.glob(f"{sim}/scen_*.cc"))]
def numpy(py):
    try: return not subprocess.run([py, "-c", "import numpy"], stderr=subprocess.DEVNULL).returncode
    except OSError: return False
python = next((p for p in ("/opt/veriftools/pyvenv/bin/python3", sys.executable, "/usr/bin/python3") if numpy(p)), "")
core = [obj(n, "-O2") for n in ("core", "fs", "backend", "sync", "main")]
core.append(obj("pyread", f"-O2 -DSIM_PYTHON='\"{python}\"' -DSIM_SERVER='\"{verif}/sim/pyserver.py\"' -DSIM_REPO='\"{repo}\"'"))
mark = [obj(n, "-O1") for n in ("img_begin", "img_mid", "img_end")]
# big harness files first: they are the critical path
L.append("build lib.o: rel " + " ".join(objs))
order = ["img_begin.o", "lib.o", "img_mid.o"] + scen + ["img_end.o"] + core
L.append("build sim: link | " + " ".join(order) + "\n objs = " + " ".join(order))
L.append("build early: phony " + " ".join(scen))
L.append("default early sim")
open(f"{out}/build.ninja", "w").write("\n".join(L) + "\n")
