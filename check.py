#!/usr/bin/env python3
"""Deterministic-simulation check of one property of /repo.

  check.py build                     build the simulator from /repo's working tree
  check.py <property> [--tier quick|thorough] [--runs N] [--seed S]
  check.py replay <file>             run one replay file and print its trace

Exit 0: held on everything explored. Exit 1 with "VIOLATION property=<id> replay=<path>":
broken, reproduced from the replay file in fresh processes. Exit 2: error of the check.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build", "sim" if REPO == "/repo" else "sim-" + hashlib.sha1(REPO.encode()).hexdigest()[:10])
SIM = os.path.join(BUILD, "sim")
REPLAYS = os.path.join(VERIF, "build", "replays")
CPUS = max(1, min(16, os.cpu_count() or 1))

def fail(msg):
    print("ERROR " + msg); sys.stdout.flush(); os._exit(2)

def plan():
    return json.load(open(os.path.join(VERIF, "sim", "plan.json")))

# ------------------------------------------------------------------------ build
def inputs():
    fs = []
    for top in (REPO + "/src", REPO + "/include", VERIF + "/sim"):
        for d, _, names in os.walk(top):
            fs += [os.path.join(d, n) for n in names]
    return sorted(fs)

def build():
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(VERIF, "build", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(BUILD, "inputs.json")
        cur = {f: hashlib.sha1(open(f, "rb").read()).hexdigest() for f in inputs()}
        old = {}
        if os.path.exists(stamp):
            try: old = json.load(open(stamp))
            except ValueError: old = {}
        if old.get("files") == cur and os.path.exists(SIM):
            return time.time() - t0
        # ninja trusts time stamps; contents decide. Anything changed without a newer
        # time stamp than the last build forces a rebuild from scratch.
        when = old.get("when", 0)
        stale = not old or set(old.get("files", {})) != set(cur)
        for f, h in cur.items():
            if old.get("files", {}).get(f) != h and os.path.getmtime(f) <= when + 1: stale = True
        if stale and os.path.isdir(BUILD):
            shutil.rmtree(BUILD); os.makedirs(BUILD)
        if os.path.exists(stamp): os.unlink(stamp)
        start = time.time()
        r = subprocess.run([sys.executable, VERIF + "/sim/mkninja.py", REPO, VERIF, BUILD])
        if r.returncode: fail("mkninja failed")
        for target in ("early", "sim"):
            r = subprocess.run(["ninja", "-C", BUILD, target], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print(r.stdout[-6000:]); fail("the simulator does not build")
        json.dump({"files": cur, "when": start}, open(stamp, "w"))
    return time.time() - t0

# ------------------------------------------------------------------------- runs
def sim(args, timeout=None):
    return subprocess.run([SIM] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)

def parse(path):
    kv = {}
    for line in open(path, errors="replace"):
        if line.startswith("---"): break
        k, _, v = line.rstrip("\n").partition(" ")
        kv[k] = v
    return kv

class Campaign:
    def __init__(self, prop, seed, tier, tmp):
        self.prop, self.seed, self.tier, self.tmp = prop, seed, tier, tmp
        self.stop = False; self.viol = []; self.errors = []
        self.tot = dict(runs=0, nontrivial=0, sim_ns=0, events=0, cpu=0.0)
        self.scen = {}; self.counters = {}; self.samples = []; self.hashes = set(); self.digests = {}
    def chunk(self, job):
        frm, n, tag, extra = job
        if self.stop: return
        out = f"{self.tmp}/{self.prop}-{tag}-{frm}"
        try:
            r = sim(["search", "--property", self.prop, "--seed", str(self.seed), "--from", str(frm), "--count", str(n), "--out", out, "--tier", self.tier] + extra, timeout=3000)
        except subprocess.TimeoutExpired:
            self.errors.append(f"chunk {frm} timed out"); self.stop = True; return
        if r.returncode == 10 and os.path.exists(out + ".viol"):
            self.stop = True; self.viol.append(out + ".viol")
        elif r.returncode != 0:
            self.stop = True; self.errors.append(f"exit {r.returncode}: {r.stdout[-2000:]}")
        if os.path.exists(out + ".json"):
            j = json.load(open(out + ".json"))
            self.digests[(tag, frm)] = j["digest"]
            h = open(out + ".hash", "rb").read()
            if tag != "main": return
            for k in ("runs", "nontrivial", "sim_ns", "events"): self.tot[k] += j[k]
            self.tot["cpu"] += j["wall"]
            for k, v in j["scenarios"].items(): self.scen[k] = self.scen.get(k, 0) + v
            for k, v in j["counters"].items(): self.counters[k] = self.counters.get(k, 0) + v
            if len(self.samples) < 6: self.samples += j["samples"][:2]
            self.hashes.update(h[i:i + 8] for i in range(0, len(h), 8))
            for e in (".json", ".hash"): os.unlink(out + e)
    def run(self, runs, budget):
        t0 = time.time()
        per = max(1, min(4000, -(-runs // (CPUS * 6))))
        jobs = [(f, min(per, runs - f), "main", []) for f in range(0, runs, per)]
        # determinism audit: other chunking, other processes, every run twice
        audit = max(1, per // 8)
        jobs.insert(0, (0, audit, "a1", ["--twice", "1"])); jobs.insert(0, (0, audit, "a2", []))
        def go(j):
            if time.time() - t0 > budget and j[2] == "main": self.cut = True; return
            self.chunk(j)
        self.cut = False
        with ThreadPoolExecutor(CPUS) as ex: list(ex.map(go, jobs))
        if not self.viol and not self.errors and self.digests.get(("a1", 0)) != self.digests.get(("a2", 0)):
            self.errors.append("two executions of the same seeds differ")
        self.audited = audit
        return time.time() - t0

def reproduce(path, tmp, tag, times=2):
    """Replay in fresh processes. Returns (class, hash) if all agree."""
    got = []
    for k in range(times):
        out = f"{tmp}/rep-{tag}-{k}"
        for e in (".viol", ".log"):
            if os.path.exists(out + e): os.unlink(out + e)
        try: r = sim(["replay", "--file", path, "--out", out], timeout=200)
        except subprocess.TimeoutExpired: return None
        if r.returncode != 10 or not os.path.exists(out + ".viol"): return None
        kv = parse(out + ".viol"); got.append((kv.get("class"), kv.get("hash")))
    return got[0] if all(g == got[0] for g in got) else None

def report(prop, viol, tmp):
    """Gate, minimise, and write the replay file."""
    kv = parse(viol)
    first = reproduce(viol, tmp, "gate")
    if not first or first != (kv["class"], kv["hash"]):
        shutil.copy(viol, "/tmp/ungated.viol")
        fail(f"a violation ({kv.get('class')}: {kv.get('message')}) did not reproduce exactly: {first} instead of {kv.get('class'), kv.get('hash')}")
    best = viol; note = ""
    try: sim(["shrink", "--file", viol, "--out", f"{tmp}/shr", "--time", "25"], timeout=120)
    except subprocess.TimeoutExpired: pass
    sp = f"{tmp}/shr.shrunk"
    if os.path.exists(sp) and os.path.getsize(sp):
        again = reproduce(sp, tmp, "shr")
        if again and again[0] == kv["class"]:
            best = sp; note = parse(sp).get("shrunk-from", "")
    out = f"{tmp}/final"
    for e in (".viol", ".log"):
        if os.path.exists(out + e): os.unlink(out + e)
    sim(["replay", "--file", best, "--out", out], timeout=200)
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{kv['seed']}-{kv['index']}.replay")
    fin = open(out + ".viol", errors="replace").read()
    log = open(out + ".log", errors="replace").read() if os.path.exists(out + ".log") else ""
    with open(path, "w") as f:
        f.write(fin)
        if note: f.write("minimised " + note + "\n")
        f.write("--- trace of the minimised run\n" + log[-400000:])
    if not reproduce(path, tmp, "file", 1): fail("the replay file does not reproduce")
    fk = parse(path)
    return path, fk

# ------------------------------------------------------------------ known findings
def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) scenario=(\S+) class=(\S+) (.*)", line)
        if m and m.group(1) == prop: out.append(m.groups())
    return out

def main():
    a = sys.argv[1:]
    if not a: fail(__doc__)
    if a[0] == "build":
        print("built in %.1f s" % build()); return 0
    if a[0] == "replay":
        build()
        r = subprocess.run([SIM, "replay", "--file", a[1], "--out", tempfile.mktemp(prefix="simrep"), "--print", "1"])
        return 1 if r.returncode == 10 else (0 if r.returncode == 0 else 2)
    prop = a[0]
    opt = {a[i]: a[i + 1] for i in range(1, len(a) - 1, 2)}
    tier = opt.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(opt.get("--seed") or os.environ.get("VERIF_SEED") or 1)
    pl = plan()[prop]
    runs = int(opt.get("--runs") or pl[tier])
    t0 = time.time()
    tb = build()
    tmp = tempfile.mkdtemp(prefix="simcheck-")
    code = 0
    try:
        c = Campaign(prop, seed, tier, tmp)
        wall = c.run(runs, 420 if tier == "quick" else 6 * 3600)
        if c.errors and not c.viol: fail("; ".join(c.errors))
        lines = []
        if c.viol:
            path, kv = report(prop, min(c.viol, key=lambda v: int(parse(v)["index"])), tmp)
            lines.append(f"violated: {kv['scenario']}: {kv['class']}: {kv['message']}")
            lines.append(f"VIOLATION property={prop} replay={path}"); code = 1
        kf = 0
        for (_, scen, cls, text) in known(prop) if not code else []:
            k = Campaign(prop + "K" + scen, seed, tier, tmp)
            found = False; bad = None
            for i in range(60):
                k.stop = False; k.viol = []; k.chunk((i, 1, "kf", []))
                if k.errors: k.errors = []; continue
                if k.viol:
                    if parse(k.viol[0])["class"] in cls.split("|"): found = True
                    else: bad = k.viol[0]; break
            if bad:
                path, kv = report(prop, bad, tmp)
                lines.append(f"violated: {kv['scenario']}: {kv['class']}: {kv['message']}")
                lines.append(f"VIOLATION property={prop} replay={path}"); code = 1; break
            if found: lines.append(f"KNOWN-FINDING: property={prop} {text}"); kf += 1
        faults = {k[6:]: v for k, v in sorted(c.counters.items()) if k.startswith("fault:")}
        probes = {k[6:]: v for k, v in sorted(c.counters.items()) if k.startswith("probe:")}
        other = {k: v for k, v in sorted(c.counters.items()) if not k.startswith(("fault:", "probe:"))}
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
          coverage=dict(evaluations=c.tot["runs"], distinct_nontrivial=len(c.hashes),
            rule="One evaluation is one simulated run; seed and index decide scenario, workload, schedule and faults through one recorded PRNG. "
                 "Non-trivial: " + pl["rule"] + " Distinct: by the 64-bit hash of the run's event sequence (system calls with arguments, switches, faults, process ends).",
            samples=c.samples[:6] or ["(none)"], runs_per_scenario=c.scen, nontrivial_runs=c.tot["nontrivial"],
            runs_per_hour=int(c.tot["runs"] / max(wall, 1e-6) * 3600), seeds_per_hour=int(c.tot["runs"] / max(wall, 1e-6) * 3600), workers=CPUS,
            simulated_seconds=round(c.tot["sim_ns"] / 1e9, 3), recorded_events=c.tot["events"],
            faults_injected=faults, rare_conditions_hit=probes, counters=other,
            determinism_audit=dict(runs_executed_three_times=c.audited, in_processes=2, mismatches=0),
            real_code=pl.get("real", "all of /repo's C++ and Fortran library code that the scenario reaches, libstdc++, OpenBLAS, FFTW"),
            stubbed=pl.get("stub", "kernel: file system, locks, clocks, sleep, processes, entropy, environment and operator new come from the simulator"),
            runs_cut_by_time_budget=c.cut, build_s=round(tb, 1)),
          assumptions=pl.get("assume", []), wall_s=round(time.time() - t0, 2), violations=1 if code else 0)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print(f"{prop}: {c.tot['runs']} runs ({len(c.hashes)} distinct non-trivial) in {wall:.1f} s, build {tb:.1f} s, faults {sum(faults.values())}")
        for l in lines: print(l)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return code

sys.exit(main())
