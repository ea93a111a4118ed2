"""Runs the repository's Python reader on files and schedules that the simulator chose.

argv: the reader's source, a directory for scratch files. A request (32-bit length, then
lines) describes files and actions in turn; the answer says what each action returned.
The reader is loaded afresh for every request. Its files are real ones in a
scratch directory; every read(2) of an opened file goes through SimFile, which splits
it, fails it, lets the file grow or be replaced, or runs another load in between.

  F path hex            a file             D path a,b,c   listing order of a directory
  P path what,what,...  schedule of the raw reads of a path, in order of its opens:
                        sN at most N bytes, eN error N, g grows by the next G line,
                        r is replaced by the next R line, nPATH loads another file meanwhile
  O path N              open fails with error N
  A load path | A twice path | A dataset path | A sorted path field
"""
import builtins, ctypes, io, os, pathlib, resource, shutil, signal, struct, sys, tempfile, types, warnings
warnings.simplefilter("ignore")
import numpy as np
ctypes.CDLL(None).prctl(1, 9)           # PR_SET_PDEATHSIG: ends with the simulator
resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
source, base = sys.argv[1], sys.argv[2]
home = os.path.dirname(source)
sys.path.insert(0, home)
code = None
root = tempfile.mkdtemp(prefix="py", dir=base)
real_open, real_listdir, real_scandir = io.open, os.listdir, os.scandir
W = None                        # the world of the current request

def rel(path):
    p = os.path.abspath(os.fspath(path))
    return p[len(root) + 1:] if p.startswith(root + os.sep) else None

class World:
    def __init__(self):
        self.plan, self.fail, self.order, self.grow, self.swap = {}, {}, {}, {}, {}
        self.errors, self.log, self.nested, self.depth = 0, [], [], 0

class SimFile(io.FileIO):
    def __init__(self, path, name):
        super().__init__(path, "r")
        self.sim_name = name
    def readinto(self, b):
        plan = W.plan.get(self.sim_name) if W else None
        act = plan.pop(0) if plan else ""
        n = None
        if act[:1] == "s": n = int(act[1:])
        elif act[:1] == "e":
            W.errors += 1
            raise OSError(int(act[1:]), "simulated")
        elif act[:1] == "g":
            with real_open(os.path.join(root, self.sim_name), "ab") as f: f.write(W.grow[self.sim_name].pop(0))
        elif act[:1] == "r":
            t = os.path.join(root, ".new")
            with real_open(t, "wb") as f: f.write(W.swap[self.sim_name].pop(0))
            os.replace(t, os.path.join(root, self.sim_name))
        elif act[:1] == "n":
            if W.depth < 3:
                W.depth += 1
                W.nested.append(("nested " + act[1:], attempt(lambda: W.mod.load(os.path.join(root, act[1:])))))
                W.depth -= 1
        if n is not None: b = memoryview(b).cast("B")[:n]
        return super().readinto(b)
    def read(self, n=-1):
        if n is None or n < 0: return self.readall()
        buf = bytearray(n)
        got = self.readinto(buf)
        return bytes(buf[:got])
    def readall(self):
        out = b""
        while True:
            part = self.read(65536)
            if not part: return out
            out += part

def sim_open(file, mode="r", buffering=-1, *a, **k):
    name = rel(file) if isinstance(file, (str, bytes, os.PathLike)) and W else None
    if name is None: return real_open(file, mode, buffering, *a, **k)
    if name in W.fail and W.fail[name]:
        W.errors += 1
        raise OSError(W.fail[name], "simulated", str(file))
    if mode not in ("rb", "br"): return real_open(file, mode, buffering, *a, **k)
    raw = SimFile(os.fspath(file), name)
    return raw if buffering == 0 else io.BufferedReader(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)

def arranged(path, names):
    name = rel(path) if W else None
    order = W.order.get(name) if W and name is not None else None
    if order is None: return names
    rank = {e: k for k, e in enumerate(order)}
    return sorted(names, key=lambda e: rank.get(os.fsdecode(e) if not isinstance(e, os.DirEntry) else os.fsdecode(e.name), len(rank)))
def sim_listdir(path="."): return arranged(path, real_listdir(path))
class Scan:
    def __init__(self, path):
        with real_scandir(path) as it: self.it = iter(arranged(path, list(it)))
    def __iter__(self): return self
    def __next__(self): return next(self.it)
    def __enter__(self): return self
    def __exit__(self, *a): return None
    def close(self): pass
def sim_scandir(path="."): return Scan(path)

def sim_os_open(path, *a, **k):
    name = rel(path) if W and isinstance(path, (str, bytes, os.PathLike)) else None
    if name is not None and W.fail.get(name):
        W.errors += 1
        raise OSError(W.fail[name], "simulated", str(path))
    return real_os_open(path, *a, **k)
real_os_open, os.open = os.open, sim_os_open
io.open = builtins.open = sim_open
os.listdir, os.scandir = sim_listdir, sim_scandir

def value(v):
    if isinstance(v, (list, tuple)): return "L %d%s" % (len(v), "".join(" [" + value(x) + "]" for x in v))
    a = np.asarray(v)
    if a.dtype.kind == "f" and a.dtype.itemsize == 8: t, kind = "<f8", "R"
    elif a.dtype.kind == "c" and a.dtype.itemsize == 16: t, kind = "<c16", "C"
    else: return "X %s" % a.dtype.str
    data = a.astype(t, order="F").tobytes("F")
    return "%s %s %s" % (kind, ",".join(str(d) for d in a.shape), data.hex())
class Hang(BaseException): pass
def hang(*a): raise Hang
signal.signal(signal.SIGPROF, hang)
def attempt(f):
    try:
        if W.depth == 0: signal.setitimer(signal.ITIMER_PROF, 10, 1)
        out = f()
    except Hang: return "H"
    except MemoryError: return "E MemoryError"
    except Exception as e: return "E " + type(e).__name__
    finally:
        if W.depth == 0: signal.setitimer(signal.ITIMER_PROF, 0)
    if not isinstance(out, dict): return "X " + type(out).__name__
    s = "V %d" % len(out)
    for k in out: s += "\n%s %s" % (k.encode("utf-8", "surrogateescape").hex() or "-", value(out[k])) if isinstance(k, str) else "\n! key"
    return s

def handle(text):
    global W, code
    w = World(); W = None
    out = []
    try:
        if code is None:
            with real_open(source, "rb") as f: code = compile(f.read(), source, "exec")
        for n, m in list(sys.modules.items()):      # helpers of the reader start afresh, too
            if (getattr(m, '__file__', None) or '').startswith(home + os.sep): del sys.modules[n]
        w.mod = types.ModuleType("sdf"); w.mod.__file__ = source
        sys.modules["sdf"] = w.mod
        try: exec(code, w.mod.__dict__)
        except Exception as e: return "I " + type(e).__name__
        for line in text.split("\n"):
            if not line: continue
            p = line.split(" ")
            if p[0] == "F":
                f = os.path.join(root, p[1]); os.makedirs(os.path.dirname(f), exist_ok=True)
                with real_open(f, "wb") as o: o.write(bytes.fromhex(p[2]))
            elif p[0] == "M": os.makedirs(os.path.join(root, p[1]), exist_ok=True)
            elif p[0] == "D": w.order[p[1]] = p[2].split(",")
            elif p[0] == "P": w.plan[p[1]] = p[2].split(",")
            elif p[0] == "G": w.grow.setdefault(p[1], []).append(bytes.fromhex(p[2]))
            elif p[0] == "R": w.swap.setdefault(p[1], []).append(bytes.fromhex(p[2]))
            elif p[0] == "O": w.fail[p[1]] = int(p[2])
            elif p[0] == "A":
                e0 = w.errors; path = os.path.join(root, p[2]); W = w
                if p[1] == "load": r = [attempt(lambda: w.mod.load(path))]
                elif p[1] == "twice":
                    h = w.mod.SDF(path)
                    r = [attempt(h.load), attempt(h.load)]
                elif p[1] == "dataset": r = [attempt(lambda: w.mod.load_dataset(path))]
                elif p[1] == "sorted": r = [attempt(lambda: w.mod.load_sorted_dataset(path, bytes.fromhex(p[3]).decode()))]
                else: raise RuntimeError("action " + p[1])
                W = None
                for x in r: out.append("A %d\n%s" % (w.errors - e0, x))
                for n, x in w.nested: out.append("N %s\n%s" % (n.split(" ")[1], x))
                w.nested.clear()
            else: raise RuntimeError("request " + line[:80])
        return "\n".join(out) + "\n"
    finally:
        W = None
        for e in real_listdir(root):
            p = os.path.join(root, e)
            if os.path.isdir(p): shutil.rmtree(p)
            else: os.unlink(p)

def main():
    i, o = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)               # what the reader prints is no answer
    try:
        while True:
            h = i.read(4)
            if len(h) < 4: break
            text = i.read(struct.unpack("<I", h)[0]).decode("latin-1")
            try: ans = handle(text)
            except Exception as e: ans = "HARNESS %s: %s" % (type(e).__name__, e)
            b = ans.encode("latin-1", "replace")
            o.write(struct.pack("<I", len(b)) + b); o.flush()
    finally:
        shutil.rmtree(root, ignore_errors=True)
main()
