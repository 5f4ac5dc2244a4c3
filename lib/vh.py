"""Case runner shared by the Python monitors (counterpart of harness.hh)."""
import io, json, math, os, sys, traceback, random, importlib, types, zlib

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
sys.dont_write_bytecode = True
_fams = []


class Stop(Exception):
    pass


class Case:
    def __init__(self, fam, index, seed, thorough, st, out):
        self.family, self.index, self.seed, self.thorough = fam, index, seed, thorough
        self.rng = random.Random("%d|%s|%d" % (seed, fam, index))
        self.st, self.out = st, out
        self.failed = False
        self._log = []
        self._sample = None

    def log(self, *a):
        self._log.append(" ".join(str(x) for x in a))

    def ev(self, k, n=1):
        self.st["events"][k] = self.st["events"].get(k, 0) + n

    def state(self, *a):
        if len(self.st["states"]) < 200000:
            s = repr((self.family,) + a).encode()
            self.st["states"].add("%08x%08x" % (zlib.crc32(s), zlib.adler32(s)))

    def sample(self, s):
        self._sample = str(s)[:400]

    def report(self, key, msg=""):
        self.failed = True
        self.out.write(json.dumps({"t": "viol", "family": self.family, "case": self.index, "key": key,
                                   "msg": str(msg)[:3000], "log": "\n".join(self._log)[-6000:]}) + "\n")
        self.out.flush()

    def fail(self, key, msg=""):
        self.report(key, msg)
        raise Stop()

    def check(self, ok, key, msg=""):
        self.st["checks"] += 1
        if not ok:
            self.fail(key, msg() if callable(msg) else msg)

    def eq(self, got, want, key):
        self.st["checks"] += 1
        if not (got == want):
            self.fail(key, "got %r expected %r" % (got, want))

    def near(self, got, want, tol, key):
        """numbers or nested sequences"""
        self.st["checks"] += 1
        g, w = flat(got), flat(want)
        if len(g) != len(w) or any(not (a == b or abs(a - b) <= tol) for a, b in zip(g, w)):
            self.fail(key, "got %r expected %r tol %g" % (got, want, tol))

    def throws(self, exc, f, key):
        self.st["checks"] += 1
        try:
            f()
        except exc:
            return
        self.fail(key, "no exception of the expected kind")


def flat(x):
    if hasattr(x, "tolist"):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        r = []
        for y in x:
            r += flat(y)
        return r
    return [float(x)]


def family(quick, thorough):
    def deco(f):
        _fams.append((f.__name__, quick, thorough, f))
        return f
    return deco


def load_core():
    """The package dynamic_graph.sot.core without its __init__ (which imports
    the compiled extension); every module below it comes from /repo/src."""
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    core = types.ModuleType("dynamic_graph.sot.core")
    core.__path__ = [SRC + "/dynamic_graph/sot/core"]
    sys.modules[core.__name__] = core
    importlib.import_module("dynamic_graph.sot").core = core
    return core


def _new():
    return {"evals": 0, "checks": 0, "events": {}, "states": set(), "samples": []}


def main():
    a = sys.argv[1:]
    o = {"--seed": "1", "--shard": "0", "--shards": "1", "--case": "-1"}
    thorough, resume, i = False, None, 0
    while i < len(a):
        if a[i] == "--thorough":
            thorough = True
        elif a[i] == "--resume":
            resume = (a[i + 1], int(a[i + 2]))
            i += 2
        else:
            o[a[i]] = a[i + 1]
            i += 1
        i += 1
    seed, shard, shards, only = int(o["--seed"]), int(o["--shard"]), int(o["--shards"]), int(o["--case"])
    out = open(o["--out"], "a") if "--out" in o else os.fdopen(os.dup(1), "w")
    prog = os.open(o["--progress"], os.O_WRONLY | os.O_CREAT, 0o644) if "--progress" in o else None
    viols = 0
    skipping = resume is not None
    try:
        for name, q, t, fn in _fams:
            if "--family" in o and name != o["--family"]:
                continue
            start = 0
            if skipping:
                if name != resume[0]:
                    continue
                skipping, start = False, resume[1] + 1
            st = _new()
            n = t if thorough else q
            off = (shard + zlib.crc32(name.encode())) % shards
            for k in range(start, n):
                if (only >= 0 and k != only) or (only < 0 and k % shards != off):
                    continue
                if prog is not None:
                    os.pwrite(prog, ("%-100s %10d\n" % (name, k)).encode(), 0)
                c = Case(name, k, seed, thorough, st, out)
                try:
                    fn(c)
                except Stop:
                    pass
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [x for x in tb if x.filename.startswith(REPO)]
                    c.report("exception:%s:%s%s" % (name, type(e).__name__, ":" + where[-1].name if where else ""),
                             traceback.format_exc())
                st["evals"] += 1
                if c._sample and len(st["samples"]) < 2:
                    st["samples"].append("%s#%d: %s" % (name, k, c._sample))
                if c.failed:
                    viols += 1
                    if viols >= 12:
                        break
            out.write(json.dumps({"t": "sum", "family": name, "evals": st["evals"], "checks": st["checks"],
                                  "events": st["events"], "states": sorted(st["states"]), "samples": st["samples"]}) + "\n")
            if viols >= 12:
                break
    finally:
        out.write('{"t":"end"}\n')
        out.flush()
    sys.stdout.flush()
    os._exit(0)
