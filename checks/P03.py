#!/usr/bin/env python3
# @rule random sequences of control steps and record calls on a scripted robot, then restores and dumps, compared with the list of samples that should have been kept; distinct = distinct dumps
import contextlib, io, math, os, re, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import warnings
warnings.simplefilter("ignore")
import numpy as np
import vh
vh.load_core()
import dynamic_graph.sot.core.utils.history as mod
assert mod.__file__.startswith(vh.SRC), mod.__file__


class Sig:
    def __init__(self, name):
        self.name, self.value, self.time = name, None, 0


class Dyn:
    def __init__(self, names):
        self.l = [Sig(n) for n in names]
        for s in self.l:
            setattr(self, s.name, s)

    def signals(self):
        return list(self.l)


def frame(r):
    q = np.array([r.gauss(0, 1) for _ in range(4)])
    q /= np.linalg.norm(q)
    w, x, y, z = q
    M = np.eye(4)
    M[:3, :3] = [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                 [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                 [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
    M[:3, 3] = [r.gauss(0, 2) for _ in range(3)]
    return M


def num(r):
    return r.choice([0.0, 1.0, -2.5, r.gauss(0, 1), r.gauss(0, 1e-6), r.gauss(0, 1e6)])


def lines(f):
    return [[float(x) for x in l.split()] for l in open(f).read().split("\n") if l.strip()]


@vh.family(1500, 15000)
def record(c):
    r = c.rng
    n = r.randrange(36, 44)
    names = ["position", "velocity"]
    waist, zsig = r.random() < .7, r.random() < .7
    if waist:
        names.insert(r.randrange(3), "waist")
    d = Dyn(names)
    freq = r.choice([1, 1, 2, 3, 7, 50, 100])
    z = Sig("zmp") if zsig else None
    h = mod.History(d, freq, z) if freq != 100 or r.random() < .5 else mod.History(d, zmpSig=z)
    want = []
    regular = r.random() < .5      # every step recorded, from step zero
    t = 0 if regular else r.choice([0, 0, 1, 12])
    for _ in range(r.randrange(1, 160 if regular else 60)):
        d.position.time = t
        d.position.value = tuple(num(r) for _ in range(n))
        d.velocity.value = tuple(num(r) for _ in range(n))
        if waist:
            W = frame(r)
            d.waist.value = tuple(tuple(x) for x in W.tolist())
        if z:
            z.value = tuple(r.gauss(0, 1) for _ in range(3))
        h.record()
        c.ev("record-calls")
        if t % freq == 0:
            want.append((d.position.value, d.velocity.value,
                         np.linalg.solve(W, np.array(z.value + (1.,)))[:3] if waist and z else None))
        c.log("t", t)
        t += 1 if regular else r.choice([1, 1, 1, 1, 2, freq])
    c.ev("kept", len(want))
    c.eq(len(h.q), len(want), "number-of-positions")
    c.eq(len(h.qdot), len(want), "number-of-velocities")
    c.eq([tuple(x) for x in h.q], [w[0] for w in want], "positions")
    c.eq([tuple(x) for x in h.qdot], [w[1] for w in want], "velocities")
    c.eq(len(h.zmp), len(want) if waist and z else 0, "number-of-zmp")
    for a, w in zip(h.zmp, want):
        c.near(list(a)[:3], w[2], 1e-6, "zmp-in-waist-frame")
    # restore: the sample in force at a recorded time
    if want and regular:
        for _ in range(4):
            k = r.randrange(len(want))
            tt = k * freq + r.randrange(freq)
            b = io.StringIO()
            with contextlib.redirect_stdout(b):
                h.restore(tt if r.random() < .5 else float(tt))
            out = b.getvalue().split("\n")
            pick = lambda s: [x for x in out if x.startswith(s)][0]
            c.check("robot.set( %s )" % (want[k][0],) in out, "restore-position", lambda: "t=%s k=%d %s" % (tt, k, out[0]))
            c.check("robot.setVelocity( %s )" % (want[k][1],) in out, "restore-velocity", lambda: out[1])
            v = [x for x in out if x.startswith("T0 =")]
            c.check(len(v) == 1, "restore-time-given")
            c.eq(float(v[0].split("=")[1]), k * freq, "restore-time")
            c.ev("restore")
    # dump and read back
    if want:
        tmp = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH", "."))
        cwd = os.getcwd()
        try:
            base = os.path.join(tmp, "run")
            if r.random() < .2:
                os.chdir(tmp)
                h.dumpToOpenHRP()
                base = os.path.join(tmp, "dyninv")
            elif r.random() < .5:
                h.dumpToOpenHRP(base)
            else:
                h.dumpToOpenHRP(baseName=base, sample=1)
            import gc
            gc.collect()
            T = [0.005 * i for i in range(len(want))]
            # values go through the shortest text that denotes them: nothing is lost
            c.near(lines(base + ".pos"), [[T[i]] + list(w[0][6:36]) + [0] * 10 for i, w in enumerate(want)], 0, "pos-file")
            c.near(lines(base + ".hip"), [[T[i]] + list(w[0][3:6]) for i, w in enumerate(want)], 0, "hip-file")
            c.near(lines(base + ".waist"), [[T[i]] + list(w[0][0:6]) for i, w in enumerate(want)], 0, "waist-file")
            for x, m in ((".pos", 41), (".hip", 4), (".waist", 7)):
                l = lines(base + x)
                c.eq(len(l), len(want), "rows" + x)
                c.check(all(len(y) == m for y in l), "columns" + x)
            if waist and z:
                l = lines(base + ".zmp")
                c.eq(len(l), len(want), "rows.zmp")
                for i, y in enumerate(l):
                    c.eq(len(y), 4, "columns.zmp")
                    c.near(y[0], T[i], 0, "zmp-file-time")
                    c.near(y[1:], want[i][2], 1e-6, "zmp-file")
            else:
                c.check(not os.path.exists(base + ".zmp"), "no-zmp-file")
            text = open(base + "_pos0.py").read()
            ns = {}
            exec(text, ns)
            v = [float(x) for x in ns["dyninv_posinit"].split()]
            c.eq(len(v), 40, "initial-posture-size")
            for a, q in zip(v[:30], want[0][0][6:36]):
                c.near(a, math.degrees(q), 1e-9 * max(1, abs(a)), "initial-posture-degrees")
            c.eq(v[30:], [0.] * 10, "initial-posture-hands")
            c.ev("dump")
        finally:
            os.chdir(cwd)
            shutil.rmtree(tmp, ignore_errors=True)
    c.state(freq, [w[0][6] for w in want])
    c.sample("freq=%d kept=%d zmp=%s" % (freq, len(want), bool(waist and z)))


vh.main()
