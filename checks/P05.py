#!/usr/bin/env python3
# @rule every helper is run on recording stand-ins of the compiled entities (named signals that can be plugged and set, commands that are logged); the resulting wiring, values, selections, gains and command logs are compared with a model; distinct = distinct final configurations
# @assume The compiled entities are not installed: signals and commands are recorded on stand-ins that accept exactly the signal and command names of the real classes.
import math, os, sys, types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import warnings
warnings.simplefilter("ignore")
import numpy as np
import vh

# ---------------------------------------------------------------- stand-ins
LOG = []
POOL = {}


class SignalBase(object):
    def __init__(self, owner, name, kind):
        self.owner, self.name_, self.kind = owner, name, kind
        self.const, self.src, self.time = None, None, 0

    @property
    def name(self):
        return self.name_

    def getName(self):
        return "%s(%s)::%s(x)::%s" % (type(self.owner).__name__, self.owner.name, self.kind, self.name_)

    @property
    def value(self):
        if self.src is not None:
            return self.src.value
        return self.const

    @value.setter
    def value(self, v):
        self.const, self.src = v, None
        LOG.append(("set", self.getName()))

    def recompute(self, t):
        LOG.append(("recompute", self.owner.name, self.name_, t))

    def __repr__(self):
        return self.getName()


def plug(a, b):
    assert isinstance(a, SignalBase) and isinstance(b, SignalBase), (a, b)
    if b.kind != "in":
        raise ValueError("%r is not an input" % b)
    b.src = a


class Entity(object):
    ins, outs, cmds = (), (), ()

    def __init__(self, name=None):
        self.name = name
        self._s = {}
        self.obj = self
        if name in POOL:
            raise RuntimeError("an entity named %s exists" % name)
        POOL[name] = self
        for n in self.ins:
            self._s[n] = SignalBase(self, n, "in")
        for n in self.outs:
            self._s[n] = SignalBase(self, n, "out")
        for n, s in self._s.items():
            object.__setattr__(self, n, s)
        self.calls = []

    def signal(self, n):
        if n not in self._s:
            raise KeyError("no signal %s in %s" % (n, self.name))
        return self._s[n]

    def signals(self):
        return list(self._s.values())

    def __getattr__(self, n):
        if n in type(self).cmds:
            def f(*a):
                self.calls.append((n,) + a)
                return getattr(self, "do_" + n, lambda *a: None)(*a)
            return f
        raise AttributeError(n)

    def __setattr__(self, n, v):
        if n in getattr(self, "_s", {}):
            raise AttributeError("signals cannot be replaced: " + n)
        object.__setattr__(self, n, v)


ABS_IN = ("selec", "errordotIN")
ABS_OUT = ("error", "jacobian", "errordot", "dimension")
REF = ("setReference", "getReference")


class FeatureGeneric(Entity):
    ins, outs, cmds = ABS_IN + ("errorIN", "jacobianIN"), ABS_OUT, REF


class Framed(Entity):
    fr = "desired"

    def do_frame(self, f):
        self.fr = f

    def do_getFrame(self):
        return self.fr


class FeaturePoint6d(Framed):
    ins, outs = ("selec", "position", "velocity", "Jq"), ABS_OUT
    cmds = REF + ("frame", "getFrame", "keep")


class FeaturePoint6dRelative(Framed):
    ins = FeaturePoint6d.ins + ("positionRef", "JqRef", "dotposition", "dotpositionRef")
    outs, cmds = ABS_OUT, FeaturePoint6d.cmds + ("initSdes",)

    def commands(self):
        return self.cmds


class FeatureVisualPoint(Entity):
    ins, outs, cmds = ("selec", "xy", "Z", "Jq"), ABS_OUT, REF


class GainAdaptive(Entity):
    ins, outs, cmds = ("error",), ("gain",), ("set", "setConstant", "setByPoint")


class Task(Entity):
    ins, outs = ("controlGain", "dampingGainSINOUT", "controlSelec"), ("error", "jacobian", "task")
    cmds = ("add", "remove", "clear")


class TaskDyn(Task):
    cmds = Task.cmds

    def resetJacobianDerivative(self):
        self.calls.append(("resetJacobianDerivative",))


class OpPointModifier(Entity):
    ins, outs, cmds = ("positionIN", "jacobianIN"), ("position", "jacobian"), ("setTransformation", "getTransformation")
    T = None

    def do_setTransformation(self, T):
        self.T = T

    def do_getTransformation(self):
        return self.T


class VisualPointProjecter(Entity):
    ins, outs = ("transfo", "point3D"), ("point2D", "depth", "point3Dgaze")


class Dyn(Entity):
    ins, outs = (), ("position", "com", "Jcom")
    cmds = ("createOpPoint",)

    def do_createOpPoint(self, n, ref):
        for x in (n, "J" + n):
            if x in self._s:
                raise RuntimeError("operational point %s exists" % n)
            self._s[x] = SignalBase(self, x, "out")


class Flags(object):
    def __init__(self, x=None):
        if isinstance(x, Flags):
            x = x.bits
        self.bits = [bool(int(b)) for b in x] if x is not None else []

    def __eq__(self, o):
        return self.bits == Flags(o).bits

    def __repr__(self):
        return "".join("01"[b] for b in self.bits)


core = vh.load_core()
import dynamic_graph
dynamic_graph.plug = plug
core.Flags = Flags


def mod(name, **k):
    m = types.ModuleType(name)
    for a, b in k.items():
        setattr(m, a, b)
    sys.modules[name] = m
    return m


mod("dynamic_graph.entity", Entity=Entity)
mod("dynamic_graph.signal_base", SignalBase=SignalBase)
C = "dynamic_graph.sot.core."
mod(C + "feature_generic", FeatureGeneric=FeatureGeneric)
mod(C + "feature_point6d", FeaturePoint6d=FeaturePoint6d)
mod(C + "feature_point6d_relative", FeaturePoint6dRelative=FeaturePoint6dRelative)
mod(C + "feature_visual_point", FeatureVisualPoint=FeatureVisualPoint)
mod(C + "gain_adaptive", GainAdaptive=GainAdaptive)
mod(C + "task", Task=Task)
mod(C + "op_point_modifier", OpPointModifier=OpPointModifier)
mod(C + "visual_point_projecter", VisualPointProjecter=VisualPointProjecter)
import dynamic_graph.sot.core.meta_tasks as mt
import dynamic_graph.sot.core.meta_task_6d as m6
import dynamic_graph.sot.core.meta_task_posture as mp
import dynamic_graph.sot.core.meta_task_visual_point as mv
import dynamic_graph.sot.core.meta_tasks_kine as mk
import dynamic_graph.sot.core.meta_tasks_kine_relative as mr
import dynamic_graph.sot.core.feature_position as fp
import dynamic_graph.sot.core.feature_position_relative as fpr
for x in (mt, m6, mp, mv, mk, mr, fp, fpr):
    assert x.__file__.startswith(vh.SRC), x.__file__
    x.print = lambda *a: None


def fresh(c, n=None):
    POOL.clear()
    del LOG[:]
    d = Dyn("robot")
    n = n or c.rng.randrange(36, 45)
    d.position.const = tuple(c.rng.gauss(0, 1) for _ in range(n))
    d.position.time = c.rng.randrange(100)
    d.com.const = (1., 2., 3.)
    return d


def Rz(a, b, g):
    ca, sa, cb, sb, cg, sg = math.cos(a), math.sin(a), math.cos(b), math.sin(b), math.cos(g), math.sin(g)
    X = np.array([[1, 0, 0], [0, ca, -sa], [0, sa, ca]])
    Y = np.array([[cb, 0, sb], [0, 1, 0], [-sb, 0, cb]])
    Z = np.array([[cg, -sg, 0], [sg, cg, 0], [0, 0, 1]])
    return Z.dot(Y).dot(X)


def target(c):
    """an accepted pose argument and the matrix it means"""
    r = c.rng
    p = [r.gauss(0, 1) for _ in range(3)]
    a = [r.uniform(-3, 3) for _ in range(3)]
    M = np.eye(4)
    M[:3, 3] = p
    k = r.randrange(6)
    c.ev("target-form%d" % k)
    if k == 0:
        return tuple(p), M
    if k == 1:
        return np.array(p), M
    if k == 2:
        return np.matrix(p), M
    M[:3, :3] = Rz(*a)
    if k == 3:
        return r.choice([np.array, np.matrix])(M), M
    if k == 4:
        return tuple(tuple(x) for x in M.tolist()), M
    v = p + a
    return (tuple(v) if r.random() < .5 else np.array(v)), M


def gainarg(c):
    """an accepted gain argument and the commands it means"""
    r = c.rng
    v = [round(r.uniform(0, 9), 3) for _ in range(4)]
    k = r.randrange(6)
    c.ev("gain-form%d" % k)
    seq = r.choice([tuple, list, np.array])
    if k == 0:
        return None, []
    if k == 1:
        return v[0], [("setConstant", v[0])]
    if k == 2:
        return int(v[0]), [("setConstant", int(v[0]))]
    if k == 3:
        return seq(v[:1]), [("setConstant", v[0])]
    if k == 4:
        return seq(v[:3]), [("set",) + tuple(v[:3])]
    return seq(v), [("setByPoint",) + tuple(v)]


def selection(r):
    s = "".join(r.choice("01") for _ in range(6))
    k = r.randrange(4)
    if k == 0:
        return None, None
    if k == 1:
        return s, Flags(s)
    if k == 2:
        return Flags(s), Flags(s)
    return [b == "1" for b in s], Flags(s)


def src(sig):
    return sig.src


def common(c, m, name, dyn, fdes_sig):
    """gain, task, reference: each wired exactly once"""
    c.eq(m.task.calls, [("add", m.feature.name)], "feature-pushed-once")
    c.check(m.feature is not m.featureDes and m.feature.name != m.featureDes.name, "reference-is-another-feature")
    c.check(src(m.gain.error) is m.task.error, "gain-sees-the-task-error")
    c.check(src(m.task.controlGain) is m.gain.gain, "task-uses-the-gain")
    c.eq([x for x in m.feature.calls if x[0] == "setReference"], [("setReference", m.featureDes.name)], "reference")
    c.check(name in m.task.name and name in m.feature.name and name in m.gain.name, "names")
    c.check(m.name == name, "name")
    v = object()
    m.ref = v
    c.check(m.ref is v and m.featureDes.signal(fdes_sig).value is v, "ref-property")


def op_state(c, m, direct, modif, feature_sig, which, base=False):
    """after switching the shift on or off the feature reads the right point"""
    a, b = which
    sp, sj = feature_sig
    if direct:
        c.check(src(sp) is a and src(sj) is b, "reads-the-point")
    else:
        c.check(src(sp) is modif.signal("position") and src(sj) is modif.signal("jacobian"), "reads-the-shifted-point")


def switches(c, m, prop, modif, sigs, point):
    r = c.rng
    on = False
    op_state(c, m, True, modif, sigs, point)
    c.check(getattr(m, prop) is False, "shift-off-at-first")
    c.check(src(modif.signal("positionIN")) is point[0] and src(modif.signal("jacobianIN")) is point[1], "shift-reads-the-point")
    for _ in range(r.randrange(0, 5)):
        if r.random() < .4:
            setattr(m, prop, False)
            on = False
            c.check(getattr(m, prop) is False, "shift-off")
        else:
            T = np.eye(4)
            T[:3, 3] = [r.gauss(0, 1) for _ in range(3)]
            setattr(m, prop, T)
            on = True
            c.check(modif.T is T and getattr(m, prop) is T, "shift-value")
        op_state(c, m, not on, modif, sigs, point)
        c.ev("shift-switch")
    return on


def reach(c, m, fn, dynamic):
    """run one goto helper and compare"""
    r = c.rng
    arg, M = target(c)
    g, gc = gainarg(c)
    ncalls = len(m.gain.calls)
    if dynamic:
        m.task = TaskDyn("dyntask%d" % r.randrange(10 ** 9))
    rj = r.random() < .5
    fn(arg, g, rj)
    c.near(np.array(m.featureDes.position.value, float), M, 1e-12, "target")
    c.eq([tuple(map(float, x[1:])) for x in m.gain.calls[ncalls:]], [tuple(map(float, x[1:])) for x in gc], "gain-values")
    c.eq([x[0] for x in m.gain.calls[ncalls:]], [x[0] for x in gc], "gain-command")
    if dynamic:
        c.eq(m.task.calls, [("resetJacobianDerivative",)] if rj else [], "jacobian-derivative-reset")
    c.ev("reach")
    return M


@vh.family(3000, 40000)
def pose_tasks(c):
    r = c.rng
    dyn = fresh(c)
    for i in range(r.choice([1, 1, 2])):
        name = r.choice(["rh", "lf", "gaze"]) + str(i)
        point = r.choice(["rh", "lf"])
        exists = point in dyn._s
        if not exists and r.random() < .4:
            dyn.do_createOpPoint(point, "x")
            exists = True
        ncr = len(dyn.calls)
        cls = r.choice([m6.MetaTask6d, mk.MetaTaskKine6d])
        ref = r.choice([None, "left-ankle"])
        m = cls(name, dyn, point) if ref is None else cls(name, dyn, point, ref)
        c.eq(dyn.calls[ncr:], [] if exists else [("createOpPoint", point, ref or "right-wrist")], "point-created-once")
        common(c, m, name, dyn, "position")
        c.eq(m.feature.selec.value, Flags("111111"), "all-selected")
        c.eq(m.feature.do_getFrame(), "current", "frame")
        c.eq(m.gain.calls, [("set", 0.1, 0.1, 125e3)], "default-gain")
        switches(c, m, "opmodif", m.opPointModif, (m.feature.position, m.feature.Jq), (dyn.signal(point), dyn.signal("J" + point)))
        del LOG[:]
        n = len(m.feature.calls)
        m.keep()
        c.eq(LOG[-1:], [("recompute", m.feature.name, "position", dyn.position.time)], "keep-refreshes")
        c.eq(m.feature.calls[n:], [("keep",)], "keep")
        for _ in range(r.randrange(1, 4)):
            before = m.feature.selec.value
            if r.random() < .5:
                reach(c, m, lambda a, g, rj: mt.goto6d(m, a, g, resetJacobian=rj) if not rj or r.random() < .5 else mt.goto6d(m, a, gain=g), r.random() < .3)
                c.eq(m.feature.selec.value, Flags("111111"), "goto6d-selects-all")
            else:
                s, want = selection(r)
                goto = r.choice([mt.gotoNd, mk.gotoNd])
                reach(c, m, lambda a, g, rj: goto(m, a, s, g, rj), r.random() < .3)
                c.eq(m.feature.selec.value, want if want is not None else before, "gotoNd-selection")
                c.check(isinstance(m.feature.selec.value, Flags), "selection-is-flags")
        c.state(name, point, repr(m.feature.selec.value), np.round(np.array(m.featureDes.position.value, float), 6).tolist())
        c.sample("%s on %s: %s" % (cls.__name__, point, m.feature.selec.value))


@vh.family(2000, 30000)
def relative_tasks(c):
    r = c.rng
    dyn = fresh(c)
    pts = ["rh", "lh"]
    r.shuffle(pts)
    have = [p for p in pts if r.random() < .4]
    for p in have:
        dyn.do_createOpPoint(p, "x")
    m = mr.MetaTaskKine6dRel("rel", dyn, pts[0], pts[1], "A", "B")
    c.eq(dyn.calls, [("createOpPoint", p, q) for p, q in zip(pts, "AB") if p not in have], "points-created-once")
    common(c, m, "rel", dyn, "position")
    c.eq(m.feature.selec.value, Flags("111111"), "all-selected")
    c.eq(m.feature.do_getFrame(), "current", "frame")
    P = [(dyn.signal(p), dyn.signal("J" + p)) for p in pts]
    sp, sb = (m.feature.position, m.feature.Jq), (m.feature.positionRef, m.feature.JqRef)
    op_state(c, m, True, None, sb, P[1])
    on = switches(c, m, "opmodif", m.opPointModif, sp, P[0])
    switches(c, m, "opmodifBase", m.opPointModifBase, sb, P[1])
    op_state(c, m, not on, m.opPointModif, sp, P[0])
    c.check(m.opPointModif is not m.opPointModifBase, "two-shifts")
    m.keep()
    c.eq(m.feature.calls[-1], ("keep",), "keep")
    for _ in range(r.randrange(1, 4)):
        before = m.feature.selec.value
        arg2, M2 = target(c)
        if r.random() < .5:
            reach(c, m, lambda a, g, rj: mr.goto6dRel(m, a, arg2, g, rj), r.random() < .3)
            c.eq(m.feature.selec.value, Flags("111111"), "goto6d-selects-all")
        else:
            s, want = selection(r)
            reach(c, m, lambda a, g, rj: mr.gotoNdRel(m, a, arg2, s, g, rj), r.random() < .3)
            c.eq(m.feature.selec.value, want if want is not None else before, "gotoNd-selection")
        c.near(np.array(m.featureDes.positionRef.value, float), M2, 1e-12, "base-target")
    c.state(pts, have, repr(m.feature.selec.value), np.round(np.array(m.featureDes.positionRef.value, float), 6).tolist())


@vh.family(1000, 10000)
def com_tasks(c):
    dyn = fresh(c)
    name = c.rng.choice(["com", "balance"])
    m = mk.MetaTaskKineCom(dyn) if name == "com" and c.rng.random() < .5 else mk.MetaTaskKineCom(dyn, name)
    common(c, m, name, dyn, "errorIN")
    c.check(src(m.feature.errorIN) is dyn.com and src(m.feature.jacobianIN) is dyn.Jcom, "reads-the-centre-of-mass")
    # setGain and generic6dReference by themselves
    g, gc = gainarg(c)
    mt.setGain(m.gain, g)
    c.eq([(x[0],) + tuple(map(float, x[1:])) for x in m.gain.calls], [(x[0],) + tuple(map(float, x[1:])) for x in gc], "set-gain")
    a, M = target(c)
    c.near(np.array(mt.generic6dReference(a), float), M, 1e-12, "generic-reference")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c.eq(m6.toFlags("101"), Flags("101"), "to-flags")
    c.state(name, np.round(M, 6).tolist(), repr(g))


RANGES = {"rleg": (6, 12), "rhip": (6, 9), "rknee": (9, 10), "rankle": (10, 12), "lleg": (12, 18), "lhip": (12, 15),
          "lknee": (15, 16), "lankle": (16, 18), "chest": (18, 20), "head": (20, 22), "rarm": (22, 28), "rshoulder": (22, 25),
          "relbow": (25, 26), "rwrist": (26, 28), "rhand": (28, 29), "larm": (29, 35), "lshoulder": (29, 32), "lelbow": (32, 33),
          "lwrist": (33, 35), "lhand": (35, 36)}


@vh.family(3000, 40000)
def posture_tasks(c):
    r = c.rng
    for i in range(r.choice([1, 2])):       # two robots of different sizes
        dyn = fresh(c)
        n = len(dyn.position.value)
        m = mp.MetaTaskKinePosture(dyn, "pos%d" % i)
        common(c, m, "pos%d" % i, dyn, "errorIN")
        c.check(src(m.feature.errorIN) is dyn.position, "reads-the-position")
        c.near(np.array(m.feature.jacobianIN.value, float), np.eye(n), 0, "identity-jacobian")
        for _ in range(r.randrange(1, 4)):
            limbs = r.sample(sorted(RANGES), r.randrange(0, 4))
            # limbs that share no joint, so that the order cannot matter
            used, kw, q, act = set(), {}, [0.] * n, [False] * n
            qd = None
            if r.random() < .5:
                q = [r.gauss(0, 1) for _ in range(n)]
                qd = tuple(q) if r.random() < .6 else np.matrix(q).T
            for l in limbs:
                lo, hi = RANGES[l]
                if used & set(range(lo, hi)):
                    continue
                used |= set(range(lo, hi))
                v = [r.gauss(0, 1) for _ in range(hi - lo)]
                form = r.randrange(6)
                c.ev("posture-form%d" % form)
                kw[l] = [(), [], tuple(v), list(v), np.matrix(v), np.matrix(v).T][form]
                if form < 2:
                    kw[l] = []
                else:
                    q[lo:hi] = v
                act[lo:hi] = [True] * (hi - lo)
            g, gc = gainarg(c)
            k = len(m.gain.calls)
            c.log("qdes", qd is not None, kw)
            if qd is None:
                m.gotoq(g, **kw)
            else:
                m.gotoq(gain=g, qdes=qd, **kw)
            c.near(m.ref, q, 0, "posture-target")
            c.near(m.featureDes.errorIN.value, q, 0, "posture-target-sent")
            c.eq(m.feature.selec.value, Flags(act), "selected-joints")
            c.eq([x[0] for x in m.gain.calls[k:]], [x[0] for x in gc], "gain-command")
            c.eq([tuple(map(float, x[1:])) for x in m.gain.calls[k:]], [tuple(map(float, x[1:])) for x in gc], "gain-values")
            c.ev("gotoq")
            c.state(n, sorted(kw), q[:8])
            c.sample("n=%d limbs=%s qdes=%s" % (n, sorted(kw), qd is not None))


@vh.family(1500, 20000)
def visual_tasks(c):
    r = c.rng
    dyn = fresh(c)
    have = r.random() < .4
    if have:
        dyn.do_createOpPoint("cam", "x")
    m = mv.MetaTaskVisualPoint("gaze", dyn, "cam", "head")
    c.eq(dyn.calls, [] if have else [("createOpPoint", "cam", "head")], "point-created-once")
    common(c, m, "gaze", dyn, "xy")
    c.eq(Flags(m.feature.selec.value), Flags("11"), "all-selected")
    c.check(src(m.feature.xy) is m.proj.point2D, "reads-the-image-point")
    c.check(src(m.feature.Z) is m.proj.depth, "reads-the-depth")
    c.eq(m.gain.calls, [("set", 0.1, 0.1, 125e3)], "default-gain")
    switches(c, m, "opmodif", m.opPointModif, (m.proj.transfo, m.feature.Jq), (dyn.cam if hasattr(dyn, "cam") else dyn.signal("cam"), dyn.signal("Jcam")))
    for _ in range(r.randrange(1, 4)):
        p = tuple(r.gauss(0, 1) for _ in range(3))
        g, gc = gainarg(c)
        k = len(m.gain.calls)
        ref0, sel0 = m.ref, m.feature.selec.value
        ref = (r.gauss(0, 1), r.gauss(0, 1)) if r.random() < .5 else None
        sel = Flags(r.choice(["01", "10", "11"])) if r.random() < .5 else None
        m.goto3D(p, g, ref, sel)
        c.eq(m.proj.point3D.value, p, "target-point")
        c.check(m.ref == ref if ref is not None else m.ref is ref0, "image-target")
        c.eq(Flags(m.feature.selec.value), sel if sel is not None else Flags(sel0), "selection")
        c.eq([x[0] for x in m.gain.calls[k:]], [x[0] for x in gc], "gain-command")
        c.eq([tuple(map(float, x[1:])) for x in m.gain.calls[k:]], [tuple(map(float, x[1:])) for x in gc], "gain-values")
        c.state(p, ref, repr(sel))
    q = (9., 8., 7.)
    m.target = q
    c.eq(m.proj.point3D.value, q, "target-property")


@vh.family(2000, 20000)
def features(c):
    r = c.rng
    dyn = fresh(c)
    dyn.do_createOpPoint("a", "x")
    dyn.do_createOpPoint("b", "x")
    mat = lambda: tuple(tuple(x) for x in np.round(Rz4(r), 9).tolist())
    if r.random() < .5:
        sp = dyn.signal("a") if r.random() < .7 else None
        sj = dyn.signal("Ja") if r.random() < .7 else None
        ref = mat() if r.random() < .7 else None
        f = fp.FeaturePosition("fpos", sp, sj, ref)
        F, R = POOL["fpos"], POOL["fpos_ref"]
        c.check(src(F.position) is sp, "position-plugged")
        c.check(src(F.Jq) is sj, "jacobian-plugged")
        c.eq(R.position.value, ref, "reference-value")
        c.check(f.position is F.position and f.reference is R.position and f.Jq is F.Jq and f.error is F.error
                and f.selec is F.selec and f.velocity is R.velocity and f.errordot is F.errordot, "members")
        names = {"position": F.position, "reference": R.position, "Jq": F.Jq, "error": F.error, "selec": F.selec}
        c.state("fp", sp is None, sj is None, ref)
    else:
        args = [dyn.signal("a"), dyn.signal("b"), mat(), mat()]
        args = [x if r.random() < .7 else r.choice([None, mat()]) for x in args]
        bj = dyn.signal("Ja") if r.random() < .7 else None
        oj = dyn.signal("Jb") if r.random() < .7 else None
        f = fpr.FeaturePositionRelative("fpos", args[0], args[1], args[2], args[3], bj, oj)
        F, R = POOL["fpos"], POOL["fpos_ref"]
        I = tuple(tuple(1. if i == j else 0. for j in range(4)) for i in range(4))
        for a, s, k in zip(args, (F.positionRef, F.position, R.positionRef, R.position), ("base", "other", "baseReference", "otherReference")):
            if isinstance(a, SignalBase):
                c.check(src(s) is a, k + "-plugged")
            else:
                c.check(src(s) is None, k + "-not-plugged")
                c.eq(s.const, I if a is None else a, k + "-value")
        c.check(src(F.JqRef) is bj and src(F.Jq) is oj, "jacobians-plugged")
        names = {"basePosition": F.positionRef, "otherPosition": F.position, "baseReference": R.positionRef,
                 "otherReference": R.position, "JqBase": F.JqRef, "JqOther": F.Jq, "error": F.error,
                 "jacobian": F.jacobian, "selec": F.selec}
        for k, v in names.items():
            c.check(getattr(f, k) is v, "members")
        c.state("fpr", [repr(a) for a in args], bj is None, oj is None)
    c.eq([x for x in F.calls if x[0] == "setReference"], [("setReference", "fpos_ref")], "reference")
    c.eq(F.selec.value, Flags("111111"), "all-selected")
    c.eq(F.do_getFrame(), "current", "frame")
    for k, v in names.items():
        c.check(f.signal(k) is v, "signal-by-name")
    c.eq(sorted(map(repr, f.signals())), sorted(map(repr, names.values())), "signals-listed")
    c.throws(RuntimeError, lambda: f.signal("nosuch"), "unknown-signal")
    c.eq(f.name, "fpos", "name")
    f.frame("desired")
    c.eq(F.fr, "desired", "frame-set")
    n = len(F.calls)
    f.keep()
    c.eq(F.calls[n:], [("keep",)], "keep")
    c.check("frame" in f.commands() and "keep" in f.commands(), "commands-listed")
    c.ev("feature")


def Rz4(r):
    M = np.eye(4)
    M[:3, :3] = Rz(*[r.uniform(-3, 3) for _ in range(3)])
    M[:3, 3] = [r.gauss(0, 1) for _ in range(3)]
    return M


vh.main()
