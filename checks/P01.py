#!/usr/bin/env python3
# @rule random poses (uniform, quarter turns, near and exactly singular pitch), vectors, matrices and quaternions; every conversion is compared with an independent computation and with its reverse; distinct = distinct rounded inputs
# @assume Inside |pitch -+ pi/2| < 0.001 the helpers' own singular branch is used: there the round trip is checked to 4e-3 only.
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import warnings
warnings.simplefilter("ignore")
import numpy as np
import vh
vh.load_core()
import dynamic_graph.sot.core.matrix_util as mod
assert mod.__file__.startswith(vh.SRC), mod.__file__

PI = math.pi


def R(axis, a):
    """rotation by Rodrigues' formula, independent of the code checked"""
    k = {"x": (1, 0, 0), "y": (0, 1, 0), "z": (0, 0, 1)}[axis]
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]], float)
    return np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * K.dot(K)


def angle(r):
    k = r.randrange(6)
    if k == 0:
        return r.randrange(-4, 5) * PI / 2
    if k == 1:
        return r.uniform(-1, 1) * 1e-4
    if k == 2:
        return r.uniform(-10, 10)
    return r.uniform(-PI, PI)


def pitch(r):
    k = r.randrange(8)
    if k == 0:
        return r.choice([-1, 1]) * PI / 2
    if k == 1:
        return r.choice([-1, 1]) * (PI / 2 - r.uniform(0, 3e-3))
    return r.uniform(-PI / 2, PI / 2)


def rotm(r):
    return R("z", angle(r)).dot(R("y", pitch(r))).dot(R("x", angle(r)))


def pose(r):
    M = np.eye(4)
    M[:3, :3] = rotm(r)
    M[:3, 3] = [r.choice([0, 1, r.gauss(0, 1), r.gauss(0, 100)]) for _ in range(3)]
    return M


def form(r, M):
    k = r.randrange(3)
    return M if k == 0 else tuple(tuple(x) for x in M.tolist()) if k == 1 else M.tolist()


@vh.family(16000, 120000)
def pose_rpy(c):
    M = pose(c.rng)
    c.log("M", M.tolist())
    v = mod.matrixToRPY(form(c.rng, M))
    c.check(len(v) == 6, "six-values")
    c.near(v[:3], M[:3, 3], 0, "position")
    p = math.atan2(-M[2, 0], math.hypot(M[2, 1], M[2, 2]))
    sing = abs(abs(p) - PI / 2) < 0.0010001
    tol = 4e-3 if sing else 1e-9
    c.ev("singular" if sing else "regular")
    vv = v if c.rng.random() < .5 else tuple(v) if c.rng.random() < .5 else np.array(v)
    N = mod.RPYToMatrix(vv)
    c.near(N[:3, 3], M[:3, 3], 0, "position-back")
    c.near(N[3], [0, 0, 0, 1], 0, "last-row")
    c.near(N[:3, :3], M[:3, :3], tol, "rotation-back")
    c.near(N[:3, :3].dot(N[:3, :3].T), np.eye(3), 1e-12, "orthonormal")
    c.near(v[4], p, 1e-9, "pitch")
    # the three angles mean rotation about fixed x, then y, then z
    c.near(R("z", v[5]).dot(R("y", v[4])).dot(R("x", v[3])), M[:3, :3], tol, "angles-mean-fixed-xyz")
    t = mod.tr2rpy(M)
    c.near(t[::-1], v[3:], 0, "tr2rpy-is-yaw-pitch-roll")
    c.check(all(isinstance(x, float) for x in t), "floats")
    c.state(tuple(np.round(M, 6).ravel()))
    c.sample("M=%s -> %s" % (np.round(M, 4).tolist(), np.round(v, 5).tolist()))


@vh.family(12000, 90000)
def rpy_pose(c):
    r = c.rng
    v = [r.gauss(0, 2) for _ in range(3)] + [angle(r), angle(r), angle(r)]
    if r.random() < .5:
        v[3:] = [r.uniform(-PI + 1e-6, PI - 1e-6), r.uniform(-PI / 2 + 0.002, PI / 2 - 0.002), r.uniform(-PI + 1e-6, PI - 1e-6)]
    c.log("rpy", v)
    want = R("z", v[5]).dot(R("y", v[4])).dot(R("x", v[3]))
    T = mod.rpy2tr(v[3], v[4], v[5])
    c.check(isinstance(T, tuple) and all(isinstance(x, tuple) for x in T), "rpy2tr-tuple")
    T = np.array(T)
    c.check(T.shape == (4, 4), "rpy2tr-shape")
    c.near(T[:3, :3], want, 1e-12, "rpy2tr-rotation")
    c.near(T[:3, 3], [0, 0, 0], 0, "rpy2tr-position")
    c.near(T[3], [0, 0, 0, 1], 0, "rpy2tr-last-row")
    M = mod.RPYToMatrix(v)
    c.near(M[:3, :3], want, 1e-12, "rotation")
    c.near(M[:3, 3], v[:3], 0, "position")
    if abs(v[4]) < PI / 2 - 0.0015 and abs(v[3]) < PI - 1e-7 and abs(v[5]) < PI - 1e-7:
        c.ev("unique-angles")
        c.near(mod.matrixToRPY(M), v, 1e-8, "angles-back")
    w = mod.matrixToRPY(M)
    N = mod.RPYToMatrix(w)
    c.near(N, M, 4e-3, "pose-back")
    c.state(tuple(np.round(v, 6)))


@vh.family(6000, 40000)
def elementary(c):
    r = c.rng
    a = angle(r)
    ax = r.choice("xyz")
    T = np.array(mod.rotate(ax, a), float)
    c.check(T.shape == (4, 4), "rotate-shape")
    c.near(T[:3, :3], R(ax, a), 1e-12, "rotate")
    c.near(np.concatenate([T[:3, 3], T[3]]), [0, 0, 0, 0, 0, 0, 1], 0, "rotate-frame")
    q = np.array([r.gauss(0, 1) for _ in range(4)])
    k = r.randrange(6)
    if k == 0:
        q = np.eye(4)[r.randrange(4)] * r.choice([-1, 1])
    elif k == 1:
        q[r.randrange(4)] = 0
    q = q / np.linalg.norm(q)
    M = np.array(mod.quaternionToMatrix(r.choice([list, tuple, np.array])(q)), float)
    c.check(M.shape == (3, 3), "quaternion-shape")
    n, w = q[:3], q[3]
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    want = np.eye(3) * (w * w - n.dot(n)) + 2 * np.outer(n, n) + 2 * w * K
    c.near(M, want, 1e-12, "quaternion-rotation")
    c.near(M.dot(M.T), np.eye(3), 1e-12, "quaternion-orthonormal")
    c.near(np.linalg.det(M), 1, 1e-12, "quaternion-det")
    c.near(mod.quaternionToMatrix(list(-q)), M, 1e-15, "quaternion-sign")
    A, B = pose(r), pose(r)
    c.near(mod.distVector(form(r, B), form(r, A)), A[:3, 3] - B[:3, 3], 0, "position-difference")
    c.state(ax, round(a, 6), tuple(np.round(q, 6)))


@vh.family(6000, 40000)
def tuples(c):
    r = c.rng
    n, m = r.randrange(1, 8), r.randrange(1, 8)
    vals = [[r.choice([r.gauss(0, 1), r.randrange(-5, 6), 1e300, 0.0, -0.0, 1e-310]) for _ in range(m)] for _ in range(n)]
    if r.random() < .3:
        vals = [[int(r.randrange(-9, 9)) for _ in range(m)] for _ in range(n)]
    want = tuple(tuple(x) for x in vals)
    for conv in (np.array, np.matrix):
        t = mod.matrixToTuple(conv(vals))
        c.check(isinstance(t, tuple) and all(isinstance(x, tuple) for x in t), "matrix-tuple-type")
        c.eq(t, want, "matrix-tuple")
        t = mod.matrixToTuple(conv(vals).T)
        c.eq(t, tuple(zip(*vals)), "matrix-tuple-transposed")
    v = tuple(vals[0])
    for x in (np.array(v), np.matrix(v), np.matrix(v).T, np.array([v]), np.array([v]).T, np.asfortranarray(np.array([v]))):
        t = mod.vectorToTuple(x)
        c.check(isinstance(t, tuple), "vector-tuple-type")
        c.eq(t, v, "vector-tuple")
    c.state(n, m, vals[0][0])


@vh.family(6000, 40000)
def orthonormal(c):
    r = c.rng
    v = [r.gauss(0, 1) * 10 ** r.uniform(-3, 3) for _ in range(3)]
    k = r.randrange(5)
    if k == 0:
        v = [0, 0, 0]
        v[r.randrange(3)] = r.choice([-1, 1, 2])
    elif k == 1:
        v = [r.randrange(-3, 4) for _ in range(3)]
        if not any(v):
            v[0] = 1
    c.log("v1", v)
    M = mod.generateOrthonormalM(r.choice([list, tuple, np.array])(v))
    c.check(isinstance(M, tuple), "type")
    M = np.array(M)
    c.check(M.shape == (3, 3), "shape")
    c.near(M[:, 0], np.array(v) / np.linalg.norm(v), 1e-12, "first-column")
    c.near(M.T.dot(M), np.eye(3), 1e-7, "orthonormal")
    c.near(np.linalg.det(M), 1, 1e-7, "determinant-one")
    c.state(tuple(np.round(v, 6)))
    c.ev("generated")


vh.main()
