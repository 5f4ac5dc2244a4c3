#!/usr/bin/env python3
# @rule scripted robots, signals and viewers; each display call made by the helpers and each logged row is recorded and compared with what the robot went through; distinct = distinct display logs
# @assume Files are opened and removed through stand-ins, so nothing outside the case is touched.
import contextlib, io, os, sys, types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.load_core()
import dynamic_graph.sot.core.utils.viewer_helper as mod
import dynamic_graph.sot.core.utils.viewer_loger as lmod
assert mod.__file__.startswith(vh.SRC) and lmod.__file__.startswith(vh.SRC)
mod.print = lambda *a: None


class Sig:
    def __init__(self, v=None, t=0):
        self.value, self.time = v, t


class Client:
    def __init__(self, log, fail=False):
        self.log, self.failing = log, fail

    def updateElementConfig(self, name, q):
        if self.failing:
            raise IOError("no connection")
        self.log.append((name, list(q)))


def robot(c, log, name):
    class Robot:
        def __init__(self):
            self.name = name
            self.state = Sig(tuple(c.rng.gauss(0, 1) for _ in range(c.rng.randrange(6, 12))))
            self.steps = []

        def increment(self, dt):
            self.steps.append(("increment", dt, len(log)))
            self.state.time += 1
            self.state.value = tuple(x + dt for x in self.state.value)

        def set(self, *a):
            self.steps.append(("set", a, len(log)))
            self.state.value = tuple(a[0])
    return Robot()


def callback(k, got, log):
    def f():
        got.append((k, len(log)))
    f.k = k
    return f


@vh.family(1500, 20000)
def robots(c):
    """Several robots, some of one class, attached in any order, some twice."""
    r = c.rng
    log = []
    m = types.ModuleType("robotviewer")
    m.client = lambda s: Client(log)
    sys.modules["robotviewer"] = m
    bots, extra = [], {}
    for i in range(r.randrange(2, 5)):
        b = robot(c, log, "bot%d" % i)
        if bots and r.random() < .6:
            one = type(bots[0])
            b2 = one()
            b2.name, b2.state = b.name, b.state
            b = b2
        bots.append(b)
    on = []
    for _ in range(r.randrange(4, 14)):
        b = r.choice(bots)
        if b not in on or r.random() < .15:
            k = r.choice([None, None, 0, 3, 10])
            del log[:]
            mod.addRobotViewer(b, verbose=False, **({} if k is None else dict(small=True, small_extra=k)))
            extra[b.name] = [0.] * (k or 0)
            c.ev("attached-again" if b in on else "attached")
            on += [] if b in on else [b]
            c.eq(log, [(b.name, [float(x) for x in b.state.value] + extra[b.name])], "shown-at-start")
            got = []
            b.displayList.append(callback(b.name, got, log))
            b.got = got
            continue
        del log[:]
        n, v, before = len(b.steps), b.state.value, len(b.got)
        k = r.randrange(3)
        if k == 0:
            b.increment(.5)
            c.eq(b.state.value, tuple(x + .5 for x in v), "increments")
        elif k == 1:
            b.set(tuple(r.gauss(0, 1) for _ in v))
        else:
            b.refresh()
        c.eq(len(b.steps) - n, int(k < 2), "changes-once")
        c.eq(log, [(b.name, [float(x) for x in b.state.value] + extra[b.name])], "shown-once")
        c.eq(b.got[before:], [(b.name, 1)], "display-callbacks")
        c.ev("step")
    c.state(len(bots), len(on), str(sorted(map(str, extra.items()))))


@vh.family(3000, 40000)
def display(c):
    r = c.rng
    log = []
    name = r.choice(["robot", "robot_device", "romeo", "hrp2", "device"])
    shown = "hrp" if name in ("robot", "robot_device") else name
    rb = robot(c, log, name)
    conn = r.choice(["ok", "ok", "ok", "missing", "broken"])
    servers = []
    if conn == "missing":
        sys.modules["robotviewer"] = None
    else:
        m = types.ModuleType("robotviewer")
        m.client = lambda s: servers.append(s) or Client(log, conn == "broken")
        sys.modules["robotviewer"] = m
    kw = {}
    small = r.random() < .5
    if small:
        kw["small"] = True
        if r.random() < .5:
            kw["small_extra"] = r.randrange(0, 15)
    if r.random() < .5:
        kw["server"] = r.choice(["XML-RPC", "CORBA"])
    if r.random() < .5:
        kw["verbose"] = r.random() < .5
    fresh = r.random() < .7
    if not fresh:
        kw["dorefresh"] = False
    if r.random() < .3 and fresh:
        kw["dorefresh"] = True
    if conn == "broken":
        kw.pop("dorefresh", None)
        fresh = True
    mod.addRobotViewer(rb, **kw)
    extra = [0.] * (kw.get("small_extra", 10) if small else 0)
    full = lambda: [float(x) for x in rb.state.value] + extra
    if conn != "ok":
        # without a viewer the robot still works and displays nothing
        rb.viewer.updateElementConfig("x", [0])
        rb.viewer.update(1, 2)
        c.eq(log, [], "nothing-shown")
        c.ev("no-viewer")
        if conn == "missing":
            v = rb.state.value
            rb.increment(.5)
            c.eq(rb.state.value, tuple(x + .5 for x in v), "robot-still-works")
        c.state("none", name, conn)
        return
    c.eq(servers, [kw.get("server", "XML-RPC")], "server")
    want = [(shown, full())] if fresh else []
    c.eq(log, want, "shown-at-start")
    calls, got = [], []
    for _ in range(r.randrange(1, 12)):
        k = r.randrange(6)
        if k < 2:
            dt = r.choice([.5, .25, 1.])
            v = rb.state.value
            rb.increment(dt)
            c.eq(rb.state.value, tuple(x + dt for x in v), "increments")
            c.eq(rb.steps[-1], ("increment", dt, len(want)), "increments-then-shows")
            c.eq(len([s for s in rb.steps]), len(rb.steps), "once")
            want.append((shown, full()))
            calls += [(f.k, len(want)) for f in rb.displayList]
        elif k == 2:
            q = tuple(r.gauss(0, 1) for _ in range(r.randrange(6, 9)))
            a = (q,) if r.random() < .5 else (q, 1)
            rb.set(*a)
            c.eq(rb.steps[-1], ("set", a, len(want)), "sets-then-shows")
            want.append((shown, full()))
            calls += [(f.k, len(want)) for f in rb.displayList]
        elif k == 3:
            rb.refresh()
            want.append((shown, full()))
            calls += [(f.k, len(want)) for f in rb.displayList]
        elif k == 4:
            rb.displayList.append(callback(len(rb.displayList), got, log))
        else:
            s = Sig((r.gauss(0, 1), r.gauss(0, 1), r.gauss(0, 1)), r.choice([0, 1, 5]))
            nm = r.choice(["com", "zmp"])
            mod.updateComDisplay(rb, s, nm) if nm != "com" or r.random() < .5 else mod.updateComDisplay(rb, s)
            if s.time > 0:
                want.append((nm, [s.value[0], s.value[1], 0, 0, 0, 0]))
        c.eq(log, want, "shown")
        c.ev("operation")
    c.eq(got, calls, "display-callbacks")
    log2 = []
    p = mod.VisualPinger(Client(log2))
    n = r.randrange(0, 5)
    for _ in range(n):
        p()
    c.eq([x[0] for x in log2], ["pong"] * (n + 1), "ping-shown")
    for i, x in enumerate(log2):
        c.near(x[1], [0, .9, (i + 1) * .1, 0, 0, 0], 1e-12, "ping-rises")
    c.state(name, sorted(kw.items()), [tuple(map(str, x)) for x in log])
    c.sample("%s: %d displays" % (name, len(log)))


class FakeFile(io.StringIO):
    def close(self):
        pass


@vh.family(3000, 30000)
def logger(c):
    r = c.rng
    log, files, removed = [], {}, []
    rb = robot(c, log, "robot")
    rb.viewer = real = Client(log)
    old = r.sample(["/tmp/view_a.dat", "/tmp/view_hrp.dat", "/tmp/view_com.dat"], r.randrange(0, 4))
    stand = types.SimpleNamespace(remove=lambda f: removed.append(f), unlink=lambda f: removed.append(f), path=os.path)
    pats = []
    lmod.glob = types.SimpleNamespace(glob=lambda p: pats.append(p) or list(old))
    lmod.os = stand

    def op(f, mode="r", *a, **k):
        c.check(mode.startswith("w") or mode.startswith("a"), "opened-to-write")
        if mode.startswith("w") or f not in files:
            files[f] = FakeFile()
        return files[f]
    lmod.open = op
    rb.viewer = lg = lmod.ViewerLoger(rb)
    c.eq(sorted(removed), sorted(old), "earlier-logs-removed")
    c.check(all(p.startswith("/tmp/view") for p in pats), "only-logs-are-removed")
    want, rows = [], {}
    for _ in range(r.randrange(0, 25)):
        n = r.choice(["hrp", "com", "pong"])
        q = [r.choice([0, 1.5, r.gauss(0, 1)]) for _ in range(r.randrange(1, 9))]
        rb.state.time += r.choice([0, 1, 2])
        lg.updateElementConfig(n, r.choice([list, tuple])(q))
        want.append((n, q))
        rows.setdefault(n, []).append([rb.state.time] + q)
        c.ev("row")
    c.eq(log, want, "shown-as-well")
    got = {}
    for f, o in files.items():
        got[f] = [[float(x) for x in l.split("\t")] for l in o.getvalue().split("\n") if l]
    c.eq(got, {"/tmp/view_%s.dat" % n: v for n, v in rows.items()}, "rows-logged")
    c.state(sorted(got.items()))
    c.sample("%d rows in %d files" % (len(want), len(got)))


vh.main()
