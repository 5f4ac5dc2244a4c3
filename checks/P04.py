#!/usr/bin/env python3
# @rule real threads: random programs of play, pause, once and quit issued while the loop is idle, running, or held inside a step, with injected delays; an offline checker reads the log of step starts and ends; distinct = distinct event histories
# @assume A pause issued between two steps may still see one step that had already been decided; pauses issued inside a step allow none.
# @timeout 300
import os, sys, threading, time, types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.load_core()
# the shortcuts module is part of dynamic-graph-python, which is not here: a
# function marked with it is called by its name alone as well
ss = types.ModuleType("dynamic_graph.script_shortcuts")


class optionalparentheses:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def __repr__(self):
        self.f()
        return ""


ss.optionalparentheses = optionalparentheses
sys.modules[ss.__name__] = ss
import dynamic_graph.sot.core.utils.thread_interruptible_loop as mod
assert mod.__file__.startswith(vh.SRC), mod.__file__
_print = print
mod.print = lambda *a: None
LIMIT = 20.         # how long a wait may last before it counts as a failure
slow = [0]          # failed waits so far: the next ones need not be as patient


class Rig:
    def __init__(self, c):
        self.c, self.r = c, c.rng
        self.lock = threading.Lock()
        self.log = []               # ("start"|"end"|"cmd", what)
        self.active = 0
        self.overlap = False
        self.hold = threading.Event()      # steps block while it is clear
        self.hold.set()
        self.inside = threading.Event()
        self.started = self.ended = 0
        self.threads = set()
        self.delay = self.r.choice([0, 0, 1e-4, 5e-4])
        self.raised = 0
        self.runner, self.byhand = None, False
        self.done = 0               # steps completed by the loop itself
        self.counts = []            # the iteration count seen inside each step

    def step(self):
        with self.lock:
            self.active += 1
            if self.active > 1:
                self.overlap = True
            self.started += 1
            self.threads.add(threading.get_ident())
            self.log.append(("start", self.started))
        self.inside.set()
        if self.delay:
            time.sleep(self.delay)
        self.hold.wait(LIMIT)
        if not self.byhand and self.runner is not None:
            self.counts.append((self.runner.iter, self.done))
        self.inside.clear()
        with self.lock:
            self.active -= 1
            self.ended += 1
            self.done += not self.byhand
            self.log.append(("end", self.ended))

    def cmd(self, what, f):
        with self.lock:
            self.log.append(("cmd", what))
        self.c.log(what, self.started, self.ended)
        f()

    def wait(self, cond, key):
        t = time.time()
        n = 0
        while not cond():
            n += 1
            time.sleep(1e-4 if n < 200 else 2e-3)
            if time.time() - t > (LIMIT if slow[0] < 3 else 3):
                slow[0] += 1
                self.c.fail(key, "waited %gs: started %d ended %d" % (LIMIT, self.started, self.ended))
        self.c.st["checks"] += 1


def make(rig):
    nap = rig.r.choice([1e-5, 1e-4, 1e-3])
    rig.turns = 0
    rig.nap = nap

    class Turns:
        # the loop reads its sleep time once a turn: that tells when it went by
        @property
        def sleepTime(self):
            rig.turns += 1
            return nap
    if rig.r.random() < .5:
        class L(Turns, mod.loopInThread(rig.step)):
            pass
    else:
        class L(Turns, mod.ThreadInterruptibleLoop):
            def loop(self):
                rig.step()
    return L()


def idle(rig, runner):
    """let many turns of the loop go by"""
    t, n = time.time(), rig.turns
    time.sleep(max(0.004, 8 * rig.nap) + rig.delay * 3)
    while rig.turns < n + 4 and time.time() - t < 2:
        time.sleep(1e-3)


@vh.family(1600, 12000)
def commands(c):
    rig = Rig(c)
    r = c.rng
    runner = rig.runner = make(rig)
    c.check(runner.daemon, "does-not-block-the-interpreter")
    c.check(rig.started == 0, "nothing-before-start")
    [go, stop, nxt, n] = mod.loopShortcuts(runner)
    play = (lambda: go()) if r.random() < .3 else runner.play
    pause = (lambda: stop()) if r.random() < .3 else runner.pause
    rig.cmd("play", play)
    rig.wait(lambda: rig.started >= 1, "play-starts-the-loop")
    rig.wait(lambda: runner.isRunning, "running-flag")
    mode = "play"
    for _ in range(r.randrange(2, 9)):
        k = r.randrange(8)
        if mode == "play":
            if k < 3:                                   # pause from inside a step
                rig.hold.clear()
                rig.wait(lambda: rig.inside.is_set() and rig.active == 1 and rig.started > rig.ended, "keeps-stepping")
                s = rig.started
                rig.cmd("pause-in-step", pause)
                if r.random() < .3:
                    time.sleep(1e-3)
                rig.hold.set()
                rig.wait(lambda: rig.ended == s, "step-completes")
                idle(rig, runner)
                c.eq(rig.started, s, "no-step-after-pause")
                mode = "pause"
                c.ev("pause-in-step")
            elif k < 5:                                 # pause at any moment
                time.sleep(r.uniform(0, 2e-3))
                rig.cmd("pause", pause)
                s = rig.started
                idle(rig, runner)
                c.check(rig.started <= s + 1, "at-most-one-decided-step", lambda: "%d steps" % (rig.started - s))
                rig.wait(lambda: rig.started == rig.ended, "step-completes")
                s = rig.started
                idle(rig, runner)
                c.check(rig.started <= s + 1, "no-step-after-pause")
                mode = "pause"
                c.ev("pause")
            elif k == 5:                                # play again changes nothing
                rig.cmd("play-again", play)
                s = rig.started
                rig.wait(lambda: rig.started > s + 2, "keeps-stepping")
            else:
                s = rig.started
                rig.wait(lambda: rig.started > s + r.randrange(3), "keeps-stepping")
                c.ev("running")
        else:
            # the loop is idle: no step is under way (one may have been decided)
            rig.wait(lambda: rig.started == rig.ended, "step-completes")
            if k < 4:
                if k == 0:                              # play issued during a single step goes on
                    rig.hold.clear()
                    s = rig.started
                    rig.cmd("once", runner.once)
                    rig.wait(lambda: rig.started == s + 1 and rig.inside.is_set(), "one-step")
                    rig.cmd("play-in-step", play)
                    rig.hold.set()
                    rig.wait(lambda: rig.started > s + 3, "play-during-single-step")
                    mode = "play"
                    c.ev("play-in-single-step")
                else:
                    m = r.choice([1, 1, 2, 3])
                    s = rig.started
                    for i in range(m):
                        rig.cmd("once", runner.once)
                        rig.wait(lambda: rig.ended >= s + i + 1 and not runner.isPlay, "single-step-done")
                    idle(rig, runner)
                    c.eq(rig.started, s + m, "single-steps")
                    c.eq(runner.iter, rig.ended, "iteration-count")
                    c.ev("once", m)
            elif k == 4:
                s, e = rig.started, rig.ended
                m = r.randrange(0, 5)
                rig.byhand = True
                if r.random() < .5:
                    for i in range(m):
                        nxt() if r.random() < .5 else repr(nxt)
                else:
                    n + m
                rig.byhand = False
                c.eq((rig.started - s, rig.ended - e), (m, m), "steps-by-hand")
                c.check(rig.threads <= {runner.ident, threading.get_ident()}, "threads")
                # steps run by the caller are not iterations of the loop
                rig.hand = getattr(rig, "hand", 0) + m
                rig.ended -= m
                rig.started -= m
                c.ev("by-hand", m)
            elif k == 5:
                rig.cmd("pause-again", pause)
                s = rig.started
                idle(rig, runner)
                c.eq(rig.started, s, "no-step-while-paused")
            else:
                s = rig.started
                rig.cmd("play", play)
                rig.wait(lambda: rig.started > s + 1, "play-resumes")
                mode = "play"
                c.ev("resume")
        c.check(not rig.overlap, "steps-do-not-overlap")
    # the end
    if mode == "play" and r.random() < .6:
        rig.hold.clear()
        rig.wait(lambda: rig.inside.is_set() and rig.started > rig.ended, "keeps-stepping")
        s = rig.started
        rig.cmd("quit-in-step", runner.quit)
        rig.hold.set()
        runner.join(LIMIT if slow[0] < 3 else 3)
        slow[0] += runner.is_alive()
        c.check(not runner.is_alive(), "quit-ends-the-thread")
        c.eq(rig.started, s, "no-step-after-quit")
        c.ev("quit-in-step")
    else:
        rig.cmd("quit", runner.quit)
        s = rig.started
        runner.join(LIMIT if slow[0] < 3 else 3)
        slow[0] += runner.is_alive()
        c.check(not runner.is_alive(), "quit-ends-the-thread")
        c.check(rig.started <= s + 1, "no-step-after-quit")
        c.ev("quit")
    c.eq(rig.started, rig.ended, "every-step-completes")
    c.eq(runner.iter, rig.ended, "iteration-count")
    c.check(all(a == b for a, b in rig.counts), "iteration-count-inside-a-step",
            lambda: [x for x in rig.counts if x[0] != x[1]][:3])
    c.check(not runner.isRunning, "running-flag-cleared")
    c.check(not rig.overlap, "steps-do-not-overlap")
    c.check(rig.threads <= {runner.ident, threading.get_ident()}, "one-thread")
    c.ev("steps", rig.ended)
    c.state([x for x in rig.log])
    c.sample([x[1] for x in rig.log if x[0] == "cmd"])


@vh.family(300, 3000)
def beginning(c):
    """Commands issued while the thread is only starting."""
    r = c.rng
    rig = Rig(c)
    late = r.choice([0, 1e-4, 2e-3, 1e-2])
    base = mod.loopInThread(rig.step)

    class L(base):
        sleepTime = 1e-4

        def run(self):
            time.sleep(late)            # the new thread is slow to begin
            base.run(self)
    runner = rig.runner = L()
    rig.cmd("play", runner.play)
    how = r.choice(["play", "pause", "quit", "once"])
    if r.random() < .5:
        time.sleep(r.uniform(0, 2 * late))
    c.log(how, late)
    if how == "play":
        try:
            for _ in range(r.choice([1, 1, 3])):
                rig.cmd("play", runner.play)
        except RuntimeError as e:
            c.fail("play-again-while-starting", repr(e))
        rig.wait(lambda: rig.started > 2, "keeps-stepping")
    elif how == "pause":
        rig.cmd("pause", runner.pause)
        time.sleep(late + 5e-3)
        s = rig.started
        time.sleep(5e-3)
        c.check(rig.started <= s + 1, "no-step-after-pause")
        try:
            rig.cmd("play", runner.play)
        except RuntimeError as e:
            c.fail("play-again-while-starting", repr(e))
        rig.wait(lambda: rig.started > s + 3, "play-resumes")
    elif how == "once":
        rig.cmd("once", runner.once)
        rig.wait(lambda: not runner.isPlay, "single-step-done")
        rig.wait(lambda: rig.started == rig.ended, "step-completes")
    s = rig.started
    rig.cmd("quit", runner.quit)
    runner.join(LIMIT if slow[0] < 3 else 3)
    slow[0] += runner.is_alive()
    c.check(not runner.is_alive(), "quit-ends-the-thread", lambda: "quit %s after play" % how)
    c.check(rig.started <= s + 1, "no-step-after-quit")
    c.eq(runner.iter, rig.ended, "iteration-count")
    c.ev("began-" + how)
    c.state(how, late, rig.ended)


vh.main()
