#!/usr/bin/env python3
# @rule random programs of registrations (all accepted forms), stops, pings, single runs and fast-forwards against a list model; every call is logged in order with its arguments; distinct = distinct call logs
# @assume Actions that edit the calendar for the time being run (other than a permanent action that stops itself) are left out: the order in which such an edit takes effect is not documented.
import contextlib, io, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.load_core()
import dynamic_graph.sot.core.utils.attime as mod
assert mod.__file__.startswith(vh.SRC), mod.__file__
ALWAYS, STOP = mod.ALWAYS, mod.STOP


class World:
    def __init__(self, c):
        self.c, self.r = c, c.rng
        self.cal = mod.Calendar()
        self.got, self.want, self.out = [], [], ""
        self.events = {}          # time -> [(id, doc)]
        self.always = []          # [(id, pair or None, once)]
        self.pings = []
        self.n = 0
        self.retired = []

    def action(self, doc, selfstop=False):
        k = self.n
        self.n += 1
        if selfstop:
            def f(*a):
                self.got.append((k, a))
                self.cal.stop(f, doc)
        else:
            def f(*a):
                self.got.append((k, a))
        f.__doc__ = doc
        return k, f

    def newdoc(self):
        return self.r.choice([None, "doc%d" % self.n, "doc%d" % self.n, "same text"])

    def register(self):
        r = self.r
        t = ALWAYS if r.random() < .3 else r.randrange(0, 12)
        form = r.randrange(6)
        if form == 5:
            t = ALWAYS
        call = self.cal if r.random() < .5 else self.cal.registerEvents
        book = self.always if t is ALWAYS else self.events.setdefault(t, [])
        if form == 0:                                   # function and text
            d = self.r.choice(["text%d" % self.n] * 4 + [""])
            k, f = self.action(self.newdoc())
            call(t, f, d)
            book.append((k, (f, d), False))
        elif form == 1:                                 # functions, with their own text
            for_ = [self.action(self.newdoc()) for _ in range(r.choice([1, 1, 2, 3]))]
            call(t, *[f for _, f in for_])
            for k, f in for_:
                book.append((k, (f, f.__doc__), False))
        elif form == 2:                                 # pairs
            l = []
            for _ in range(r.choice([1, 2, 3])):
                k, f = self.action(self.newdoc())
                l.append((k, (f, r.choice([None, "", "pair%d" % k]))))
            call(t, *[p for _, p in l])
            for k, p in l:
                book.append((k, p, False))
        elif form == 3:                                 # mixed
            k, f = self.action("fdoc")
            k2, f2 = self.action(None)
            call(t, f, (f2, "pairdoc"))
            book.append((k, (f, "fdoc"), False))
            book.append((k2, (f2, "pairdoc"), False))
        elif form == 4:                                 # decorator
            k, f = self.action(r.choice([None, "deco%d" % self.n]))
            obj = self.cal(t)(f)
            book.append((k, (f, f.__doc__), False))
            if r.random() < .3:                         # the name still calls the action
                n = len(self.got)
                obj(1, 2)
                self.c.eq(self.got[n:], [(k, (1, 2))], "decorated-name-calls-the-action")
                del self.got[n:]
            if t is ALWAYS or r.random() < .5:
                t2 = r.randrange(0, 12)                 # a decorated object is a valid action
                self.cal.registerEvents(t2, obj)
                self.events.setdefault(t2, []).append((k, (obj, obj.__doc__), False))
        else:                                           # an action that stops itself
            d = "self%d" % self.n
            k, f = self.action(d, True)
            call(ALWAYS, f, d)
            self.always.append((k, (f, d), True))
        self.c.ev("register-form%d" % form)

    def stop(self):
        cand = [i for i, e in enumerate(self.always) if e[1] is not None]
        if not cand:
            return
        i = self.r.choice(cand)
        k, (f, d), _ = self.always.pop(i)
        how = self.r.randrange(2)
        if how == 0 and d is not None:
            self.cal.stop(f, d)
        else:
            self.cal.stop((f, d))
        self.c.ev("stop")

    def expect(self, t, args):
        docs = []
        keep = []
        for e in self.always:
            self.want.append((e[0], args))
            if not e[2]:
                keep.append(e)
            else:
                self.c.ev("self-stop")
        self.always = keep
        if t in self.events:
            for k in self.pings:
                self.want.append((k, ()))
            for k, p, _ in self.events[t]:
                self.want.append((k, args))
                docs.append((t, p[1]))
        return docs

    def compare(self, docs, text):
        self.c.eq([x[0] for x in self.got], [x[0] for x in self.want], "actions-run")
        self.c.eq(self.got, self.want, "arguments")
        pos = 0
        for t, d in docs:
            i = text.find("At time %s:" % t, pos)
            self.c.check(i >= 0, "announced", lambda: "time %s in %r" % (t, text))
            pos = i + 1
            if d is not None:
                j = text.find("\n", i)
                self.c.check(d in text[i:j], "announced-text", lambda: "%r not in %r" % (d, text[i:j]))
        self.c.ev("calls", len(self.got))

    def quiet(self, f):
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            f()
        return b.getvalue()

    def run(self):
        t = self.r.randrange(-1, 13)
        args = tuple(self.r.randrange(9) for _ in range(self.r.choice([0, 0, 1, 2])))
        self.got, self.want = [], []
        docs = self.expect(t, args)
        text = self.quiet(lambda: self.cal.run(t, *args))
        self.c.log("run", t, args)
        self.compare(docs, text)

    def forward(self):
        t = self.r.randrange(0, 14)
        self.got, self.want = [], []
        docs = []
        for i in range(t + 1):
            docs += self.expect(i, ())
        text = self.quiet(lambda: self.cal.fastForward(t))
        self.c.log("fastForward", t)
        self.compare(docs, text)
        self.c.ev("fast-forward")


@vh.family(16000, 120000)
def programs(c):
    w = World(c)
    log = []
    for _ in range(c.rng.randrange(5, 40)):
        k = c.rng.randrange(10)
        if k < 4:
            w.register()
        elif k == 4:
            w.stop()
        elif k == 5 and c.rng.random() < .4:
            i, f = w.action(None)
            w.cal.addPing(f)
            w.pings.append(i)
        elif k == 6:
            w.forward()
            log.append(tuple(w.got))
        elif k == 7:
            # the listing shows each time that has actions, in increasing order
            text = repr(w.cal)
            pos = 0
            for t in sorted(w.events):
                i = text.find("%d: \n" % t, pos)
                c.check(i >= 0, "listing-times", text)
                pos = i
                for k, p, _ in w.events[t]:
                    if p[1]:
                        i = text.find(p[1] + "\n", pos)
                        c.check(i >= 0, "listing-texts", text)
                        pos = i
            c.ev("listing")
        else:
            w.run()
            log.append(tuple(w.got))
    # unknown stops are errors and leave the calendar as it was
    if c.rng.random() < .3:
        k, f = w.action("x")
        c.throws(Exception, lambda: w.cal.stop(f, "x"), "stopping-an-unknown-action")
        w.run()
    c.state(log)
    c.sample(log[:4])


class Sig(object):
    """A descriptor-based signal, as the bindings have"""
    class P(object):
        def __get__(s, o, t=None):
            return s if o is None else o.v

        def __set__(s, o, v):
            o.v = ("set", v)
    value = P()
    ref = P()
    other = P()


@vh.family(200, 1000)
def setters(c):
    s = Sig()
    v = c.rng.random()
    (mod.sigset if c.rng.random() < .5 else mod.refset)(s, v)
    c.eq(s.v, ("set", v), "value-set")
    c.state(v)
    c.check(isinstance(mod.attime, mod.Calendar), "shared-calendar")


vh.main()
