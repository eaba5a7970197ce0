"""P14: paf.timer.TimerManager against a list of what is due."""

import random

from pv import simos
from pv.direct import Bug, TimeUp, cpu_bound, digest, internal_error

T14 = {"P14"}


class Session:
    """One timer manager under a random sequence of additions, removals, clock steps and processing."""

    def __init__(self, rng, c, cls=None):
        import paf.timer
        self.rng = rng
        self.c = c
        self.env = simos.Env(rng)
        simos.set_env(self.env)
        self.with_cb = rng.random() < 0.9
        self.told = None            # what next_timeout() said when we were last told
        self.told_count = 0
        self.live = {}              # our id -> (expiration, timer)
        self.fired = []
        self.next = 0
        self.processing = False
        self.inner = 0
        self.log = []
        self.gone = {}              # id -> how it went
        self.p_inner = rng.choice([0.0, 0.2, 0.5, 0.9])
        self.grid = rng.choice([0.001, 0.25, 1.0, 1.0, 5.0])
        self.shared = rng.random() < 0.3
        self.manager = paf.timer.TimerManager(self.cb) if self.with_cb else paf.timer.TimerManager()

    def cb(self):
        self.told_count += 1
        self.told = ("at", self.manager.next_timeout())

    def bug(self, text):
        raise Bug(T14, text + "\n" + "\n".join(self.log[-30:]))

    def say(self, text):
        if len(self.log) > 400:
            del self.log[:200]
        self.log.append("%s%.4f %s" % ("  " if self.processing else "", self.env.now - 1.7e9, text))

    def when(self):
        r = self.rng
        k = r.random()
        if k < 0.15 and self.live:
            return r.choice(list(self.live.values()))[0]        # a tie
        if k < 0.25:
            return self.env.now + r.choice([-1000.0, -1.0, -self.grid, 0.0])
        if k < 0.3:
            return self.env.now + r.choice([1e6, 2.0 ** 40, 2.0 ** 63])
        if k < 0.75:
            return self.env.now + self.grid * r.randrange(0, 12)
        return self.env.now + r.random() * 10 * self.grid

    def add(self):
        i = self.next
        self.next += 1
        t = self.when()
        relative = self.env.tick == 0 and self.rng.random() < 0.3
        handler = lambda i=i: self.fire(i)
        if relative:
            d = t - self.env.now
            t = self.env.now + d
            arg = d
        else:
            arg = t
        if self.rng.random() < 0.1 and float(t).is_integer() and not relative:
            arg = t = int(t)
        self.say("add %d at %r%s" % (i, t - 1.7e9, " (relative)" if relative else ""))
        self.live[i] = [t, None]
        if relative:
            timer = self.manager.add(handler, arg, relative=True)
        else:
            timer = self.manager.add(handler, arg)
        if i in self.live:
            self.live[i][1] = timer
        self.c.counts["added"] += 1

    def remove(self):
        cands = [i for i, (t, x) in self.live.items() if x is not None]
        if not cands:
            return
        r = self.rng.random()
        if r < 0.35:
            i = min(cands, key=lambda i: self.live[i][0])
        elif r < 0.5:
            i = max(cands, key=lambda i: self.live[i][0])
        else:
            i = self.rng.choice(cands)
        t, timer = self.live.pop(i)
        self.gone[i] = "removed"
        self.say("remove %d" % i)
        try:
            self.manager.remove(timer)
        except Exception:
            raise internal_error(T14, "removing a live timer\n" + "\n".join(self.log[-30:]))
        self.c.counts["removed"] += 1

    def fire(self, i):
        self.say("FIRED %d" % i)
        self.c.counts["fired"] += 1
        if not self.processing:
            self.bug("timer %d fired outside of process()" % i)
        if i not in self.live:
            self.bug("timer %d fired after it had been %s" % (i, self.gone.get(i)))
        t, timer = self.live.pop(i)
        self.gone[i] = "fired"
        if t > self.env.now:
            self.bug("timer %d fired %g s early" % (i, t - self.env.now))
        earlier = [j for j, (x, _) in self.live.items() if x < t]
        if earlier:
            self.bug("timer %d (%r) fired before timer %d (%r)" % (i, t - 1.7e9, earlier[0],
                                                                     self.live[earlier[0]][0] - 1.7e9))
        if self.rng.random() < self.p_inner and self.inner < 60:
            self.inner += 1
            for _ in range(self.rng.choice([1, 1, 2, 4])):
                if self.rng.random() < 0.5:
                    self.add()
                else:
                    self.remove()
            self.c.counts["changes made by handlers"] += 1
        self.fired.append(i)

    def settle(self, what):
        """After every operation from outside."""
        times = [t for t, _ in self.live.values()]
        want = min(times) if times else None
        got = self.manager.next_timeout()
        if got != want:
            self.bug("next_timeout() is %r instead of %r after %s" % (rel(got), rel(want), what))
        if self.with_cb:
            known = self.told[1] if self.told is not None else None
            if known != want:
                self.bug("next timeout changed to %r by %s, but the user was last told %r" %
                         (rel(want), what, rel(known)))
        if self.manager.empty() != (not self.live):
            self.bug("empty() is %r with %d timers" % (self.manager.empty(), len(self.live)))
        self.c.counts["states compared"] += 1

    def process(self):
        self.say("process")
        self.inner = 0
        self.processing = True
        before = self.env.now
        try:
            with cpu_bound(20):
                self.manager.process()
        except TimeUp:
            self.bug("process() does not end")
        except Bug:
            raise
        except Exception:
            raise internal_error(T14, "process()\n" + "\n".join(self.log[-30:]))
        finally:
            self.processing = False
        # a timer whose time came while process() was running may wait for the next round
        late = [i for i, (t, _) in self.live.items() if t <= before]
        if late:
            self.bug("timer %d (%r) was due, but did not fire" % (late[0], rel(self.live[late[0]][0])))
        self.c.counts["processed"] += 1


def rel(t):
    return None if t is None else t - 1.7e9


def p14(rng, c):
    for _ in range(12):
        try:
            s = Session(rng, c)
            n = rng.choice([20, 60, 150])
            bias = rng.choice([0.35, 0.5, 0.6])
            for _ in range(n):
                r = rng.random()
                if r < bias:
                    s.add()
                    s.settle("add")
                elif r < bias + 0.2:
                    s.remove()
                    s.settle("remove")
                elif r < bias + 0.25:
                    it = sorted((t.expiration_time if hasattr(t, "expiration_time") else None) for t in s.manager)
                    if it != sorted(t for t, _ in s.live.values()):
                        s.bug("iteration yields %d timers, %d are live" % (len(it), len(s.live)))
                else:
                    k = rng.random()
                    if k < 0.5 and s.live:
                        # exactly at, or just before, or after a deadline
                        t = min(t for t, _ in s.live.values())
                        if t < s.env.now + 1e7:
                            s.env.now = max(s.env.now, t + rng.choice([0, 0, -0.0005, 0.0005, 3 * s.grid]))
                    else:
                        s.env.now += rng.random() * 4 * s.grid
                    s.env.tick = rng.choice([0, 0, 1e-6, 0.0001])
                    s.process()
                    s.env.tick = 0
                    s.settle("process")
                c.evaluations += 1
            # drain
            s.env.now += 2.0 ** 64
            s.p_inner = 0
            s.process()
            s.settle("the last process")
            if s.live:
                s.bug("%d timers never fired" % len(s.live))
            c.distinct.add(digest(s.log, s.fired))
        finally:
            simos.set_env(None)
    c.sample = {"log": s.log[-25:]}


def p14_large(rng, c):
    """Thousands of timers: order and completeness."""
    try:
        s = Session(rng, c)
        s.p_inner = 0
        n = rng.choice([500, 1500, 3000, 500, 1500, 3000, 9000])
        for _ in range(n):
            s.add()
            if rng.random() < 0.3:
                s.remove()
            if rng.random() < 0.02:
                s.settle("add")
        s.settle("additions")
        while s.live:
            ts = sorted(t for t, _ in s.live.values())
            s.env.now = max(s.env.now, ts[min(len(ts) - 1, rng.choice([0, 5, 100]))])
            s.process()
            s.settle("process")
            c.evaluations += 1
        c.distinct.add(digest(s.fired))
    finally:
        simos.set_env(None)


def p14_real(rng, c):
    """With the real clock."""
    import time
    import paf.timer
    simos.set_env(None)
    m = paf.timer.TimerManager()
    fired = []
    times = [simos.REAL_TIME() + rng.random() * 0.4 for _ in range(60)]
    for t in times:
        m.add(lambda t=t: fired.append((t, simos.REAL_TIME())), t)
    end = simos.REAL_TIME() + 5
    import threading
    ev = threading.Event()
    while not m.empty() and simos.REAL_TIME() < end:
        m.process()
        ev.wait(0.01)
    if sorted(times) != [t for t, _ in fired]:
        raise Bug(T14, "real clock: %d of %d timers fired, or out of order" % (len(fired), len(times)))
    early = [t - at for t, at in fired if at < t]
    if early:
        raise Bug(T14, "real clock: timer fired %g s early" % early[0])
    c.counts["fired"] += len(fired)
    c.evaluations += 1
    c.distinct.add(digest(len(fired), rng.random()))
