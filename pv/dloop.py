"""P15: paf.eventloop.EventLoop with real descriptors and a virtual clock.

select.epoll is the real one, wrapped so that poll() never blocks: where the
loop would sleep, the workload acts, or the clock moves on to the deadline.
"""

import collections
import gc
import os
import random
import select
import signal
import socket
import time

from pv import simos
from pv.direct import Bug, cpu_bound, digest, internal_error, TimeUp

REAL_EPOLL = simos.REAL_EPOLL
T15 = {"P15"}


class Wrapped:
    def __init__(self, h):
        self.real = REAL_EPOLL()
        self.h = h

    def register(self, *a, **k):
        return self.real.register(*a, **k)

    def modify(self, *a, **k):
        return self.real.modify(*a, **k)

    def unregister(self, *a, **k):
        return self.real.unregister(*a, **k)

    def fileno(self):
        return self.real.fileno()

    def close(self):
        self.real.close()

    @property
    def closed(self):
        return self.real.closed

    def poll(self, timeout=None, maxevents=-1):
        if timeout is None or timeout < 0:
            timeout = -1
        return self.h.on_poll(self.real, timeout, maxevents)


class Src:
    """A source as the workload knows it."""

    def __init__(self, h, i):
        import paf.eventloop
        self.h = h
        self.i = i
        self.s = paf.eventloop.Source()
        self.a = self.b = None       # our end, the other end
        self.fdset = None            # (fd, mask) given to the source
        self.live = False
        self.timeout = None
        self.active = False
        self.removed_at = None
        self.reason = -1             # the last round with a reason to call it
        self.calls = 0
        self.waiting = 0             # rounds it has been ready in without being called


class Harness:
    def __init__(self, rng, c):
        self.rng = rng
        self.c = c
        self.env = simos.Env(rng)
        self.env.epoll_factory = lambda: Wrapped(self)
        self.env.max_time_calls = 200000
        simos.set_env(self.env)
        import paf.eventloop
        self.mod = paf.eventloop
        self.fds = len(os.listdir("/proc/self/fd"))
        self.loop = paf.eventloop.EventLoop()
        self.srcs = []
        self.round = 0
        self.steps = rng.choice([60, 150, 300])
        self.log = []
        self.stop_round = None
        self.in_handler = None
        self.batch_timeouts = set()
        self.depth = 0
        self.closing = []
        self.runs = 0
        self.zero_polls = 0
        self.no_progress = 0
        self.calls = 0
        self.signals = rng.random() < 0.5
        self.bytes = collections.Counter()

    def say(self, text):
        if len(self.log) > 600:
            del self.log[:300]
        self.log.append("%.4f r%d %s%s" % (self.env.now - 1.7e9, self.round, "  " if self.in_handler else "", text))

    def bug(self, text):
        raise Bug(T15, text + "\n" + "\n".join(self.log[-40:]))

    # ---------------------------------------------------------- the workload

    def live(self):
        return [x for x in self.srcs if x.live]

    def new(self):
        x = Src(self, len(self.srcs))
        self.srcs.append(x)
        r = self.rng.random()
        if r < 0.8:
            self.open(x)
            self.set_fd(x)
        if self.rng.random() < 0.4:
            self.set_timeout(x)
        if self.rng.random() < 0.15:
            self.set_active(x)
        self.add(x)
        return x

    def add(self, x):
        self.say("add %d" % x.i)
        x.live = True
        x.waiting = 0
        self.loop.add(x.s, lambda x=x: self.handle(x))
        self.mark(x)

    def remove(self, x, close):
        """close: before or after removal, or not at all."""
        self.say("remove %d (close %s)" % (x.i, close))
        if close == "before":
            self.close(x)
        x.live = False
        x.removed_at = self.round
        self.loop.remove(x.s)
        if close == "after":
            self.close(x)
        self.c.counts["removed"] += 1

    def open(self, x):
        if self.rng.random() < 0.5:
            x.a, x.b = socket.socketpair()
            x.a.setblocking(False)
            x.b.setblocking(False)
        else:
            r, w = os.pipe()
            os.set_blocking(r, False)
            os.set_blocking(w, False)
            x.a, x.b = os.fdopen(r, "rb", 0), os.fdopen(w, "wb", 0)
        self.c.counts["descriptors opened"] += 1

    def close(self, x):
        for f in (x.a, x.b):
            if f is not None:
                f.close()
        x.a = x.b = None

    def set_fd(self, x, mask=None):
        if x.a is None:
            return
        m = select.EPOLLIN
        if isinstance(x.a, socket.socket):
            m = self.rng.choice([select.EPOLLIN, select.EPOLLIN, select.EPOLLIN | select.EPOLLOUT, 0]) \
                if mask is None else mask
        x.fdset = (x.a.fileno(), m)
        self.say("set_fd %d fd %d mask %d" % (x.i, x.a.fileno(), m))
        x.s.set_fd(x.a.fileno(), m)

    def clear_fd(self, x):
        x.fdset = None
        self.say("clear_fd %d" % x.i)
        x.s.clear_fd()

    def set_timeout(self, x, t=None):
        r = self.rng
        if t is None:
            t = self.env.now + r.choice([0.0, 0.5, 1.0, 1.0, 2.0, 3.0, r.random() * 5, -1.0, 3e6, 1e12])
        if self.in_handler is not None and t <= self.env.now:
            t = self.env.now + 0.25      # a handler that always rearms at once would leave room for nothing else
        x.timeout = t
        self.say("set_timeout %d %.4f" % (x.i, t - 1.7e9))
        x.s.set_timeout(t)
        self.mark(x)

    def clear_timeout(self, x):
        x.timeout = None
        self.say("clear_timeout %d" % x.i)
        x.s.clear_timeout()

    def set_active(self, x):
        if self.in_handler is not None and self.rng.random() < 0.5:
            return
        x.active = True
        self.say("set_active %d" % x.i)
        x.s.set_active()
        self.mark(x)

    def clear_active(self, x):
        x.active = False
        x.s.clear_active()

    def mark(self, x):
        """Remember that there is a reason to call it."""
        if x.active or (x.timeout is not None and x.timeout <= self.env.now) or x.fdset is not None:
            x.reason = self.round

    def write(self, x):
        if x.b is None:
            return
        try:
            if isinstance(x.b, socket.socket):
                x.b.send(b"x" * self.rng.choice([1, 1, 5]))
            else:
                x.b.write(b"x")
            self.say("write %d" % x.i)
        except (BlockingIOError, BrokenPipeError, ConnectionError):
            pass

    def read(self, x):
        if x.a is None:
            return
        try:
            d = x.a.recv(3) if isinstance(x.a, socket.socket) else x.a.read(3)
            if d in (b"", None) and not self.is_open(x):
                return
        except (BlockingIOError, ConnectionError):
            pass

    def is_open(self, x):
        return x.a is not None

    def swap(self, x):
        """The descriptor is closed, and its number put to use by another source, before the source is removed."""
        if x.a is None or not x.live or x.fdset is None:
            return
        old = x.a.fileno()
        self.say("swap %d fd %d" % (x.i, old))
        y = Src(self, len(self.srcs))
        self.srcs.append(y)
        order = self.rng.random()
        if order < 0.4:
            # closed only after its removal, as usual
            self.remove(x, "after")
            self.open(y)
        elif order < 0.7:
            self.close(x)
            self.open(y)                # takes the number
            self.remove(x, None)
        else:
            self.remove(x, "before")
            self.open(y)
        self.set_fd(y)
        self.add(y)
        if y.fdset is not None and y.fdset[0] == old:
            self.c.counts["descriptor number reused"] += 1

    def change(self, x):
        k = self.rng.random()
        if not x.live:
            if k < 0.3 and x.a is not None and not any(y.live and y.fdset and y is not x and y.fdset[0] == x.a.fileno()
                                                       for y in self.srcs):
                if x.fdset is not None and x.fdset[0] != x.a.fileno():
                    return
                self.add(x)
            return
        if k < 0.15:
            self.write(x)
        elif k < 0.35:
            self.set_timeout(x)
        elif k < 0.42:
            self.clear_timeout(x)
        elif k < 0.5:
            self.set_active(x)
        elif k < 0.6:
            self.set_fd(x)
        elif k < 0.66:
            if x.fdset is not None:
                self.clear_fd(x)
        elif k < 0.74:
            # not one whose timeout is being fired in this very round
            if x not in self.batch_timeouts or x is self.in_handler:
                self.remove(x, self.rng.choice(["before", "after", "after", None]))
        elif k < 0.8:
            if x not in self.batch_timeouts or x is self.in_handler:
                self.swap(x)
        elif k < 0.85 and x.b is not None:
            self.say("peer closes %d" % x.i)
            x.b.close()
            x.b = None
        elif k < 0.95:
            self.write(x)

    def act(self):
        r = self.rng.random()
        live = self.live()
        if r < 0.2 or not live:
            if len(live) < 25:
                self.new()
        elif r < 0.5:
            for x in self.rng.sample(live, min(len(live), self.rng.choice([1, 1, 3, 8]))):
                self.write(x)
        elif r < 0.9:
            self.change(self.rng.choice(live))
        else:
            self.change(self.rng.choice(self.srcs[-40:]))

    # ---------------------------------------------------------- called by the loop

    def handle(self, x):
        c = self.c
        c.counts["handler calls"] += 1
        self.calls += 1
        self.say("HANDLER %d" % x.i)
        if self.calls > 20000:
            self.bug("handlers called %d times" % self.calls)
        outer, self.in_handler = self.in_handler, x
        try:
            if not x.live:
                if x not in self.batch_timeouts:
                    self.bug("handler of source %d called, which was removed in round %d" % (x.i, x.removed_at))
                return
            if x.reason < self.round - 2 and x.fdset is None:
                self.bug("handler of source %d called for no reason" % x.i)
            if x.fdset is None and not x.active and x not in self.batch_timeouts and \
                    not (x.timeout is not None and x.timeout <= self.env.now):
                if x.reason < self.round - 1:
                    self.bug("handler of source %d called for no reason" % x.i)
            x.calls += 1
            x.waiting = 0
            if x.active:
                self.clear_active(x)
            if x.timeout is not None and x.timeout <= self.env.now:
                if self.rng.random() < 0.5:
                    self.clear_timeout(x)
                else:
                    self.set_timeout(x, self.env.now + self.rng.choice([0.25, 1.0, 2.5]))
            if self.rng.random() < 0.8:
                self.read(x)
            if x.fdset is not None and x.fdset[1] & select.EPOLLOUT and x.a is not None and self.rng.random() < 0.8:
                self.set_fd(x, select.EPOLLIN)
            if x.b is None and x.live and self.rng.random() < 0.8:
                # end of file
                self.remove(x, self.rng.choice(["after", "before"]))
            n = self.rng.choice([0, 0, 0, 1, 1, 2, 4])
            for _ in range(n):
                if self.steps <= 0:
                    break
                self.steps -= 1
                self.act()
                c.counts["changes made by handlers"] += 1
            if self.rng.random() < 0.01 and self.stop_round is None:
                self.say("stop")
                self.loop.stop()
                self.stop_round = self.round
        finally:
            self.in_handler = outer

    def registered(self, real):
        """What the kernel has in the epoll set: {fd: mask}."""
        res = {}
        with open("/proc/self/fdinfo/%d" % real.fileno()) as f:
            for line in f:
                if line.startswith("tfd:"):
                    p = line.split()
                    res[int(p[1])] = int(p[3], 16)
        return res

    def on_poll(self, real, timeout, maxevents):
        c = self.c
        env = self.env
        self.round += 1
        env.time_calls = 0
        c.counts["polls"] += 1
        if self.stop_round is not None:
            self.bug("poll() after a request to stop")
        now = env.now
        live = self.live()
        for x in live:
            if x.active:
                self.bug("poll() although source %d is marked active" % x.i)
        due = [x for x in live if x.timeout is not None and x.timeout <= now]
        nxt = min((x.timeout for x in live if x.timeout is not None), default=None)
        # the sleep asked for
        if timeout != 0:
            if due:
                self.bug("poll(%r) although the timeout of source %d has passed" % (timeout, due[0].i))
            if nxt is None:
                if timeout > 0:
                    self.bug("poll(%r) without any timeout set" % timeout)
            elif timeout < 0:
                self.bug("poll() without limit, but source %d has a timeout in %.4f s" %
                         ([x.i for x in live if x.timeout == nxt][0], nxt - now))
            else:
                # a limit on a single sleep is fine as long as it is no short one
                if timeout > nxt - now + 1e-5 or (timeout < nxt - now - 1e-5 and timeout < 3600):
                    self.bug("poll(%r), but the earliest timeout is in %r s" % (timeout, nxt - now))
                if timeout * 1000 > 2 ** 31 - 1:
                    self.bug("poll(%r): too long for the kernel" % timeout)
            self.zero_polls = 0
        else:
            self.zero_polls += 1
            if not due and not self.ready_srcs() and self.zero_polls > 3:
                self.bug("the loop polls without sleeping (%d times)" % self.zero_polls)
        # what the kernel watches
        watched = self.registered(real)
        want = {x.fdset[0]: x.fdset[1] for x in live if x.fdset is not None}
        extra = {fd: m for fd, m in watched.items() if fd not in want}
        if len(extra) > 1 or any(m & 7 != select.EPOLLIN for m in extra.values()):
            self.bug("descriptors %r are watched, which belong to no source" % sorted(extra))
        for fd, m in want.items():
            if watched.get(fd) is None:
                if self.open_fd(fd):
                    self.bug("descriptor %d of a source is not watched" % fd)
            elif watched[fd] & 7 != m & 7:
                self.bug("descriptor %d is watched for %#x instead of %#x" % (fd, watched[fd], m))
        c.counts["descriptor sets compared"] += 1
        # progress
        for x in live:
            if x in due or (x.fdset is not None and x in self.ready_srcs()):
                x.waiting += 1
                if x.waiting > 6:
                    self.bug("source %d has been ready for %d rounds, but its handler is not called" % (x.i, x.waiting))
            else:
                x.waiting = 0
        self.batch_timeouts = set()
        while True:
            ev = real.poll(0, maxevents)
            if ev:
                if self.rng.random() < 0.5:
                    self.rng.shuffle(ev)
                for x in live:
                    self.mark(x)
                self.say("poll -> %r" % (ev,))
                return ev
            if timeout == 0:
                self.enter_timeouts()
                return []
            deadline = None if timeout < 0 else now + timeout
            if self.steps > 0 and self.rng.random() < 0.7:
                # something happens while the loop sleeps: from outside, descriptors only
                self.steps -= 1
                env.now = env.now + (0.01 if deadline is None else
                                     min(deadline - env.now, 1e6) * self.rng.random() * 0.5)
                ps = [x for x in live if x.b is not None]
                if ps and self.rng.random() < 0.9:
                    for x in self.rng.sample(ps, min(len(ps), self.rng.choice([1, 1, 2, 6]))):
                        self.write(x)
                elif ps:
                    x = self.rng.choice(ps)
                    x.b.close()
                    x.b = None
                elif deadline is None:
                    self.interrupt()
                continue
            if deadline is not None and (self.steps > 0 or nxt - env.now < 100):
                self.steps -= 1
                env.now = max(env.now, deadline) + self.rng.choice([0, 0, 0, 0.002, 0.7])
                self.say("times out")
                self.enter_timeouts()
                return []
            self.interrupt()
            return real.poll(0, maxevents)

    def open_fd(self, fd):
        try:
            os.fstat(fd)
            return True
        except OSError:
            return False

    def ready_srcs(self):
        res = set()
        p = simos.REAL_POLL()
        by = {}
        for x in self.live():
            if x.fdset is not None and x.a is not None and x.a.fileno() == x.fdset[0]:
                p.register(x.fdset[0], x.fdset[1])
                by[x.fdset[0]] = x
        for fd, ev in p.poll(0):
            if not ev & select.POLLNVAL:
                res.add(by[fd])
        return res

    def enter_timeouts(self):
        self.batch_timeouts = {x for x in self.live() if x.timeout is not None and x.timeout <= self.env.now}
        for x in self.live():
            self.mark(x)

    def interrupt(self):
        """Ends the run: by a signal, or by a source that stops it."""
        signo = self.rng.choice([signal.SIGTERM, signal.SIGHUP, signal.SIGINT])
        self.say("signal %d" % signo)
        os.kill(os.getpid(), signo)
        self.interrupts += 1
        if self.interrupts > 5:
            cur = signal.set_wakeup_fd(-1)
            signal.set_wakeup_fd(cur)
            self.bug("signals do not end the run: wakeup %r, s_wfd %r, s_rfd %r, watched %r handlers %r mask %r" % (
                cur, getattr(self.loop, "s_wfd", None), getattr(self.loop, "s_rfd", None), None,
                signal.getsignal(signo), signal.pthread_sigmask(signal.SIG_BLOCK, [])))

    def finish(self):
        for x in self.srcs:
            if x.live:
                x.live = False
                self.loop.remove(x.s)
        for x in self.srcs:
            self.close(x)


def p15(rng, c):
    saved = {s: signal.getsignal(s) for s in (signal.SIGTERM, signal.SIGHUP, signal.SIGINT)}
    for _ in range(6):
        # an EventLoop of an earlier case, closed by the collector only now, would take the wakeup descriptor with it
        h = None
        gc.collect()
        gc.disable()
        h = Harness(rng, c)
        try:
            for _ in range(rng.choice([0, 1, 3, 10])):
                h.new()
            h.round = 1
            while h.steps > 0:
                h.stop_round = None
                h.runs += 1
                h.interrupts = 0
                # timeouts that pass before the loop gets to poll
                h.enter_timeouts()
                for x in h.live():
                    if x.timeout is not None and x.timeout <= h.env.now:
                        h.batch_timeouts.add(x)
                try:
                    with cpu_bound(30):
                        h.loop.run()
                except TimeUp:
                    h.bug("the loop spins")
                except simos.SimHang as e:
                    h.bug("the loop spins: %s" % e)
                except Bug:
                    raise
                except Exception:
                    raise internal_error(T15, "the event loop\n" + "\n".join(h.log[-30:]))
                h.say("run() returned")
                if h.stop_round is None and not h.interrupts:
                    h.bug("run() returns although nobody asked for it")
                c.counts["runs"] += 1
                h.batch_timeouts = set()
                for _ in range(rng.choice([0, 1, 3])):
                    h.act()
                    h.steps -= 1
            for x in h.srcs:
                h.close(x)
            h.loop.close()
            n = len(os.listdir("/proc/self/fd"))
            if n > h.fds + 1:       # the epoll instance is that of the harness
                h.bug("the closed loop keeps %d descriptors" % (n - h.fds))
            c.evaluations += h.runs
            c.distinct.add(digest(h.log[-300:], h.calls))
            c.counts["sources"] += len(h.srcs)
        finally:
            for x in h.srcs:
                h.close(x)
            h.env.epoll_factory = None
            try:
                h.loop.close()
            except Exception:
                pass
            h.loop = None
            simos.set_env(None)
            gc.enable()
            signal.set_wakeup_fd(-1)
            for s, f in saved.items():
                signal.signal(s, f)
    c.sample = {"log": h.log[-25:]}
