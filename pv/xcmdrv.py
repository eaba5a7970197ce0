"""Run as a program, with the library stand-in of shim/xcmshim.c as libxcm.so.0: random use of the real paf/xcm.py,
compared with what each call must do. Usage: xcmdrv.py SEED SESSIONS LOGFD. Writes one JSON object to descriptor LOGFD
at the end of each session, and a line per operation before it is carried out."""

import ctypes
import errno
import faulthandler
import gc
import json
import os
import random
import select
import sys
import threading
import time

OUT = int(sys.argv[3])
NS = "pv%d" % os.getpid()
os.environ["XCM_SHIM_NS"] = NS

import paf.xcm as xcm       # noqa: E402

raw = ctypes.CDLL("libxcm.so.0")
raw.xcm_attr_get.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t]
raw.xcmshim_put.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int, ctypes.c_char_p, ctypes.c_size_t]
raw.xcm_is_blocking.argtypes = [ctypes.c_void_p]
raw.xcm_is_blocking.restype = ctypes.c_bool
LIVE_SOCKS = ctypes.c_long.in_dll(raw, "xcmshim_live_socks")
LIVE_MAPS = ctypes.c_long.in_dll(raw, "xcmshim_live_maps")
CALLS = ctypes.c_long.in_dll(raw, "xcmshim_calls")
F_KIND = ctypes.c_int.in_dll(raw, "xcmshim_fault_kind")
F_N = ctypes.c_int.in_dll(raw, "xcmshim_fault_n")
F_ERR = ctypes.c_int.in_dll(raw, "xcmshim_fault_err")
CONNECT, SERVER, ACCEPT, SEND, RECEIVE, FINISH, GET, SET, AWAIT, FD, BLOCKING = range(1, 12)
ERRS = [errno.ECONNREFUSED, errno.EAGAIN, errno.EPIPE, errno.ECONNRESET, errno.ENOMEM, errno.EMFILE, errno.EPROTO,
        errno.EINTR, errno.ETIMEDOUT, errno.EACCES, errno.EINVAL, errno.ENOENT, errno.EOVERFLOW, errno.EINPROGRESS]
MAX = 65535
BOOL, INT, STR, BIN = 1, 2, 3, 4


class Wrong(Exception):
    pass


def wrong(fmt, *args):
    raise Wrong(fmt % args if args else fmt)


def note(fmt, *args):
    os.write(OUT, (("  " + fmt % args).replace("\n", "\\n")[:300] + "\n").encode("utf-8", "backslashreplace"))


class End:
    def __init__(self, sock, kind, blocking, attrs):
        self.sock = sock
        self.kind = kind
        self.blocking = blocking
        self.attrs = attrs          # name -> value
        self.handle = getattr(sock, "xcm_socket", None) or next(v for v in vars(sock).values() if type(v) is int)
        self.peer = None
        self.inbox = []             # messages on their way to this end
        self.closed = False
        self.reset = False          # the peer closed with unread data
        self.addr = None
        self.backlog = []           # connections to accept, for a server
        self.target = 0


class Session:
    def __init__(self, rng, counts, distinct):
        self.rng = rng
        self.c = counts
        self.distinct = distinct
        self.ends = []
        self.n = 0

    def count(self, what):
        self.c[what] = self.c.get(what, 0) + 1

    # ------------------------------------------------------------ generators

    def text(self, most=40):
        r = self.rng
        n = r.choice([0, 1, 3, r.randrange(most), r.randrange(most)])
        abc = r.choice(["abcXYZ019 ._-", "a\u00e5\u00df\u20ac\U0001f600\x01\x7f\u0301", "/:=,\"'\\{}%sdn"])
        return "".join(r.choice(abc) for _ in range(n))

    def value(self):
        r = self.rng
        k = r.randrange(10)
        if k < 3:
            return r.random() < 0.5
        if k < 6:
            return r.choice([0, 1, -1, 2, 255, 1 << 31, -(1 << 31) - 1, (1 << 32) + 5, (1 << 63) - 1, -(1 << 63),
                             r.randrange(-(1 << 63), 1 << 63), r.randrange(1000)])
        if k == 6:
            return r.choice(["x", "\u20ac"]) * r.choice([100, 1000, 2000, 8000, 8190, 8191, 8192, 9000])
        return self.text()

    def name(self):
        r = self.rng
        return r.choice(["a", "b", "xcm.service", "tls.cert_file", "tcp.user_timeout", "n\u00e4me", "x" * 100,
                         "a." + r.choice("uvwxyz")])

    def attributes(self):
        r = self.rng
        d = {}
        for _ in range(r.choice([0, 0, 1, 2, 5, 12])):
            d[self.name() + r.choice(["", "1", "2"])] = self.value()
        return d

    def bad_value(self):
        return self.rng.choice([None, 1.5, b"bytes", [1], (), object(), {}, "sur\udc80rogate"])

    def message(self):
        r = self.rng
        n = r.choice([1, 2, 3, r.randrange(1, 100), r.randrange(1, 5000), r.randrange(1, MAX + 1), MAX, MAX - 1])
        if r.random() < 0.3:
            return bytes([r.choice([0, 255, 10, 0xa5])]) * n
        return r.randbytes(n)

    # ------------------------------------------------------------ helpers

    def expect(self, what, fun, kind=None, err=None):
        """Calls fun; with err, it must fail with exactly this error code."""
        if kind is not None:
            F_KIND.value, F_N.value, F_ERR.value = kind, 1, err
        try:
            res = fun()
        except OSError as e:
            left, F_N.value = F_N.value, 0
            if err is None:
                wrong("%s failed with %r, though the library reported no failure", what, e)
            if kind is not None and left:
                wrong("%s failed with %r without having called the library", what, e)
            if e.errno != err:
                wrong("%s failed with error code %r (%s) instead of the library's %d (%s)", what, e.errno, e, err,
                      os.strerror(err))
            self.count("error codes compared")
            return None
        except Wrong:
            raise
        except Exception as e:
            F_N.value = 0
            wrong("%s raised %r%s", what, e, " instead of reporting the library's error %d" % err if err else "")
        left, F_N.value = F_N.value, 0
        if err is not None:
            wrong("%s returned %.100r, though the library failed with %s", what, res, os.strerror(err))
        return res

    def maps(self, what):
        if LIVE_MAPS.value != 0:
            wrong("%d attribute maps not destroyed after %s", LIVE_MAPS.value, what)
        self.count("map counts compared")

    def check_attrs(self, e):
        """What the library has been given, read back past the binding."""
        for k, v in e.attrs.items():
            t = ctypes.c_int()
            b = ctypes.create_string_buffer(70000)
            rc = raw.xcm_attr_get(e.handle, k.encode("utf-8"), ctypes.byref(t), b, 70000)
            if rc < 0:
                wrong("attribute %s never reached the library (value %.80r)", k, v)
            got = {BOOL: lambda: bool(b.raw[0]), INT: lambda: int.from_bytes(b.raw[:8], sys.byteorder, signed=True),
                   STR: lambda: b.raw[:rc - 1], BIN: lambda: b.raw[:rc]}[t.value]()
            want = v.encode("utf-8") if isinstance(v, str) else v
            if isinstance(v, bytes):
                ok = got == v
            else:
                ok = type(got) is type(want) and got == want
            if not ok:
                wrong("attribute %s was set to %.80r, but the library has got %.80r (type %d)", k, v, got, t.value)
            self.count("attributes compared at the library")
            self.distinct.add(hash((k, repr(v))) & 0xffffffff)

    def get_attr(self, e, k, v):
        s = v.encode("utf-8") if isinstance(v, str) else v
        if isinstance(s, bytes) and len(s) + (isinstance(v, str)) > 8192:
            try:
                got = e.sock.get_attr(k)
            except OSError as x:
                if x.errno != errno.EOVERFLOW:
                    wrong("get_attr(%s) of a huge value: error code %r instead of EOVERFLOW", k, x.errno)
                return
            except Exception as x:
                wrong("get_attr(%s) of a huge value raised %r", k, x)
        else:
            got = self.expect("get_attr(%s)" % k, lambda: e.sock.get_attr(k))
        if type(got) is not type(v) or got != v:
            wrong("get_attr(%s) returned %.80r instead of %.80r", k, got, v)
        self.count("attributes read")
        self.distinct.add(hash((k, repr(v), 1)) & 0xffffffff)

    def pick(self, kind=None):
        l = [e for e in self.ends if not e.closed and (kind is None or e.kind == kind)]
        return self.rng.choice(l) if l else None

    # ------------------------------------------------------------ operations

    def op_server(self):
        r = self.rng
        used = [e.addr for e in self.ends if e.kind == "server" and not e.closed]
        addr = "%s:%s%d" % (r.choice(["ux", "tcp", "tls", "uxf"]), r.choice(["a", "\u00e4", "127.0.0.1:"]), self.n)
        self.n += 1
        attrs = self.attributes()
        x = r.random()
        note("server(%s, %r) %.2f", addr, attrs, x)
        if x < 0.15:
            self.expect("server()", lambda: xcm.server(addr, attrs), SERVER, r.choice(ERRS))
        elif x < 0.2:
            self.expect("server()", lambda: xcm.server("nonsense", attrs), None, errno.EINVAL)
        elif x < 0.25 and used:
            self.expect("server()", lambda: xcm.server(r.choice(used), attrs), None, errno.EADDRINUSE)
        elif x < 0.35:
            self.refused("server()", lambda a: xcm.server(addr, attrs=a), attrs)
        else:
            s = self.expect("server()", lambda: xcm.server(addr, attrs) if attrs or r.random() < .5 else xcm.server(addr))
            if not isinstance(s, xcm.ServerSocket):
                wrong("server() returned %r", s)
            e = End(s, "server", attrs.get("xcm.blocking", True), dict(attrs))
            e.addr = addr
            self.ends.append(e)
            self.check_attrs(e)
        self.maps("server()")

    def refused(self, what, fun, attrs):
        attrs = dict(attrs)
        k = self.name()
        attrs[k] = self.bad_value()
        if self.rng.random() < 0.5:
            attrs["z"] = 1
        n = CALLS.value
        try:
            fun(attrs)
        except (TypeError, UnicodeError):
            pass
        except Exception as e:
            wrong("%s with the attribute value %r raised %r, which does not tell what is wrong", what, attrs[k], e)
        else:
            wrong("%s accepted the attribute value %r", what, attrs[k])
        if CALLS.value != n:
            wrong("%s called the library in spite of the attribute value %r", what, attrs[k])
        self.count("bad values refused")

    def op_connect(self):
        r = self.rng
        srv = self.pick("server")
        attrs = self.attributes()
        flags = r.choice([0, xcm.NONBLOCK, xcm.NONBLOCK])
        x = r.random()
        note("connect(%s, %d, %r) %.2f", srv and srv.addr, flags, attrs, x)
        if x < 0.15:
            self.expect("connect()", lambda: xcm.connect("ux:x", flags, attrs), CONNECT, r.choice(ERRS))
        elif x < 0.2:
            self.expect("connect()", lambda: xcm.connect("ux:nobody", flags, attrs), None, errno.ECONNREFUSED)
        elif x < 0.25:
            self.expect("connect()", lambda: xcm.connect("nonsense", flags, attrs), None, errno.EINVAL)
        elif x < 0.35:
            self.refused("connect()", lambda a: xcm.connect("ux:x", flags, a), attrs)
        elif x < 0.4:
            n = CALLS.value
            try:
                xcm.connect("ux:x", r.choice([2, 4, 3, -1]), attrs)
            except ValueError:
                pass
            except Exception as e:
                wrong("connect() with bad flags raised %r", e)
            else:
                wrong("connect() accepted bad flags")
            if CALLS.value != n:
                wrong("connect() called the library in spite of bad flags")
        elif srv is not None and len(srv.backlog) < 20:
            os.environ["XCM_SHIM_LOCAL"] = local = "10.0.0.%d:%d" % (r.randrange(256), r.randrange(65536))
            ski = r.randbytes(r.choice([1, 8, 20, 20, 20])) if r.random() < .7 else None
            os.environ["XCM_SHIM_SKI"] = ski.hex() if ski else "-"
            s = self.expect("connect()", lambda: xcm.connect(srv.addr, flags, attrs) if attrs or flags
                            else xcm.connect(srv.addr))
            if not isinstance(s, xcm.ConnectionSocket):
                wrong("connect() returned %r", s)
            want = dict(attrs)
            if flags:
                want["xcm.blocking"] = False
            e = End(s, "conn", not flags, want)
            self.ends.append(e)
            self.check_attrs(e)
            if raw.xcm_is_blocking(e.handle) != e.blocking:
                wrong("connect() with flags %d made a %sblocking socket", flags, "non-" if e.blocking else "")
            self.get_attr(e, "xcm.remote_addr", srv.addr)
            srv.backlog.append((e, local, ski, srv.addr.split(":")[0]))
        self.maps("connect()")

    def op_accept(self):
        r = self.rng
        srv = self.pick("server")
        if srv is None:
            return
        attrs = self.attributes()
        x = r.random()
        note("accept(%r) on %s %.2f", attrs, srv.addr, x)
        if x < 0.15:
            self.expect("accept()", lambda: srv.sock.accept(attrs), ACCEPT, r.choice(ERRS))
        elif x < 0.25:
            self.refused("accept()", lambda a: srv.sock.accept(a), attrs)
        elif not srv.backlog:
            if not srv.blocking:
                self.expect("accept()", lambda: srv.sock.accept(attrs), None, errno.EAGAIN)
                self.count("would block reported")
        else:
            s = self.expect("accept()", lambda: srv.sock.accept(attrs) if attrs or r.random() < .5 else srv.sock.accept())
            if not isinstance(s, xcm.ConnectionSocket):
                wrong("accept() returned %r", s)
            peer, local, ski, t = srv.backlog.pop(0)
            e = End(s, "conn", attrs.get("xcm.blocking", srv.blocking), dict(attrs))
            self.ends.append(e)
            self.check_attrs(e)
            e.peer = peer
            e.inbox = peer.outbox if hasattr(peer, "outbox") else []
            peer.peer = e
            if peer.closed and peer.inbox_left:
                e.reset = True
            if raw.xcm_is_blocking(e.handle) != e.blocking:
                wrong("accept() made a %sblocking socket", "non-" if e.blocking else "")
            self.get_attr(e, "xcm.remote_addr", "%s:%s" % (t, local))
            if ski is None:
                self.expect("get_attr(tls.peer_subject_key_id)", lambda: e.sock.get_attr("tls.peer_subject_key_id"), None,
                            errno.ENOENT)
            else:
                self.get_attr(e, "tls.peer_subject_key_id", ski)
        self.maps("accept()")

    def op_send(self):
        r = self.rng
        e = self.pick("conn")
        if e is None:
            return
        x = r.random()
        m = self.message()
        note("send(%d bytes) on %d %.2f", len(m), self.ends.index(e), x)
        if x < 0.1:
            self.expect("send()", lambda: e.sock.send(m), SEND, r.choice(ERRS))
            return
        if x < 0.13:
            self.expect("send()", lambda: e.sock.send(b""), None, errno.EINVAL)
            return
        if x < 0.17:
            self.expect("send()", lambda: e.sock.send(r.randbytes(MAX + r.choice([1, 2, 1000]))), None, errno.EMSGSIZE)
            return
        if e.peer is None and not hasattr(e, "outbox"):
            e.outbox = []
        box = e.peer.inbox if e.peer is not None else e.outbox
        load = sum(len(b) + 2000 for b in box)
        if e.blocking and load + len(m) > 90000:
            return
        try:
            e.sock.send(m)
        except OSError as err:
            if err.errno == errno.EAGAIN and not e.blocking and load > 0:
                self.count("would block reported")
                return
            if err.errno in (errno.EPIPE, errno.ECONNRESET) and e.peer is not None and e.peer.closed:
                self.count("error codes compared")
                e.reset = False
                return
            if err.errno in (errno.EPIPE, errno.ECONNRESET) and e.orphaned():
                return
            wrong("send() of %d bytes failed with %r", len(m), err)
        if e.peer is not None and e.peer.closed or e.peer is None and e.orphaned():
            wrong("send() to a closed peer reported success")
        box.append(m)
        self.count("messages sent")

    def op_receive(self):
        r = self.rng
        e = self.pick("conn")
        if e is None:
            return
        x = r.random()
        note("receive() on %d %.2f", self.ends.index(e), x)
        if x < 0.1:
            self.expect("receive()", lambda: e.sock.receive(), RECEIVE, r.choice(ERRS))
            return
        gone = e.peer is not None and e.peer.closed or e.peer is None and e.orphaned()
        if not e.inbox and e.blocking and not gone:
            return
        try:
            m = e.sock.receive()
        except OSError as err:
            if err.errno == errno.EAGAIN and not e.inbox and not gone and not e.blocking:
                self.count("would block reported")
                return
            if err.errno == errno.ECONNRESET and gone:
                self.count("error codes compared")
                e.reset = False
                return
            wrong("receive() failed with %r, %d messages pending", err, len(e.inbox))
        if type(m) is not bytes:
            wrong("receive() returned %r", type(m))
        if m == b"":
            if not gone or e.inbox:
                wrong("receive() reports the end of the connection, %d messages pending", len(e.inbox))
            self.count("ends of connections seen")
            return
        if not e.inbox:
            wrong("receive() returned %d bytes, nothing was sent", len(m))
        want = e.inbox.pop(0)
        if m != want:
            i = next((i for i, (a, b) in enumerate(zip(m, want)) if a != b), min(len(m), len(want)))
            wrong("receive() returned %d bytes, %d were sent; the first difference is at %d", len(m), len(want), i)
        self.count("messages received")
        self.distinct.add(hash(m) & 0xffffffff)

    def op_set_attr(self):
        r = self.rng
        e = self.pick()
        if e is None:
            return
        k, v = self.name(), self.value()
        x = r.random()
        note("set_attr(%s, %.60r) on %d %.2f", k, v, self.ends.index(e), x)
        if x < 0.15:
            self.expect("set_attr()", lambda: e.sock.set_attr(k, v), SET, r.choice(ERRS))
        elif x < 0.2:
            self.expect("set_attr()", lambda: e.sock.set_attr("tcp.keepalive", r.choice([1, "on"])), None, errno.EINVAL)
        elif x < 0.3:
            self.refused("set_attr()", lambda a: [e.sock.set_attr(*i) for i in a.items()], {})
        else:
            self.expect("set_attr()", lambda: e.sock.set_attr(k, v))
            e.attrs[k] = v
            self.check_attrs(e)

    def op_get_attr(self):
        r = self.rng
        e = self.pick()
        if e is None:
            return
        x = r.random()
        note("get_attr on %d %.2f", self.ends.index(e), x)
        if x < 0.15:
            self.expect("get_attr()", lambda: e.sock.get_attr("xcm.local_addr"), GET, r.choice(ERRS))
        elif x < 0.25:
            self.expect("get_attr()", lambda: e.sock.get_attr("no.such"), None, errno.ENOENT)
        elif x < 0.3:
            raw.xcmshim_put(e.handle, b"odd", r.choice([0, 5, 7, -1]), b"abc", 3)
            try:
                v = e.sock.get_attr("odd")
            except Exception:
                pass
            else:
                wrong("get_attr() returned %r for an attribute of unknown type", v)
        elif x < 0.55:
            v = r.randbytes(r.choice([0, 1, 2, 20, 20, 100, 8191, 8192, 8193, 9000]))
            raw.xcmshim_put(e.handle, b"bin", BIN, v, len(v))
            self.get_attr(e, "bin", v)
        elif e.attrs:
            k = r.choice(list(e.attrs))
            self.get_attr(e, k, e.attrs[k])

    def op_finish(self):
        r = self.rng
        e = self.pick()
        if e is None:
            return
        err = r.choice(ERRS) if r.random() < 0.4 else None
        note("finish() on %d %s", self.ends.index(e), err)
        self.expect("finish()", lambda: e.sock.finish(), FINISH if err else None, err)

    def op_blocking(self):
        r = self.rng
        e = self.pick()
        if e is None:
            return
        v = r.random() < 0.5
        err = r.choice(ERRS) if r.random() < 0.3 else None
        note("set_blocking(%r) on %d %s", v, self.ends.index(e), err)
        self.expect("set_blocking()", lambda: e.sock.set_blocking(v), BLOCKING if err else None, err)
        if not err:
            e.blocking = v
        if raw.xcm_is_blocking(e.handle) != e.blocking:
            wrong("set_blocking(%r) left the socket %sblocking", v, "non-" if v else "")
        if bool(self.expect("is_blocking()", lambda: e.sock.is_blocking())) != e.blocking:
            wrong("is_blocking() is wrong")
        self.count("blocking modes compared")

    def op_target(self):
        r = self.rng
        e = self.pick()
        if e is None:
            return
        x = r.random()
        note("set_target on %d %.2f", self.ends.index(e), x)
        if x < 0.2:
            bad = 3 if e.kind == "server" else r.choice([4, 8, 7])
            try:
                e.sock.set_target(bad)
            except Exception:
                self.count("error codes compared")
            else:
                wrong("set_target(%d) reported success, but the library refused it", bad)
            return
        if x < 0.3:
            F_KIND.value, F_N.value, F_ERR.value = AWAIT, 1, errno.EINVAL
            try:
                e.sock.set_target(0)
            except Exception:
                pass
            else:
                wrong("set_target() reported success, but the library failed")
            F_N.value = 0
            return
        if x < 0.4:
            self.expect("fileno()", lambda: e.sock.fileno(), FD, r.choice(ERRS))
            return
        cond = r.choice([0, 4]) if e.kind == "server" else r.choice([0, 1, 2, 3])
        self.expect("set_target()", lambda: e.sock.set_target(cond))
        fd = self.expect("fileno()", lambda: e.sock.fileno())
        p = select.poll()
        p.register(fd, select.POLLIN)
        ready = bool(p.poll(0))
        if e.kind == "server":
            want = cond == 4 and bool(e.backlog)
        else:
            gone = e.peer is not None and e.peer.closed or e.peer is None and e.orphaned()
            if gone:
                return
            if cond & 2 and (e.peer.inbox if e.peer is not None else getattr(e, "outbox", [])):
                return
            want = bool(cond & 1 and e.inbox) or bool(cond & 2)
        if ready != want:
            wrong("after set_target(%d) the descriptor is %sready", cond, "" if ready else "not ")
        self.count("readiness compared")

    def op_close(self):
        r = self.rng
        e = self.pick()
        if e is None:
            return
        how = r.randrange(4)
        note("close %d (%d)", self.ends.index(e), how)
        live = LIVE_SOCKS.value
        if how == 0:
            e.sock = None               # dropped without close()
            gc.collect(0)
        elif how == 1:
            a = e.sock
            cyc = [a]
            cyc.append(cyc)
            e.sock = a = cyc = None
            gc.collect()
        else:
            self.expect("close()", lambda: e.sock.close())
        if LIVE_SOCKS.value != live - 1:
            wrong("%d library sockets instead of %d after a socket was %s", LIVE_SOCKS.value, live - 1,
                  "dropped" if how < 2 else "closed")
        self.count("handle counts compared")
        e.closed = True
        e.inbox_left = bool(e.inbox)
        if e.kind == "server":
            for peer, _, _, _ in e.backlog:
                peer.lost = True
        elif e.peer is not None and e.inbox:
            e.peer.reset = True
        if how >= 2:
            s = e.sock
            n = CALLS.value
            for _ in range(r.randrange(4)):
                name, args = r.choice([("close", ()), ("finish", ()), ("fileno", ()), ("set_target", (1,)),
                                       ("get_attr", ("xcm.local_addr",)), ("set_attr", ("a", 1)), ("is_blocking", ()),
                                       ("set_blocking", (False,)), ("set_blocking", (True,))] +
                                      ([("accept", ())] if e.kind == "server" else [("send", (b"x",)), ("receive", ())]))
                note("%s on the closed socket", name)
                try:
                    getattr(s, name)(*args)
                except Exception:
                    pass
                else:
                    if name != "close":
                        wrong("%s() on a closed socket reported success", name)
                self.count("uses after close")
            if CALLS.value != n:
                wrong("the library was called for a closed socket")
            e.sock = s = None

    def op_thread(self):
        """A blocking call in one thread does not stop the others, and each thread sees its own error code."""
        r = self.rng
        srv = self.pick("server")
        if srv is None or srv.backlog or not srv.blocking:
            return
        note("threads")
        got = []

        def run():
            try:
                c = srv.sock.accept()
                got.append(c)
                got.append(c.receive())
                try:
                    c.set_blocking(False)
                    for _ in range(200):
                        try:
                            c.receive()
                            got.append("something received")
                        except OSError as e:
                            if e.errno != errno.EAGAIN:
                                got.append("%r instead of EAGAIN" % e)
                finally:
                    got.append("done")
            except Exception as e:
                got.append(e)

        t = threading.Thread(target=run)
        t.start()
        for _ in range(r.choice([0, 1, 5])):
            time.sleep(0.001)
        c = xcm.connect(srv.addr)
        m = r.randbytes(r.choice([1, 100, MAX]))
        for _ in range(r.choice([0, 1, 5])):
            time.sleep(0.001)
        c.send(m)
        for _ in range(200):
            try:
                xcm.connect("ux:nobody")
                wrong("connected to nobody")
            except OSError as e:
                if e.errno != errno.ECONNREFUSED:
                    wrong("connect() in one thread failed with %r while another thread received", e)
        t.join()
        if len(got) < 3 or got[1] != m or got[2:] != ["done"]:
            wrong("a blocking thread got %.300r", got[:1] + [len(got) > 1 and got[1] == m] + got[2:])
        got[0].close()
        c.close()
        got[0] = c = None
        self.count("thread sessions")

    def run(self):
        r = self.rng
        ops = [(self.op_server, 2), (self.op_connect, 4), (self.op_accept, 4), (self.op_send, 12), (self.op_receive, 12),
               (self.op_set_attr, 4), (self.op_get_attr, 5), (self.op_finish, 1), (self.op_blocking, 2),
               (self.op_target, 3), (self.op_close, 1.5), (self.op_thread, 1)]
        fs, ws = zip(*ops)
        live = LIVE_SOCKS.value
        self.op_server()
        for _ in range(r.choice([40, 120])):
            f = r.choices(fs, ws)[0]
            f()
        left = [e for e in self.ends if not e.closed]
        for e in left:
            if r.random() < 0.5:
                e.sock.close()
            e.sock = None
            e.closed = True
        self.ends = []
        gc.collect()
        if LIVE_SOCKS.value != live:
            wrong("%d library sockets left open", LIVE_SOCKS.value - live)
        self.maps("the session")
        self.count("handle counts compared")


def orphaned(e):
    return getattr(e, "lost", False)


End.orphaned = orphaned


def main():
    seed, sessions = int(sys.argv[1]), int(sys.argv[2])
    faulthandler.enable()
    for i in range(sessions):
        rng = random.Random("%d/%d" % (seed, i))
        counts, distinct = {}, set()
        os.write(OUT, ("session %d/%d\n" % (seed, i)).encode())
        faulthandler.dump_traceback_later(60, exit=True)
        bug = None
        s = Session(rng, counts, distinct)
        try:
            s.run()
        except Wrong as e:
            bug = str(e)
        except Exception:
            import traceback
            bug = "unexpected exception: " + traceback.format_exc()[-1500:]
        faulthandler.cancel_dump_traceback_later()
        os.write(OUT, (json.dumps({"bug": bug, "counts": counts, "distinct": sorted(distinct)}) + "\n").encode())
        if bug:
            break
    os.write(OUT, b"end\n")
    os._exit(0)


main()
