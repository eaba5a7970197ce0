"""The simulated environment the real, unmodified paf code runs in.

 - virtual time (time.time & friends);
 - a stand-in for libxcm.so.0, behind ctypes.CDLL, so that also paf/xcm.py is the
   real thing: every foreign call is checked (live handle, buffer capacity,
   declared types) and recorded;
 - a stand-in for select.epoll, whose poll() hands control to the harness.

install() must be called before any paf module is imported.
"""

import collections
import ctypes
import errno
import os
import select
import sys
import time

REAL_TIME = time.time
REAL_MONO = time.monotonic
REAL_CDLL = ctypes.CDLL
REAL_EPOLL = select.epoll
REAL_POLL = select.poll

SO_RECEIVABLE = 1
SO_SENDABLE = 2
SO_ACCEPTABLE = 4

MAX_MSG = 65535

ATTR_BOOL, ATTR_INT64, ATTR_STR, ATTR_BIN = 1, 2, 3, 4


# never reused, so that stale ones are recognised, also across runs
NEXT_HANDLE = [0x7f1200000040]


class SimStop(BaseException):
    """Ends a simulated run from inside poll()."""


class SimHang(BaseException):
    """The code under test spins or blocks forever."""


class MemoryViolation(Exception):
    pass


class Env:
    """Everything one simulated process sees. One at a time is current."""

    def __init__(self, rng=None):
        self.rng = rng
        self.now = 1700000000.0
        self.tick = 0.0
        self.time_calls = 0
        self.max_time_calls = 3000000
        self.use_errno = False
        self.fds = {}             # fake fd -> object with .ready()
        self.handles = {}         # live handle -> object
        self.dead_handles = {}    # released handle -> description
        self.first_handle = NEXT_HANDLE[0]
        self.listener = None      # receives transport events
        self.poll_cb = None       # called by FakeEpoll.poll
        self.epoll_factory = None
        self.client_poll_cb = None
        self.epolls = []
        self.ffi_problems = []
        self.calls = collections.Counter()
        self.attr_fail = {}       # attr name -> errno
        self.fail_next = {}       # function name -> list of errno (0: succeed)
        self.maps_created = 0
        self.maps_destroyed = 0
        self.sockets_created = 0
        self.sockets_closed = 0
        self.listeners_by_addr = {}
        self.connect_cb = None
        self.blocking_problem = None

    # --- time
    def time(self):
        self.time_calls += 1
        if self.time_calls > self.max_time_calls:
            raise SimHang("the code spins: %d clock readings without blocking" % self.time_calls)
        if self.tick:
            self.now += self.tick
        return self.now

    # --- fds
    def alloc_fd(self, obj):
        fd = 10000
        while fd in self.fds:
            fd += 1
        self.fds[fd] = obj
        return fd

    def free_fd(self, fd):
        del self.fds[fd]
        for ep in self.epolls:
            ep.kernel_close(fd)

    def new_handle(self, obj):
        h = NEXT_HANDLE[0]
        NEXT_HANDLE[0] += 0x40
        self.handles[h] = obj
        return h

    def problem(self, text):
        self.ffi_problems.append(text)
        if self.listener is not None:
            self.listener.ffi_problem(text)


ENV = None


def set_env(env):
    global ENV
    ENV = env


# ---------------------------------------------------------------- time

def _v_time():
    if ENV is None:
        return REAL_TIME()
    return ENV.time()


def _v_time_ns():
    return int(_v_time() * 1e9)


def _v_mono():
    if ENV is None:
        return REAL_MONO()
    return ENV.time() - 1600000000.0


def _v_mono_ns():
    return int(_v_mono() * 1e9)


def _v_sleep(s):
    if ENV is None:
        return
    ENV.now += s


# ---------------------------------------------------------------- epoll

class FakeEpoll:
    def __new__(cls, *args, **kwargs):
        if ENV is not None and ENV.epoll_factory is not None:
            return ENV.epoll_factory()
        return object.__new__(cls)

    def __init__(self, *args, **kwargs):
        self.reg = {}
        self.closed = False
        self.env = ENV
        if ENV is not None:
            ENV.epolls.append(self)

    def _fd(self, fd):
        return fd if isinstance(fd, int) else fd.fileno()

    def register(self, fd, eventmask=select.EPOLLIN | select.EPOLLPRI | select.EPOLLOUT):
        fd = self._fd(fd)
        if fd in self.reg:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST))
        if fd >= 10000 and fd not in self.env.fds:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        self.reg[fd] = eventmask

    def modify(self, fd, eventmask):
        fd = self._fd(fd)
        if fd not in self.reg:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
        self.reg[fd] = eventmask

    def unregister(self, fd):
        fd = self._fd(fd)
        if fd >= 10000 and fd not in self.env.fds:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        if fd not in self.reg:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
        del self.reg[fd]

    def kernel_close(self, fd):
        self.reg.pop(fd, None)

    def fileno(self):
        return 9999

    def close(self):
        self.closed = True
        self.reg = {}

    def real_ready(self):
        """Signal pipe and other real descriptors."""
        res = []
        real = [fd for fd in self.reg if fd < 10000]
        if real:
            p = REAL_POLL()
            for fd in real:
                p.register(fd, self.reg[fd])
            res = [(fd, ev) for fd, ev in p.poll(0)]
        return res

    def ready(self):
        """Fake descriptors that a kernel would report now."""
        res = []
        for fd, mask in self.reg.items():
            if fd < 10000 or not mask & select.EPOLLIN:
                continue
            obj = self.env.fds.get(fd)
            if obj is not None and obj.ready():
                res.append(fd)
        return res

    def poll(self, timeout=None, maxevents=-1):
        if timeout is None or timeout < 0:
            timeout = -1
        self.env.time_calls = 0
        return self.env.poll_cb(self, timeout)


class FakePoll:
    """For paf.client.wait() and friends."""

    def __init__(self):
        self.reg = {}
        self.real = REAL_POLL()

    def register(self, fd, eventmask=select.POLLIN):
        fd = fd if isinstance(fd, int) else fd.fileno()
        self.reg[fd] = eventmask
        if fd < 10000:
            self.real.register(fd, eventmask)

    def modify(self, fd, eventmask):
        fd = fd if isinstance(fd, int) else fd.fileno()
        self.reg[fd] = eventmask

    def unregister(self, fd):
        fd = fd if isinstance(fd, int) else fd.fileno()
        del self.reg[fd]

    def poll(self, timeout=None):
        if any(fd >= 10000 for fd in self.reg):
            ENV.time_calls = 0
            return ENV.client_poll_cb(self, timeout)
        return self.real.poll(timeout)


# ---------------------------------------------------------------- xcm objects

class SimConn:
    """One transport connection, seen from paf's end."""

    def __init__(self, env, addr="ux:", local_addr="", transport="ux", ski=None):
        self.env = env
        self.addr = addr
        self.local_addr = local_addr
        self.transport = transport
        self.ski = ski
        self.fd = None
        self.handle = None
        self.blocking = True
        self.cond = 0
        self.inbox = collections.deque()   # messages towards paf
        self.eof = False                   # peer closed (delivered after the inbox)
        self.eof_hard = False              # ... and sending fails at once
        self.err = None                    # transport error (delivered at once)
        self.capacity = None               # messages accepted before EAGAIN; None: unlimited
        self.closed = False
        self.sent = 0
        self.received = 0
        self.eof_delivered = False
        self.err_delivered = False
        self.attrs = {}
        self.user = None                   # for the harness
        self.sched_recv = collections.deque()   # scripted results for receive
        self.server_sock = None

    def ready(self):
        if self.closed:
            return False
        if self.cond & SO_RECEIVABLE and (self.inbox or self.eof or self.err):
            return True
        if self.cond & SO_SENDABLE and (self.capacity is None or self.capacity > 0 or self.err or (self.eof and self.eof_hard)):
            return True
        return False

    def open(self):
        self.fd = self.env.alloc_fd(self)
        self.handle = self.env.new_handle(self)
        self.env.sockets_created += 1


class SimServer:
    def __init__(self, env, addr, attrs):
        self.env = env
        self.addr = addr
        self.attrs = attrs
        self.fd = None
        self.handle = None
        self.cond = 0
        self.closed = False
        self.blocking = attrs.get("xcm.blocking", True)
        self.pending = collections.deque()   # SimConn or errno

    def ready(self):
        return not self.closed and bool(self.cond & SO_ACCEPTABLE) and bool(self.pending)

    def open(self):
        self.fd = self.env.alloc_fd(self)
        self.handle = self.env.new_handle(self)
        self.env.sockets_created += 1


class AttrMap:
    def __init__(self):
        self.attrs = {}


# ---------------------------------------------------------------- foreign functions

_CArgObject = type(ctypes.byref(ctypes.c_int()))


def _buffer_of(arg):
    if isinstance(arg, _CArgObject):
        return arg._obj
    return arg


class FakeFun:
    def __init__(self, lib, name, impl):
        self.lib = lib
        self.name = name
        self.impl = impl
        self.restype = ctypes.c_int
        self.argtypes = None
        self.errcheck = None

    def _convert(self, args):
        res = []
        types = self.argtypes
        if types is not None and len(args) < len(types):
            raise TypeError("this function takes at least %d argument%s (%d given)" %
                            (len(types), "s" if len(types) != 1 else "", len(args)))
        for i, arg in enumerate(args):
            t = types[i] if types is not None and i < len(types) else None
            if t is not None:
                # the real conversion, for its type checks
                conv = t.from_param(arg)
                if t in (ctypes.c_int, ctypes.c_long, ctypes.c_bool, ctypes.c_int64, ctypes.c_longlong,
                         ctypes.c_size_t, ctypes.c_uint):
                    arg = t(arg).value if not isinstance(arg, ctypes._SimpleCData) else arg.value
                elif t is ctypes.c_void_p and isinstance(arg, ctypes.c_void_p):
                    arg = arg.value
                elif t is ctypes.c_char_p and isinstance(arg, ctypes.c_char_p):
                    arg = arg.value
                del conv
            elif isinstance(arg, bool):
                arg = int(arg)
            elif isinstance(arg, int):
                # undeclared: passed as a C int
                arg = ctypes.c_int(arg & 0xffffffff).value
            elif isinstance(arg, float):
                raise ctypes.ArgumentError("Don't know how to convert parameter %d" % (i + 1))
            res.append(arg)
        return res

    def __call__(self, *args):
        env = ENV
        if env is None:
            # garbage of a finished run
            return None if self.restype is ctypes.c_void_p else 0
        env.calls[self.name] += 1
        args = self._convert(args)
        if args and isinstance(args[0], int) and 0 < args[0] < env.first_handle and args[0] >= 0x7f1200000040:
            # garbage of an earlier run, now collected
            return None if self.restype is ctypes.c_void_p else 0
        value = self.impl(env, *args)
        rt = self.restype
        if rt is None:
            return None
        if rt is ctypes.c_void_p:
            return None if not value else value
        if rt is ctypes.c_bool:
            return bool(value)
        if rt is ctypes.c_int:
            return ctypes.c_int((value or 0) & 0xffffffff).value
        if rt in (ctypes.c_long, ctypes.c_int64):
            return ctypes.c_long(value or 0).value
        return value


def _fail(env, e):
    if env.lib_use_errno:
        ctypes.set_errno(e)
    return -1


def _injected(env, name):
    lst = env.fail_next.get(name)
    if lst:
        e = lst.pop(0)
        if not lst:
            del env.fail_next[name]
        return e
    return 0


def _handle(env, h, kinds, fun):
    obj = env.handles.get(h)
    if obj is None or not isinstance(obj, kinds):
        if h in env.dead_handles:
            env.problem("%s called on a released handle (%s)" % (fun, env.dead_handles[h]))
        else:
            env.problem("%s called on an invalid handle %r" % (fun, h))
        raise MemoryViolation("invalid handle in %s" % fun)
    return obj


def _copy_out(env, fun, dst, capacity, data):
    """What the library does: memcpy(dst, data) of at most `capacity` bytes."""
    buf = _buffer_of(dst)
    size = None
    if buf is None:
        env.problem("%s: NULL destination" % fun)
        raise MemoryViolation(fun)
    if isinstance(buf, bytes):
        env.problem("%s: writes into an immutable bytes object" % fun)
        raise MemoryViolation(fun)
    try:
        size = ctypes.sizeof(buf)
    except TypeError:
        env.problem("%s: destination %r is not a buffer" % (fun, type(buf)))
        raise MemoryViolation(fun)
    if capacity > size:
        env.problem("%s: announced capacity %d, but the buffer has %d bytes" % (fun, capacity, size))
        capacity = size
    n = min(len(data), capacity)
    ctypes.memmove(ctypes.addressof(buf), data, n)
    return n


def _c_str(env, fun, s):
    if s is None:
        env.problem("%s: NULL string" % fun)
        raise MemoryViolation(fun)
    if isinstance(s, bytes):
        return s.split(b"\0")[0].decode("utf-8", "surrogateescape")
    env.problem("%s: %r is not a C string" % (fun, type(s)))
    raise MemoryViolation(fun)


def xcm_attr_map_create(env):
    m = AttrMap()
    env.maps_created += 1
    return env.new_handle(m)


def xcm_attr_map_destroy(env, h):
    if h is None or h == 0:
        return 0
    m = _handle(env, h, AttrMap, "xcm_attr_map_destroy")
    del env.handles[h]
    env.dead_handles[h] = "attribute map"
    env.maps_destroyed += 1
    m.attrs = None
    return 0


def _map_add(env, h, name, value, fun):
    m = _handle(env, h, AttrMap, fun)
    m.attrs[_c_str(env, fun, name)] = value
    return 0


def xcm_attr_map_add_bool(env, h, name, value):
    return _map_add(env, h, name, bool(value), "xcm_attr_map_add_bool")


def xcm_attr_map_add_int64(env, h, name, value):
    return _map_add(env, h, name, int(value), "xcm_attr_map_add_int64")


def xcm_attr_map_add_str(env, h, name, value):
    return _map_add(env, h, name, _c_str(env, "xcm_attr_map_add_str", value), "xcm_attr_map_add_str")


def _map_attrs(env, h, fun):
    if h is None or h == 0:
        return {}
    return dict(_handle(env, h, AttrMap, fun).attrs)


def xcm_server_a(env, addr, attrs_h):
    addr = _c_str(env, "xcm_server_a", addr)
    attrs = _map_attrs(env, attrs_h, "xcm_server_a")
    e = _injected(env, "xcm_server_a")
    if not e and addr in env.listeners_by_addr:
        e = errno.EADDRINUSE
    if not e and ":" not in addr:
        e = errno.EINVAL
    if e:
        _fail(env, e)
        return 0
    s = SimServer(env, addr, attrs)
    s.open()
    env.listeners_by_addr[addr] = s
    if env.listener is not None:
        env.listener.ev_server(s)
    return s.handle


def xcm_server(env, addr):
    return xcm_server_a(env, addr, None)


def xcm_connect_a(env, addr, attrs_h):
    addr = _c_str(env, "xcm_connect_a", addr)
    attrs = _map_attrs(env, attrs_h, "xcm_connect_a")
    e = _injected(env, "xcm_connect_a")
    if e:
        _fail(env, e)
        return 0
    res = env.connect_cb(addr, attrs) if env.connect_cb is not None else errno.ECONNREFUSED
    if isinstance(res, int):
        _fail(env, res)
        return 0
    res.blocking = attrs.get("xcm.blocking", True)
    res.attrs = attrs
    res.open()
    return res.handle


def xcm_accept_a(env, h, attrs_h):
    s = _handle(env, h, SimServer, "xcm_accept_a")
    attrs = _map_attrs(env, attrs_h, "xcm_accept_a")
    e = _injected(env, "xcm_accept_a")
    if e:
        _fail(env, e)
        return 0
    if not s.pending:
        if s.blocking:
            raise SimHang("xcm_accept blocks: the server socket is in blocking mode")
        _fail(env, errno.EAGAIN)
        return 0
    c = s.pending.popleft()
    if isinstance(c, int):
        _fail(env, c)
        return 0
    c.blocking = attrs.get("xcm.blocking", s.blocking)
    c.server_sock = s
    c.open()
    if env.listener is not None:
        env.listener.ev_accept(s, c)
    return c.handle


def xcm_close(env, h):
    if h is None or h == 0:
        return 0
    o = _handle(env, h, (SimConn, SimServer), "xcm_close")
    del env.handles[h]
    env.dead_handles[h] = "socket %s" % o.addr
    if len(env.dead_handles) > 5000:
        for k in list(env.dead_handles)[:2500]:
            del env.dead_handles[k]
    o.closed = True
    env.free_fd(o.fd)
    env.sockets_closed += 1
    if isinstance(o, SimServer):
        if env.listeners_by_addr.get(o.addr) is o:
            del env.listeners_by_addr[o.addr]
    if env.listener is not None:
        if isinstance(o, SimServer):
            env.listener.ev_server_close(o)
        else:
            env.listener.ev_close(o)
    return 0


xcm_cleanup = xcm_close


def xcm_finish(env, h):
    _handle(env, h, (SimConn, SimServer), "xcm_finish")
    e = _injected(env, "xcm_finish")
    if e:
        return _fail(env, e)
    return 0


def xcm_await(env, h, cond):
    o = _handle(env, h, (SimConn, SimServer), "xcm_await")
    valid = SO_ACCEPTABLE if isinstance(o, SimServer) else SO_RECEIVABLE | SO_SENDABLE
    if cond & ~valid:
        env.problem("xcm_await with invalid condition %d" % cond)
        return _fail(env, errno.EINVAL)
    o.cond = cond
    return 0


def xcm_fd(env, h):
    o = _handle(env, h, (SimConn, SimServer), "xcm_fd")
    e = _injected(env, "xcm_fd")
    if e:
        return _fail(env, e)
    return o.fd


def xcm_want(env, h, cond, fds, events, capacity):
    _handle(env, h, (SimConn, SimServer), "xcm_want")
    return 0


def xcm_set_blocking(env, h, val):
    o = _handle(env, h, (SimConn, SimServer), "xcm_set_blocking")
    e = _injected(env, "xcm_set_blocking")
    if e:
        return _fail(env, e)
    o.blocking = bool(val)
    return 0


def xcm_is_blocking(env, h):
    return _handle(env, h, (SimConn, SimServer), "xcm_is_blocking").blocking


def xcm_send(env, h, buf, length):
    c = _handle(env, h, SimConn, "xcm_send")
    data = _buffer_of(buf)
    if isinstance(data, ctypes.Array):
        data = bytes(data.raw)
    if not isinstance(data, (bytes, bytearray)):
        env.problem("xcm_send: %r is not a buffer" % type(data))
        raise MemoryViolation("xcm_send")
    if length > len(data) or length < 0:
        env.problem("xcm_send: length %d announced for a buffer of %d bytes" % (length, len(data)))
        raise MemoryViolation("xcm_send")
    data = bytes(data[:length])
    e = _injected(env, "xcm_send")
    if not e and c.err:
        e = c.err
        c.err_delivered = True
    if not e and c.eof and c.eof_hard:
        e = errno.EPIPE
        c.err_delivered = True
    if not e and length == 0:
        e = errno.EINVAL
        c.err_delivered = True
    if not e and length > MAX_MSG:
        e = errno.EMSGSIZE
        c.err_delivered = True
    if not e and c.capacity is not None and c.capacity <= 0:
        if c.blocking:
            raise SimHang("xcm_send blocks: the connection is in blocking mode")
        e = errno.EAGAIN
    if e:
        if env.listener is not None and e != errno.EAGAIN:
            env.listener.ev_error(c, "send", e, length, data)
        return _fail(env, e)
    if c.capacity is not None:
        c.capacity -= 1
    c.sent += 1
    if env.listener is not None:
        env.listener.ev_send(c, data)
    return 0


def xcm_receive(env, h, buf, capacity):
    c = _handle(env, h, SimConn, "xcm_receive")
    e = _injected(env, "xcm_receive")
    if not e and c.err:
        e = c.err
        c.err_delivered = True
    if e:
        if env.listener is not None and e != errno.EAGAIN:
            env.listener.ev_error(c, "receive", e, 0, None)
        return _fail(env, e)
    if c.inbox:
        msg = c.inbox.popleft()
        n = _copy_out(env, "xcm_receive", buf, capacity, msg)
        c.received += 1
        if env.listener is not None:
            env.listener.ev_recv(c, msg)
        return n
    if c.eof:
        if not c.eof_delivered:
            c.eof_delivered = True
            if env.listener is not None:
                env.listener.ev_eof(c)
        return 0
    if c.blocking:
        raise SimHang("xcm_receive blocks: the connection is in blocking mode")
    return _fail(env, errno.EAGAIN)


def xcm_attr_get(env, h, name, type_ref, value, capacity):
    o = _handle(env, h, (SimConn, SimServer), "xcm_attr_get")
    name = _c_str(env, "xcm_attr_get", name)
    e = _injected(env, "xcm_attr_get") or env.attr_fail.get(name, 0)
    if isinstance(e, list):
        e = e.pop(0) if e else 0
    data = None
    atype = None
    if not e:
        extra = getattr(o, "extra_attrs", {})
        if name in extra:
            atype, data = extra[name]
        elif isinstance(o, SimConn) and name == "xcm.remote_addr":
            atype, data = ATTR_STR, o.addr.encode() + b"\0"
        elif name == "xcm.local_addr":
            la = o.local_addr if isinstance(o, SimConn) else o.addr
            atype, data = ATTR_STR, la.encode() + b"\0"
        elif name == "xcm.transport":
            atype, data = ATTR_STR, (o.transport if isinstance(o, SimConn) else o.addr.split(":")[0]).encode() + b"\0"
        elif name == "xcm.type":
            atype, data = ATTR_STR, (b"connection\0" if isinstance(o, SimConn) else b"server\0")
        elif name == "xcm.blocking":
            atype, data = ATTR_BOOL, (b"\1" if o.blocking else b"\0")
        elif isinstance(o, SimConn) and name == "tls.peer_subject_key_id" and o.transport == "tls" \
                and o.ski is not None:
            atype, data = ATTR_BIN, o.ski
        elif isinstance(o, SimConn) and name in o.attrs:
            v = o.attrs[name]
            if isinstance(v, bool):
                atype, data = ATTR_BOOL, bytes([v])
            elif isinstance(v, int):
                atype, data = ATTR_INT64, v.to_bytes(8, "little", signed=True)
            elif isinstance(v, bytes):
                atype, data = ATTR_BIN, v
            else:
                atype, data = ATTR_STR, v.encode() + b"\0"
        else:
            e = errno.ENOENT
    if not e and len(data) > capacity:
        e = errno.EOVERFLOW
    if e:
        if env.listener is not None:
            env.listener.ev_attr_error(o, name, e)
        return _fail(env, e)
    n = _copy_out(env, "xcm_attr_get", value, capacity, data)
    tr = _buffer_of(type_ref)
    if tr is not None:
        if isinstance(tr, ctypes.c_int):
            tr.value = atype
        elif hasattr(tr, "contents"):
            tr.contents.value = atype
    return n


def _attr_set(env, h, name, value, fun):
    o = _handle(env, h, (SimConn, SimServer), fun)
    name = _c_str(env, fun, name)
    e = _injected(env, fun) or env.attr_fail.get(name, 0)
    if isinstance(e, list):
        e = e.pop(0) if e else 0
    if e:
        if env.listener is not None:
            env.listener.ev_attr_error(o, name, e)
        return _fail(env, e)
    o.attrs[name] = value
    return 0


def xcm_attr_set_bool(env, h, name, value):
    return _attr_set(env, h, name, bool(value), "xcm_attr_set_bool")


def xcm_attr_set_int64(env, h, name, value):
    return _attr_set(env, h, name, int(value), "xcm_attr_set_int64")


def xcm_attr_set_str(env, h, name, value):
    return _attr_set(env, h, name, _c_str(env, "xcm_attr_set_str", value), "xcm_attr_set_str")


IMPL = {k: v for k, v in list(globals().items()) if k.startswith("xcm_") and callable(v)}


class FakeLib:
    def __init__(self, name, use_errno):
        self._name = name
        self._use_errno = use_errno
        self._funs = {}

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        impl = IMPL.get(name)
        if impl is None:
            raise AttributeError("%s: undefined symbol: %s" % (self._name, name))
        fun = self._funs.get(name)
        if fun is None:
            fun = FakeFun(self, name, impl)
            self._funs[name] = fun
        return fun

    __getitem__ = __getattr__


LIB_USE_ERRNO = [False]
Env.lib_use_errno = property(lambda self: LIB_USE_ERRNO[0])


def _fake_cdll(name, *args, **kwargs):
    if name is not None and "xcm" in str(name):
        LIB_USE_ERRNO[0] = bool(kwargs.get("use_errno", False))
        return FakeLib(name, LIB_USE_ERRNO[0])
    return REAL_CDLL(name, *args, **kwargs)


_installed = False


def install(client_poll=True):
    """Replaces the environment. Before importing paf."""
    global _installed
    if _installed:
        return
    _installed = True
    assert "paf" not in sys.modules
    time.time = _v_time
    time.time_ns = _v_time_ns
    time.monotonic = time.perf_counter = _v_mono
    time.monotonic_ns = time.perf_counter_ns = _v_mono_ns
    time.sleep = _v_sleep
    select.epoll = FakeEpoll
    if client_poll:
        select.poll = FakePoll
    ctypes.CDLL = _fake_cdll
    ctypes.cdll.LoadLibrary = _fake_cdll
