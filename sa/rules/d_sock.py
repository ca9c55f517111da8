"""D01-D03: blocking-free sockets - calls of the system, sio::TCPServer and sio::TCPSocket."""
from ..core import check
from ..engine import addr, deref, INF
from ..ir import AnalysisBroken
from ..sysmodel import Sys, errc, EAGAIN, EINPROGRESS
import errno as E

THIS = ("name", "this")
NET, SIO = "mg::net::", "mg::sio::"
NB, STREAM = 0o4000, 1
SOL_SOCKET, IPTCP, IPV6 = 1, 6, 41
KEEPALIVE, REUSEADDR, SO_ERROR = (1, 9), (1, 2), (1, 4)
KEEPIDLE, KEEPINTVL, KEEPCNT, USER_TIMEOUT, NODELAY = [(6, x) for x in (4, 5, 6, 18, 1)]
V6ONLY = (41, 26)
POLLOUT = 4


def fld(r, n):
    return ("f", r, n)


def plain(v):
    while isinstance(v, tuple) and v[0] == "cast":
        v = v[-1]
    return v


class Base(Sys):
    ERRNOS = dict(Sys.ERRNOS, accept4=(EAGAIN,), accept=(EAGAIN,))

    def setup(self, f):
        def fn(ip, st, this, args):
            self.args = args
            self.f = f
            self.out = None
            for i, p in enumerate(f.params):
                if "Error" in p[2] and p[3]:
                    self.out = args[i][1]
                    v = ip.norm(st, ip.read(st, fld(self.out, "myObject")))
                    st.rs["err0"] = v
            self.prepare(ip, st)
        return fn

    def prepare(self, ip, st):
        pass

    def a(self, ip, st, i):
        return ip.norm(st, ip.rvalue(st, self.args[i]))

    def bad(self, ip, st, msg):
        ip.report(st, msg, self.fn, self.line)

    def pointee(self, ip, st, c, i):
        a = self.arg(ip, st, c, i)
        r = deref(a) if isinstance(a, tuple) and a[0] not in ("str", "fn") else ("name", "?")
        return r[1] if r[0] == "e" and r[2] == 0 else r

    def bump(self, st, k, v):
        st.rs[k] = st.rs.get(k, ()) + (v,)

    # ---- error told
    def error(self, ip, st):
        """What is told via the error argument: kept, null, or a code."""
        v = ip.norm(st, ip.read(st, fld(self.out, "myObject")))
        if ip.eq(st, v, 0) is True:
            return "null"
        if v == st.rs["err0"]:
            return "kept"
        return self.code_of(ip, st, v)

    def want_error(self, ip, st, code):
        e = self.error(ip, st)
        if strip(e) != strip(code):
            if e in ("null", "kept"):
                self.bad(ip, st, "a failure is told without its error")
            else:
                self.bad(ip, st, "a wrong error is told")

    def want_none(self, ip, st):
        if self.error(ip, st) != "null":
            self.bad(ip, st, "an error is left set when it must be retried later: it looks like a failure")

    def fine(self, ip, st):
        if self.error(ip, st) not in ("null", "kept"):
            self.bad(ip, st, "an error is told on success")

    def bad_errno(self, ip, st, fn, line):
        # Seen by the error which is told.
        pass

    def after_syscall(self, ip, st, c, val, err):
        if c.qn == "poll" and isinstance(val, tuple):
            ip.refine(st, val, hi=1)
        self.record(ip, st, c, val, err)

    def record(self, ip, st, c, val, err):
        n = c.qn
        info = ()
        if n == "setsockopt":
            r = self.pointee(ip, st, c, 3)
            info = (self.arg(ip, st, c, 0), (self.arg(ip, st, c, 1), self.arg(ip, st, c, 2)), ip.norm(st, ip.read(st, r)),
                    self.arg(ip, st, c, 4))
        elif n == "getsockopt":
            info = (self.arg(ip, st, c, 0), (self.arg(ip, st, c, 1), self.arg(ip, st, c, 2)),
                    ip.norm(st, ip.read(st, self.pointee(ip, st, c, 3))))
        elif n in ("bind", "connect"):
            info = (self.arg(ip, st, c, 0), self.pointee(ip, st, c, 1), self.arg(ip, st, c, 2))
        elif n in ("accept4", "accept", "getsockname"):
            info = (self.arg(ip, st, c, 0), self.pointee(ip, st, c, 1)) + tuple(
                self.arg(ip, st, c, i) for i in range(3, len(c.args)))
        elif n in ("sendmsg", "recvmsg"):
            m = self.pointee(ip, st, c, 1)
            v = ip.norm(st, ip.read(st, fld(m, "msg_iov")))
            r = region(v)
            info = (self.arg(ip, st, c, 0), v, plain(ip.norm(st, ip.read(st, fld(m, "msg_iovlen")))), self.arg(ip, st, c, 2),
                    ip.norm(st, ip.read(st, fld(r, "myData"))), ip.norm(st, ip.read(st, fld(r, "mySize"))))
        elif n == "poll":
            m = self.pointee(ip, st, c, 0)
            info = (st.rs.get("pollfd"), st.rs.get("pollev"), self.arg(ip, st, c, 1), self.arg(ip, st, c, 2),
                    ip.norm(st, ip.read(st, fld(m, "revents"))))
        else:
            info = tuple(self.arg(ip, st, c, i) for i in range(len(c.args)))
        self.bump(st, "calls", (n, info, val, err))

    def on_syscall(self, ip, st, c):
        if c.qn == "poll":
            m = self.pointee(ip, st, c, 0)
            st.rs["pollfd"] = ip.norm(st, ip.read(st, fld(m, "fd")))
            st.rs["pollev"] = ip.norm(st, ip.read(st, fld(m, "events")))
        return None

    def filled(self, ip, st, c, ok):
        if c.qn == "poll":
            m = self.pointee(ip, st, c, 0)
            v = ip.tok(st, ("revents", c.ctx, c.sid))
            ip.refine(st, v, lo=0, hi=0x7fff)
            st.store[fld(m, "revents")] = v
            return
        super().filled(ip, st, c, ok)

    def hostlen(self, ip, st, r):
        v = ("t", ("hostlen", r))
        ip.refine(st, v, lo=1, hi=28)
        return v


class Call(Base):
    """One of the wrappers of the system calls."""

    def on_other(self, ip, st, c):
        rs = st.rs
        q = c.qn
        if q.startswith("mg::box::Assert"):
            if not rs.get("mayassert"):
                self.rep(ip, st, "a legal call is asserted against", c)
            return None
        if q == NET + "Host::GetSockaddrSize":
            return [(st, self.hostlen(ip, st, c.obj))]
        if q == NET + "Host::Set":
            rs["peer"] = (c.obj, self.pointee(ip, st, c, 0))
            return [(st, None)]
        if q == NET + "Host::Host" and len(c.args) == 1 and self.f.name == "SocketGetBoundHost":
            rs["host"] = self.pointee(ip, st, c, 0)
            return [(st, ("L", c.obj))]
        if q in (NET + "HostMakeAllIPV4", NET + "HostMakeAllIPV6"):
            rs["any"] = (q[-2:], self.arg(ip, st, c, 0))
            r = ("o", ("host", c.ctx, c.sid))
            return [(st, ("L", r))]
        if q == NET + "Host::operator=":
            return [(st, None)]
        if q == NET + "SocketIsAcceptErrorCritical" and self.f.name != "SocketIsAcceptErrorCritical":
            rs["critarg"] = self.arg(ip, st, c, 0)
            s2 = st.copy()
            rs["critical"], s2.rs["critical"] = 1, 0
            return [(st, 1), (s2, 0)]
        if q == "mg::box::SysIsWSL":
            s2 = st.copy()
            rs["wsl"], s2.rs["wsl"] = 1, 0
            return [(st, 1), (s2, 0)]
        if q == NET + "SocketCheckState" and self.f.name != "SocketCheckState":
            s2 = st.copy()
            e = c.args[1][1]
            rs["state"] = "ok"
            self.make_error(ip, s2, c, ("t", ("sockstate",)))
            ip.refine(s2, ("t", ("sockstate",)), ne=0)
            s2.store[fld(e, "myObject")] = ip.norm(s2, ip.read(s2, ("f", ("f", ("o", ("raised", c.ctx, c.sid)), "myError"),
                                                                   "myObject")))
            s2.rs["state"] = "bad"
            return [(st, 1), (s2, 0)]
        if q in (NET + "BuffersToIOVecsForWrite", NET + "BuffersToIOVecsForRead"):
            w = q.endswith("Write")
            k = 2 if w else 1
            rs["iov"] = ("w" if w else "r", c.args[0][1] if c.args[0][0] == "L" else self.arg(ip, st, c, 0),
                         self.arg(ip, st, c, 1) if w else 0, self.pointee(ip, st, c, k))
            self.vec_room(ip, st, c, k)
            n = self.arg(ip, st, c, k + 1)
            v = ip.tok(st, ("iovs", c.ctx, c.sid))
            b = ip.bounds(st, n)
            ip.refine(st, v, lo=0, hi=b[1])
            rs["iovn"] = v
            return [(st, v)]
        return None

    def vec_room(self, ip, st, c, k):
        b = ip.bounds(st, self.arg(ip, st, c, k + 1))
        if not b[1] <= 128:
            self.rep(ip, st, "more buffers are asked for than there is a place for", c)

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        self.fn, self.line = fn, line
        self.val = val
        getattr(self, "x_" + self.tag)(ip, st, val)

    def calls(self, st):
        return st.rs.get("calls", ())

    def only(self, ip, st, name):
        """The single call which must have been made."""
        cs = self.calls(st)
        if len(cs) != 1 or cs[0][0] != name:
            self.bad(ip, st, "%s() is not called exactly once" % name)
            return None
        return cs[0]

    def result(self, ip, st, ok, call):
        """The outcome of the last call."""
        t = ip.truth(st, self.val)
        if t is not ok:
            self.bad(ip, st, "a %s is told as a %s" % (("success", "failure") if ok else ("failure", "success")))
        if ok:
            self.fine(ip, st)
        else:
            self.want_error(ip, st, errc(call[3]))

    def prepare(self, ip, st):
        n = self.f.name
        if n == "SocketIsAcceptErrorCritical":
            self.fix(ip, st, 0, self.code)
        if n == "SocketBindAny":
            self.fix(ip, st, 1, self.fam)
        if n == "SocketCreate":
            self.fix(ip, st, 1, self.prot)
            v = self.a(ip, st, 0)
            ip.refine(st, v, lo=0, hi=64)
        if n == "SocketSetKeepAlive" or n in ("SocketSetDualStack", "SocketSetNoDelay"):
            self.fix(ip, st, 1, self.value)
        if n == "SocketSetKeepAlive":
            ip.refine(st, self.a(ip, st, 2), lo=self.lo, hi=self.hi)
        if n == "SocketClose":
            if self.fd is not None:
                self.fix(ip, st, 0, self.fd)
            st.rs["mayassert"] = True
            if self.fd is None:
                ip.refine(st, self.a(ip, st, 0), lo=0)
        if n in ("SocketCheckState", "SocketGetBoundHost", "SocketMakeNonBlocking"):
            st.rs["mayassert"] = True
        if n == "ErrorCodeFromErrno":
            self.fix(ip, st, 0, self.code)
        st.rs["iov0"] = None

    def fix(self, ip, st, i, v):
        ip.refine(st, self.a(ip, st, i), lo=v, hi=v)

    def want(self, ip, st, cond, msg):
        if not cond:
            self.bad(ip, st, msg)

    # ------------------------------------------------------------ net
    def x_SocketBind(self, ip, st, val):
        c = self.only(ip, st, "bind")
        if c is None:
            return
        h = self.args[1][1]
        self.want(ip, st, c[1][0] == self.a(ip, st, 0) and root(c[1][1]) == h and c[1][2] == self.hostlen(ip, st, h),
                  "a wrong socket or address is bound")
        self.result(ip, st, c[3] is None, c)

    def x_SocketBindAny(self, ip, st, val):
        c = self.only(ip, st, "bind")
        if c is None:
            return
        self.want(ip, st, c[1][0] == self.a(ip, st, 0), "a wrong socket is bound")
        self.want(ip, st, st.rs.get("any") == ("V4" if self.fam == 2 else "V6", 0), "a wrong address is bound")
        self.result(ip, st, c[3] is None, c)

    def x_SocketGetBoundHost(self, ip, st, val):
        c = self.only(ip, st, "getsockname")
        if c is None or c[3] is not None:
            return
        self.want(ip, st, c[1][0] == self.a(ip, st, 0) and st.rs.get("host") == c[1][1], "a wrong address is returned")

    def options(self, ip, st, want):
        """The options which must be set, in any order, up to the first failure."""
        cs = self.calls(st)
        got = {}
        for c in cs:
            if c[0] != "setsockopt" or c[1][0] != self.a(ip, st, 0):
                self.bad(ip, st, "a wrong call is made, or for a wrong socket")
                return
            if c[1][1] not in want:
                self.bad(ip, st, "a wrong option is set")
                return
            v = c[1][2]
            w = want[c[1][1]]
            if not (w(v) if callable(w) else v == w or ip.eq(st, v, w) is True):
                self.bad(ip, st, "an option gets a wrong value")
            if c[1][3] != 4:
                self.bad(ip, st, "an option gets a value of a wrong size")
            got[c[1][1]] = v
        if cs and any(c[3] is not None for c in cs):
            if any(c[3] is not None for c in cs[:-1]):
                self.bad(ip, st, "a failure to set an option is lost")
            else:
                self.result(ip, st, False, cs[-1])
            return
        if set(got) != set(want):
            self.bad(ip, st, "an option is not set")
        self.result(ip, st, True, None)
        return got

    def x_SocketSetKeepAlive(self, ip, st, val):
        if not self.value:
            self.options(ip, st, {KEEPALIVE: 0})
            return
        t = self.a(ip, st, 2)

        def idle(v):
            if self.hi < 1000:
                return ip.eq(st, v, 1 if self.lo else 0) is True
            return v == ip.arith(st, "/", t, 1000) or plain(v) == plain(ip.arith(st, "/", t, 1000))
        pos = {}

        def const(k):
            def f(v):
                pos[k] = v
                return isinstance(v, int) and v > 0
            return f
        seen = {}

        def keep(k, f):
            def g(v):
                seen[k] = v
                return f(v)
            return g

        def timeout(v):
            return True
        got = self.options(ip, st, {KEEPALIVE: 1, KEEPIDLE: keep("idle", idle), KEEPINTVL: const("i"), KEEPCNT: const("n"),
                                    USER_TIMEOUT: timeout})
        if got is not None and set(got) == {KEEPALIVE, KEEPIDLE, KEEPINTVL, KEEPCNT, USER_TIMEOUT}:
            b, bi = ip.bounds(st, got[USER_TIMEOUT]), ip.bounds(st, got[KEEPIDLE])
            x = got[KEEPINTVL] * got[KEEPCNT] if isinstance(got[KEEPINTVL], int) and isinstance(got[KEEPCNT], int) else 0
            w = ip.arith(st, "*", ip.arith(st, "+", got[KEEPIDLE], x), 1000)
            if self.hi < 1000:
                self.want(ip, st, got[USER_TIMEOUT] == (bi[0] + x) * 1000, "the connection is dropped in a wrong time")
            else:
                self.want(ip, st, strip(got[USER_TIMEOUT]) == strip(w), "the connection is dropped in a wrong time")

    def x_SocketFixReuseAddr(self, ip, st, val):
        if st.rs.get("wsl"):
            self.want(ip, st, not self.calls(st), "an address is reused where it is wrong to")
            self.result(ip, st, True, None)
            return
        self.options(ip, st, {REUSEADDR: 1})

    def x_SocketSetDualStack(self, ip, st, val):
        self.options(ip, st, {V6ONLY: int(not self.value)})

    def x_SocketSetNoDelay(self, ip, st, val):
        self.options(ip, st, {NODELAY: int(self.value)})

    def x_SocketShutdown(self, ip, st, val):
        c = self.only(ip, st, "shutdown")
        if c is None:
            return
        self.want(ip, st, c[1] == (self.a(ip, st, 0), 2), "not both ways of the right socket are shut down")
        self.result(ip, st, c[3] is None, c)

    def x_SocketClose(self, ip, st, val):
        if self.fd is not None:
            self.want(ip, st, not self.calls(st), "an invalid socket is closed: it may close a foreign one")
            return
        c = self.only(ip, st, "close")
        if c is None:
            return
        self.want(ip, st, c[1] == (self.a(ip, st, 0),), "a wrong socket is closed")
        self.want(ip, st, c[3] is None, "a failure to close a socket goes on silently")

    def x_SocketCheckState(self, ip, st, val):
        c = self.only(ip, st, "getsockopt")
        if c is None:
            return
        self.want(ip, st, c[1][0] == self.a(ip, st, 0) and c[1][1] == SO_ERROR, "not the error of the socket is checked")
        self.want(ip, st, c[3] is None, "a failed check of a socket is told as done")
        if c[3] is not None:
            return
        z = ip.eq(st, c[1][2], 0)
        t = ip.truth(st, val)
        if z is None or t is not z:
            self.bad(ip, st, "a wrong state of the socket is told")
        elif z:
            self.fine(ip, st)
        else:
            self.want_error(ip, st, errc(c[1][2]))

    def x_SocketIsAcceptErrorCritical(self, ip, st, val):
        self.count("codes")
        self.want(ip, st, ip.truth(st, val) is (self.code not in self.soft),
                  "%s stops a server while it can go on, or the other way around" % self.codename)

    def x_SocketMakeNonBlocking(self, ip, st, val):
        cs = self.calls(st)
        if len(cs) != 2 or [c[0] for c in cs] != ["fcntl"] * 2 or [c[1][1] for c in cs] != [3, 4]:
            self.bad(ip, st, "flags of a socket are not read and written once")
            return
        self.want(ip, st, all(c[1][0] == self.a(ip, st, 0) for c in cs), "flags of a wrong socket are changed")
        v = plain(cs[1][1][2])
        w = plain(ip.arith(st, "|", cs[0][2], NB))
        self.want(ip, st, v == w, "a socket is not made non-blocking, or its other flags are lost")

    def x_ErrorCodeFromErrno(self, ip, st, val):
        self.count("codes")
        self.want(ip, st, ip.norm(st, val) == self.expect, "errno %s is not told as %s" % (self.codename, self.expname))

    # ------------------------------------------------------------ sio
    def x_SocketCreate(self, ip, st, val):
        c = self.only(ip, st, "socket")
        if c is None:
            return
        self.want(ip, st, c[1] == (self.a(ip, st, 0), NB | STREAM, 0), "a socket of a wrong kind is made")
        if c[3] is None:
            self.want(ip, st, ip.norm(st, val) == c[2], "a made socket is lost")
            self.fine(ip, st)
        else:
            self.want(ip, st, ip.norm(st, val) == -1, "a socket is told to be made")
            self.want_error(ip, st, errc(c[3]))

    def x_SocketAccept(self, ip, st, val):
        c = self.only(ip, st, "accept4")
        if c is None:
            return
        rs = st.rs
        self.want(ip, st, c[1][0] == self.a(ip, st, 0), "a client of a wrong server is accepted")
        self.want(ip, st, c[1][2] == NB, "an accepted socket is not made non-blocking")
        if c[3] is None:
            self.want(ip, st, ip.norm(st, val) == c[2], "an accepted socket is lost")
            self.want(ip, st, rs.get("peer") == (self.args[1][1], c[1][1]), "a wrong address of the client is told")
            self.fine(ip, st)
            return
        self.want(ip, st, ip.norm(st, val) == -1, "a client is told without a socket")
        if c[3] == EAGAIN:
            self.want_none(ip, st)
        elif rs.get("critical") is None or rs["critarg"] != errc(c[3]):
            self.bad(ip, st, "it is not checked if the server can go on")
        elif rs["critical"]:
            self.want_error(ip, st, errc(c[3]))
        else:
            self.want_none(ip, st)

    def x_SocketListen(self, ip, st, val):
        c = self.only(ip, st, "listen")
        if c is None:
            return
        self.want(ip, st, tuple(map(plain, c[1])) == (self.a(ip, st, 0), self.a(ip, st, 1)), "a wrong socket or backlog is used")
        self.result(ip, st, c[3] is None, c)

    def x_SocketConnectStart(self, ip, st, val):
        c = self.only(ip, st, "connect")
        if c is None:
            return
        h = self.args[1][1]
        self.want(ip, st, c[1][0] == self.a(ip, st, 0) and root(c[1][1]) == h and c[1][2] == self.hostlen(ip, st, h),
                  "a wrong socket or address is connected")
        if c[3] == EINPROGRESS:
            self.want(ip, st, ip.truth(st, val) is False, "a connect in progress is told as finished")
            self.want_none(ip, st)
        else:
            self.result(ip, st, c[3] is None, c)

    def x_SocketConnectUpdate(self, ip, st, val):
        c = self.only(ip, st, "poll")
        if c is None:
            return
        rs = st.rs
        self.want(ip, st, c[1][0] == self.a(ip, st, 0) and c[1][1] == POLLOUT and c[1][2] == 1, "not the right socket is checked")
        self.want(ip, st, c[1][3] == 0, "the check of the connect blocks")
        if c[3] is not None:
            self.result(ip, st, False, c)
            return
        z = ip.eq(st, c[2], 0)
        if z is True:
            self.want(ip, st, ip.truth(st, val) is False, "a connect in progress is told as finished")
            self.want_none(ip, st)
            return
        if ip.eq(st, c[1][4], POLLOUT) is True:
            self.want(ip, st, ip.truth(st, val) is True, "a finished connect is not told")
            self.fine(ip, st)
            return
        self.want(ip, st, ip.truth(st, val) is False, "a failed connect is told as finished")
        s = rs.get("state")
        if s is None:
            self.bad(ip, st, "the reason of the failed connect is not checked")
        elif s == "bad":
            self.want_error(ip, st, ("t", ("sockstate",)))
        elif self.error(ip, st) in ("null", "kept"):
            self.bad(ip, st, "a failed connect looks like one in progress: it is never finished")

    def moved(self, ip, st, val, name, iov, n):
        c = self.only(ip, st, name)
        if c is None:
            return
        self.want(ip, st, c[1][0] == self.a(ip, st, 0), "a wrong socket is used")
        self.want(ip, st, iov(c[1][1]) and n(c[1][2]), "not the given buffers are used")
        self.want(ip, st, c[1][3] in (0, 0x4000, 0x40, 0x4040), "data is sent or received in a special way")
        v = ip.norm(st, val)
        if c[3] is None:
            self.want(ip, st, plain(v) == plain(c[2]) or ip.eq(st, v, c[2]) is True, "a wrong number of bytes is told")
            self.fine(ip, st)
        else:
            self.want(ip, st, v == -1, "a failure is told as a success")
            if c[3] == EAGAIN:
                self.want_none(ip, st)
            else:
                self.want_error(ip, st, errc(c[3]))

    def native(self, name, ip, st, val):
        b, n = self.a(ip, st, 1), self.a(ip, st, 2)
        self.moved(ip, st, val, name, lambda v: plain(v) == plain(b), lambda v: plain(v) == plain(n))

    def raw(self, name, ip, st, val):
        d, n = self.a(ip, st, 1), self.a(ip, st, 2)

        def iov(v):
            cs = self.calls(st)
            s = cs[0][1][5]
            ok = s == n or ip.eq(st, s, n) is True or strip(s) == strip(n) and ip.bounds(st, n)[1] <= 0xffffffff
            if not ok and isinstance(s, int):
                # Only a part can be given to the kernel, but not nothing.
                ok = 0 < s and (ip.bounds(st, n)[0] >= s)
            return plain(cs[0][1][4]) == plain(d) and ok
        self.moved(ip, st, val, name, iov, lambda v: v == 1)

    def bufs(self, name, k, off, ip, st, val):
        b = self.args[1][1] if self.args[1][0] == "L" else self.a(ip, st, 1)
        v = st.rs.get("iov")
        if v is None or v[0] != k or v[1] != b or v[2] != (self.a(ip, st, 2) if off else 0):
            self.bad(ip, st, "not the given buffers are used")
            return
        self.moved(ip, st, val, name, lambda x: region(x) == v[3], lambda n: n == st.rs["iovn"])

    def x_SocketSend_iov(self, *a):
        self.native("sendmsg", *a)

    def x_SocketRecv_iov(self, *a):
        self.native("recvmsg", *a)

    def x_SocketSend_raw(self, *a):
        self.raw("sendmsg", *a)

    def x_SocketRecv_raw(self, *a):
        self.raw("recvmsg", *a)

    def x_SocketSend_buf(self, *a):
        self.bufs("sendmsg", "w", True, *a)

    def x_SocketSend_list(self, *a):
        self.bufs("sendmsg", "w", True, *a)

    def x_SocketRecv_buf(self, *a):
        self.bufs("recvmsg", "r", False, *a)


def region(v):
    r = deref(v) if isinstance(v, tuple) else v
    if isinstance(r, tuple) and r[0] == "e" and r[2] == 0:
        r = r[1]
    return r


def root(r):
    while r[0] == "f":
        r = r[1]
    return r


def strip(v):
    """Without casts."""
    if isinstance(v, tuple):
        if v and v[0] == "conv":
            return strip(v[1])
        return tuple(strip(x) for x in v)
    return v


def kind(f):
    t = f.params[1][2]
    for k, n in (("IOVec", "iov"), ("BufferLinkList", "list"), ("Buffer", "buf"), ("void", "raw")):
        if k in t:
            return n
    raise AnalysisBroken("an unknown way to send: %s" % t)


SOFT = ("ERR_NET_DOWN", "ERR_NET_PROTOCOL", "ERR_NET_ABORTED", "ERR_NET_HOST_UNREACHABLE", "ERR_SYS_NOT_SUPPORTED",
        "ERR_SYS_INTERRUPTED")
ERRNOS = {
    "FORBIDDEN": ("EACCES", "EPERM"), "BAD_DESCRIPTOR": ("EBADF", "ESTALE"), "EXISTS": ("EEXIST",),
    "TOO_MANY_DESCRIPTORS": ("EMFILE", "ENFILE"), "NOT_FOUND": ("ENOENT",), "WOULDBLOCK": ("EWOULDBLOCK", "EAGAIN"),
    "BUSY": ("EBUSY",), "IS_DIR": ("EISDIR",), "BAD_ARG": ("EINVAL",), "IO": ("EIO",), "NAME_TOO_LONG": ("ENAMETOOLONG",),
    "NOT_DIR": ("ENOTDIR",), "READ_ONLY_FS": ("EROFS",), "NO_SPACE": ("ENOSPC", "ENOMEM"), "BAD_ADDR": ("EFAULT",),
    "NOT_SUPPORTED": ("EOPNOTSUPP", "ENOTSUP"), "TOO_BIG": ("EFBIG",), "TOO_MANY_LINKS": ("EMLINK",), "NOT_EMPTY": ("ENOTEMPTY",),
    "OVERFLOW": ("EOVERFLOW",), "LOOP": ("ELOOP",), "INTERRUPTED": ("EINTR",),
}
NETERRNOS = {
    "CLOSE_BY_PEER": ("ECONNRESET",), "ADDR_IN_USE": ("EADDRINUSE",), "ABORTED": ("ECONNABORTED", "EHOSTDOWN"),
    "DOWN": ("ENETDOWN", "ENETUNREACH", "ENONET"), "PROTOCOL": ("EPROTO", "ENOPROTOOPT"),
    "HOST_UNREACHABLE": ("EHOSTUNREACH",),
}


@check("D01")
def d01(res):
    rn = "calls"
    res.rule(rn, "each wrapper of the socket calls walked for each outcome of each call of the system: the arguments of the call, "
             "the returned value, the error told; errno is read only right after the call which failed.")
    p = res.prog("epoll", ("net", "sio"))

    def go(f, **kw):
        r = Call(p)
        r.tag = f.name if f.name not in ("SocketSend", "SocketRecv") else f.name + "_" + kind(f)
        for k, v in kw.items():
            setattr(r, k, v)
        res.walk(p, r, f, rn, setup=r.setup(f))
    for n in ("SocketBind", "SocketGetBoundHost", "SocketFixReuseAddr", "SocketShutdown", "SocketCheckState",
              "SocketMakeNonBlocking"):
        go(p.fn(NET + n))
    for fam in (2, 10):
        go(p.fn(NET + "SocketBindAny"), fam=fam)
    for v in (0, 1):
        for lo, hi in ((0, 0), (1, 999), (1000, 0xffffffff)):
            go(p.fn(NET + "SocketSetKeepAlive"), value=v, lo=lo, hi=hi)
        go(p.fn(NET + "SocketSetDualStack"), value=v)
        go(p.fn(NET + "SocketSetNoDelay"), value=v)
    for fd in (None, -1):
        go(p.fn(NET + "SocketClose"), fd=fd)
    tp = p.enum(NET + "TransportProtocol")
    for v in ("TRANSPORT_PROT_DEFAULT", "TRANSPORT_PROT_TCP"):
        go(p.fn(SIO + "SocketCreate"), prot=tp[v])
    for n in ("SocketAccept", "SocketListen", "SocketConnectStart", "SocketConnectUpdate"):
        go(p.fn(SIO + n))
    for n in ("SocketSend", "SocketRecv"):
        fs = p.fns(SIO + n)
        if len(fs) < 3:
            raise AnalysisBroken("ways to send and receive are gone")
        for f in fs:
            go(f)
    for k, n in (("exits", 60), ("syscalls", 25), ("errors_raised", 15), ("errno_reads", 15)):
        res.need(rn, k, n)


@check("D02")
def d02(res):
    rn = "codes"
    res.rule(rn, "the tables of the error codes walked for each errno and each code: the code of each errno, the failures of accept() "
             "after which a server goes on.")
    p = res.prog("epoll", ("box", "net"))
    codes = p.enum("mg::box::ErrorCode")

    class Codes(Call):
        max_loop = 12

    def go(f, **kw):
        r = Codes(p)
        r.tag = f.name
        for k, v in kw.items():
            setattr(r, k, v)
        res.walk(p, r, f, rn, setup=r.setup(f))
    soft = tuple(codes[n] for n in SOFT)
    for n, v in sorted(codes.items()):
        if n.startswith("_") or n in ("ERR_BOX_NONE", "ERR_SYS_WOULDBLOCK"):
            continue
        go(p.fn(NET + "SocketIsAcceptErrorCritical"), code=v, codename=n, soft=soft)
    table = {}
    for pre, t in (("ERR_SYS_", ERRNOS), ("ERR_NET_", NETERRNOS)):
        for n, es in t.items():
            for e in es:
                table[getattr(E, e)] = pre + n
    names = dict((v, k) for k, v in vars(E).items() if k[0] == "E" and isinstance(v, int))
    fs = [f for f in p.fns("mg::box::ErrorCodeFromErrno") if len(f.params) == 1]
    for v in sorted(set(names) | {0, 4095}):
        e = table.get(v, "ERR_SYS")
        go(fs[0], code=v, codename=names.get(v, str(v)), expect=codes[e], expname=e)
    res.need(rn, "codes", 150)


# ---------------------------------------------------------------- sio objects
class Obj(Base):
    """A method of sio::TCPServer or sio::TCPSocket."""

    def __init__(self, p, cls, state):
        super().__init__(p)
        self.cls = cls
        self.pre = "TCP_SERVER_STATE_" if cls.endswith("Server") else "TCP_SOCKET_STATE_"
        self.S = p.enum(SIO + ("TCPServerState" if cls.endswith("Server") else "TCPSocketState"))
        self.state = state
        self.tagname = None

    def prepare(self, ip, st):
        rs = st.rs
        ip.settype(THIS, self.cls)
        s = fld(THIS, "mySocket")
        if self.tagname == "ctor":
            return
        st.store[fld(THIS, "myState")] = self.S[self.pre + self.state]
        if self.state == "CLOSED":
            st.store[s] = -1
            rs["out"] = ()
            st.store[fld(THIS, "mySendOffset")] = 0
        else:
            v = ip.norm(st, ip.read(st, s))
            ip.refine(st, v, lo=0)
            rs["sock0"] = v
            rs[("fd", v)] = "open"
            rs["out"] = ("old",)
            v = ip.norm(st, ip.read(st, fld(THIS, "mySendOffset")))
            rs["off0"] = v
            if self.state == "CONNECTING":
                st.store[fld(THIS, "mySendOffset")] = 0
        if self.f.name == "Wrap":
            v = self.a(ip, st, 0)
            ip.refine(st, v, lo=0)
            rs[("fd", v)] = "open"
            rs["given"] = v

    def is_queue(self, r):
        return r == fld(THIS, "myOutput")

    def record(self, ip, st, c, val, err):
        super().record(ip, st, c, val, err)
        rs = st.rs
        n = c.qn
        if n in ("socket", "accept4", "accept") and err is None:
            rs[("fd", val)] = "open"
        fd = self.arg(ip, st, c, 0) if n not in ("socket", "poll") else None
        if n == "poll":
            fd = rs.get("pollfd")
        if fd is not None:
            if n == "close":
                if rs.get(("fd", fd)) != "open":
                    self.rep(ip, st, "a socket is closed twice: a foreign one may be closed", c)
                rs[("fd", fd)] = "closed"
            elif rs.get(("fd", fd)) != "open":
                self.rep(ip, st, "%s() gets a socket which is not open" % n, c)

    def on_syscall(self, ip, st, c):
        super().on_syscall(ip, st, c)
        if c.qn == "close":
            # Its failure is asserted against.
            self.count("closes")
            self.record(ip, st, c, 0, None)
            return [(st, 0)]
        if c.qn == "getsockopt":
            # Does not fail for an open socket.
            self.count("syscalls")
            self.filled(ip, st, c, True)
            self.record(ip, st, c, 0, None)
            return [(st, 0)]
        return None

    def on_other(self, ip, st, c):
        rs = st.rs
        q = c.qn
        if q.startswith("mg::box::Assert"):
            self.rep(ip, st, "a legal call is asserted against", c)
            return None
        if q == NET + "Host::GetSockaddrSize":
            return [(st, self.hostlen(ip, st, c.obj))]
        if q == NET + "Host::Set":
            rs["peer"] = c.obj
            return [(st, None)]
        if q == NET + "SocketGetBoundHost":
            rs["bound"] = self.arg(ip, st, c, 0)
            return [(st, ("L", ("o", ("bound",))))]
        if q == NET + "Host::GetPort":
            rs["portof"] = c.obj
            v = ("t", ("port",))
            return [(st, v)]
        if q == NET + "SocketIsAcceptErrorCritical":
            s2 = st.copy()
            rs["critical"], s2.rs["critical"] = 1, 0
            return [(st, 1), (s2, 0)]
        if q == "mg::box::SysIsWSL":
            s2 = st.copy()
            return [(st, 1), (s2, 0)]
        if q == NET + "BuffersToIOVecsForWrite":
            self.count("queue_ops")
            if not (c.args[0][0] == "L" and self.is_queue(c.args[0][1])):
                self.rep(ip, st, "not the queued data is sent", c)
            o = self.arg(ip, st, c, 1)
            if ip.eq(st, o, ip.norm(st, ip.read(st, fld(THIS, "mySendOffset")))) is not True:
                self.rep(ip, st, "data is sent from a wrong place: it is sent twice or lost", c)
            return self.vecs(ip, st, c, 3)
        if q == NET + "BuffersToIOVecsForRead":
            if self.arg(ip, st, c, 0) != self.a(ip, st, 0):
                self.rep(ip, st, "not the given buffer is used", c)
            return self.vecs(ip, st, c, 2)
        if c.cls == NET + "BufferLinkList" and self.is_queue(c.obj):
            return self.queue(ip, st, c)
        return None

    def vecs(self, ip, st, c, k):
        v = ip.tok(st, ("iovs", c.ctx, c.sid))
        ip.refine(st, v, lo=0, hi=128)
        return [(st, v)]

    def queue(self, ip, st, c):
        rs = st.rs
        n = c.name
        self.count("queue_ops")
        if n == "IsEmpty":
            if rs.get("nonempty") is not None:
                return [(st, int(not rs["nonempty"]))]
            if not rs["out"]:
                return [(st, 1)]
            s2 = st.copy()
            rs["nonempty"], s2.rs["nonempty"] = True, False
            return [(st, 0), (s2, 1)]
        if n == "Clear":
            rs["out"] = ()
            return [(st, None)]
        if n in ("AppendRef", "AppendCopy", "AppendMove", "Append"):
            rs["out"] += ((n,) + tuple(x[1] if isinstance(x, tuple) and x[0] == "L" else ip.norm(st, ip.rvalue(st, x))
                                       for x in c.args),)
            return [(st, None)]
        if n == "SkipData":
            o = c.args[0]
            if o != ("L", fld(THIS, "mySendOffset")):
                self.rep(ip, st, "the place of the first unsent byte is lost", c)
            rs["skipped"] = rs.get("skipped", ()) + (self.arg(ip, st, c, 1),)
            st.store[fld(THIS, "mySendOffset")] = ip.tok(st, ("off", c.ctx, c.sid))
            rs["skipoff"] = ip.norm(st, ip.read(st, fld(THIS, "mySendOffset")))
            return [(st, None)]
        if n == "SkipEmptyPrefix":
            return [(st, None)]
        return [(st, None)] if n.startswith("~") else None

    # ------------------------------------------------------------ end
    def end(self, ip, st, val, fn, line):
        self.count("exits")
        self.fn, self.line = fn, line
        self.val = val
        rs = st.rs
        self.st = ip.norm(st, ip.read(st, fld(THIS, "myState")))
        self.sock = ip.norm(st, ip.read(st, fld(THIS, "mySocket")))
        if self.tagname != "dtor":
            cl = self.st == self.S[self.pre + "CLOSED"]
            if cl and self.sock != -1 and self.state != "CLOSED":
                self.bad(ip, st, "a closed socket is kept: it is used again or closed twice")
            if not cl and rs.get(("fd", self.sock)) != "open":
                self.bad(ip, st, "a not closed object has no open socket")
            if cl and rs.get("out") and self.cls.endswith("Socket"):
                self.bad(ip, st, "data is left in a closed socket: it is sent in its next life")
            if cl and self.cls.endswith("Socket") and self.tagname != "ctor" and \
                    ip.norm(st, ip.read(st, fld(THIS, "mySendOffset"))) != 0:
                self.bad(ip, st, "the place of the first unsent byte is left in a closed socket")
        for k, v in rs.items():
            if isinstance(k, tuple) and k[0] == "fd" and v == "open" and k[1] not in (self.sock, ip.norm(st, val)):
                self.bad(ip, st, "an open socket is leaked")
        if self.tagname == "dtor":
            if "sock0" in rs and rs[("fd", rs["sock0"])] == "open":
                self.bad(ip, st, "an open socket is leaked")
        getattr(self, "x_" + (self.tagname or self.f.name))(ip, st, val)

    def expect(self, ip, st, state):
        if self.st != self.S[self.pre + state]:
            self.bad(ip, st, "the object does not get %s" % state.lower())

    def failure(self, st):
        return [c for c in st.rs.get("calls", ()) if c[3] is not None]

    def same(self, ip, st, out=True):
        self.expect(ip, st, self.state)
        if self.state != "CLOSED" and self.sock != st.rs["sock0"]:
            self.bad(ip, st, "the socket is changed")
        if out and st.rs["out"] != (() if self.state == "CLOSED" else ("old",)):
            self.bad(ip, st, "queued data is changed")
        if self.state != "CLOSED" and st.rs.get("calls"):
            self.bad(ip, st, "a call nobody asked for is made")

    def truth(self, ip, st, want):
        if ip.truth(st, self.val) is not want:
            self.bad(ip, st, "a wrong result is told")

    def x_ctor(self, ip, st, val):
        self.expect(ip, st, "CLOSED")
        if self.sock != -1:
            self.bad(ip, st, "a new object has a socket")

    def x_dtor(self, ip, st, val):
        pass

    def x_Close(self, ip, st, val):
        self.expect(ip, st, "CLOSED")

    def made(self, ip, st, names, state):
        """A new socket passes the calls."""
        cs = st.rs.get("calls", ())
        f = self.failure(st)
        if f:
            self.truth(ip, st, False)
            self.expect(ip, st, "CLOSED")
            self.want_error(ip, st, errc(f[0][3]))
            return False
        got = [c[0] for c in cs if c[0] not in ("setsockopt", "close")]
        if got != list(names):
            self.bad(ip, st, "not all the steps are done")
            return False
        self.truth(ip, st, True)
        self.fine(ip, st)
        self.expect(ip, st, state)
        if self.sock != cs[0][2]:
            self.bad(ip, st, "a wrong socket is kept")
        fam = ip.norm(st, ip.read(st, fld(fld(self.args[0][1], "myAddr"), "sa_family")))
        if strip(cs[0][1][0]) != strip(fam):
            self.bad(ip, st, "a socket of a wrong family is made")
        if root(cs[-1][1][1]) != self.args[0][1]:
            self.bad(ip, st, "a wrong address is used")
        return True

    # server
    def x_Bind(self, ip, st, val):
        self.made(ip, st, ("socket", "bind"), "BOUND")

    def x_Listen(self, ip, st, val):
        cs = st.rs.get("calls", ())
        if not cs or cs[0][0] != "listen" or cs[0][1][0] != st.rs["sock0"] or strip(cs[0][1][1]) != self.a(ip, st, 0):
            self.bad(ip, st, "not the server's socket is listened, or with a wrong backlog")
            return
        if cs[0][3] is not None:
            self.truth(ip, st, False)
            self.want_error(ip, st, errc(cs[0][3]))
            self.expect(ip, st, "CLOSED")
        else:
            self.truth(ip, st, True)
            self.fine(ip, st)
            self.expect(ip, st, "LISTENING")
            if len(cs) != 1:
                self.bad(ip, st, "a call nobody asked for is made")

    def x_Accept(self, ip, st, val):
        rs = st.rs
        c = rs.get("calls", ((None,),))[0]
        if c[0] != "accept4" or c[1][0] != rs["sock0"]:
            self.bad(ip, st, "a client is not accepted")
            return
        v = ip.norm(st, val)
        if c[3] is None:
            if v != c[2] or rs.get(("fd", v)) != "open":
                self.bad(ip, st, "an accepted socket is lost")
            if rs.get("peer") != self.args[0][1]:
                self.bad(ip, st, "the address of a client is not told")
            self.expect(ip, st, "LISTENING")
            self.fine(ip, st)
            return
        if v != -1:
            self.bad(ip, st, "a client is told without a socket")
        if c[3] != EAGAIN and rs.get("critical"):
            self.want_error(ip, st, errc(c[3]))
            self.expect(ip, st, "CLOSED")
        else:
            self.want_none(ip, st)
            self.expect(ip, st, "LISTENING")

    def x_GetPort(self, ip, st, val):
        self.same(ip, st)
        if st.rs.get("bound") != st.rs["sock0"] or strip(ip.norm(st, val)) != ("t", ("port",)):
            self.bad(ip, st, "a wrong port is told")

    # socket
    def x_Connect(self, ip, st, val):
        rs = st.rs
        cs = [c for c in rs.get("calls", ()) if c[0] == "connect"]
        if cs and cs[0][3] == EINPROGRESS:
            self.truth(ip, st, True)
            self.want_none(ip, st)
            self.expect(ip, st, "CONNECTING")
            if self.sock != rs["calls"][0][2]:
                self.bad(ip, st, "a wrong socket is kept")
            if root(cs[0][1][1]) != self.args[0][1]:
                self.bad(ip, st, "a wrong address is used")
            return
        self.made(ip, st, ("socket", "connect"), "CONNECTED")

    def x_Wrap(self, ip, st, val):
        self.expect(ip, st, "CONNECTED")
        if self.sock != st.rs["given"]:
            self.bad(ip, st, "a given socket is lost")

    def x_IsClosed(self, ip, st, val):
        self.same(ip, st)
        self.truth(ip, st, self.state == "CLOSED")

    def x_IsConnected(self, ip, st, val):
        self.same(ip, st)
        self.truth(ip, st, self.state == "CONNECTED")

    def x_IsConnecting(self, ip, st, val):
        self.same(ip, st)
        self.truth(ip, st, self.state == "CONNECTING")

    def x_Send(self, ip, st, val):
        self.same(ip, st, False)
        rs = st.rs
        if self.state == "CLOSED":
            if rs["out"]:
                self.bad(ip, st, "data of a closed socket is kept: it is sent in its next life")
            return
        want = ("old", ("AppendCopy" if self.f.name == "SendCopy" else "AppendRef",) + tuple(
            x[1] if isinstance(x, tuple) and x[0] == "L" else ip.norm(st, ip.rvalue(st, x)) for x in self.args))
        if rs["out"] != want and not (len(rs["out"]) == 2 and rs["out"][0] == "old" and rs["out"][1][1:] == want[1][1:] and
                                      rs["out"][1][0] == "AppendCopy" and len(want[1]) == 3):
            self.bad(ip, st, "data is not put into the queue once, in order and as asked")

    x_SendRef = x_SendCopy = x_Send

    def x_Recv(self, ip, st, val):
        rs = st.rs
        c = rs.get("calls", ((None,),))[0]
        if c[0] != "recvmsg" or c[1][0] != rs["sock0"]:
            self.bad(ip, st, "nothing is received")
            return
        v = ip.norm(st, val)
        if rs["out"] != ("old",) and self.st != self.S[self.pre + "CLOSED"]:
            self.bad(ip, st, "queued data is changed")
        if c[3] is None:
            self.fine(ip, st)
            if not (strip(v) == strip(c[2]) or ip.eq(st, v, c[2]) is True):
                self.bad(ip, st, "a wrong number of received bytes is told")
            self.expect(ip, st, "CLOSED" if ip.eq(st, c[2], 0) is True else "CONNECTED")
            return
        if v != -1:
            self.bad(ip, st, "a failure is told as a success")
        if c[3] == EAGAIN:
            self.want_none(ip, st)
            self.expect(ip, st, "CONNECTED")
        else:
            self.want_error(ip, st, errc(c[3]))
            self.expect(ip, st, "CLOSED")

    def x_Update(self, ip, st, val):
        rs = st.rs
        cs = rs.get("calls", ())
        if self.state == "CLOSED":
            self.same(ip, st)
            self.truth(ip, st, True)
            return
        if self.state == "CONNECTING":
            if not cs or cs[0][0] != "poll":
                self.bad(ip, st, "the connect is not checked")
                return
            p = cs[0]
            if p[3] is not None:
                self.want_error(ip, st, errc(p[3]))
                self.truth(ip, st, False)
                self.expect(ip, st, "CLOSED")
            elif ip.eq(st, p[2], 0) is True:
                self.truth(ip, st, True)
                self.want_none(ip, st)
                self.expect(ip, st, "CONNECTING")
            elif ip.eq(st, p[1][4], POLLOUT) is True:
                self.truth(ip, st, True)
                self.fine(ip, st)
                self.expect(ip, st, "CONNECTED")
            else:
                self.truth(ip, st, False)
                self.expect(ip, st, "CLOSED")
                if self.error(ip, st) in ("null", "kept"):
                    self.bad(ip, st, "a failed connect is told without its error")
            if self.st != self.S[self.pre + "CLOSED"] and rs["out"] != ("old",):
                self.bad(ip, st, "queued data is changed")
            return
        if not cs:
            if rs.get("nonempty") is not False:
                self.bad(ip, st, "queued data is not sent")
            self.truth(ip, st, True)
            self.fine(ip, st)
            self.expect(ip, st, "CONNECTED")
            return
        c = cs[0]
        if c[0] != "sendmsg" or c[1][0] != rs["sock0"]:
            self.bad(ip, st, "queued data is not sent")
            return
        if c[3] is None:
            self.truth(ip, st, True)
            self.fine(ip, st)
            self.expect(ip, st, "CONNECTED")
            s = rs.get("skipped", ())
            if not (len(s) == 1 and (strip(s[0]) == strip(c[2]) or ip.eq(st, s[0], c[2]) is True) or
                    not s and ip.eq(st, c[2], 0) is True):
                self.bad(ip, st, "not exactly the sent bytes are removed from the queue")
            if s and ip.norm(st, ip.read(st, fld(THIS, "mySendOffset"))) != rs.get("skipoff"):
                self.bad(ip, st, "the place of the first unsent byte is lost")
            if rs["out"] != ("old",):
                self.bad(ip, st, "queued data is changed")
            return
        if rs.get("skipped"):
            self.bad(ip, st, "unsent data is removed from the queue")
        if c[3] == EAGAIN:
            self.truth(ip, st, True)
            self.want_none(ip, st)
            self.expect(ip, st, "CONNECTED")
            if rs["out"] != ("old",):
                self.bad(ip, st, "queued data is changed")
        else:
            self.truth(ip, st, False)
            self.want_error(ip, st, errc(c[3]))
            self.expect(ip, st, "CLOSED")


@check("D03")
def d03(res):
    rn = "objects"
    res.rule(rn, "each method of the synchronous server and socket walked from each state for each outcome of each system call: "
             "the next state, the result and error, ownership of the descriptor, what is taken from the queue of sent data.")
    p = res.prog("epoll", ("net", "sio"))
    srv, sck = SIO + "TCPServer", SIO + "TCPSocket"

    def go(cls, f, state, tag=None):
        r = Obj(p, cls, state)
        r.tagname = tag
        res.walk(p, r, f, rn, setup=r.setup(f))
    for cls, states in ((srv, ("CLOSED", "BOUND", "LISTENING")), (sck, ("CLOSED", "CONNECTING", "CONNECTED"))):
        n = cls.split("::")[-1]
        go(cls, p.fn(cls + "::" + n), "CLOSED", "ctor")
        for s in states:
            go(cls, p.fn(cls + "::~" + n), s, "dtor")
            go(cls, p.fn(cls + "::Close"), s)
    for n, s in (("Bind", "CLOSED"), ("Listen", "BOUND"), ("Accept", "LISTENING"), ("GetPort", "BOUND"), ("GetPort", "LISTENING")):
        go(srv, p.fn(srv + "::" + n), s)
    for s in ("CLOSED", "CONNECTING", "CONNECTED"):
        for n in ("Update", "IsClosed", "IsConnected", "IsConnecting"):
            go(sck, p.fn(sck + "::" + n), s)
        fs = p.fns(sck + "::SendRef") + (p.fns(sck + "::SendCopy") if s == "CONNECTED" else [])
        for f in fs:
            go(sck, f, s)
    for n in ("Connect", "Wrap"):
        go(sck, p.fn(sck + "::" + n), "CLOSED")
    for f in p.fns(sck + "::Recv"):
        go(sck, f, "CONNECTED")
    for k, n in (("exits", 60), ("syscalls", 10), ("closes", 8), ("queue_ops", 10)):
        res.need(rn, k, n)
