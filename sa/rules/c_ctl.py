"""C14: control steps of a TCP socket: connect, attach, handshake, shutdown, resolve of a domain."""
import itertools

from ..core import check
from ..engine import addr, deref
from ..ir import AnalysisBroken
from ..sysmodel import Sys
from .c_iocore import CONFIGS

NS = "mg::aio::"
CTL = NS + "TCPSocketCtl"
REQ = CTL + "DomainRequest"
HS = NS + "TCPSocketHandshake"
TASK = NS + "IOTask"
EVENT = NS + "IOEvent"
THIS = ("name", "this")
SRC = ("name", "source")
NOSOCK = -1
FLAGS = ("myHasShutdown", "myHasConnect", "myHasAttach", "myHasHandshake")


def fld(r, n):
    return ("f", r, n)


class Map(dict):
    """Never changed in place."""
    def __hash__(self):
        return hash(frozenset(self.items()))


class Base(Sys):
    def bad(self, ip, st, msg, fn=None, line=None):
        ip.report(st, msg, fn or self.fn, line if fn else self.line)

    def err(self, ip, st, msg, c):
        self.bad(ip, st, msg, c.fn, c.line)

    def get(self, ip, st, n, r=THIS):
        return ip.norm(st, ip.read(st, fld(r, n)))

    def is_(self, ip, st, n, v, r=THIS):
        return ip.eq(st, self.get(ip, st, n, r), v) is True

    def host(self, ip, st, c):
        """Addresses are told apart by where they were made."""
        rs = st.rs
        n = c.name
        h = rs.get(("host", c.obj))
        if c.kind == "ctor" or n == "operator=":
            src = c.args[0] if c.args else None
            if isinstance(src, tuple) and src[0] == "L":
                rs[("host", c.obj)] = rs.get(("host", src[1]), ("at", src[1]))
            else:
                rs[("host", c.obj)] = None
            return [(st, ("L", c.obj))]
        if n == "IsSet":
            if ("host", c.obj) in rs:
                return [(st, int(h is not None))]
            return None
        if n == "Clear":
            rs[("host", c.obj)] = None
            return [(st, None)]
        if n == "SetPort":
            if h is not None:
                rs[("host", c.obj)] = ("port", h, self.arg(ip, st, c, 0))
            return [(st, None)]
        return None


class Ctl(Base):
    """One method on control steps in one state. Sockets, resolves and handshakes have one owner each."""
    max_loop = 1

    def __init__(self, p, op, s, src=None):
        super().__init__(p)
        self.op, self.s, self.src = op, s, src

    def make(self, ip, st, r, s, pre):
        rs = st.rs
        for n in FLAGS:
            st.store[fld(r, n)] = int(s.get(n, 0))
        st.store[fld(r, "myTask")] = addr(("name", "task"))
        st.store[fld(r, "myConnectIsStarted")] = int(s.get("started", 0))
        own = {}
        for n, k in (("myConnectSocket", "csock"), ("myAttachSocket", "asock")):
            if s.get(k):
                v = ("t", (pre + k,))
                ip.refine(st, v, lo=0, hi=0x7fffffff)
                own[v] = "socket"
            else:
                v = NOSOCK
            st.store[fld(r, n)] = v
        for n, k, kind in (("myConnectDomain", "domain", "resolve"), ("myHandshake", "hs", "handshake")):
            if s.get(k):
                v = ("t", (pre + k,))
                ip.refine(st, v, ne=0)
                own[v] = kind
            else:
                v = 0
            st.store[fld(r, n)] = v
        rs[("host", fld(r, "myConnectHost"))] = None if s.get("domain") or not s.get("myHasConnect") else ("connect", pre)
        d = s.get("deadline")
        v = 0
        if d:
            v = ("t", (pre + "deadline",))
            ip.refine(st, v, lo=1)
        st.store[fld(r, "myConnectStartDeadline")] = v
        dl = fld(r, "myConnectDelay")
        if s.get("nodelay"):
            st.store[fld(dl, "myType")] = self.p.enum("mg::box::TimeLimitType")["TIME_LIMIT_NONE"]
        if s.get("delay"):
            t = ip.norm(st, ip.read(st, fld(dl, "myType")))
            ip.refine(st, t, ne=self.p.enum("mg::box::TimeLimitType")["TIME_LIMIT_NONE"])
        e = fld(r, "myConnectEvent")
        for n, v in (("myIsLocked", 0), ("myIsEmpty", 1), ("myIsError", 0)):
            st.store[fld(e, n)] = v
        rs["own"] = Map({**rs.get("own", {}), **own})

    def setup(self, f):
        def fn(ip, st, this, args):
            rs = st.rs
            self.args = args
            ip.settype(THIS, CTL)
            self.make(ip, st, THIS, self.s, "")
            if self.src is not None:
                ip.settype(SRC, CTL)
                self.make(ip, st, SRC, self.src, "s")
            rs["released"] = Map()
            rs["hassock"] = bool(self.s.get("hassock"))
            rs["op"] = self.op
            if self.op == "MergeFrom":
                st.store[("name", "arg:aSrc")] = addr(SRC)
                k = [a for a in args][0]
                if ip.norm(st, k) != addr(SRC):
                    ip.assume(st, ("cmp", "==", k, addr(SRC)), True) if 0 else None
            if self.op in ("AddAttach", "AddConnect", "AddHandshake"):
                if self.op == "AddAttach":
                    v = ip.norm(st, args[0])
                    ip.refine(st, v, lo=0, hi=0x7fffffff)
                    rs["own"] = Map({**rs["own"], v: "socket"})
                elif self.op == "AddHandshake":
                    v = ip.norm(st, args[0])
                    ip.refine(st, v, ne=0)
                    rs["own"] = Map({**rs["own"], v: "handshake"})
                else:
                    x = args[0][1]
                    v = ip.norm(st, ip.read(st, fld(x, "mySocket")))
                    ip.refine(st, v, lo=0, hi=0x7fffffff)
                    rs["own"] = Map({**rs["own"], v: "socket"})
        return fn

    # ------------------------------------------------------------ ownership
    def release(self, ip, st, v, how, fn, line):
        rs = st.rs
        kind = rs["own"].get(v)
        if kind is None:
            self.bad(ip, st, "something not owned is released", fn, line)
            return
        self.count("releases")
        if v in rs["released"]:
            self.bad(ip, st, "a %s is released twice" % kind, fn, line)
        rs["released"] = Map({**rs["released"], v: how})

    def holders(self, ip, st):
        res = {}
        for r in (THIS,) + ((SRC,) if self.src is not None and not st.rs.get("srcdead") else ()):
            for n in ("myConnectSocket", "myAttachSocket", "myConnectDomain", "myHandshake"):
                v = self.get(ip, st, n, r)
                if v in st.rs["own"]:
                    res.setdefault(v, []).append((r, n))
        return res

    def conserve(self, ip, st, gone=False):
        rs = st.rs
        h = self.holders(ip, st) if not gone else {}
        for v, kind in rs["own"].items():
            if v in rs["released"]:
                if v in h and not gone:
                    self.bad(ip, st, "a released %s is kept: it is released twice" % kind)
            elif v not in h:
                self.bad(ip, st, "a %s is leaked" % kind)
            elif len(h[v]) > 1:
                self.bad(ip, st, "a %s has two owners" % kind)
        if gone:
            return
        if not self.is_(ip, st, "myHasConnect", 1):
            for n, v in (("myConnectSocket", NOSOCK), ("myConnectDomain", 0), ("myConnectIsStarted", 0)):
                if not self.is_(ip, st, n, v):
                    self.bad(ip, st, "%s is left after the end of the connect" % n)
        if not self.is_(ip, st, "myHasAttach", 1) and not self.is_(ip, st, "myAttachSocket", NOSOCK):
            self.bad(ip, st, "a socket is left after the end of the attach")

    # ------------------------------------------------------------ calls
    def on_other(self, ip, st, c):
        rs = st.rs
        q = c.qn
        if q.startswith("mg::box::Assert"):
            if c.fn.cls and c.fn.cls.startswith(CTL):
                self.err(ip, st, "a legal use of the control steps is asserted against", c)
            return None
        if c.cls == "mg::net::Host":
            return self.host(ip, st, c)
        if q == "mg::net::SocketClose":
            self.release(ip, st, self.arg(ip, st, c, 0), "close", c.fn, c.line)
            return [(st, None)]
        if q == "mg::net::SocketShutdown":
            self.count("shutdowns")
            rs["shutdown"] = self.arg(ip, st, c, 0)
            if c.args[1] != self.args[0]:
                self.err(ip, st, "an error of the shutdown is lost", c)
            s2 = st.copy()
            s2.rs["shutfail"] = True
            return [(st, 1), (s2, 0)]
        if q == "mg::net::URLParse":
            r = ("o", ("url",))
            return [(st, ("L", r))]
        if q == "mg::box::GetMilliseconds":
            v = ip.tok(st, ("now",))
            return [(st, v)]
        if c.cls and c.cls.startswith("mg::box::Time") and c.name.startswith("ToPointFromNow"):
            rs["delayed"] = c.obj
            r = ("o", ("point",))
            v = ip.tok(st, ("point",))
            ip.refine(st, v, lo=1)
            st.store[fld(r, "myValue")] = v
            return [(st, ("L", r))]
        if c.cls == "mg::box::TimeLimit" and c.name == "operator=":
            rs[("delay", c.obj)] = c.args[0]
            return [(st, ("L", c.obj))]
        if c.cls == TASK:
            return self.task(ip, st, c)
        if c.cls == REQ:
            return self.resolve(ip, st, c)
        if c.cls == HS and c.name == "Update":
            self.count("handshakes")
            if self.get(ip, st, "myHandshake") != addr(c.obj):
                self.err(ip, st, "a wrong handshake is made", c)
            s2 = st.copy()
            rs["hsdone"], s2.rs["hsdone"] = True, False
            return [(st, 1), (s2, 0)]
        return None

    def task(self, ip, st, c):
        rs = st.rs
        n = c.name
        self.count("task_calls")
        if n == "GetSocket":
            if rs["hassock"]:
                ip.refine(st, ("t", ("tasksock",)), lo=0)
                return [(st, ("t", ("tasksock",)))]
            return [(st, NOSOCK)]
        if n == "HasSocket":
            return [(st, int(rs["hassock"]))]
        if n == "AttachSocket":
            rs["attached"] = self.arg(ip, st, c, 0)
            self.release(ip, st, rs["attached"], "task", c.fn, c.line)
            rs["hassock"] = True
            return [(st, None)]
        if n == "SetDeadline":
            rs["deadline"] = self.arg(ip, st, c, 0)
            return [(st, None)]
        if n in ("Reschedule", "PostWakeup"):
            rs["resched"] = True
            return [(st, None)]
        if n in ("ConnectStart", "ConnectUpdate"):
            self.count("connects")
            rs["connects"] = rs.get("connects", 0) + 1
            rs["how"] = (n, len(c.args))
            ev = c.args[-1][1]
            if ev != fld(THIS, "myConnectEvent"):
                self.err(ip, st, "a wrong event is given to the connect", c)
                return None
            given = None
            if n == "ConnectStart":
                if rs["hassock"]:
                    self.err(ip, st, "a connect is started twice", c)
                h = rs.get(("host", c.args[-2][1]))
                rs["chost"] = h
                if len(c.args) == 3:
                    given = self.arg(ip, st, c, 0)
            elif not rs["hassock"]:
                self.err(ip, st, "a connect in progress is checked before its start", c)
            res = []
            for how in ("locked", "done", "fail"):
                s = st.copy()
                s.rs["result"] = how
                s.store[fld(ev, "myIsLocked")] = int(how == "locked")
                s.store[fld(ev, "myIsEmpty")] = int(how == "locked")
                s.store[fld(ev, "myIsError")] = int(how == "fail")
                if how == "fail":
                    v = ("t", ("cerr",))
                    ip.refine(s, v, ne=0)
                    s.store[fld(ev, "myError")] = v
                else:
                    s.store[fld(ev, "myBytes")] = 0
                    s.rs["hassock"] = True
                    if given is not None:
                        self.release(ip, s, given, "task", c.fn, c.line)
                ip.note(s, c.fn, c.line, "connect: " + how)
                res.append((s, int(how != "fail")))
            return res
        return None

    def resolve(self, ip, st, c):
        rs = st.rs
        n = c.name
        if c.kind == "ctor":
            rs["resolve_args"] = (self.arg(ip, st, c, 0), self.arg(ip, st, c, 3))
            v = addr(c.obj)
            rs["own"] = Map({**rs["own"], v: "resolve"})
            return [(st, ("L", c.obj))]
        if n.startswith("~"):
            return [(st, None)]
        v = addr(c.obj)
        if rs["own"].get(v) != "resolve" or v in rs["released"]:
            self.err(ip, st, "a deleted or wrong resolve is used", c)
        if n == "Update":
            self.count("resolves")
            rs["resolved"] = True
            s2, s3 = st.copy(), st.copy()
            rs["resolved"] = False
            s2.store[fld(c.obj, "myError")] = s2.store.get(fld(c.obj, "myError"))
            s2.store.pop(fld(c.obj, "myError"), None)
            s2.store[fld(fld(c.obj, "myError"), "myObject")] = 0
            s2.rs[("host", fld(c.obj, "myHost"))] = ("resolved",)
            e = ("o", ("error", "resolve", 0))
            s3.store[fld(e, "myCode")] = ("t", ("rerr",))
            s3.store[fld(fld(c.obj, "myError"), "myObject")] = addr(e)
            s3.rs[("host", fld(c.obj, "myHost"))] = None
            s3.rs["failed"] = True
            return [(st, 0), (s2, 1), (s3, 1)]
        if n == "Cancel":
            self.release(ip, st, v, "cancel", c.fn, c.line)
            return [(st, None)]
        if n.startswith("~"):
            return [(st, None)]
        return None

    def delete(self, ip, st, val, node, fn, line):
        v = ip.norm(st, val)
        rs = st.rs
        if v == addr(SRC) or self.op == "MergeFrom" and v == ip.norm(st, self.args[0]):
            rs["srcdead"] = rs.get("srcdead", 0) + 1
            # Its destructor releases what is left there.
            for n in ("myConnectSocket", "myAttachSocket", "myConnectDomain", "myHandshake"):
                x = self.get(ip, st, n, deref(v))
                if x in rs["own"]:
                    self.bad(ip, st, "a merged %s is released" % rs["own"][x], fn, line)
            return "skip"
        if v in rs["own"]:
            if rs["own"][v] == "resolve" and not rs.get("resolved"):
                self.bad(ip, st, "a resolve in progress is deleted: its end uses it", fn, line)
            self.release(ip, st, v, "delete", fn, line)

    # ------------------------------------------------------------ results
    def end(self, ip, st, val, fn, line):
        self.count("exits")
        self.fn, self.line = fn, line
        self.conserve(ip, st, self.op == "dtor")
        getattr(self, "x_" + self.op, lambda *a: None)(ip, st, val)

    def flags(self, ip, st, msg, **kw):
        for n in FLAGS:
            want = kw.get(n[5:].lower(), int(self.s.get(n, 0)))
            if want is not None and not self.is_(ip, st, n, want):
                self.bad(ip, st, msg + ": " + n)

    def x_flag(self, ip, st, val):
        self.flags(ip, st, "a check changes the steps")
        f = self.f.name
        if f == "IsIdle":
            want = not any(self.s.get(n) for n in FLAGS + ("hs",))
        else:
            want = bool(self.s.get("my" + f, 0))
        if ip.truth(st, val) is not want:
            self.bad(ip, st, "a wrong state of the steps is told")

    def x_AddShutdown(self, ip, st, val):
        self.flags(ip, st, "a wrong step is added", shutdown=1)

    def x_AddAttach(self, ip, st, val):
        self.flags(ip, st, "a wrong step is added", attach=1)
        if self.get(ip, st, "myAttachSocket") != ip.norm(st, self.args[0]):
            self.bad(ip, st, "a wrong socket is attached")

    def x_AddHandshake(self, ip, st, val):
        self.flags(ip, st, "a wrong step is added")
        if self.get(ip, st, "myHandshake") != ip.norm(st, self.args[0]):
            self.bad(ip, st, "a handshake is lost")

    def x_AddConnect(self, ip, st, val):
        rs = st.rs
        self.flags(ip, st, "a wrong step is added", connect=1)
        x = self.args[0][1]
        if self.get(ip, st, "myConnectSocket") != ip.norm(st, ip.read(st, fld(x, "mySocket"))):
            self.bad(ip, st, "a wrong socket is connected")
        if rs.get(("delay", fld(THIS, "myConnectDelay"))) != ("L", fld(x, "myDelay")):
            self.bad(ip, st, "the delay of the connect is lost")
        d = self.get(ip, st, "myConnectDomain")
        if (d == 0) is not (rs.get("isip") is True):
            self.bad(ip, st, "a domain is not resolved, or an address is")
        if d == 0:
            h = rs.get(("host", fld(THIS, "myConnectHost")))
            if not h or h[0] != "port":
                self.bad(ip, st, "the port of the connect is lost")
        else:
            a = rs.get("resolve_args")
            if not a or a[0] != addr(("name", "task")) or a[1] != ip.norm(st, ip.read(st, fld(x, "myAddrFamily"))):
                self.bad(ip, st, "a resolve is made for a wrong task or address family")
        if not self.is_(ip, st, "myConnectIsStarted", 0):
            self.bad(ip, st, "a new connect looks started: its delay is ignored")

    def x_DoShutdown(self, ip, st, val):
        rs = st.rs
        t = ip.truth(st, val)
        if self.s.get("myHasConnect"):
            self.flags(ip, st, "a shutdown waits for the connect")
            if rs.get("shutdown") is not None or t is not True:
                self.bad(ip, st, "a shutdown does not wait for the connect")
            return
        self.flags(ip, st, "a shutdown is repeated, or other steps are lost", shutdown=0)
        if not self.s.get("hassock"):
            if t is not True or rs.get("shutdown") is not None:
                self.bad(ip, st, "a shutdown without a socket is an error")
            return
        if rs.get("shutdown") != ("t", ("tasksock",)):
            self.bad(ip, st, "the socket is not shut down")
        if t is not (not rs.get("shutfail")):
            self.bad(ip, st, "a wrong result of the shutdown is told")

    def x_DoAttach(self, ip, st, val):
        self.flags(ip, st, "wrong steps are left after the attach", attach=0, handshake=1)
        if st.rs.get("attached") != ("t", ("asock",)):
            self.bad(ip, st, "the socket is not attached")

    def x_DoHandshake(self, ip, st, val):
        rs = st.rs
        done = not self.s.get("hs") or rs.get("hsdone")
        self.flags(ip, st, "a handshake is %s" % ("not ended" if done else "ended before it is done"), handshake=int(not done))
        if self.s.get("hs") and rs.get("hsdone") is None:
            self.bad(ip, st, "a handshake is not made")
        if self.s.get("hs") and bool(done) is not (("t", ("hs",)) in rs["released"]):
            self.bad(ip, st, "a handshake is not kept till its end, or after it")

    def x_DoConnect(self, ip, st, val):
        rs = st.rs
        s = self.s
        t = ip.truth(st, val)
        err = ip.norm(st, ip.read(st, fld(self.args[0][1], "myObject")))
        err = None if err == 0 or not isinstance(err, tuple) else self.code_of(ip, st, err)
        # A delay.
        if not s.get("started"):
            if s.get("delay") and rs.get("delayed") != fld(THIS, "myConnectDelay"):
                self.bad(ip, st, "the delay of the connect is ignored")
            if not self.is_(ip, st, "myConnectIsStarted", 1) and self.is_(ip, st, "myHasConnect", 1):
                self.bad(ip, st, "the delay of the connect starts again and again")
            dl = ("t", ("point",)) if s.get("delay") else 0
        else:
            dl = ("t", ("deadline",)) if s.get("deadline") else 0
        now = ("t", ("now",))
        progress = rs.get("resolved") is not None or rs.get("connects")
        if rs.get("deadline") is not None:
            if progress or t is not True:
                self.bad(ip, st, "a connect is made before its delay ends")
            self.flags(ip, st, "a delayed connect is lost")
            if self.get(ip, st, "myConnectStartDeadline") != rs["deadline"]:
                self.bad(ip, st, "the end of the delay is lost")
            return
        if dl != 0 and not rs.get("waited"):
            self.bad(ip, st, "a connect is made before its delay ends")
        # A resolve.
        if s.get("domain"):
            if rs.get("resolved") is None:
                self.bad(ip, st, "the domain is not resolved")
            elif rs["resolved"] is False:
                if rs.get("connects") or t is not True:
                    self.bad(ip, st, "a connect does not wait for the end of the resolve")
                self.flags(ip, st, "a connect in progress is lost")
                return
            elif rs.get("failed"):
                if t is not False or err != ("t", ("rerr",)):
                    self.bad(ip, st, "a failed resolve is not told")
                if rs.get("connects"):
                    self.bad(ip, st, "a connect is made after a failed resolve")
                self.flags(ip, st, "wrong steps are left after a failed connect", connect=0)
                return
            if rs["released"].get(("t", ("domain",))) != "delete":
                self.bad(ip, st, "a finished resolve is not deleted")
        if rs.get("connects") != 1:
            self.bad(ip, st, "a connect is not made once")
            return
        want = ("ConnectUpdate", 1) if s.get("hassock") else ("ConnectStart", 3 if s.get("csock") else 2)
        if rs["how"] != want:
            self.bad(ip, st, "a connect is not made with the given socket, or is started again")
        if not s.get("hassock") and rs.get("chost") != (("resolved",) if s.get("domain") else ("connect", "")):
            self.bad(ip, st, "a wrong address is connected to")
        how = rs["result"]
        if how == "locked":
            if t is not True:
                self.bad(ip, st, "a connect in progress is told as failed")
            self.flags(ip, st, "a connect in progress is lost")
        elif how == "fail":
            if t is not False or err != ("t", ("cerr",)):
                self.bad(ip, st, "a failure of the connect is not told")
            self.flags(ip, st, "wrong steps are left after a failed connect", connect=0)
        else:
            if t is not True:
                self.bad(ip, st, "a made connection is told as failed")
            self.flags(ip, st, "wrong steps are left after the connect", connect=0, handshake=1)
            if s.get("myHasShutdown") and not rs.get("resched"):
                self.bad(ip, st, "a shutdown waiting for the connect is forgotten")

    def branch(self, ip, st, cond, truth, fn, line):
        # Is the delay known to be over?
        now = ("t", ("now",))
        for d in (("t", ("point",)), ("t", ("deadline",))):
            if ip.lt(st, now, d) is False:
                st.rs["waited"] = True

    def x_MergeFrom(self, ip, st, val):
        if st.rs.get("srcdead") != 1:
            self.bad(ip, st, "merged steps are not deleted once")
        s = self.src
        self.flags(ip, st, "merged steps are lost", **{n[5:].lower(): int(bool(self.s.get(n) or s.get(n))) for n in FLAGS})
        if s.get("myHasConnect"):
            for n, k in (("myConnectSocket", "csock"), ("myConnectDomain", "domain")):
                v = ("t", ("s" + k,)) if s.get(k) else (NOSOCK if k == "csock" else 0)
                if self.get(ip, st, n) != v:
                    self.bad(ip, st, "merged %s is lost" % n)
            if not s.get("domain") and st.rs.get(("host", fld(THIS, "myConnectHost"))) != ("connect", "s"):
                self.bad(ip, st, "the address of the merged connect is lost")
            if st.rs.get(("delay", fld(THIS, "myConnectDelay"))) != ("L", fld(self.srcr, "myConnectDelay")):
                self.bad(ip, st, "the delay of the merged connect is lost")
        if s.get("myHasAttach") and self.get(ip, st, "myAttachSocket") != ("t", ("sasock",)):
            self.bad(ip, st, "the merged socket is lost")

    srcr = SRC


class AddConnect(Ctl):
    def host(self, ip, st, c):
        if c.name == "Set" and c.obj == fld(THIS, "myConnectHost"):
            s2 = st.copy()
            st.rs["isip"], s2.rs["isip"] = True, False
            st.rs[("host", c.obj)] = ("parsed",)
            return [(st, 1), (s2, 0)]
        return super().host(ip, st, c)


class Req(Base):
    """A resolve of a domain: used by the worker and by the resolver's thread, deleted by the last one."""
    max_loop = 2

    def __init__(self, p, op, sent, task):
        super().__init__(p)
        self.op, self.sent, self.task0 = op, sent, task

    def setup(self, f):
        def fn(ip, st, this, args):
            rs = st.rs
            self.args = args
            ip.settype(THIS, REQ)
            st.store[fld(THIS, "myIsSent")] = self.sent
            v = addr(("name", "task")) if self.task0 else 0
            st.store[fld(THIS, "myTask")] = v
            if self.op == "PrivOnDomainResolve":
                st.store[fld(fld(THIS, "myError"), "myObject")] = 0
                rs[("host", fld(THIS, "myHost"))] = None
        return fn

    def access(self, ip, st, region, fn, line):
        r = region
        while r[0] in ("f", "e"):
            if r[1] == THIS:
                break
            r = r[1]
        else:
            return
        self.count("accesses")
        if st.rs.get("dead"):
            self.bad(ip, st, "a deleted resolve is used", fn, line)
        n = r[2]
        if n == "myTask" and not self.holds(st, fld(THIS, "myMutex")):
            self.bad(ip, st, "the task of a resolve is used without the lock", fn, line)
        if st.rs.get("given"):
            self.bad(ip, st, "a resolve is used after its end was told: the other side deletes it", fn, line)
        if n in ("myError", "myHost") and st.rs.get("told"):
            self.bad(ip, st, "a resolve is changed after its end was told", fn, line)

    def load(self, ip, st, region, val, fn, line):
        super().load(ip, st, region, val, fn, line)
        self.access(ip, st, region, fn, line)

    def store(self, ip, st, region, val, fn, line):
        self.access(ip, st, region, fn, line)
        if region == fld(THIS, "myTask") and ip.eq(st, ip.norm(st, val), 0) is True:
            st.rs["told"] = True

    def on_lock(self, ip, st, m, fn, line):
        if st.rs.get("given") or st.rs.get("dead"):
            self.bad(ip, st, "a resolve is used after its end was told: the other side deletes it", fn, line)

    def on_unlock(self, ip, st, m, fn, line):
        if st.rs.get("dead"):
            self.bad(ip, st, "a deleted resolve is used", fn, line)
        if st.rs.get("told"):
            st.rs["given"] = True

    def on_other(self, ip, st, c):
        rs = st.rs
        q = c.qn
        if c.cls == "mg::net::Host":
            self.access(ip, st, c.obj, c.fn, c.line)
            return self.host(ip, st, c)
        if q == "mg::net::DomainToIPAsync":
            rs["async"] = rs.get("async", 0) + 1
            if self.holds(st, fld(THIS, "myMutex")):
                self.err(ip, st, "the resolver is called under a lock of its callback", c)
            if c.args[0] != ("L", fld(THIS, "myRequest")):
                self.err(ip, st, "a wrong request is sent: it cannot be canceled", c)
            return [(st, None)]
        if q == "mg::net::DomainToIPCancel":
            rs["canceled"] = True
            if st.rs.get("given"):
                self.err(ip, st, "a resolve is used after its end was told: the other side deletes it", c)
            return [(st, None)]
        if c.cls == TASK:
            if not self.holds(st, fld(THIS, "myMutex")):
                self.err(ip, st, "the task is used without the lock: it is canceled and deleted meanwhile", c)
            if c.name == "PostWakeup":
                rs["woken"] = rs.get("woken", 0) + 1
            return [(st, None)]
        if c.cls and "basic_string" in c.cls and c.name == "c_str":
            return [(st, ("t", ("cstr", c.obj)))]
        if c.cls and c.cls.startswith("std::vector") and c.name == "front":
            r = ("o", ("front",))
            rs[("host", fld(r, "myHost"))] = ("endpoint", "front")
            return [(st, ("L", r))]
        return None

    def delete(self, ip, st, val, node, fn, line):
        v = ip.norm(st, val)
        if v == addr(THIS):
            if st.rs.get("dead") or st.rs.get("given"):
                self.bad(ip, st, "a resolve is deleted twice", fn, line)
            if self.held(st):
                self.bad(ip, st, "a resolve is deleted under its lock", fn, line)
            st.rs["dead"] = True
            return "skip"

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        self.fn, self.line = fn, line
        rs = st.rs
        if self.held(st):
            self.bad(ip, st, "the lock is left taken")
        getattr(self, "x_" + self.op)(ip, st, val)

    def x_Update(self, ip, st, val):
        rs = st.rs
        if not self.sent:
            if rs.get("async") != 1 or ip.truth(st, val) is not False or not self.is_(ip, st, "myIsSent", 1):
                self.bad(ip, st, "a resolve is not started once")
            return
        if rs.get("async"):
            self.bad(ip, st, "a resolve is started twice")
        if ip.truth(st, val) is not (not self.task0):
            self.bad(ip, st, "a wrong state of the resolve is told")

    def x_Cancel(self, ip, st, val):
        rs = st.rs
        if not self.sent or not self.task0:
            if not rs.get("dead"):
                self.bad(ip, st, "a canceled resolve is leaked")
            return
        if rs.get("dead"):
            self.bad(ip, st, "a resolve in progress is deleted: its end uses it")
        if not rs.get("told"):
            self.bad(ip, st, "a canceled resolve does not know it: it uses the task and is never deleted")

    def x_PrivOnDomainResolve(self, ip, st, val):
        rs = st.rs
        if not self.task0:
            if not rs.get("dead"):
                self.bad(ip, st, "a canceled resolve is leaked")
            if rs.get("woken"):
                self.bad(ip, st, "a task of a canceled resolve is used")
            return
        if rs.get("dead"):
            self.bad(ip, st, "a resolve is deleted while its task uses it")
        if not rs.get("told") or rs.get("woken") != 1:
            self.bad(ip, st, "the end of a resolve is not told")
        e = ip.norm(st, ip.read(st, fld(fld(THIS, "myError"), "myObject")))
        h = rs.get(("host", fld(THIS, "myHost")))
        a = ip.norm(st, self.args[2])
        if ip.eq(st, a, 0) is False:
            if ip.eq(st, e, a) is not True:
                self.bad(ip, st, "an error of the resolve is lost")
        elif h is None:
            if ip.eq(st, e, 0) is not False:
                self.bad(ip, st, "neither an error nor an address is told")
        elif h[0] != "port" or h[2] != self.get(ip, st, "myPort"):
            self.bad(ip, st, "the port of the resolved address is lost")


def ctls(res, rn):
    for cfg in CONFIGS:
        p = res.prog(cfg, ("aio",))

        def go(op, name, s, src=None, cls=Ctl):
            f = p.fn(CTL + "::" + name)
            r = cls(p, op, s, src)
            r.f = f
            setup = r.setup(f)

            def mk(ip, st, this, args):
                if src is not None:
                    args[0] = addr(SRC)
                    st.store[("name", "arg:aSrc")] = addr(SRC)
                setup(ip, st, this, args)
            ip, _ = res.walk(p, r, f, rn, setup=mk)
        C = dict(myHasConnect=1)
        A = dict(myHasAttach=1, asock=1)
        go("dtor", "~TCPSocketCtl", dict(hs=1))
        go("dtor", "~TCPSocketCtl", dict(hs=1, myHasHandshake=1))
        go("dtor", "~TCPSocketCtl", {})
        go("dtor", "~TCPSocketCtl", A)
        for sh, hs in itertools.product((0, 1), (0, 1)):
            b = dict(myHasShutdown=sh, hs=hs)
            for st in (0, 1):
                for n in ("HasShutdown", "HasConnect", "HasAttach", "HasHandshake", "IsIdle"):
                    go("flag", n, {**b, "myHasHandshake": st})
                    go("flag", n, {**b, **C})
                    go("flag", n, {**b, **A})
            go("AddShutdown", "AddShutdown", {**b, **C})
            go("AddConnect", "AddConnect", b, cls=AddConnect)
            if not sh:
                go("AddAttach", "AddAttach", b)
            go("DoAttach", "DoAttach", {**b, **A})
            if not sh and not hs:
                go("AddHandshake", "AddHandshake", b)
            for k in (0, 1):
                go("DoHandshake", "DoHandshake", {**b, "myHasHandshake": 1, "hassock": 1})
                if sh:
                    go("DoShutdown", "DoShutdown", {**b, "hassock": k})
                    go("DoShutdown", "DoShutdown", {**b, "hassock": k, "myHasHandshake": 1})
                    go("DoShutdown", "DoShutdown", {**b, **C, "hassock": k})
            for cs, dom in itertools.product((0, 1), (0, 1)):
                x = {**b, **C, "csock": cs, "domain": dom}
                go("dtor", "~TCPSocketCtl", x)
                for d in ("nodelay", "delay"):
                    go("DoConnect", "DoConnect", {**x, d: 1})
                for d in (0, 1):
                    go("DoConnect", "DoConnect", {**x, "started": 1, "deadline": d, "delay": d})
                if not cs and not dom:
                    go("DoConnect", "DoConnect", {**x, "started": 1, "hassock": 1})
                if not sh:
                    go("MergeFrom", "MergeFrom", b, {**C, "csock": cs, "domain": dom})
            for k in (0, 1):
                go("MergeFrom", "MergeFrom", {**b, **C, "csock": 1}, dict(myHasShutdown=k))
                go("MergeFrom", "MergeFrom", {**b, "myHasHandshake": 1}, dict(myHasShutdown=k))
                if not sh:
                    go("MergeFrom", "MergeFrom", b, {**A, "myHasShutdown": k})


def reqs(res, rn):
    p = res.prog("epoll", ("aio",))
    for op, sent, task in (("Update", 0, 1), ("Update", 1, 1), ("Update", 1, 0), ("Cancel", 0, 1), ("Cancel", 1, 1),
                           ("Cancel", 1, 0), ("PrivOnDomainResolve", 1, 1), ("PrivOnDomainResolve", 1, 0)):
        f = p.fn(REQ + "::" + op)
        r = Req(p, op, sent, task)
        res.walk(p, r, f, rn, setup=r.setup(f))


