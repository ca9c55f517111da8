"""C09: the TCP server."""
from ..core import check
from ..engine import addr, deref, under, root_of
from ..ir import AnalysisBroken
from ..sysmodel import Sys

NS = "mg::aio::"
SRV = NS + "TCPServer"
THIS = ("name", "this")
GUARDED = ("myState", "mySub", "myBoundSocket")
INVALID = -1
CONFIGS = ("epoll", "iouring")


def fld(r, n):
    return ("f", r, n)


class Server(Sys):
    def __init__(self, p, what, state, closed=False):
        super().__init__(p)
        self.what = what
        e = p.enum(NS + "TCPServerState")
        self.S = {n.replace("TCP_SERVER_STATE_", ""): v for n, v in e.items()}
        self.state = state
        self.closed = closed

    def setup(self, f):
        def fn(ip, st, this, args):
            self.args = args
            st.store[fld(THIS, "myState")] = self.S[self.state]
            ip.settype(THIS, SRV)
            live = self.state in ("LISTENING", "CLOSING")
            if live:
                s = ip.norm(st, ip.read(st, fld(THIS, "mySub")))
                ip.refine(st, s, ne=0)
                st.rs["sub"] = s
            else:
                st.store[fld(THIS, "mySub")] = 0
            if self.state == "BOUND":
                b = ip.norm(st, ip.read(st, fld(THIS, "myBoundSocket")))
                ip.refine(st, b, ne=0)
                st.rs["bound"] = b
            else:
                st.store[fld(THIS, "myBoundSocket")] = 0
            if self.what != "OnEvent":
                return
            ev = fld(THIS, "myAcceptEvent")
            if not self.closed:
                st.store[fld(ev, "myIsEmpty")] = ip.tok(st, "ev-empty")
        return fn

    # ------------------------------------------------------------ lock
    def mine(self, region):
        return region[0] == "f" and region[1] == THIS

    def load(self, ip, st, region, val, fn, line):
        super().load(ip, st, region, val, fn, line)
        self.access(ip, st, region, fn, line, False)

    def store(self, ip, st, region, val, fn, line):
        self.access(ip, st, region, fn, line, True)

    def access(self, ip, st, region, fn, line, write):
        if under(region, THIS) and st.rs.get("gone"):
            ip.report(st, "the server is touched after its close was told: its owner deletes it there", fn, line)
        if not self.mine(region) or region[2] not in GUARDED or self.what in ("ctor", "Bind", "GetPort", "dtor"):
            return
        self.count("guarded")
        if self.holds(st, fld(THIS, "myMutex")):
            return
        # The subscription does not change while the task is alive, so the worker may use it.
        if region[2] == "mySub" and not write and self.what == "OnEvent" and not st.rs.get("closed"):
            return
        ip.report(st, "a member shared by threads is used without the lock", fn, line)

    def on_lock(self, ip, st, m, fn, line):
        if m != fld(THIS, "myMutex"):
            return
        if st.rs.get("gone"):
            ip.report(st, "the server is touched after its close was told: its owner deletes it there", fn, line)
        if self.what == "OnEvent" and self.state == "LISTENING" and not self.closed:
            # Others may have closed it.
            r = fld(THIS, "myState")
            v = ip.tok(st, ("state", fn.id, line))
            ip.refine(st, v, lo=self.S["LISTENING"], hi=self.S["CLOSING"])
            st.store[r] = v

    def on_unlock(self, ip, st, m, fn, line):
        if m == fld(THIS, "myMutex") and st.rs.get("gone"):
            ip.report(st, "the server is touched after its close was told: its owner deletes it there", fn, line)

    # ------------------------------------------------------------ calls
    def on_other(self, ip, st, c):
        rs = st.rs
        q = c.qn
        if q.startswith("mg::box::Assert"):
            # A failure of accept which can't be handled is an assertion of the server itself.
            if rs.get("how") != "fatal" and not rs.get("failed"):
                self.rep(ip, st, "an operation allowed in this state (%s) crashes by an assertion" % self.state, c)
            return []
        if q == NS + "IOTask::IsInWorkerNow":
            return [(st, 1)]
        if q == NS + "IOTask::IsClosed":
            if self.what == "OnEvent":
                rs["closed"] = self.closed
            return [(st, int(self.closed))]
        if c.cls == NS + "IOTask" and c.obj == fld(THIS, "myTask"):
            return self.task(ip, st, c)
        if c.cls == NS + "TCPServerSubscription" and c.name.startswith("On"):
            return self.callback(ip, st, c)
        if q == NS + "SocketListen":
            self.count("listens")
            s2 = st.copy()
            e = ("o", ("error", ("t", ("errc", "listen")), 0))
            s2.store[fld(e, "myCode")] = self.known(ip, s2, ("t", ("errc", "listen")))
            s2.store[fld(c.args[2][1], "myObject")] = addr(e)
            if ip.eq(st, self.arg(ip, st, c, 0), rs.get("bound")) is not True:
                self.rep(ip, st, "a wrong socket is made listening", c)
            if ip.eq(st, self.arg(ip, st, c, 1), ip.norm(st, self.args[0])) is not True:
                self.rep(ip, st, "a wrong backlog is set", c)
            rs["listen"] = 1
            s2.rs["listen"] = 0
            return [(st, 1), (s2, 0)]
        if q == NS + "SocketBind":
            s2 = st.copy()
            v = ip.tok(st, "bound")
            ip.refine(st, v, ne=0)
            rs["made"] = v
            s2.rs["made"] = 0
            return [(st, v), (s2, 0)]
        return None

    def task(self, ip, st, c):
        rs = st.rs
        n = c.name
        self.count("task_calls")
        if n == "Post":
            rs["posted"] = rs.get("posted", ()) + (tuple(self.arg(ip, st, c, i) for i in range(len(c.args))),)
            return [(st, None)]
        if n in ("PostWakeup", "PostClose", "Reschedule"):
            rs[n] = rs.get(n, 0) + 1
            if n == "PostWakeup" and not rs.get("posted"):
                self.rep(ip, st, "a task is woken up before it is posted", c)
            if n == "PostClose" and not self.holds(st, fld(THIS, "myMutex")):
                self.rep(ip, st, "the task is closed out of the lock: by then it can be closed and deleted", c)
            return [(st, None)]
        if n == "ProcessArgs":
            if c.args[0] != self.args[0]:
                self.rep(ip, st, "wrong events are handled", c)
            rs["processed"] = 1
            s2 = st.copy()
            e = ("o", ("error", 5, 1))
            s2.store[fld(c.args[1][1], "myObject")] = addr(e)
            s2.rs["failed"] = 1
            return [(st, 1), (s2, 0)]
        if n == "Accept":
            self.count("accepts")
            ev = c.args[0][1]
            if ev != fld(THIS, "myAcceptEvent"):
                self.rep(ip, st, "a wrong event is used", c)
            if not rs.get("processed"):
                self.rep(ip, st, "clients are accepted before the events are handled", c)
            if rs.get("client") is not None:
                self.rep(ip, st, "the accepted client before this one is lost", c)
            if rs.get("told"):
                self.rep(ip, st, "more than one client is accepted without letting others work", c) if 0 else None
            res = []
            for how in ("client", "wait", "retry", "fatal"):
                s = st.copy()
                s.store[fld(ev, "myIsLocked")] = int(how == "wait")
                s.store[fld(ev, "myIsEmpty")] = int(how != "fatal")
                s.store[fld(ev, "myIsError")] = int(how == "fatal")
                s.rs["how"] = how
                v = INVALID
                if how == "client":
                    v = ip.tok(s, ("client", c.ctx, c.sid))
                    ip.refine(s, v, lo=0)
                    s.rs["client"] = v
                    s.rs["peer"] = c.args[1]
                res.append((s, v))
            return res
        return None

    def callback(self, ip, st, c):
        rs = st.rs
        self.count("callbacks")
        if self.held(st):
            self.rep(ip, st, "a callback is called under a lock: a call of the server from it is a deadlock", c)
        if ip.eq(st, addr(c.obj), rs.get("sub")) is not True:
            self.rep(ip, st, "a wrong subscriber is called", c)
        if c.name == "OnAccept":
            if rs.get("closed"):
                self.rep(ip, st, "a client is told by a closed server", c)
            if rs.get("client") is None:
                self.rep(ip, st, "a client is told twice or is not accepted", c)
            elif ip.eq(st, self.arg(ip, st, c, 0), rs["client"]) is not True or c.args[1] != rs["peer"]:
                self.rep(ip, st, "a wrong client is told", c)
            rs["client"] = None
            rs["told"] = rs.get("told", 0) + 1
        elif c.name == "OnClose":
            if not rs.get("closed"):
                self.rep(ip, st, "a close is told before the end of it", c)
            if rs.get("gone"):
                self.rep(ip, st, "a close is told twice", c)
            self.finals(ip, st, c.fn, c.line)
            rs["gone"] = 1
        return [(st, None)]

    def finals(self, ip, st, fn, line):
        if ip.eq(st, ip.read(st, fld(THIS, "myState")), self.S["CLOSED"]) is not True:
            ip.report(st, "a close is told while the server does not look closed", fn, line)
        if ip.eq(st, ip.read(st, fld(THIS, "mySub")), 0) is not True:
            ip.report(st, "a closed server keeps its subscriber", fn, line)

    def delete(self, ip, st, val, node, fn, line):
        rs = st.rs
        v = ip.norm(st, val)
        if ip.eq(st, v, 0) is True:
            return
        if ip.eq(st, v, rs.get("bound", 0)) is True:
            self.count("deletes")
            if rs.get("deleted") or rs.get("posted"):
                ip.report(st, "a bound socket is deleted twice or while it is used by the task", fn, line)
            rs["deleted"] = 1
        elif v[0] != "L" if isinstance(v, tuple) else False:
            ip.report(st, "something unknown is deleted", fn, line)

    # ------------------------------------------------------------ ends
    def end(self, ip, st, val, fn, line):
        self.count("exits")
        self.fn, self.line = fn, line
        if self.held(st):
            self.bad(ip, st, "the lock is left taken")
        if st.rs.get("client") is not None:
            self.bad(ip, st, "an accepted client is lost")
        getattr(self, "x_" + self.what)(ip, st, val)

    def bad(self, ip, st, msg):
        ip.report(st, msg, self.fn, self.line)

    def is_state(self, ip, st, n):
        return ip.eq(st, ip.read(st, fld(THIS, "myState")), self.S[n]) is True

    def same(self, ip, st, n, v):
        return ip.eq(st, ip.norm(st, ip.read(st, fld(THIS, n))), v) is True

    def x_Listen(self, ip, st, val):
        rs = st.rs
        ok = rs.get("listen")
        if ok is None:
            self.bad(ip, st, "nothing is done")
            return
        if ip.truth(st, val) is not bool(ok):
            self.bad(ip, st, "a wrong result of listen is told")
        if ok:
            if not self.is_state(ip, st, "LISTENING") or not self.same(ip, st, "mySub", ip.norm(st, self.args[1])):
                self.bad(ip, st, "a listening server does not look like that: its close is not told")
            if len(rs.get("posted", ())) != 1 or ip.eq(st, rs["posted"][0][0], rs["bound"]) is not True or \
                    ip.eq(st, rs["posted"][0][1], addr(THIS)) is not True:
                self.bad(ip, st, "the bound socket is not given to the IO core once")
            if not self.same(ip, st, "myBoundSocket", 0):
                self.bad(ip, st, "a socket given to the IO core is kept: it is deleted twice")
            if not rs.get("PostWakeup"):
                self.bad(ip, st, "a listening server does not start to accept")
        else:
            if not self.is_state(ip, st, "BOUND") or not self.same(ip, st, "mySub", 0) or \
                    not self.same(ip, st, "myBoundSocket", rs["bound"]) or rs.get("posted") or rs.get("PostWakeup"):
                self.bad(ip, st, "a server which failed to listen is changed")
            if rs.get("deleted"):
                self.bad(ip, st, "a failure to listen deletes the socket")

    def x_Bind(self, ip, st, val):
        m = st.rs.get("made")
        if m is None:
            self.bad(ip, st, "nothing is done")
            return
        if ip.truth(st, val) is not (m != 0):
            self.bad(ip, st, "a wrong result of bind is told")
        if m == 0:
            if not self.is_state(ip, st, "NEW") or not self.same(ip, st, "myBoundSocket", 0):
                self.bad(ip, st, "a server which failed to bind is changed")
        elif not self.is_state(ip, st, "BOUND") or not self.same(ip, st, "myBoundSocket", m):
            self.bad(ip, st, "a bound socket is lost")

    def x_PostClose(self, ip, st, val):
        rs = st.rs
        if self.state == "LISTENING":
            if not self.is_state(ip, st, "CLOSING") or rs.get("PostClose") != 1:
                self.bad(ip, st, "a close of a listening server is lost")
            if not self.same(ip, st, "mySub", rs["sub"]):
                self.bad(ip, st, "the subscriber is lost: the close is not told")
        elif self.state == "CLOSING":
            if not self.is_state(ip, st, "CLOSING") or not self.same(ip, st, "mySub", rs["sub"]):
                self.bad(ip, st, "a repeated close breaks the one in progress")
        else:
            if not self.is_state(ip, st, "CLOSED"):
                self.bad(ip, st, "a server which does not listen is not closed")
            if rs.get("PostClose"):
                self.bad(ip, st, "a task is closed while it is not started")
            if self.state == "BOUND" and not rs.get("deleted"):
                self.bad(ip, st, "a bound socket is leaked")
            if not self.same(ip, st, "myBoundSocket", 0):
                self.bad(ip, st, "a deleted socket is kept: it is deleted twice")

    def x_OnEvent(self, ip, st, val):
        rs = st.rs
        if self.closed:
            if not rs.get("gone"):
                self.bad(ip, st, "a close is not told")
            return
        h = rs.get("how")
        if h is None:
            self.bad(ip, st, "nothing is accepted")
            return
        if rs.get("told", 0) != int(h == "client"):
            self.bad(ip, st, "an accepted client is lost")
        if h in ("client", "retry") and not rs.get("Reschedule"):
            self.bad(ip, st, "the server does not go on accepting: the next clients wait forever")
        if h == "wait" and rs.get("Reschedule"):
            self.bad(ip, st, "the server spins while there are no clients")

    def x_IsClosed(self, ip, st, val):
        if ip.truth(st, val) is not (self.state == "CLOSED"):
            self.bad(ip, st, "a wrong state is told")

    def x_dtor(self, ip, st, val):
        if self.state == "BOUND" and not st.rs.get("deleted"):
            self.bad(ip, st, "a bound socket is leaked")


@check("C09")
def c09(res):
    rn = "server"
    res.rule(rn, "state machine of the server walked from each state for each operation: what is told, given to the IO core, "
             "deleted; shared members only under the lock; nothing is touched after the close callback.")
    for cfg in CONFIGS:
        p = res.prog(cfg, ("aio",))

        def go(name, state, closed=False):
            f = p.fn(SRV + "::" + name)
            r = Server(p, name, state, closed)
            res.walk(p, r, f, rn, setup=r.setup(f))
        go("Bind", "NEW")
        go("Listen", "BOUND")
        for s in ("NEW", "BOUND", "LISTENING", "CLOSING", "CLOSED"):
            go("PostClose", s)
            go("IsClosed", s)
        go("OnEvent", "CLOSING", True)
        go("OnEvent", "LISTENING")
    for k, n in (("callbacks", 4), ("task_calls", 10), ("guarded", 20), ("deletes", 2), ("accepts", 2), ("listens", 2)):
        res.need(rn, k, n)
