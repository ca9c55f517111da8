"""C10-C15: TCP and TLS sockets of the IO core."""
import os

from ..core import check
from ..engine import addr, deref, under, root_of, INF
from ..ir import AnalysisBroken
from ..sysmodel import Sys

NS = "mg::aio::"
IF = NS + "TCPSocketIFace"
TCP = NS + "TCPSocket"
SSL = NS + "SSLSocket"
CTL = NS + "TCPSocketCtl"
SUB = NS + "TCPSocketSubscription"
TASK = NS + "IOTask"
EVENT = NS + "IOEvent"
THIS = ("name", "this")
GUARDED = ("myState", "mySub", "myIsRunning", "myIsReadyToStart", "myFrontSendQueue", "myFrontCtl")
WORKER = ("mySendQueue", "myRecvQueue", "myRecvSize", "mySendEvent", "myRecvEvent", "myWasHandshakeDone", "myCtl",
          "mySendOffset", "mySSL", "myEncSendQueue", "myEncRecvQueue", "mySentSize")
# Control steps: shutdown, attach, connect, handshake in progress, handshake object.
STEPS = ("sh", "at", "co", "ha", "ho")
STATES = ("NEW", "EMPTY", "CONNECTING", "HANDSHAKE", "CONNECTED", "CLOSING", "CLOSED")


def fld(r, n):
    return ("f", r, n)


MUTEX = fld(THIS, "myMutex")


class Sock(Sys):
    tags = None
    max_loop = 2
    # There is no data to send: only the control steps are of interest.
    quiet = False

    def __init__(self, p, cls, worker):
        super().__init__(p)
        self.cls = cls
        self.worker = worker
        e = p.enum(NS + "TCPSocketState")
        self.S = {n.replace("TCP_SOCKET_STATE_", ""): v for n, v in e.items()}
        if set(self.S) != set(STATES):
            raise AnalysisBroken("anchor vanished: states of a TCP socket")

    # ------------------------------------------------------------ reports
    def want(self, tag):
        return self.tags is None or any(t in self.tags for t in tag.split())

    def bad(self, ip, st, tag, msg, fn=None, line=None):
        if self.want(tag):
            ip.report(st, msg, fn or self.fn, line if fn else self.line)

    def err(self, ip, st, tag, msg, c):
        self.bad(ip, st, tag, msg, c.fn, c.line)

    # ------------------------------------------------------------ memory
    def get(self, ip, st, n, r=THIS):
        return ip.norm(st, ip.read(st, fld(r, n)))

    def is_(self, ip, st, n, v, r=THIS):
        return ip.eq(st, self.get(ip, st, n, r), v) is True

    def state_at_least(self, ip, st, n):
        return ip.lt(st, self.get(ip, st, "myState"), self.S[n])

    def closing(self, ip, st):
        """Is the state known to be closing or closed: True, False, None."""
        v = ip.lt(st, self.get(ip, st, "myState"), self.S["CLOSING"])
        return None if v is None else not v

    def load(self, ip, st, region, val, fn, line):
        super().load(ip, st, region, val, fn, line)
        self.access(ip, st, region, fn, line, False)

    def store(self, ip, st, region, val, fn, line):
        self.access(ip, st, region, fn, line, True)
        if region == fld(THIS, "myRecvSize") and self.op == "OnEvent" and st.rs.get("live"):
            self.request(ip, st, ip.norm(st, val), fn, line)

    def request(self, ip, st, v, fn, line):
        """The number of bytes to receive is changed."""
        rs = st.rs
        old = rs["recvsize"]
        rs["recvsize"] = v
        t = rs.get("taken")
        f = rs.get("front_taken")
        if t is not None and ip.eq(st, v, t) is True and ip.eq(st, old, 0) is True:
            rs["taken"] = None
        elif v == 0:
            if t is not None:
                self.bad(ip, st, "recv", "a request to receive is lost", fn, line)
            rs["taken"] = old
        elif f is not None and ip.eq(st, v, ip.arith(st, "+", old, f)) is True and not rs.get("front_used"):
            rs["front_used"] = True
        else:
            self.bad(ip, st, "recv", "the number of requested bytes is changed not by a request", fn, line)

    def member(self, region):
        while region[0] in ("f", "e"):
            if region[1] == THIS and region[0] == "f":
                return region[2]
            region = region[1]
        return None

    def touch(self, ip, st, region, fn, line, write=True):
        """A container of the socket is used."""
        self.access(ip, st, region, fn, line, write)

    def access(self, ip, st, region, fn, line, write):
        n = self.member(region)
        if n is None and region != THIS:
            return
        if st.rs.get("gone"):
            self.bad(ip, st, "close", "the socket is touched after its close was told: its owner deletes it there", fn, line)
        if n in GUARDED:
            self.count("guarded")
            if self.holds(st, MUTEX) or self.worker == "alone":
                return
            if n in ("mySub", "myIsRunning") and not write and self.worker == "in":
                # Changed only when the socket is started and by the worker itself.
                return
            self.bad(ip, st, "lock", "%s is used without the lock: other threads use it at the same time" % n, fn, line)
        elif n in WORKER and self.worker == "out" and not st.rs.get("in"):
            if n == "myWasHandshakeDone" and not write or n == "myRecvSize" and not write and self.opening:
                return
            if self.opening:
                return
            self.bad(ip, st, "lock", "%s belongs to the worker thread and is used out of it" % n, fn, line)

    opening = False

    # ------------------------------------------------------------ lock
    def on_lock(self, ip, st, m, fn, line):
        if m != MUTEX:
            return
        if st.rs.get("gone"):
            self.bad(ip, st, "close", "the socket is touched after its close was told: its owner deletes it there", fn, line)
        if self.worker == "in" and st.rs.get("live"):
            # Others may have closed it meanwhile.
            r = fld(THIS, "myState")
            v = ip.norm(st, ip.read(st, r))
            if isinstance(v, int) and v < self.S["CLOSING"]:
                t = ip.tok(st, ("state", fn.id, line))
                ip.refine(st, t, lo=v, hi=self.S["CLOSING"])
                for x in range(v + 1, self.S["CLOSING"]):
                    ip.refine(st, t, ne=x)
                st.store[r] = t
        st.rs["locks"] = min(st.rs.get("locks", 0) + 1, 9)

    def on_unlock(self, ip, st, m, fn, line):
        if m == MUTEX and st.rs.get("gone"):
            self.bad(ip, st, "close", "the socket is touched after its close was told: its owner deletes it there", fn, line)

    # ------------------------------------------------------------ calls
    def on_other(self, ip, st, c):
        q = c.qn
        rs = st.rs
        if q.startswith("mg::box::Assert"):
            return self.asserted(ip, st, c)
        if c.cls == TASK and c.obj == fld(THIS, "myTask"):
            return self.task(ip, st, c)
        if c.cls == SUB and c.name.startswith("On"):
            return self.callback(ip, st, c)
        if c.cls == CTL:
            return self.ctl(ip, st, c)
        if c.cls == "mg::net::BufferLinkList":
            return self.links(ip, st, c)
        if c.cls == "mg::net::BufferStream":
            return self.stream(ip, st, c)
        if c.cls and c.cls.startswith("mg::net::SSLStream"):
            return self.ssl(ip, st, c)
        if q == "mg::net::ErrorRaiseSSL":
            return self.make_error(ip, st, c, self.known(ip, st, ("t", ("sslerr",))))
        if c.cls == "mg::net::BufferReadStream" and c.kind == "ctor":
            st.store[fld(c.obj, "src")] = ("&", c.args[0][1]) if isinstance(c.args[0], tuple) and c.args[0][0] == "L" \
                else c.args[0]
            return [(st, ("L", c.obj))]
        if c.cls == "mg::net::Buffer" and c.name in ("PrivRef", "PrivUnref"):
            return [(st, None)]
        return None

    def asserted(self, ip, st, c):
        return None

    # ------------------------------------------------------------ task
    def task(self, ip, st, c):
        rs = st.rs
        n = c.name
        self.count("task_calls")
        if rs.get("gone"):
            self.err(ip, st, "close", "the socket is touched after its close was told: its owner deletes it there", c)
        if n == "IsInWorkerNow":
            if self.worker == "in":
                return [(st, 1)]
            if self.worker == "alone":
                return [(st, 0)]
            if "in" in rs:
                return [(st, int(rs["in"]))]
            s2 = st.copy()
            rs["in"] = True
            s2.rs["in"] = False
            return [(st, 1), (s2, 0)]
        if n == "IsClosed":
            if "closed" in rs:
                return [(st, int(rs["closed"]))]
            s2 = st.copy()
            rs["closed"], s2.rs["closed"] = True, False
            return [(st, 1), (s2, 0)]
        if n in ("PostWakeup", "PostClose", "Reschedule", "Post"):
            if n == "PostClose" and self.worker == "out" and not rs.get("in") and not self.holds(st, MUTEX):
                self.err(ip, st, "close", "the task is closed out of the lock: by then the socket can be reopened", c)
            if n == "PostWakeup" and rs.get("op") in ("start", "PostTask") and not rs.get("Post"):
                self.err(ip, st, "start", "a task is woken up before it is posted", c)
            if n == "Post":
                if not self.holds(st, MUTEX):
                    self.err(ip, st, "start", "the socket is started out of the lock: the worker can see it half-made", c)
                a = [self.arg(ip, st, c, i) for i in range(len(c.args))]
                if ip.eq(st, a[-1], addr(THIS)) is not True:
                    self.err(ip, st, "start", "a wrong subscriber of the task is posted", c)
            rs[n] = min(rs.get(n, 0) + 1, 3)
            if n == "Reschedule":
                rs["resched"] = True
            return [(st, None)]
        if n == "ProcessArgs":
            return self.process(ip, st, c)
        if n in ("Send", "Recv"):
            return self.io(ip, st, c)
        if n in ("GetSocket", "HasSocket", "GetCore", "SetDeadline", "IsExpired"):
            return None
        return None

    def process(self, ip, st, c):
        rs = st.rs
        if c.args[0] != self.args[0]:
            self.err(ip, st, "error", "wrong events are handled", c)
        rs["processed"] = True
        s2 = st.copy()
        self.new_error(ip, s2, c, c.args[1][1], "io")
        # Started operations are unlocked by their results.
        if rs["phase"] in ("shaking", "connected"):
            for e in ("mySendEvent", "myRecvEvent"):
                if not rs.get(("dead", e)):
                    self.any_event(ip, st, e, c)
        return [(st, 1), (s2, 0)]

    def any_event(self, ip, st, e, site):
        ev = fld(THIS, e)
        for n in ("myIsLocked", "myIsEmpty", "myIsError"):
            v = ip.tok(st, (e, n))
            ip.refine(st, v, lo=0, hi=1)
            st.store[fld(ev, n)] = v
        for n in ("myBytes", "myError"):
            v = ip.tok(st, (e, n))
            ip.refine(st, v, lo=0)
            st.store[fld(ev, n)] = v
        ip.refine(st, ip.norm(st, ip.read(st, fld(ev, "myError"))), ne=0)

    def new_error(self, ip, st, c, out, kind):
        """An error is put into an error pointer."""
        code = ("t", ("err", kind, c.ctx, c.sid))
        ip.refine(st, code, ne=0)
        e = ("o", ("error", code, 0))
        st.store[fld(e, "myCode")] = code
        if out is not None:
            st.store[fld(out, "myObject")] = addr(e)
        self.failed(ip, st, kind, code, c.fn, c.line)
        return code

    def failed(self, ip, st, kind, code, fn, line):
        """From now on the error must be told."""
        self.count("failures")
        old = st.rs.get("failure")
        if old is not None and not old[2]:
            self.settle(ip, st, fn, line)
        st.rs["failure"] = (kind, code, ())
        ip.note(st, fn, line, "a failure: " + kind)

    def settle(self, ip, st, fn, line):
        """The error must have been told by now."""
        f = st.rs.get("failure")
        if f is None:
            return
        kind, code, told = f
        want = {"send": ("OnSendError", "OnError"), "recv": ("OnRecvError", "OnError"),
                "connect": ("OnConnectError", "OnError")}.get(kind, ("OnError",))
        if told != want:
            if told or not st.rs.get("compromised"):
                self.bad(ip, st, "error", "a failure of %s is told as %s, not as %s" % (
                    kind, ", ".join(told) or "nothing", ", ".join(want)), fn, line)
        if self.closing(ip, st) is not True or not st.rs.get("PostClose"):
            self.bad(ip, st, "error close", "a failed socket is not closed: nobody is told of its end", fn, line)
        e = {"send": "mySendEvent", "recv": "myRecvEvent"}.get(kind)
        if e is not None and self.op == "OnEvent":
            if ip.truth(st, ip.read(st, fld(fld(THIS, e), "myIsLocked"))) is not True:
                self.bad(ip, st, "error", "after a failure of %s the socket goes on with it" % kind, fn, line)
        st.rs["failure"] = None

    # ------------------------------------------------------------ IO
    def io(self, ip, st, c):
        rs = st.rs
        send = c.name == "Send"
        self.count("sends" if send else "recvs")
        e = "mySendEvent" if send else "myRecvEvent"
        tag = "send" if send else "recv"
        ev = c.args[-1][1]
        if ev != fld(THIS, e):
            self.err(ip, st, tag, "a wrong event is used for an operation", c)
            return None
        if rs["phase"] in ("idle", "starting"):
            self.err(ip, st, "connect", "data is %s before the connection is made" % ("sent" if send else "received"), c)
        if ip.truth(st, ip.read(st, fld(ev, "myIsLocked"))) is not False or \
                ip.truth(st, ip.read(st, fld(ev, "myIsEmpty"))) is not True:
            self.err(ip, st, tag, "an operation is started before the result of the previous one is handled", c)
        self.eof(ip, st, e, c.fn, c.line)
        if rs.get(("unacc", e)) is not None:
            self.err(ip, st, tag, "an operation is started before the result of the previous one is accounted", c)
        if send:
            self.check_send(ip, st, c)
        else:
            self.check_recv(ip, st, c)
        res = []
        for how in ("bytes", "error", "locked") if not self.quiet else ("locked",):
            s = st.copy()
            s.store[fld(ev, "myIsLocked")] = int(how == "locked")
            s.store[fld(ev, "myIsEmpty")] = int(how == "locked")
            s.store[fld(ev, "myIsError")] = int(how == "error")
            v = ip.tok(s, (e, "res", c.ctx, c.sid))
            ip.refine(s, v, lo=1 if send or how == "error" else 0)
            s.store[fld(ev, "myError" if how == "error" else "myBytes")] = v
            s.rs[("io", e)] = how
            ip.note(s, c.fn, c.line, "%s: %s" % (c.name, how))
            res.append((s, int(how != "error")))
        return res

    def check_send(self, ip, st, c):
        rs = st.rs
        p = self.arg(ip, st, c, 0)
        off = self.arg(ip, st, c, 1)
        if self.cls == TCP:
            if rs.get("first") is None or ip.eq(st, p, rs["first"]) is not True:
                self.err(ip, st, "send", "not the first data of the queue is sent", c)
            if ip.eq(st, off, self.get(ip, st, "mySendOffset")) is not True:
                self.err(ip, st, "send", "a wrong offset in the queue is sent from: bytes are lost or repeated", c)
        else:
            if ip.eq(st, p, rs.get(("head", fld(THIS, "myEncSendQueue")), -1)) is not True or off != 0:
                self.err(ip, st, "send", "not the first data of the encrypted queue is sent", c)

    def check_recv(self, ip, st, c):
        rs = st.rs
        q = fld(THIS, "myRecvQueue" if self.cls == TCP else "myEncRecvQueue")
        if ip.eq(st, self.arg(ip, st, c, 0), rs.get(("wpos", q), -1)) is not True:
            self.err(ip, st, "recv", "data is received not into the end of the receive queue", c)
        n = rs.get(("room", q))
        r = self.get(ip, st, "myRecvSize")
        if self.cls == TCP or rs.get("hs") or ip.eq(st, r, 0) is False:
            if n is None or n != r and ip.eq(st, n, r) is not True:
                self.err(ip, st, "recv", "place is made for not as many bytes as requested", c)
            if ip.eq(st, r, 0) is not False:
                self.err(ip, st, "recv", "data is received without a request", c)
        elif n is None:
            self.err(ip, st, "recv", "there is no place to receive to", c)

    def enter(self, ip, st, f, ctx, this, args):
        if f.qn in (EVENT + "::PopBytes", EVENT + "::PopError"):
            for e in ("mySendEvent", "myRecvEvent"):
                if this == addr(fld(THIS, e)):
                    self.popped(ip, st, f, e)

    def popped(self, ip, st, f, e):
        rs = st.rs
        ev = fld(THIS, e)
        self.count("results")
        if f.name == "PopBytes":
            v = self.get(ip, st, "myBytes", ev)
            self.eof(ip, st, e, f, f.line)
            if rs.get(("unacc", e)) is not None:
                self.bad(ip, st, "send" if e == "mySendEvent" else "recv", "a result of an operation is lost", f, f.line)
            rs[("unacc", e)] = (v, ())
            if e == "myRecvEvent" and self.cls == TCP and rs.get(("io", e)) is None:
                # A receive in progress has a request (see the end of the walk).
                ip.refine(st, self.get(ip, st, "myRecvSize"), ne=0)
        else:
            v = self.get(ip, st, "myError", ev)
            self.failed(ip, st, "send" if e == "mySendEvent" else "recv", v, f, f.line)

    def account(self, ip, st, e, what, v, c):
        """A result is applied."""
        rs = st.rs
        tag = "send" if e == "mySendEvent" else "recv"
        u = rs.get(("unacc", e))
        if u is None or what in u[1]:
            self.err(ip, st, tag, "%s is done for no result of an operation" % what, c)
            return
        if ip.eq(st, v, u[0]) is not True:
            self.err(ip, st, tag, "%s is done for a wrong number of bytes" % what, c)
        u = (u[0], u[1] + (what,))
        need = self.needs(e)
        rs[("unacc", e)] = None if set(u[1]) >= need else u

    def needs(self, e):
        if e == "mySendEvent":
            return {"SkipData", "OnSend"} if self.cls == TCP else {"SkipData"}
        return {"PropagateWritePos", "OnRecv"} if self.cls == TCP else {"PropagateWritePos", "AppendNetInputRef"}

    def eof(self, ip, st, e, fn, line):
        """An end of the data must have been handled."""
        rs = st.rs
        u = rs.get(("unacc", e))
        if u is None or e != "myRecvEvent" or ip.eq(st, u[0], 0) is not True:
            return
        if u[1]:
            self.bad(ip, st, "recv", "an end of the data is handled as data", fn, line)
        if self.closing(ip, st) is not True or not rs.get("PostClose"):
            self.bad(ip, st, "recv close", "a socket closed by the peer is not closed", fn, line)
        rs[("unacc", e)] = None

    def unaccounted(self, ip, st):
        rs = st.rs
        for e, tag in (("mySendEvent", "send"), ("myRecvEvent", "recv")):
            self.eof(ip, st, e, self.fn, self.line)
            u = rs.get(("unacc", e))
            if u is None:
                continue
            self.bad(ip, st, tag, "a result of an operation is not accounted: %s" % (
                "sent data is sent again" if tag == "send" else "received data is lost"))
        if rs.get("compromised") and rs.get("failure") is None and self.closing(ip, st) is True:
            return
        if rs.get("taken") is not None and ip.eq(st, rs["taken"], 0) is not True:
            self.bad(ip, st, "recv", "a request to receive is lost")
        if rs.get("front_taken") is not None and not rs.get("front_used") and ip.eq(st, rs["front_taken"], 0) is not True:
            self.bad(ip, st, "recv", "a request to receive from another thread is lost")
        if rs.get("popped") or rs.get("undelivered") and rs.get(("empty", fld(THIS, "myRecvQueue"))) is not True:
            self.bad(ip, st, "recv", "received data is not told")
        if self.cls == SSL:
            e = self.get(ip, st, "myHasEncrypted")
            if rs.get("undec") and ip.eq(st, e, 1) is not True:
                self.bad(ip, st, "recv", "received data is not decrypted and is forgotten")

    # ------------------------------------------------------------ queues
    def links(self, ip, st, c):
        rs = st.rs
        n = c.name
        q = c.obj
        if c.kind == "ctor" or n.startswith("~"):
            return [(st, ("L", q) if c.kind == "ctor" else None)]
        m = self.member(q)
        if m is None:
            return None
        self.count("queue_ops")
        self.touch(ip, st, q, c.fn, c.line, n not in ("IsEmpty", "GetFirst"))
        if n == "IsEmpty":
            e = rs.get(("empty", q))
            if self.quiet and n == "IsEmpty" and q == fld(THIS, "mySendQueue"):
                e = True
            if e is not None:
                return [(st, int(e))]
            s2 = st.copy()
            rs[("empty", q)], s2.rs[("empty", q)] = True, False
            return [(st, 1), (s2, 0)]
        if n == "AppendMove":
            rs["appended"] = rs.get("appended", ()) + ((q, self.arg(ip, st, c, 0), rs.get(("empty", q)), self.held(st),
                                                        rs.get("locks", 0)),)
            rs[("empty", q)] = False
            return [(st, None)]
        if n == "Append":
            src = c.args[0][1]
            if q != fld(THIS, "mySendQueue") or src != fld(THIS, "myFrontSendQueue"):
                self.err(ip, st, "send", "data to send is put into a wrong queue or place", c)
            self.touch(ip, st, src, c.fn, c.line)
            if rs.get(("empty", src)) is not True:
                if rs.get(("empty", q)) is not False:
                    rs[("empty", q)] = None if rs.get(("empty", src)) is None else False
            rs[("empty", src)] = True
            rs["merged"] = True
            return [(st, None)]
        if n == "Clear":
            rs[("empty", q)] = True
            rs[("cleared", q)] = True
            return [(st, None)]
        if n == "SkipEmptyPrefix":
            # Nothing but empty buffers is dropped.
            if self.cls == TCP and c.args[0][1] != fld(THIS, "mySendOffset"):
                self.err(ip, st, "send", "a wrong offset is used", c)
            if rs.get(("empty", q)) is False:
                rs[("empty", q)] = None
            rs[("prefix", q)] = True
            return [(st, None)]
        if n == "GetFirst":
            e = rs.get(("empty", q))
            if self.quiet:
                e = True
            res = []
            if e is not True:
                s = st.copy()
                s.rs[("empty", q)] = False
                v = ip.tok(s, ("link", c.ctx, c.sid))
                ip.refine(s, v, ne=0)
                if not rs.get(("prefix", q)):
                    s.rs["rawfirst"] = True
                s.rs["first"] = v
                self.new_link(ip, s, v)
                res.append((s, v))
            if e is not False:
                st.rs[("empty", q)] = True
                st.rs["first"] = None
                res.append((st, 0))
            return res
        if n == "SkipData":
            self.skip(ip, st, c, q)
            rs[("empty", q)] = None
            rs[("prefix", q)] = False
            rs["first"] = None
            return [(st, None)]
        if n == "PopFirst":
            self.err(ip, st, "send", "data to send is dropped", c)
            return [(st, 0)]
        if n.startswith("Append"):
            return None
        return None

    def new_link(self, ip, st, v):
        if self.cls != SSL:
            return
        b = ip.tok(st, ("buf", v))
        ip.refine(st, b, ne=0)
        st.store[fld(fld(deref(v), "myHead"), "myObject")] = b
        n = ip.tok(st, ("pos", v))
        ip.refine(st, n, lo=1, hi=0xffffffff)
        st.store[fld(deref(b), "myPos")] = n
        st.rs["link"] = (b, n)

    def skip(self, ip, st, c, q):
        rs = st.rs
        v = self.arg(ip, st, c, 1)
        if self.cls == TCP:
            if c.args[0][1] != fld(THIS, "mySendOffset"):
                self.err(ip, st, "send", "a wrong offset is used", c)
            self.account(ip, st, "mySendEvent", "SkipData", v, c)
            return
        # TLS: the data must be given to the encryption first.
        l = rs.get("link")
        enc = rs.get("enc")
        if enc is None or l is None or enc[0] != l[0] or ip.eq(st, v, enc[1]) is not True:
            self.err(ip, st, "send", "not the same data is removed from the queue as was given to the encryption", c)
        rs["enc"] = None
        rs["link"] = None
        rs[("alloff", self.region_off(c))] = None
        # A whole buffer was removed.
        st.store[c.args[0][1]] = 0

    def region_off(self, c):
        return c.args[0][1]

    def stream(self, ip, st, c):
        rs = st.rs
        n = c.name
        q = c.obj
        if c.kind == "ctor" or n.startswith("~"):
            return [(st, ("L", q) if c.kind == "ctor" else None)]
        m = self.member(q)
        if m is None:
            return None
        self.count("queue_ops")
        self.touch(ip, st, q, c.fn, c.line, n not in ("IsEmpty", "GetReadSize", "GetReadPos", "GetWritePos"))
        if n == "IsEmpty":
            e = rs.get(("empty", q))
            if e is not None:
                return [(st, int(e))]
            s2 = st.copy()
            rs[("empty", q)], s2.rs[("empty", q)] = True, False
            return [(st, 1), (s2, 0)]
        if n == "Clear":
            rs[("empty", q)] = True
            rs[("cleared", q)] = True
            return [(st, None)]
        if n == "EnsureWriteSize":
            rs[("room", q)] = self.arg(ip, st, c, 0)
            rs[("wpos", q)] = None
            rs[("empty", q)] = None
            return [(st, None)]
        if n == "GetWritePos":
            v = ip.tok(st, ("wpos", c.ctx, c.sid))
            ip.refine(st, v, ne=0)
            rs[("wpos", q)] = v
            return [(st, v)]
        if n == "PropagateWritePos":
            want = fld(THIS, "myRecvQueue" if self.cls == TCP else "myEncRecvQueue")
            if q != want:
                self.err(ip, st, "recv", "received data is put into a wrong queue", c)
            self.account(ip, st, "myRecvEvent", "PropagateWritePos", self.arg(ip, st, c, 0), c)
            rs[("empty", q)] = False
            rs[("wpos", q)] = None
            return [(st, None)]
        if n == "PopData":
            rs[("empty", q)] = True
            r = ("o", ("data", c.ctx, c.sid))
            ip.drop_under(st, r)
            st.store[("f", r, "myObject")] = ("t", ("popped", q))
            if rs.get(("unacc", "myRecvEvent")) is None or "PropagateWritePos" not in rs[("unacc", "myRecvEvent")][1]:
                self.err(ip, st, "recv", "data is taken before it is received", c)
            return [(st, ("L", r))]
        if n == "WriteRef":
            v = ip.norm(st, ip.read(st, fld(c.args[0][1], "myObject")))
            if q == fld(THIS, "myRecvQueue"):
                if v != ("t", ("appout",)):
                    self.err(ip, st, "recv", "not the decrypted data is given to the user", c)
                rs["undelivered"] = True
                rs["popped"] = False
                if rs.get(("empty", q)) is not False:
                    rs[("empty", q)] = None
            elif q == fld(THIS, "myEncSendQueue"):
                if v != ("t", ("netout",)):
                    self.err(ip, st, "send", "not the encrypted data is put into the queue to send", c)
                rs["netout"] = None
                v = ip.tok(st, ("size", q, c.ctx, c.sid))
                # What was given to the encryption before is in its output now.
                old = rs.get(("size", q))
                lo = ip.bounds(st, old)[0] if old is not None else 0
                ip.refine(st, v, lo=max(lo, int(bool(rs.get("encany") or ip.lt(st, 0, rs.get("sent0", 0)) is True))))
                rs[("size", q)] = v
                rs[("head", q)] = None
            else:
                self.err(ip, st, "send", "data is put into a wrong queue", c)
            return [(st, None)]
        if n == "GetReadSize":
            v = rs.get(("size", q))
            if v is None:
                v = ip.tok(st, ("size", q, c.ctx, c.sid))
                ip.refine(st, v, lo=0)
                rs[("size", q)] = v
            return [(st, v)]
        if n == "GetReadPos":
            v = ip.tok(st, ("rpos", c.ctx, c.sid))
            rs[("head", q)] = v
            return [(st, v)]
        if n == "SkipData":
            if q == fld(THIS, "myEncSendQueue"):
                self.account(ip, st, "mySendEvent", "SkipData", self.arg(ip, st, c, 0), c)
                rs[("size", q)] = None
                rs[("head", q)] = None
            else:
                self.err(ip, st, "recv", "received data is dropped", c)
            return [(st, None)]
        return None

    def ssl(self, ip, st, c):
        rs = st.rs
        n = c.name
        self.count("ssl_calls")
        if c.kind == "ctor" or n.startswith("~"):
            return None
        if n == "AppendNetInputRef":
            v = ip.norm(st, ip.read(st, fld(c.args[0][1], "myObject")))
            if v != ("t", ("popped", fld(THIS, "myEncRecvQueue"))):
                self.err(ip, st, "recv", "not the received data is decrypted", c)
            else:
                self.account(ip, st, "myRecvEvent", "AppendNetInputRef", (rs.get(("unacc", "myRecvEvent")) or (0,))[0], c)
            rs["undec"] = True
            rs["sslok"] = None
            return [(st, None)]
        if n == "PopAppOutput":
            u = rs.get(("unacc", "myRecvEvent"))
            if u is not None:
                self.err(ip, st, "recv", "data is decrypted before it is received", c)
            if not rs.get("hs"):
                self.err(ip, st, "connect tls", "data is decrypted for the user before the connection is told", c)
            if rs.get("popped"):
                self.err(ip, st, "recv", "decrypted data is lost", c)
            rs["popped"] = True
            rs["undec"] = False
            st.store[fld(c.args[0][1], "myObject")] = ("t", ("appout",))
            rs["sslok"] = None
            v = ip.tok(st, ("appsize", c.ctx, c.sid))
            ip.refine(st, v, lo=0)
            return [(st, v)]
        if n == "HasError":
            if rs.get("sslok") is not None:
                return [(st, int(not rs["sslok"]))]
            s2 = st.copy()
            rs["sslok"], s2.rs["sslok"] = False, True
            self.failed(ip, st, "recv", ("t", ("sslerr",)), c.fn, c.line)
            ip.refine(st, ("t", ("sslerr",)), ne=0)
            return [(st, 1), (s2, 0)]
        if n == "GetError":
            v = ("t", ("sslcode",))
            return [(st, v)]
        if n in ("IsEncrypted", "IsConnected"):
            if rs.get(n) is not None:
                return [(st, int(rs[n]))]
            s2 = st.copy()
            rs[n], s2.rs[n] = True, False
            return [(st, 1), (s2, 0)]
        if n == "Update":
            s2 = st.copy()
            self.failed(ip, s2, "recv" if c.fn.name != "PrivHandshake" else "handshake", ("t", ("sslerr",)), c.fn, c.line)
            ip.refine(s2, ("t", ("sslerr",)), ne=0)
            rs["IsConnected"] = None
            return [(st, 1), (s2, 0)]
        if n == "AppendAppInputCopy":
            self.count("encrypted")
            l = rs.get("link")
            size = self.arg(ip, st, c, 1)
            if l is None or ip.eq(st, self.arg(ip, st, c, 0), self.get(ip, st, "myRData", deref(l[0]))) is not True or \
                    ip.eq(st, size, l[1]) is not True:
                self.err(ip, st, "send", "not the whole first buffer of the queue is encrypted", c)
            if rs.get("enc") is not None:
                self.err(ip, st, "send", "data is encrypted twice", c)
            if self.op == "OnEvent" and not rs.get("hs"):
                self.err(ip, st, "tls", "user's data is given to the encryption before the handshake is done", c)
            rs["enc"] = (l and l[0], size)
            s = rs.get("encsum", 0)
            rs["encsum"] = ip.arith(st, "+", s, size) if s is not None else None
            rs["encn"] = min(rs.get("encn", 0) + 1, 4)
            rs["encany"] = True
            if rs["encn"] > 2:
                rs["encsum"] = None
            return [(st, None)]
        if n == "PopNetOutput":
            st.store[fld(c.args[0][1], "myObject")] = ("t", ("netout",))
            if rs.get("netout"):
                self.err(ip, st, "send", "encrypted data is lost", c)
            rs["netout"] = True
            v = ip.tok(st, ("netsize", c.ctx, c.sid))
            ip.refine(st, v, lo=0)
            return [(st, v)]
        if n == "Connect":
            rs["ssl_connect"] = True
            return [(st, None)]
        return None

    # ------------------------------------------------------------ control steps
    def steps(self, st, r):
        return st.rs.get(("ctl", r), (0, 0, 0, 0, 0))

    def set_steps(self, st, r, **kw):
        s = list(self.steps(st, r))
        for k, v in kw.items():
            s[STEPS.index(k)] = v
        st.rs[("ctl", r)] = tuple(s)

    def ctl(self, ip, st, c):
        rs = st.rs
        n = c.name
        r = c.obj
        self.count("ctl_calls")
        s = dict(zip(STEPS, self.steps(st, r)))
        if c.kind == "ctor":
            rs[("ctl", r)] = (0, 0, 0, 0, 0)
            if ip.eq(st, self.arg(ip, st, c, 0), addr(fld(THIS, "myTask"))) is not True:
                self.err(ip, st, "start", "control steps are made for a wrong task", c)
            return [(st, ("L", r))]
        if n.startswith("~"):
            return [(st, None)]
        if rs.get(("dead", r)):
            self.err(ip, st, "start", "deleted control steps are used", c)
        if n in ("AddConnect", "AddAttach", "AddHandshake", "AddShutdown"):
            k = {"AddConnect": "co", "AddAttach": "at", "AddHandshake": "ho", "AddShutdown": "sh"}[n]
            if not self.holds(st, MUTEX):
                self.err(ip, st, "lock", "control steps are changed without the lock", c)
            if r != deref(self.get(ip, st, "myFrontCtl")):
                self.err(ip, st, "start", "a control step is put into a wrong place: it is not made", c)
            if n != "AddShutdown":
                rs[("arg", n)] = c.args[0]
                if n == "AddConnect":
                    x = c.args[0][1]
                    rs["params"] = tuple(ip.norm(st, ip.read(st, fld(x, f))) for f in ("mySocket", "myAddrFamily"))
                    rs["params_r"] = x
            self.set_steps(st, r, **{k: 1})
            return [(st, None)]
        if self.worker == "in" and n != "MergeFrom" and self.holds(st, MUTEX) and n.startswith("Do"):
            self.err(ip, st, "lock", "a control step is made under the lock", c)
        if n == "MergeFrom":
            src = deref(self.arg(ip, st, c, 0))
            o = dict(zip(STEPS, self.steps(st, src)))
            self.set_steps(st, r, **{k: int(s[k] or o[k]) for k in STEPS})
            rs[("dead", src)] = True
            rs[("ctl", src)] = (0, 0, 0, 0, 0)
            return [(st, None)]
        if n.startswith("Has"):
            return [(st, s[{"HasShutdown": "sh", "HasAttach": "at", "HasConnect": "co", "HasHandshake": "ha"}[n]])]
        if n == "IsIdle":
            return [(st, int(not any(s.values())))]
        if n == "DoShutdown":
            if not s["sh"]:
                self.err(ip, st, "start", "a shutdown is made without a request", c)
            if s["co"]:
                return [(st, 1)]
            self.set_steps(st, r, sh=0)
            s2 = st.copy()
            self.new_error(ip, s2, c, c.args[0][1], "shutdown")
            rs["shutdown_done"] = True
            return [(st, 1), (s2, 0)]
        if n == "DoAttach":
            self.set_steps(st, r, at=0, ha=1)
            rs["phase"] = "made"
            return [(st, None)]
        if n == "DoConnect":
            s2, s3 = st.copy(), st.copy()
            self.set_steps(s2, r, co=0)
            self.new_error(ip, s2, c, c.args[0][1], "connect")
            self.set_steps(s3, r, co=0, ha=1)
            s3.rs["phase"] = "made"
            ip.note(s3, c.fn, c.line, "connected")
            return [(st, 1), (s2, 0), (s3, 1)]
        if n == "DoHandshake":
            if ip.bounds(st, self.get(ip, st, "myState"))[0] < self.S["HANDSHAKE"]:
                self.err(ip, st, "connect", "a handshake is made while the socket looks not connected yet", c)
            if not s["ho"]:
                self.set_steps(st, r, ha=0)
                rs["shaken"] = True
                return [(st, None)]
            s2, s3 = st.copy(), st.copy()
            self.set_steps(s2, r, ha=0, ho=0)
            s2.rs["shaken"] = True
            # Failed: the socket is closed by the callback (has a walk of its own).
            s3.store[fld(THIS, "myState")] = self.S["CLOSING"]
            s3.rs["PostClose"] = 1
            s3.rs["compromised"] = True
            return [(st, None), (s2, None), (s3, None)]
        return None

    def delete(self, ip, st, val, node, fn, line):
        rs = st.rs
        v = ip.norm(st, val)
        if ip.eq(st, v, 0) is True:
            return
        if not isinstance(v, tuple):
            return
        r = deref(v)
        if ("ctl", r) in rs:
            if rs.get(("dead", r)):
                self.bad(ip, st, "close start", "control steps are deleted twice", fn, line)
            rs[("dead", r)] = True
            if any(self.steps(st, r)) and rs.get("live"):
                self.bad(ip, st, "start", "a control step is dropped", fn, line)
            self.count("deletes")
        elif self.args and ip.eq(st, v, self.arg0(ip, st)) is True:
            rs["freed"] = True

    def arg0(self, ip, st):
        a = self.args[0]
        return ip.norm(st, a) if a is not None and not (isinstance(a, tuple) and a[0] == "L") else -1

    # ------------------------------------------------------------ callbacks
    def callback(self, ip, st, c):
        rs = st.rs
        n = c.name
        self.count("callbacks")
        if self.held(st):
            self.err(ip, st, "lock close", "a callback is called under a lock: a call of the socket from it is a deadlock", c)
        if ip.eq(st, addr(c.obj), rs.get("sub")) is not True:
            self.err(ip, st, "close", "a wrong subscriber is called", c)
        if rs.get("gone"):
            self.err(ip, st, "close", "a callback is called after the close was told", c)
        if rs.get("closed") and n != "OnClose":
            self.err(ip, st, "close", "a callback is called for a closed socket", c)
        getattr(self, "cb_" + n, lambda *a: None)(ip, st, c)
        if n == "OnClose":
            return [(st, None)]
        # The callback can do anything allowed there: send, request receives, close.
        rs[("empty", fld(THIS, "mySendQueue"))] = None if rs.get(("empty", fld(THIS, "mySendQueue"))) is not False else False
        if n == "OnRecv":
            rs[("empty", fld(THIS, "myRecvQueue"))] = None
        old = self.get(ip, st, "myRecvSize")
        v = ip.tok(st, ("reqs", c.ctx, c.sid))
        b = ip.bounds(st, old)
        ip.refine(st, v, lo=b[0])
        st.store[fld(THIS, "myRecvSize")] = rs["recvsize"] = v
        if n == "OnEvent" and rs["phase"] == "idle" and rs.get("natural"):
            # A connect is started right here.
            s2 = st.copy()
            s2.store[fld(THIS, "myState")] = self.S["CONNECTING"]
            f = self.get(ip, s2, "myFrontCtl")
            r = deref(f) if f != 0 else ("name", "newctl")
            s2.store[fld(THIS, "myFrontCtl")] = addr(r)
            self.set_steps(s2, r, co=1)
            s2.rs["phase"] = "starting"
            return [(st, None), (s2, None)]
        return [(st, None)]

    def cb_OnClose(self, ip, st, c):
        rs = st.rs
        if not rs.get("closed"):
            self.err(ip, st, "close", "a close is told before the end of it", c)
        self.finals(ip, st, c)
        rs["gone"] = True

    def finals(self, ip, st, c):
        rs = st.rs
        if not self.is_(ip, st, "myState", self.S["CLOSED"]):
            self.err(ip, st, "close", "a close is told while the socket does not look closed", c)
        for n in ("mySub", "myFrontCtl", "myCtl", "myWasHandshakeDone", "myIsRunning", "myRecvSize", "myFrontRecvSize"):
            v = fld(THIS, n)
            if n == "myFrontRecvSize":
                ok = rs.get("front_recv") == 0
            else:
                ok = self.is_(ip, st, n, 0)
            if not ok:
                self.err(ip, st, "close", "%s is not reset by the time the close is told: it gets into the next life of the "
                                          "socket" % n, c)
        for n in ("mySendQueue", "myRecvQueue", "myFrontSendQueue"):
            if rs.get(("empty", fld(THIS, n))) is not True:
                self.err(ip, st, "close", "%s is not emptied by the time the close is told: it gets into the next life of the "
                                          "socket" % n, c)
        for n in ("mySendEvent", "myRecvEvent"):
            e = fld(THIS, n)
            if not (self.is_(ip, st, "myIsEmpty", 1, e) and self.is_(ip, st, "myIsError", 0, e) and
                    self.is_(ip, st, "myIsLocked", 1, e)):
                self.err(ip, st, "close", "%s is not reset by the time the close is told" % n, c)
        for k in ("ctl0", "front0"):
            if rs.get(k) and not rs.get(("dead", rs[k])):
                self.err(ip, st, "close", "control steps of a closed socket are leaked: with a socket and a resolve in them", c)

    def cb_OnConnect(self, ip, st, c):
        rs = st.rs
        if rs.get("hs") or rs.get("told_connect"):
            self.err(ip, st, "connect", "a connection is told twice", c)
        if not rs.get("shaken"):
            self.err(ip, st, "connect", "a connection is told before the handshake is done", c)
        if ip.truth(st, ip.read(st, fld(THIS, "myWasHandshakeDone"))) is not True:
            self.err(ip, st, "connect", "a connection is told while it does not look made: the data sent in the callback waits", c)
        if self.closing(ip, st) is not True and not self.connected(ip, st):
            self.err(ip, st, "connect", "a connection is told while the socket does not look connected", c)
        rs["told_connect"] = True
        rs["hs"] = True
        rs["phase"] = "connected"

    def connected(self, ip, st):
        v = self.get(ip, st, "myState")
        b = ip.bounds(st, v)
        return b[0] >= self.S["CONNECTED"]

    def data_cb(self, ip, st, c):
        if not st.rs.get("hs"):
            self.err(ip, st, "connect", "%s is called before the connection is told" % c.name, c)

    def cb_OnSend(self, ip, st, c):
        self.data_cb(ip, st, c)
        v = self.arg(ip, st, c, 0)
        if self.cls == TCP:
            self.account(ip, st, "mySendEvent", "OnSend", v, c)
            if st.rs.get(("unacc", "mySendEvent")) is not None:
                self.err(ip, st, "send", "sent data is told before it is removed from the queue", c) if 0 else None
        else:
            s = self.get(ip, st, "mySentSize")
            self.fn, self.line = c.fn, c.line
            self.sum(ip, st)
            self.reported(ip, st)
            full = ip.eq(st, v, s) is True
            st.rs["sent_told"] = 0 if full else ip.norm(st, ip.arith(st, "-", s, v))
            st.rs["encany"] = True
            st.rs["sent0"], st.rs["encsum"], st.rs["encn"] = st.rs["sent_told"], 0, 0
            if ip.eq(st, v, s) is not True and not (v == 0xffffffff and ip.lt(st, 0xffffffff, s) is True):
                self.err(ip, st, "send", "a wrong number of sent bytes is told", c)

    def sum(self, ip, st):
        """Sent bytes are counted."""
        rs = st.rs
        v = self.get(ip, st, "mySentSize")
        if rs.get("encn", 0) > 1 or rs.get("encsum", 0) is None or v[:1] == ("t",) and v[1][:1] == ("w",):
            return
        if not self.linear(ip, st, self.get(ip, st, "mySentSize"), rs["sent0"], rs.get("encsum", 0)):
            self.bad(ip, st, "send", "not as many bytes are counted as sent as were taken")

    def linear(self, ip, st, v, a, b):
        return sorted(terms(v), key=repr) == sorted(terms(a) + terms(b), key=repr)

    def reported(self, ip, st):
        """The told bytes are not counted anymore, and others are."""
        want = st.rs.get("sent_told")
        if want is None or st.rs.get("encn", 0):
            return
        v = ip.norm(st, self.get(ip, st, "mySentSize"))
        if v != want and ip.eq(st, v, want) is not True:
            self.bad(ip, st, "send", "the bytes told as sent are not exactly those which are not counted anymore")

    def cb_OnRecv(self, ip, st, c):
        rs = st.rs
        self.data_cb(ip, st, c)
        src = ip.norm(st, ip.read(st, fld(c.args[0][1], "src")))
        if src != addr(fld(THIS, "myRecvQueue")):
            self.err(ip, st, "recv", "wrong data is told as received", c)
        if self.cls == TCP:
            u = rs.get(("unacc", "myRecvEvent"))
            if u is None or "PropagateWritePos" not in u[1]:
                self.err(ip, st, "recv", "data is told before it is in the queue, or without new data", c)
            else:
                self.account(ip, st, "myRecvEvent", "OnRecv", u[0], c)
        if ip.eq(st, self.get(ip, st, "myRecvSize"), 0) is not True:
            self.err(ip, st, "recv", "a satisfied request is not removed before its data is told: more is read than asked for", c)
        if rs.get("taken") is None or ip.eq(st, rs["taken"], 0) is not False:
            self.err(ip, st, "recv", "data is told without a request for it", c)
        rs["taken"] = None
        rs["undelivered"] = False

    def told(self, ip, st, c):
        rs = st.rs
        n = c.name
        f = rs.get("failure")
        if f is None:
            self.err(ip, st, "error", "%s is called without a failure" % n, c)
            return
        kind, code, told = f
        if n in told:
            self.err(ip, st, "error", "a failure is told twice", c)
        if self.code_of(ip, st, self.arg(ip, st, c, 0)) != code:
            self.err(ip, st, "error", "a wrong error is told", c)
        if self.closing(ip, st) is not False:
            self.err(ip, st, "error", "a failure of a socket is told while it is being closed, or for a second time", c)
        rs["failure"] = (kind, code, told + (n,))

    cb_OnError = cb_OnSendError = cb_OnRecvError = cb_OnConnectError = told

    def leave(self, ip, st, f, ctx, ret):
        if f.qn == IF + "::PrivIsCompromised" and ip.truth(st, ret) is True:
            pass

    # ------------------------------------------------------------ atomics
    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        rs = st.rs
        if region == fld(THIS, "myFrontRecvSize") or under(region, fld(THIS, "myFrontRecvSize")):
            self.count("atomics")
            if rs.get("gone"):
                self.bad(ip, st, "close", "the socket is touched after its close was told: its owner deletes it there", fn, line)
            if op == "store":
                rs["front_recv"] = operand
            elif op == "xchg":
                rs["front_recv"] = operand
                rs["front_taken"] = result
            elif op.startswith("rmw"):
                rs["front_added"] = (operand, result)


KINDS = {"locked": (1, None, None), "empty": (0, 1, None), "bytes": (0, 0, 0), "error": (0, 0, 1)}


class Event(Sock):
    """OnEvent of a socket."""
    op = "OnEvent"

    # The state of the event of that direction, None - any.
    kind = None

    # Which directions have something to do: "ctl" - none, only the control steps, "recv", "send", "both".
    def __init__(self, p, cls, phase, natural, closed, ctl, front, mode):
        super().__init__(p, cls, "in")
        self.phase, self.natural, self.isclosed, self.c0, self.f0 = phase, natural, closed, ctl, front
        self.mode = mode
        self.quiet = cls == SSL and mode == "ctl"
        if cls == SSL:
            self.max_loop = 1

    def any_event(self, ip, st, e, site):
        d = "send" if e == "mySendEvent" else "recv"
        if self.mode in (d, "both"):
            super().any_event(ip, st, e, site)
            if self.kind is not None:
                for n, v in zip(("myIsLocked", "myIsEmpty", "myIsError"), KINDS[self.kind]):
                    if v is not None:
                        st.store[fld(fld(THIS, e), n)] = v
            return
        ev = fld(THIS, e)
        idle = self.mode == "send" and self.phase == "connected"
        for n, v in (("myIsLocked", int(not idle)), ("myIsEmpty", 1), ("myIsError", 0)):
            st.store[fld(ev, n)] = v
        if idle:
            st.store[fld(THIS, "myRecvSize")] = 0

    def setup(self, f):
        def fn(ip, st, this, args):
            rs = st.rs
            self.args = args
            ip.settype(THIS, self.cls)
            rs["phase"] = self.phase
            rs["natural"] = self.natural
            rs["closed"] = self.isclosed
            rs["live"] = not self.isclosed
            hs = self.phase == "connected"
            rs["hs"] = hs
            st.store[fld(THIS, "myWasHandshakeDone")] = int(hs)
            st.store[fld(THIS, "myIsRunning")] = 1
            st.store[fld(THIS, "myIsReadyToStart")] = 0
            nat = {"idle": "EMPTY", "starting": "CONNECTING", "shaking": "HANDSHAKE", "connected": "CONNECTED"}[self.phase]
            st.store[fld(THIS, "myState")] = self.S[nat if self.natural else "CLOSING"]
            if not self.natural:
                rs["compromised"] = True
            s = ip.norm(st, ip.read(st, fld(THIS, "mySub")))
            ip.refine(st, s, ne=0)
            rs["sub"] = s
            for n, k, v in (("myCtl", "ctl0", self.c0), ("myFrontCtl", "front0", self.f0)):
                if v is None:
                    st.store[fld(THIS, n)] = 0
                else:
                    r = ("name", n)
                    st.store[fld(THIS, n)] = addr(r)
                    rs[("ctl", r)] = v
                    rs[k] = r
            for e in ("mySendEvent", "myRecvEvent"):
                ev = fld(THIS, e)
                if self.phase in ("idle", "starting"):
                    for n, v in (("myIsLocked", 1), ("myIsEmpty", 1), ("myIsError", 0)):
                        st.store[fld(ev, n)] = v
                else:
                    self.any_event(ip, st, e, None)
            r0 = ip.norm(st, ip.read(st, fld(THIS, "myRecvSize")))
            ip.refine(st, r0, lo=0)
            rs["recvsize"] = r0
            if self.cls == SSL:
                v = self.get(ip, st, "mySentSize")
                ip.refine(st, v, lo=0)
                if self.quiet:
                    st.store[fld(THIS, "mySentSize")] = v = 0
                rs["sent0"] = v
                if not hs:
                    st.store[fld(THIS, "mySentSize")] = 0
                    rs["sent0"] = 0
                s = self.get(ip, st, "mySSL")
                ip.refine(st, s, ne=0)
                if self.phase in ("idle", "starting") or self.mode != "recv":
                    st.store[fld(THIS, "myHasEncrypted")] = 0
                else:
                    v = ip.tok(st, "encrypted0")
                    ip.refine(st, v, lo=0, hi=1)
                    st.store[fld(THIS, "myHasEncrypted")] = v
        return fn

    def on_lock(self, ip, st, m, fn, line):
        super().on_lock(ip, st, m, fn, line)

    def asserted(self, ip, st, c):
        self.count("asserts")
        return None

    def branch(self, ip, st, cond, truth, fn, line):
        # Whether the socket was seen being closed.
        if self.closing(ip, st) is True:
            st.rs["compromised"] = True

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        self.fn, self.line = fn, line
        rs = st.rs
        if self.held(st):
            self.bad(ip, st, "lock", "the lock is left taken")
        if self.isclosed:
            if not rs.get("gone"):
                self.bad(ip, st, "close", "a close is not told")
            return
        if self.closing(ip, st) is True:
            rs["compromised"] = True
        self.settle(ip, st, fn, line)
        self.unaccounted(ip, st)
        if self.cls == SSL and not self.quiet:
            self.reported(ip, st)
        self.invariants(ip, st)
        self.progress(ip, st)

    def invariants(self, ip, st):
        rs = st.rs
        hs = ip.truth(st, ip.read(st, fld(THIS, "myWasHandshakeDone")))
        if hs is not bool(rs["hs"]):
            self.bad(ip, st, "connect", "the connection %s" % ("is not remembered" if rs["hs"] else "is not told"))
        if rs.get("shaken") and not rs.get("told_connect"):
            self.bad(ip, st, "connect", "a made connection is not told")
        c = self.get(ip, st, "myCtl")
        s = (0, 0, 0, 0, 0)
        if c != 0 and ip.eq(st, c, 0) is not True:
            r = deref(c)
            s = self.steps(st, r)
            if rs.get(("dead", r)):
                self.bad(ip, st, "start close", "deleted control steps are left in the socket")
            if not any(s):
                self.bad(ip, st, "start", "finished control steps are not deleted") if 0 else None
        s = dict(zip(STEPS, s))
        for k in ("ctl0", "front0"):
            if rs.get(k) and not rs.get(("dead", rs[k])) and ip.eq(st, c, addr(rs[k])) is not True and \
                    ip.eq(st, self.get(ip, st, "myFrontCtl"), addr(rs[k])) is not True:
                self.bad(ip, st, "start", "control steps are lost")
        cl = self.closing(ip, st)
        v = self.get(ip, st, "myState")
        b = ip.bounds(st, v)
        if rs["hs"]:
            lo, name = "CONNECTED", "connected"
        elif s["ha"]:
            lo, name = "HANDSHAKE", "in handshake"
        else:
            lo, name = "EMPTY", "connecting"
        if b[0] < self.S[lo]:
            self.bad(ip, st, "connect", "the socket does not look %s" % name)
        for e in ("mySendEvent", "myRecvEvent"):
            l = ip.truth(st, ip.read(st, fld(fld(THIS, e), "myIsLocked")))
            if not rs["hs"] and not s["ha"] and l is not True:
                self.bad(ip, st, "connect", "a not connected socket is let to send and receive")
            if (rs["phase"] == "made" or rs.get("told_connect")) and l is True and rs.get(("io", e)) is None and \
                    rs.get("PostClose") is None and self.phase == "starting":
                self.bad(ip, st, "connect", "a connected socket is not let to send and receive")
        if not cl and self.natural and rs["phase"] in ("starting",) and not (s["co"] or s["at"]) and \
                ip.eq(st, self.get(ip, st, "myFrontCtl"), 0) is True:
            self.bad(ip, st, "connect start", "a connection in progress is lost")

    def progress(self, ip, st):
        """Nothing is left undone without a reason to be executed again."""
        rs = st.rs
        if not rs.get("merged"):
            self.bad(ip, st, "send", "data sent from other threads is not taken") if not self.early(ip, st) else None
        if "front_taken" not in rs and not self.early(ip, st):
            self.bad(ip, st, "recv", "requests to receive from other threads are not taken")
        if self.closing(ip, st) is True:
            return
        if self.cls == TCP and rs.get(("io", "myRecvEvent")) == "locked" and \
                ip.eq(st, self.get(ip, st, "myRecvSize"), 0) is not False:
            self.bad(ip, st, "recv", "a receive in progress has no request")
        if rs.get("Reschedule") or self.early(ip, st):
            return
        ev = fld(THIS, "mySendEvent")
        if ip.truth(st, ip.read(st, fld(ev, "myIsLocked"))) is not True and rs["hs"]:
            if rs.get(("empty", fld(THIS, "mySendQueue"))) is not True and not self.quiet:
                self.bad(ip, st, "send", "there may be data to send, and the socket waits for nothing: it is never sent")
        ev = fld(THIS, "myRecvEvent")
        if ip.truth(st, ip.read(st, fld(ev, "myIsLocked"))) is not True and rs["hs"]:
            if ip.eq(st, self.get(ip, st, "myRecvSize"), 0) is not True:
                self.bad(ip, st, "recv", "there is a request to receive, and the socket waits for nothing: it never ends")
        q = fld(THIS, "myEncSendQueue")
        if self.cls == SSL and not self.quiet and (rs.get(("size", q)) is None or ip.eq(st, rs[("size", q)], 0) is not True) \
                and ("told_connect" in rs or rs["hs"]) and ip.truth(st, ip.read(st, fld(fld(THIS, "mySendEvent"), "myIsLocked"))) is not True:
            self.bad(ip, st, "send", "there may be encrypted data to send, and the socket waits for nothing: it is never sent")
        if self.cls == SSL and rs["hs"] and ip.eq(st, self.get(ip, st, "myHasEncrypted"), 0) is not True and \
                ip.eq(st, self.get(ip, st, "myRecvSize"), 0) is not True:
            self.bad(ip, st, "recv", "there is received data and a request, but it is not told")

    def early(self, ip, st):
        return st.rs.get("io_failed")

    def new_error(self, ip, st, c, out, kind):
        if kind == "io":
            st.rs["io_failed"] = True
        return super().new_error(ip, st, c, out, kind)


def events(res, rn, tags, cfg, cls):
    p = res.prog(cfg, ("aio",))
    f = p.fn(cls + "::OnEvent")
    hs = int(cls == SSL)
    N = None
    combos = []
    for closed in (False, True):
        for nat in (True, False):
            if closed and nat:
                continue
            for sh in (0, 1):
                F = (1, 0, 0, 0, 0) if sh else N
                m = "ctl"
                combos += [("connected", nat, closed, N, F, m)]
                combos += [("starting", nat, closed, N, (sh, 1, 0, 0, hs), m), ("starting", nat, closed, N, (sh, 0, 1, 0, hs), m),
                           ("starting", nat, closed, (0, 0, 1, 0, hs), F, m)]
                if hs:
                    combos += [("shaking", nat, closed, (sh, 0, 0, 1, 1), N, m), ("shaking", nat, closed, (0, 0, 0, 1, 1), F, m),
                               ("idle", nat, closed, (0, 0, 0, 0, 1), F, m), ("idle", nat, closed, N, (sh, 0, 0, 0, 1), m),
                               ("starting", nat, closed, (0, 0, 0, 0, 1), (sh, 0, 1, 0, 0), m)]
                else:
                    combos += [("idle", nat, closed, N, F, m)]
            combos += [("starting", nat, closed, (1, 0, 1, 0, hs), N, "ctl")]
            if closed:
                combos += [("connected", nat, closed, N, N, m) for m in ("recv", "send")]
            else:
                for m in ("recv", "send") + (() if hs else ("both",)):
                    if hs and m == "send" and not nat:
                        continue
                    combos += [("connected", nat, closed, N, N, m)]
                    if hs:
                        combos += [("shaking", nat, closed, (0, 0, 0, 1, 1), N, m)]
    # The longest ones first.
    combos.sort(key=lambda a: (a[-1] == "ctl", a[2]))

    def job(a, kind):
        def go(res):
            r = Event(p, cls, *a)
            r.kind = kind
            r.tags = tags
            ip, _ = res.walk(p, r, f, rn, setup=r.setup(f))
            if os.environ.get("PARTS"):
                print(ip.steps, ip.paths, a)
        return go
    return [job(a, k) for a in combos for k in (KINDS if a[0] == "connected" and not a[2] and a[-1] in ("send", "recv") else (None,))]


class Api(Sock):
    """A method for the user: in the worker thread, out of it, or before the socket is started."""
    def __init__(self, p, cls, op, worker, state, empty=None, front=None, closed=False, ready=False, running=None):
        super().__init__(p, cls, worker)
        self.op, self.state0, self.empty0, self.front0, self.closed0, self.ready = op, state, empty, front, closed, ready
        self.running = state in ("EMPTY", "CONNECTING", "HANDSHAKE", "CONNECTED", "CLOSING") if running is None else running
        self.opening = worker == "alone"

    def setup(self, f):
        def fn(ip, st, this, args):
            rs = st.rs
            self.args = args
            ip.settype(THIS, self.cls)
            rs["op"] = self.op
            rs["phase"] = {"EMPTY": "idle", "CONNECTING": "starting", "HANDSHAKE": "shaking", "CONNECTED": "connected"}.get(
                self.state0, "idle")
            rs["hs"] = self.state0 == "CONNECTED"
            if self.worker == "in":
                rs["closed"] = self.closed0
                rs["in"] = True
            elif self.worker == "out":
                rs["in"] = False
            st.store[fld(THIS, "myState")] = self.S[self.state0]
            st.store[fld(THIS, "myIsReadyToStart")] = int(self.ready)
            st.store[fld(THIS, "myIsRunning")] = int(self.running)
            st.store[fld(THIS, "myWasHandshakeDone")] = int(rs["hs"])
            s = ip.norm(st, ip.read(st, fld(THIS, "mySub")))
            if self.running:
                ip.refine(st, s, ne=0)
            else:
                st.store[fld(THIS, "mySub")] = s = 0
            rs["sub"] = s
            for n, v in (("myFrontCtl", self.front0), ("myCtl", (1, 0, 0, 0, 0) if self.op == "dtor" else None)):
                if v is None:
                    st.store[fld(THIS, n)] = 0
                else:
                    r = ("name", n)
                    st.store[fld(THIS, n)] = addr(r)
                    rs[("ctl", r)] = v
                    rs["has" + n] = r
            r0 = ip.norm(st, ip.read(st, fld(THIS, "myRecvSize")))
            ip.refine(st, r0, lo=0)
            if self.worker == "alone":
                st.store[fld(THIS, "myRecvSize")] = r0 = 0
                for n in ("mySendQueue", "myRecvQueue", "myFrontSendQueue"):
                    rs[("empty", fld(THIS, n))] = True
            rs["recv0"] = r0
            if self.op == "Encrypt":
                rs["IsEncrypted"] = False
            if self.empty0 is not None:
                for n in ("mySendQueue", "myFrontSendQueue"):
                    rs[("empty", fld(THIS, n))] = self.empty0
            if self.cls == SSL:
                v = ip.norm(st, ip.read(st, fld(THIS, "mySSL")))
                ip.refine(st, v, ne=0)
                rs["ssl0"] = v
                v = self.get(ip, st, "mySentSize")
                ip.refine(st, v, lo=0)
                rs["sent0"] = v
            for a, pr in zip(args, f.params):
                v = ip.norm(st, a) if not (isinstance(a, tuple) and a[0] == "L") else None
                if v is not None and not isinstance(v, int) and pr[1] in ("aSub", "aHead", "aData", "aHandshake"):
                    ip.refine(st, v, ne=0)
                if pr[1] == "aSize":
                    ip.refine(st, v, lo=1)
        return fn

    def asserted(self, ip, st, c):
        # A legal call.
        if self.op == "dtor" or not c.fn.cls or not c.fn.cls.startswith((IF, TCP, SSL)) or "AssertFailed" in c.qn and False:
            return None
        self.err(ip, st, {"PostClose": "close", "PostShutdown": "close", "Recv": "recv lock", "Send": "send lock"}.get(self.op, "start"), "a legal call is asserted against", c)
        return None

    def on_other(self, ip, st, c):
        rs = st.rs
        q = c.qn
        if q in ("mg::net::BuffersRef", "mg::net::BuffersCopy"):
            r = ("o", ("built", c.ctx, c.sid))
            v = ("t", (q.split("::")[-1],) + tuple(ip.norm(st, a) if not (isinstance(a, tuple) and a[0] == "L") else a
                                                   for a in c.args))
            ip.refine(st, v, ne=0)
            st.store[fld(r, "myObject")] = v
            return [(st, ("L", r))]
        if c.cls and ("basic_string" in c.cls or c.cls == "mg::box::TimeLimit") and c.name == "operator=":
            rs[("str", c.obj)] = c.args[0]
            return [(st, ("L", c.obj))]
        if c.cls == "mg::net::SSLStream" and c.kind == "ctor":
            rs["ssl_new"] = c.obj
            return [(st, ("L", c.obj))]
        if c.cls == "mg::net::SSLStream" and c.name == "SetHostName":
            rs["ssl_host"] = self.arg(ip, st, c, 0)
            return [(st, 1)]
        if c.cls == NS + "TCPSocketHandshake":
            return [(st, ("L", c.obj) if c.kind == "ctor" else None)]
        if c.cls and c.cls.startswith("mg::net::SSLStream") and c.name == "Connect":
            if c.obj not in (deref(rs.get("ssl0", 0)), rs.get("ssl_new")):
                self.err(ip, st, "tls", "a wrong stream is encrypted", c)
            rs["ssl_connect"] = min(rs.get("ssl_connect", 0) + 1, 2)
            rs["left"] = rs.get(("empty", fld(THIS, "mySendQueue")))
            return [(st, None)]
        return super().on_other(ip, st, c)

    def delete(self, ip, st, val, node, fn, line):
        v = ip.norm(st, val)
        if self.cls == SSL and ip.eq(st, v, st.rs.get("ssl0")) is True:
            st.rs["ssl_deleted"] = min(st.rs.get("ssl_deleted", 0) + 1, 2)
            return
        super().delete(ip, st, val, node, fn, line)

    # ------------------------------------------------------------ results
    def end(self, ip, st, val, fn, line):
        self.count("exits")
        self.fn, self.line = fn, line
        if self.held(st):
            self.bad(ip, st, "lock", "the lock is left taken")
        getattr(self, "x_" + self.op)(ip, st, val)

    def state(self, ip, st, n):
        return self.is_(ip, st, "myState", self.S[n])

    def unchanged(self, ip, st, tag, state=None, sub=True):
        if not self.state(ip, st, state or self.state0):
            self.bad(ip, st, tag, "a wrong state of the socket is set")
        if self.running and (self.get(ip, st, "mySub") != st.rs["sub"] or not self.is_(ip, st, "myIsRunning", 1)):
            self.bad(ip, st, tag, "the socket forgets its subscriber or that it is started")

    def calls(self, st, *names):
        return tuple(st.rs.get(n, 0) for n in names)

    def started(self, ip, st, sub, state):
        if self.get(ip, st, "mySub") != sub or not self.is_(ip, st, "myIsRunning", 1) or \
                not self.is_(ip, st, "myIsReadyToStart", 0) or not self.state(ip, st, state):
            self.bad(ip, st, "start close", "a started socket does not look so")
        if st.rs.get("Post") != 1:
            self.bad(ip, st, "start", "a started socket is not given to the IO core once")

    def step(self, ip, st, k, tag="start"):
        """The control step must be requested, the others must not be changed."""
        v = self.get(ip, st, "myFrontCtl")
        s = list(self.front0 or (0, 0, 0, 0, 0))
        s[STEPS.index(k)] = 1
        if v == 0 or not isinstance(v, tuple) or self.steps(st, deref(v)) != tuple(s) or st.rs.get(("dead", deref(v))):
            self.bad(ip, st, tag, "a requested step is lost, or an earlier one")

    def connect_args(self, ip, st):
        rs = st.rs
        src = self.args[0][1]
        if rs.get("params") is None:
            return
        for n, v in zip(("mySocket", "myAddrFamily"), rs["params"]):
            if ip.norm(st, ip.read(st, fld(src, n))) != v:
                self.bad(ip, st, "start", "%s of the connect is lost" % n)
        x = rs["params_r"]
        a = rs.get(("str", fld(x, "myEndpoint")))
        if a != ("L", fld(src, "myEndpoint")):
            self.bad(ip, st, "start", "the host of the connect is lost")
        if rs.get(("str", fld(x, "myDelay"))) != ("L", fld(src, "myDelay")):
            self.bad(ip, st, "start", "the delay of the connect is lost")

    def x_PostConnect(self, ip, st, val):
        self.started(ip, st, ip.norm(st, self.args[1]), "CONNECTING")
        self.step(ip, st, "co")
        self.connect_args(ip, st)

    def x_PostWrap(self, ip, st, val):
        self.started(ip, st, ip.norm(st, self.args[1]), "CONNECTING")
        self.step(ip, st, "at")
        a = st.rs.get(("arg", "AddAttach"))
        if a is None or ip.norm(st, a) != ip.norm(st, self.args[0]):
            self.bad(ip, st, "start", "a wrong socket is attached")

    def x_PostTask(self, ip, st, val):
        self.started(ip, st, ip.norm(st, self.args[0]), "EMPTY")
        v = self.get(ip, st, "myFrontCtl")
        if (v != 0) != (self.front0 is not None):
            self.bad(ip, st, "start", "control steps are changed")

    def x_Connect(self, ip, st, val):
        if self.state0 == "CLOSING":
            self.unchanged(ip, st, "start close")
            return
        self.unchanged(ip, st, "start", "CONNECTING")
        self.step(ip, st, "co")
        self.connect_args(ip, st)
        if not st.rs.get("Reschedule"):
            self.bad(ip, st, "start", "a connect is not started: the socket waits for nothing")

    def x_PostClose(self, ip, st, val):
        n = self.calls(st, "PostClose")[0]
        if self.state0 in ("CLOSING", "CLOSED"):
            self.unchanged(ip, st, "close")
            if self.state0 == "CLOSED" and n:
                self.bad(ip, st, "close", "a closed socket is closed again")
        elif self.state0 == "NEW":
            self.unchanged(ip, st, "close", "CLOSED")
            if n:
                self.bad(ip, st, "close", "a task is closed while it is not started")
        else:
            self.unchanged(ip, st, "close", "CLOSING")
            if n != 1:
                self.bad(ip, st, "close", "a close is lost: nobody is told of the end")

    def x_PostShutdown(self, ip, st, val):
        self.unchanged(ip, st, "close start")
        if self.state0 in ("CLOSING", "CLOSED"):
            return
        self.step(ip, st, "sh")
        if not st.rs.get("PostWakeup") and not st.rs.get("Reschedule"):
            self.bad(ip, st, "start", "a shutdown is not started: the socket is not woken up")

    def x_IsClosed(self, ip, st, val):
        self.unchanged(ip, st, "close")
        if ip.truth(st, val) is not (self.state0 == "CLOSED"):
            self.bad(ip, st, "close", "a wrong state is told")

    def x_IsConnected(self, ip, st, val):
        self.unchanged(ip, st, "connect")
        if ip.truth(st, val) is not (self.state0 == "CONNECTED"):
            self.bad(ip, st, "connect", "a wrong state is told")

    # ---- data
    def expected(self, ip, st):
        f = self.f
        t = f.params[0][2]
        a = self.args[0]
        if "BufferLink" in t and "Move" in f.name:
            return "link", ip.norm(st, a)
        k = "BuffersRef" if "Ref" in f.name else "BuffersCopy"
        if len(f.params) == 2:
            return "buf", ("t", (k, ip.norm(st, a), ip.norm(st, self.args[1])))
        if k == "BuffersCopy":
            return "buf", ("t", (k, ip.norm(st, a)))
        if "SharedPtr" in t or "Ptr" in t or "&&" in t:
            return "buf", self.head0
        return "buf", ip.norm(st, a)

    def x_Send(self, ip, st, val):
        rs = st.rs
        kind, want = self.expected(ip, st)
        done = rs.get("appended", ())
        own = self.worker == "in"
        if own and self.closed0:
            if done:
                self.bad(ip, st, "send close", "data is kept in a closed socket: it gets into its next life")
            if kind == "link" and not rs.get("freed"):
                self.bad(ip, st, "send", "data of a closed socket is leaked")
            return
        if len(done) != 1:
            self.bad(ip, st, "send", "given data is %s" % ("lost" if not done else "sent twice"))
            return
        q, v, was, held, locks = done[0]
        if q != fld(THIS, "mySendQueue" if own else "myFrontSendQueue"):
            self.bad(ip, st, "send lock", "data is put into a wrong queue")
        got = v
        if kind == "buf":
            got = ip.norm(st, ip.read(st, fld(fld(deref(v), "myHead"), "myObject")))
        if got != want and ip.eq(st, got, want) is not True:
            self.bad(ip, st, "send", "not the given data is put into the queue")
        if not own and was is not False and not rs.get("PostWakeup"):
            self.bad(ip, st, "send", "data is given but the socket is not woken up to send it")

    def x_Recv(self, ip, st, val):
        rs = st.rs
        v = ip.norm(st, self.args[0])
        if self.worker == "in":
            if self.get(ip, st, "myRecvSize") != ip.arith(st, "+", rs["recv0"], v):
                self.bad(ip, st, "recv", "a request to receive is not added")
            return
        a = rs.get("front_added")
        if a is None or a[0] != v:
            self.bad(ip, st, "recv", "a request to receive is not added")
            return
        if ip.eq(st, a[1], 0) is not False and not rs.get("PostWakeup"):
            self.bad(ip, st, "recv", "a request is made but the socket is not woken up for it")

    # ---- life
    def x_Open(self, ip, st, val):
        rs = st.rs
        if not self.is_(ip, st, "myIsReadyToStart", 1) or not self.is_(ip, st, "myIsRunning", 0):
            self.bad(ip, st, "start", "an opened socket does not look so")
        self.unchanged(ip, st, "start")
        if self.cls == TCP:
            if not self.is_(ip, st, "mySendOffset", 0):
                self.bad(ip, st, "send close", "a position in the sent data gets into the next life of the socket")
            return
        if not self.is_(ip, st, "mySentSize", 0) or rs.get(("empty", fld(THIS, "myEncSendQueue"))) is not True or \
                not self.is_(ip, st, "myHasEncrypted", 0):
            self.bad(ip, st, "close tls", "data of the previous life gets into the next life of the socket")
        if rs.get("ssl_deleted", 0) != 1:
            self.bad(ip, st, "close tls", "the stream of the previous life is not deleted once")
        if rs.get("ssl_new") is None or self.get(ip, st, "mySSL") != addr(rs["ssl_new"]):
            self.bad(ip, st, "tls close", "no new stream is made")
        want = ip.truth(st, ip.read(st, fld(self.args[0][1], "myDoEncrypt")))
        if want is None or want is not bool(rs.get("ssl_connect")):
            self.bad(ip, st, "tls", "encryption is %s" % ("off while it is asked for" if want else "on while it is not asked for"))
        host = ip.norm(st, ip.read(st, fld(self.args[0][1], "myHostName")))
        if ip.eq(st, host, 0) is not True and rs.get("ssl_host") != host:
            self.bad(ip, st, "tls", "the host name is lost")
        self.step(ip, st, "ho", "tls connect")

    def x_Encrypt(self, ip, st, val):
        rs = st.rs
        if rs.get("ssl_connect", 0) != 1:
            self.bad(ip, st, "tls", "encryption is not started")
        if rs.get("left") is not True:
            self.bad(ip, st, "tls send", "data sent before the encryption is encrypted")
        if rs.get("enc") is not None:
            self.bad(ip, st, "send", "data is left in the queue after it is given to the encryption: it is sent twice")
        self.sum(ip, st)

    def x_dtor(self, ip, st, val):
        for n in ("myCtl", "myFrontCtl"):
            r = st.rs.get("has" + n) if "TCPSocketIFace" in self.f.name else None
            if r is not None and not st.rs.get(("dead", r)):
                self.bad(ip, st, "close start", "control steps are leaked with the socket")
        if "SSLSocket" in self.f.name and st.rs.get("ssl_deleted", 0) != 1:
            self.bad(ip, st, "tls close", "the stream is not deleted once")

    def x_PrivHandshake(self, ip, st, val):
        rs = st.rs
        v = ip.truth(st, val)
        f = rs.get("failure")
        if f is not None and not f[2] and rs.get("IsConnected") is None and v is not False:
            self.bad(ip, st, "tls", "a failed handshake is told as done")
        if rs.get("IsEncrypted") is True and v is not False and rs.get("IsConnected") is not True:
            self.bad(ip, st, "tls connect", "the connection is told before the handshake is done")
        if rs.get("IsEncrypted") is False and v is not True:
            self.bad(ip, st, "connect", "a not encrypted connection is never told")
        self.settle(ip, st, self.fn, self.line)


def terms(v):
    if v == 0:
        return []
    if isinstance(v, tuple) and v[0] == "op" and v[1] == "+":
        return terms(v[2]) + terms(v[3])
    return [v]


def apis(res, rn, tags, cfg, cls, ops=None):
    p = res.prog(cfg, ("aio",))

    def go(op, name, worker, state, owner=IF, **kw):
        fs = p.fns(owner + "::" + name)
        if not fs:
            raise AnalysisBroken("anchor vanished: %s::%s" % (owner, name))
        for f in fs:
            r = Api(p, cls, op, worker, state, **kw)
            r.tags = tags
            r.f = f
            r.head0 = None
            r.max_loop = 1
            setup = r.setup(f)

            def mk(ip, st, this, args, setup=setup, r=r, f=f):
                setup(ip, st, this, args)
                a = args[0] if args else None
                if op == "Send" and isinstance(a, tuple) and a[0] == "L":
                    v = ip.norm(st, ip.read(st, fld(a[1], "myObject")))
                    ip.refine(st, v, ne=0)
                    r.head0 = v
                    # It can be moved away.
                    st.store[fld(a[1], "myObject")] = v
            ip, _ = res.walk(p, r, f, rn, setup=mk)
            if os.environ.get("PARTS"):
                print(ip.steps, ip.paths, op, name, worker, state, kw)
    hs = (0, 0, 0, 0, 1) if cls == SSL else None
    for s in ("NEW", "CLOSED"):
        for n in ("PostConnect", "PostWrap", "PostTask"):
            go(n, n, "alone", s, ready=True, front=hs)
        go("Open", "Open", "alone", s, owner=cls)
    go("dtor", "~TCPSocketIFace", "alone", "CLOSED", front=(0, 0, 1, 0, 1))
    if cls == SSL:
        go("dtor", "~SSLSocket", "alone", "CLOSED", owner=cls, front=(0, 0, 0, 0, 1))
    for s in STATES:
        go("PostClose", "PostClose", "out", s)
        go("IsClosed", "IsClosed", "out", s)
        go("IsConnected", "IsConnected", "out", s)
        if s != "NEW":
            for fr in (None, (0, 0, 1, 0, 1)):
                go("PostShutdown", "PostShutdown", "out", s, front=fr)
    go("PostClose", "PostClose", "in", "CONNECTED")
    for s in ("EMPTY", "CLOSING"):
        for fr in (None, (0, 0, 0, 0, 1), (1, 0, 0, 0, 0)):
            go("Connect", "Connect", "in", s, front=fr)
    for n in ("SendMove", "SendRef", "SendCopy"):
        for s in ("CONNECTED", "CLOSING"):
            go("Send", n, "in", s)
        go("Send", n, "in", "CLOSED", closed=True, running=False)
        for w in ("in", "out"):
            for e in (True, False):
                go("Send", "Post" + n, w, "CONNECTED", empty=e)
    go("Recv", "Recv", "in", "CONNECTED")
    for w in ("in", "out"):
        go("Recv", "PostRecv", w, "CONNECTED")
    if cls == SSL:
        go("Encrypt", "Encrypt", "in", "CONNECTED", owner=SSL)
        go("PrivHandshake", "PrivHandshake", "in", "HANDSHAKE", owner=SSL)


def sockets(res, rn, tags, what, needs, shake=True):
    res.rule(rn, what)
    jobs = []
    for cls in (SSL, TCP):
        jobs += events(res, rn, tags, "epoll", cls)
        apis(res, rn, tags, "epoll", cls)
    res.parallel(jobs)
    for k, n in needs:
        res.need(rn, k, n)


WALK = "the event handler and the methods of both kinds of sockets walked from each of their states: "


@check("C10")
def c10(res):
    sockets(res, "close", ("close",), WALK + "the close is told once, by the worker, as the last access to the socket, when "
            "all its members are like new; requests to close are never lost.",
            (("callbacks", 500), ("deletes", 20), ("guarded", 2000), ("exits", 1000)))


@check("C11")
def c11(res):
    sockets(res, "error", ("error",), WALK + "each failure is told once, by the callbacks of its kind, with its code, unless a "
            "close is in progress already; and closes the socket.",
            (("failures", 500), ("callbacks", 500), ("exits", 1000)))


@check("C12")
def c12(res):
    sockets(res, "connect", ("connect",), WALK + "the connection is told once, after the handshake, before any data; the "
            "socket looks and works as a connected one since then, and not earlier.",
            (("callbacks", 500), ("ctl_calls", 300), ("exits", 1000)))


@check("C13")
def c13(res):
    sockets(res, "send", ("send",), WALK + "given data gets into the queue once, is sent from its start, is removed and told as "
            "much as was sent, and never waits without a reason.",
            (("sends", 200), ("results", 500), ("encrypted", 50), ("queue_ops", 1000)))


@check("C14")
def c14(res):
    sockets(res, "recv", ("recv",), WALK + "data is received only on a request, is told once in its order, requests are "
            "neither lost nor satisfied twice, nor wait without a reason.",
            (("recvs", 100), ("results", 500), ("ssl_calls", 500), ("queue_ops", 1000), ("atomics", 100)))


@check("C15")
def c15(res):
    sockets(res, "lock", ("lock",), WALK + "shared members are used under the lock only, worker's members in the worker only, "
            "the lock is released on each path and is not held in callbacks and control steps.",
            (("guarded", 2000), ("callbacks", 500), ("exits", 1000)))


@check("C16")
def c16(res):
    from .c_ctl import ctls, reqs
    sockets(res, "start", ("start",), WALK + "each requested connect, wrap, handshake and shutdown gets into the control steps "
            "and is not lost there.", (("ctl_calls", 300), ("task_calls", 1000)))
    rn = "ctl"
    res.rule(rn, "each method of the control steps from each of their states: sockets, resolves and handshakes have one owner "
             "and are released once; outcomes of the system calls against the steps left; the resolve is shared by two threads "
             "under its lock and is deleted by the last of them.")
    ctls(res, rn)
    reqs(res, rn)
    for k, n in (("releases", 300), ("connects", 100), ("resolves", 30), ("shutdowns", 4), ("accesses", 80), ("exits", 600)):
        res.need(rn, k, n)


@check("C17")
def c17(res):
    rn = "tls"
    res.rule(rn, WALK + "encryption is on when asked for, with a fresh stream and the given host name; user's data is not given to "
             "the stream, nor taken from it, before the connection is told.")
    res.parallel(events(res, rn, ("tls",), "epoll", SSL))
    apis(res, rn, ("tls",), "epoll", SSL)
    for k, n in (("ssl_calls", 500), ("encrypted", 50), ("exits", 500)):
        res.need(rn, k, n)


if os.environ.get("PARTS"):
    @check("DBG2")
    def dbg2(res):
        res.rule("x", "x")
        for cls in (TCP, SSL):
            if os.environ["PARTS"] in cls:
                res.parallel((apis if os.environ.get("API") else events)(res, "x", None, "epoll", cls) or [])
