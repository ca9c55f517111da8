"""C08: operations of IO tasks - what each of them does with its event."""
from ..core import check
from ..engine import addr, deref, under, region_str, INF
from ..ir import AnalysisBroken
from ..sysmodel import Sys, errc, EAGAIN, EINPROGRESS
from .c_iocore import TASK, NS, CONFIGS, plain

THIS = ("name", "this")
IN, OUT, ERR, HUP = 1, 4, 8, 16
INVALID = -1


def fld(r, n):
    return ("f", r, n)


def by_type(f, args, want):
    """The argument of the given type."""
    res = [args[i] for i, p in enumerate(f.params) if want(p[2])]
    return res[0] if res else None


class Op(Sys):
    """One operation of a task with one event."""

    def __init__(self, p, kind, uring):
        super().__init__(p)
        self.kind = kind
        self.uring = uring
        self.ops = p.enum(NS + "IOUringOpcode") if uring else None

    def setup(self, f):
        def fn(ip, st, this, args):
            self.args = args
            self.ev = None
            e = by_type(f, args, lambda t: "IOEvent" in t)
            if e is not None:
                self.ev = e[1]
            self.bufs = by_type(f, args, lambda t: "IOVec" in t)
            self.count_arg = by_type(f, args, lambda t: t.startswith("unsigned"))
            self.sock = by_type(f, args, lambda t: t == "int")
            h = by_type(f, args, lambda t: "net::Host" in t)
            self.host = h[1] if h is not None else None
            st.store[fld(THIS, "myIsInQueues")] = 0
            st.rs["sock0"] = ip.norm(st, ip.read(st, fld(THIS, "mySocket")))
            for n in ("myInEvent", "myOutEvent", "myReadyEvents") if not self.uring else ("myOperationCount",):
                st.rs[n] = ip.norm(st, ip.read(st, fld(THIS, n)))
            if self.kind in ("connupd", "accept") and self.ev is not None:
                st.rs["locked0"] = ip.norm(st, ip.read(st, fld(self.ev, "myIsLocked")))
            if self.kind == "connect" and self.ev is not None:
                st.store[fld(self.ev, "myIsLocked")] = 0
                st.store[fld(self.ev, "myIsEmpty")] = 1
            for n in ("myIsEmpty", "myIsError", "myIsLocked", "myBytes", "myError"):
                if self.ev is not None:
                    st.rs[("ev0", n)] = ip.norm(st, ip.read(st, fld(self.ev, n)))
            st.rs["dl0"] = ip.norm(st, ip.read(st, fld(THIS, "myDeadline")))
        return fn

    # ------------------------------------------------------------ calls
    def on_other(self, ip, st, c):
        rs = st.rs
        q = c.qn
        if q == TASK + "::IsInWorkerNow":
            return [(st, 1)]
        if q == NS + "IOCore::PrivKernelRegister":
            self.count("registrations")
            if ip.eq(st, self.arg(ip, st, c, 0), addr(THIS)) is not True:
                self.rep(ip, st, "a wrong task is registered in the kernel", c)
            rs["registered"] = ip.norm(st, ip.read(st, fld(THIS, "mySocket")))
            return [(st, None)]
        if q == "mg::net::SocketIsAcceptErrorCritical":
            s2 = st.copy()
            st.rs["critical"] = 1
            s2.rs["critical"] = 0
            rs["critarg"] = s2.rs["critarg"] = self.arg(ip, st, c, 0)
            return [(st, 1), (s2, 0)]
        if q == "mg::net::Host::Set":
            rs["peer"] = 1
            return [(st, None)]
        if q == "mg::net::Host::GetSockaddrSize":
            return [(st, self.hostlen(ip, st, c.obj))]
        if q == "mg::net::SocketCheckState":
            e = c.args[1]
            s2 = st.copy()
            ip.havoc(s2, e[1], ("state", c.ctx, c.sid))
            v = ip.norm(s2, ip.read(s2, fld(e[1], "myObject")))
            ip.refine(s2, v, ne=0)
            rs["state"] = "ok"
            s2.rs["state"] = "bad"
            return [(st, 1), (s2, 0)]
        if q in ("memcpy", "std::memcpy", "memmove"):
            rs["copied"] = rs.get("copied", ()) + ((self.pointee(ip, st, c, 0), self.pointee(ip, st, c, 1),
                                                    self.arg(ip, st, c, 2)),)
            if self.uring:
                self.bounded(ip, st, c)
            return None
        if c.cls and c.cls.startswith("mg::box::ForwardList<") and "IOEvent" in c.cls:
            return self.list_op(ip, st, c)
        return None

    def hostlen(self, ip, st, r):
        v = ("t", ("hostlen", r))
        ip.refine(st, v, lo=1, hi=28)
        return v

    def pointee(self, ip, st, c, i):
        a = self.arg(ip, st, c, i)
        r = deref(a) if isinstance(a, tuple) else ("name", "?")
        return r[1] if r[0] == "e" and r[2] == 0 else r

    def bounded(self, ip, st, c):
        """Copying into an event must fit."""
        d = self.pointee(ip, st, c, 0)
        if not under(d, self.ev):
            return
        self.count("copies")
        n = self.arg(ip, st, c, 2)
        k = self.kind
        if k in ("send", "recv"):
            lim = 128 * 16
        elif k == "connect":
            lim = 28
        else:
            return
        b = ip.bounds(st, n)
        if k in ("send", "recv") and isinstance(plain(n), tuple) and plain(n)[:2] == ("op", "*") and 16 in plain(n)[2:]:
            b = (0, 16 * max(ip.bounds(st, plain(x))[1] for x in plain(n)[2:] if x != 16))
        if not b[1] <= lim:
            self.rep(ip, st, "more is copied into an event than fits: the memory behind it is corrupted", c)

    def list_op(self, ip, st, c):
        rs = st.rs
        if c.name in ("Append", "Prepend") and c.obj == fld(THIS, "myToSubmitEvents"):
            self.count("submissions")
            e = self.arg(ip, st, c, 0)
            if ip.eq(st, e, addr(self.ev)) is not True:
                self.rep(ip, st, "a wrong event is submitted", c)
            if rs.get("submitted"):
                self.rep(ip, st, "an operation is submitted twice", c)
            rs["submitted"] = 1
            return [(st, None)]
        return None

    def on_syscall(self, ip, st, c):
        rs = st.rs
        q = c.qn
        if q in ("sendmsg", "recvmsg"):
            self.same(ip, st, self.arg(ip, st, c, 0), rs["sock0"], "a wrong socket is used", c)
            m = self.pointee(ip, st, c, 1)
            iov = ip.norm(st, ip.read(st, fld(m, "msg_iov")))
            n = ip.norm(st, ip.read(st, fld(m, "msg_iovlen")))
            self.same(ip, st, iov, ip.norm(st, self.bufs), "wrong buffers are given to the system", c)
            self.same(ip, st, plain(n), ip.norm(st, self.count_arg), "a wrong number of buffers is given to the system", c)
        elif q == "connect":
            self.same(ip, st, self.arg(ip, st, c, 0), self.sock, "a wrong socket is connected", c)
            if self.pointee(ip, st, c, 1) != fld(self.host, "myAddr"):
                self.rep(ip, st, "a connect is started to a wrong address", c)
            self.same(ip, st, plain(self.arg(ip, st, c, 2)), self.hostlen(ip, st, self.host), "a wrong address size", c)
        elif q in ("accept", "accept4"):
            self.same(ip, st, self.arg(ip, st, c, 0), rs["sock0"], "clients are accepted from a wrong socket", c)
            f = self.arg(ip, st, c, 3) if q == "accept4" else 0
            if not isinstance(f, int) or not f & 0o4000:
                self.rep(ip, st, "an accepted socket is blocking: a worker hangs in it", c)
        else:
            return None
        if rs.get("rc") is not None:
            self.rep(ip, st, "the operation is made twice", c)
        return None

    def same(self, ip, st, a, b, msg, c):
        if a != b and ip.eq(st, a, b) is not True:
            self.rep(ip, st, msg, c)

    def after_syscall(self, ip, st, c, val, err):
        if c.qn in ("sendmsg", "recvmsg", "connect", "accept", "accept4"):
            st.rs["rc"] = val
            st.rs["err"] = err

    # ------------------------------------------------------------ results
    def end(self, ip, st, val, fn, line):
        self.count("exits")
        self.fn, self.line = fn, line
        getattr(self, ("u_" if self.uring else "e_") + self.kind)(ip, st, val)

    def bad(self, ip, st, msg):
        ip.report(st, msg, self.fn, self.line)

    def flag(self, ip, st, n):
        return ip.truth(st, ip.read(st, fld(self.ev, n)))

    def val(self, ip, st, r, n):
        return ip.norm(st, ip.read(st, fld(r, n)))

    def locked(self, ip, st):
        return self.flag(ip, st, "myIsLocked")

    def is_bytes(self, ip, st, n):
        if self.locked(ip, st) is not False:
            self.bad(ip, st, "an event of an ended operation is left locked: nobody unlocks it")
        if self.flag(ip, st, "myIsEmpty") is not False or self.flag(ip, st, "myIsError") is not False:
            self.bad(ip, st, "a success is not told by the event")
        elif plain(self.val(ip, st, self.ev, "myBytes")) != n and ip.eq(st, plain(self.val(ip, st, self.ev, "myBytes")),
                                                                           n) is not True:
            self.bad(ip, st, "the event tells a wrong number of bytes")

    def is_error(self, ip, st, code):
        if self.locked(ip, st) is not False:
            self.bad(ip, st, "an event of a failed operation is left locked: nobody unlocks it")
        if self.flag(ip, st, "myIsEmpty") is not False or self.flag(ip, st, "myIsError") is not True:
            self.bad(ip, st, "a failure is not told by the event")
        elif code is not None and self.val(ip, st, self.ev, "myError") != code:
            self.bad(ip, st, "the event tells a wrong error")

    def is_locked(self, ip, st, slot):
        """Waits for the kernel."""
        if self.locked(ip, st) is not True:
            self.bad(ip, st, "an operation in progress does not lock its event: it looks ended")
        if ip.eq(st, self.val(ip, st, THIS, slot), addr(self.ev)) is not True:
            self.bad(ip, st, "an operation in progress is not remembered: its event is never unlocked")
        o = "myInEvent" if slot == "myOutEvent" else "myOutEvent"
        if ip.eq(st, self.val(ip, st, THIS, o), st.rs[o]) is not True:
            self.bad(ip, st, "the operation of the other direction is forgotten: its event is never unlocked")

    def slots_same(self, ip, st):
        for o in ("myInEvent", "myOutEvent"):
            if ip.eq(st, self.val(ip, st, THIS, o), st.rs[o]) is not True:
                self.bad(ip, st, "an ended operation is remembered as one in progress")

    def returned(self, ip, st, val, want):
        if ip.truth(st, val) is not want:
            self.bad(ip, st, "the operation returns %s when it has %s" % (("false", "not failed") if want else
                                                                           ("true", "failed")))

    def has_bit(self, ip, st, v, bit):
        v = plain(ip.norm(st, v))
        if isinstance(v, int):
            return v & bit == bit
        if isinstance(v, tuple) and v[0] == "op" and v[1] == "|":
            return self.has_bit(ip, st, v[2], bit) or self.has_bit(ip, st, v[3], bit)
        return False

    def has_part(self, ip, st, v, part):
        v = plain(v)
        if v == part or ip.eq(st, v, part) is True:
            return True
        return isinstance(v, tuple) and v[0] == "op" and v[1] == "|" and (
            self.has_part(ip, st, v[2], part) or self.has_part(ip, st, v[3], part))

    def may_continue(self, ip, st, bit):
        """After a success there may be more to do, and the kernel does not tell that again."""
        v = self.val(ip, st, THIS, "myReadyEvents")
        if not self.has_bit(ip, st, v, bit) and not self.expired(ip, st):
            self.bad(ip, st, "the socket may still be usable and this is not saved: the kernel does not tell it again")
        self.kept(ip, st, v)

    def kept(self, ip, st, v):
        if not self.has_part(ip, st, v, plain(st.rs["myReadyEvents"])):
            self.bad(ip, st, "events saved before are forgotten: the kernel does not tell them again")

    def expired(self, ip, st):
        return ip.eq(st, self.val(ip, st, THIS, "myDeadline"), 0) is True

    def io(self, ip, st, val, slot, bit):
        rs = st.rs
        rc = rs.get("rc")
        if rc is None:
            self.bad(ip, st, "nothing is done")
            return
        if rc != -1:
            self.returned(ip, st, val, True)
            self.is_bytes(ip, st, rc)
            self.slots_same(ip, st)
            self.may_continue(ip, st, bit)
        elif rs["err"] == EAGAIN:
            self.returned(ip, st, val, True)
            self.is_locked(ip, st, slot)
            self.kept(ip, st, self.val(ip, st, THIS, "myReadyEvents"))
        else:
            self.returned(ip, st, val, False)
            self.is_error(ip, st, errc(rs["err"]))
            self.slots_same(ip, st)

    def e_send(self, ip, st, val):
        self.io(ip, st, val, "myOutEvent", OUT)

    def e_recv(self, ip, st, val):
        self.io(ip, st, val, "myInEvent", IN)

    def attached(self, ip, st, want):
        s = self.val(ip, st, THIS, "mySocket")
        if want:
            if ip.eq(st, s, self.sock) is not True or st.rs.get("registered") != s:
                self.bad(ip, st, "a connecting socket is not attached to the task and to the kernel queue: its events never "
                                 "come")
        elif ip.eq(st, s, st.rs["sock0"]) is not True or st.rs.get("registered") is not None:
            self.bad(ip, st, "a socket which failed to connect stays in the task: it is closed twice")

    def e_connect(self, ip, st, val):
        rs = st.rs
        rc = rs.get("rc")
        if rc is None:
            self.bad(ip, st, "nothing is done")
        elif rc == 0:
            self.returned(ip, st, val, True)
            self.is_bytes(ip, st, 0)
            self.slots_same(ip, st)
            self.attached(ip, st, True)
        elif rs["err"] == EINPROGRESS:
            self.returned(ip, st, val, True)
            self.is_locked(ip, st, "myOutEvent")
            self.attached(ip, st, True)
        else:
            self.returned(ip, st, val, False)
            self.is_error(ip, st, errc(rs["err"]))
            self.attached(ip, st, False)
            self.slots_same(ip, st)

    def unchanged(self, ip, st):
        for n in ("myIsEmpty", "myIsError", "myIsLocked"):
            if ip.eq(st, self.val(ip, st, self.ev, n), st.rs[("ev0", n)]) is not True:
                self.bad(ip, st, "an event in progress is changed")

    def e_connupd(self, ip, st, val):
        if ip.truth(st, st.rs["locked0"]) is True:
            self.returned(ip, st, val, True)
            self.unchanged(ip, st)
        else:
            self.returned(ip, st, val, True)
            self.is_bytes(ip, st, 0)

    def u_connupd(self, ip, st, val):
        rs = st.rs
        self.unchanged(ip, st)
        if ip.truth(st, rs["locked0"]) is True:
            self.returned(ip, st, val, True)
            return
        self.returned(ip, st, val, ip.truth(st, rs[("ev0", "myIsError")]) is not True)

    def e_accept(self, ip, st, val):
        rs = st.rs
        rc = rs.get("rc")
        if ip.truth(st, rs["locked0"]) is True:
            if rc is not None or ip.eq(st, val, INVALID) is not True:
                self.bad(ip, st, "clients are accepted with an event in progress")
            self.unchanged(ip, st)
            self.slots_same(ip, st)
            return
        if rc is None:
            self.bad(ip, st, "nothing is done")
        elif rc != -1:
            if ip.eq(st, val, rc) is not True:
                self.bad(ip, st, "an accepted socket is lost")
            if not rs.get("peer"):
                self.bad(ip, st, "the address of an accepted client is not told")
            if self.locked(ip, st) is not False or self.flag(ip, st, "myIsEmpty") is not True:
                self.bad(ip, st, "the event is not empty after a success")
            self.slots_same(ip, st)
        else:
            if ip.eq(st, val, INVALID) is not True:
                self.bad(ip, st, "a failed accept returns a socket")
            if rs["err"] == EAGAIN:
                self.is_locked(ip, st, "myInEvent")
            elif rs.get("critical"):
                self.is_error(ip, st, errc(rs["err"]))
                self.crit(ip, st, errc(rs["err"]))
                self.slots_same(ip, st)
            else:
                self.retried(ip, st, errc(rs["err"]))
                self.slots_same(ip, st)

    def crit(self, ip, st, code):
        if st.rs.get("critarg") != code:
            self.bad(ip, st, "a wrong error is checked for being critical")

    def retried(self, ip, st, code):
        if st.rs.get("critical") is None:
            self.bad(ip, st, "a failed accept is not told")
            return
        self.crit(ip, st, code)
        if self.locked(ip, st) is not False or self.flag(ip, st, "myIsEmpty") is not True:
            self.bad(ip, st, "a retryable failure of accept is told as an error or as an operation in progress")
        v = self.val(ip, st, THIS, "myReadyEvents") if not self.uring else 0
        if not self.expired(ip, st) and not self.has_bit(ip, st, v, IN):
            self.bad(ip, st, "a retryable failure of accept does not reschedule the task: the next clients are not accepted")

    # ------------------------------------------------------------ io_uring
    def started(self, ip, st, op, val, ret=True):
        rs = st.rs
        if self.locked(ip, st) is not True:
            self.bad(ip, st, "an operation in progress does not lock its event: it looks ended")
        if not rs.get("submitted"):
            self.bad(ip, st, "an operation is not submitted: its event is never unlocked")
        n = self.val(ip, st, THIS, "myOperationCount")
        if ip.eq(st, n, ip.arith(st, "+", rs["myOperationCount"], 1)) is not True:
            self.bad(ip, st, "an operation in progress is not counted once: the task is closed before its end or never")
        if ip.eq(st, self.val(ip, st, self.ev, "myTask"), addr(THIS)) is not True:
            self.bad(ip, st, "an operation does not know its task")
        if ip.eq(st, self.val(ip, st, self.ev, "myOpcode"), self.ops["MG_IO_URING_OP_" + op]) is not True:
            self.bad(ip, st, "a wrong operation is submitted")

    def fd_is(self, ip, st, params, want):
        if ip.eq(st, self.val(ip, st, fld(self.ev, params), "myFd"), want) is not True:
            self.bad(ip, st, "an operation is submitted for a wrong socket")

    def u_io(self, ip, st, val, op):
        self.returned(ip, st, val, True)
        self.started(ip, st, op, val)
        self.fd_is(ip, st, "myParamsIOMsg", st.rs["sock0"])
        m = fld(fld(self.ev, "myParamsIOMsg"), "myMsg")
        d = fld(fld(self.ev, "myParamsIOMsg"), "myData")
        n = plain(self.val(ip, st, m, "msg_iovlen"))
        iov = self.val(ip, st, m, "msg_iov")
        r = deref(iov) if isinstance(iov, tuple) else None
        if r is not None and r[0] == "e" and r[2] == 0:
            r = r[1]
        if r != d:
            self.bad(ip, st, "the buffers of an operation are not the ones stored in it: they are gone when it is executed")
        ok = [x for x in st.rs.get("copied", ()) if x[0] == d]
        src = deref(ip.norm(st, self.bufs))
        if len(ok) != 1 or ok[0][1] != src:
            self.bad(ip, st, "the buffers are not copied into the operation")
            return
        if ip.eq(st, plain(ok[0][2]), ip.arith(st, "*", n, 16)) is not True:
            self.bad(ip, st, "not so many buffers are copied into the operation as it is told to have")
        want = ip.norm(st, self.count_arg)
        if ip.eq(st, n, want) is not True and ip.eq(st, n, 128) is not True or ip.lt(st, want, n) is not False:
            self.bad(ip, st, "an operation is submitted with a wrong number of buffers")

    def u_send(self, ip, st, val):
        self.u_io(ip, st, val, "SENDMSG")

    def u_recv(self, ip, st, val):
        self.u_io(ip, st, val, "RECVMSG")

    def u_connect(self, ip, st, val):
        self.returned(ip, st, val, True)
        self.attached(ip, st, True)
        self.started(ip, st, "CONNECT", val)
        self.fd_is(ip, st, "myParamsConnect", self.sock)
        pr = fld(self.ev, "myParamsConnect")
        hl = self.hostlen(ip, st, self.host)
        if ip.eq(st, plain(self.val(ip, st, pr, "myAddrLen")), hl) is not True:
            self.bad(ip, st, "an operation is submitted with a wrong address size")
        if not any(x[0] == fld(pr, "myAddr") and x[1] == fld(self.host, "myAddr") and ip.eq(st, plain(x[2]), hl) is True
                   for x in st.rs.get("copied", ())):
            self.bad(ip, st, "the address is not copied into the operation")

    def u_accept(self, ip, st, val):
        rs = st.rs
        if ip.truth(st, rs["locked0"]) is True:
            if ip.eq(st, val, INVALID) is not True or rs.get("submitted"):
                self.bad(ip, st, "clients are accepted with an event in progress")
            self.unchanged(ip, st)
            return
        e = ip.truth(st, rs[("ev0", "myIsEmpty")])
        if e is True:
            if ip.eq(st, val, INVALID) is not True:
                self.bad(ip, st, "a started accept returns a socket")
            self.started(ip, st, "ACCEPT", val)
            self.fd_is(ip, st, "myParamsAccept", rs["sock0"])
            n = self.val(ip, st, fld(self.ev, "myParamsAccept"), "myAddrLen")
            if not isinstance(n, int) or not 16 <= n <= 28:
                self.bad(ip, st, "an accept is submitted with a wrong address size")
            return
        n = self.val(ip, st, THIS, "myOperationCount")
        if rs.get("submitted") or ip.eq(st, n, rs["myOperationCount"]) is not True:
            self.bad(ip, st, "an ended accept is started again")
        if ip.truth(st, rs[("ev0", "myIsError")]) is True:
            if ip.eq(st, val, INVALID) is not True:
                self.bad(ip, st, "a failed accept returns a socket")
            if rs.get("critical"):
                self.is_error(ip, st, rs[("ev0", "myError")])
                self.crit(ip, st, rs[("ev0", "myError")])
            else:
                self.retried(ip, st, rs[("ev0", "myError")])
            return
        if plain(ip.norm(st, val)) != plain(rs[("ev0", "myBytes")]):
            self.bad(ip, st, "an accepted socket is lost")
        if not rs.get("peer"):
            self.bad(ip, st, "the address of an accepted client is not told")
        if self.locked(ip, st) is not False or self.flag(ip, st, "myIsEmpty") is not True:
            self.bad(ip, st, "an accepted socket is returned twice")


class Args(Op):
    """Start of the handling of the events of a task."""

    def setup_for(self, f, mask):
        base = self.setup(f)

        def fn(ip, st, this, args):
            base(ip, st, this, args)
            self.mask = mask
            st.store[fld(args[0][1], "myEvents")] = mask
            st.store[fld(THIS, "myIsClosed")] = 0
            self.out = args[1][1]
            st.store[fld(self.out, "myObject")] = 0
        return fn

    def enter(self, ip, st, f, ctx, this, args):
        if f.qn == NS + "IOEvent::UnlockForced" or f.qn == NS + "IOEvent::Unlock":
            st.rs["unlocked"] = st.rs.get("unlocked", ()) + (this,)

    def e_args(self, ip, st, val):
        rs = st.rs
        m = self.mask
        if m & (ERR | HUP):
            self.returned(ip, st, val, False)
            if ip.eq(st, self.val(ip, st, self.out, "myObject"), 0) is not False:
                self.bad(ip, st, "a failure of a socket is told without an error")
            self.slots_same(ip, st)
            return
        self.returned(ip, st, val, True)
        for bit, slot in ((IN, "myInEvent"), (OUT, "myOutEvent")):
            old = rs[slot]
            now = self.val(ip, st, THIS, slot)
            if m & bit and ip.eq(st, old, 0) is not True:
                if ip.eq(st, now, 0) is not True or ip.truth(st, ip.read(st, fld(deref(old), "myIsLocked"))) is not False:
                    self.bad(ip, st, "an operation is not unlocked when its socket becomes usable: it is never continued")
            elif ip.eq(st, now, old) is not True or ("&", deref(old)) in rs.get("unlocked", ()):
                self.bad(ip, st, "an operation is unlocked while its socket is not usable")


class ArgsU(Op):
    """The same for io_uring: a list of ended operations."""

    N = 2
    max_loop = 4

    def setup_for(self, f, n):
        base = self.setup(f)

        def fn(ip, st, this, args):
            base(ip, st, this, args)
            st.store[fld(THIS, "myIsClosed")] = 0
            self.n = n
            evs = [("name", "ev%d" % i) for i in range(n)]
            for i, e in enumerate(evs):
                st.store[fld(e, "myNext")] = addr(evs[i + 1]) if i + 1 < n else 0
                st.store[fld(e, "myIsLocked")] = 1
            st.store[fld(args[0][1], "myEvents")] = addr(evs[0]) if n else 0
            self.evs = evs
        return fn

    def u_args(self, ip, st, val):
        self.returned(ip, st, val, True)
        for e in self.evs:
            if ip.truth(st, ip.read(st, fld(e, "myIsLocked"))) is not False:
                self.bad(ip, st, "an ended operation stays locked: it is never continued")


class Vecs(Op):
    """Operations with lists of buffers: they are turned into the ones with vectors."""

    def on_other(self, ip, st, c):
        rs = st.rs
        if c.qn in ("mg::net::BuffersToIOVecsForWrite", "mg::net::BuffersToIOVecsForRead"):
            self.count("conversions")
            w = c.qn.endswith("Write")
            if w != (self.kind == "vsend"):
                self.rep(ip, st, "buffers are taken for a wrong direction", c)
            if ip.eq(st, self.arg(ip, st, c, 0), ip.norm(st, self.args[0])) is not True:
                self.rep(ip, st, "wrong buffers are used", c)
            if w and ip.eq(st, self.arg(ip, st, c, 1), ip.norm(st, self.args[1])) is not True:
                self.rep(ip, st, "a wrong offset in the buffers is used: bytes are lost or repeated", c)
            n = self.arg(ip, st, c, len(c.args) - 1)
            v = ip.tok(st, ("vecs", c.ctx, c.sid))
            ip.refine(st, v, lo=1, hi=n if isinstance(n, int) else INF)
            rs["vecs"] = (self.pointee(ip, st, c, len(c.args) - 2), v)
            if not isinstance(n, int) or n > 128:
                self.rep(ip, st, "more vectors are requested than there is place for", c)
            return [(st, v)]
        if c.qn in (TASK + "::Send", TASK + "::Recv") and c.fn.qn in (TASK + "::Send", TASK + "::Recv"):
            self.count("forwarded")
            v = rs.get("vecs")
            if c.name != ("Send" if self.kind == "vsend" else "Recv"):
                self.rep(ip, st, "a wrong operation is started", c)
            if v is None or self.pointee(ip, st, c, 0) != v[0] or self.arg(ip, st, c, 1) != v[1]:
                self.rep(ip, st, "not the requested buffers are used", c)
            if c.args[2] != ("L", self.ev):
                self.rep(ip, st, "a wrong event is used", c)
            r = ip.tok(st, ("result", c.ctx, c.sid))
            rs["result"] = r
            return [(st, r)]
        return super().on_other(ip, st, c)

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        self.fn, self.line = fn, line
        r = st.rs.get("result")
        if r is None or ip.eq(st, val, r) is not True:
            self.bad(ip, st, "the result of an operation is not told")


class HostConnect(Op):
    """A connect which makes its own socket."""

    def on_other(self, ip, st, c):
        rs = st.rs
        if c.qn == NS + "SocketCreate":
            self.count("sockets")
            s2 = st.copy()
            v = ip.tok(st, ("sock", c.ctx, c.sid))
            ip.refine(st, v, lo=0)
            rs["made"] = v
            e = ("o", ("error", ("t", ("errc", "socket")), 0))
            s2.store[fld(e, "myCode")] = self.known(ip, s2, ("t", ("errc", "socket")))
            s2.store[fld(c.args[2][1], "myObject")] = addr(e)
            s2.rs["made"] = -1
            return [(st, v), (s2, -1)]
        if c.qn == "mg::net::SocketFixReuseAddr":
            s2 = st.copy()
            e = ("o", ("error", 5, 1))
            s2.store[fld(c.args[1][1], "myObject")] = addr(e)
            return [(st, 1), (s2, 0)]
        if c.qn == TASK + "::ConnectStart":
            self.count("forwarded")
            if ip.eq(st, self.arg(ip, st, c, 0), rs["made"]) is not True or c.args[1] != ("L", self.host) or \
                    c.args[2] != ("L", self.ev):
                self.rep(ip, st, "a wrong connect is started", c)
            res = []
            for how in ("ok", "failed-attached", "failed"):
                s = st.copy()
                s.rs["how"] = how
                s.store[fld(THIS, "mySocket")] = rs["made"] if how != "failed" else INVALID
                s.store[fld(self.ev, "myIsEmpty")] = 0
                s.store[fld(self.ev, "myIsLocked")] = 0
                s.store[fld(self.ev, "myIsError")] = int(how != "ok")
                res.append((s, int(how == "ok")))
            return res
        if c.qn == "mg::net::SocketClose":
            self.count("closes")
            if ip.eq(st, self.arg(ip, st, c, 0), rs.get("made")) is not True or rs.get("closed"):
                self.rep(ip, st, "a wrong socket is closed", c)
            rs["closed"] = 1
            return [(st, None)]
        return super().on_other(ip, st, c)

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        self.fn, self.line = fn, line
        rs = st.rs
        if rs.get("made") == -1:
            self.returned(ip, st, val, False)
            self.is_error(ip, st, ("t", ("errc", "socket")))
            return
        h = rs.get("how")
        if h is None:
            self.bad(ip, st, "nothing is done")
            return
        self.returned(ip, st, val, h == "ok")
        if bool(rs.get("closed")) != (h == "failed"):
            self.bad(ip, st, "a socket which failed to connect is %s" % ("closed while it is owned by the task"
                                                                        if rs.get("closed") else "leaked"))


class EventMethod(Op):
    """Results of an event itself."""

    def e_event(self, ip, st, val):
        rs = st.rs
        a = ip.norm(st, self.args[0]) if self.args else None
        k = self.what
        ev0 = lambda n: rs[("ev0", n)]
        if k == "ReturnBytes":
            self.returned(ip, st, val, True)
            self.tell(ip, st, 0, 0, "myBytes", a)
        elif k == "ReturnError":
            self.returned(ip, st, val, False)
            self.tell(ip, st, 0, 1, "myError", a)
        elif k == "ReturnEmpty":
            self.returned(ip, st, val, True)
            self.tell(ip, st, 1, None, None, None)
        elif k in ("PopBytes", "PopError"):
            n = "myBytes" if k == "PopBytes" else "myError"
            if ip.eq(st, val, ev0(n)) is not True:
                self.bad(ip, st, "a wrong result of an event is told")
            self.tell(ip, st, 1, None, None, None)
        elif k in ("GetBytes", "GetError"):
            if ip.eq(st, val, ev0("myBytes" if k == "GetBytes" else "myError")) is not True:
                self.bad(ip, st, "a wrong result of an event is told")
            self.tell(ip, st, 0, int(k == "GetError"), None, None)
        elif k in ("IsEmpty", "IsError", "IsLocked"):
            if ip.truth(st, val) is not ip.truth(st, ev0("my" + k)):
                self.bad(ip, st, "a wrong state of an event is told")
        elif k == "Reset":
            self.tell(ip, st, 1, 0, None, None)
        if k in ("Lock", "Unlock", "UnlockForced", "Reset"):
            if self.locked(ip, st) is not (k == "Lock"):
                self.bad(ip, st, "an event is not %s" % ("locked" if k == "Lock" else "unlocked"))
        elif ip.eq(st, self.val(ip, st, self.ev, "myIsLocked"), ev0("myIsLocked")) is not True:
            self.bad(ip, st, "the lock of an event is changed by its result")

    u_event = e_event

    def tell(self, ip, st, empty, err, name, v):
        if self.flag(ip, st, "myIsEmpty") is not bool(empty):
            self.bad(ip, st, "a result of an event is not %s" % ("removed" if empty else "told"))
        if err is not None and self.flag(ip, st, "myIsError") is not bool(err):
            self.bad(ip, st, "an event tells a failure as a success, or the other way around")
        if name is not None and ip.eq(st, self.val(ip, st, self.ev, name), v) is not True:
            self.bad(ip, st, "a wrong result of an event is told")


def pick(p, name, pred):
    r = [f for f in p.fns(TASK + "::" + name) if pred(" ".join(x[2] for x in f.params))]
    if len(r) != 1:
        raise AnalysisBroken("anchor vanished: an overload of " + name)
    return r[0]


def operations(res, rulename, cfg):
    p = res.prog(cfg, ("aio",))
    u = cfg == "iouring"
    vec = lambda t: "IOVec" in t
    for name, kind, pred in (("Send", "send", vec), ("Recv", "recv", vec),
                             ("ConnectStart", "connect", lambda t: t.startswith("int ")),
                             ("ConnectUpdate", "connupd", lambda t: True), ("Accept", "accept", lambda t: True)):
        f = pick(p, name, pred)
        r = Op(p, kind, u)
        res.walk(p, r, f, rulename, setup=r.setup(f))
    f = pick(p, "ProcessArgs", lambda t: True)
    for m in range(3 if u else 16):
        if u:
            r = ArgsU(p, "args", True)
            res.walk(p, r, f, rulename, setup=r.setup_for(f, m))
        else:
            r = Args(p, "args", False)
            k = sum(b for i, b in enumerate((IN, OUT, ERR, HUP)) if m >> i & 1)
            res.walk(p, r, f, rulename, setup=r.setup_for(f, k))
    for name, kind in (("Send", "vsend"), ("Recv", "vrecv")):
        for f in p.fns(TASK + "::" + name):
            if "IOVec" in f.params[0][2]:
                continue
            r = Vecs(p, kind, u)
            res.walk(p, r, f, rulename, setup=r.setup(f))
    f = pick(p, "ConnectStart", lambda t: not t.startswith("int "))
    r = HostConnect(p, "connect", u)
    res.walk(p, r, f, rulename, setup=r.setup(f))
    for n in ("ReturnBytes", "ReturnError", "ReturnEmpty", "PopBytes", "PopError", "GetBytes", "GetError", "IsEmpty",
              "IsError", "IsLocked", "Lock", "Unlock", "UnlockForced", "Reset"):
        f = p.fn(NS + "IOEvent::" + n)
        r = EventMethod(p, "event", u)
        r.what = n
        base = r.setup(f)

        def setup(ip, st, this, args, base=base, r=r):
            r.args = args
            r.ev = THIS
            for x in ("myIsEmpty", "myIsError", "myIsLocked", "myBytes", "myError"):
                st.rs[("ev0", x)] = ip.norm(st, ip.read(st, fld(THIS, x)))
        res.walk(p, r, f, rulename, setup=setup)
    res.need(rulename, "exits", 40)
    res.need(rulename, "forwarded", 4)
    if not u:
        res.need(rulename, "syscalls", 4)
    else:
        res.need(rulename, "submissions", 4)


@check("C08")
def c08(res):
    res.rule("operation", "for each outcome of the system call, including each class of errors: the event is either filled with "
             "exactly this outcome and unlocked, or locked and remembered by the task (counted and submitted with io_uring) so "
             "the kernel's next report unlocks it; the return value agrees with that.")
    for cfg in CONFIGS:
        operations(res, "operation", cfg)
