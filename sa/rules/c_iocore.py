"""C01-C07: the IO core (both Linux back ends) and its tasks."""
import os
from ..core import check
from ..engine import addr, deref, region_str, root_of, under, is_acq, is_rel, INF
from ..ir import AnalysisBroken
from ..pipe import Pipe, THIS, fld

NS = "mg::aio::"
CORE = NS + "IOCore"
TASK = NS + "IOTask"
SG = "mg::box::Signal::"
STATES = ("PENDING", "WAITING", "READY", "CLOSING", "CLOSED")


def strip_or(v):
    """Parts of a bit union."""
    if isinstance(v, tuple) and v[0] == "conv":
        v = plain(v)
    if isinstance(v, tuple) and v[0] == "op" and v[1] == "|":
        return strip_or(v[2]) | strip_or(v[3])
    return {v}


def plain(v):
    """Without conversions between integer types."""
    while isinstance(v, tuple) and v[0] == "conv":
        v = v[1]
    return v


class IO(Pipe):
    ELEM = TASK
    CORE = CORE

    def __init__(self, p, entry, uring, tags=None):
        super().__init__(p, entry)
        self.uring = uring
        self.tags = tags
        v = p.enum(NS + "IOTaskStatus")
        for k in STATES:
            if "IOTASK_STATUS_" + k not in v:
                raise AnalysisBroken("anchor vanished: IOTASK_STATUS_" + k)
            setattr(self, k, v["IOTASK_STATUS_" + k])
        self.names = {v["IOTASK_STATUS_" + k]: k.lower() for k in STATES}
        self.statevals = p.enum(NS + "IOCoreState")
        self.core = THIS

    # ------------------------------------------------------------ signals and the role
    def kind_of(self, c):
        q = c.cls or ""
        if q.startswith("mg::box::ForwardList<") and "mg::aio::IOEvent" in q:
            return "events"
        return super().kind_of(c)

    def on_other(self, ip, st, c):
        q = c.qn
        rs = st.rs
        if q.startswith(SG):
            n = q[len(SG):]
            if c.kind in ("ctor", "dtor"):
                return [(st, ("L", c.obj) if c.kind == "ctor" else None)]
            if n == "Send":
                self.count("signals_sent")
                rs.pop("owes", None)
                rs["readysent"] = 1
                return [(st, None)]
            if n in ("ReceiveBlocking", "ReceiveTimed", "Receive"):
                if n != "Receive":
                    self.sleep_ready(ip, st, c)
                if n == "ReceiveBlocking":
                    return [(st, None)]
                s2 = st.copy()
                return [(st, 1), (s2, 0)]
        if q == "eventfd_write":
            fd = self.arg(ip, st, c, 0)
            want = ip.norm(st, ip.read(st, fld(self.core, "mySignalEventFd" if self.uring else "myEventFd")))
            self.count("core_signals")
            if ip.eq(st, fd, want) is not True:
                self.rep(ip, st, "a wrong descriptor is signaled: the scheduler is not woken up", c, "idle")
            else:
                if ip.eq(st, self.arg(ip, st, c, 1), 0) is True:
                    self.rep(ip, st, "a zero is written into an event descriptor: the scheduler is not woken up", c, "idle")
                rs.pop("need_signal", None)
                rs["coresent"] = 1
            return [(st, 0)]
        return None

    def sleep_ready(self, ip, st, c):
        rs = st.rs
        self.count("ready_sleeps")
        if self.has_role(st):
            self.rep(ip, st, "a worker sleeps as an idle one while being the scheduler: nobody schedules", c, "idle")
        if rs.get("owes"):
            self.rep(ip, st, "a worker goes to sleep before signaling that the scheduler role was left: all workers may "
                             "sleep with nobody scheduling", c, "idle")
        if not rs.get("tried"):
            self.rep(ip, st, "a worker goes to sleep without having tried to become the scheduler", c, "idle")
        if rs.get("lastpop") != "null":
            self.rep(ip, st, "a worker goes to sleep while there may be ready tasks", c, "idle")
        rs.pop("tried", None)
        rs.pop("lastpop", None)

    # ------------------------------------------------------------ statuses
    def domain(self, st, src, stt):
        P, W, R, C, D = self.PENDING, self.WAITING, self.READY, self.CLOSING, self.CLOSED
        if stt == "waiting":
            return (W, R, C)
        if stt == "closing":
            return (C,)
        if stt == "closed":
            return (D,)
        if stt in ("ready", "woken"):
            return (R, C)
        if src == "front":
            return (P, R, C)
        if src == "timer":
            return (W, R, C)
        if src == "kernel":
            return (P, W, R, C)
        if src == "exec":
            if st.rs.get("unready"):
                return (P, R, C)
            return (R, C, D)
        return None

    def status_of(self, region):
        return region[0] == "f" and region[1][0] == "f" and region[1][2] == "myStatus"

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        h = self.hand(st)
        if h is None or h[1] == "readylist" or region != self.statusreg(h[0]):
            if self.status_of(region):
                if not (op == "load" or op == "init" or (op == "cas" and not success)):
                    self.at(ip, st, "the status of a task is changed which is not being handled", fn, line, "lost")
            else:
                self.other_atomic(ip, st, op, region, orders, operand, result, fn, line, success)
            return
        rs = st.rs
        src = h[1]
        self.count("status_ops")
        P, W, R, C, D = self.PENDING, self.WAITING, self.READY, self.CLOSING, self.CLOSED
        if op == "init":
            return
        if op == "load" or (op == "cas" and not success):
            if is_acq(orders[-1] if op == "cas" else orders[0]) and result == C:
                rs["clacq"] = 1
            if src == "exec":
                if op == "cas":
                    rs["unready"] = 1
                return
            if rs.get("stt") in (None, "waiting"):
                if src in ("timer", "kernel") and (result in (R, C) or result == P):
                    # In a queue already, or its waker puts it there.
                    rs["stt"] = "woken"
                    if result == C:
                        rs["sawclosing"] = 1
                elif src == "front" and rs.get("stt") is None and result in (R, C):
                    rs["stt"] = "ready" if result == R else "closing"
            return
        if op == "cas":
            old, new = operand
        elif op == "xchg":
            old, new = result, operand
        else:
            self.at(ip, st, "the status of a task is overwritten: a concurrent wakeup or close request is lost", fn, line,
                    "lost")
            return
        if old == C and is_acq(orders[0]):
            rs["clacq"] = 1
        if src == "exec":
            if old == R and new == P:
                rs["unready"] = 1
            elif old != new:
                self.at(ip, st, "a task being executed gets a wrong status: its wakeups are lost", fn, line, "lost")
            return
        if new == D:
            self.closing(ip, st, h, old, fn, line)
            return
        if op == "xchg":
            self.at(ip, st, "the status of a task is overwritten: a concurrent wakeup or close request is lost", fn, line,
                    "lost")
        if old in (C, D):
            self.at(ip, st, "a close request is overwritten: the task is never closed", fn, line, "close")
        if src == "front":
            if old == P and new == W:
                rs["stt"] = "waiting"
                if self.expired(ip, st, h[0]) is not False:
                    self.at(ip, st, "a task whose deadline may be reached already is put to wait", fn, line, "time")
                if not self.no_events(ip, st, h[0]):
                    self.at(ip, st, "a task which may have not delivered events is put to wait", fn, line, "events")
            elif old == P and new == R:
                rs["stt"] = "ready"
            elif old == W and new == R and rs.get("stt") == "waiting":
                rs["stt"] = "ready"
            elif old == R and new == R:
                rs["stt"] = "ready"
            elif old != new:
                self.at(ip, st, "a queued task is made %s while being %s" % (self.names.get(new, "?"),
                                                                             self.names.get(old, "?")), fn, line, "lost")
        elif src in ("timer", "kernel"):
            if old == W and new == R:
                rs["stt"] = "ready"
            elif old != new:
                self.at(ip, st, "a task is made %s while being %s" % (self.names.get(new, "?"), self.names.get(old, "?")),
                        fn, line, "lost")

    def no_events(self, ip, st, t):
        n = "myPendingEventCount" if self.uring else "myPendingEvents"
        return ip.eq(st, self.get(ip, st, t, n), 0) is True

    def closing(self, ip, st, h, old, fn, line):
        """The status becomes closed."""
        rs = st.rs
        t = h[0]
        self.count("closes")
        if old != self.CLOSING:
            self.at(ip, st, "a task is closed without having been asked for that", fn, line, "close")
        if rs.get("clacq") is None:
            self.at(ip, st, "a task is closed without acquire of its close request: what was written before the request is "
                            "not visible", fn, line, "close")
        rs["stt"] = "closed"

    def other_atomic(self, ip, st, op, region, orders, operand, result, fn, line, success):
        pass

    # ------------------------------------------------------------ given away tasks
    def deref(self, ip, st, val, fn, line):
        if st.rs.get("pushed") is not None and val == st.rs["pushed"]:
            self.at(ip, st, "a task is accessed after it was given to the scheduler: it may be gone", fn, line, "touch")
        g = st.rs.get("given")
        if g is not None and val == g:
            self.at(ip, st, "a task is accessed after it was given to the workers: it may be gone", fn, line, "touch")

    def phase(self, ip, st, c):
        """The tasks are dealt with. Only what the rest of the step depends on is kept."""
        rs = st.rs
        self.settle(ip, st, c.fn, c.line)
        self.drop_hand(ip, st)
        self.forget_given(ip, st)
        for k in [k for k in st.store if k[0] == "f" and (k[2] == "myNext" or "'chain'" in repr(k))]:
            del st.store[k]
        for k in [k for k in st.facts if "'event'" in repr(k) or "'chain'" in repr(k) or "mySchedBatchSize" in repr(k)
                  or "mySignalEvent" in repr(k)]:
            del st.facts[k]
        v = ip.read(st, fld(THIS, "mySchedBatchSize"))
        ip.refine(st, v, lo=2)

    def forget_given(self, ip, st):
        g = st.rs.pop("given", None)
        if isinstance(g, tuple):
            ip.havoc(st, deref(g), ("gone",))
        if st.rs.get("chain") is not None and ip.eq(st, st.rs["chain"], 0) is True:
            st.rs["chain"] = 0

    # ------------------------------------------------------------ system calls on sockets
    def task_socket(self, ip, st, t):
        return ip.norm(st, ip.read(st, fld(deref(t), "mySocket")))


class Sched(IO):
    """One scheduling step."""

    per_task = ("expset", "want", "wantpend", "sockclosed", "unreg", "clacq", "sock", "sawclosing", "cancel", "evidx",
                "evadded", "moved", "subtaken", "rearmed", "ev", "errcode", "op0")

    def kernel_done(self, ip, st):
        """All of the kernel events are looked at."""
        rs = st.rs
        n = rs.get("evcount")
        if n is None:
            return True
        if ip.lt(st, rs["evnext"], n) is not False:
            # The index may have lost its value in the loop.
            if not any(f[0] == "cmp" and f[1] == "<" and f[3] == n and isinstance(f[2], tuple) and v is False
                       for f, v in st.facts.items()):
                return False
        for k in ("evcount", "evnext", "evs", "evidx"):
            rs.pop(k, None)
        return True

    def on_take(self, ip, st, t, src):
        rs = st.rs
        self.forget_given(ip, st)
        for k in self.per_task:
            rs.pop(k, None)
        if src != "kernel":
            self.kernel_done(ip, st)
        rs["sock"] = self.task_socket(ip, st, t)
        if self.uring:
            if src == "timer":
                st.store[fld(deref(t), "myPendingEventCount")] = 0
            # How many events are to be delivered.
            n = self.get(ip, st, t, "myPendingEventCount")
            rs["op0"] = self.get(ip, st, t, "myOperationCount")
            rs["want"] = ip.norm(st, ip.arith(st, "+", n, 1)) if src == "kernel" else n
            return
        if src == "timer":
            # A waiting task never has events.
            st.store[fld(deref(t), "myPendingEvents")] = 0
        rs["want"] = frozenset(self.parts(ip, st, self.get(ip, st, t, "myPendingEvents")) |
                               self.parts(ip, st, self.get(ip, st, t, "myReadyEvents")))
        rs["wantpend"] = frozenset(self.parts(ip, st, self.get(ip, st, t, "myPendingEvents")))

    def parts(self, ip, st, v):
        return {plain(x) for x in strip_or(v) if x is not None and ip.eq(st, x, 0) is not True}

    def branch(self, ip, st, cond, truth, fn, line):
        n = st.rs.get("evcount")
        if n is not None and isinstance(cond, tuple) and n in cond:
            self.kernel_done(ip, st)

    def nonzero(self, ip, st, vs):
        return {x for x in vs if ip.eq(st, x, 0) is not True}

    # ------------------------------------------------------------ kernel
    def on_other(self, ip, st, c):
        rs = st.rs
        q = c.qn
        if q == "epoll_wait":
            self.count("kernel_looks")
            rs["kernel"] = 1
            rs.pop("seenrunning", None)
            if ip.eq(st, self.arg(ip, st, c, 3), 0) is not True:
                self.rep(ip, st, "the kernel events are waited for while there may be tasks to schedule", c, "idle")
            n = ip.tok(st, ("evcount", c.ctx, c.sid))
            mx = self.arg(ip, st, c, 2)
            ip.refine(st, n, lo=-1, hi=mx if isinstance(mx, int) else INF)
            rs["evcount"] = n
            rs["evnext"] = 0
            r = c.args[1][1] if isinstance(c.args[1], tuple) and c.args[1][0] in ("L", "&") else None
            if r is None:
                raise AnalysisBroken("epoll_wait() with a strange buffer")
            if r[0] == "e":
                r = r[1]
            rs["evs"] = r
            ip.havoc(st, r, ("evs", c.ctx, c.sid))
            return [(st, n)]
        if self.uring:
            res = self.uring_call(ip, st, c)
            if res is not None:
                return res
        if q == "poll":
            self.sleep(ip, st, c)
            n = ip.tok(st, ("polled", c.ctx, c.sid))
            return [(st, n)]
        if q == "epoll_ctl":
            self.epoll_ctl(ip, st, c)
            return [(st, 0)]
        if q == "mg::net::SocketClose":
            self.close_socket(ip, st, c)
            return [(st, None)]
        return super().on_other(ip, st, c)

    def on_load(self, ip, st, region, val, fn, line):
        rs = st.rs
        evs = rs.get("evs")
        if self.uring:
            if evs is not None and region[0] == "e" and region[1] == evs:
                self.indexed(ip, st, ip.norm(st, region[2]), fn, line)
            return
        if evs is None or not under(region, evs) or region[0] != "f" or region[2] != "ptr":
            return
        e = region
        while e[0] == "f":
            e = e[1]
        self.count("kernel_events")
        idx = ip.norm(st, e[2])
        h = self.hand(st)
        if h is not None and h[1] == "kernel" and rs.get("evidx") == idx and h[0] == val:
            return
        self.indexed(ip, st, idx, fn, line)
        self.take(ip, st, ip.norm(st, val), "kernel", fn, line)
        rs["evidx"] = idx
        if isinstance(val, tuple):
            ev = plain(ip.norm(st, ip.read(st, fld(e, "events"))))
            rs["want"] = rs["want"] | {ev}
            rs["wantpend"] = rs["wantpend"] | {ev}

    def indexed(self, ip, st, idx, fn, line):
        """One more of the kernel events is looked at."""
        rs = st.rs
        nx = rs.get("evnext")
        if isinstance(nx, int) != isinstance(idx, int):
            ok = ip.lt(st, idx, nx) is not True
        else:
            ok = ip.eq(st, idx, nx) is True
        if not ok:
            self.at(ip, st, "not all of the events returned by the kernel are handled: they are never reported again", fn,
                    line, "events")
        rs["evnext"] = ip.norm(st, ip.arith(st, "+", idx, 1))

    def settle(self, ip, st, fn, line):
        h = self.hand(st)
        if h is not None and h[1] == "kernel" and ip.eq(st, h[0], 0) is True:
            if self.uring and not st.rs.get("rearmed"):
                self.at(ip, st, "the wakeup operation of the ring is not started again: the next wakeups are lost", fn, line,
                        "idle")
            st.rs.pop("hand", None)
            return
        super().settle(ip, st, fn, line)

    def settled_front(self, ip, st, t, stt):
        return self.uring and stt == "closing" and st.rs.get("cancel")

    def settled_kernel(self, ip, st, t, stt, fn, line):
        if stt is None:
            self.at(ip, st, "a kernel event of a task is not handled: the task is not executed for it", fn, line, "events")
        elif stt == "woken":
            self.pend_ok(ip, st, t, fn, line)
            if self.uring and st.rs.get("sawclosing"):
                self.closing_left(ip, st, t, fn, line)

    def locked(self, ip, st, t):
        return ip.truth(st, self.get2(ip, st, t, "myCancelEvent", "myIsLocked"))

    def get2(self, ip, st, t, a, b):
        return ip.norm(st, ip.read(st, fld(fld(deref(t), a), b)))

    def closing_left(self, ip, st, t, fn, line):
        """A completion of a closing task is handled, and the task is not closed."""
        k = self.locked(ip, st, t)
        if k is False:
            # It is in a queue.
            return
        op = self.get(ip, st, t, "myOperationCount")
        pend = self.get(ip, st, t, "myPendingEventCount")
        if k is None or ip.lt(st, pend, op) is not True:
            self.at(ip, st, "a closing task whose last operation may be finished is left alone: it is never closed", fn, line,
                    "close")

    def pend_ok(self, ip, st, t, fn, line):
        if self.uring:
            n = self.get(ip, st, t, "myPendingEventCount")
            if not st.rs.get("evadded"):
                self.at(ip, st, "a finished operation of a busy task is not remembered: it never learns the result", fn, line,
                        "events")
            elif ip.eq(st, n, st.rs["want"]) is not True:
                self.at(ip, st, "a finished operation is not counted", fn, line, "events")
            return
        have = self.parts(ip, st, self.get(ip, st, t, "myPendingEvents"))
        if not self.nonzero(ip, st, st.rs["wantpend"]) <= have:
            self.at(ip, st, "a kernel event which came while the task is busy is not remembered: it is never reported "
                            "again", fn, line, "events")

    def on_store(self, ip, st, region, val, fn, line):
        h = self.hand(st)
        rs = st.rs
        if h is None or not isinstance(h[0], tuple) or region[0] != "f":
            return
        t = deref(h[0])
        if region == fld(t, "myReadyEvents") and h[1] in ("kernel", "timer") and rs.get("stt") not in ("ready", "closed"):
            self.at(ip, st, "the events being handled by a worker are changed by the scheduler", fn, line, "events")
        if region == fld(t, "myDeadline"):
            self.at(ip, st, "the deadline of a task is changed by the scheduler", fn, line, "time")

    def check_ready(self, ip, st, t, src, c):
        rs = st.rs
        closed = rs.get("stt") == "closed"
        e = rs.get("expset")
        if e is None:
            self.rep(ip, st, "it is not told to the task whether its deadline is reached", c, "time")
        else:
            tr = ip.truth(st, e)
            ex = True if src == "timer" else self.expired(ip, st, t)
            if tr is not None and ex is not None and tr != ex:
                self.rep(ip, st, "a task is told that its deadline is%s reached, which is wrong" % ("" if tr else " not"),
                         c, "time")
        if closed:
            self.check_closed(ip, st, t, c)
        if self.uring:
            self.uring_ready(ip, st, t, src, c)
            return
        if ip.eq(st, self.get(ip, st, t, "myPendingEvents"), 0) is not True:
            self.rep(ip, st, "delivered events stay remembered as not delivered: the task never sleeps", c, "events")
        rv = self.get(ip, st, t, "myReadyEvents")
        if closed:
            if ip.eq(st, rv, 0) is not True:
                self.rep(ip, st, "events of a closed socket are delivered", c, "close")
        elif not self.nonzero(ip, st, rs["want"]) <= self.parts(ip, st, rv):
            self.rep(ip, st, "not all of the events of a task are delivered to it: they are never reported again", c,
                     "events")

    def no_events(self, ip, st, t):
        if self.uring:
            return super().no_events(ip, st, t)
        return ip.eq(st, self.get(ip, st, t, "myPendingEvents"), 0) is True

    # ------------------------------------------------------------ close
    def to_ready(self, ip, st, t, c):
        rs = st.rs
        if rs.get("stt") == "closing" or (rs.get("stt") == "woken" and rs.get("sawclosing") and self.uring):
            self.rep(ip, st, "a task which is asked to close is executed instead of being closed", c, "close")
            rs["stt"] = "ready"
        super().to_ready(ip, st, t, c)

    def close_socket(self, ip, st, c):
        rs = st.rs
        self.count("socket_closes")
        h = self.hand(st)
        fd = self.arg(ip, st, c, 0)
        if h is None or ip.eq(st, fd, rs.get("sock")) is not True:
            self.rep(ip, st, "a wrong socket is closed", c, "close")
            return
        if rs.get("stt") not in ("closing", "closed") and not rs.get("sawclosing"):
            self.rep(ip, st, "a socket is closed without a close request: its task may be using it", c, "close")
        if rs.get("sockclosed"):
            self.rep(ip, st, "a socket is closed twice", c, "close")
        if not self.uring and not rs.get("unreg"):
            self.rep(ip, st, "a socket is closed before it is removed from the kernel queue: its events keep coming for a "
                             "deleted task", c, "close")
        rs["sockclosed"] = 1

    def epoll_ctl(self, ip, st, c):
        rs = st.rs
        op = self.arg(ip, st, c, 1)
        fd = self.arg(ip, st, c, 2)
        self.count("epoll_ctls")
        h = self.hand(st)
        if op == 2 and h is not None and ip.eq(st, fd, rs.get("sock")) is True:
            if rs.get("stt") not in ("closing", "closed"):
                self.rep(ip, st, "a socket is removed from the kernel queue without a close request", c, "close")
            if rs.get("sockclosed"):
                self.rep(ip, st, "a socket is removed from the kernel queue after it was closed: another one with the same "
                                 "number may be removed", c, "close")
            rs["unreg"] = 1
        else:
            self.rep(ip, st, "a wrong operation with the kernel queue", c, "close")

    def check_closed(self, ip, st, t, c):
        rs = st.rs
        sock = rs.get("sock")
        if ip.eq(st, sock, -1) is not True and not rs.get("sockclosed"):
            self.rep(ip, st, "a closed task's socket is not closed", c, "close")
        if ip.eq(st, self.task_socket(ip, st, t), -1) is not True:
            self.rep(ip, st, "a closed task still has its socket", c, "close")
        if ip.truth(st, self.get(ip, st, t, "myIsClosed")) is not True:
            self.rep(ip, st, "a closed task does not know that it is closed", c, "close")

    # ------------------------------------------------------------ io_uring
    def domain(self, st, src, stt):
        if st.rs.get("sawclosing") and stt == "woken":
            return (self.CLOSING,)
        return super().domain(st, src, stt)

    def closing(self, ip, st, h, old, fn, line):
        super().closing(ip, st, h, old, fn, line)
        if not self.uring:
            return
        op = self.get(ip, st, h[0], "myOperationCount")
        pend = self.get(ip, st, h[0], "myPendingEventCount")
        if ip.eq(st, op, pend) is not True:
            self.at(ip, st, "a task is closed while its operations may be not finished: the kernel uses the memory of a "
                            "deleted task", fn, line, "close")
        if h[1] == "kernel" and self.locked(ip, st, h[0]) is not True:
            self.at(ip, st, "a task which may be in a queue or in a worker is closed", fn, line, "close")

    def uring_ready(self, ip, st, t, src, c):
        rs = st.rs
        n = self.get(ip, st, t, "myReadyEventCount")
        if src != "timer":
            if src == "kernel" and not rs.get("evadded"):
                self.rep(ip, st, "a finished operation is not delivered to its task", c, "events")
            if not rs.get("moved"):
                self.rep(ip, st, "finished operations are not delivered to their task", c, "events")
            elif ip.eq(st, n, rs["want"]) is not True:
                self.rep(ip, st, "a wrong number of delivered operations is told to the task", c, "events")
        if ip.eq(st, self.get(ip, st, t, "myPendingEventCount"), 0) is not True:
            self.rep(ip, st, "delivered operations stay counted as not delivered", c, "events")
        self.submits_taken(ip, st, src, c.fn, c.line)

    def submits_taken(self, ip, st, src, fn, line):
        if src == "front" and not st.rs.get("subtaken"):
            self.at(ip, st, "new operations of a task are not taken for submission: they never start", fn, line, "events")

    def drop_hand(self, ip, st):
        h = self.hand(st)
        ev = st.rs.pop("ev", None)
        if ev is not None:
            ip.havoc(st, deref(ev[0]), ("gone",))
            ip.havoc(st, deref(ev[1]), ("gone",))
        if self.uring and h is not None and h[1] == "front" and (st.rs.get("stt") == "waiting" or st.rs.get("cancel")):
            self.submits_taken(ip, st, "front", self.lastfn, self.lastline)
        super().drop_hand(ip, st)

    def c_events(self, ip, st, c):
        rs = st.rs
        n = c.name
        r = c.obj
        h = self.hand(st)
        self.lastfn, self.lastline = c.fn, c.line
        owner = None
        if r is not None and r[0] == "f":
            if h is not None and isinstance(h[0], tuple) and r[1] == deref(h[0]):
                owner = r[2]
            elif r == fld(THIS, "myToSubmitEvents"):
                owner = "core"
        if c.kind in ("ctor", "dtor"):
            return [(st, ("L", r) if c.kind == "ctor" else None)]
        if n == "IsEmpty":
            if owner == "core":
                return [(s, int(e)) for s, e in self.split_empty(ip, st, r)]
            t = ip.tok(st, ("evempty", c.ctx, c.sid))
            return [(st, t)]
        if n in ("Append", "Prepend", "operator=") and len(c.args) == 1:
            a = c.args[0]
            if isinstance(a, tuple) and a[0] == "L":
                src = a[1]
                if h is None or not isinstance(h[0], tuple) or src[0] != "f" or src[1] != deref(h[0]):
                    self.rep(ip, st, "a wrong list of events is moved", c, "events")
                    return [(st, None)]
                if src[2] == "myToSubmitEvents" and owner == "core" and n != "operator=":
                    rs["subtaken"] = 1
                    rs[("L", r)] = "u" if self.lstate(st, r) == "e" else self.lstate(st, r)
                elif src[2] == "myPendingEvents" and owner == "myReadyEvents":
                    self.count("deliveries")
                    if rs.get("moved"):
                        self.rep(ip, st, "delivered operations are overwritten", c, "events")
                    if h[1] == "kernel" and not rs.get("evadded"):
                        self.rep(ip, st, "a finished operation is not delivered to its task", c, "events")
                    rs["moved"] = 1
                else:
                    self.rep(ip, st, "a list of events is moved to a wrong place", c, "events")
                return [(st, ("L", r) if n == "operator=" else None)]
            e = ip.norm(st, a)
            if owner == "core":
                self.started(ip, st, e, c)
                rs[("L", r)] = "n"
            elif owner == "myPendingEvents" and h[1] == "kernel" and ip.eq(st, e, rs.get("ev", (None,))[0]) is True:
                if rs.get("evadded"):
                    self.rep(ip, st, "a finished operation is delivered twice", c, "events")
                self.result_ok(ip, st, c)
                rs["evadded"] = 1
            else:
                self.rep(ip, st, "an operation is put into a wrong list", c, "events")
            return [(st, None)]
        if n == "PopFirst" and owner == "core":
            self.settle(ip, st, c.fn, c.line)
            self.forget_given(ip, st)
            if self.lstate(st, r) == "e":
                return []
            if rs.get("sub") is not None:
                self.rep(ip, st, "an operation is popped and not submitted: it never ends", c, "events")
            t = ip.tok(st, ("subev", c.ctx, c.sid))
            ip.refine(st, t, ne=0)
            rs["sub"] = t
            rs.pop("prep", None)
            rs[("L", r)] = "u"
            self.count("submissions")
            return [(st, t)]
        if n in ("GetFirst", "GetLast"):
            return [(st, ip.tok(st, ("evfirst", c.ctx, c.sid)))]
        return None

    def started(self, ip, st, e, c):
        """An own operation of the scheduler is queued for submission."""
        rs = st.rs
        h = self.hand(st)
        if ip.eq(st, e, addr(fld(THIS, "mySignalEvent"))) is True or (
                h is not None and ip.eq(st, h[0], 0) is True and ip.eq(st, e, rs.get("ev", (None,))[0]) is True):
            self.count("rearms")
            rs["rearmed"] = 1
            return
        if h is not None and isinstance(h[0], tuple) and ip.eq(st, e, addr(fld(deref(h[0]), "myCancelEvent"))) is True:
            t = h[0]
            self.count("cancels")
            if rs.get("cancel") or h[1] != "front" or rs.get("stt") != "closing":
                self.rep(ip, st, "operations of a task are canceled at a wrong moment", c, "close")
            rs["cancel"] = 1
            if self.locked(ip, st, t) is not True:
                self.rep(ip, st, "a cancelation is started without being marked so: the task is never closed", c, "close")
            x = self.get(ip, st, t, "myOperationCount")
            if ip.eq(st, x, ip.arith(st, "+", rs["op0"], 1)) is not True:
                self.rep(ip, st, "a cancelation is not counted as an operation of the task: the task is closed before it "
                                 "ends", c, "close")
            if ip.eq(st, self.get2(ip, st, t, "myCancelEvent", "myTask"), t) is not True:
                self.rep(ip, st, "a cancelation is started for a wrong task", c, "close")
            ops = self.p.enum(NS + "IOUringOpcode")
            if self.get2(ip, st, t, "myCancelEvent", "myOpcode") != ops["MG_IO_URING_OP_CANCEL_FD"]:
                self.rep(ip, st, "a cancelation is started with a wrong operation code", c, "close")
            fd = [v for k, v in st.store.items() if k[0] == "f" and k[2] == "myFd" and
                  under(k, fld(deref(t), "myCancelEvent"))]
            if not any(ip.eq(st, v, rs["sock"]) is True for v in fd):
                self.rep(ip, st, "a wrong socket's operations are canceled", c, "close")
            return
        self.rep(ip, st, "a wrong operation is queued for submission", c, "events")

    def result_ok(self, ip, st, c):
        rs = st.rs
        ev, cqe = rs["ev"]
        r = deref(ev)
        res = ip.norm(st, ip.read(st, fld(deref(cqe), "res")))
        if ip.truth(st, ip.read(st, fld(r, "myIsEmpty"))) is not False:
            self.rep(ip, st, "a finished operation is delivered without its result", c, "events")
            return
        err = ip.truth(st, ip.read(st, fld(r, "myIsError")))
        neg = ip.lt(st, res, 0)
        val = [v for k, v in st.store.items() if k[0] == "f" and k[2] in ("myBytes", "myError") and under(k, r)]
        if neg is None or err is None or err != neg:
            self.rep(ip, st, "a failure of an operation is delivered as a success, or the other way around", c, "events")
        elif err:
            if rs.get("errcode") is None or not any(ip.eq(st, v, rs["errcode"]) is True for v in val):
                self.rep(ip, st, "a wrong error of an operation is delivered", c, "events")
        elif not any(ip.eq(st, plain(v), res) is True for v in val):
            self.rep(ip, st, "a wrong number of bytes of an operation is delivered", c, "events")

    PREPS = {"io_uring_prep_connect": ("MG_IO_URING_OP_CONNECT", "myParamsConnect", ("", "myFd", "myAddr", "myAddrLen")),
             "io_uring_prep_accept": ("MG_IO_URING_OP_ACCEPT", "myParamsAccept", ("", "myFd", "myAddr", "&myAddrLen")),
             "io_uring_prep_recvmsg": ("MG_IO_URING_OP_RECVMSG", "myParamsIOMsg", ("", "myFd", "&myMsg")),
             "io_uring_prep_sendmsg": ("MG_IO_URING_OP_SENDMSG", "myParamsIOMsg", ("", "myFd", "&myMsg")),
             "io_uring_prep_read": ("MG_IO_URING_OP_READ", "myParamsRead", ("", "myFd", "myBuf", "mySize")),
             "io_uring_prep_rw": ("MG_IO_URING_OP_CANCEL_FD", "myParamsCancelFd", ("=14", "", "myFd"))}

    def uring_call(self, ip, st, c):
        rs = st.rs
        q = c.qn
        if q == "io_uring_peek_batch_cqe":
            self.count("kernel_looks")
            rs["kernel"] = 1
            rs.pop("seenrunning", None)
            n = ip.tok(st, ("evcount", c.ctx, c.sid))
            mx = self.arg(ip, st, c, 2)
            ip.refine(st, n, lo=0, hi=mx if isinstance(mx, int) else INF)
            rs["evcount"] = n
            rs["evtotal"] = n
            rs["evnext"] = 0
            r = c.args[1][1] if isinstance(c.args[1], tuple) and c.args[1][0] in ("L", "&") else None
            if r is None:
                raise AnalysisBroken("completions are peeked into a strange buffer")
            if r[0] == "e":
                r = r[1]
            rs["evs"] = r
            ip.havoc(st, r, ("cqes", c.ctx, c.sid))
            return [(st, n)]
        if q == "io_uring_cqe_get_data":
            cqe = self.arg(ip, st, c, 0)
            self.settle(ip, st, c.fn, c.line)
            self.count("kernel_events")
            e = ip.tok(st, ("event", c.ctx, c.sid))
            ip.refine(st, e, ne=0)
            t = ip.norm(st, ip.read(st, fld(deref(e), "myTask")))
            self.take(ip, st, t, "kernel", c.fn, c.line)
            rs["ev"] = (e, cqe)
            return [(st, e)]
        if q == "mg::box::ErrorCodeFromErrno":
            t = ip.tok(st, ("errcode", c.ctx, c.sid))
            ev = rs.get("ev")
            a = self.arg(ip, st, c, 0)
            if ev is not None:
                res = ip.norm(st, ip.read(st, fld(deref(ev[1]), "res")))
                if ip.eq(st, plain(a), ip.arith(st, "-", 0, res)) is True:
                    rs["errcode"] = t
            return [(st, t)]
        if q == "io_uring_cq_advance":
            self.settle(ip, st, c.fn, c.line)
            n = self.arg(ip, st, c, 1)
            self.count("advances")
            if ip.eq(st, n, rs.get("evtotal")) is not True:
                self.rep(ip, st, "a wrong number of completions is marked as handled", c, "events")
            if not self.kernel_done(ip, st):
                self.rep(ip, st, "completions are marked as handled before being handled", c, "events")
                rs.pop("evcount", None)
            rs.pop("evtotal", None)
            return [(st, None)]
        if q == "io_uring_get_sqe":
            if not rs.get("subphase"):
                self.phase(ip, st, c)
                rs["subphase"] = 1
            s2 = st.copy()
            t = ip.tok(st, ("sqe", c.ctx, c.sid))
            ip.refine(st, t, ne=0)
            rs["sqe"] = t
            return [(st, t), (s2, 0)]
        if q in self.PREPS:
            self.prepare(ip, st, c, *self.PREPS[q])
            return [(st, None)]
        if q == "io_uring_sqe_set_data":
            s = self.arg(ip, st, c, 0)
            e = self.arg(ip, st, c, 1)
            sub = rs.get("sub")
            if sub is None or ip.eq(st, e, sub) is not True or ip.eq(st, s, rs.get("sqe")) is not True:
                self.rep(ip, st, "a submitted operation is bound to a wrong event: a wrong task gets its result", c, "events")
            if not rs.get("prep"):
                self.rep(ip, st, "an operation is submitted without being filled in", c, "events")
            elif rs["prep"] == "cancel" and ip.norm(st, ip.read(st, fld(deref(s), "cancel_flags"))) != 3:
                if not any(k[0] == "f" and k[2] == "cancel_flags" and v == 3 for k, v in st.store.items()):
                    self.rep(ip, st, "not all operations of a closing socket are canceled", c, "close")
            for k in ("sub", "prep", "sqe"):
                rs.pop(k, None)
            rs["prepared"] = 1
            return [(st, None)]
        if q == "io_uring_submit":
            self.count("submits")
            rs.pop("prepared", None)
            return [(st, ip.tok(st, ("submit", c.ctx, c.sid)))]
        return None

    def prepare(self, ip, st, c, op, params, args):
        rs = st.rs
        sub = rs.get("sub")
        self.count("preparations")
        ops = self.p.enum(NS + "IOUringOpcode")
        if sub is None:
            self.rep(ip, st, "a submission is filled in for no operation", c, "events")
            return
        if ip.norm(st, ip.read(st, fld(deref(sub), "myOpcode"))) != ops[op]:
            self.rep(ip, st, "a wrong operation is submitted", c, "events")
        rs["prep"] = "cancel" if op.endswith("CANCEL_FD") else "op"
        for i, a in enumerate(args):
            v = self.arg(ip, st, c, i)
            if a == "":
                continue
            if a[0] == "=":
                ok = v == int(a[1:])
            else:
                ok = a.lstrip("&") in repr(v) and params in repr(v)
            if not ok:
                self.rep(ip, st, "an operation is submitted with wrong parameters", c, "events")

    # ------------------------------------------------------------ sleep
    def other_domain(self, ip, st, op, region):
        if region == fld(fld(THIS, "myState"), "myValue"):
            return tuple(sorted(set(self.statevals.values())))
        return None

    def other_atomic(self, ip, st, op, region, orders, operand, result, fn, line, success):
        if region == fld(fld(THIS, "myState"), "myValue") and op == "load":
            if result == self.statevals["IOCORE_STATE_RUNNING"] and st.rs.get("kernel"):
                st.rs["seenrunning"] = 1

    def sleep(self, ip, st, c):
        rs = st.rs
        self.count("sleeps")
        fds = c.args[0]
        r = ip.region_of(fds) if not (isinstance(fds, tuple) and fds[0] == "&") else fds[1]
        if r[0] == "e" and ("f", r, "fd") not in st.store:
            r = r[1]
        fd = ip.norm(st, ip.read(st, fld(r, "fd")))
        want = ip.norm(st, ip.read(st, fld(THIS, "myRingEventFd" if self.uring else "myNativeCore")))
        if ip.eq(st, fd, want) is not True:
            self.rep(ip, st, "the scheduler sleeps on a wrong descriptor", c, "idle")
        ev = ip.norm(st, ip.read(st, fld(r, "events")))
        if not isinstance(ev, int) or not ev & 1:
            self.rep(ip, st, "the scheduler sleeps without waiting for input", c, "idle")
        self.before_sleep(ip, st, c.fn, c.line)
        if self.uring and self.lstate(st, fld(THIS, "myToSubmitEvents")) != "e":
            self.rep(ip, st, "the scheduler goes to sleep with not submitted operations", c, "idle")
        if not rs.get("kernel"):
            self.rep(ip, st, "the scheduler goes to sleep without having looked for the kernel events", c, "idle")
        if not rs.get("seenrunning"):
            self.rep(ip, st, "the scheduler goes to sleep without checking if it is being stopped: the stop waits for the "
                             "sleep", c, "end")
        tm = self.arg(ip, st, c, 2)
        h = rs.get("heap", "u")
        if ip.eq(st, tm, 0) is True:
            return
        if h != "e":
            if ip.lt(st, tm, 0) is not False:
                self.rep(ip, st, "the scheduler may sleep without a timeout while tasks may wait for their deadlines", c,
                         "time")
            elif not self.timeout_ok(ip, st, tm):
                self.rep(ip, st, "the scheduler may sleep longer than till the first deadline", c, "time")

    def step_done(self, ip, st, fn, line):
        rs = st.rs
        self.lastfn, self.lastline = fn, line
        if rs.get("prepared"):
            self.at(ip, st, "filled in operations are not submitted: they never start", fn, line, "events")
        if rs.get("sub") is not None:
            self.at(ip, st, "an operation is popped and not submitted: it never ends", fn, line, "events")
        if rs.get("evtotal") is not None:
            self.at(ip, st, "handled completions stay in the ring: they are delivered again", fn, line, "events")
        super().step_done(ip, st, fn, line)
        if not self.kernel_done(ip, st):
            self.at(ip, st, "not all of the events returned by the kernel are handled: they are never reported again", fn,
                    line, "events")

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        self.step_done(ip, st, fn, line)
        self.progress(ip, st, fn, line)


class Base2(IO):
    """Pieces of the IO core which are not the scheduling step."""

    def end_field(self, region, name):
        return region[0] == "f" and region[2] == "myValue" and region[1][0] == "f" and region[1][2] == name

    def current(self, ip, st):
        for k, v in st.store.items():
            if k[0] == "g" and k[1].endswith("theCurrentIOTask"):
                return ip.norm(st, v)
        return None

    def c_events(self, ip, st, c):
        rs = st.rs
        n = c.name
        r = c.obj
        if c.kind in ("ctor", "dtor"):
            return [(st, ("L", r) if c.kind == "ctor" else None)]
        if n == "IsEmpty":
            return [(st, ip.tok(st, ("evempty", c.ctx, c.sid)))]
        if n == "PopAll":
            t = ip.tok(st, ("allevents", c.ctx, c.sid))
            rs[("all", r)] = t
            return [(st, t)]
        if n == "Append" and len(c.args) == 1:
            rs[("appended", r)] = rs.get(("appended", r), ()) + (ip.norm(st, c.args[0]),)
            return [(st, None)]
        return None

    def counter(self, ip, st, op, region, operand):
        """+1, -1, or None if it is not the counter of descriptors."""
        if not self.end_field(region, "myDescriptorCount") or op in ("load", "init"):
            return None
        if op == "rmw+" and operand == 1 or op == "rmw-" and operand == -1:
            return 1
        if op == "rmw-" and operand == 1 or op == "rmw+" and operand == -1:
            return -1
        return 0


class Exec(Base2):
    """Execution of one task by a worker."""

    def domain(self, st, src, stt):
        if st.rs.get("wasclosed"):
            return (self.CLOSED,)
        if st.rs.get("unready"):
            return (self.PENDING, self.READY, self.CLOSING)
        if st.rs.get("wasclosed") is None:
            return (self.READY, self.CLOSING, self.CLOSED)
        return (self.READY, self.CLOSING)

    def on_call(self, ip, st, c):
        if c.name == "OnEvent" and c.kind not in ("ctor", "dtor"):
            return self.callback(ip, st, c)
        return super().on_call(ip, st, c)

    def branch(self, ip, st, cond, truth, fn, line):
        h = self.hand(st)
        if h is not None and isinstance(h[0], tuple) and st.rs.get("wasclosed") is None:
            st.rs["wasclosed"] = ip.truth(st, self.get(ip, st, h[0], "myIsClosed"))
            if st.rs["wasclosed"] is None:
                st.rs.pop("wasclosed")

    def callback(self, ip, st, c):
        rs = st.rs
        h = self.hand(st)
        self.count("callbacks")
        if h is None or rs.get("called"):
            self.rep(ip, st, "a callback of a task is called twice", c, "once")
            return [(st, None)]
        t = h[0]
        closed = ip.truth(st, self.get(ip, st, t, "myIsClosed"))
        if c.obj is None or c.obj != deref(rs["sub0"]) and ip.eq(st, addr(c.obj), rs["sub0"]) is not True:
            self.rep(ip, st, "a callback of a wrong subscription is called", c, "once")
        if ip.eq(st, self.current(ip, st), t) is not True:
            self.rep(ip, st, "a callback is called while its task does not know it: the task can't be used from it", c,
                     "once")
        if ip.truth(st, self.get(ip, st, t, "myIsInQueues")) is not False:
            self.rep(ip, st, "a task is executed while being marked as queued: its callback can't use it", c, "once")
        if not rs.get("unready"):
            self.rep(ip, st, "a task is executed while it is marked as ready: its wakeups are lost", c, "lost")
        dl = self.get(ip, st, t, "myDeadline")
        if ip.eq(st, dl, (1 << 64) - 1) is not True and ip.eq(st, dl, -1) is not True:
            self.rep(ip, st, "the deadline of a task stays set when it is executed: it is executed again because of the old "
                             "one", c, "time")
        if closed is True and self.uring and not rs.get("cleaned"):
            pass
        self.args_ok(ip, st, t, closed, c)
        if closed is True:
            self.count("last_callbacks")
            if ip.eq(st, self.sub(ip, st, t), 0) is not True:
                self.rep(ip, st, "a closed task still has its subscription in its last callback: it can't be posted again "
                                 "from there", c, "close")
            self.clean(ip, st, t, c)
            rs["gone"] = 1
            if rs.get("cnt"):
                self.rep(ip, st, "a closed task is not counted any more before its last callback: the core looks empty", c,
                         "end")
        elif closed is None:
            self.rep(ip, st, "a task is executed without having looked if it is closed", c, "close")
        rs["called"] = 1
        rs["closed"] = 1 if closed else 0
        ip.havoc(st, deref(t), ("cb", c.ctx, c.sid))
        st.store[fld(deref(t), "myIsInQueues")] = 0
        self.drop_hand(ip, st)
        rs["done"] = t
        return [(st, None)]

    def drop_hand(self, ip, st):
        st.rs.pop("hand", None)

    def sub(self, ip, st, t):
        r = fld(deref(t), "mySub")
        for k, v in st.store.items():
            if under(k, r) and k != r:
                return ip.norm(st, v)
        return None

    def args_ok(self, ip, st, t, closed, c):
        rs = st.rs
        a = c.args[0] if c.args else None
        r = a[1] if isinstance(a, tuple) and a[0] in ("L", "&") else None
        if r is None:
            raise AnalysisBroken("a callback has strange arguments")
        v = ip.norm(st, ip.read(st, fld(r, "myEvents")))
        if self.uring:
            al = rs.get(("all", fld(deref(t), "myReadyEvents")))
            if al is None or ip.eq(st, v, al) is not True:
                self.rep(ip, st, "the finished operations of a task are not passed to its callback", c, "events")
            n = self.get(ip, st, t, "myReadyEventCount")
            op = self.get(ip, st, t, "myOperationCount")
            if ip.eq(st, n, 0) is not True:
                self.rep(ip, st, "delivered operations stay counted: they are counted twice", c, "events")
            if ip.eq(st, op, ip.arith(st, "-", rs["op0"], rs["n0"])) is not True:
                self.rep(ip, st, "a wrong number of operations of a task is counted: it is closed too early or never", c,
                         "close events")
            return
        if ip.eq(st, v, rs["ev0"]) is not True:
            self.rep(ip, st, "not the events which came are passed to the callback", c, "events")
        if ip.eq(st, self.get(ip, st, t, "myReadyEvents"), 0) is not True:
            self.rep(ip, st, "delivered events are delivered again", c, "events")

    def clean(self, ip, st, t, c):
        rs = st.rs
        if self.uring:
            return
        for n in ("myInEvent", "myOutEvent"):
            if ip.eq(st, self.get(ip, st, t, n), 0) is not True:
                self.rep(ip, st, "an unfinished operation of a closed task is not finished: its event is locked forever", c,
                         "close")
            e = dict(rs["io"])[n]
            if ip.eq(st, e, 0) is True:
                continue
            self.count("aborted")
            for k, want in (("myIsLocked", False), ("myIsEmpty", False), ("myIsError", True)):
                if ip.truth(st, ip.read(st, fld(deref(e), k))) is not want:
                    self.rep(ip, st, "an unfinished operation of a closed task is not finished with an error", c, "close")
                    break

    def other_atomic(self, ip, st, op, region, orders, operand, result, fn, line, success):
        d = self.counter(ip, st, op, region, operand)
        if d is None:
            return
        rs = st.rs
        self.count("counts")
        if d != -1 or rs.get("cnt"):
            self.at(ip, st, "the number of open tasks is changed wrongly: the core never looks empty or looks so too early",
                    fn, line, "end")
        if not rs.get("called"):
            self.at(ip, st, "a closed task is not counted any more before its last callback: the core looks empty", fn, line,
                    "end")
        rs["cnt"] = 1

    def used(self, ip, st, region, fn, line):
        rs = st.rs
        if rs.get("done") is not None and (rs.get("gone") or rs.get("npush")) and under(region, deref(rs["done"])):
            self.at(ip, st, "a task is accessed after %s: it may be deleted already" % (
                "it was given back to the scheduler" if rs.get("npush") else "its last callback"), fn, line, "touch")

    def on_load(self, ip, st, region, val, fn, line):
        self.used(ip, st, region, fn, line)

    def on_store(self, ip, st, region, val, fn, line):
        self.used(ip, st, region, fn, line)

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        self.used(ip, st, region, fn, line)
        super().atomic(ip, st, op, region, orders, operand, result, fn, line, success)

    def deref(self, ip, st, val, fn, line):
        pass

    def on_push(self, ip, st, t, c):
        rs = st.rs
        self.count("pushes")
        if rs.get("npush"):
            self.rep(ip, st, "a task is queued twice", c, "once")
        if not rs.get("called"):
            self.rep(ip, st, "a task is queued without having been executed", c, "once")
        elif rs.get("closed"):
            self.rep(ip, st, "a closed task is queued again", c, "close")
        if ip.eq(st, t, rs.get("task")) is not True:
            self.rep(ip, st, "a wrong task is queued", c, "once")
        elif ip.truth(st, self.get(ip, st, t, "myIsInQueues")) is not True:
            self.rep(ip, st, "a task is queued without being marked so: it can be changed while the scheduler uses it", c,
                     "touch")
        rs["npush"] = 1

    def end(self, ip, st, val, fn, line):
        rs = st.rs
        self.count("exits")
        t = rs["task"]
        v = ip.truth(st, val)
        if ip.eq(st, t, 0) is True:
            if v is not False:
                self.at(ip, st, "it is told that a task was executed while there was none: workers never sleep", fn, line,
                        "idle")
            return
        if v is not True:
            self.at(ip, st, "it is told that there was no task while it was executed: a worker sleeps with ready tasks", fn,
                    line, "idle")
        if not rs.get("called"):
            self.at(ip, st, "a popped task is not executed", fn, line, "once")
            return
        cur = self.current(ip, st)
        if cur is not None and ip.eq(st, cur, 0) is not True:
            self.at(ip, st, "a task is remembered as being executed after it was: the next one can't be", fn, line, "once")
        if rs.get("closed"):
            if not rs.get("cnt"):
                self.at(ip, st, "a closed task stays counted: the core never looks empty", fn, line, "end")
        else:
            if not rs.get("npush"):
                self.at(ip, st, "an executed task is not given back to the scheduler: it is never executed again", fn, line,
                        "once")
            if rs.get("cnt"):
                self.at(ip, st, "a not closed task is not counted any more: the core looks empty too early", fn, line, "end")
        if rs.get("need_signal"):
            self.at(ip, st, "the front queue became not empty and the scheduler is not woken up", fn, line, "idle")


def exec_setup(ip, st, this, args):
    t = args[0]
    rs = st.rs
    rs["task"] = t
    rs["hand"] = (t, "exec")
    rs["sub0"] = ip.norm(st, ip.read(st, fld(fld(deref(t), "mySub"), "myObject")))
    ip.refine(st, rs["sub0"], ne=0)
    st.store[fld(deref(t), "myIsInQueues")] = 1
    self = ip.rule
    if self.uring:
        rs["n0"] = self.get(ip, st, t, "myReadyEventCount")
        rs["op0"] = self.get(ip, st, t, "myOperationCount")
    else:
        rs["ev0"] = self.get(ip, st, t, "myReadyEvents")
        rs["io"] = tuple((n, self.get(ip, st, t, n)) for n in ("myInEvent", "myOutEvent"))


class Post(Base2):
    """The first post of a task, and the next one after it was closed."""

    def this_status(self):
        return fld(fld(THIS, "myStatus"), "myValue")

    def atomic_domain(self, ip, st, op, region):
        if region == self.this_status():
            if st.rs.get("reused"):
                return (self.PENDING, self.READY, self.CLOSING) if st.rs.get("unguarded") else (self.PENDING, self.READY)
            # A new task can be woken up or closed before its post.
            return (self.PENDING, self.READY, self.CLOSING, self.CLOSED)
        if self.end_field(region, "myCloseGuard"):
            return (1,) if st.rs.get("reused") else (0, 1)
        return None

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        rs = st.rs
        self.used(ip, st, region, fn, line)
        d = self.counter(ip, st, op, region, operand)
        if d is not None:
            self.count("counts")
            if d != 1 or rs.get("cnt"):
                self.at(ip, st, "the number of open tasks is changed wrongly: the core never looks empty or looks so too "
                                "early", fn, line, "end")
            if rs.get("npush"):
                self.at(ip, st, "a task is counted after it was queued: the core looks empty while the task is executed", fn,
                        line, "end")
            rs["cnt"] = 1
            return
        if region == self.this_status():
            self.count("status_ops")
            if op == "cas" and success:
                if operand[0] == self.CLOSED and operand[1] == self.PENDING:
                    rs["reused"] = 1
                    if rs.get("unguarded"):
                        self.at(ip, st, "a closed task can be asked to close before it is open again: the request is lost",
                                fn, line, "close")
                elif operand[0] != operand[1]:
                    self.at(ip, st, "a wrong status is given to a posted task: its wakeups are lost", fn, line, "lost")
            elif op == "cas":
                if result == self.CLOSED:
                    self.at(ip, st, "a closed task is posted with its closed status", fn, line, "close")
            elif op not in ("load", "init"):
                self.at(ip, st, "the status of a posted task is overwritten: wakeups and close requests made before are lost",
                        fn, line, "lost")
        elif self.end_field(region, "myCloseGuard") and op in ("xchg", "store", "cas") and success is not False:
            new = operand[1] if op == "cas" else operand
            if ip.truth(st, new) is not False:
                self.at(ip, st, "a posted task can't be closed", fn, line, "close")
            elif not rs.get("reused"):
                self.at(ip, st, "a close request made before the post of a task is forgotten", fn, line, "close")
            if ip.truth(st, ip.read(st, fld(THIS, "myIsClosed"))) is not False:
                pass
            rs["unguarded"] = 1

    def on_other(self, ip, st, c):
        rs = st.rs
        q = c.qn
        if q == "epoll_ctl":
            self.count("registrations")
            op = self.arg(ip, st, c, 1)
            if op != 1 or ip.eq(st, self.arg(ip, st, c, 2), rs.get("sock")) is not True:
                self.rep(ip, st, "a wrong socket is registered in the kernel", c, "events")
            a = c.args[3]
            r = ip.region_of(a) if not (isinstance(a, tuple) and a[0] in ("&", "L")) else a[1]
            d = [v for k, v in st.store.items() if under(k, r) and k[0] == "f" and k[2] == "ptr"]
            if not any(ip.eq(st, v, addr(THIS)) is True for v in d):
                self.rep(ip, st, "a socket is registered in the kernel for a wrong task", c, "events")
            ev = ip.norm(st, ip.read(st, fld(r, "events")))
            # In, out, edge-triggered.
            if not isinstance(ev, int) or ev & 0x5 != 0x5 or not ev & (1 << 31):
                self.rep(ip, st, "a socket is registered in the kernel not for all of the needed events", c, "events")
            if rs.get("npush"):
                self.rep(ip, st, "a socket is registered in the kernel after its task was queued: the task may be closed "
                                 "already", c, "touch")
            rs["registered"] = 1
            return [(st, 0)]
        if q == "mg::aio::IOCore::PrivKernelRegister" and self.uring:
            return None
        return super().on_other(ip, st, c)

    def used(self, ip, st, region, fn, line):
        if st.rs.get("npush") and under(region, THIS):
            self.at(ip, st, "a task is accessed after it was given to the scheduler: it may be executed and deleted already",
                    fn, line, "touch")

    def on_load(self, ip, st, region, val, fn, line):
        self.used(ip, st, region, fn, line)

    def on_store(self, ip, st, region, val, fn, line):
        self.used(ip, st, region, fn, line)

    def deref(self, ip, st, val, fn, line):
        pass

    def delete(self, ip, st, val, node, fn, line):
        self.count("deletes")
        s = st.rs.get("server")
        if s is None or ip.eq(st, val, s) is not True or st.rs.get("deleted"):
            self.at(ip, st, "a wrong object is deleted", fn, line, "once")
        elif ip.eq(st, ip.read(st, fld(deref(s), "mySock")), -1) is not True:
            self.at(ip, st, "a listening socket is closed by its post", fn, line, "close")
        st.rs["deleted"] = 1
        return [(st, None)]

    def on_push(self, ip, st, t, c):
        rs = st.rs
        self.count("pushes")
        if ip.eq(st, t, addr(THIS)) is not True:
            self.rep(ip, st, "a wrong task is queued", c, "once")
        if rs.get("npush"):
            self.rep(ip, st, "a task is queued twice", c, "once")
        if not rs.get("cnt"):
            self.rep(ip, st, "a task is queued before it is counted: the core looks empty while the task is executed", c,
                     "end")
        sub = [v for k, v in st.store.items() if under(k, fld(THIS, "mySub")) and k != fld(THIS, "mySub")]
        if not any(ip.eq(st, v, rs["sub"]) is True for v in sub):
            self.rep(ip, st, "a task is queued without its subscription", c, "once")
        if ip.eq(st, ip.read(st, fld(THIS, "mySocket")), rs["sock"]) is not True:
            self.rep(ip, st, "a task is queued without its socket", c, "events")
        if not self.uring and ip.eq(st, rs["sock"], -1) is not True and not rs.get("registered"):
            self.rep(ip, st, "a task with a socket is queued without having it registered in the kernel: its events never "
                             "come", c, "events")
        if ip.truth(st, ip.read(st, fld(THIS, "myIsInQueues"))) is not True:
            self.rep(ip, st, "a task is queued without being marked so: it can be changed while the scheduler uses it", c,
                     "touch")
        if ip.truth(st, ip.read(st, fld(THIS, "myIsClosed"))) is not False:
            self.rep(ip, st, "a task is posted while being marked as closed", c, "close")
        if rs.get("reused") and not rs.get("unguarded"):
            self.rep(ip, st, "a task posted again can never be closed", c, "close")
        rs["npush"] = 1

    def end(self, ip, st, val, fn, line):
        rs = st.rs
        self.count("exits")
        if not rs.get("npush"):
            self.at(ip, st, "a posted task is not queued: it is never executed", fn, line, "once")
        if rs.get("need_signal"):
            self.at(ip, st, "the front queue became not empty and the scheduler is not woken up", fn, line, "idle")
        if rs.get("server") is not None and not rs.get("deleted"):
            self.at(ip, st, "a listening socket object is leaked by its post", fn, line, "once")


class Waker(Base2):
    """Wakeups and close requests, by any thread."""

    max_loop = 8

    def this_status(self):
        return fld(fld(THIS, "myStatus"), "myValue")

    def atomic_domain(self, ip, st, op, region):
        P, W, R, C, D = self.PENDING, self.WAITING, self.READY, self.CLOSING, self.CLOSED
        if region == self.this_status():
            if self.entry == "close" and st.rs.get("guarded"):
                return (P, W, R)
            return (P, W, R, C, D)
        if self.end_field(region, "myCloseGuard"):
            return (0, 1)
        return None

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        rs = st.rs
        self.used(ip, st, region, fn, line)
        P, W, R, C, D = self.PENDING, self.WAITING, self.READY, self.CLOSING, self.CLOSED
        if self.end_field(region, "myCloseGuard") and op in ("xchg", "cas", "store"):
            self.count("guard_ops")
            if op == "xchg" and operand == 1 and result == 0 or op == "cas" and success and operand == (0, 1):
                rs["guarded"] = 1
            elif op == "store" or op == "xchg" and operand != 1:
                self.at(ip, st, "close requests are not counted: a task is closed twice or never", fn, line, "close")
            elif result == 1:
                rs["late"] = 1
            return
        if region != self.this_status():
            return
        self.count("status_ops")
        if op == "load":
            rs["seen"] = result
            return
        if op == "init":
            return
        if op == "cas":
            if not success:
                rs["seen"] = result
                return
            old, new = operand
        elif op == "xchg":
            old, new = result, operand
        else:
            self.at(ip, st, "the status is overwritten blindly: a wakeup of a concurrent thread is lost", fn, line, "lost")
            return
        if rs.get("changed") is not None:
            self.at(ip, st, "the status is changed twice by one call", fn, line, "lost")
        rs["changed"] = (old, new)
        if self.entry == "close":
            if not rs.get("guarded"):
                self.at(ip, st, "a task is asked to close by a thread which was not the first to ask: it may be open again or "
                                "deleted", fn, line, "close")
            if new != C:
                self.at(ip, st, "a close request makes the task %s" % self.names.get(new, "?"), fn, line, "close")
            if not is_rel(orders[0]):
                self.at(ip, st, "a close is requested without release: what was written before is not visible to the "
                                "callback", fn, line, "close")
        else:
            if old in (C, D) and new != old:
                self.at(ip, st, "a close request is overwritten by a wakeup: the task is never closed", fn, line, "close")
            elif new != R and new != old:
                self.at(ip, st, "a wakeup makes the task %s" % self.names.get(new, "?"), fn, line, "lost")
        if old != W:
            rs["gone"] = 1
        else:
            self.count("wakes")

    def used(self, ip, st, region, fn, line):
        if st.rs.get("gone") and under(region, THIS):
            self.at(ip, st, "a task is accessed after it was made ready or closing: it may be closed and deleted already", fn,
                    line, "touch")
        if st.rs.get("late") and self.entry == "close" and under(region, THIS):
            self.at(ip, st, "a task is accessed by a close request which was not the first: it may be deleted already", fn,
                    line, "touch")

    def on_load(self, ip, st, region, val, fn, line):
        self.used(ip, st, region, fn, line)

    def on_store(self, ip, st, region, val, fn, line):
        self.used(ip, st, region, fn, line)
        if under(region, THIS):
            self.at(ip, st, "a task is changed not atomically by a thread which does not own it", fn, line, "touch")

    def deref(self, ip, st, val, fn, line):
        pass

    def on_push(self, ip, st, t, c):
        rs = st.rs
        self.count("pushes")
        ch = rs.get("changed")
        if ip.eq(st, t, addr(THIS)) is not True:
            self.rep(ip, st, "a wrong task is queued", c, "lost")
        if rs.get("npush"):
            self.rep(ip, st, "a woken up task is queued twice", c, "lost once")
        elif ch is None or ch[0] != self.WAITING:
            self.rep(ip, st, "a task which was not waiting is queued by its waker: it gets into a queue twice", c,
                     "lost once")
        rs["npush"] = 1
        rs["gone"] = 1

    def end(self, ip, st, val, fn, line):
        rs = st.rs
        self.count("exits")
        ch = rs.get("changed")
        if self.entry == "close":
            if rs.get("late"):
                if ch is not None:
                    self.at(ip, st, "a repeated close request changes the task", fn, line, "close")
                return
            if ch is None:
                self.at(ip, st, "a close request is lost", fn, line, "close")
                return
        elif ch is None:
            if rs.get("seen") not in (self.READY, self.CLOSING, self.CLOSED):
                self.at(ip, st, "a wakeup is lost: it returns having done nothing", fn, line, "lost")
            return
        if ch[0] == self.WAITING and not rs.get("npush"):
            self.at(ip, st, "a waiting task is taken by its waker and is not queued: it is never executed", fn, line, "lost")
        if rs.get("need_signal"):
            self.at(ip, st, "the front queue became not empty and the scheduler is not woken up", fn, line, "idle")


class Worker(Base2):
    """The loop of a worker. A scheduling step and an execution are single events here."""

    def has_role(self, st):
        return st.rs.get("role", 0) == 1

    def other_domain(self, ip, st, op, region):
        if self.end_field(region, "myIsSchedulerWorking"):
            return (1,) if self.has_role(st) else (0, 1)
        return None

    def other_atomic(self, ip, st, op, region, orders, operand, result, fn, line, success):
        rs = st.rs
        if not self.end_field(region, "myIsSchedulerWorking"):
            return
        if op == "load" or op == "init":
            return
        self.count("role_ops")
        old, new = (operand if op == "cas" else (result, operand))
        if op == "cas" and not success:
            rs["tried"] = 1
            return
        if op == "store":
            old = 1 if self.has_role(st) else None
        if new == 1 or new is True:
            if op == "store":
                self.at(ip, st, "the scheduler role is taken without checking that it is free", fn, line, "idle")
            rs["tried"] = 1
            if old == 0:
                rs["role"] = 1
                self.count("role_taken")
                if not is_acq(orders[0]):
                    self.at(ip, st, "the scheduler role is taken without acquire: the queues left by the previous scheduler "
                                    "may be seen stale", fn, line, "idle")
        else:
            self.count("role_left")
            if not self.has_role(st):
                self.at(ip, st, "the scheduler role is left by a worker who does not have it: two workers schedule at once",
                        fn, line, "idle")
            if not is_rel(orders[0]):
                self.at(ip, st, "the scheduler role is left without release: the queues may be seen stale by the next "
                                "scheduler", fn, line, "idle")
            rs["role"] = 0
            rs["owes"] = 1

    def atomic_domain(self, ip, st, op, region):
        d = self.other_domain(ip, st, op, region)
        return d

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        self.other_atomic(ip, st, op, region, orders, operand, result, fn, line, success)

    def on_call(self, ip, st, c):
        rs = st.rs
        q = c.qn
        if q == CORE + "::PrivScheduleDo":
            self.count("schedule_calls")
            if not self.has_role(st):
                self.rep(ip, st, "a scheduling step is made by a worker who is not the scheduler: two workers schedule at "
                                 "once", c, "idle")
            self.settle(ip, st, c.fn, c.line)
            s2 = st.copy()
            st.rs["readysent"] = 1
            st.rs.pop("readysent")
            return [(st, 1), (s2, 0)]
        if q == CORE + "::PrivExecute":
            self.count("executions")
            t = self.arg(ip, st, c, len(c.args) - 1)
            h = self.hand(st)
            if ip.eq(st, t, 0) is True:
                return [(st, 0)]
            if self.has_role(st):
                self.rep(ip, st, "a task is executed by the scheduler while it holds its role: nobody schedules meanwhile",
                         c, "idle")
            if h is None or ip.eq(st, t, h[0]) is not True:
                self.rep(ip, st, "a task which was not popped is executed", c, "once")
            self.drop_hand(ip, st)
            return [(st, 1)]
        if q == "mg::box::Thread::StopRequested":
            rs.pop("readysent", None)
            rs.pop("coresent", None)
            t = ip.tok(st, ("stopreq", c.ctx, c.sid))
            return [(st, t)]
        return super().on_call(ip, st, c)

    def settle(self, ip, st, fn, line):
        h = self.hand(st)
        if h is not None:
            self.at(ip, st, "a popped task is not executed", fn, line, "once")
            st.rs.pop("hand", None)

    def drop_hand(self, ip, st):
        st.rs.pop("hand", None)

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        rs = st.rs
        self.settle(ip, st, fn, line)
        if self.has_role(st):
            self.at(ip, st, "a stopped worker leaves being the scheduler: nobody can become it any more", fn, line, "end")
        if not rs.get("readysent"):
            self.at(ip, st, "a stopped worker leaves without waking up the next one: it never stops", fn, line, "end")
        if not rs.get("coresent"):
            self.at(ip, st, "a stopped worker leaves without waking up the scheduler: it never stops", fn, line, "end")


class Life(Base2):
    """Start, stop and destruction of the core. The core is stopped having two workers."""

    max_loop = 5
    COUNT = 2

    def worker(self, i):
        return ("name", "worker%d" % i) if isinstance(i, int) and 0 <= i < self.COUNT else ("name", "no-worker")

    def vector(self, ip, st, c):
        """The list of the workers."""
        n = c.name
        site = ("it", c.ctx, c.sid)
        if c.obj == fld(THIS, "myWorkers") and c.cls.startswith("std::vector<"):
            if n in ("begin", "cbegin", "end", "cend"):
                r = ("o", site)
                ip.drop_under(st, r)
                st.store[fld(r, "idx")] = 0 if n.endswith("begin") else self.COUNT
                return [(st, ("L", r))]
            if n == "size":
                return [(st, self.COUNT)]
            if n == "empty":
                return [(st, 0)]
            if n in ("operator[]", "at", "front", "back"):
                i = 0 if n == "front" else self.COUNT - 1 if n == "back" else self.arg(ip, st, c, 0)
                w = self.worker(i)
                r = ("o", ("wref", i if isinstance(i, int) else -1))
                st.store[r] = addr(w)
                return [(st, ("L", r))]
            return None
        it = c.obj if c.obj is not None else (c.args[0][1] if c.args and isinstance(c.args[0], tuple) and
                                              c.args[0][0] == "L" else None)
        i = st.store.get(fld(it, "idx")) if it is not None else None
        if i is None:
            return None
        if n in ("operator!=", "operator=="):
            o = c.args[-1]
            j = st.store.get(fld(o[1], "idx")) if isinstance(o, tuple) and o[0] == "L" else None
            if j is None:
                return None
            return [(st, int((i == j) == (n == "operator==")))]
        if n == "operator++":
            st.store[fld(it, "idx")] = i + 1
            if len(c.args) == (0 if c.obj is not None else 1):
                return [(st, ("L", it))]
            r = ("o", site)
            ip.drop_under(st, r)
            st.store[fld(r, "idx")] = i
            return [(st, ("L", r))]
        if n == "operator*":
            r = ("o", ("wref", i))
            st.store[r] = addr(self.worker(i))
            return [(st, ("L", r))]
        return None

    def which(self, ip, st, c):
        if c.obj in [self.worker(i) for i in range(self.COUNT)]:
            return c.obj[1]
        return None

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        rs = st.rs
        if region == fld(fld(THIS, "myState"), "myValue"):
            if op == "load":
                rs["state"] = result
            elif op in ("store", "xchg"):
                rs["state"] = operand
                if not self.holds(st, fld(THIS, "myMutex")):
                    self.at(ip, st, "the state of the core is changed without its lock", fn, line, "end")
                if operand == self.statevals["IOCORE_STATE_STOPPED"] and self.entry == "stop" and \
                        len(rs.get("joined", ())) != self.COUNT:
                    self.at(ip, st, "the core is told to be stopped before its workers are", fn, line, "end")

    def atomic_domain(self, ip, st, op, region):
        if region == fld(fld(THIS, "myState"), "myValue"):
            return tuple(sorted(set(self.statevals.values())))
        return None

    def on_call(self, ip, st, c):
        rs = st.rs
        S = self.statevals
        if c.qn == CORE + "::WaitEmpty" and self.entry == "dtor":
            rs["waited"] = 1
            return [(st, 0)]
        if c.qn == CORE + "::Stop" and self.entry == "dtor":
            if not rs.get("waited"):
                self.rep(ip, st, "the workers are stopped before all tasks are closed", c, "end")
            rs["stopped"] = 1
            return [(st, None)]
        if c.qn == CORE + "::PrivPlatformDestroy":
            if not rs.get("stopped"):
                self.rep(ip, st, "the kernel objects are destroyed while the workers can be running", c, "end")
            return [(st, None)]
        if c.cls in ("mg::box::Thread",) or c.cls == NS + "IOCoreWorker":
            n = c.name
            if n == "IOCoreWorker":
                self.count("starts")
                if rs.get("state") != S["IOCORE_STATE_RUNNING"]:
                    self.rep(ip, st, "a worker is started before the core is marked as running: it leaves its events alone",
                             c, "end")
                b = ip.norm(st, ip.read(st, fld(THIS, "mySchedBatchSize")))
                if ip.lt(st, 1, b) is not True:
                    self.rep(ip, st, "a worker is started with a too small batch size: tasks are never scheduled", c, "end")
                return [(st, ("L", c.obj))]
            if n == "Stop":
                w = self.which(ip, st, c)
                rs["asked"] = tuple(sorted(set(rs.get("asked", ())) | {w}, key=repr))
                rs.pop("readysent", None)
                rs.pop("coresent", None)
                if rs.get("state") == S["IOCORE_STATE_RUNNING"]:
                    self.rep(ip, st, "the workers are asked to stop while the core is marked as running: the scheduler may "
                                     "sleep after that", c, "end")
                self.count("stops")
                return [(st, None)]
            if n in ("StopAndDelete", "BlockingStop"):
                self.count("joins")
                w = self.which(ip, st, c)
                if not (len(rs.get("asked", ())) == self.COUNT and rs.get("readysent") and rs.get("coresent")):
                    self.rep(ip, st, "a worker is waited for while it can be sleeping: the stop hangs", c, "end")
                rs["joined"] = tuple(sorted(set(rs.get("joined", ())) | {w}, key=repr))
                return [(st, None)]
        if c.cls.startswith("std::vector<") and c.obj == fld(THIS, "myWorkers"):
            if c.name in ("clear", "resize"):
                rs["cleared"] = 1
                return [(st, None)]
        if self.entry == "stop":
            v = self.vector(ip, st, c)
            if v is not None:
                return v
        k = self.kind_of(c)
        if self.entry == "dtor" and k is not None:
            if c.kind == "dtor":
                if not rs.get("stopped"):
                    self.rep(ip, st, "the queues are destroyed while the workers can be running", c, "end")
                return [(st, None)]
            return [(st, ip.tok(st, ("q", c.ctx, c.sid)))]
        return super().on_call(ip, st, c)

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        rs = st.rs
        S = self.statevals
        if self.entry == "stop" and rs.get("asked"):
            if len(rs.get("joined", ())) != self.COUNT or not rs.get("cleared"):
                self.at(ip, st, "stopped workers are not waited for or stay in the list", fn, line, "end")
            if rs.get("state") != S["IOCORE_STATE_STOPPED"]:
                self.at(ip, st, "the core can't be started again after a stop", fn, line, "end")
        if self.entry == "dtor" and not rs.get("stopped"):
            self.at(ip, st, "the core is destroyed without stopping the workers", fn, line, "end")


class WaitEmpty(Base2):
    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        if self.end_field(region, "myDescriptorCount"):
            self.count("polls")
            st.rs["n"] = result

    def atomic_domain(self, ip, st, op, region):
        if self.end_field(region, "myDescriptorCount"):
            return (0, 7)
        return None

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        if st.rs.get("n") is None:
            self.at(ip, st, "the emptiness is not checked", fn, line, "end")
        elif ip.eq(st, val, st.rs["n"]) is not True:
            self.at(ip, st, "waiting for emptiness tells a wrong number of open tasks", fn, line, "end")


class Deadline(Base2):
    def atomic(self, *a, **k):
        pass

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        old = st.rs.get("old")
        dl = ip.norm(st, ip.read(st, fld(THIS, "myDeadline")))
        if self.entry == "now":
            if ip.eq(st, dl, 0) is not True:
                self.at(ip, st, "a rescheduled task waits", fn, line, "time")
            return
        target = ip.norm(st, st.rs["arg"])
        if dl == target or ip.eq(st, dl, target) is True:
            if ip.lt(st, old, target) is not False:
                self.at(ip, st, "a deadline is replaced with a later one", fn, line, "time")
        elif dl == old or ip.eq(st, dl, old) is True:
            if ip.lt(st, target, old) is not False:
                self.at(ip, st, "an earlier deadline is ignored", fn, line, "time")
        else:
            self.at(ip, st, "the deadline becomes neither the old nor the requested one", fn, line, "time")


class Less(Base2):
    def atomic(self, *a, **k):
        pass

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        a = ip.norm(st, ip.read(st, fld(THIS, "myDeadline")))
        b = ip.norm(st, ip.read(st, fld(st.rs["other"], "myDeadline")))
        for v in (True, False):
            s = st.copy()
            if not ip.assume(s, val, v):
                continue
            r = ip.lt(s, b, a)
            if r is None or r == v:
                if v and r is not False or not v and ip.lt(s, a, b) is not False:
                    self.at(ip, s, "tasks are compared wrongly: a later deadline is served before an earlier one", fn, line,
                            "time")


def task_setup(ip, st, this, args):
    ip.rule.core = ip.region_of(ip.read(st, fld(THIS, "myCore")))
    st.store[fld(THIS, "myIsInQueues")] = 0


def step_setup(p):
    def setup(ip, st, this, args):
        v = ip.read(st, fld(deref(this), "mySchedBatchSize"))
        ip.refine(st, v, lo=2)
        st.rs["role"] = 1
    return setup


CONFIGS = ("epoll", "iouring")


def step(res, rulename, tags, cfg):
    p = res.prog(cfg, ("aio",))
    res.walk(p, Sched(p, "step", cfg == "iouring", tags), p.fn(CORE + "::PrivScheduleDo"), rulename, setup=step_setup(p))
    for w in ("made_ready", "pushed_to_ready", "put_to_timers", "removed_from_timers", "front_drained", "kernel_events",
              "sleeps", "status_ops", "closes", "socket_closes", "exits"):
        res.need(rulename, w, 1)
    return p


def execute(res, rulename, tags, cfg):
    p = res.prog(cfg, ("aio",))
    res.walk(p, Exec(p, "exec", cfg == "iouring", tags), p.fn(CORE + "::PrivExecute"), rulename, setup=exec_setup)
    for w in ("callbacks", "last_callbacks", "pushes", "counts"):
        res.need(rulename, w, 1)


def overloads(p, qn):
    r = [f for f in p.funcs.values() if f.qn == qn]
    if not r:
        raise AnalysisBroken("anchor vanished: " + qn)
    return sorted(r, key=lambda f: f.line)


def posts(res, rulename, tags, cfg):
    p = res.prog(cfg, ("aio",))
    for f in overloads(p, TASK + "::Post"):
        def setup(ip, st, this, args):
            rs = st.rs
            task_setup(ip, st, this, args)
            st.store[fld(fld(THIS, "mySub"), "myObject")] = 0
            st.store[fld(THIS, "mySocket")] = -1
            rs["sub"] = ip.norm(st, args[-1])
            rs["sock"] = -1
            if len(args) == 2:
                rs["sock"] = ip.norm(st, args[0])
                if "Server" in f.params[0][2]:
                    rs["server"] = rs["sock"]
                    rs["sock"] = ip.norm(st, ip.read(st, fld(deref(args[0]), "mySock")))
        res.walk(p, Post(p, "post", cfg == "iouring", tags), f, rulename, setup=setup)
    for w in ("pushes", "counts", "deletes", "status_ops"):
        res.need(rulename, w, 1)


def wakers(res, rulename, tags, cfg):
    p = res.prog(cfg, ("aio",))
    for n, k in (("PostWakeup", "wakeup"), ("PostClose", "close")):
        def setup(ip, st, this, args):
            task_setup(ip, st, this, args)
            st.store[fld(THIS, "myIsInQueues")] = 1
        res.walk(p, Waker(p, k, cfg == "iouring", tags), p.fn(TASK + "::" + n), rulename, setup=setup)
    for w in ("pushes", "status_ops", "wakes", "guard_ops"):
        res.need(rulename, w, 1)


def workers(res, rulename, tags, cfg):
    p = res.prog(cfg, ("aio",))

    def setup(ip, st, this, args):
        ip.rule.core = ip.region_of(ip.read(st, fld(THIS, "myCore")))
        v = ip.read(st, fld(ip.rule.core, "myExecBatchSize"))
        ip.refine(st, v, lo=3)
    res.walk(p, Worker(p, "run", cfg == "iouring", tags), p.fn(NS + "IOCoreWorker::Run"), rulename, setup=setup)
    for w in ("schedule_calls", "executions", "ready_sleeps", "role_taken", "role_left"):
        res.need(rulename, w, 1)


def life(res, rulename, tags, cfg):
    p = res.prog(cfg, ("aio",))
    for n, k in (("Start", "start"), ("Stop", "stop"), ("~IOCore", "dtor")):
        def setup(ip, st, this, args):
            v = ip.read(st, fld(THIS, "myExecBatchSize"))
            ip.refine(st, v, lo=2)
        res.walk(p, Life(p, k, cfg == "iouring", tags), p.fn(CORE + "::" + n), rulename, setup=setup)
    res.walk(p, WaitEmpty(p, "wait", cfg == "iouring", tags), p.fn(CORE + "::WaitEmpty"), rulename)
    for w in ("starts", "stops", "joins", "polls"):
        res.need(rulename, w, 1)


def deadlines(res, rulename, tags, cfg):
    p = res.prog(cfg, ("aio",))

    def set_setup(ip, st, this, args):
        st.store[fld(THIS, "myIsInQueues")] = 0
        st.rs["old"] = ip.norm(st, ip.read(st, fld(THIS, "myDeadline")))
        st.rs["arg"] = args[0]

    res.walk(p, Deadline(p, "set", cfg == "iouring", tags), p.fn(TASK + "::SetDeadline"), rulename, setup=set_setup)
    res.walk(p, Deadline(p, "now", cfg == "iouring", tags), p.fn(TASK + "::Reschedule"), rulename)

    def less_setup(ip, st, this, args):
        st.rs["other"] = ip.region_of(args[0])

    f = p.fn(TASK + "::operator<=")
    res.walk(p, Less(p, "less", cfg == "iouring", tags), f, rulename, setup=less_setup)
    res.need(rulename, "exits", 3)


PARTS = {"step": step, "execute": execute, "posts": posts, "wakers": wakers, "workers": workers, "life": life,
         "deadlines": deadlines}


def parts(res, rulename, tags, names):
    for cfg in CONFIGS:
        for n in names.split():
            PARTS[n](res, rulename, tags, cfg)


if os.environ.get("PARTS"):
    @check("DBG")
    def dbg(res):
        for cfg in os.environ.get("CFG", "epoll").split():
            for x in os.environ["PARTS"].split():
                PARTS[x](res, x, None, cfg)


@check("C01")
def c01(res):
    res.rule("conserve", "on every path each task taken from a queue, from the timers or from the kernel goes to exactly one "
             "next place, and a posted one is queued exactly once; none is dropped or queued twice.")
    parts(res, "conserve", {"once"}, "step execute posts wakers workers")


@check("C02")
def c02(res):
    res.rule("events", "each reported kernel event is looked at, is stored in its task without dropping the ones stored "
             "before, and is handed to the callback with the task; a task with undelivered events is not put to wait.")
    parts(res, "events", {"events"}, "step execute")


@check("C03")
def c03(res):
    res.rule("close-protocol", "only a task asked for that is closed, with acquire of the request; its socket is closed once, "
             "before the closing callback, after the kernel let go of all its operations; then the callback is the last one.")
    parts(res, "close-protocol", {"close"}, "step execute posts wakers")


@check("C04")
def c04(res):
    res.rule("lost-wakeup", "on no path a status left by a concurrent waker or closer is overwritten; each of those publishes "
             "with release and the executor looks with acquire.")
    parts(res, "lost-wakeup", {"lost"}, "step execute posts wakers")


@check("C05")
def c05(res):
    res.rule("deadline", "a task is made ready by the timer only when its deadline is reached, is put to wait only when not; "
             "the timers are ordered by deadline and the scheduler sleeps until the nearest one at most.")
    parts(res, "deadline", {"time"}, "step execute deadlines")


@check("C06")
def c06(res):
    res.rule("idle", "each publication of work is followed by a signal on every path; a sleep is preceded by the look at the "
             "queues after the sleep was announced, and nobody sleeps owing a signal or the scheduler role.")
    res.rule("end", "the count of open tasks is raised before a task is queued and lowered once after it is closed; a stopping "
             "core signals all the sleepers and joins each worker; the destruction waits for emptiness first.")
    parts(res, "idle", {"idle", "end"}, "step execute posts wakers workers life")


@check("C07")
def c07(res):
    res.rule("untouched", "after a task was given to a queue, to the callback as closed, or was made ready by its waker, it is "
             "not accessed any more on any path.")
    parts(res, "untouched", {"touch"}, "step execute posts wakers")
