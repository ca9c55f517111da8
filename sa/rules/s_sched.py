"""T01-T06: the task scheduler."""
from ..core import check
from ..engine import addr, deref, region_str, root_of, under, is_acq, is_rel
from ..ir import AnalysisBroken
from ..pipe import Pipe, THIS, fld

NS = "mg::sch::"
TS = NS + "TaskScheduler"
IM = "mg::box::InterruptibleMutex::"
SG = "mg::box::Signal::"


class Common(Pipe):
    ELEM = "mg::sch::Task"
    CORE = TS

    def __init__(self, p, entry, tags=None):
        super().__init__(p, entry)
        self.tags = tags
        v = p.enum(NS + "TaskStatus")
        for k in ("PENDING", "WAITING", "READY", "SIGNALED"):
            if "TASK_STATUS_" + k not in v:
                raise AnalysisBroken("anchor vanished: TASK_STATUS_" + k)
        self.PENDING, self.WAITING, self.READY, self.SIGNALED = (
            v["TASK_STATUS_" + k] for k in ("PENDING", "WAITING", "READY", "SIGNALED"))
        self.names = {v["TASK_STATUS_" + k]: k for k in ("PENDING", "WAITING", "READY", "SIGNALED")}

    def pending(self):
        return fld(THIS, "myQueuePending")

    # ------------------------------------------------------------ the role and the signals
    def signame(self, r):
        return r[2] if r is not None and r[0] == "f" else None

    def on_other(self, ip, st, c):
        q = c.qn
        rs = st.rs
        if q.startswith(IM):
            n = q[len(IM):]
            if c.kind in ("ctor", "dtor"):
                return [(st, ("L", c.obj) if c.kind == "ctor" else None)]
            if n == "TryLock":
                rs["tried"] = 1
                self.count("role_attempts")
                if self.has_role(st):
                    self.rep(ip, st, "the scheduler role is taken twice by one thread", c, "idle")
                s2 = st.copy()
                rs["role"] = 1
                ip.note(st, c.fn, c.line, "became the scheduler")
                return [(st, 1), (s2, 0)]
            if n == "Lock":
                self.count("role_locks")
                if self.has_role(st):
                    self.rep(ip, st, "the scheduler role is taken twice by one thread", c, "idle")
                rs["role"] = 1
                return [(st, None)]
            if n == "Unlock":
                if not self.has_role(st):
                    self.rep(ip, st, "the scheduler role is left without being held", c, "idle")
                self.on_role_end(ip, st, c)
                rs["role"] = 0
                rs["owes"] = 1
                self.count("role_ends")
                return [(st, None)]
        if q.startswith(SG):
            n = q[len(SG):]
            if c.kind in ("ctor", "dtor"):
                return [(st, ("L", c.obj) if c.kind == "ctor" else None)]
            return self.signal(ip, st, c, n, self.signame(c.obj))
        return None

    def on_role_end(self, ip, st, c):
        pass

    def signal(self, ip, st, c, n, which):
        rs = st.rs
        if n == "Send":
            self.count("signals_sent")
            if which == "mySignalFront":
                rs.pop("need_signal", None)
            elif which == "mySignalReady":
                rs.pop("owes", None)
                rs["readysent"] = 1
            return [(st, None)]
        if n in ("ReceiveBlocking", "ReceiveTimed", "Receive"):
            if which == "mySignalFront":
                if n != "Receive":
                    self.sleep_front(ip, st, c, n == "ReceiveTimed")
            elif which == "mySignalReady" and n != "Receive":
                self.sleep_ready(ip, st, c, n == "ReceiveTimed")
            if n == "ReceiveBlocking":
                return [(st, None)]
            s2 = st.copy()
            return [(st, 1), (s2, 0)]
        return None

    def sleep_front(self, ip, st, c, timed):
        rs = st.rs
        self.count("front_sleeps")
        if not self.has_role(st):
            self.rep(ip, st, "a thread which is not the scheduler consumes the front signal: the scheduler is not woken "
                             "up for the new tasks", c, "idle")
            return
        if rs.get("owes"):
            self.rep(ip, st, "a worker goes to sleep before signaling that the scheduler role was left", c, "idle")
        self.before_sleep(ip, st, c.fn, c.line)
        h = rs.get("heap", "u")
        if not timed:
            if h != "e":
                self.rep(ip, st, "the scheduler sleeps without a timeout while tasks may wait for their deadlines", c,
                         "time")
        elif h != "e":
            self.check_timeout(ip, st, c)

    def check_timeout(self, ip, st, c):
        a = c.args[0]
        r = ip.region_of(a)
        top = st.rs.get("top")
        ty = ip.norm(st, ip.read(st, fld(r, "myType")))
        ev = self.p.enum("mg::box::TimeLimitType")
        if ty == ev["TIME_LIMIT_DURATION"]:
            v = ip.norm(st, ip.read(st, fld(fld(r, "myDuration"), "myValue")))
            ok = v == 0 or self.timeout_ok(ip, st, v)
        elif ty == ev["TIME_LIMIT_POINT"]:
            v = ip.norm(st, ip.read(st, fld(fld(r, "myPoint"), "myValue")))
            dl = self.get(ip, st, top, "myDeadline") if top is not None else None
            ok = dl is not None and (v == dl or ip.eq(st, v, dl) is True or ip.lt(st, dl, v) is False)
        else:
            ok = False
        if not ok:
            self.rep(ip, st, "the scheduler may sleep longer than till the first deadline", c, "time")

    def sleep_ready(self, ip, st, c, timed):
        rs = st.rs
        self.count("ready_sleeps")
        if self.has_role(st):
            self.rep(ip, st, "a worker sleeps as an idle one while being the scheduler: nobody schedules", c, "idle")
        if rs.get("owes"):
            self.rep(ip, st, "a worker goes to sleep before signaling that the scheduler role was left: all workers may "
                             "sleep with nobody scheduling", c, "idle")
        if not rs.get("tried"):
            self.rep(ip, st, "a worker goes to sleep without having tried to become the scheduler", c, "idle")
        if rs.get("lastpop") != "null":
            self.rep(ip, st, "a worker goes to sleep while there may be ready tasks", c, "idle")
        self.before_idle(ip, st, c)
        rs.pop("tried", None)
        rs.pop("lastpop", None)

    def before_idle(self, ip, st, c):
        pass

    # ------------------------------------------------------------ statuses
    def domain(self, st, src, stt):
        if stt in ("waiting",):
            return (self.WAITING, self.READY, self.SIGNALED)
        if stt in ("ready", "woken"):
            return (self.READY, self.SIGNALED)
        if src == "front":
            return (self.PENDING, self.READY, self.SIGNALED)
        if src == "timer":
            return (self.WAITING, self.READY, self.SIGNALED)
        if src == "exec":
            if st.rs.get("unready"):
                return (self.PENDING, self.READY, self.SIGNALED)
            return (self.READY, self.SIGNALED)
        return None

    def status_of(self, region):
        return region[0] == "f" and region[1][0] == "f" and region[1][2] == "myStatus"

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        h = self.hand(st)
        if h is None or h[1] == "readylist" or region != self.statusreg(h[0]):
            if self.status_of(region):
                self.foreign_status(ip, st, op, region, orders, operand, result, fn, line, success)
            else:
                self.other_atomic(ip, st, op, region, orders, operand, result, fn, line, success)
            return
        rs = st.rs
        src = h[1]
        self.count("status_ops")
        if op == "cas" and success:
            old, new = operand
            self.status_change(ip, st, src, old, new, orders, fn, line)
            return
        if op in ("load",) or op == "cas":
            if src == "exec":
                return
            if result in (self.READY, self.SIGNALED) and rs.get("stt") in (None, "waiting"):
                if src == "timer":
                    rs["stt"] = "woken"
                elif rs.get("stt") is None:
                    rs["stt"] = "ready"
            return
        if op == "init":
            return
        self.status_change(ip, st, src, None, operand, orders, fn, line, blind=True, seen=result)

    def status_change(self, ip, st, src, old, new, orders, fn, line, blind=False, seen=None):
        rs = st.rs
        stt = rs.get("stt")
        if blind:
            self.at(ip, st, "the status of a task is overwritten: a concurrent wakeup or signal is lost", fn, line, "lost")
            rs["stt"] = "ready"
            return
        P, W, R, S = self.PENDING, self.WAITING, self.READY, self.SIGNALED
        if old == S and new != S:
            self.at(ip, st, "a not received signal is dropped", fn, line, "lost")
        if src == "front":
            if old == P and new == W:
                idx = self.get(ip, st, h_task(st), "myIndex")
                rs["stt"] = "waiting"
                if self.expired(ip, st, h_task(st)) is not False:
                    self.at(ip, st, "a task whose deadline may be reached already is put to wait", fn, line, "time")
            elif new == R and old == P:
                rs["stt"] = "ready"
                self.early(ip, st, fn, line)
            elif new == R and old == W and stt == "waiting":
                rs["stt"] = "ready"
            elif old in (R, S) and new in (R, S):
                rs["stt"] = stt or "ready"
            else:
                self.at(ip, st, "a queued task is made %s while being %s" % (self.names.get(new, "?"),
                                                                             self.names.get(old, "?")), fn, line, "lost")
        elif src == "timer":
            if old == W and new == R:
                rs["stt"] = "ready"
            else:
                self.at(ip, st, "an expired task is made %s while being %s" % (self.names.get(new, "?"),
                                                                               self.names.get(old, "?")), fn, line, "lost")
        elif src == "exec":
            if old == R and new == P:
                rs["unready"] = 1
            elif not (old == S):
                self.at(ip, st, "a task being executed gets a wrong status: its wakeups are lost", fn, line, "lost")

    def early(self, ip, st, fn, line):
        """A pending task is made ready by the scheduler itself."""
        if self.expired(ip, st, h_task(st)) is not True:
            self.at(ip, st, "a task is made ready while its deadline may be not reached and nobody woke it up", fn, line,
                    "time")

    def foreign_status(self, ip, st, op, region, orders, operand, result, fn, line, success):
        if op == "load" or (op == "cas" and not success) or op == "init":
            return
        self.at(ip, st, "the status of a task is changed which is not being handled", fn, line, "lost")

    def other_atomic(self, ip, st, op, region, orders, operand, result, fn, line, success):
        pass

    def check_ready(self, ip, st, t, src, c):
        e = st.rs.get("expset")
        if e is None:
            self.rep(ip, st, "it is not told to the task whether its deadline is reached", c, "time")
            return
        tr = ip.truth(st, e)
        ex = self.expired(ip, st, t)
        if src == "timer":
            ex = True
        if tr is not None and ex is not None and tr != ex:
            self.rep(ip, st, "a task is told that its deadline is%s reached, which is wrong" % ("" if tr else " not"), c,
                     "time")

    # ------------------------------------------------------------ given away tasks
    def deref(self, ip, st, val, fn, line):
        if st.rs.get("pushed") is not None and val == st.rs["pushed"]:
            self.at(ip, st, "a task is accessed after it was given to the scheduler: it may be gone", fn, line, "touch")
        g = st.rs.get("given")
        if g is not None and val == g:
            self.at(ip, st, "a task is accessed after it was given to the workers: it may be gone", fn, line, "touch")


def h_task(st):
    return st.rs["hand"][0]


class Sched(Common):
    """One scheduling step."""

    def on_take(self, ip, st, t, src):
        st.rs.pop("given", None)

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        rs = st.rs
        if self.has_role(st):
            self.at(ip, st, "the scheduler role is never left", fn, line, "idle")
        if rs.get("owes"):
            self.at(ip, st, "the scheduler role is left without a signal after it: all workers may sleep with nobody "
                            "scheduling", fn, line, "idle")
        self.step_done(ip, st, fn, line)
        if rs.get("frontpopped"):
            self.progress(ip, st, fn, line)
            self.count("steps")
        elif rs.get("tried") and rs.get("owes") is None and rs.get("readysent") and not rs.get("frontpopped"):
            self.at(ip, st, "a scheduling step does not take the new tasks", fn, line)



class Worker(Common):
    """The loop of a worker thread; a scheduling step is one event here."""

    def on_other(self, ip, st, c):
        rs = st.rs
        if c.qn == TS + "::PrivSchedule":
            self.count("schedule_calls")
            self.settle(ip, st, c.fn, c.line)
            self.not_idle(ip, st, c)
            rs["tried"] = 1
            s2 = st.copy()
            st.rs["readysent"] = 1
            return [(st, 1), (s2, 0)]
        if c.qn == "mg::box::Thread::StopRequested":
            rs.pop("readysent", None)
            t = ip.tok(st, ("stopreq", c.ctx, c.sid))
            return [(st, t)]
        if c.cls.startswith("std::function<") and c.name == "operator()":
            return self.callback(ip, st, c)
        return super().on_other(ip, st, c)

    def callback(self, ip, st, c):
        rs = st.rs
        h = self.hand(st)
        self.count("callbacks")
        if h is None or h[1] != "exec" or not under(c.obj, deref(h[0])):
            self.rep(ip, st, "a callback of a task which was not popped is called: it is executed twice", c)
            return [(st, None)]
        t = h[0]
        if len(c.args) != 1 or ip.eq(st, self.arg(ip, st, c, 0), t) is not True:
            self.rep(ip, st, "a task is executed with a wrong argument", c)
        if ip.eq(st, self.get(ip, st, t, "myScheduler"), 0) is not True:
            self.rep(ip, st, "a task is executed while it is marked as being in a scheduler: it can't be used by its own "
                             "callback", c)
        if ip.eq(st, self.get(ip, st, t, "myDeadline"), 0) is not True:
            self.rep(ip, st, "the deadline of a task stays set when it is executed: when posted again it waits for that "
                             "deadline", c, "time")
        if not rs.get("unready"):
            self.rep(ip, st, "a task is executed while it is marked as queued: its wakeups are lost", c, "lost")
        cur = [v for k, v in st.store.items() if k[0] == "g" and k[1].endswith("::ourCurrent")]
        me = ip.norm(st, ip.read(st, fld(THIS, "myScheduler")))
        if not any(ip.eq(st, v, me) is True for v in cur):
            self.rep(ip, st, "a task is executed while the thread is not bound to its scheduler", c, "coro")
        ip.havoc(st, deref(t), ("cb", c.ctx, c.sid))
        self.drop_hand(ip, st)
        rs.pop("unready", None)
        rs["done"] = t
        return [(st, None)]

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        super().atomic(ip, st, op, region, orders, operand, result, fn, line, success)
        h = self.hand(st)
        if h is not None and h[1] == "exec" and region == self.statusreg(h[0]):
            if op in ("load", "cas") and not success and result in (self.SIGNALED,):
                st.rs["unready"] = 1

    def domain(self, st, src, stt):
        if src == "exec":
            if st.rs.get("unready"):
                return (self.PENDING, self.READY, self.SIGNALED)
            return (self.READY, self.SIGNALED)
        return super().domain(st, src, stt)

    def on_pop(self, ip, st, t, c):
        st.rs.pop("unready", None)
        self.count("pops")
        if t != 0 and not st.rs.get("running"):
            self.rep(ip, st, "a task is popped by a worker which is marked as idle: the scheduler looks empty while the "
                             "task is being executed", c, "end")

    def not_idle(self, ip, st, c):
        pass

    def other_atomic(self, ip, st, op, region, orders, operand, result, fn, line, success):
        if region == fld(fld(THIS, "myState"), "myValue") and op in ("store", "xchg"):
            e = self.p.enum(NS + "TaskSchedulerWorkerState")
            self.count("state_changes")
            if operand == e["TASK_SCHEDULER_WORKER_STATE_RUNNING"]:
                st.rs["running"] = 1
            else:
                st.rs.pop("running", None)
                if st.rs.get("lastpop") == "task":
                    self.at(ip, st, "a worker is marked as idle while it may have more tasks to execute", fn, line, "end")
                h = self.hand(st)
                if h is not None:
                    self.at(ip, st, "a worker is marked as idle before it has executed its task", fn, line, "end")

    def before_idle(self, ip, st, c):
        self.settle(ip, st, c.fn, c.line)
        if st.rs.get("running"):
            self.rep(ip, st, "a sleeping worker is marked as running: the scheduler never looks empty", c, "end")

    def deref(self, ip, st, val, fn, line):
        if st.rs.get("done") is not None and val == st.rs["done"]:
            self.at(ip, st, "a task is accessed after its execution: it may be deleted or queued again", fn, line, "touch")

    def load(self, ip, st, region, val, fn, line):
        pass

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        rs = st.rs
        self.settle(ip, st, fn, line)
        if not rs.get("readysent"):
            self.at(ip, st, "a stopped worker leaves without waking up the next one: it never stops", fn, line, "end")
        if rs.get("running"):
            self.at(ip, st, "a finished worker is marked as running: the scheduler never looks empty", fn, line, "end")


class Post(Common):
    """Posting of a task."""

    def on_push(self, ip, st, t, c):
        rs = st.rs
        self.count("pushes")
        if rs.get("npush"):
            self.rep(ip, st, "a task is queued twice", c)
        rs["npush"] = 1
        want = rs.get("task")
        if want is not None and ip.eq(st, t, want) is not True:
            self.rep(ip, st, "a wrong task is queued", c)
        if ip.eq(st, self.get(ip, st, t, "myScheduler"), addr(self.sched)) is not True and self.entry == "post":
            self.rep(ip, st, "a task is queued without being bound to its scheduler: its wakeups are lost", c, "lost")

    sched = THIS

    def front_push(self, ip, st, c):
        r = super().front_push(ip, st, c)
        for s, _ in r:
            if s.rs["pushed"] is not None:
                pass
        return r

    def on_other(self, ip, st, c):
        if c.cls.startswith("std::function<") or "std::" in c.cls[:5]:
            return None
        return super().on_other(ip, st, c)

    def end(self, ip, st, val, fn, line):
        rs = st.rs
        self.count("exits")
        if rs.get("npush", 0) != 1:
            self.at(ip, st, "a posted task is not queued: it is never executed", fn, line)
        if rs.get("need_signal"):
            self.at(ip, st, "the front queue became not empty and the scheduler is not woken up", fn, line, "idle")


class Waker(Common):
    """Wakeups and signals of tasks, by any thread."""

    # The status has few values: the retries converge without widening.
    max_loop = 8

    def this_status(self):
        return fld(fld(THIS, "myStatus"), "myValue")

    def atomic_domain(self, ip, st, op, region):
        if region != self.this_status():
            return None
        if self.entry == "recv":
            return (self.PENDING, self.READY, self.SIGNALED)
        return (self.PENDING, self.WAITING, self.READY, self.SIGNALED)

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        rs = st.rs
        self.used(ip, st, region, fn, line)
        if region != self.this_status():
            return
        self.count("status_ops")
        P, W, R, S = self.PENDING, self.WAITING, self.READY, self.SIGNALED
        old = new = None
        if op == "load":
            rs["seen"] = result
            if is_acq(orders[0]):
                rs["seenacq"] = 1
            return
        if op == "cas":
            if not success:
                rs["seen"] = result
                return
            old, new = operand
        elif op == "xchg":
            old, new = result, operand
        elif op == "init":
            return
        else:
            self.at(ip, st, "the status is overwritten blindly: a wakeup or a signal of a concurrent thread is lost", fn,
                    line, "lost")
            return
        if rs.get("changed") is not None:
            self.at(ip, st, "the status is changed twice by one call", fn, line, "lost")
        rs["changed"] = (old, new)
        if self.entry == "recv":
            if old != S or new != P:
                self.at(ip, st, "a receive changes the status of a not signaled task", fn, line, "lost")
            if not is_acq(orders[0]):
                self.at(ip, st, "a signal is received without acquire: the writes of the sender are not visible", fn,
                        line, "lost")
            return
        if self.entry == "quiet":
            self.at(ip, st, "the status of a task is changed by an operation which must not do that", fn, line, "lost")
            return
        if old == S and new != S:
            self.at(ip, st, "a not received signal is overwritten", fn, line, "lost")
        if self.entry == "wakeup" and new != R and new != old:
            self.at(ip, st, "a wakeup makes the task %s" % self.names.get(new, "?"), fn, line, "lost")
        if self.entry == "signal":
            if new != S:
                self.at(ip, st, "a signal makes the task %s" % self.names.get(new, "?"), fn, line, "lost")
            if not is_rel(orders[0]):
                self.at(ip, st, "a signal is sent without release: the writes of the sender are not visible", fn, line,
                        "lost")
        if old != W:
            rs["gone"] = 1
        else:
            self.count("wakes")

    def used(self, ip, st, region, fn, line):
        if st.rs.get("gone") and under(region, THIS):
            self.at(ip, st, "a task is accessed after it was made ready: it may be executed and deleted already", fn,
                    line, "touch")

    def load(self, ip, st, region, val, fn, line):
        self.used(ip, st, region, fn, line)

    def store(self, ip, st, region, val, fn, line):
        self.used(ip, st, region, fn, line)

    def deref(self, ip, st, val, fn, line):
        pass

    def on_push(self, ip, st, t, c):
        rs = st.rs
        self.count("pushes")
        ch = rs.get("changed")
        if ip.eq(st, t, addr(THIS)) is not True:
            self.rep(ip, st, "a wrong task is queued", c, "lost")
        if rs.get("npush"):
            self.rep(ip, st, "a woken up task is queued twice", c, "lost")
        elif ch is None or ch[0] != self.WAITING:
            self.rep(ip, st, "a task which was not waiting is queued by its waker: it gets into a queue twice", c, "lost")
        rs["npush"] = 1
        rs["gone"] = 1

    def end(self, ip, st, val, fn, line):
        rs = st.rs
        self.count("exits")
        ch = rs.get("changed")
        seen = rs.get("seen")
        if self.entry == "recv":
            v = ip.truth(st, val)
            if v is None or v != (ch is not None):
                self.at(ip, st, "the result does not tell whether a signal was received", fn, line, "lost")
            if ch is None and seen == self.SIGNALED:
                self.at(ip, st, "a sent signal is not received", fn, line, "lost")
            return
        if self.entry == "quiet":
            return
        if ch is None:
            ok = (self.READY, self.SIGNALED) if self.entry == "wakeup" else (self.SIGNALED,)
            if seen not in ok:
                self.at(ip, st, "a wakeup or a signal is lost: it returns having done nothing", fn, line, "lost")
        elif ch[0] == self.WAITING and not rs.get("npush"):
            self.at(ip, st, "a waiting task is made ready by its waker and is not queued: it is never executed", fn, line,
                    "lost")
        if rs.get("need_signal"):
            self.at(ip, st, "the front queue became not empty and the scheduler is not woken up", fn, line, "idle")


class RoleLock(Common):
    """Interrupting the scheduler."""

    def on_other(self, ip, st, c):
        if c.qn == IM + "Lock":
            self.count("role_locks")
            return [(st, None)]
        return super().on_other(ip, st, c)


class LambdaSends(Common):
    def end(self, ip, st, val, fn, line):
        self.count("exits")
        if not st.rs.get("frontsent"):
            self.at(ip, st, "the interruption of the scheduler does not wake it up", fn, line, "idle")

    def signal(self, ip, st, c, n, which):
        if n == "Send" and which == "mySignalFront":
            st.rs["frontsent"] = 1
            self.count("interrupts")
        return [(st, None)]


class Empty(Common):
    """Is there anything left in the scheduler."""

    def on_call(self, ip, st, c):
        rs = st.rs
        if c.name == "GetState" and c.cls == NS + "TaskSchedulerThread":
            t = ip.tok(st, ("state", c.ctx, c.sid))
            return self.state_seen(ip, st, t, c.fn, c.line)
        return super().on_call(ip, st, c)

    def state_seen(self, ip, st, t, fn, line):
        e = self.p.enum(NS + "TaskSchedulerWorkerState")
        self.count("worker_states")
        if not self.has_role(st):
            self.at(ip, st, "the workers are looked at without being the scheduler", fn, line, "end")
        if not st.rs.get("s_ready"):
            self.at(ip, st, "the workers are seen idle before the ready queue is seen empty: another worker can take a task "
                            "in between and be executing it while the scheduler looks empty", fn, line, "end")
        s2 = st.copy()
        s2.rs["busy"] = 1
        return [(st, e["TASK_SCHEDULER_WORKER_STATE_IDLE"]), (s2, e["TASK_SCHEDULER_WORKER_STATE_RUNNING"])]

    def seen(self, ip, st, what, c):
        rs = st.rs
        if not self.has_role(st):
            self.rep(ip, st, "the queues are looked at without being the scheduler", c, "end")
        if what == "front":
            rs["s_front"] = rs["fempty"]
            if not rs.get("vec"):
                self.rep(ip, st, "the front queue is seen empty before the workers are seen idle: a running task can post "
                                 "another one in between", c, "end")
        if what == "timers":
            rs["s_timers"] = 1
        if what == "ready":
            rs["s_ready"] = rs["rcount"]

    def on_other(self, ip, st, c):
        r = super().on_other(ip, st, c)
        if r is not None:
            return r
        if c.cls.startswith("std::vector<") and c.obj == fld(THIS, "myThreads"):
            if not self.has_role(st):
                self.rep(ip, st, "the workers are looked at without being the scheduler", c, "end")
            st.rs["vec"] = 1
        return None

    def load(self, ip, st, region, val, fn, line):
        pass

    def end(self, ip, st, val, fn, line):
        rs = st.rs
        self.count("exits")
        if self.has_role(st):
            self.at(ip, st, "the scheduler role is never left", fn, line, "idle")
        if rs.get("owes"):
            self.at(ip, st, "the scheduler role is left without a signal after it", fn, line, "idle")
        for s, v in ((st, True), (st.copy(), False)):
            if not ip.assume(s, val, v):
                continue
            if not v:
                continue
            r = s.rs
            bad = None
            if r.get("busy"):
                bad = "a worker is running"
            elif not r.get("vec"):
                bad = "the workers are not checked"
            elif r.get("heap") != "e":
                bad = "there may be waiting tasks"
            elif self.lstate(s, self.pending()) != "e":
                bad = "there may be popped tasks not scheduled yet"
            elif r.get("s_front") is None or ip.truth(s, r["s_front"]) is not True:
                bad = "there may be posted tasks"
            elif r.get("s_ready") is None or ip.eq(s, r["s_ready"], 0) is not True:
                bad = "there may be ready tasks"
            if bad:
                self.at(ip, s, "the scheduler is told to be empty while " + bad, fn, line, "end")


class WaitEmpty(Common):
    def on_other(self, ip, st, c):
        if c.qn == TS + "::IsEmpty":
            self.count("polls")
            st.rs["empty"] = 1
            s2 = st.copy()
            s2.rs["empty"] = 0
            return [(st, 1), (s2, 0)]
        return super().on_other(ip, st, c)

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        v = ip.truth(st, val)
        if v is not False and not st.rs.get("empty"):
            self.at(ip, st, "waiting for emptiness succeeds while the scheduler is not empty", fn, line, "end")
        if v is False and st.rs.get("empty"):
            self.at(ip, st, "waiting for emptiness fails while the scheduler is empty", fn, line, "end")


class Stop(Common):
    def on_call(self, ip, st, c):
        rs = st.rs
        if c.cls in ("mg::box::Thread",) or c.cls == NS + "TaskSchedulerThread":
            n = c.name
            if n == "Stop":
                rs["asked"] = 1
                rs.pop("readysent", None)
                self.count("stops")
                return [(st, None)]
            if n in ("StopAndDelete", "BlockingStop"):
                self.count("joins")
                if not (rs.get("asked") and rs.get("readysent")):
                    self.rep(ip, st, "a worker is waited for while it can be sleeping: the stop hangs", c, "end")
                if not self.has_role(st):
                    self.rep(ip, st, "the workers are stopped without being the scheduler: the rest of them can see freed "
                                     "threads", c, "end")
                return [(st, None)]
            if n == "Start":
                self.count("starts")
                return [(st, None)]
        if c.cls.startswith("std::vector<") and c.obj == fld(THIS, "myThreads"):
            if not self.has_role(st) and c.name not in ("~vector", "vector"):
                self.rep(ip, st, "the list of workers is accessed without being the scheduler", c, "end")
            if c.name == "clear":
                rs["cleared"] = 1
            if c.name == "empty":
                s2 = st.copy()
                st.rs["noworkers"] = 1
                s2.rs["some"] = 1
                return [(st, 1), (s2, 0)]
            if c.name == "size":
                t = ip.tok(st, ("nworkers", self.entry))
                ip.refine(st, t, lo=1 if rs.get("some") else 0)
                return [(st, t)]
            if c.name in ("begin", "cbegin"):
                rs["first"] = 1
        if c.name in ("operator!=", "operator==") and "__gnu_cxx" in c.qn + c.cls:
            if rs.pop("first", None) and rs.get("some"):
                # The list is not empty.
                return [(st, int(c.name == "operator!="))]
        return super().on_call(ip, st, c)

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        rs = st.rs
        if self.has_role(st):
            self.at(ip, st, "the scheduler role is never left", fn, line, "end")
        if rs.get("owes"):
            self.at(ip, st, "the scheduler role is left without a signal after it", fn, line, "end")
        if self.entry == "stop" and not rs.get("noworkers") and not rs.get("cleared"):
            self.at(ip, st, "stopped workers stay in the list", fn, line, "end")


class Dtor(Common):
    """Destruction: only after everything was executed and the workers are stopped."""

    def on_call(self, ip, st, c):
        if c.qn == TS + "::WaitEmpty":
            st.rs["waited"] = 1
            return [(st, 1)]
        if c.qn == TS + "::Stop":
            if not st.rs.get("waited"):
                self.rep(ip, st, "the workers are stopped before all tasks are executed", c, "end")
            st.rs["stopped"] = 1
            return [(st, None)]
        k = self.kind_of(c)
        if k is not None or c.qn.startswith((IM, SG)):
            if c.kind == "dtor":
                if not st.rs.get("stopped"):
                    self.rep(ip, st, "the queues are destroyed while the workers can be running", c, "end")
                return [(st, None)]
            return [(st, ip.tok(st, ("q", c.ctx, c.sid)))]
        return super().on_call(ip, st, c)

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        if not st.rs.get("stopped"):
            self.at(ip, st, "the scheduler is destroyed without stopping the workers", fn, line, "end")


class Deadline(Common):
    """Setters and getters of a deadline."""

    def atomic_domain(self, ip, st, op, region):
        return None

    def foreign_status(self, ip, st, op, region, orders, operand, result, fn, line, success):
        if op != "load":
            self.at(ip, st, "the status of a task is changed by an operation on its deadline", fn, line, "lost")

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        old = st.rs["old"]
        dl = ip.norm(st, ip.read(st, fld(THIS, "myDeadline")))
        k, arg = self.entry[0], st.rs.get("arg")
        now = [x[1] for x in st.rs if isinstance(x, tuple) and x[0] == "now"]
        if arg is not None:
            arg = ip.norm(st, arg)
        target = arg
        if self.entry[1]:
            if not now:
                self.at(ip, st, "a delay does not count from now", fn, line, "time")
                return
            target = ip.norm(st, ip.arith(st, "+", now[-1], arg))
        if k == "set":
            if dl != target and ip.eq(st, dl, target) is not True:
                self.at(ip, st, "the deadline becomes not the requested one", fn, line, "time")
        elif k == "adjust":
            # The earliest of the two.
            if dl == target or ip.eq(st, dl, target) is True:
                if ip.lt(st, old, target) is not False:
                    self.at(ip, st, "a deadline is adjusted to a later one", fn, line, "time")
            elif dl == old or ip.eq(st, dl, old) is True:
                if ip.lt(st, target, old) is not False:
                    self.at(ip, st, "an earlier deadline is ignored", fn, line, "time")
            else:
                self.at(ip, st, "the deadline becomes neither the old nor the requested one", fn, line, "time")
        elif k == "wait":
            if ip.eq(st, dl, (1 << 64) - 1) is not True:
                self.at(ip, st, "an endless wait has a deadline", fn, line, "time")
        elif k in ("get", "expired"):
            want = old if k == "get" else ip.read(st, fld(THIS, "myIsExpired"))
            if ip.norm(st, val) != ip.norm(st, want) and ip.eq(st, val, want) is not True:
                self.at(ip, st, "a wrong value is returned", fn, line, "time")


class Less(Common):
    def end(self, ip, st, val, fn, line):
        self.count("exits")
        a = ip.norm(st, ip.read(st, fld(THIS, "myDeadline")))
        b = ip.norm(st, ip.read(st, fld(st.rs["other"], "myDeadline")))
        for v in (True, False):
            s = st.copy()
            if not ip.assume(s, val, v):
                continue
            r = ip.lt(s, b, a)
            if r is None or r == v:
                # Being equal may be told both ways.
                if v and r is not False or not v and ip.lt(s, a, b) is not False:
                    self.at(ip, s, "tasks are compared wrongly: a later deadline is served before an earlier one", fn,
                            line, "time")


class CoroOp(Common):
    """Coroutine operations: what is done once the coroutine is suspended."""

    def __init__(self, p, entry, tags=None):
        super().__init__(p, entry, tags)

    def used(self, ip, st, region, fn, line):
        rs = st.rs
        if rs.get("opgone") and under(region, THIS):
            self.at(ip, st, "a suspended coroutine is accessed after it could be resumed or deleted", fn, line, "coro")
        t = rs.get("task")
        if rs.get("taskgone") and t is not None and under(region, deref(t)):
            self.at(ip, st, "a task is accessed after it was given away or deleted", fn, line, "coro")

    def load(self, ip, st, region, val, fn, line):
        if region == fld(THIS, "myTask") and "task" not in st.rs:
            st.rs["task"] = ip.norm(st, val)
        self.used(ip, st, region, fn, line)

    def store(self, ip, st, region, val, fn, line):
        self.used(ip, st, region, fn, line)

    def deref(self, ip, st, val, fn, line):
        pass

    def gone(self, st, k):
        st.rs[k] = st.rs.get(k, 0) + 1
        st.rs["opgone"] = 1
        st.rs["taskgone"] = 1

    def is_task(self, ip, st, v):
        t = ip.norm(st, ip.read(st, fld(THIS, "myTask")))
        return ip.eq(st, ip.norm(st, v), t) is True

    def on_call(self, ip, st, c):
        rs = st.rs
        if c.obj is not None:
            self.used(ip, st, c.obj, c.fn, c.line)
        if c.qn in (TS + "::Post", TS + "::PostDelay", TS + "::PostWait", TS + "::PostDeadline"):
            self.count("posts")
            if not self.is_task(ip, st, self.arg(ip, st, c, 0)):
                self.rep(ip, st, "a wrong task is posted", c, "coro")
            if c.obj != ip.region_of(ip.read(st, fld(THIS, "mySched"))) and c.obj != fld(THIS, "mySched") and \
                    c.obj != rs.get("sched"):
                self.rep(ip, st, "a task is posted to a wrong scheduler", c, "coro")
            self.gone(st, "posted")
            return [(st, None)]
        if c.qn == NS + "Task::ReceiveSignal":
            self.count("receives")
            t = ip.tok(st, ("recv", c.ctx, c.sid))
            rs["recv"] = t
            if not under(c.obj, deref(ip.norm(st, ip.read(st, fld(THIS, "myTask"))))):
                self.rep(ip, st, "a signal of a wrong task is received", c, "coro")
            return [(st, t)]
        if c.qn == NS + "Task::SetCallback" or (c.cls.startswith("std::function<") and c.name == "operator=" and
                                                c.obj is not None and c.obj[0] == "f" and c.obj[2] == "myCallback"):
            # The coroutine lives in the old callback.
            self.count("callback_changes")
            rs["opgone"] = 1
            empty = c.args and isinstance(c.args[0], tuple) and rs.get(("emptyfn", c.args[0]))
            rs["cbset"] = c.args[0] if c.args else None
            return [(st, ("L", c.obj))]
        if c.cls.startswith("std::function<"):
            if c.kind == "ctor":
                if c.args and isinstance(c.args[0], tuple) and c.args[0][0] == "L":
                    src = c.args[0][1]
                    self.used(ip, st, src, c.fn, c.line)
                    rs[("fn", c.obj)] = src
                return [(st, ("L", c.obj))]
            if c.kind == "dtor":
                return [(st, None)]
            if c.name == "operator()":
                self.count("calls")
                rs["called"] = rs.get("called", 0) + 1
                t = rs.get("task")
                new = rs.get("cbset")
                if self.entry == "exec":
                    if t is None or not under(c.obj, deref(t)):
                        if not (isinstance(new, tuple) and new[0] == "L" and c.obj == new[1]):
                            self.rep(ip, st, "a wrong callback is called", c, "coro")
                    elif new is None:
                        self.rep(ip, st, "the old callback is called again instead of the new one", c, "coro")
                    if not (c.args and self.is_taskv(ip, st, self.arg(ip, st, c, 0))):
                        self.rep(ip, st, "a callback is called with a wrong task", c, "coro")
                rs["taskgone"] = 1
                rs["opgone"] = 1
                return [(st, None)]
        if c.qn == SG + "Send":
            self.count("sends")
            rs["sent"] = rs.get("sent", 0) + 1
            if rs.get("cbset", 0) == 0:
                self.rep(ip, st, "the signal is sent while the coroutine still exists: the receiver may delete the task "
                                 "with the coroutine which is running", c, "coro")
            rs["opgone"] = 1
            rs["taskgone"] = 1
            return [(st, None)]
        return super().on_call(ip, st, c)

    def is_taskv(self, ip, st, v):
        t = st.rs.get("task")
        return t is not None and ip.eq(st, v, t) is True

    def delete(self, ip, st, val, node, fn, line):
        self.count("deletes")
        t = st.rs.get("task")
        if t is None or ip.eq(st, ip.norm(st, val), t) is not True:
            self.at(ip, st, "a wrong object is deleted", fn, line, "coro")
        self.gone(st, "deleted")
        return [(st, None)]

    def end(self, ip, st, val, fn, line):
        rs = st.rs
        self.count("exits")
        want = {"yield": ("posted", "queued"), "delete": ("deleted", "deleted"), "exec": ("called", "executed"),
                "send": ("sent", "signaled")}.get(self.entry)
        if want and rs.get(want[0], 0) != 1:
            self.at(ip, st, "the task is %s %d times instead of once" % (want[1], rs.get(want[0], 0)), fn, line, "coro")
        if want and ip.truth(st, val) is not True:
            self.at(ip, st, "a coroutine continues right away although it was given to somebody else", fn, line, "coro")
        if self.entry == "resume" and (rs.get("recv") is None or ip.norm(st, val) != ip.norm(st, rs["recv"])):
            self.at(ip, st, "the result does not tell whether the signal was received", fn, line, "coro")


class OneShot(Common):
    """A one-shot task: callback, then the deletion."""

    def on_call(self, ip, st, c):
        rs = st.rs
        if c.cls.startswith("std::function<") and c.name == "operator()":
            self.count("callbacks")
            rs["called"] = rs.get("called", 0) + 1
            if rs.get("deleted"):
                self.rep(ip, st, "a one-shot task is deleted before its callback", c)
            if not under(c.obj, THIS) or c.obj[2] != "myCallback":
                self.rep(ip, st, "a wrong callback is called", c)
            return [(st, None)]
        return super().on_call(ip, st, c)

    def delete(self, ip, st, val, node, fn, line):
        self.count("deletes")
        if ip.eq(st, ip.norm(st, val), addr(THIS)) is True:
            st.rs["deleted"] = st.rs.get("deleted", 0) + 1
        return [(st, None)]

    def end(self, ip, st, val, fn, line):
        if st.rs.get("called", 0) != 1:
            self.at(ip, st, "a one-shot callback is called %d times" % st.rs.get("called", 0), fn, line)
        if st.rs.get("deleted", 0) != 1:
            self.at(ip, st, "a one-shot task is deleted %d times" % st.rs.get("deleted", 0), fn, line)


def step_setup(p):
    def setup(ip, st, this, args):
        v = ip.read(st, fld(deref(this), "mySchedBatchSize"))
        ip.refine(st, v, lo=1)
        v = ip.read(st, fld(deref(this), "myExecBatchSize"))
        ip.refine(st, v, lo=1)
    return setup


def worker_setup(p):
    def setup(ip, st, this, args):
        s = ip.read(st, fld(deref(this), "myScheduler"))
        ip.refine(st, s, ne=0)
        v = ip.read(st, fld(deref(s), "myExecBatchSize"))
        ip.refine(st, v, lo=1)
    return setup


def sched_step(res, rulename, tags):
    p = res.prog("epoll", ("sch",))
    res.walk(p, Sched(p, "step", tags), p.fn(TS + "::PrivSchedule"), rulename, setup=step_setup(p))
    for w in ("made_ready", "pushed_to_ready", "put_to_timers", "removed_from_timers", "front_drained", "front_sleeps",
              "status_ops", "steps"):
        res.need(rulename, w, 1)
    return p


def worker(res, rulename, tags, p):
    res.walk(p, Worker(p, "run", tags), p.fn(NS + "TaskSchedulerThread::Run"), rulename, setup=worker_setup(p))
    for w in ("pops", "schedule_calls", "ready_sleeps", "state_changes"):
        res.need(rulename, w, 1)
    if not res.instances[rulename].get("callbacks"):
        f = p.fn(NS + "TaskSchedulerThread::Run")
        res.violation(rulename, f, f.line, "no popped task ever reaches its callback")


def posts(res, rulename, tags, p):
    for n in ("Post", "PostDelay", "PostDeadline", "PostWait"):
        def setup(ip, st, this, args):
            st.rs["task"] = ip.norm(st, args[0])
            st.store[fld(deref(args[0]), "myScheduler")] = 0
        res.walk(p, Post(p, "post", tags), p.fn(TS + "::" + n), rulename, setup=setup)
    res.need(rulename, "pushes", 4)


def wakers(res, rulename, tags, p):
    for n, k in (("PostWakeup", "wakeup"), ("PostSignal", "signal"), ("ReceiveSignal", "recv")):
        def setup(ip, st, this, args):
            if k == "recv":
                st.store[fld(THIS, "myScheduler")] = 0
        res.walk(p, Waker(p, k, tags), p.fn(NS + "Task::" + n), rulename, setup=setup)
    for w in ("pushes", "status_ops", "wakes"):
        res.need(rulename, w, 2)


@check("T01")
def run(res):
    res.rule("conservation", "in a scheduling step, followed one arbitrary task at a time on every path, each task taken "
             "from the timers or from the front queue gets into exactly one place: ready (by a status change or because of "
             "its waker), timers, or is left to its waker; all ready tasks are pushed and flushed; each step takes at least "
             "one of queued and expired tasks with every batch size.")
    res.rule("execution", "a worker calls the callback of each popped task exactly once with the task made free before; "
             "one-shot tasks are deleted once after their callback.")
    res.rule("posting", "each post queues the given task exactly once.")
    p = sched_step(res, "conservation", {"once"})
    worker(res, "execution", {"once"}, p)
    res.walk(p, OneShot(p, "oneshot", {"once"}), p.fn(NS + "TaskOneShot::Execute"), "execution")
    posts(res, "posting", {"once"}, p)


@check("T02")
def run2(res):
    res.rule("waking", "on every path of a wakeup and of a signal, with every status other threads may leave: the status "
             "changes only to ready or signaled, a signal is never overwritten, is sent with release and received with "
             "acquire; a waiting task and only it is queued by the waker once; the result of a receive is exact.")
    res.rule("statuses", "the scheduler and the workers change statuses only by compare-and-swap in the allowed directions; "
             "a signal stays until received.")
    p = sched_step(res, "statuses", {"lost"})
    worker(res, "statuses", {"lost"}, p)
    wakers(res, "waking", {"lost"}, p)
    posts(res, "statuses", {"lost"}, p)
    for n in ("SetDelay", "SetDeadline", "AdjustDelay", "AdjustDeadline", "SetWait", "IsSignaled", "IsExpired",
              "GetDeadline"):
        res.walk(p, Waker(p, "quiet", {"lost"}), p.fn(NS + "Task::" + n), "statuses")


@check("T03")
def run3(res):
    res.rule("deadlines", "in a scheduling step a task is made ready only if its deadline is reached by the clock read, or if "
             "it was woken up; the task is told that exactly; a waiting one with a finite deadline is put to the timers; "
             "the scheduler sleeps not longer than till the top of the timers, and without a timeout only if there are none.")
    res.rule("deadline-setters", "set operations store the requested deadline, adjust ones the earliest of the two, delays "
             "count from the current time without truncation; the order of the timers is the order of deadlines.")
    p = sched_step(res, "deadlines", {"time"})
    worker(res, "deadlines", {"time"}, p)
    for n, k, d in (("SetDelay", "set", 1), ("SetDeadline", "set", 0), ("AdjustDelay", "adjust", 1),
                    ("AdjustDeadline", "adjust", 0), ("SetWait", "wait", 0), ("GetDeadline", "get", 0),
                    ("IsExpired", "expired", 0)):
        def setup(ip, st, this, args):
            st.store[fld(THIS, "myScheduler")] = 0
            st.rs["old"] = ip.read(st, fld(THIS, "myDeadline"))
            if args:
                st.rs["arg"] = args[0]
        res.walk(p, Deadline(p, (k, d), {"time", "lost"}), p.fn(NS + "Task::" + n), "deadline-setters", setup=setup)

    def setup(ip, st, this, args):
        st.rs["other"] = ip.region_of(args[0])
    res.walk(p, Less(p, "less", {"time"}), p.fn(NS + "Task::operator<="), "deadline-setters", setup=setup)


@check("T04")
def run4(res):
    res.rule("idle", "a scheduler leaving its role signals the ready signal afterwards; it sleeps on the front signal only "
             "when nothing is ready or pending and the front queue was drained; a worker sleeps on the ready signal only "
             "after trying to become the scheduler and finding no ready tasks; a push into the empty front queue and a "
             "request for the role send the front signal.")
    p = sched_step(res, "idle", {"idle"})
    worker(res, "idle", {"idle"}, p)
    posts(res, "idle", {"idle"}, p)
    wakers(res, "idle", {"idle"}, p)
    n = 0
    for f in p.funcs.values():
        if f.kind == "lambda" and f.outer and "InterruptibleMutex" not in f.qn and f.qn.startswith(TS + "::"):
            o = p.funcs.get(f.outer)
            if o is None:
                continue
            if any(i[1][0] in ("call", "mcall") and isinstance(i[1][1], dict) and i[1][1].get("qn") == IM + "Lock"
                   for b in o.blocks.values() for i in b.insts) or True:
                if calls(o, IM + "Lock"):
                    n += 1
                    res.walk(p, LambdaSends(p, "lambda", {"idle"}), f, "idle")
    if n == 0:
        raise AnalysisBroken("anchor vanished: interruption of the scheduler")


def calls(f, qn):
    def walk(x):
        if isinstance(x, dict):
            return x.get("qn") == qn or any(walk(v) for v in x.values())
        if isinstance(x, tuple):
            return any(walk(v) for v in x)
        return False
    return any(walk(i) for b in f.blocks.values() for i in b.insts)


@check("T05")
def run5(res):
    res.rule("untouched", "after a task was given to the workers, to the scheduler, to its callback, or was made ready by "
             "its waker, it is not accessed any more on any path.")
    p = sched_step(res, "untouched", {"touch"})
    worker(res, "untouched", {"touch"}, p)
    wakers(res, "untouched", {"touch"}, p)
    posts(res, "untouched", {"touch"}, p)


@check("T06")
def run6(res):
    res.rule("empty", "the scheduler is told to be empty only when under the scheduler role the ready queue was seen empty, "
             "after that every worker idle, and after that the front queue, timers and pending tasks empty; a worker is "
             "running from before its first pop till nothing is popped.")
    res.rule("stop", "the workers are asked to stop, then signaled, then joined, all under the scheduler role; each stopped "
             "worker wakes up the next one; the destruction waits for emptiness first.")
    p = res.prog("epoll", ("sch",))
    T = {"end"}
    res.walk(p, Empty(p, "empty", T | {"idle"}), p.fn(TS + "::IsEmpty"), "empty")
    for w in ("worker_states", "exits"):
        res.need("empty", w, 1)
    worker(res, "empty", T, p)
    res.walk(p, WaitEmpty(p, "wait", T), p.fn(TS + "::WaitEmpty"), "empty")
    res.need("empty", "polls", 1)
    res.walk(p, Stop(p, "stop", T), p.fn(TS + "::Stop"), "stop")
    for w in ("stops", "joins"):
        res.need("stop", w, 1)
    res.walk(p, Stop(p, "start", T), p.fn(TS + "::Start"), "stop")
    res.walk(p, Dtor(p, "dtor", T), p.fn(TS + "::~TaskScheduler"), "stop")


@check("T07")
def run7(res):
    res.rule("coroutine-ops", "a yield queues its task exactly once to its scheduler, an exit deletes, executes or signals "
             "exactly once, and on no path the suspended coroutine or its task is accessed after that; what lives in the "
             "coroutine is moved out before its callback is replaced.")
    p = res.prog("epoll", ("sch",))
    T = {"coro"}
    for cls, k in (("TaskCoroOpYield", "yield"), ("TaskCoroOpReceiveSignal", "yield"), ("TaskCoroOpExitDelete", "delete"),
                   ("TaskCoroOpExitExec", "exec"), ("TaskCoroOpExitSendSignal", "send")):
        def setup(ip, st, this, args):
            t = ip.read(st, fld(THIS, "myTask"))
            ip.refine(st, t, ne=0)
            st.rs["task"] = t
            st.store[fld(deref(t), "myScheduler")] = 0
            v = ip.read(st, fld(THIS, "mySched"))
        res.walk(p, CoroOp(p, k, T), p.fn(NS + cls + "::await_suspend"), "coroutine-ops", setup=setup)
    res.walk(p, CoroOp(p, "resume", T), p.fn(NS + "TaskCoroOpReceiveSignal::await_resume"), "coroutine-ops")
    for w, n in (("posts", 2), ("deletes", 1), ("calls", 1), ("sends", 1), ("receives", 1), ("callback_changes", 2)):
        res.need("coroutine-ops", w, n)
    worker(res, "coroutine-ops", T, p)
