"""Common model of the two schedulers (of tasks and of IO tasks).

The queues, lists and heaps holding the tasks are not walked into: each has a check of its own. Their operations are
events here, and the rule follows one task at a time from the queue it is taken from ("hand") to where it ends up."""
from .engine import addr, deref, region_str, root_of, under, is_acq, is_rel
from .sync import SyncRule
from .ir import AnalysisBroken

THIS = ("name", "this")
TOP = ("name", "heap-top")


def fld(r, n):
    return ("f", r, n)


class Pipe(SyncRule):
    ELEM = None         # Canonical name of the task class.
    CORE = None         # Of the scheduler class.
    inline_depth = 40
    # What is known about the task in hand.
    per_task = ("expset",)

    def __init__(self, p, entry):
        super().__init__()
        self.p = p
        self.entry = entry
        self.S = {}

    # ------------------------------------------------------------ small helpers
    def f_status(self):
        return "myStatus"

    def statusreg(self, t):
        return fld(fld(deref(t), "myStatus"), "myValue")

    def get(self, ip, st, t, name):
        return ip.norm(st, ip.read(st, fld(deref(t), name)))

    # Aspects: "once" (each task is executed exactly once), "time" (deadlines), "idle" (nobody sleeps while there is
    # something to do), "touch" (given away tasks are left alone), "lost" (wakeups and signals), "end" (shutdown).
    tags = None

    def want(self, tag):
        return self.tags is None or any(t in self.tags for t in tag.split())

    def rep(self, ip, st, msg, c, tag="once"):
        if self.want(tag):
            ip.report(st, msg, c.fn, c.line)

    def at(self, ip, st, msg, fn, line, tag="once"):
        if self.want(tag):
            ip.report(st, msg, fn, line)

    def expired(self, ip, st, t):
        """Is the deadline reached, by what the path knows."""
        dl = self.get(ip, st, t, "myDeadline")
        if ip.eq(st, dl, 0) is True:
            return True
        for k in list(st.rs):
            if isinstance(k, tuple) and k[0] == "now":
                r = ip.lt(st, k[1], dl)
                if r is not None:
                    return not r
        return None

    def arg(self, ip, st, c, i):
        return ip.norm(st, ip.rvalue(st, c.args[i]))

    def hand(self, st):
        return st.rs.get("hand")

    # The hand.
    def take(self, ip, st, t, src, fn, line):
        self.settle(ip, st, fn, line)
        self.count("taken_from_" + src)
        st.rs["hand"] = (t, src)
        for k in ("stt", "woken", "unheaped", "expset"):
            st.rs.pop(k, None)
        self.on_take(ip, st, t, src)

    def on_take(self, ip, st, t, src):
        pass

    def drop_hand(self, ip, st):
        h = st.rs.pop("hand", None)
        if h is not None and isinstance(h[0], tuple):
            # Nothing of it is of interest any more.
            ip.havoc(st, deref(h[0]), ("gone",))
        for k in self.per_task:
            st.rs.pop(k, None)
        for k in ("stt", "woken", "unheaped"):
            st.rs.pop(k, None)

    def settle(self, ip, st, fn, line):
        """The task in hand is not going to be seen any more: is it fine where it is."""
        h = self.hand(st)
        if h is None:
            return
        t, src = h
        stt = st.rs.get("stt")
        if src == "front":
            if stt == "waiting":
                dl = self.get(ip, st, t, "myDeadline")
                inf = (1 << 64) - 1
                if ip.eq(st, dl, inf) is not True and ip.eq(st, dl, -1) is not True:
                    self.at(ip, st, "a task waiting for a deadline is not put into the timer queue: it is never executed",
                              fn, line, tag="time")
            elif not self.settled_front(ip, st, t, stt):
                self.at(ip, st, "a task is taken out of the queue and is put nowhere: it is never executed", fn, line)
        elif src == "timer":
            if stt != "woken":
                self.at(ip, st, "a task is taken out of the timer queue and is not made ready: it is never executed", fn,
                          line)
        elif src == "kernel":
            if stt in ("ready", "closed"):
                self.at(ip, st, "a task is marked ready and is put nowhere: it is never executed", fn, line)
            else:
                self.settled_kernel(ip, st, t, stt, fn, line)
        elif src == "exec":
            self.at(ip, st, "a task is popped and not executed", fn, line)
        self.drop_hand(ip, st)

    def settled_front(self, ip, st, t, stt):
        return False

    def settled_kernel(self, ip, st, t, stt, fn, line):
        pass

    def to_ready(self, ip, st, t, c):
        """A task in hand goes to the workers."""
        h = self.hand(st)
        _, src = h
        stt = st.rs.get("stt")
        self.count("made_ready")
        if stt == "woken":
            self.rep(ip, st, "a task which its waker is going to queue is made ready by the scheduler too: it is "
                             "executed twice", c)
        elif stt == "waiting":
            self.rep(ip, st, "a task is made ready while it is marked as waiting: a wakeup queues it again", c)
        elif stt not in ("ready", "closed"):
            self.rep(ip, st, "a task is made ready without its status being changed to that", c)
        if src == "timer":
            if self.expired(ip, st, t) is not True:
                self.rep(ip, st, "a waiting task is made ready while its deadline may be not reached", c, tag="time")
        if src in ("front", "kernel"):
            idx = self.get(ip, st, t, "myIndex")
            if not st.rs.get("unheaped") and ip.lt(st, idx, 0) is not True:
                self.rep(ip, st, "a task is made ready while it stays in the timer queue", c)
        self.check_ready(ip, st, t, src, c)
        self.drop_hand(ip, st)

    def check_ready(self, ip, st, t, src, c):
        pass

    # ------------------------------------------------------------ statuses
    def atomic_domain(self, ip, st, op, region):
        h = self.hand(st)
        if h is None or region != self.statusreg(h[0]):
            return self.other_domain(ip, st, op, region)
        return self.domain(st, h[1], st.rs.get("stt"))

    def other_domain(self, ip, st, op, region):
        return None

    def domain(self, st, src, stt):
        raise NotImplementedError

    # ------------------------------------------------------------ calls
    def kind_of(self, c):
        q = c.cls or ""
        if not q.startswith("mg::box::") or self.ELEM not in q:
            return None
        for k, n in (("ForwardList<", "list"), ("ForwardListIterator<", "iter"), ("MultiProducerQueueIntrusive<", "front"),
                     ("MultiConsumerQueueConsumer<", "consumer"), ("MultiConsumerQueue<", "ready"), ("BinaryHeap<", "heap")):
            if q.startswith("mg::box::" + k):
                return n
        return None

    def need_role(self, ip, st, c, what):
        if not self.has_role(st):
            self.rep(ip, st, "%s is used by a thread which is not the scheduler now" % what, c)

    def has_role(self, st):
        return st.rs.get("role", 0) == 1

    def local(self, r):
        return root_of(r)[0] in ("v", "o")

    def lstate(self, st, r):
        return st.rs.get(("L", r), "u")

    def on_call(self, ip, st, c):
        k = self.kind_of(c)
        if k is not None:
            if c.kind == "dtor":
                if k == "list" and self.local(c.obj) and self.lstate(st, c.obj) != "e":
                    self.rep(ip, st, "a list is destroyed with tasks in it: they are never executed", c)
                st.rs.pop(("L", c.obj), None)
                return [(st, None)]
            r = getattr(self, "c_" + k)(ip, st, c)
            if r is None:
                raise AnalysisBroken("%s::%s is not modelled" % (c.cls, c.name))
            return r
        if c.qn in ("mg::box::GetMilliseconds",):
            t = ip.tok(st, ("ms", c.ctx, c.sid))
            ip.refine(st, t, lo=0)
            st.rs[("now", t)] = 1
            return [(st, t)]
        return self.on_other(ip, st, c)

    def on_other(self, ip, st, c):
        return None

    def split_empty(self, ip, st, r):
        """Is the list empty: [(state, bool)]."""
        s = self.lstate(st, r)
        if s == "e":
            return [(st, True)]
        if s == "n":
            return [(st, False)]
        s2 = st.copy()
        st.rs[("L", r)] = "e"
        s2.rs[("L", r)] = "n"
        return [(st, True), (s2, False)]

    def c_list(self, ip, st, c):
        n = c.name
        r = c.obj
        rs = st.rs
        if c.kind == "ctor":
            if len(c.args) and isinstance(c.args[0], tuple) and c.args[0][0] == "L":
                src = c.args[0][1]
                rs[("L", r)] = self.lstate(st, src)
                rs[("L", src)] = "e"
            elif len(c.args) >= 1:
                rs[("L", r)] = "u"
            else:
                rs[("L", r)] = "e"
            return [(st, ("L", r))]
        if not self.local(r):
            self.need_role(ip, st, c, "a queue of the scheduler")
        if n == "IsEmpty":
            return [(s, int(e)) for s, e in self.split_empty(ip, st, r)]
        if n in ("Append", "Prepend") and len(c.args) == 1:
            a = c.args[0]
            if isinstance(a, tuple) and a[0] == "L":
                src = a[1]
                if self.lstate(st, src) != "e":
                    self.list_to_list(ip, st, src, r, c)
                    rs[("L", r)] = "n" if "n" in (self.lstate(st, src), self.lstate(st, r)) else "u"
                rs[("L", src)] = "e"
                return [(st, None)]
            t = ip.norm(st, a)
            h = self.hand(st)
            if h is None or ip.eq(st, t, h[0]) is not True:
                if rs.get("chain") is not None and ip.eq(st, t, rs["chain"]) is True:
                    return self.chain_step(ip, st, t, c, r)
                self.rep(ip, st, "a task is added to a list without being taken from a queue: it may be in two queues",
                         c)
            elif self.local(r):
                self.to_ready(ip, st, t, c)
            else:
                # Back to the member list.
                if rs.get("stt") is not None:
                    self.rep(ip, st, "a task is deferred after its status was changed", c)
                self.drop_hand(ip, st)
            rs[("L", r)] = "n"
            return [(st, None)]
        if n in ("Append", "Prepend") and len(c.args) == 2:
            a, b = self.arg(ip, st, c, 0), self.arg(ip, st, c, 1)
            fr = rs.get("frontlist")
            if fr is None or ip.eq(st, a, fr[0]) is not True or ip.eq(st, b, fr[1]) is not True:
                if ip.eq(st, a, 0) is True:
                    return [(st, None)]
                self.rep(ip, st, "a wrong list is appended", c)
            elif n == "Prepend" and self.lstate(st, r) != "e":
                self.rep(ip, st, "newer tasks are put before the older ones", c)
            rs.pop("frontlist", None)
            if self.lstate(st, r) == "e":
                rs[("L", r)] = "u"
            self.count("front_drained")
            return [(st, None)]
        if n == "PopFirst":
            if self.lstate(st, r) == "e":
                self.rep(ip, st, "a task is popped from an empty list", c)
                return []
            t = ip.tok(st, ("task", c.ctx, c.sid))
            ip.refine(st, t, ne=0)
            rs[("L", r)] = "u"
            rs.pop(("no", r), None)
            if self.local(r):
                # Already made ready.
                self.settle(ip, st, c.fn, c.line)
                rs["hand"] = (t, "readylist")
            else:
                self.take(ip, st, t, "front", c.fn, c.line)
                rs["npop"] = 1
            return [(st, t)]
        if n == "PopAll" and self.local(r):
            if c.args:
                ip.havoc(st, ip.region_of(c.args[0]), ("popall", c.ctx, c.sid))
            res = []
            for s, e in self.split_empty(ip, st, r):
                if e:
                    s.rs["chain"] = 0
                    res.append((s, 0))
                else:
                    t = ip.tok(s, ("chain", c.ctx, c.sid))
                    ip.refine(s, t, ne=0)
                    s.rs["chain"] = t
                    s.rs.pop("chnext", None)
                    s.rs[("L", r)] = "e"
                    res.append((s, t))
            return res
        if n == "GetFirst":
            t = ip.tok(st, ("first", c.ctx, c.sid))
            return [(st, t)]
        if n == "operator=" and len(c.args) == 1 and isinstance(c.args[0], tuple) and c.args[0][0] == "L":
            src = c.args[0][1]
            if self.lstate(st, r) != "e":
                self.rep(ip, st, "a list with tasks is overwritten", c)
            rs[("L", r)] = self.lstate(st, src)
            rs[("L", src)] = "e"
            return [(st, ("L", r))]
        if n == "Clear":
            if self.lstate(st, r) != "e":
                self.rep(ip, st, "a list with tasks is cleared: they are never executed", c)
            rs[("L", r)] = "e"
            return [(st, None)]
        return None

    def list_to_list(self, ip, st, src, dst, c):
        pass

    def chain_step(self, ip, st, t, c, where=None):
        """One more element of a linked chain is consumed."""
        rs = st.rs
        nx = rs.get("chnext")
        if nx is None:
            self.rep(ip, st, "the rest of a list of ready tasks is lost: its next task was not read before this one was "
                             "given away", c)
            rs["chain"] = 0
        else:
            rs["chain"] = nx
        rs.pop("chnext", None)
        return [(st, None)]

    def load(self, ip, st, region, val, fn, line):
        rs = st.rs
        ch = rs.get("chain")
        if isinstance(ch, tuple) and region == fld(deref(ch), "myNext"):
            if "chnext" not in rs:
                rs["chnext"] = ip.norm(st, val)
        self.on_load(ip, st, region, val, fn, line)

    def on_load(self, ip, st, region, val, fn, line):
        pass

    def store(self, ip, st, region, val, fn, line):
        rs = st.rs
        ch = rs.get("chain")
        if isinstance(ch, tuple) and region == fld(deref(ch), "myNext") and "chnext" not in rs:
            self.at(ip, st, "the rest of a list of ready tasks is lost: the link is changed before being read", fn, line)
        h = self.hand(st)
        if h is not None and h[0] is not None and isinstance(h[0], tuple):
            if region == fld(deref(h[0]), "myIsExpired"):
                rs["expset"] = ip.norm(st, val) if val is not None else None
            elif rs.get("stt") == "woken" and region == fld(deref(h[0]), "myNext"):
                self.at(ip, st, "a task is linked while its waker is queueing it", fn, line, tag="touch")
        self.on_store(ip, st, region, val, fn, line)

    def on_store(self, ip, st, region, val, fn, line):
        pass

    def c_front(self, ip, st, c):
        n = c.name
        rs = st.rs
        if c.kind == "ctor":
            return [(st, ("L", c.obj))]
        if n == "IsEmpty":
            t = ip.tok(st, ("fempty", c.ctx, c.sid))
            rs["fempty"] = t
            self.seen(ip, st, "front", c)
            return [(st, t)]
        if n in ("PopAll", "PopAllFastReversed"):
            self.need_role(ip, st, c, "the consumer's side of the front queue")
            if rs.get("frontlist") is not None and ip.eq(st, rs["frontlist"][0], 0) is not True:
                self.rep(ip, st, "tasks popped from the front queue are lost", c)
            rs["frontpopped"] = 1
            rs.pop("frontsig", None)
            h = ip.tok(st, ("fhead", c.ctx, c.sid))
            if n == "PopAllFastReversed":
                rs["frontlist"] = (h, None)
                return [(st, h)]
            tl = ip.tok(st, ("ftail", c.ctx, c.sid))
            if c.args:
                st.store[ip.region_of(c.args[0])] = tl
            rs["frontlist"] = (h, tl)
            return [(st, h)]
        if n.startswith("Push"):
            return self.front_push(ip, st, c)
        return None

    def front_push(self, ip, st, c):
        """Returns true when the queue was empty."""
        t = self.arg(ip, st, c, 0)
        self.on_push(ip, st, t, c)
        st.rs["pushed"] = t
        s2 = st.copy()
        s2.rs["need_signal"] = 1
        ip.note(s2, c.fn, c.line, "the front queue was empty")
        return [(st, 0), (s2, 1)]

    def on_push(self, ip, st, t, c):
        pass

    def c_ready(self, ip, st, c):
        n = c.name
        rs = st.rs
        if c.kind == "ctor":
            return [(st, ("L", c.obj))]
        if n in ("PushPending", "Push"):
            self.need_role(ip, st, c, "the producer's side of the ready queue")
            t = self.arg(ip, st, c, 0)
            h = self.hand(st)
            self.count("pushed_to_ready")
            if rs.get("chain") is not None and ip.eq(st, t, rs["chain"]) is True:
                self.chain_step(ip, st, t, c)
            elif h is not None and ip.eq(st, t, h[0]) is True:
                if h[1] == "readylist":
                    self.drop_hand(ip, st)
                else:
                    self.to_ready(ip, st, t, c)
            else:
                self.rep(ip, st, "a wrong task is given to the workers: one task is executed twice or never", c)
            if n == "PushPending":
                rs["unflushed"] = 1
            rs.pop("rcount", None)
            rs["given"] = t
            return [(st, ip.tok(st, ("push", c.ctx, c.sid)))]
        if n == "FlushPending":
            self.need_role(ip, st, c, "the producer's side of the ready queue")
            rs.pop("unflushed", None)
            rs.pop("rcount", None)
            return [(st, ip.tok(st, ("flush", c.ctx, c.sid)))]
        if n == "Count":
            t = ip.tok(st, ("rcount", c.ctx, c.sid))
            ip.refine(st, t, lo=0)
            rs["rcount"] = t
            self.seen(ip, st, "ready", c)
            return [(st, t)]
        if n in ("Reserve", "SubQueueCount", "ConsumerCount"):
            return [(st, ip.tok(st, ("rq", c.ctx, c.sid)))]
        return None

    def seen(self, ip, st, what, c):
        pass

    def c_consumer(self, ip, st, c):
        n = c.name
        if c.kind == "ctor":
            return [(st, ("L", c.obj))]
        if n in ("Attach", "Detach"):
            return [(st, None)]
        if n == "Pop":
            s2 = st.copy()
            self.settle(ip, st, c.fn, c.line)
            self.settle(ip, s2, c.fn, c.line)
            t = ip.tok(st, ("popped", c.ctx, c.sid))
            ip.refine(st, t, ne=0)
            st.rs["hand"] = (t, "exec")
            st.rs["lastpop"] = "task"
            self.on_pop(ip, st, t, c)
            s2.rs["lastpop"] = "null"
            self.on_pop(ip, s2, 0, c)
            return [(st, t), (s2, 0)]
        return None

    def on_pop(self, ip, st, t, c):
        pass

    def c_iter(self, ip, st, c):
        return None

    def c_heap(self, ip, st, c):
        n = c.name
        rs = st.rs
        H = "heap"
        if c.kind == "ctor":
            return [(st, ("L", c.obj))]
        if n == "Reserve":
            return [(st, None)]
        self.need_role(ip, st, c, "the timer queue")
        if n in ("Count", "IsEmpty"):
            self.seen(ip, st, "timers", c)
            s = rs.get(H, "u")
            res = []
            if s in ("u", "e"):
                s1 = st.copy()
                s1.rs[H] = "e"
                res.append((s1, 0 if n == "Count" else 1))
            if s in ("u", "n"):
                st.rs[H] = "n"
                if not rs.get("hlook"):
                    st.rs["hn"] = 1
                v = 0
                if n == "Count":
                    v = ip.tok(st, ("hcount", c.ctx, c.sid))
                    ip.refine(st, v, lo=1)
                res.append((st, v))
            return res
        if n == "GetTop":
            if rs.get(H) != "n":
                self.rep(ip, st, "the top of a timer queue which may be empty is taken", c)
            rs.pop("hn", None)
            rs["hlook"] = 1
            if "top" not in rs:
                t = ip.tok(st, ("top", c.ctx, c.sid))
                ip.refine(st, t, ne=0)
                rs["top"] = t
                # Heap order: all the others are not earlier.
            st.store[TOP] = rs["top"]
            return [(st, ("L", TOP))]
        if n in ("RemoveTop", "Pop"):
            t = rs.get("top")
            if n == "Pop":
                if t is None:
                    t = ip.tok(st, ("top", c.ctx, c.sid))
                    ip.refine(st, t, ne=0)
                st.store[ip.region_of(c.args[0])] = t
            elif rs.get(H) != "n":
                self.rep(ip, st, "the top of a timer queue which may be empty is removed", c)
            if t is None:
                self.rep(ip, st, "the top of the timer queue is dropped unseen: that task is never executed", c)
                return []
            rs.pop("top", None)
            rs[H] = "u"
            self.take(ip, st, t, "timer", c.fn, c.line)
            rs["ntimer"] = 1
            return [(st, 1)]
        if n == "Push":
            t = self.arg(ip, st, c, 0)
            h = self.hand(st)
            self.count("put_to_timers")
            if h is None or ip.eq(st, t, h[0]) is not True:
                self.rep(ip, st, "a wrong task is put into the timer queue", c)
            elif h[1] == "front":
                if rs.get("stt") != "waiting":
                    self.rep(ip, st, "a task is put into the timer queue without being marked as waiting: it can not be "
                                     "woken up", c)
            elif h[1] != "timer":
                self.rep(ip, st, "a task is put into the timer queue from a wrong place", c)
            elif rs.get("stt") is not None:
                self.rep(ip, st, "a task is returned to the timer queue after its status was changed", c)
            rs.pop("top", None)
            rs[H] = "n"
            self.drop_hand(ip, st)
            return [(st, None)]
        if n == "Remove":
            t = self.arg(ip, st, c, 0)
            h = self.hand(st)
            self.count("removed_from_timers")
            if h is None or ip.eq(st, t, h[0]) is not True:
                self.rep(ip, st, "a wrong task is removed from the timer queue", c)
            else:
                idx = self.get(ip, st, t, "myIndex")
                if ip.lt(st, idx, 0) is not False:
                    self.rep(ip, st, "a task which may be not in the timer queue is removed from it", c)
                if rs.get("stt") == "waiting":
                    self.rep(ip, st, "a waiting task is removed from the timer queue", c)
                rs["unheaped"] = 1
                st.store[fld(deref(t), "myIndex")] = -1
            rs.pop("top", None)
            rs[H] = "u"
            return [(st, None)]
        if n in ("UpdateTop", "Update"):
            rs.pop("top", None)
            return [(st, None)]
        return None

    # ------------------------------------------------------------ end of a scheduling step
    def before_sleep(self, ip, st, fn, line):
        self.step_done(ip, st, fn, line)
        if not st.rs.get("frontpopped"):
            self.at(ip, st, "the scheduler goes to sleep without having looked into the front queue", fn, line, tag="idle")
        if self.lstate(st, self.pending()) != "e":
            self.at(ip, st, "the scheduler goes to sleep while popped tasks are not scheduled yet", fn, line, tag="idle")
        rc = st.rs.get("rcount")
        if rc is None or ip.eq(st, rc, 0) is not True:
            self.at(ip, st, "the scheduler goes to sleep while there may be ready tasks: when it is the only worker they "
                          "are executed only after the sleep", fn, line, tag="idle")

    def pending(self):
        return fld(THIS, "myPendingQueue")

    def timeout_ok(self, ip, st, v):
        """Is the timeout value not later than the first deadline."""
        top = st.rs.get("top")
        if top is None:
            return False
        dl = self.get(ip, st, top, "myDeadline")
        for k in list(st.rs):
            if isinstance(k, tuple) and k[0] == "now":
                d = ip.norm(st, ip.arith(st, "-", dl, k[1]))
                if ip.lt(st, dl, k[1]) is True:
                    continue
                if ip.lt(st, dl, k[1]) is None and ip.lt(st, k[1], dl) is not True:
                    continue
                if v == d or ip.eq(st, v, d) is True or ip.lt(st, d, v) is False:
                    return True
        return False

    def step_done(self, ip, st, fn, line):
        """Everything taken so far must be somewhere."""
        rs = st.rs
        self.settle(ip, st, fn, line)
        fl = rs.get("frontlist")
        if fl is not None and ip.eq(st, fl[0], 0) is not True:
            self.at(ip, st, "tasks popped from the front queue are lost", fn, line)
        ch = rs.get("chain")
        if ch is not None and ip.eq(st, ch, 0) is not True:
            self.at(ip, st, "not all of the ready tasks are given to the workers", fn, line)
        if rs.get("unflushed"):
            self.at(ip, st, "ready tasks are pushed and not flushed: the workers don't see them", fn, line)
        for k, v in list(rs.items()):
            if isinstance(k, tuple) and k[0] == "L" and self.local(k[1]) and v != "e":
                self.at(ip, st, "a list of ready tasks is left not given to the workers", fn, line)

    def progress(self, ip, st, fn, line):
        rs = st.rs
        if self.lstate(st, self.pending()) == "n" and not rs.get("npop"):
            self.at(ip, st, "a scheduling step takes none of the queued tasks: with a small batch size they are never "
                          "executed", fn, line)
        if rs.get("hn"):
            self.at(ip, st, "a scheduling step does not look at the timers: with a small batch size the expired tasks are "
                            "never executed", fn, line)
