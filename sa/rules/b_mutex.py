"""B07: the mutex and the condition variable. B10: the thread."""
from ..core import check
from ..engine import INF, Rule, is_acq, is_rel, under
from ..ir import AnalysisBroken
from ..sync import SyncRule

MX, LK, CV = "mg::box::Mutex", "mg::box::MutexLock", "mg::box::ConditionVariable"
THIS, MUT = ("name", "this"), ("o", ("mutex",))
# Ids of threads: only compared with each other.
ME, ALIEN = 7001, 7002
COUNT = ("t", ("count",))
# Roughly so many milliseconds fit std::chrono after a conversion to nanoseconds.
FOREVER = 100 * 365 * 86400 * 1000
LIMIT = 9 * 10 ** 12


class MutexRule(Rule):
    """The handle is held by nobody, by this thread (count times in total), or by another one."""

    def __init__(self, op, who, mutex=THIS, armed=True):
        super().__init__()
        self.op, self.who, self.m, self.armed = op, who, mutex, armed

    def fields(self):
        return [("f", self.m, x) for x in ("myOwner", "myCount")]

    def cells(self, r):
        # A field or the value inside of an atomic one.
        for i, x in enumerate(self.fields()):
            if under(r, x):
                return i
        return None

    def setup(self, ip, st, this, args):
        rs = st.rs
        rs["who"], rs["waits"], rs["left"] = self.who, 0, 0
        rs["keep"] = (MUT,)
        ip.tinfo[COUNT] = (32, False, "")
        st.facts[COUNT] = ("b", 1, (1 << 32) - 2, frozenset())
        if self.mutex_name():
            st.store[("f", THIS, "myMutex")] = ("&", MUT) if self.armed else 0
        if "Wait" in self.op:
            rs["n"] = 1
        elif self.who == "me":
            rs["n"] = COUNT
        else:
            rs["n"] = 0
        if not self.op.startswith("ctor"):
            self.put(ip, st)

    def mutex_name(self):
        return self.op.startswith("lk")

    def put(self, ip, st):
        """The fields as the state of the mutex says."""
        rs = st.rs
        o, c = self.field_regions(ip)
        w = rs["who"]
        st.store[o] = ME if w == "me" else 0 if w == "none" else ALIEN
        st.store[c] = rs["n"] if w != "other" else ("t", ("theirs",))

    def field_regions(self, ip):
        return [self.inner(x) for x in self.fields()]

    def inner(self, x):
        return ("f", x, "myValue") if self.atomics.get(x[2]) == "mg" else x

    # ---- accesses
    def seen(self, ip, st, r, write, plain, fn, line):
        i = self.cells(r)
        if i is None:
            return
        self.count("accesses")
        if st.rs["who"] == "me":
            return
        what = ("the owner", "the counter")[i]
        if self.op.startswith("ctor") or self.op == "dtor":
            return
        if write:
            ip.report(st, "%s is changed by a thread which doesn't hold the mutex" % what, fn, line)
        elif plain:
            ip.report(st, "%s is read by a thread which doesn't hold the mutex: a race" % what, fn, line)

    def load(self, ip, st, r, v, fn, line):
        self.seen(ip, st, r, False, True, fn, line)

    def store(self, ip, st, r, v, fn, line):
        self.seen(ip, st, r, True, True, fn, line)

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        if op != "init":
            self.seen(ip, st, region, op != "load", False, fn, line)

    def atomic_domain(self, ip, st, op, region):
        i = self.cells(region)
        if i is None:
            return None
        if st.rs["who"] == "me":
            return (ip.norm(st, ip.read(st, region)),)
        return (0, ALIEN) if i == 0 else None

    def values(self, ip, st):
        return [ip.norm(st, ip.read(st, x)) for x in self.field_regions(ip)]

    # ---- the handle
    def take(self, ip, st):
        st.rs["who"] = "me"
        st.rs["n"] = 0
        o, c = self.field_regions(ip)
        st.store[o], st.store[c] = 0, 0

    def give(self, ip, st, fn, line, what):
        if st.rs["who"] != "me":
            ip.report(st, "the mutex is %s by a thread which doesn't hold it" % what, fn, line)
            return False
        if ip.bounds(st, st.rs["n"]) != (1, 1):
            ip.report(st, "the mutex is %s while it is still locked by the same thread" % what, fn, line)
        if any(ip.bounds(st, x) != (0, 0) for x in self.values(ip, st)):
            ip.report(st, "the mutex is %s with a stale owner or counter" % what, fn, line)
        st.rs["who"] = "none"
        st.rs["left"] += 1
        return True

    def call(self, ip, st, c):
        rs = st.rs
        if c.qn in ("mg::box::GetCurrentThreadId",):
            return [(st, ME)]
        if c.cls == "std::mutex":
            if c.obj is None or c.obj != ("f", self.m, "myHandle"):
                raise AnalysisBroken("an unknown handle")
            self.count("handle")
            if c.name == "lock":
                if rs["who"] == "me":
                    ip.report(st, "the thread waits for a mutex which it holds itself", c.fn, c.line)
                    return []
                self.take(ip, st)
                return [(st, None)]
            if c.name == "try_lock":
                res = []
                if rs["who"] != "me":
                    # What another thread holds now can become free, and backwards.
                    s = st.copy()
                    self.take(ip, s)
                    res.append((s, 1))
                s = st.copy()
                if rs["who"] != "me":
                    s.rs["who"] = "other"
                    o, k = self.field_regions(ip)
                    s.store[o], s.store[k] = ALIEN, ("t", ("theirs",))
                res.append((s, 0))
                return res
            if c.name == "unlock":
                return [(st, None)] if self.give(ip, st, c.fn, c.line, "released") else []
            if c.kind in ("ctor", "dtor"):
                return [(st, ("L", c.obj) if c.kind == "ctor" else None)]
            raise AnalysisBroken("method %s of the handle" % c.name)
        if c.cls.startswith("std::condition_variable") or c.cls.startswith("std::_V2::condition_variable"):
            if c.name in ("notify_one", "notify_all"):
                rs["told"] = c.name
                return [(st, None)]
            if c.name.startswith("wait"):
                return self.wait(ip, st, c)
            if c.kind in ("ctor", "dtor"):
                return [(st, ("L", c.obj) if c.kind == "ctor" else None)]
            raise AnalysisBroken("method %s of a condition variable" % c.name)
        if c.qn.endswith("TimeLimit::ToDurationFromNow"):
            t = ("t", ("timeout",))
            ip.tinfo[t] = (64, False, "")
            r = ("o", ("duration",))
            rs["keep"] += (r,)
            st.store[("f", r, "myValue")] = t
            rs["asked"] = 1
            return [(st, ("L", r))]
        if c.qn.startswith("std::chrono::") and c.kind == "ctor" and c.args:
            v = ip.norm(st, ip.rvalue(st, c.args[0]))
            rs["chrono"] = (c.qn, v)
            return [(st, ("L", c.obj))]
        if c.qn.startswith("mg::box::Assert"):
            ip.report(st, "an assertion may fail", c.fn, c.line)
            return []
        return None

    def wait(self, ip, st, c):
        rs = st.rs
        self.count("waits")
        h = ip.region_of(c.args[0])
        if h != ("f", self.m, "myHandle"):
            ip.report(st, "the wait releases something else than the mutex", c.fn, c.line)
            return []
        if not self.give(ip, st, c.fn, c.line, "left for a wait"):
            return []
        rs["waits"] += 1
        timed = c.name != "wait"
        if timed:
            t = ("t", ("timeout",))
            cls, v = rs.get("chrono", ("", None))
            lo, hi = ip.bounds(st, t)
            if isinstance(v, int) and FOREVER <= v and lo >= FOREVER:
                hi = v
            elif v != t and v != ("conv", t, 64, 1):
                v = None
            if c.name != "wait_for" or v is None or "milli" not in cls and "1000>" not in cls:
                ip.report(st, "the wait is not as long as it was asked", c.fn, c.line)
            elif hi > LIMIT:
                ip.report(st, "a long timeout overflows the clock: the wait ends at once", c.fn, c.line)
        elif self.op == "TimedWait":
            lo, _ = ip.bounds(st, ("t", ("timeout",)))
            if lo < FOREVER:
                ip.report(st, "a wait with a limit has no limit", c.fn, c.line)
        self.take(ip, st)
        if not timed:
            rs["rc"] = "ok"
            return [(st, None)]
        res = []
        # std::cv_status
        for v, n in ((0, "ok"), (1, "timeout")):
            s = st.copy()
            s.rs["rc"] = n
            res.append((s, v))
        return res

    # ---- exits
    def end(self, ip, st, val, fn, line):
        def bad(m):
            ip.report(st, m, fn, line)
        rs = st.rs
        op = self.op
        self.count("exits")
        if op == "ctor":
            if self.values(ip, st) != [0, 0]:
                bad("a new mutex is not free")
            return
        if op == "dtor":
            return
        if op.startswith("Is"):
            t = ip.truth(st, val)
            if t is not (rs["who"] == "me"):
                bad("the owner is told wrongly")
            return
        if op in ("Signal", "Broadcast"):
            if rs.get("told") != ("notify_all" if op == "Broadcast" else None) and (op == "Broadcast" or "told" not in rs):
                bad("the waiters are not woken up")
            return
        was = 1 if "Wait" in op else COUNT if self.who == "me" else 0
        if op == "TryLock":
            t = ip.truth(st, val)
            if t is None or t is not True and rs["who"] == "me":
                bad("the mutex is taken, or is already owned, and this is not told")
                return
            want = ip.arith(st, "+", was, 1) if t else None
        elif op in ("Lock", "lkctor"):
            want = ip.arith(st, "+", was, 1)
        elif op in ("Unlock", "lkUnlock", "lkdtor"):
            want = ip.arith(st, "-", was, 1) if self.armed else was
        else:
            want = 1
            if rs["waits"] != 1:
                bad("the wait doesn't wait")
            if op == "TimedWait":
                t = ip.truth(st, val)
                if t is None or t is not (rs.get("rc") == "ok"):
                    bad("the end of the wait is told wrongly")
        if want is None:
            if rs["who"] == "me":
                bad("the mutex is taken and this is not told")
            return
        if self.mutex_name():
            p = ip.norm(st, ip.read(st, ("f", THIS, "myMutex")))
            if op == "lkctor" and p != ("&", MUT):
                bad("the guard doesn't remember the mutex")
            if op == "lkUnlock" and p != 0:
                bad("the guard would release the mutex again")
        lo, hi = ip.bounds(st, want)
        if hi == 0:
            if rs["who"] == "me":
                bad("the mutex stays locked")
            return
        if rs["who"] != "me":
            if lo > 0:
                bad("the mutex is not held")
            elif not rs["left"]:
                bad("the mutex is lost")
            return
        o, n = self.values(ip, st)
        if o != ME or n != want:
            bad("the owner or the number of the locks is wrong")


def rec_atomics(p):
    """The fields which are atomics."""
    res = {}
    for f in p.record(MX)["fields"]:
        if "mg::box::Atomic" in f[1]:
            res[f[0]] = "mg"
        elif "std::atomic" in f[1]:
            res[f[0]] = "std"
    return res


@check("B07")
def b07(res):
    rn = "mutex"
    res.rule(rn, "each operation of the mutex, of its guard and of the condition variable walked for a mutex free, locked by this "
             "thread any number of times, locked by another one: who holds the handle, owner and counter on every release and exit.")
    p = res.prog("epoll", ("box",))
    MutexRule.atomics = rec_atomics(p)

    def go(cls, name, op, who, m=THIS, armed=True, n=None):
        fs = [f for f in p.fns(cls + "::" + name) if n is None or len(f.params) == n]
        if len(fs) != 1:
            raise AnalysisBroken("%d of %s::%s" % (len(fs), cls, name))
        r = MutexRule(op, who, m, armed)
        args = {"lkctor": [("L", MUT)], "Wait": [("L", MUT)], "TimedWait": [("L", MUT), ("L", ("o", ("limit",)))]}.get(op)
        res.walk(p, r, fs[0], rn, args=args, setup=r.setup)
    go(MX, "Mutex", "ctor", "me", n=0)
    for w in ("none", "me", "other"):
        go(MX, "Lock", "Lock", w)
        go(MX, "TryLock", "TryLock", w)
        go(MX, "IsOwnedByThisThread", "Is", w)
        go(LK, "MutexLock", "lkctor", w, MUT)
    go(MX, "Unlock", "Unlock", "me")
    for a in (True, False):
        go(LK, "Unlock", "lkUnlock", "me", MUT, a)
        go(LK, "~MutexLock", "lkdtor", "me", MUT, a)
    go(CV, "Wait", "Wait", "me", MUT)
    go(CV, "TimedWait", "TimedWait", "me", MUT)
    go(CV, "Signal", "Signal", "me", MUT)
    go(CV, "Broadcast", "Broadcast", "me", MUT)
    for k, n in (("exits", 25), ("handle", 10), ("accesses", 30), ("waits", 2)):
        res.need(rn, k, n)


TH = "mg::box::Thread"
HANDLE = ("o", ("handle",))


class ThreadRule(SyncRule):
    def __init__(self, op, handle=1):
        super().__init__()
        self.op, self.handle = op, handle

    def setup(self, ip, st, this, args):
        rs = st.rs
        rs["keep"] = (HANDLE,)
        if self.op != "ctor":
            st.store[("f", THIS, "myHandle")] = ("&", HANDLE) if self.handle else 0
            if self.op == "Start":
                st.store[("f", THIS, "myWasStarted")] = 0
                st.store[("f", THIS, "myHandle")] = 0

    def which(self, r):
        for x in ("myIsStopRequested", "myIsRunning"):
            if under(r, ("f", THIS, x)):
                return x[4:]
        return None

    def atomic_domain(self, ip, st, op, region):
        w = self.which(region)
        if w is None:
            return None
        rs = st.rs
        if self.op == "Start" and (w == "Running" and not rs.get("running") or w == "StopRequested"):
            return (0,)
        if self.op == "dtor" and w == "Running" and not rs.get("looked"):
            # Is demanded from the user.
            return (0,)
        if self.op == "tramp" and w == "Running":
            return (int(not rs.get("done")),)
        if w == "Running" and rs.get("seen_off"):
            return (0,)
        return (0, 1)

    def gone(self, ip, st, fn, line):
        if st.rs.get("deleted") or self.op == "tramp" and st.rs.get("left"):
            ip.report(st, "the object is touched when it can be deleted already", fn, line)

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        w = self.which(region)
        if w is None:
            return
        self.gone(ip, st, fn, line)
        self.count("flags")
        rs = st.rs
        if op == "init":
            if operand != 0:
                ip.report(st, "a new thread has flags set", fn, line)
            return
        val = {"load": None, "store": operand, "xchg": operand}.get(op, "?")
        if op == "cas" and success:
            val = operand[1]
        elif op == "cas":
            val = None
        if op != "store" and (w == "Running" and result == 0 or w == "StopRequested" and self.op == "StopRequested") and \
                self.op != "Start" and not is_acq(orders[0]):
            ip.report(st, "a flag is looked at without acquire: what the thread did is not visible", fn, line)
        if w == "Running" and op == "load":
            rs["looked"] = 1
            if result == 0:
                rs["seen_off"] = 1
            elif self.held(st):
                rs["seen_on"] = 1
        if val is None:
            return
        if val == "?":
            ip.report(st, "a flag gets an unknown value", fn, line)
            return
        if not is_rel(orders[0]):
            ip.report(st, "a flag is set without release", fn, line)
        if w == "Running":
            if self.op == "Start" and val == 1:
                rs["running"] = 1
            elif self.op == "tramp" and val == 0:
                if rs.get("ran", 0) != 1:
                    ip.report(st, "the thread is told finished before its work is", fn, line)
                if not self.held(st):
                    ip.report(st, "the thread is told finished without the lock: it can be deleted, or not wake up a waiter", fn, line)
                rs["done"] = 1
            else:
                ip.report(st, "the running flag is changed wrongly", fn, line)
        else:
            if val != 1 or self.op in ("Start", "tramp"):
                ip.report(st, "the stop flag is changed wrongly", fn, line)
            if not self.held(st):
                ip.report(st, "the stop is requested without the lock: a wait which is about to start misses it", fn, line)
            rs["stop"] = 1
            rs.pop("woken", None)

    def on_lock(self, ip, st, m, fn, line):
        self.gone(ip, st, fn, line)
        st.rs.pop("seen_on", None)

    def on_unlock(self, ip, st, m, fn, line):
        rs = st.rs
        if self.op == "tramp" and rs.get("done"):
            if not rs.get("woken"):
                ip.report(st, "nobody is told that the thread is finished", fn, line)
            rs["left"] = 1

    def on_wait(self, ip, st, cv, m, timed, fn, line):
        rs = st.rs
        self.count("waits")
        if m not in self.held(st) or not rs.get("seen_on"):
            ip.report(st, "waiting for the end of the thread without looking whether it is running under the same lock", fn, line)
        if not rs.get("stop"):
            ip.report(st, "waiting for a thread which was not told to stop", fn, line)
        rs.pop("seen_on", None)

    def on_notify(self, ip, st, cv, all_, fn, line):
        self.gone(ip, st, fn, line)
        rs = st.rs
        self.count("notifies")
        if not all_:
            ip.report(st, "only one of the waiters is woken up", fn, line)
        elif rs.get("stop") or rs.get("done"):
            rs["woken"] = 1

    def on_call(self, ip, st, c):
        rs = st.rs
        if c.qn.startswith("mg::box::Assert"):
            ip.report(st, "an assertion may fail", c.fn, c.line)
            return []
        if c.qn.endswith("Thread::Run"):
            if self.held(st):
                ip.report(st, "the work of a thread is done under its lock", c.fn, c.line)
            rs["ran"] = rs.get("ran", 0) + 1
            self.count("runs")
            return [(st, None)]
        if c.cls == "std::thread":
            if c.kind == "ctor":
                self.count("spawns")
                if not rs.get("running") or rs.get("spawned"):
                    ip.report(st, "a thread is not told to be running when it starts", c.fn, c.line)
                if not any(ip.norm(st, ip.rvalue(st, a)) == ("&", THIS) for a in c.args):
                    ip.report(st, "the new thread works with another object", c.fn, c.line)
                rs["spawned"] = 1
                return [(st, ("L", c.obj))]
            if c.name == "join":
                if not rs.get("seen_off") or not rs.get("stop"):
                    ip.report(st, "a running thread is joined: it needs the same lock to finish", c.fn, c.line)
                rs["joined"] = rs.get("joined", 0) + 1
                return [(st, None)]
            if c.kind == "dtor":
                if self.handle and rs.get("joined", 0) != 1:
                    ip.report(st, "the handle of a thread is destroyed when it is not joined", c.fn, c.line)
                return [(st, None)]
            raise AnalysisBroken("%s of std::thread" % c.name)
        if c.name.endswith("SetCurrentName") or c.name == "c_str":
            return [(st, ip.tok(st, ("name", c.ctx, c.sid)))]
        return None

    def load(self, ip, st, r, v, fn, line):
        if under(r, THIS):
            self.gone(ip, st, fn, line)

    def delete(self, ip, st, v, nd, fn, line):
        rs = st.rs
        if v == ("&", THIS):
            if not rs.get("seen_off") or self.held(st) or rs.get("deleted"):
                ip.report(st, "a thread is deleted when it can be running, or twice", fn, line)
            rs["deleted"] = 1
        elif v == ("&", HANDLE):
            if rs.get("freed") or not rs.get("joined"):
                ip.report(st, "the handle of a thread is destroyed when it is not joined, or twice", fn, line)
            rs["freed"] = 1
        else:
            ip.report(st, "something unknown is deleted", fn, line)
        return "skip"

    def end(self, ip, st, val, fn, line):
        def bad(m):
            ip.report(st, m, fn, line)
        rs, op = st.rs, self.op
        self.count("exits")
        if self.held(st):
            bad("the lock is left held")
        h = ip.norm(st, ip.read(st, ("f", THIS, "myHandle"))) if not rs.get("deleted") else 0
        if op == "ctor":
            if h != 0 or ip.norm(st, ip.read(st, ("f", THIS, "myWasStarted"))) != 0:
                bad("a new thread looks started")
        elif op == "Start":
            if not rs.get("spawned") or not isinstance(h, tuple) or h[0] != "&":
                bad("the thread is not started")
            if ip.truth(st, ip.read(st, ("f", THIS, "myWasStarted"))) is not True:
                bad("the start is not remembered")
        elif op == "tramp":
            if rs.get("ran", 0) != 1:
                bad("the work of the thread is done not once")
            if not rs.get("done"):
                bad("the thread finishes and is not told finished")
        elif op in ("Stop", "blocking", "delete", "dtor"):
            if not rs.get("stop") or not rs.get("woken"):
                bad("the thread is not told to stop")
            if op != "Stop":
                if not rs.get("seen_off"):
                    bad("a thread can be still running after its blocking stop")
                if self.handle and (rs.get("joined", 0) != 1 or not rs.get("freed") or h != 0):
                    bad("a stopped thread is not joined")
            if op == "delete" and not rs.get("deleted"):
                bad("the thread is not deleted")
        elif op in ("StopRequested", "IsRunning"):
            if val not in (0, 1) or val != rs.get("flag", val):
                bad("a flag is told wrongly")


class Told(ThreadRule):
    """Tells a flag."""
    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        super().atomic(ip, st, op, region, orders, operand, result, fn, line, success)
        if self.which(region) == {"StopRequested": "StopRequested", "IsRunning": "Running"}[self.op]:
            st.rs["flag"] = result
        elif self.which(region):
            ip.report(st, "a wrong flag is told", fn, line)


@check("B10")
def b10(res):
    rn = "thread"
    res.rule(rn, "each operation of a thread object walked: the flags, who sets them, under which lock, wakeups; the join and the "
             "deletion only after the end of the work; no touch of the object by the thread after that.")
    p = res.prog("epoll", ("box",))
    for name, op, hs in (("Thread", "ctor", (1,)), ("Start", "Start", (1,)), ("Stop", "Stop", (1,)), ("BlockingStop", "blocking", (0, 1)),
                         ("StopAndDelete", "delete", (0, 1)), ("~Thread", "dtor", (0, 1)), ("PrivTrampoline", "tramp", (1,)),
                         ("StopRequested", "StopRequested", (1,)), ("IsRunning", "IsRunning", (1,))):
        for h in hs:
            r = (Told if op in ("StopRequested", "IsRunning") else ThreadRule)(op, h)
            res.walk(p, r, p.fn(TH + "::" + name), rn, setup=r.setup)
    for k, n in (("exits", 12), ("flags", 20), ("waits", 3), ("notifies", 8), ("spawns", 1), ("runs", 1)):
        res.need(rn, k, n)
