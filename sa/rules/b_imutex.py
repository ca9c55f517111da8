"""B02: interruptible mutex."""
from ..core import check
from ..engine import is_acq, is_rel, under
from ..sync import SyncRule

T = "mg::box::InterruptibleMutex"


class Rule(SyncRule):
    def __init__(self, p, entry):
        super().__init__()
        e = None
        for n, x in p.enums.items():
            v = dict(x["vals"])
            if "INTERRUPTIBLE_MUTEX_TAKEN" in v:
                e = v
        if e is None:
            from ..ir import AnalysisBroken
            raise AnalysisBroken("anchor vanished: flags of the interruptible mutex")
        self.TK = e["INTERRUPTIBLE_MUTEX_TAKEN"]
        self.W = e["INTERRUPTIBLE_MUTEX_HAS_WAITERS"]
        self.entry = entry
        self.this = ("name", "this")

    def mine(self, r):
        return under(r, self.this)

    def atomic_domain(self, ip, st, op, region):
        if not self.mine(region):
            return None
        T, W = self.TK, self.W
        rs = st.rs
        if "cur" in rs and self.held(st):
            # What this thread itself has set up under the internal lock, can only change by the owner
            # passing the fast path - not possible while waiters are announced.
            return (rs["cur"],)
        if rs.get("own"):
            if rs.get("seenw"):
                return (T | W,)
            return (T, T | W)
        if self.held(st):
            return (0, T, T | W)
        return (0, T, W, T | W)

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        if not self.mine(region):
            return
        T, W = self.TK, self.W
        rs = st.rs
        self.count("state_ops")
        if op == "init":
            if operand != 0:
                ip.report(st, "a new mutex is not free", fn, line)
            return
        old = new = None
        if op == "cas":
            if not success:
                if rs.get("own") and result == T | W:
                    rs["seenw"] = 1
                return
            old, new = operand
        elif op == "load":
            if rs.get("own") and isinstance(result, int) and result & W:
                rs["seenw"] = 1
            return
        elif op == "store":
            new = operand
            if rs.get("cur") is None or not self.held(st):
                ip.report(st, "the state is overwritten blindly: a concurrently announced waiter or owner is lost",
                          fn, line)
                return
            old = rs["cur"]
        else:
            old = result
            new = st.store.get(region)
        if not isinstance(new, int):
            ip.report(st, "the state gets an undetermined value", fn, line)
            return
        new &= 0xff
        if new & ~(T | W):
            ip.report(st, "the state gets an unknown flag", fn, line)
            return
        if is_acq(orders[0]):
            rs["acq"] = 1
        handing = rs.get("own") and (old & T)
        if (old & W) and not (new & W) and rs.get("setw") is None:
            if not self.held(st):
                ip.report(st, "the announcement of waiters is withdrawn without the internal lock", fn, line)
            elif rs.get("list") != "E":
                ip.report(st, "the announcement of waiters is withdrawn while there still may be waiters: they are "
                              "never woken up", fn, line)
        if not (old & W) and (new & W):
            if not self.held(st):
                ip.report(st, "waiters are announced without the internal lock", fn, line)
            rs["setw"] = 1
        if (old & T) and not rs.get("own") and not (new & T):
            ip.report(st, "the mutex is released by a thread not owning it", fn, line)
        if not (old & T) and (new & T):
            # Taking the ownership.
            if (old & W) and not (rs.get("setw") and self.held(st)):
                ip.report(st, "the mutex is taken out of order while there are waiters", fn, line)
            if not rs.get("acq"):
                ip.report(st, "the mutex is taken without acquire: the previous owner's writes are not visible",
                          fn, line)
            rs["own"] = 1
            rs.pop("setw", None)
            self.count("takes")
            if new & W:
                ip.report(st, "the mutex is taken with waiters announced which do not exist", fn, line)
        if handing:
            if not is_rel(orders[0]):
                ip.report(st, "the mutex is released without release order: the owner's writes are not visible to "
                              "the next owner", fn, line)
            if not (new & T):
                if old & W:
                    ip.report(st, "the mutex is freed while there are waiters: nobody hands it over to them", fn, line)
                rs["own"] = 0
                rs["released"] = 1
                self.count("frees")
            elif self.entry == "unlock":
                rs["published"] = 1
        if self.held(st):
            rs["cur"] = new
            if rs.get("list") is None:
                rs["list"] = "N" if (old & W) and (old & T) else "E"

    def on_call(self, ip, st, c):
        rs = st.rs
        if c.cls.startswith("mg::box::DoublyList<") and c.obj is not None and self.mine(c.obj):
            if c.kind in ("ctor", "dtor"):
                return [(st, ("L", c.obj) if c.kind == "ctor" else None)]
            self.count("list_ops")
            if not self.held(st):
                ip.report(st, "the waiters are accessed without the internal lock", c.fn, c.line)
            n = c.name
            if n == "IsEmpty":
                l = rs.get("list")
                if l == "E":
                    return [(st, 1)]
                if l == "N":
                    return [(st, 0)]
                s2 = st.copy()
                st.rs["list"] = "E"
                s2.rs["list"] = "N"
                return [(st, 1), (s2, 0)]
            if n in ("Append", "Prepend"):
                if n == "Prepend":
                    ip.report(st, "a waiter is placed ahead of the older ones", c.fn, c.line)
                rs["appended"] = c.args[0]
                rs["first"] = 1 if rs.get("list") == "E" else 0
                rs["list"] = "N"
                return [(st, None)]
            if n in ("PopFirst", "PopLast"):
                if n == "PopLast":
                    ip.report(st, "the ownership is handed over not to the oldest waiter", c.fn, c.line)
                if rs.get("list") == "E":
                    return [(st, 0)]
                rs["popped"] = rs.get("popped", 0) + 1
                rs.pop("list", None)
                t = ip.tok(st, ("pop", c.ctx, c.sid))
                ip.refine(st, t, ne=0)
                rs["waiter"] = t
                rs["list?"] = 1
                return [(st, t)]
            return None
        if c.cls == "mg::box::Signal":
            n = c.name
            if c.kind in ("ctor", "dtor"):
                return [(st, ("L", c.obj) if c.kind == "ctor" else None)]
            if n == "Send":
                self.count("handoffs")
                w = rs.get("waiter")
                if w is None or not under(c.obj, ("sym", w)):
                    ip.report(st, "a thread which is not the popped waiter is signaled", c.fn, c.line)
                elif not rs.get("published"):
                    ip.report(st, "the next owner is woken up before the state is released to it", c.fn, c.line)
                else:
                    rs["own"] = 0
                    rs["released"] = 1
                    rs["sent"] = 1
                return [(st, None)]
            if n in ("ReceiveBlocking",):
                if self.held(st):
                    ip.report(st, "sleeping while holding the internal lock", c.fn, c.line)
                a = rs.get("appended")
                if a is None or not under(c.obj, a[1] if a[0] == "&" else ("sym", a)):
                    ip.report(st, "sleeping without being in the queue of waiters", c.fn, c.line)
                if rs.get("first") and not rs.get("woke"):
                    ip.report(st, "the first waiter sleeps without interrupting the owner", c.fn, c.line)
                rs["own"] = 1
                rs["acq"] = 1
                rs["byhand"] = 1
                self.count("waits")
                return [(st, None)]
            if n in ("Receive", "ReceiveTimed"):
                s2 = st.copy()
                st.rs["own"] = 1
                st.rs["acq"] = 1
                st.rs["byhand"] = 1
                return [(st, 1), (s2, 0)]
        if c.cls.startswith("std::function<") and c.name == "operator()":
            rs["woke"] = 1
            self.count("wakeups")
            return [(st, None)]
        return None

    def deref(self, ip, st, val, fn, line):
        if st.rs.get("sent") and val == st.rs.get("waiter"):
            ip.report(st, "the waiter is accessed after it was given the ownership: it may be gone already", fn, line)

    def on_unlock(self, ip, st, m, fn, line):
        rs = st.rs
        T, W = self.TK, self.W
        cur = rs.get("cur")
        if cur is not None and self.held(st).count(m) == 1:
            if cur == W:
                ip.report(st, "the internal lock is left with waiters announced on a free mutex: nobody can take it "
                              "any more", fn, line)
            if rs.get("setw") and (cur & W) and rs.get("appended") is None:
                ip.report(st, "a waiter is announced but not queued", fn, line)
        if rs.get("appended") is not None and not rs.get("setw") and not (cur is not None and cur & W):
            ip.report(st, "a waiter is queued but not announced to the owner", fn, line)
        rs.pop("cur", None)
        rs.pop("list", None)

    def end(self, ip, st, val, fn, line):
        rs = st.rs
        self.count("exits")
        if self.held(st):
            ip.report(st, "the internal lock is left held", fn, line)
        if self.entry == "lock" and not rs.get("own"):
            ip.report(st, "the lock operation returns without the ownership", fn, line)
        if self.entry == "try":
            v = ip.truth(st, val)
            if v is None or v != bool(rs.get("own")):
                ip.report(st, "the result does not tell whether the mutex was taken", fn, line)
        if self.entry == "unlock":
            if rs.get("own") or not rs.get("released"):
                ip.report(st, "the unlock returns while the mutex is neither free nor handed over", fn, line)
            if rs.get("popped", 0) > 1:
                ip.report(st, "more than one waiter is removed by one unlock: it is lost", fn, line)
            if rs.get("popped") and not rs.get("sent"):
                ip.report(st, "the removed waiter is not woken up", fn, line)


@check("B02")
def run(res):
    p = res.prog("epoll", ("box",))
    res.rule("interruptible-mutex", "on every path of lock/try-lock/unlock: waiters are announced and withdrawn only "
             "under the internal lock and in agreement with the queue, the mutex is taken with acquire only when free "
             "and without waiters, released with release, freed only without waiters or handed to the oldest one which "
             "is woken last and not touched afterwards; the first waiter interrupts the owner before sleeping.")
    for name, kind in (("InterruptibleMutex", "ctor"), ("Lock", "lock"), ("TryLock", "try"), ("Unlock", "unlock")):
        f = p.fn(T + "::" + name)

        def setup(ip, st, this, args):
            if kind == "unlock":
                st.rs["own"] = 1
        res.walk(p, Rule(p, kind), f, "interruptible-mutex", setup=setup)
    for what in ("takes", "frees", "handoffs", "waits", "wakeups", "list_ops"):
        res.need("interruptible-mutex", what, 1)
