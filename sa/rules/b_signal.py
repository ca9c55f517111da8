"""B01: one-shot wakeup signal."""
from ..core import check
from ..engine import is_acq, is_rel, region_str, under, root_of, deref
from ..sync import SyncRule

T = "mg::box::Signal"


class SignalRule(SyncRule):
    def __init__(self, p, entry):
        super().__init__()
        self.p = p
        self.entry = entry
        self.this = ("name", "this")
        e = p.enum(T + "::State")
        self.E = e["SIGNAL_STATE_EMPTY"]
        self.P = e["SIGNAL_STATE_PROBE"]
        self.S = e["SIGNAL_STATE_SIGNALED"]

    def mine(self, r):
        return under(r, self.this)

    def gone(self, ip, st, what, fn, line):
        """After the signal became receivable and the sender left the lock, the object may be deleted."""
        if st.rs.get("ph") in ("set", "notified") and not self.held(st):
            ip.report(st, "%s after the signal was made receivable and the lock released: the receiver may have "
                          "deleted the object" % what, fn, line)

    def atomic_domain(self, ip, st, op, region):
        if not self.mine(region):
            return None
        ph = st.rs.get("ph")
        if ph == "probed":
            # Only the thread which started the sending can finish it.
            return (self.P,)
        return (self.E, self.P, self.S)

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        if not self.mine(region):
            return
        self.count("state_ops")
        rs = st.rs
        ph = rs.get("ph")
        self.gone(ip, st, "the state is accessed", fn, line)
        if op == "init":
            if operand != self.E:
                ip.report(st, "a new signal is not empty", fn, line)
            return
        old, new = None, None
        if op == "cas":
            if success:
                old, new = operand
            elif self.entry == "send":
                if result == self.E:
                    rs["missed"] = 1
                else:
                    rs["seen"] = 1
        elif op in ("store", "xchg"):
            old = result if op == "xchg" else (self.P if ph == "probed" else None)
            new = operand
        elif op == "load":
            if result != self.E:
                rs["seen"] = 1
        elif op.startswith("rmw"):
            old = result
            new = st.store.get(region)
        if op == "cas" and not success or op == "load":
            if result != self.S:
                if self.held(st):
                    rs["checked"] = 1
        if new is None or old == new:
            return
        if old is None:
            ip.report(st, "the state is overwritten without knowing what it was: a concurrent send or receive is lost",
                      fn, line)
            return
        if new == self.S:
            if not self.held(st):
                ip.report(st, "the signal becomes receivable while the sender does not hold the lock: the receiver "
                              "may delete the object under the sender, or miss the wakeup", fn, line)
            if old == self.S:
                return
            if old == self.P and ph != "probed":
                ip.report(st, "another sender's send is finished by this thread", fn, line)
            if not (is_rel(orders[0]) or rs.get("rel")):
                ip.report(st, "the signal is published without release: data written before the send are not "
                              "visible to the receiver", fn, line)
            rs["ph"] = "set"
            self.count("publishes")
        elif new == self.P:
            if old == self.S:
                ip.report(st, "a pending signal is dropped by a send", fn, line)
            rs["ph"] = "probed"
            if is_rel(orders[0]):
                rs["rel"] = 1
            self.count("probes")
        elif new == self.E:
            if old != self.S:
                ip.report(st, "the signal is consumed while the sender still works with the object", fn, line)
            elif self.entry == "send":
                ip.report(st, "a pending signal is dropped by a send", fn, line)
            else:
                if not is_acq(orders[0]):
                    ip.report(st, "the signal is consumed without acquire: data written before the send are not "
                                  "visible to the receiver", fn, line)
                if rs.get("consumed"):
                    ip.report(st, "one receive consumes the signal twice", fn, line)
                rs["consumed"] = 1
                rs["ph"] = "consumed"
                self.count("consumes")
        else:
            ip.report(st, "the state gets an unknown value", fn, line)

    def on_lock(self, ip, st, m, fn, line):
        self.gone(ip, st, "the lock is used", fn, line)
        st.rs.pop("checked", None)
        st.rs["locked"] = 1

    def on_unlock(self, ip, st, m, fn, line):
        if st.rs.get("ph") == "set" and self.held(st).count(m) == 1:
            ip.report(st, "the lock is released after making the signal receivable, and no waiter was woken up: a "
                          "blocked receiver sleeps forever", fn, line)

    def on_wait(self, ip, st, cv, m, timed, fn, line):
        self.count("waits")
        if m not in self.held(st):
            ip.report(st, "waiting without the lock", fn, line)
        if not st.rs.get("checked"):
            ip.report(st, "the receiver starts to wait without having checked the signal under the same lock: a send "
                          "in between is lost", fn, line)
        st.rs.pop("checked", None)
        st.rs["woken"] = 1

    def on_notify(self, ip, st, cv, all_, fn, line):
        self.count("notifies")
        self.gone(ip, st, "the condition variable is used", fn, line)
        if st.rs.get("ph") == "set" and self.held(st):
            st.rs["ph"] = "notified"

    def end(self, ip, st, val, fn, line):
        rs = st.rs
        if self.held(st):
            ip.report(st, "the lock is left held", fn, line)
        ph = rs.get("ph")
        if self.entry == "send":
            if ph == "probed":
                ip.report(st, "a send returns with the sending not finished: no later send can ever succeed", fn, line)
            elif ph is None and not rs.get("seen"):
                ip.report(st, "a send returns having done nothing while the signal could be empty", fn, line)
        elif self.entry == "try":
            v = ip.truth(st, val)
            if v is None:
                ip.report(st, "the result is not determined by whether the signal was consumed", fn, line)
            elif v and not rs.get("consumed"):
                ip.report(st, "a receive reports success without consuming the signal", fn, line)
            elif not v and rs.get("consumed"):
                ip.report(st, "a receive consumes the signal and reports a failure: the signal is lost", fn, line)
        elif self.entry == "wait":
            if not rs.get("consumed"):
                ip.report(st, "a blocking receive returns without the signal", fn, line)
        elif self.entry == "dtor":
            if not rs.get("locked"):
                ip.report(st, "the destructor does not wait for a sender which is still inside of its critical "
                              "section", fn, line)
        self.count("exits")


@check("B01")
def run(res):
    p = res.prog("epoll", ("box",))
    res.rule("signal-protocol", "on every path of every public operation of the wakeup signal, the state changes only "
             "empty->in progress->receivable->empty; receivable is published under the lock with release, the waiter "
             "is woken before that lock is released, the object is not touched afterwards; consumption is acquire and "
             "equals the returned result; a wait is preceded by a check under the same lock.")
    n = 0
    for name, kind in (("Signal", "ctor"), ("Send", "send"), ("Receive", "try"), ("ReceiveTimed", "try"),
                       ("ReceiveBlocking", "wait"), ("~Signal", "dtor")):
        f = p.fn(T + "::" + name)
        res.walk(p, SignalRule(p, kind), f, "signal-protocol")
    # Nobody else touches the internals.
    for f in p.fns(T + "::Send"):
        n += 1
    for what, mn in (("publishes", 1), ("probes", 1), ("consumes", 3), ("waits", 2), ("notifies", 1), ("exits", 8)):
        res.need("signal-protocol", what, mn)
