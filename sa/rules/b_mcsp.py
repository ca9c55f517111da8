"""B04: multi-consumer single-producer queue."""
from ..core import check
from ..engine import Rule, is_acq, is_rel, region_str, under, root_of, deref, addr
from ..sync import SyncRule

S = "mg::box::MCQBaseSubQueue"
Q = "mg::box::MCQBaseQueue"
C = "mg::box::MCQBaseConsumer"
THIS = ("name", "this")


def fld(r, n):
    return ("f", r, n)


def atom(r, n):
    return ("f", ("f", r, n), "myValue")


class Cells(Rule):
    """Inside of one sub-queue."""

    def __init__(self, kind):
        super().__init__()
        self.kind = kind

    def index(self, ip, st, region):
        """Index of a cell, or None when the region is not a cell."""
        if region[0] != "f" or region[2] != "myValue":
            return None
        a = addr(region[1])
        base = ip.read(st, fld(THIS, "myQueue"))
        i = ip.arith(st, "-", a, base)
        if a == base:
            return 0
        if isinstance(a, tuple) and a[0] == "op" and a[1] == "+" and (a[2] == base or a[3] == base):
            return ip.norm(st, i)
        if isinstance(a, tuple) and a[0] == "op" and a[1] == "+" and isinstance(a[3], int) and isinstance(a[2], tuple) \
                and a[2][0] == "op" and base in a[2][2:]:
            return ip.norm(st, i)
        return None

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        rs = st.rs
        if region == atom(THIS, "myReadIndex"):
            self.count("read_index_ops")
            if self.kind == "pop":
                if op == "cas" and success:
                    exp, new = operand
                    if ip.arith(st, "+", exp, 1) != ip.norm(st, new):
                        ip.report(st, "a pop moves the read position not by one: items are skipped or popped twice", fn,
                                  line)
                    seen = rs.get(("cell", exp))
                    if seen is None:
                        ip.report(st, "a pop takes a position without having seen an item in it", fn, line)
                    elif ip.truth(st, seen) is not True:
                        ip.report(st, "a pop takes a position which may be not filled yet: the item pushed there is "
                                      "lost", fn, line)
                    if rs.get("taken") is not None:
                        ip.report(st, "one pop takes two positions", fn, line)
                    rs["taken"] = seen if seen is not None else 0
                    self.count("takes")
                elif op not in ("load", "cas"):
                    ip.report(st, "consumers change the read position not by compare-exchange: two consumers can get "
                                  "the same item", fn, line)
            elif self.kind == "reset":
                if op == "store" and operand == 0:
                    rs["ridx0"] = 1
            elif op not in ("load", "init"):
                ip.report(st, "the producer changes the consumers' read position", fn, line)
            return
        i = self.index(ip, st, region)
        if i is None:
            return
        self.count("cell_ops")
        if op == "load":
            if self.kind == "pop":
                if not is_acq(orders[0]):
                    ip.report(st, "an item is read without acquire: its content is not visible to the consumer", fn,
                              line)
                if ip.eq(st, i, ip.read(st, fld(THIS, "mySize"))) is not False:
                    ip.report(st, "a consumer reads past the end of the sub-queue", fn, line)
                rs[("cell", i)] = result
                rs["lastcell"] = result
            return
        if self.kind == "pop":
            ip.report(st, "a consumer changes the items", fn, line)
            return
        if op == "cas" and not success:
            return
        v = operand[1] if op == "cas" else operand
        v = ip.norm(st, v)
        if self.kind == "reset":
            if i == 0 and v == 0:
                rs["cell0"] = 1
            return
        rs[("w", i)] = v
        if v != 0 and i != rs["findex"] and not is_rel(orders[0]):
            ip.report(st, "an item is stored without release: the consumer who takes it does not necessarily take the "
                          "one whose store publishes it, and does not see its content", fn, line)
        if i == rs["findex"] and v != 0:
            # The publication.
            if rs.get("pub") is not None:
                ip.report(st, "the position visible to the consumers is written twice: an item is lost or duplicated",
                          fn, line)
            if not is_rel(orders[0]):
                ip.report(st, "items are published without release: their content is not visible to the consumer", fn,
                          line)
            rs["pub"] = v
            self.count("publishes")
            want = rs["pending"] if rs["pending"] != 0 else rs["item"]
            if v != want:
                ip.report(st, "not the oldest not published item is put to the first visible position", fn, line)
            end = rs["windex"] if self.kind == "flush" else ip.arith(st, "+", rs["windex"], 1)
            if rs.get(("w", end)) != 0:
                ip.report(st, "items are published before the end of the visible area is marked: a consumer reads a "
                              "stale cell", fn, line)
            if self.kind == "push" and rs["pending"] != 0 and rs.get(("w", rs["windex"])) != rs["item"]:
                ip.report(st, "items are published before the newest one is stored", fn, line)
            if self.kind == "pend":
                ip.report(st, "a pending push makes items visible", fn, line)

    def end(self, ip, st, val, fn, line):
        rs = st.rs
        self.count("exits")
        size = ip.read(st, fld(THIS, "mySize"))
        if self.kind == "pop":
            out = ip.norm(st, ip.read(st, ("name", "arg:" + self.out)))
            r = ip.truth(st, val)
            if rs.get("taken") is not None:
                if r is not True or out != rs["taken"]:
                    ip.report(st, "a pop took an item and does not return it: the item is lost", fn, line)
            elif r is True:
                if out != 0:
                    ip.report(st, "a pop returns an item which it did not take: it is delivered twice", fn, line)
                if ip.norm(st, rs.get("lastcell")) != 0:
                    ip.report(st, "a pop reports that there are no items without having seen the end mark", fn, line)
            elif r is None:
                ip.report(st, "a pop's result is not determined", fn, line)
            return
        if self.kind == "reset":
            for k in ("ridx0", "cell0"):
                if k not in rs:
                    ip.report(st, "a reset sub-queue is not empty: its old items are delivered again", fn, line)
                    break
            for n in ("myFlushIndex", "myWriteIndex"):
                if ip.norm(st, ip.read(st, fld(THIS, n))) != 0:
                    ip.report(st, "a reset sub-queue does not start from the beginning", fn, line)
                    break
            return
        w = ip.norm(st, ip.read(st, fld(THIS, "myWriteIndex")))
        f = ip.norm(st, ip.read(st, fld(THIS, "myFlushIndex")))
        pend = ip.norm(st, ip.read(st, fld(THIS, "myFirstPending")))
        ok = ip.truth(st, val)
        W, F = rs["windex"], rs["findex"]
        W1 = ip.arith(st, "+", W, 1)
        if ok is None:
            ip.report(st, "the result is not determined", fn, line)
            return
        if self.kind in ("push", "pend") and not ok:
            if ip.eq(st, W, size) is not True:
                ip.report(st, "a push fails while the sub-queue has space", fn, line)
        if not ok:
            if w != W or f != F or pend != rs["pending"] or rs.get("pub") is not None or any(
                    isinstance(k, tuple) and k[0] == "w" for k in rs):
                ip.report(st, "a failed operation changes the sub-queue", fn, line)
            if self.kind == "flush" and rs["pending"] != 0:
                ip.report(st, "pending items are not flushed", fn, line)
            return
        if self.kind in ("push", "pend") and ip.eq(st, W, size) is not False:
            ip.report(st, "an item is stored past the end of the sub-queue", fn, line)
        if self.kind == "pend":
            if w != W1 or f != F:
                ip.report(st, "a pending push moves the positions wrongly", fn, line)
            if rs["pending"] == 0:
                if pend != rs["item"]:
                    ip.report(st, "the first pending item is not remembered", fn, line)
            elif pend != rs["pending"] or rs.get(("w", W)) != rs["item"]:
                ip.report(st, "a pending item is not stored", fn, line)
            return
        if rs.get("pub") is None:
            ip.report(st, "the items are not made visible", fn, line)
        want = W if self.kind == "flush" else W1
        if w != want or f != want:
            ip.report(st, "the positions do not match the stored items", fn, line)
        if pend != 0:
            ip.report(st, "a published item stays pending: it is delivered twice", fn, line)


class QueueRule(SyncRule):
    """Producer's and consumers' operations with sub-queues being opaque."""

    def __init__(self, kind):
        super().__init__()
        self.kind = kind

    # ----- Sub-queue operations are events.
    def on_call(self, ip, st, c):
        if c.cls != S and not c.qn.startswith(S + "::"):
            return None
        if c.kind in ("ctor", "dtor"):
            if c.kind == "ctor":
                for n in ("myNext", "myPrev", "myConsumerCount", "myFirstPending"):
                    st.store[fld(c.obj, n)] = 0
                return [(st, ("L", c.obj))]
            return [(st, None)]
        rs = st.rs
        n = c.name
        w = addr(c.obj)
        if n in ("Push", "PushPending", "FlushPending"):
            self.count("subqueue_ops")
            if w != ip.norm(st, ip.read(st, fld(THIS, "myWpos"))):
                ip.report(st, "an item is stored not to the producer's current sub-queue", c.fn, c.line)
        if n in ("Push", "PushPending"):
            if c.args[0] != rs.get("item"):
                ip.report(st, "something else is stored instead of the item", c.fn, c.line)
            full = rs.get("full") == w
            fresh = rs.get("fresh") == w
            res = []
            if not full:
                s = st.copy() if not fresh else st
                if n == "Push" and not s.rs.get("counted"):
                    ip.report(s, "an item becomes visible before it is counted: a consumer drives the count below "
                                 "zero", c.fn, c.line)
                if s.rs.get("stored"):
                    ip.report(s, "one item is stored twice", c.fn, c.line)
                s.rs["stored"] = n
                ip.note(s, c.fn, c.line, n + " succeeds")
                if n == "Push":
                    s.rs["flushed"] = 1
                res.append((s, 1))
            if not fresh:
                st.rs["full"] = w
                ip.note(st, c.fn, c.line, n + " finds the sub-queue full")
                res.append((st, 0))
            return res
        if n == "FlushPending":
            if rs.get("pend") and not rs.get("counted"):
                ip.report(st, "pending items become visible before they are counted", c.fn, c.line)
            rs["flushed"] = 1
            return [(st, ip.tok(st, ("flush", c.ctx, c.sid)))]
        if n == "Pop":
            self.count("subqueue_ops")
            if w != rs.get("cur"):
                ip.report(st, "a consumer reads a sub-queue to which it is not attached: that may be reset at any "
                              "moment", c.fn, c.line)
            if self.held(st):
                pass
            out = ip.region_of(c.args[0])
            s1, s2, s3 = st.copy(), st.copy(), st
            t = ip.tok(s1, ("item", c.ctx, c.sid))
            ip.refine(s1, t, ne=0)
            s1.store[out] = t
            s1.rs["got"] = t
            ip.note(s1, c.fn, c.line, "sub-queue pop gives an item")
            s2.store[out] = 0
            s2.rs["none"] = 1
            ip.note(s2, c.fn, c.line, "sub-queue pop sees no items yet")
            ip.havoc(s3, out, ("pop", c.ctx, c.sid))
            s3.rs["exhausted"] = w
            ip.note(s3, c.fn, c.line, "sub-queue is read until the end")
            return [(s1, 1), (s2, 1), (s3, 0)]
        if n == "Reset":
            self.count("resets")
            x = c.obj
            wp = ip.norm(st, ip.read(st, fld(self.q(ip, st), "myWpos")))
            if fld(self.q(ip, st), "myLock") not in self.held(st):
                ip.report(st, "a sub-queue is recycled without the lock", c.fn, c.line)
            if ip.eq(st, wp, w) is not False:
                ip.report(st, "the sub-queue which the producer writes to is recycled", c.fn, c.line)
            if ip.eq(st, ip.read(st, fld(x, "myConsumerCount")), 0) is not True:
                ip.report(st, "a sub-queue is recycled while consumers are attached to it", c.fn, c.line)
            if not rs.get(("drained", w)):
                ip.report(st, "a sub-queue is recycled while it has unread items", c.fn, c.line)
            for l in ("myNext", "myPrev"):
                if ip.eq(st, ip.read(st, fld(x, l)), 0) is not True:
                    ip.report(st, "a sub-queue is recycled while being in the list", c.fn, c.line)
            rs["reset"] = w
            return [(st, None)]
        if n == "IsFull":
            return [(st, ip.tok(st, ("full", c.ctx, c.sid)))]
        return None

    def q(self, ip, st):
        if self.kind in ("pop", "detach", "attach"):
            return deref(st.rs["queue"])
        return THIS

    def atomic_domain(self, ip, st, op, region):
        return None

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        rs = st.rs
        if region[0] == "f" and region[2] == "myValue" and region[1][0] == "f":
            n = region[1][2]
            if n == "myReadIndex" and op == "load":
                x = region[1][1]
                rs[("ridx", addr(x))] = result
                return
            if n == "myCount":
                self.count("count_ops")
                if op == "load" or op == "init":
                    return
                if op == "rmw+":
                    rs["counted"] = (operand, result)
                    if rs.get("count2"):
                        ip.report(st, "items are counted twice", fn, line)
                    rs["count2"] = 1
                elif op == "rmw-":
                    if operand != 1 or rs.get("uncounted"):
                        ip.report(st, "one pop decreases the count not by one", fn, line)
                    rs["uncounted"] = 1
                else:
                    ip.report(st, "the count is changed not by an atomic addition", fn, line)

    def branch(self, ip, st, cond, truth, fn, line):
        rs = st.rs
        for k, v in list(rs.items()):
            if isinstance(k, tuple) and k[0] == "ridx" and ("drained", k[1]) not in rs:
                size = ip.read(st, fld(deref(k[1]), "mySize"))
                if ip.lt(st, v, size) is False or ip.eq(st, v, size) is True:
                    rs[("drained", k[1])] = 1

    def guarded(self, ip, st, region, fn, line, write):
        if region[0] != "f" or self.kind == "ctor":
            return
        n = region[2]
        q = self.q(ip, st) if "queue" in st.rs or self.kind not in ("pop", "detach", "attach") else None
        if n in ("myHead", "myTail") or (n == "myWpos" and (write or self.kind in ("pop", "detach", "attach"))):
            if q is not None and region[1] != q:
                return
        elif n in ("myNext", "myPrev", "myConsumerCount"):
            if root_of(region)[0] == "o" and not st.rs.get("linked") or q == region[1]:
                return
        else:
            return
        if q is None:
            return
        self.count("guarded")
        if fld(q, "myLock") not in self.held(st):
            ip.report(st, "%s is %s without the lock" % (n, "changed" if write else "read"), fn, line)

    def load(self, ip, st, region, val, fn, line):
        self.guarded(ip, st, region, fn, line, False)
        if region[0] != "f":
            return
        if region[2] == "myConsumerCount":
            st.rs[("ccl", addr(region[1]))] = val
        elif region[2] == "myNext" and addr(region[1]) == st.rs.get("cur"):
            st.rs["next"] = val
            if self.kind == "pop" and st.rs.get("reset") == st.rs["cur"]:
                ip.report(st, "the next sub-queue is looked up after the current one could be recycled", fn, line)

    def store(self, ip, st, region, val, fn, line):
        self.guarded(ip, st, region, fn, line, True)
        rs = st.rs
        if region[0] != "f":
            return
        if region == fld(THIS, "myWpos") and self.kind in ("push", "pend", "flush"):
            rs["fresh"] = ip.norm(st, val)
            rs["moved"] = 1
            if not rs.get("full"):
                ip.report(st, "the producer leaves a sub-queue which is not full: consumers never leave it", fn, line)
            if not rs.get("flushed"):
                ip.report(st, "the producer leaves a sub-queue with not flushed items", fn, line)
        if region[2] == "myConsumerCount":
            x = addr(region[1])
            d = ip.arith(st, "-", val, rs.get(("ccl", x)) or 0)
            rs[("cc", x)] = rs.get(("cc", x), 0) + d if isinstance(d, int) else 1000
            rs[("ccl", x)] = val

    def on_lock(self, ip, st, m, fn, line):
        if self.kind in ("pop", "attach", "detach", "gc"):
            # Others could have changed everything guarded.
            q = self.q(ip, st)
            for n in ("myWpos", "myHead", "myTail"):
                ip.havoc(st, fld(q, n), ("lk", n))
            for k in list(st.rs):
                if isinstance(k, tuple) and k[0] in ("drained", "ridx"):
                    del st.rs[k]

    def end(self, ip, st, val, fn, line):
        rs = st.rs
        self.count("exits")
        if self.held(st):
            ip.report(st, "the lock is left held", fn, line)
        k = self.kind
        if k in ("push", "pend", "flush"):
            pend = ip.norm(st, ip.read(st, fld(THIS, "myPendingCount")))
            P = rs["pend0"]
            c = rs.get("counted")
            if k == "push":
                if rs.get("stored") != "Push":
                    ip.report(st, "a push returns without having stored the item", fn, line)
                if pend != 0:
                    ip.report(st, "items which became visible stay counted as pending", fn, line)
                want = ip.arith(st, "+", P, 1)
            elif k == "pend":
                if rs.get("stored") != "PushPending":
                    ip.report(st, "a pending push returns without having stored the item", fn, line)
                if c is None:
                    if pend != ip.arith(st, "+", P, 1) and not (rs.get("moved") and P == 0 and pend == 1):
                        ip.report(st, "a pending item is not counted as such", fn, line)
                elif pend != 1:
                    ip.report(st, "pending items are counted wrongly after a flush", fn, line)
                want = P
            else:
                want = P
                if P != 0 and not rs.get("flushed"):
                    ip.report(st, "a flush does not make pending items visible", fn, line)
                if pend != 0:
                    ip.report(st, "flushed items stay counted as pending", fn, line)
            if c is None:
                if k == "push" or (rs.get("flushed") and P != 0):
                    ip.report(st, "visible items are not counted", fn, line)
                if ip.truth(st, val) is not False:
                    ip.report(st, "the queue is reported to have become not empty without new visible items", fn, line)
            else:
                got = c[0]
                while isinstance(got, tuple) and got[0] == "conv":
                    got = got[1]
                if got != want:
                    ip.report(st, "not all the visible items are counted, or some are counted twice", fn, line)
                if not ip.iff(st, val, lambda s: ip.eq(s, c[1], 0)):
                    ip.report(st, "whether the queue was empty is reported wrongly: a wakeup of the consumers is lost",
                              fn, line)
        elif k == "pop":
            v = ip.norm(st, val)
            g = rs.get("got")
            cur = rs["cur"]
            now = ip.norm(st, ip.read(st, fld(THIS, "mySubQueue")))
            if g is not None:
                if v != g:
                    ip.report(st, "a popped item is lost", fn, line)
                if not rs.get("uncounted"):
                    ip.report(st, "a popped item stays counted", fn, line)
            else:
                if v != 0:
                    ip.report(st, "a pop returns something without having popped it", fn, line)
                if rs.get("uncounted"):
                    ip.report(st, "the count is decreased without a popped item", fn, line)
                if not rs.get("none") and not rs.get("atw"):
                    ip.report(st, "a pop reports no items while the next sub-queues may have those", fn, line)
            if now != cur:
                ip.report(st, "a consumer does not remember the sub-queue to which it is attached", fn, line)

    def on_unlock(self, ip, st, m, fn, line):
        rs = st.rs
        self.count("sections")
        if self.kind == "pop":
            cur = rs["cur"]
            q = self.q(ip, st)
            wp = ip.norm(st, ip.read(st, fld(q, "myWpos")))
            if ip.eq(st, cur, wp) is True:
                rs["atw"] = 1
            cc = {k[1]: v for k, v in rs.items() if isinstance(k, tuple) and k[0] == "cc" and v != 0}
            nxt = rs.pop("next", None)
            rs.pop("reset", None)
            for kk in [kk for kk in rs if isinstance(kk, tuple) and kk[0] in ("cc", "ccl", "drained", "ridx")]:
                del rs[kk]
            if not cc:
                return
            self.count("switches")
            plus = [x for x, d in cc.items() if d == 1]
            minus = [x for x, d in cc.items() if d == -1]
            if len(plus) != 1 or minus != [cur] or len(cc) != 2:
                ip.report(st, "a consumer switches the sub-queue without exactly one detach from the old one and one "
                              "attach to the new one", fn, line)
                return
            if rs.get("exhausted") != cur:
                ip.report(st, "a consumer leaves a sub-queue which is not read until the end: its items are lost", fn,
                          line)
            if plus[0] != nxt:
                ip.report(st, "a consumer switches not to the next sub-queue: the items in between are lost or "
                              "reordered", fn, line)
            if ip.eq(st, cur, wp) is not False:
                ip.report(st, "a consumer leaves the sub-queue to which the producer writes", fn, line)
            rs["cur"] = plus[0]
        elif self.kind in ("attach", "detach"):
            cc = {k[1]: v for k, v in rs.items() if isinstance(k, tuple) and k[0] == "cc" and v != 0}
            want = 1 if self.kind == "attach" else -1
            head = ip.norm(st, ip.read(st, fld(self.q(ip, st), "myHead")))
            if len(cc) != 1 or list(cc.values())[0] != want:
                ip.report(st, "a consumer is not (un)registered in its sub-queue exactly once", fn, line)
            elif self.kind == "attach" and list(cc)[0] != head:
                ip.report(st, "a new consumer starts not from the oldest sub-queue", fn, line)


def heap_case(ip, st, q, item, prev_null, next_tail):
    """A list ... prev <-> item <-> next ... tail."""
    P, N, TL = ("t", ("sh", "prev")), ("t", ("sh", "next")), ("t", ("sh", "tail"))
    it = addr(item)
    for x in (P, N, TL):
        ip.refine(st, x, ne=0)
    if next_tail:
        TL = N
    st.store[fld(q, "myTail")] = TL
    st.store[fld(deref(TL), "myNext")] = 0
    st.store[fld(item, "myNext")] = N
    st.store[fld(deref(N), "myPrev")] = it
    if prev_null:
        st.store[fld(item, "myPrev")] = 0
        st.store[fld(q, "myHead")] = it
    else:
        st.store[fld(item, "myPrev")] = P
        st.store[fld(deref(P), "myNext")] = it
        st.store[fld(q, "myHead")] = ("t", ("sh", "head"))
        ip.assume(st, ip.cmpv(st, "==", ("t", ("sh", "head")), it), False)
    return P, N, TL


class GcRule(QueueRule):
    def end(self, ip, st, val, fn, line):
        self.count("exits")
        q, it = self.qr, addr(self.item)
        P, N, TL = self.shape
        rd = lambda r, n: ip.norm(st, ip.read(st, fld(r, n)))
        if st.rs.get("reset") != it:
            return
        ok = rd(q, "myTail") == it and rd(self.item, "myPrev") == TL and rd(self.item, "myNext") == 0 and \
            rd(deref(TL), "myNext") == it
        if self.prev_null:
            ok = ok and rd(q, "myHead") == N and rd(deref(N), "myPrev") == 0
        else:
            ok = ok and rd(deref(P), "myNext") == N and rd(deref(N), "myPrev") == P
        self.count("relinks")
        if not ok:
            ip.report(st, "the list of sub-queues is broken when one is recycled to its end", fn, line)


class NextRule(QueueRule):
    def on_unlock(self, ip, st, m, fn, line):
        pass

    def end(self, ip, st, val, fn, line):
        if self.held(st):
            ip.report(st, "the lock is left held", fn, line)
        rd = lambda r, n: ip.norm(st, ip.read(st, fld(r, n)))
        w = rd(THIS, "myWpos")
        self.count("exits")
        if self.last:
            # A new one at the end.
            ok = w not in (0, self.w0) and rd(deref(self.w0), "myNext") == w and rd(deref(w), "myPrev") == self.w0 \
                and rd(THIS, "myTail") == w and rd(deref(w), "myNext") == 0
        else:
            ok = w == self.n0 and rd(THIS, "myTail") == self.t0 and rd(deref(self.w0), "myNext") == self.n0
        if not ok:
            ip.report(st, "the producer moves to a wrong sub-queue or breaks the list of those", fn, line)


@check("B04")
def run(res):
    p = res.prog("epoll", ("box",))
    N1, N2 = "sub-queue", "queue-of-sub-queues"
    res.rule(N1, "one sub-queue: a consumer takes a position with a compare-exchange by one, only after seeing a not "
             "null item there (acquire) and never at the end position, and returns exactly that item; a producer "
             "marks the new end and stores the newest item before the first visible position is filled (release, "
             "once, with the oldest pending item); indexes and the pending item match on every exit.")
    res.rule(N2, "the queue: items are counted before they become visible, by their exact number; the emptiness result "
             "is taken from that addition; the producer leaves only a full and flushed sub-queue; a consumer leaves "
             "only a sub-queue read until the end and not being written, un/registering under one lock; recycling "
             "needs no consumers, no items and keeps the list linked; shared links and counters are under the lock.")
    for name, kind in (("Push", "push"), ("PushPending", "pend"), ("FlushPending", "flush")):
        f = p.fn(S + "::" + name)
        for pending in (False, True):
            def setup(ip, st, this, vals):
                W, F, P, I = [("t", ("sq", x)) for x in ("w", "f", "p", "i")]
                for x in (W, F):
                    ip.tinfo[x] = (32, False, "")
                if not pending:
                    F, P = W, 0
                else:
                    ip.refine(st, P, ne=0)
                    # The flush position is below.
                    st.facts[("cmp", "<", F, W)] = True
                st.store[fld(THIS, "myWriteIndex")] = W
                st.store[fld(THIS, "myFlushIndex")] = F
                st.store[fld(THIS, "myFirstPending")] = P
                if vals:
                    ip.refine(st, vals[0], ne=0)
                st.rs.update({"windex": W, "findex": F, "pending": P, "item": vals[0] if vals else 0})
            res.walk(p, Cells(kind), f, N1, setup=setup)
    f = p.fn(S + "::Pop")
    r = Cells("pop")
    r.out = f.params[0][1]
    res.walk(p, r, f, N1)

    def setup(ip, st, this, vals):
        size = ip.read(st, fld(THIS, "mySize"))
        for n in ("myWriteIndex", "myFlushIndex"):
            st.store[fld(THIS, n)] = size
        for n in ("myFirstPending", "myConsumerCount", "myNext", "myPrev"):
            st.store[fld(THIS, n)] = 0
    res.walk(p, Cells("reset"), p.fn(S + "::Reset"), N1, setup=setup)
    for w in ("publishes", "takes", "cell_ops", "exits"):
        res.need(N1, w, 1)

    for name, kind in (("Push", "push"), ("PushPending", "pend"), ("FlushPending", "flush")):
        f = p.fn(Q + "::" + name)
        for zero in (False, True):
            def setup(ip, st, this, vals):
                P = 0 if zero else ("t", ("q", "pend"))
                if not zero:
                    ip.tinfo[P] = (32, False, "")
                    ip.refine(st, P, ne=0)
                st.store[fld(THIS, "myPendingCount")] = P
                st.rs["pend0"] = P
                st.rs["pend"] = 0 if zero else 1
                if zero:
                    st.rs["flushed"] = 1
                if vals:
                    st.rs["item"] = vals[0]
                    ip.refine(st, vals[0], ne=0)
            res.walk(p, QueueRule(kind), f, N2, setup=setup)

    def csetup(ip, st, this, vals):
        sq, q = ("t", ("c", "sub")), ("t", ("c", "queue"))
        ip.refine(st, sq, ne=0)
        ip.refine(st, q, ne=0)
        st.store[fld(THIS, "mySubQueue")] = sq
        st.store[fld(THIS, "myQueue")] = q
        st.rs["queue"] = q
        st.rs["cur"] = sq
    res.walk(p, QueueRule("pop"), p.fn(C + "::Pop"), N2, setup=csetup)
    res.walk(p, QueueRule("detach"), p.fn(C + "::Detach"), N2, setup=csetup)

    def asetup(ip, st, this, vals):
        st.rs["queue"] = vals[0]
        st.rs["cur"] = 0
    res.walk(p, QueueRule("attach"), p.fn(C + "::Attach"), N2, setup=asetup)
    # Recycling, seen from a detaching consumer.
    for prev_null in (False, True):
        for next_tail in (False, True):
            r = GcRule("gc")
            r.prev_null = prev_null
            sq, q = ("t", ("c", "sub")), ("t", ("c", "queue"))

            def setup(ip, st, this, vals):
                csetup(ip, st, this, vals)
                r.qr, r.item = deref(q), deref(sq)
                r.shape = heap_case(ip, st, deref(q), deref(sq), prev_null, next_tail)
            r.q = lambda ip, st: deref(q)
            r.on_lock = lambda *a: None
            r.on_unlock = lambda *a: None
            res.walk(p, r, p.fn(C + "::Detach"), N2, setup=setup)
    res.need(N2, "relinks", 4)
    # The producer's step to the next sub-queue, seen from a push to a full one.
    for last in (False, True):
        r = NextRule("push")
        r.last = last
        r.w0, r.n0, r.t0 = ("t", ("p", "w")), ("t", ("p", "n")), ("t", ("p", "tail"))
        if last:
            r.t0, r.n0 = r.w0, 0

        def setup(ip, st, this, vals):
            for x in (r.w0, r.n0, r.t0):
                if x != 0:
                    ip.refine(st, x, ne=0)
            st.store[fld(THIS, "myPendingCount")] = 0
            st.store[fld(THIS, "myWpos")] = r.w0
            st.store[fld(THIS, "myTail")] = r.t0
            st.store[fld(deref(r.w0), "myNext")] = r.n0
            st.store[fld(deref(r.t0), "myNext")] = 0 if not last else r.n0
            if r.n0 != 0:
                st.store[fld(deref(r.n0), "myPrev")] = r.w0
            st.rs.update({"pend0": 0, "pend": 0, "full": r.w0, "item": vals[0]})
        res.walk(p, r, p.fn(Q + "::Push"), N2, setup=setup)
    for w in ("count_ops", "subqueue_ops", "sections", "switches", "resets", "guarded", "exits"):
        res.need(N2, w, 1)
