"""B03: multi-producer intrusive queue."""
from ..core import check
from ..engine import Rule, is_acq, is_rel, region_str, under, root_of, deref, addr

T = "mg::box::MultiProducerQueueIntrusive<verif::Item>"
LINK = "myNext"


class QueueRule(Rule):
    def __init__(self, kind):
        super().__init__()
        self.kind = kind
        self.head = None
        self.this = ("name", "this")

    def is_link(self, r):
        return r[0] == "f" and r[2] == LINK and not under(r, self.this)

    def atomic_domain(self, ip, st, op, region):
        return None

    def load(self, ip, st, region, val, fn, line):
        if not self.is_link(region):
            return
        self.pub(ip, st, fn, line)
        x = addr(region[1])
        rs = st.rs
        if rs.get("cur") != x:
            rs["before"] = rs.get("cur", 0)
            rs["cur"] = x
        rs["next"] = val
        self.count("link_reads")

    def pub(self, ip, st, fn, line):
        if st.rs.get("published"):
            ip.report(st, "an item is touched after it became visible to the consumer, which may have deleted it", fn,
                      line)

    def store(self, ip, st, region, val, fn, line):
        if not self.is_link(region):
            return
        self.count("link_writes")
        self.pub(ip, st, fn, line)
        x = addr(region[1])
        rs = st.rs
        last = rs.get("last")
        cur = rs.get("cur", 0)
        rs["plink"] = (x, val)
        v = ip.norm(st, val)
        if x == cur:
            # Relinking of the visited item.
            if v == rs.get("before", 0):
                rs["relinked"] = 1
                return
            if ip.norm(st, rs.get("next")) == 0 or last == x:
                return
            if v == ip.norm(st, rs.get("next")):
                return
            if rs.get("head_known") and rs["head_known"] == v:
                # The reversed chain's end is hooked to the queue.
                if rs.get("before", 0) == 0:
                    return
            ip.report(st, "a chain is re-linked wrongly: some of the items are lost", fn, line)
            return
        if x == last or x == rs.get("first") and rs.get("relinked"):
            return
        if v == 0 and x == rs.get("first") and cur == 0 and self.kind == "push":
            return
        if x == rs.get("first") and cur != 0:
            # The list is reversed, and its old first is now the end.
            return
        ip.report(st, "the link of an item is overwritten before the rest of the chain was taken: the rest is lost",
                  fn, line)

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        if not under(region, self.this):
            return
        self.count("head_ops")
        rs = st.rs
        if op == "init":
            if operand != 0:
                ip.report(st, "a new queue is not empty", fn, line)
            return
        if op == "load":
            rs["head_known"] = result
            if self.kind == "empty" and not is_acq(orders[0]):
                ip.report(st, "the emptiness check does not synchronise with the producers", fn, line)
            return
        if op == "cas" and not success:
            rs["head_known"] = result
            return
        if self.kind == "pop":
            if op != "xchg" or operand != 0:
                ip.report(st, "a pop does not atomically take everything and leave the queue empty", fn, line)
            elif not is_acq(orders[0]):
                ip.report(st, "a pop is not an acquire operation: the items' content is not visible to the consumer",
                          fn, line)
            elif "popped" in rs:
                ip.report(st, "one pop takes the items twice, the first ones are lost", fn, line)
            else:
                rs["popped"] = result
                self.count("pops")
            return
        if self.kind == "empty" or op not in ("cas", "xchg"):
            ip.report(st, "the queue head is changed not by an atomic exchange of a chain", fn, line)
            return
        if op == "xchg":
            ip.report(st, "the queue head is replaced before the chain is linked with the older items: a consumer in "
                          "between loses them", fn, line)
            return
        exp, new = operand
        exp = ip.norm(st, exp)
        if rs.get("published"):
            ip.report(st, "the chain is published twice", fn, line)
        if not is_rel(orders[0]):
            ip.report(st, "a push is not a release operation: the items' content is not visible to the consumer", fn,
                      line)
        pl = rs.get("plink")
        want_first, want_last = self.ends(ip, st)
        if new != want_first:
            ip.report(st, "the queue head becomes not the first item of the pushed chain: the items before it are "
                          "lost", fn, line)
        elif pl is None or ip.norm(st, pl[1]) != exp:
            ip.report(st, "the pushed chain is not linked with the items the head is compared with: those are lost", fn,
                      line)
        elif pl[0] != want_last:
            ip.report(st, "not the last item of the pushed chain is linked with the older items: a part of the chain "
                          "is lost", fn, line)
        rs["published"] = 1
        rs["old"] = exp
        self.count("publishes")

    def ends(self, ip, st):
        """The first and last items of the chain which must be published."""
        rs = st.rs
        a, b = rs["first"], rs["last"]
        if self.mode == "reverse":
            cur = rs.get("cur", 0)
            if cur == 0:
                return a, a
            if ip.norm(st, rs.get("next")) != 0:
                return ("incomplete",), a
            return cur, a
        if b is not None:
            return a, b
        # Need to be found by walking until the end.
        if ip.norm(st, rs.get("next")) != 0:
            return a, ("incomplete",)
        return a, rs.get("cur")

    def end(self, ip, st, val, fn, line):
        rs = st.rs
        self.count("exits")
        if self.kind == "push":
            if not rs.get("published"):
                if ip.truth(st, rs["first"]) is not False:
                    ip.report(st, "a push returns without having published the items", fn, line)
                return
            if not ip.iff(st, val, lambda s: ip.eq(s, rs["old"], 0)):
                ip.report(st, "a push does not report correctly whether the queue was empty: a consumer's wakeup is "
                              "lost", fn, line)
        elif self.kind == "pop":
            if "popped" not in rs:
                if self.out == "tail" or True:
                    ip.report(st, "a pop returns without having taken the items", fn, line)
                return
            p = ip.norm(st, rs["popped"])
            v = ip.norm(st, val)
            if self.mode == "same":
                if v != p:
                    ip.report(st, "a pop returns not what it took from the queue", fn, line)
                return
            empty = ip.eq(st, p, 0)
            if empty:
                if v != 0:
                    ip.report(st, "a pop from an empty queue returns something", fn, line)
                return
            if v != rs.get("cur") or ip.norm(st, rs.get("next")) != 0:
                ip.report(st, "a pop returns not the oldest item: items are lost or not in the order of pushes", fn,
                          line)
            if self.out:
                t = ip.norm(st, ip.read(st, ("name", "arg:" + self.out)))
                if t != p:
                    ip.report(st, "the reported tail is not the newest item", fn, line)
            r = ip.norm(st, ip.read(st, ("f", deref(p), LINK)))
            pl = rs.get("plink")
            if pl is None:
                ip.report(st, "the items are returned in a reversed order", fn, line)


@check("B03")
def run(res):
    p = res.prog("epoll", ("box",))
    N = "mpsc-queue"
    res.rule(N, "on every path of each operation: a chain is published with one compare-exchange (release), whose new "
             "value is the chain's first item and whose expected value is what the chain's last item was linked to; no "
             "item is touched after; the result says whether the expected head was null; a pop is one acquire exchange "
             "with null; a link is overwritten only after the rest of the chain was read, and with the item visited "
             "just before.")

    def one(f, kind, mode, first=None, last=None, out=None):
        r = QueueRule(kind)
        r.mode = mode
        r.out = out

        def setup(ip, st, this, vals):
            if first is not None:
                st.rs["first"] = vals[first]
            st.rs["last"] = vals[last] if last is not None else None
        res.walk(p, r, f, N, setup=setup)

    for f in p.fns(T + "::MultiProducerQueueIntrusive"):
        one(f, "ctor", "")
    one(p.fn(T + "::IsEmpty"), "empty", "")
    one(p.fn(T + "::Push"), "push", "one", 0, 0)
    one(p.fn(T + "::PushManyFastReversed", 2), "push", "fwd", 0, 1)
    one(p.fn(T + "::PushManyFastReversed", 1), "push", "fwd", 0, None)
    one(p.fn(T + "::PushMany"), "push", "reverse", 0, None)
    one(p.fn(T + "::PopAllFastReversed"), "pop", "same")
    f = p.fn(T + "::PopAll", 1)
    one(f, "pop", "reverse", out=f.params[0][1])
    one(p.fn(T + "::PopAll", 0), "pop", "reverse")
    for w in ("publishes", "pops", "link_reads", "link_writes", "exits"):
        res.need(N, w, 2)
