"""B09: binary heaps."""
from ..core import check
from ..engine import Rule, addr, deref
from ..ir import AnalysisBroken

IT = "verif::Item"
THIS, OUT, ARG = ("name", "this"), ("o", ("out",)), ("o", ("argp",))
D = ("f", THIS, "myData")
HEAP = "mg::box::BinaryHeap<"
SIZES = 8


def fld(r, n):
    return ("f", r, n)


def node(x):
    return ("o", ("item", x))


def key(x):
    return ("t", ("key", x))


class Heap(Rule):
    """The vector is modelled exactly, the keys are only known to be ordered: each comparison whose result does not follow
    from what is known goes both ways."""
    max_loop = 12

    def __init__(self, cls, op, n, at=None, alias=False):
        super().__init__()
        self.cls, self.op, self.n, self.at, self.alias = cls, op, n, at, alias
        self.ptr = "<verif::Item *" in cls
        self.intr = "Intrusive" in cls
        self.min = "HeapMin" in cls

    # ---- order of keys
    def known(self, ord, a, b):
        """1: a <= b. 0: a > b. None: not known."""
        def reach(x, y):
            # (reachable, reachable with a strict edge)
            best = {x: 0}
            work = [x]
            while work:
                u = work.pop()
                for (p, q, s) in ord:
                    if p == u:
                        w = max(best[u], s)
                        if best.get(q, -1) < w:
                            best[q] = w
                            work.append(q)
            return best.get(y, -1)
        if a == b or reach(a, b) >= 0:
            return 1
        if reach(b, a) == 1:
            return 0
        return None

    def le(self, st, a, b):
        k = self.known(st.rs["ord"], a, b)
        if k is not None:
            return [(st, k)]
        s2 = st.copy()
        st.rs["ord"] |= {(a, b, 0)}
        s2.rs["ord"] |= {(b, a, 1)}
        return [(st, 1), (s2, 0)]

    # ---- the state before
    def base(self, st):
        return fld(D, "#%d" % st.rs["gen"])

    def el(self, st, i):
        return ("e", self.base(st), i)

    def names(self):
        return ["i%d" % i for i in range(self.n)]

    def setup(self, ip, st, this, args):
        st.rs["n"], st.rs["gen"] = self.n, 0
        L = self.names()
        for x in L + ["x"]:
            ip.settype(node(x), IT)
            st.store[fld(node(x), "myValue")] = key(x)
        for i, x in enumerate(L):
            if self.ptr:
                st.store[self.el(st, i)] = addr(node(x))
                if self.intr:
                    st.store[fld(node(x), "myIndex")] = i
            else:
                st.store[fld(self.el(st, i), "myValue")] = key(x)
        if self.ptr:
            st.store[ARG] = addr(node(self.at if self.at is not None else "x"))
        else:
            st.store[fld(ARG, "myValue")] = key("x")
            ip.settype(ARG, IT)
            ip.settype(OUT, IT)
        ch = None
        if self.op == "Update":
            ch = L.index(self.at)
        if self.op == "UpdateTop":
            ch = 0
        ord = set()
        for i in range(1, self.n):
            p = (i - 1) // 2
            if p == ch:
                if p == 0:
                    continue
                p = (p - 1) // 2
            if i == ch:
                continue
            a, b = key(L[p]), key(L[i])
            ord.add((a, b, 0) if self.min else (b, a, 0))
        st.rs["ord"] = frozenset(ord)
        st.rs["keep"] = (ARG, OUT) + tuple(node(x) for x in L + ["x"])
        self.count("heaps")

    # ---- events
    def fail(self, ip, st, c, m):
        ip.report(st, m, c.fn, c.line)
        return []

    def call(self, ip, st, c):
        if c.cls == IT and c.name in ("operator<=", "operator>=", "operator<", "operator>"):
            self.count("comparisons")
            a = ip.norm(st, ip.read(st, fld(c.obj, "myValue")))
            r = c.args[0]
            r = r[1] if isinstance(r, tuple) and r[0] == "L" else None
            b = ip.norm(st, ip.read(st, fld(r, "myValue"))) if r else None
            if not all(isinstance(v, tuple) and v[0] == "t" and v[1][0] == "key" for v in (a, b)):
                return self.fail(ip, st, c, "something which is not in the heap is compared")
            if c.name[-1] == "=":
                return self.le(st, a, b) if c.name == "operator<=" else self.le(st, b, a)
            return [(s, 1 - v) for s, v in (self.le(st, b, a) if c.name == "operator<" else self.le(st, a, b))]
        if c.qn.startswith("mg::box::Assert"):
            return self.fail(ip, st, c, "an assertion may fail")
        if c.cls and c.cls.startswith("std::vector<") and c.obj == D:
            return self.vector(ip, st, c)
        return None

    def vector(self, ip, st, c):
        rs = st.rs
        n = rs["n"]
        if c.name == "size":
            return [(st, n)]
        if c.name == "empty":
            return [(st, int(n == 0))]
        if c.name in ("capacity", "reserve", "shrink_to_fit"):
            return None if c.name == "capacity" else [(st, None)]
        if c.name == "data":
            return [(st, addr(self.el(st, 0)))]
        if c.name in ("operator[]", "at"):
            i = ip.norm(st, ip.rvalue(st, c.args[0]))
            if not isinstance(i, int):
                raise AnalysisBroken("not a concrete index in the heap: %s" % (i,))
            if not 0 <= i < n:
                return self.fail(ip, st, c, "an element outside of the heap is accessed")
            return [(st, ("L", self.el(st, i)))]
        if c.name in ("front", "back"):
            if n == 0:
                return self.fail(ip, st, c, "an element of an empty heap is accessed")
            return [(st, ("L", self.el(st, 0 if c.name == "front" else n - 1)))]
        if c.name in ("push_back", "emplace_back"):
            old, new = rs["gen"], rs["gen"] + 1
            src = c.args[0]
            rs["gen"] = new
            for i in range(n):
                # The elements are moved to a new memory.
                ip.write(st, self.el(st, i), self.elval(ip, st, ("e", fld(D, "#%d" % old), i)))
            ip.write(st, self.el(st, n), src if not self.ptr else ip.rvalue(st, src))
            rs["n"] = n + 1
            ip.drop_under(st, fld(D, "#%d" % old))
            return [(st, ("L", self.el(st, n)))]
        if c.name == "pop_back":
            if n == 0:
                return self.fail(ip, st, c, "an element of an empty heap is removed")
            ip.drop_under(st, self.el(st, n - 1))
            rs["n"] = n - 1
            return [(st, None)]
        raise AnalysisBroken("vector operation %s in the heap is not modelled" % c.name)

    def elval(self, ip, st, r):
        return ip.read(st, r) if self.ptr else ("L", r)

    def touch(self, ip, st, r, fn, line):
        while r[0] == "f" and r[1] != D:
            r = r[1]
        if r[0] == "e" and r[1][0] == "f" and r[1][1] == D:
            if r[1] != self.base(st):
                ip.report(st, "memory which the heap has left is accessed", fn, line)
            elif not isinstance(r[2], int):
                raise AnalysisBroken("not a concrete index in the heap: %s" % (r[2],))
            elif not 0 <= r[2] < st.rs["n"]:
                ip.report(st, "an element outside of the heap is accessed", fn, line)

    def load(self, ip, st, r, v, fn, line):
        self.touch(ip, st, r, fn, line)

    def store(self, ip, st, r, v, fn, line):
        self.touch(ip, st, r, fn, line)

    def deref(self, ip, st, v, fn, line):
        if v == 0:
            ip.report(st, "a null element is followed", fn, line)

    # ---- the state after
    def item(self, ip, st, r):
        """The name of the item at this place."""
        if self.ptr:
            v = ip.norm(st, ip.read(st, r))
            t = deref(v) if isinstance(v, tuple) and v[0] == "&" else None
            return t[1][1] if t is not None and t[0] == "o" and t[1][0] == "item" else None
        v = ip.norm(st, ip.read(st, fld(r, "myValue")))
        return v[1][1] if isinstance(v, tuple) and v[0] == "t" and v[1][0] == "key" else None

    def end(self, ip, st, val, fn, line):
        self.count("exits")

        def bad(m):
            ip.report(st, m, fn, line)
        L = self.names()
        op, n = self.op, self.n
        gone = None
        if op == "Push":
            L.append("x")
        elif op in ("RemoveTop", "Pop"):
            if ip.eq(st, val, int(n > 0)) is not True:
                bad("a wrong result is returned")
            gone = L.pop(0) if L else None
            if op == "Pop" and gone and self.item(ip, st, OUT) != gone:
                bad("the popped element is not the top one")
        elif op == "Remove":
            gone = self.at
            L.remove(gone)
        elif op == "Count":
            if ip.eq(st, val, n) is not True:
                bad("a wrong count is told")
        elif op == "GetTop":
            r = val[1] if isinstance(val, tuple) and val[0] == "L" else None
            if r is None or self.item(ip, st, r) != L[0]:
                bad("not the top element is told")
        got = [self.item(ip, st, self.el(st, i)) for i in range(st.rs["n"])]
        if None in got or sorted(got) != sorted(L):
            bad("the heap lost or duplicated an element")
            return
        for i in range(1, len(got)):
            p = (i - 1) // 2
            a, b = key(got[p]), key(got[i])
            if not self.min:
                a, b = b, a
            if self.known(st.rs["ord"], a, b) != 1:
                bad("an element can be above a one which precedes it: the order of the heap is broken")
                break
        if self.intr:
            for i, x in enumerate(got):
                if ip.norm(st, ip.read(st, fld(node(x), "myIndex"))) != i:
                    bad("the index of an element is not its place")
                    break
            if gone and ip.norm(st, ip.read(st, fld(node(gone), "myIndex"))) != -1:
                bad("a removed element still has an index")


@check("B09")
def b09(res):
    rn = "heap"
    res.rule(rn, "each operation of each kind of heap walked on every size of up to %d with unknown, only partially ordered keys; "
             "afterwards the elements are the expected ones, each is not above the ones preceding it, indexes are places." % SIZES)
    p = res.prog("epoll", ("box",))
    classes = sorted({f.cls for q, fs in p.by_qn.items() for f in fs if q.startswith(HEAP) and IT in q})
    for c in classes:
        ip_ptr, intr = "<verif::Item *" in c, "Intrusive" in c
        ops = ["Push", "RemoveTop", "Pop", "UpdateTop"]
        if ip_ptr:
            ops += ["Count", "GetTop"]
        if intr:
            ops += ["Remove", "Update"]
        for op in ops:
            fs = [f for f in p.fns(c + "::" + op) if not f.implicit]
            if not fs:
                raise AnalysisBroken("no %s of %s" % (op, c))
            for f in fs:
                for n in range(SIZES + 1):
                    if n == 0 and op in ("GetTop", "Remove", "Update"):
                        continue
                    ats = [None] if op not in ("Remove", "Update") else ["i%d" % i for i in range(n)]
                    for at in ats:
                        for al in ((False, True) if at is not None else (False,)):
                            r = Heap(c, op, n, at, al)
                            if op == "Pop":
                                args = [("L", OUT)]
                            elif op in ("Remove", "Update") and al:
                                # A reference to the element in the heap itself.
                                args = [("L", ("e", fld(D, "#0"), int(at[1:])))]
                            elif op in ("Push", "Remove", "Update"):
                                args = [("L", ARG)]
                            else:
                                args = []
                            res.walk(p, r, f, rn, args=args, setup=r.setup)
    for k, m in (("heaps", 300), ("comparisons", 500), ("exits", 500)):
        res.need(rn, k, m)
