"""B08: intrusive lists."""
from ..core import check
from ..engine import Rule, addr, deref
from ..ir import AnalysisBroken

IT = "verif::Item"
FWD, DBL = "mg::box::ForwardList<verif::Item>", "mg::box::DoublyList<verif::Item>"
THIS, SRC = ("name", "this"), ("o", ("src",))
OUT = ("o", ("outlast",))
MAXLEN = 4


def fld(r, n):
    return ("f", r, n)


def node(x):
    return ("o", ("item", x))


class Lists(Rule):
    max_loop = 12

    def __init__(self, p, cls, op, items, other=(), chain=(), what=()):
        super().__init__()
        self.p, self.cls, self.op = p, cls, op
        self.items, self.other, self.chain, self.what = tuple(items), tuple(other), tuple(chain), what
        self.dbl = cls == DBL

    # ---- the state before
    def put(self, st, lst, items, ends=True):
        if lst is not None:
            st.store[fld(lst, "myFirst")] = addr(node(items[0])) if items else 0
            if self.dbl:
                st.store[fld(lst, "myLast")] = addr(node(items[-1])) if items else 0
            else:
                st.store[fld(lst, "myLastLink")] = addr(fld(node(items[-1]), "myNext") if items else fld(lst, "myFirst"))
        for i, x in enumerate(items):
            last = i == len(items) - 1
            n = node(x)
            if not last or ends:
                st.store[fld(n, "myNext")] = 0 if last else addr(node(items[i + 1]))
            if self.dbl and (i or ends):
                st.store[fld(n, "myPrev")] = addr(node(items[i - 1])) if i else 0

    def setup(self, ip, st, this, args):
        ip.settype(THIS, self.cls)
        ip.settype(SRC, self.cls)
        for x in self.items + self.other + self.chain:
            ip.settype(node(x), IT)
        if self.op != "ctor":
            self.put(st, THIS, self.items)
        self.put(st, SRC, self.other)
        self.put(st, None, self.chain, False)
        # Nothing of these is garbage when it is not referred to any more.
        st.rs["keep"] = (SRC, OUT) + tuple(node(x) for x in self.items + self.other + self.chain)
        self.count("shapes")
        self.args = args

    def on_call(self, ip, st, c):
        return None

    def call(self, ip, st, c):
        if c.qn == "mg::box::ContainerOf":
            v = ip.norm(st, ip.rvalue(st, c.args[0]))
            r = deref(v) if isinstance(v, tuple) else None
            if r is None or r[0] != "f" or r[2] != "myNext" or r[1][0] != "o" or r[1][1][0] != "item":
                ip.report(st, "an item is calculated from a link which is not in an item", c.fn, c.line)
                return []
            return [(st, addr(r[1]))]
        if c.qn.startswith("mg::box::Assert"):
            ip.report(st, "an assertion may fail", c.fn, c.line)
            return []
        return None

    def deref(self, ip, st, v, fn, line):
        if v == 0:
            ip.report(st, "a null link is followed", fn, line)

    # ---- the state after
    def val(self, ip, st, r, n):
        return ip.norm(st, ip.read(st, fld(r, n)))

    def walk_items(self, ip, st, v, bad, back):
        res = []
        prev = 0
        while v != 0:
            r = deref(v) if isinstance(v, tuple) and v[0] == "&" else None
            if r is None or r[0] != "o" or r[1][0] != "item":
                bad("a link is not set")
                return None
            if len(res) > 12:
                bad("items are linked in a loop")
                return None
            res.append(r[1][1])
            if back and self.dbl and self.val(ip, st, r, "myPrev") != prev:
                bad("a link to the previous item is wrong")
            prev = v
            v = self.val(ip, st, r, "myNext")
        return tuple(res)

    def same(self, ip, st, lst, want, bad, who):
        got = self.walk_items(ip, st, self.val(ip, st, lst, "myFirst"), bad, True)
        if got is None:
            return
        if got != tuple(want):
            if sorted(got) == sorted(want):
                bad("%s has its items in a wrong order" % who)
            elif len(got) < len(want):
                bad("%s has lost items" % who)
            else:
                bad("%s has wrong items" % who)
        if self.dbl:
            e = addr(node(want[-1])) if want else 0
            g = self.val(ip, st, lst, "myLast")
        else:
            e = addr(fld(node(want[-1]), "myNext") if want else fld(lst, "myFirst"))
            g = self.val(ip, st, lst, "myLastLink")
        if g != e:
            bad("the end of %s is wrong: the next append is lost" % who)

    def end(self, ip, st, val, fn, line):
        self.count("exits")

        def bad(m):
            ip.report(st, m, fn, line)
        L, S, C = self.items, self.other, self.chain
        op, w = self.op, self.what
        if isinstance(val, tuple) and val[0] == "L":
            val = val if op == "move" else ip.rvalue(st, val)
        val = ip.norm(st, val) if val is not None and not (isinstance(val, tuple) and val[0] == "L") else val
        res = None
        src = S
        if op in ("ctor", "movector", "chainctor"):
            L = {"ctor": (), "movector": S, "chainctor": C}[op]
            src = ()
        elif op == "move":
            L, src = S, ()
            if val != ("L", THIS):
                bad("a wrong list is returned")
        elif op.startswith("prepend"):
            L = {"prepend": C, "prependlist": S, "prependchain": C}[op] + L
            src = () if op == "prependlist" else S
        elif op.startswith("append"):
            L = L + {"append": C, "appendlist": S, "appendchain": C}[op]
            src = () if op == "appendlist" else S
        elif op == "Reverse":
            L = L[::-1]
        elif op == "Clear":
            L = ()
        elif op in ("PopAll", "PopAllOut"):
            res = addr(node(L[0])) if L else 0
            if self.walk_items(ip, st, val, bad, False) not in (L, None):
                bad("popped items are lost")
            if op == "PopAllOut" and ip.norm(st, ip.read(st, OUT)) != (addr(node(L[-1])) if L else 0):
                bad("a wrong last item is told")
            L = ()
        elif op == "PopFirst":
            res, x, L = addr(node(L[0])), L[0], L[1:]
        elif op == "PopLast":
            res, x, L = addr(node(L[-1])), L[-1], L[:-1]
        elif op == "Remove":
            x = w
            L = tuple(i for i in L if i != w)
        elif op == "Insert":
            i = L.index(w) + 1 if w is not None else 0
            L = L[:i] + C + L[i:]
        elif op in ("GetFirst", "GetLast"):
            res = (addr(node(L[0 if op == "GetFirst" else -1])) if L else 0)
        elif op == "IsEmpty":
            res = int(not L)
        if op in ("PopFirst", "PopLast", "Remove") and self.dbl:
            for f in ("myNext", "myPrev"):
                if self.val(ip, st, node(x), f) != 0:
                    bad("a removed item is left linked")
        if res is not None and val != res and not (op == "IsEmpty" and ip.eq(st, val, res) is True):
            bad("a wrong result is returned")
        self.same(ip, st, THIS, L, bad, "the list")
        self.same(ip, st, SRC, src, bad, "the other list")


class Iter(Rule):
    """Iterators: over the items, also when the current one is unlinked."""
    max_loop = 4

    def __init__(self, what, n, const):
        super().__init__()
        self.what, self.n, self.const = what, n, const

    def deref(self, ip, st, v, fn, line):
        if v == 0:
            ip.report(st, "a null link is followed", fn, line)

    def setup(self, ip, st, this, args):
        for i in range(self.n):
            ip.settype(node(i), IT)
            st.store[fld(node(i), "myNext")] = addr(node(i + 1)) if i + 1 < self.n else 0
        if self.what == "next":
            st.store[fld(THIS, "myPos")] = addr(node(0))
            if not self.const:
                st.store[fld(THIS, "myNext")] = addr(node(1)) if self.n > 1 else 0
                # The current item could be moved to another list.
                st.store[fld(node(0), "myNext")] = addr(("o", ("item", "foreign")))
        self.count("iterators")

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        i = 0 if self.what == "begin" else 1
        want = addr(node(i)) if self.n > i else 0
        if ip.norm(st, ip.read(st, fld(THIS, "myPos"))) != want:
            ip.report(st, "an iterator skips items or follows an item which left the list", fn, line)
        if not self.const:
            want = addr(node(i + 1)) if self.n > i + 1 else 0
            if ip.norm(st, ip.read(st, fld(THIS, "myNext"))) != want:
                ip.report(st, "an iterator doesn't remember the next item", fn, line)


def overload(p, cls, name, kind):
    """By the parameters: '' no, 'i' item, 'l' list, 'c' chain, 'o' out."""
    for f in p.fns(cls + "::" + name):
        ps = f.params
        if f.implicit:
            continue
        k = "".join("l" if x[3] and "List" in x[2] else "o" if x[3] else "i" for x in ps)
        k = {"ii": "c"}.get(k, k)
        if k == kind:
            return f
    raise AnalysisBroken("no %s::%s(%s)" % (cls, name, kind))


@check("B08")
def b08(res):
    rn = "sequence"
    res.rule(rn, "each operation of the lists walked on every shape of up to %d items, with every other list or chain of up to 2: the "
             "sequence after it, both links of each item, the end of the list, the state of the source of a move." % MAXLEN)
    p = res.prog("epoll", ("box",))

    def go(f, r, args):
        res.walk(p, r, f, rn, args=args, setup=r.setup)
    item = addr(node("x"))
    pair = [addr(node("x")), addr(node("y"))]
    for cls in (FWD, DBL):
        name = cls[len("mg::box::"):].split("<")[0]
        go(overload(p, cls, name, ""), Lists(p, cls, "ctor", ()), [])
        for m in range(MAXLEN):
            S = ["s%d" % i for i in range(m)]
            go(overload(p, cls, name, "l"), Lists(p, cls, "movector", (), S), [("L", SRC)])
        chains = [((), [0, 0]), (("x",), [item, item]), (("x", "y"), pair), (("x", "z", "y"), pair)]
        for c, a in chains:
            go(overload(p, cls, name, "c"), Lists(p, cls, "chainctor", (), (), c), a)
        for n in range(MAXLEN + 1):
            L = ["i%d" % i for i in range(n)]
            for o in ("Prepend", "Append"):
                go(overload(p, cls, o, "i"), Lists(p, cls, o.lower(), L, (), ("x",)), [item])
                for m in range(4):
                    S = ["s%d" % i for i in range(m)]
                    go(overload(p, cls, o, "l"), Lists(p, cls, o.lower() + "list", L, S), [("L", SRC)])
                for c, a in chains:
                    go(overload(p, cls, o, "c"), Lists(p, cls, o.lower() + "chain", L, (), c), a)
            for m in range(4):
                S = ["s%d" % i for i in range(m)]
                go(overload(p, cls, "operator=", "l"), Lists(p, cls, "move", L, S), [("L", SRC)])
            for o in ("Reverse", "Clear", "PopAll", "IsEmpty"):
                go(overload(p, cls, o, ""), Lists(p, cls, o, L), [])
            for o in ("GetFirst", "GetLast"):
                for f in p.fns(cls + "::" + o):
                    go(f, Lists(p, cls, o, L), [])
            go(overload(p, cls, "PopAll", "o"), Lists(p, cls, "PopAllOut", L), [("L", OUT)])
            if n:
                for o in ("PopFirst",) + (("PopLast",) if cls == DBL else ()):
                    go(overload(p, cls, o, ""), Lists(p, cls, o, L), [])
            if cls == DBL:
                for x in L:
                    go(overload(p, cls, "Remove", "i"), Lists(p, cls, "Remove", L, what=x), [addr(node(x))])
            else:
                for x in [None] + L:
                    go(overload(p, cls, "Insert", "c"), Lists(p, cls, "Insert", L, (), ("x",), x),
                       [addr(node(x)) if x is not None else 0, item])
    for f in [f for q, fs in sorted(p.by_qn.items()) for f in fs if "List" in q and "Iterator<" in q and "verif::Item" in q]:
        if f.implicit or f.name not in ("operator++",) and f.kind != "ctor":
            continue
        if f.kind == "ctor" and not (len(f.params) == 1 and not f.params[0][3]):
            continue
        const = "ConstIterator" in f.cls
        for n in range(0 if f.kind == "ctor" else 1, 4):
            r = Iter("begin" if f.kind == "ctor" else "next", n, const)
            res.walk(p, r, f, rn, args=[addr(node(0)) if n else 0], setup=r.setup)
    for k, n in (("shapes", 250), ("exits", 250), ("iterators", 20)):
        res.need(rn, k, n)
