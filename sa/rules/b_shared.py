"""B05: shared ownership by intrusive reference counts."""
from ..core import check
from ..engine import Rule, is_acq, is_rel, addr, deref, region_str, root_of

RC = "mg::box::RefCount"
THIS = ("name", "this")
OBJS = {n: ("name", "obj:" + n) for n in "AB"}


class Count(Rule):
    """The counter itself."""

    def __init__(self, kind):
        super().__init__()
        self.kind = kind

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        rs = st.rs
        if op == "fence":
            if is_acq(orders[0]):
                rs["acq"] = 1
            if is_rel(orders[0]) and "delta" not in rs:
                rs["rel"] = 1
            return
        if region != ("f", ("f", THIS, "myCount"), "myValue"):
            return
        self.count("count_ops")
        if op == "init":
            rs["init"] = operand
            return
        if op == "load":
            if is_acq(orders[0]):
                rs["acq"] = 1
            return
        if op == "rmw+" or op == "rmw-":
            d = operand if op == "rmw+" else -operand if isinstance(operand, int) else None
            old = result
        elif op == "cas":
            if not success:
                return
            d = ip.arith(st, "-", operand[1], operand[0])
            old = operand[0]
        else:
            ip.report(st, "the count is overwritten: a concurrent change of it is lost", fn, line)
            return
        if d not in (1, -1) or rs.get("delta"):
            ip.report(st, "one reference operation changes the count not by one", fn, line)
        rs["delta"] = d
        rs["old"] = old
        if d == -1:
            if is_acq(orders[0]):
                rs["acq"] = 1
            if is_rel(orders[0]):
                rs["rel"] = 1
        elif is_acq(orders[0]):
            rs["acq"] = 1

    def end(self, ip, st, val, fn, line):
        rs = st.rs
        self.count("exits")
        if self.kind == "ctor0":
            if rs.get("init") != 1:
                ip.report(st, "a new object does not have exactly one reference", fn, line)
            return
        if self.kind == "ctor1":
            return
        if self.kind == "inc":
            if rs.get("delta") != 1:
                ip.report(st, "taking a reference does not increase the count", fn, line)
            return
        if rs.get("delta") != -1:
            ip.report(st, "dropping a reference does not decrease the count", fn, line)
            return
        v = ip.truth(st, val)
        if not ip.iff(st, val, lambda s: ip.eq(s, s.rs["old"], 1)):
            ip.report(st, "dropping a reference reports the last one wrongly", fn, line)
        if v is not False:
            if not rs.get("rel"):
                ip.report(st, "a reference is dropped without release: this thread's accesses to the object may happen "
                              "after another thread deletes it", fn, line)
            if not rs.get("acq"):
                ip.report(st, "the last reference is dropped without acquire: the object may be deleted before other "
                              "threads' accesses to it", fn, line)


class Balance(Rule):
    """Smart pointer operations: count changes equal pointer changes, and an object which is still pointed to always
    has the count for that."""

    def __init__(self, kind, objs):
        super().__init__()
        self.kind = kind
        self.objs = objs

    def delta(self, st, a):
        return st.rs.get(("d", a), 0)

    def holders(self, ip, st, a, ret=None):
        n = 0
        for r in self.objs:
            v = ip.norm(st, ip.read(st, ("f", r, "myObject")))
            if v == a:
                n += 1
        if ret is not None and ret == a:
            n += 1
        return n

    def call(self, ip, st, c):
        if c.name in ("PrivRef", "PrivUnref") and c.obj is not None and c.cls and not c.cls.startswith("mg::box::SharedPtr"):
            a = addr(c.obj)
            if ip.eq(st, a, 0) is not False:
                ip.report(st, "a null pointer's count is changed", c.fn, c.line)
                return []
            d = self.delta(st, a)
            self.count("count_ops")
            if c.name == "PrivRef":
                if st.rs.get(("start", a), 0) + d <= 0:
                    ip.report(st, "a reference is taken to an object which may be deleted already", c.fn, c.line)
                st.rs[("d", a)] = d + 1
                return [(st, None)]
            st.rs[("d", a)] = d - 1
            have = st.rs.get(("start", a), 0) + d - 1
            st.rs["released"] = 1
            if self.kind != "dtor" and self.holders(ip, st, a) > have:
                ip.report(st, "a reference is dropped while the pointer which owns it still points at the object",
                          c.fn, c.line)
            for b in OBJS.values():
                b = addr(b)
                if b != a and self.holders(ip, st, b) > st.rs.get(("start", b), 0) + self.delta(st, b):
                    ip.report(st, "the old object is released before the new one is referenced: the former may own "
                                  "the latter", c.fn, c.line)
            return [(st, None)]
        return None

    def load(self, ip, st, region, val, fn, line):
        if st.rs.get("released") and self.kind != "dtor" and region in [("f", r, "myObject") for r in self.objs]:
            ip.report(st, "a pointer is read after the old object was released: the latter may have owned and destroyed "
                          "the former", fn, line)

    def store(self, ip, st, region, val, fn, line):
        if st.rs.get("released") and self.kind != "dtor" and region in [("f", r, "myObject") for r in self.objs]:
            ip.report(st, "a pointer is changed after the old object was released: the latter may have owned and "
                          "destroyed the former", fn, line)

    def new(self, ip, st, region, node, fn, line):
        st.rs[("start", addr(region))] = 1

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        ret = None
        raw = None
        if self.kind in ("wrap", "new"):
            r = ip.region_of(val) if isinstance(val, tuple) else None
            ret = ip.norm(st, ip.read(st, ("f", r, "myObject"))) if r is not None else None
            if self.kind == "wrap" and ret != st.rs.get("raw", 0):
                ip.report(st, "the pointer gets a wrong object", fn, line)
        if self.kind == "unwrap":
            raw = ip.norm(st, val)
        if self.kind == "dtor":
            now = {}
        addrs = {addr(b) for b in OBJS.values()} | {k[1] for k in st.rs if isinstance(k, tuple) and k[0] in ("d", "start")}
        for a in addrs:
            start = st.rs.get(("start", a), 0)
            n = 0 if self.kind == "dtor" else self.holders(ip, st, a, ret)
            if raw is not None and raw == a:
                n += 1
            n += st.rs.get(("ext", a), 0)
            have = start + self.delta(st, a)
            if have < n:
                ip.report(st, "an object is pointed to by %d owners with the count %d: it is deleted under them"
                          % (n, have), fn, line)
            elif have > n:
                ip.report(st, "an object keeps %d references with %d owners: it is leaked" % (have, n), fn, line)
        w = st.rs.get("want")
        if w is not None:
            v = ip.norm(st, ip.read(st, ("f", THIS, "myObject")))
            if ip.eq(st, v, w) is not True:
                ip.report(st, "the pointer does not point at the assigned object", fn, line)
        o = st.rs.get("cleared")
        if o is not None:
            v = ip.norm(st, ip.read(st, ("f", o, "myObject")))
            if ip.eq(st, v, 0) is not True:
                ip.report(st, "the moved-from pointer is not empty", fn, line)


class Unref(Rule):
    """PrivUnref() of the shared classes: delete if and only if the last reference is gone."""

    def __init__(self, cls):
        super().__init__()
        self.cls = cls

    def call(self, ip, st, c):
        if c.qn == RC + "::Dec":
            st.rs["dec"] = st.rs.get("dec", 0) + 1
            if addr(c.obj)[1][:1] and root_of(c.obj) != THIS:
                ip.report(st, "the count of another object is dropped", c.fn, c.line)
            s1 = st.copy()
            s1.rs["last"] = 1
            return [(st, 0), (s1, 1)]
        if c.qn == RC + "::Inc":
            st.rs["inc"] = st.rs.get("inc", 0) + 1
            return [(st, None)]
        return None

    def delete(self, ip, st, val, node, fn, line):
        if ip.norm(st, val) != addr(THIS):
            return None
        if not st.rs.get("last") or st.rs.get("deleted"):
            ip.report(st, "the object is deleted while it still has references", fn, line)
        st.rs["deleted"] = 1
        return [(st, None)]

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        n = fn.name
        if n == "PrivRef":
            if st.rs.get("inc") != 1 or st.rs.get("dec"):
                ip.report(st, "taking a reference does not increase the count by one", fn, line)
        else:
            if st.rs.get("dec") != 1 or st.rs.get("inc"):
                ip.report(st, "dropping a reference does not decrease the count by one", fn, line)
            if st.rs.get("last") and not st.rs.get("deleted"):
                ip.report(st, "the last reference is dropped and the object is not deleted: it is leaked", fn, line)


@check("B05")
def run(res):
    p = res.prog("epoll")
    N1, N2, N3 = "counter", "owner-balance", "delete-on-last"
    res.rule(N1, "the reference counter changes atomically by one; the last drop is detected from the atomic's own result, "
             "is a release, and acquires before the deletion")
    res.rule(N2, "for every operation of the owning pointer, over all combinations of null, same and different objects and "
             "aliasing of the operands: change of the count equals change of the number of owners, at every moment an "
             "object has at least as many references as owners, and no pointer is touched after the release which may destroy "
             "it")
    res.rule(N3, "every shared class deletes itself exactly when its counter reports the last reference")
    for name, n, k in (("RefCount", 0, "ctor0"), ("Inc", 0, "inc"), ("Dec", 0, "dec")):
        res.walk(p, Count(k), p.fn(RC + "::" + name, n), N1)
    res.need(N1, "count_ops", 3)
    SP = "mg::box::SharedPtrIntrusive<verif::Shared>"
    SC = "mg::box::SharedPtrIntrusive<verif::SharedChild>"
    OTHER = ("name", "other")
    A, B = addr(OBJS["A"]), addr(OBJS["B"])

    def go(f, kind, tv, ov, alias=False, arg=None, want=None, cleared=False, owner=True):
        objs = [THIS] if kind not in ("wrap", "new") else []
        if ov is not None and not alias:
            objs.append(OTHER)
        r = Balance(kind, objs)

        def setup(ip, st, this, vals):
            if tv is not None:
                st.store[("f", THIS, "myObject")] = tv
                if tv:
                    st.rs[("start", tv)] = st.rs.get(("start", tv), 0) + 1
            if ov is not None:
                if not alias:
                    st.store[("f", OTHER, "myObject")] = ov
                    if ov:
                        st.rs[("start", ov)] = st.rs.get(("start", ov), 0) + 1
                vals[0] = ("L", THIS if alias else OTHER)
            if arg is not None:
                vals[0] = arg
                st.rs["raw"] = arg
                if arg and kind != "wrap":
                    st.rs[("start", arg)] = st.rs.get(("start", arg), 0) + 1
                    st.rs[("ext", arg)] = 1
                elif arg:
                    st.rs[("start", arg)] = 1
            if want is not None:
                st.rs["want"] = want
            if cleared:
                st.rs["cleared"] = OTHER
        res.walk(p, r, f, N2, setup=setup)

    def functions(cls):
        return [f for f in p.funcs.values() if f.cls == cls]
    vals = (0, A, B)
    seen = 0
    for cls in (SP, SC):
        for f in functions(cls):
            t = f.params[0][2] if f.params else ""
            ptr = "SharedPtrIntrusive" in t
            move = ptr and "&&" in t
            n = f.name
            if n in ("PrivRef", "PrivUnref", "GetPointer", "operator->", "operator*", "IsSet", "operator==", "operator!="):
                continue
            seen += 1
            if f.kind == "ctor" or n == "SharedPtrIntrusive":
                if not f.params:
                    go(f, "ctor", None, None, want=0)
                elif ptr:
                    for o in vals[:2]:
                        go(f, "ctor", None, o, want=o, cleared=move)
                else:
                    for o in vals[:2]:
                        go(f, "ctor", None, None, arg=o, want=o)
            elif n.startswith("~"):
                for o in vals[:2]:
                    go(f, "dtor", o, None)
            elif n == "operator=":
                for a in vals:
                    for o in vals:
                        go(f, "assign", a, o, want=o, cleared=move)
                    if cls in t or t.replace("const ", "").strip(" &").endswith("SharedPtrIntrusive"):
                        go(f, "assign", a, a, alias=True, want=a)
            elif n == "Set":
                for a in vals:
                    for o in vals:
                        go(f, "set", a, None, arg=o, want=o)
            elif n == "Clear":
                for a in vals[:2]:
                    go(f, "clear", a, None, want=0)
            elif n == "Unwrap":
                for a in vals[:2]:
                    go(f, "unwrap", a, None, want=0)
            elif n == "Wrap":
                for a in vals[:2]:
                    go(f, "wrap", None, None, arg=a)
            else:
                seen -= 1
                res.instance(N2, "other_members")
    res.instance(N2, "members", seen)
    res.need(N2, "members", 14)
    n = 0
    for f in list(p.funcs.values()):
        if f.name in ("PrivRef", "PrivUnref") and f.cls and not f.cls.startswith("mg::box::SharedPtr"):
            if not any(RC in x[1] for x in fields_of(p, f.cls)):
                continue
            res.walk(p, Unref(f.cls), f, N3)
            n += 1
    res.instance(N3, "classes", n)
    res.need(N3, "classes", 4)


def fields_of(p, cls):
    rec = p.records.get(cls)
    return list(rec["fields"]) if rec else []
