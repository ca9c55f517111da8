"""B11: time limits."""
from ..core import check
from ..engine import deref
from ..ir import AnalysisBroken
from ..poly import add, atom, const, entails, sub
from .d_buf import Buf, T, tok

NS = "mg::box::"
THIS, OUT = ("name", "this"), ("o", ("out",))
INF = (1 << 64) - 1


def fld(r, *ns):
    for n in ns:
        r = ("f", r, n)
    return r


class Time(Buf):
    """Numbers are related by linear inequalities."""

    exact = True

    def __init__(self, op, kind=None, bits=(64, False)):
        Buf.__init__(self)
        self.op, self.kind, self.bits = op, kind, bits

    def var(self, ip, st, n, bits=(64, False)):
        ip.tinfo[tok(n)] = (bits[0], bits[1], "")
        w = bits[0] - (1 if bits[1] else 0)
        lo = -(1 << w) if bits[1] else 0
        st.rs["poly"] |= {sub(T(n), const(lo)), sub(const((1 << w) - 1), T(n))}
        return tok(n)

    def setup(self, ip, st, this, args):
        st.rs["poly"], st.rs["all"], st.rs["keep"] = frozenset(), (), (OUT,)
        self.var(ip, st, "arg", self.bits)
        self.var(ip, st, "now")
        self.var(ip, st, "value")
        if self.op in ("limit",):
            return
        if self.op.startswith("Limit"):
            st.store[fld(THIS, "myType")] = self.types["TIME_LIMIT_" + self.kind]
            # The point and the duration are in one place.
            for f in ("myPoint", "myDuration"):
                st.store[fld(THIS, f, "myValue")] = tok("value")
        elif self.op == "DurToPoint":
            st.store[fld(THIS, "myValue")] = tok("value")

    def lin(self, ip, st, v, inner=0):
        if isinstance(v, tuple) and v[0] == "op" and v[1] == "/" and isinstance(v[3], int) and v[3] > 0:
            a = self.lin(ip, st, v[2])
            if a is not None and entails(st.rs["poly"], a):
                r = atom(v)
                st.rs["poly"] |= {r, sub(a, add(const(0), r, v[3]))}
                return r
        P = st.rs["poly"]
        r = Buf.lin(self, ip, st, v, inner)
        # Once more with what is found out about the parts.
        return r if P == st.rs["poly"] else Buf.lin(self, ip, st, v, inner)

    def load(self, ip, st, r, v, fn, line):
        pass

    def store(self, ip, st, r, v, fn, line):
        pass

    def deref(self, ip, st, v, fn, line):
        pass

    def call(self, ip, st, c):
        if c.qn == NS + "GetMilliseconds":
            if self.op == "clock":
                return None
            self.count("nows")
            if st.rs.get("looked"):
                ip.report(st, "the current time is taken twice: it can change in between", c.fn, c.line)
            st.rs["looked"] = 1
            return [(st, tok("now"))]
        if c.qn.startswith("mg::box::Assert"):
            ip.report(st, "an assertion may fail", c.fn, c.line)
            return []
        if c.name == "clock_gettime":
            self.count("clocks")
            k = ip.norm(st, ip.rvalue(st, c.args[0]))
            # CLOCK_MONOTONIC, CLOCK_MONOTONIC_RAW, CLOCK_MONOTONIC_COARSE, CLOCK_BOOTTIME
            if k not in (1, 4, 6, 7):
                ip.report(st, "the clock can go back", c.fn, c.line)
            r = deref(c.args[1])
            for f, hi in (("tv_sec", 1 << 33), ("tv_nsec", 999999999)):
                ip.tinfo[tok(f)] = (64, True, "")
                st.store[fld(r, f)] = tok(f)
                st.rs["poly"] |= {T(f), sub(const(hi), T(f))}
            return [(st, 0)]
        return None

    def result(self, ip, st, val, f="myValue"):
        if isinstance(val, tuple) and val[0] == "L":
            return ip.norm(st, ip.read(st, fld(val[1], f)))
        return None

    def end(self, ip, st, val, fn, line):
        P = st.rs["poly"]

        def eq(a, b):
            return a is not None and entails(P, sub(a, b)) and entails(P, sub(b, a))

        def bad(m):
            ip.report(st, m, fn, line)
        self.count("exits")
        op = self.op
        if op == "ctor":
            v = self.lin(ip, st, ip.norm(st, ip.read(st, fld(THIS, "myValue"))))
            a = T("arg")
            if not (eq(v, a) or eq(v, const(0)) and entails(P, sub(const(0), a))):
                bad("a duration is not the given one")
            return
        if op == "limit":
            t = ip.norm(st, ip.read(st, fld(THIS, "myType")))
            if t != self.types["TIME_LIMIT_" + self.kind]:
                bad("the limit has a wrong type")
            if self.kind != "NONE":
                f = "myPoint" if self.kind == "POINT" else "myDuration"
                vs = [ip.norm(st, ip.read(st, fld(THIS, g, "myValue"))) for g in ("myPoint", "myDuration")]
                if tok("value") not in vs:
                    bad("the limit is not the given one")
            return
        if op == "clock":
            v = self.lin(ip, st, ip.norm(st, val))
            if v is None:
                bad("the time is unknown")
                return
            q = 1000 if self.kind == "ms" else 10 ** 9
            rest = sub(v, add(const(0), T("tv_sec"), q))
            n = T("tv_nsec")
            if self.kind == "ns":
                good = eq(rest, n)
            else:
                good = len(rest[0]) == 1 and rest[1] == 0 and rest[0][0][1] == 1 and self.quot(rest[0][0][0]) == (tok("tv_nsec"), 10 ** 6)
            if not good:
                    bad("the time is not the one of the clock")
            return
        v = self.lin(ip, st, self.result(ip, st, val))
        x, now = T("value"), T("now")
        if op.endswith("ToPoint") and self.kind != "POINT":
            good = eq(v, add(now, x)) or eq(v, const(INF)) and entails(P, sub(add(now, x), const(INF)))
        elif op == "LimitToDur" and self.kind == "POINT":
            good = eq(v, const(INF)) and entails(P, sub(x, const(INF))) or eq(v, const(0)) and entails(P, sub(now, x)) or \
                eq(v, sub(x, now)) and entails(P, sub(const(INF - 1), x))
        else:
            good = eq(v, x)
        if not good:
            bad("the moment is wrong" if op.endswith("Point") else "the duration till the moment is wrong")

    def quot(self, v):
        """(a, b) of a / b."""
        d = 1
        while isinstance(v, tuple):
            if v[0] == "conv":
                v = v[1]
            elif v[0] == "op" and v[1] == "/" and isinstance(v[3], int):
                d *= v[3]
                v = v[2]
            else:
                break
        return v, d


@check("B11")
def b11(res):
    rn = "time"
    res.rule(rn, "each conversion of durations, moments and limits walked with unbounded numbers: no wraps, infinity stays, a passed "
             "moment is 0 away; the clock is monotonic and its parts are added exactly.")
    p = res.prog("epoll", ("box",))
    Time.types = p.enum(NS + "TimeLimitType")
    n = 0
    for f in p.fns(NS + "TimeDuration::TimeDuration"):
        t = f.params[0][2] if len(f.params) == 1 and not f.params[0][3] else ""
        bits = {"int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False),
                "int32_t": (32, True), "uint32_t": (32, False), "int64_t": (64, True), "uint64_t": (64, False)}.get(t.replace("const ", ""))
        if bits is None:
            continue
        n += 1
        r = Time("ctor", None, bits)
        res.walk(p, r, f, rn, args=[tok("arg")], setup=r.setup)
    if n < 4:
        raise AnalysisBroken("constructors of durations")

    def go(name, op, kind, args=None, pred=lambda f: True):
        fs = [f for f in p.fns(NS + name) if pred(f)]
        if len(fs) != 1:
            raise AnalysisBroken("%d of %s" % (len(fs), name))
        r = Time(op, kind)

        def setup(ip, st, this, a):
            r.setup(ip, st, this, a)
            if args:
                st.store[fld(OUT, "myValue")] = tok("value")
        res.walk(p, r, fs[0], rn, args=args, setup=setup)
    go("TimeDuration::ToPointFromNow", "DurToPoint", "DURATION")
    for k in ("DURATION", "POINT"):
        go("TimeLimit::ToPointFromNow", "LimitToPoint", k)
        go("TimeLimit::ToDurationFromNow", "LimitToDur", k)
    go("GetMilliseconds", "clock", "ms")
    go("GetNanoseconds", "clock", "ns")
    for k, t in (("DURATION", "TimeDuration"), ("POINT", "TimePoint")):
        go("TimeLimit::TimeLimit", "limit", k, [("L", OUT)], lambda f: len(f.params) == 1 and t in f.params[0][2])
    go("TimeLimit::TimeLimit", "limit", "NONE", None, lambda f: not f.params)
    for k, m in (("exits", 15), ("nows", 3), ("clocks", 2)):
        res.need(rn, k, m)
