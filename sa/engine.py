"""Path-sensitive abstract interpreter over the extracted CFGs.

Abstract values are integers (booleans, enumerators and null included),
addresses of regions, and opaque tokens named after the place which produced
them. Facts about tokens (constants, excluded constants, bounds, outcomes of
comparisons between tokens) are collected from the branches taken. There is no
solver: a fact is either recorded literally or not known. Every path through
the CFG of an entry point, bodies of callees included, is visited; states
which are equal at the same program point are merged; values changed by a
third iteration of a loop are widened to a token, so the walk terminates."""
import sys
import time

from .ir import AnalysisBroken

sys.setrecursionlimit(20000)

INF = float("inf")

ORD = {0: "relaxed", 1: "consume", 2: "acquire", 3: "release", 4: "acq_rel", 5: "seq_cst"}


def is_acq(o):
    return o in (2, 4, 5)


def is_rel(o):
    return o in (3, 4, 5)


class Budget(AnalysisBroken):
    pass


class Enough(Exception):
    """The walk is stopped since there is what to report already."""


class State:
    __slots__ = ("store", "facts", "rs", "made", "epochs", "trace", "visits")

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.rs = {}
        self.made = set()
        self.epochs = {}
        self.trace = None
        self.visits = {}

    def copy(self):
        s = State.__new__(State)
        s.store = self.store.copy()
        s.facts = self.facts.copy()
        s.rs = self.rs.copy()
        s.made = self.made.copy()
        s.epochs = self.epochs.copy()
        s.trace = self.trace
        s.visits = self.visits.copy()
        return s

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()), frozenset(self.rs.items()),
                frozenset(self.epochs.items()))


def root_of(r):
    while r[0] in ("f", "e"):
        r = r[1]
    return r


def under(r, pre):
    """Is the region r inside of the region pre (or equal)."""
    while True:
        if r == pre:
            return True
        if r[0] in ("f", "e"):
            r = r[1]
        else:
            return False


def contains(x, y):
    """Does the term x mention y."""
    if x == y:
        return True
    if isinstance(x, tuple):
        for i in x:
            if isinstance(i, (tuple, frozenset)) and contains(i, y):
                return True
    elif isinstance(x, frozenset):
        for i in x:
            if contains(i, y):
                return True
    return False


def nameless(x):
    """Does the term depend on values which lost their names in a loop."""
    if isinstance(x, (tuple, frozenset)):
        if isinstance(x, tuple) and len(x) and x[0] in ("w", "old", "lost", "wd"):
            return True
        for i in x:
            if isinstance(i, (tuple, frozenset)) and nameless(i):
                return True
    return False


def replace(x, y, z):
    if x == y:
        return z
    if isinstance(x, tuple):
        ch = False
        res = []
        for i in x:
            if isinstance(i, (tuple, frozenset)):
                n = replace(i, y, z)
                if n is not i:
                    ch = True
                res.append(n)
            else:
                res.append(i)
        return tuple(res) if ch else x
    if isinstance(x, frozenset):
        return frozenset(replace(i, y, z) for i in x)
    return x


def replace_prefix(r, src, dst):
    if r == src:
        return dst
    if r[0] in ("f", "e"):
        b = replace_prefix(r[1], src, dst)
        if b is not None:
            return (r[0], b) + r[2:]
    return None


def addr(r):
    return r[1] if r[0] == "sym" else ("&", r)


def deref(v):
    if isinstance(v, tuple) and v[0] == "&":
        return v[1]
    return ("sym", v)


def region_str(r):
    if not isinstance(r, tuple):
        return str(r)
    if r[0] == "f":
        return region_str(r[1]) + "." + r[2]
    if r[0] == "e":
        return region_str(r[1]) + "[" + region_str(r[2]) + "]"
    if r[0] == "sym":
        return "*(" + region_str(r[1]) + ")"
    if r[0] == "v":
        return "local%s" % (r[2],)
    if r[0] == "&":
        return "&" + region_str(r[1])
    if r[0] == "ld":
        return region_str(r[1])
    if r[0] in ("g", "param", "name"):
        return str(r[1])
    return str(r[0])


class Call:
    """A call about to be made."""
    __slots__ = ("qn", "name", "cls", "id", "obj", "args", "node", "fn", "line", "ctx", "sid", "virt", "kind", "target",
                 "ip")

    def __repr__(self):
        return "<call %s at %s:%d>" % (self.qn, self.fn.file, self.line)


class Rule:
    """Base of the rules. The callbacks may modify st.rs, and report."""
    inline_depth = 40
    max_steps = 4000000
    max_loop = 2

    def __init__(self):
        self.violations = []
        self.stats = {}

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    # Return None for the default, "opaque"/"inline", or a list of (state, value).
    def call(self, ip, st, c):
        return None

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        pass

    def atomic_domain(self, ip, st, op, region):
        return None

    def load(self, ip, st, region, val, fn, line):
        pass

    def store(self, ip, st, region, val, fn, line):
        pass

    def end(self, ip, st, val, fn, line):
        pass

    def deref(self, ip, st, val, fn, line):
        pass

    def delete(self, ip, st, val, node, fn, line):
        return None

    def new(self, ip, st, region, node, fn, line):
        pass

    def enter(self, ip, st, f, ctx, this, args):
        pass

    def leave(self, ip, st, f, ctx, ret):
        pass

    def branch(self, ip, st, cond, truth, fn, line):
        pass

    widths = False      # Keep apart the steps of calculations in different widths.

    def decide(self, ip, st, cond):
        """True/False when the rule knows the outcome of a condition."""
        return None

    def want_inline(self, ip, f, c):
        return True


OPAQUE_QN = ("mg::box::LogLine", "mg::box::StringFormat", "mg::box::StringVFormat", "mg::box::Vsnprintf",
             "mg::box::StringVAppend")
ABORTS = ("mg::box::AssertS", "mg::box::AssertF", "abort", "exit", "std::terminate", "std::abort", "__assert_fail",
          "__builtin_unreachable", "__builtin_trap")
IDENT = ("std::move", "std::forward", "std::addressof", "std::__addressof", "std::as_const", "std::launder")
ATOMIC_CLS = ("std::atomic<", "std::__atomic_base<", "std::atomic_bool", "std::__atomic_float")
BITOPS = {"&", "|", "^", "<<", ">>", "%", "*", "/"}


class Interp:
    debug = False

    def __init__(self, prog, rule):
        self.p = prog
        self.rule = rule
        self.t0 = time.time()
        self.is_known = lambda v: False
        self.ctxs = {}
        self.ctxinfo = [None]
        self.types = {}       # region -> dynamic class name
        self.logic_blocks = {}
        self.gconst = {}      # constants
        self.tinfo = {}       # token -> (width, signed)
        self.steps = 0
        self.funcs_seen = set()
        self.opaque_seen = {}
        self.paths = 0
        self.frames = []
        self.reported = set()

    # ------------------------------------------------------------------ misc
    def ctx(self, parent, sid, f):
        k = (parent, sid, f.id)
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxinfo)
            self.ctxs[k] = c
            self.ctxinfo.append((parent, sid, f))
        return c

    def stack(self):
        return [f for f, _, _ in self.frames]

    def report(self, st, msg, fn, line, key=None):
        k = (msg, fn.file if fn else "", line) if key is None else key
        if k in self.reported:
            return
        self.reported.add(k)
        tr = []
        t = st.trace
        while t is not None and len(tr) < 60:
            tr.append(t[1])
            t = t[0]
        tr.reverse()
        self.rule.violations.append({
            "msg": msg, "file": fn.file if fn else "", "line": line, "function": fn.qn if fn else "",
            "entry": self.frames[0][0].qn if self.frames else "", "stack": [f.qn for f, _, _ in self.frames],
            "trace": ["%s:%d %s" % x for x in tr]})

    def note(self, st, fn, line, text):
        st.trace = (st.trace, (fn.file, line, text))

    # ----------------------------------------------------------------- facts
    def bounds(self, st, v):
        if isinstance(v, int):
            return (v, v)
        f = st.facts.get(v)
        lo, hi = -INF, INF
        t = self.tinfo.get(v)
        if t is not None and not t[1]:
            lo = 0
            if t[0] == 8 and len(t) > 2 and t[2] == "bool":
                hi = 1
        if f is not None and f[0] == "b":
            lo = max(lo, f[1])
            hi = min(hi, f[2])
        if isinstance(v, tuple):
            if v[0] == "op" and v[1] == "+" and isinstance(v[3], int):
                l, h = self.bounds(st, v[2])
                lo = max(lo, l + v[3])
                hi = min(hi, h + v[3])
            elif v[0] == "op" and v[1] == "*":
                l, h = self.bounds(st, v[2])
                l2, h2 = self.bounds(st, v[3])
                if l >= 0 and l2 >= 0:
                    lo = max(lo, l * l2)
                    if h < INF and h2 < INF:
                        hi = min(hi, h * h2)
            elif v[0] == "op" and v[1] == "/" and isinstance(v[3], int) and v[3] > 0:
                l, h = self.bounds(st, v[2])
                if l >= 0:
                    lo = max(lo, l // v[3] if l < INF else l)
                    hi = min(hi, h // v[3] if h < INF else h)
            elif v[0] == "op" and v[1] == "%" and isinstance(v[3], int) and v[3] > 0:
                l, h = self.bounds(st, v[2])
                if l >= 0:
                    lo = max(lo, 0)
                    hi = min(hi, h, v[3] - 1)
            elif v[0] == "conv":
                l, h = self.bounds(st, v[1])
                m = (-(1 << v[2] - 1), (1 << v[2] - 1) - 1) if v[3] else (0, (1 << v[2]) - 1)
                if m[0] <= l and h <= m[1]:
                    lo, hi = max(lo, l), min(hi, h)
            elif v[0] == "&" or v[0] == "fn" or v[0] == "str":
                lo = max(lo, 1)
        return (lo, hi)

    def norm(self, st, v):
        if isinstance(v, tuple):
            f = st.facts.get(v)
            if isinstance(f, tuple) and f[0] == "b" and f[1] == f[2]:
                return int(f[1])
        return v

    def excluded(self, st, v):
        f = st.facts.get(v)
        if f is not None and f[0] == "b":
            return f[3]
        return frozenset()

    def refine(self, st, v, lo=-INF, hi=INF, ne=None):
        """Add bounds/exclusions for a term. False when contradictory."""
        if isinstance(v, int):
            return lo <= v <= hi and v != ne
        if isinstance(v, tuple) and v[0] == "op" and v[1] == "+" and isinstance(v[3], int):
            return self.refine(st, v[2], lo - v[3], hi - v[3], None if ne is None else ne - v[3])
        if isinstance(v, tuple) and v[0] in ("cmp", "not"):
            # Boolean terms.
            can1 = lo <= 1 <= hi and ne != 1
            can0 = lo <= 0 <= hi and ne != 0
            if can1 and can0:
                return True
            if can1:
                return self.assume(st, v, True)
            if can0:
                return self.assume(st, v, False)
            return False
        l, h = self.bounds(st, v)
        ex = self.excluded(st, v)
        lo = max(lo, l)
        hi = min(hi, h)
        if ne is not None:
            ex = ex | {ne}
        while lo in ex:
            lo += 1
        while hi in ex:
            hi -= 1
        if lo > hi:
            return False
        ex = frozenset(x for x in ex if lo < x < hi)
        st.facts[v] = ("b", lo, hi, ex)
        if lo == hi and l != h:
            # What was known relatively to the term is known relatively to its value.
            for f, truth in list(st.facts.items()):
                if f[0] != "cmp" or (f[2] != v and f[3] != v) or f not in st.facts:
                    continue
                x = f[3] if f[2] == v else f[2]
                if isinstance(x, int) or x == v:
                    continue
                if f[1] == "==":
                    ok = self.refine(st, x, lo, lo) if truth else self.refine(st, x, ne=lo)
                elif f[2] == v:
                    ok = self.refine(st, x, lo=lo + 1) if truth else self.refine(st, x, hi=lo)
                else:
                    ok = self.refine(st, x, hi=lo - 1) if truth else self.refine(st, x, lo=lo)
                if not ok:
                    return False
        return True

    def eq(self, st, a, b):
        """True/False/None"""
        a = self.norm(st, a)
        b = self.norm(st, b)
        if a == b:
            return True
        if isinstance(a, int) and isinstance(b, int):
            return False
        if isinstance(b, tuple) and isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            lo, hi = self.bounds(st, a)
            if b < lo or b > hi:
                return False
            if b in self.excluded(st, a):
                return False
            if a[0] == "op" and a[1] == "+" and isinstance(a[3], int):
                return self.eq(st, a[2], b - a[3])
            return None
        if a[0] == "fn" and b[0] == "fn":
            return a[1] == b[1]
        if a[0] == "&" and b[0] == "&":
            ra, rb = a[1], b[1]
            return self.region_eq(ra, rb)
        if a[0] == "&" or b[0] == "&":
            x, y = (a, b) if a[0] == "&" else (b, a)
            rx = root_of(x[1])
            if rx[0] in ("v", "o") and y[0] == "ld" and y[2] == ():
                if root_of(y[1])[0] in ("sym", "g", "name", "param"):
                    return False
        # Same base, different offsets.
        ba, oa = self.split(a)
        bb, ob = self.split(b)
        if ba == bb and isinstance(oa, int) and isinstance(ob, int):
            return oa == ob
        la, ha = self.bounds(st, a)
        lb, hb = self.bounds(st, b)
        if ha < lb or hb < la:
            return False
        k = self.eqkey(a, b)
        f = st.facts.get(k)
        if f is None:
            # The order could change when the terms were renamed.
            f = st.facts.get(("cmp", "==", k[3], k[2]))
        if f is not None:
            return f
        # x < b <= x + 1
        for x, y in ((a, b), (b, a)):
            if x[0] == "op" and x[1] == "+" and x[3] == 1 and st.facts.get(("cmp", "<", x, y)) is False and \
                    self.lt(st, x[2], y) is True:
                return True
        if st.facts.get(("cmp", "<", a, b)) or st.facts.get(("cmp", "<", b, a)):
            return False
        return None

    def region_eq(self, ra, rb):
        if ra == rb:
            return True
        if ra[0] == "f" and rb[0] == "f":
            if ra[2] == rb[2]:
                return self.region_eq(ra[1], rb[1])
            return False
        if ra[0] == "e" and rb[0] == "e" and isinstance(ra[2], int) and isinstance(rb[2], int):
            if ra[2] == rb[2]:
                return self.region_eq(ra[1], rb[1])
            if ra[1] == rb[1]:
                return False
        qa, qb = root_of(ra), root_of(rb)
        if qa != qb and qa[0] in ("v", "o", "g", "name") and qb[0] in ("v", "o", "g", "name"):
            return False
        if qa == qb and ra[0] != "e" and rb[0] != "e" and (qa == ra or qb == rb):
            return False
        return None

    def split(self, v):
        if isinstance(v, tuple) and v[0] == "op" and v[1] == "+" and isinstance(v[3], int):
            return v[2], v[3]
        return v, 0

    def eqkey(self, a, b):
        if repr(a) > repr(b):
            a, b = b, a
        return ("cmp", "==", a, b)

    def lt(self, st, a, b):
        a = self.norm(st, a)
        b = self.norm(st, b)
        if a == b:
            return False
        la, ha = self.bounds(st, a)
        lb, hb = self.bounds(st, b)
        if ha < lb:
            return True
        if la >= hb:
            return False
        ba, oa = self.split(a)
        bb, ob = self.split(b)
        if ba == bb:
            return oa < ob
        f = st.facts.get(("cmp", "<", a, b))
        if f is not None:
            return f
        if st.facts.get(("cmp", "<", b, a)):
            return False
        if isinstance(a, tuple) and isinstance(b, tuple) and (
                st.facts.get(("cmp", "==", a, b)) or st.facts.get(("cmp", "==", b, a))):
            return False
        return None

    def cmpv(self, st, op, a, b):
        """Value of a comparison: 0/1 or a canonical term."""
        if op == "==":
            r = self.eq(st, a, b)
            if r is not None:
                return int(r)
            a, b = self.norm(st, a), self.norm(st, b)
            if isinstance(a, int):
                a, b = b, a
            if not isinstance(b, int):
                return self.eqkey(a, b)
            if b == 0 and isinstance(a, tuple) and a[0] in ("cmp", "not"):
                return self.notv(a)
            return ("cmp", "==", a, b)
        if op == "!=":
            return self.notv(self.cmpv(st, "==", a, b))
        if op == "<":
            r = self.lt(st, a, b)
            if r is not None:
                return int(r)
            return ("cmp", "<", self.norm(st, a), self.norm(st, b))
        if op == ">":
            return self.cmpv(st, "<", b, a)
        if op == ">=":
            return self.notv(self.cmpv(st, "<", a, b))
        if op == "<=":
            return self.notv(self.cmpv(st, "<", b, a))
        return None

    def notv(self, v):
        if isinstance(v, int):
            return int(not v)
        if v[0] == "not":
            return v[1]
        if v[0] == "cmp":
            return ("not", v)
        return ("not", v)

    def truth(self, st, v):
        v = self.norm(st, v)
        if isinstance(v, int):
            return v != 0
        if v is None:
            return None
        if v[0] == "not":
            r = self.truth(st, v[1])
            return None if r is None else not r
        if v[0] == "cmp":
            r = self.eq(st, v[2], v[3]) if v[1] == "==" else self.lt(st, v[2], v[3])
            return r
        if v[0] in ("&", "fn", "str"):
            return True
        r = self.eq(st, v, 0)
        return None if r is None else not r

    def assume(self, st, v, truth):
        """Record that v is true/false. Returns False when infeasible."""
        t = self.truth(st, v)
        if t is not None:
            return t == truth
        if v is None:
            return True
        if v[0] == "not":
            return self.assume(st, v[1], not truth)
        if v[0] == "cmp":
            a, b = v[2], v[3]
            if v[1] == "==":
                if isinstance(b, int):
                    if truth:
                        return self.refine(st, a, b, b)
                    return self.refine(st, a, ne=b)
                if truth:
                    # Propagate known bounds both ways.
                    la, ha = self.bounds(st, a)
                    lb, hb = self.bounds(st, b)
                    if not self.refine(st, a, lb, hb) or not self.refine(st, b, la, ha):
                        return False
                st.facts[self.eqkey(a, b)] = truth
                return True
            # a < b
            a, b = self.norm(st, a), self.norm(st, b)
            if truth:
                la, _ = self.bounds(st, a)
                _, hb = self.bounds(st, b)
                if not isinstance(a, int) and hb != INF and not self.refine(st, a, hi=hb - 1):
                    return False
                if not isinstance(b, int) and la != -INF and not self.refine(st, b, lo=la + 1):
                    return False
            else:
                # a >= b
                lb, _ = self.bounds(st, b)
                _, ha = self.bounds(st, a)
                if not isinstance(a, int) and lb != -INF and not self.refine(st, a, lo=lb):
                    return False
                if not isinstance(b, int) and ha != INF and not self.refine(st, b, hi=ha):
                    return False
            if not isinstance(a, int) and not isinstance(b, int):
                st.facts[("cmp", "<", a, b)] = truth
            return True
        if truth:
            return self.refine(st, v, ne=0)
        return self.refine(st, v, 0, 0)

    def iff(self, st, val, cond):
        """Is the boolean value the same as what cond(state) tells, in both outcomes."""
        if val is None:
            return False
        for want in (True, False):
            s = st.copy()
            if self.assume(s, val, want) and cond(s) is not want:
                return False
        return True

    # ----------------------------------------------------------------- store
    def fresh(self, st, site):
        """Make the site's token new: an older value of the same site gets another name."""
        if site in st.made:
            old = ("old", site)
            lost = ("lost", site)

            def stale(x):
                return contains(x, old)

            def age(x):
                if isinstance(x, (tuple, frozenset)):
                    if stale(x):
                        x = replace(x, old, lost)
                    # The name is a part of its aged version.
                    return replace(replace(replace(x, lost, ("L0",)), site, old), ("L0",), lost)
                return x
            st.facts = {age(k): (age(v) if isinstance(v, tuple) and v[0] != "b" else v)
                        for k, v in st.facts.items() if not stale(k) and not contains(k, lost)}
            st.store = {age(k): age(v) for k, v in st.store.items()
                        if not (stale(k) and k[0] != "x")}
            rs = {age(k) if isinstance(k, tuple) else k: age(v) for k, v in st.rs.items()}
            st.rs.clear()
            st.rs.update(rs)
            st.epochs = {age(k): age(v) for k, v in st.epochs.items() if not stale(k)}
        else:
            st.made.add(site)
        return site

    def tok(self, st, site, ti=None):
        t = ("t", self.fresh(st, site))
        self.settype(t, ti)
        return t

    def settype(self, t, ti):
        if ti is not None and len(ti) >= 3 and t not in self.tinfo:
            self.tinfo[t] = (ti[1], ti[2], "bool" if ti[0] in ("bool", "_Bool") else "")

    def epoch(self, st, r):
        res = []
        while True:
            e = st.epochs.get(r)
            if e is not None:
                res.append(e)
            if r[0] in ("f", "e"):
                r = r[1]
            else:
                break
        return tuple(res)

    def read(self, st, r, ti=None):
        v = st.store.get(r)
        if v is not None:
            return self.norm(st, v)
        v = self.gconst.get(r)
        if v is not None:
            return v
        # Aggregate defaults.
        q = r
        while True:
            d = st.store.get(("dfl", q))
            if d is not None:
                if d == 0:
                    return 0
                src = replace_prefix(r, q, d[1])
                if src in self.gconst:
                    return self.gconst[src]
                t = ("ld", src, d[2])
                self.settype(t, ti)
                return self.norm(st, t)
            if q[0] in ("f", "e"):
                q = q[1]
            else:
                break
        t = ("ld", r, self.epoch(st, r))
        self.settype(t, ti)
        return self.norm(st, t)

    def drop_under(self, st, r):
        dead = [k for k in st.store if k[0] in ("f", "e", "v", "g", "o", "sym", "dfl", "name") and
                under(k[1] if k[0] == "dfl" else k, r)]
        for k in dead:
            del st.store[k]
        for k in [k for k in st.epochs if under(k, r)]:
            del st.epochs[k]

    def write(self, st, r, v):
        if isinstance(v, tuple) and v[0] == "L":
            self.copy_region(st, v[1], r)
            return
        if r[0] == "v" and not isinstance(v, tuple):
            st.store[r] = v
            return
        st.store[r] = v

    def copy_region(self, st, src, dst):
        if src == dst:
            return
        binds = []
        for k, v in st.store.items():
            if k[0] == "dfl":
                if under(k[1], src):
                    binds.append((("dfl", replace_prefix(k[1], src, dst)), v))
            elif k[0] in ("f", "e") or k == src:
                if under(k, src):
                    binds.append((replace_prefix(k, src, dst), v))
        dfl = None
        if ("dfl", src) not in st.store:
            q = src
            while q[0] in ("f", "e"):
                q = q[1]
                d = st.store.get(("dfl", q))
                if d is not None:
                    dfl = 0 if d == 0 else ("from", replace_prefix(src, q, d[1]), d[2])
                    break
            if dfl is None:
                dfl = ("from", src, self.epoch(st, src))
        self.drop_under(st, dst)
        if dfl is not None:
            st.store[("dfl", dst)] = dfl
        for k, v in binds:
            st.store[k] = v

    def havoc(self, st, r, site):
        self.drop_under(st, r)
        st.epochs[r] = self.fresh(st, ("hv", site))

    # ------------------------------------------------------------------- gc
    def gc(self, st, keepvals=()):
        """Forget facts which can not be asked about any more."""
        live = set()

        def walk(x):
            if isinstance(x, tuple):
                if x in live:
                    return
                live.add(x)
                for i in x:
                    if isinstance(i, (tuple, frozenset)):
                        walk(i)
            elif isinstance(x, frozenset):
                for i in x:
                    walk(i)
        for k, v in st.store.items():
            walk(k)
            walk(v)
        for k, v in st.rs.items():
            walk(k)
            walk(v)
        for v in keepvals:
            walk(v)

        def alive(t):
            if not isinstance(t, tuple):
                return True
            if t in live or not t:
                return True
            if t[0] == "ld":
                # May be loaded again?
                r = t[1]
                rt = root_of(r)
                if rt[0] in ("g", "name", "param") or (rt[0] == "sym" and alive(rt[1])) or rt in live:
                    return r not in st.store and self.epoch(st, r) == t[2]
                return False
            if t[0] in ("cmp", "op", "not"):
                return all(alive(x) for x in t[1:] if isinstance(x, tuple))
            if t[0] == "pure":
                return all(alive(x) for x in t[2:] if isinstance(x, tuple))
            if t[0] in ("&",):
                rt = root_of(t[1])
                return rt[0] in ("g", "name") or rt in live
            return False
        st.facts = {k: v for k, v in st.facts.items() if alive(k)}
        dead = []
        for k in st.epochs:
            rt = root_of(k)
            if rt[0] == "sym" and not alive(rt[1]):
                dead.append(k)
        for k in dead:
            del st.epochs[k]

    # ------------------------------------------------------------- execution
    def run(self, f, st, ctx, this, args):
        """Walk all paths of f. Returns [(state, return value)]."""
        rule = self.rule
        self.funcs_seen.add(f.id)
        self.frames.append((f, ctx, this))
        if len(self.frames) > 200:
            raise Budget("inlining too deep at " + f.qn)
        st.store[("this", ctx)] = this
        for i, pr in enumerate(f.params):
            if i >= len(args):
                continue
            r = ("v", ctx, pr[0])
            v = args[i]
            if isinstance(v, tuple) and v[0] == "L":
                if pr[3]:
                    st.store[r] = addr(v[1])
                else:
                    st.store[("alias", r)] = v[1]
            elif pr[3]:
                # A reference bound to a value without own region.
                t = ("o", ("parg", ctx, pr[0]))
                st.store[t] = v
                st.store[r] = ("&", t)
            else:
                st.store[r] = v
        rule.enter(self, st, f, ctx, this, args)
        results = []
        seen_ret = set()
        visited = set()
        work = [(f.entry, 0, st)]
        while work:
            bid, idx, st = work.pop()
            b = f.blocks[bid]
            if idx == 0:
                if not self.enter_block(f, ctx, bid, st, visited):
                    continue
            self.steps += 1
            if self.steps & 255 == 0:
                self.check_limits()
            if self.steps > rule.max_steps:
                raise Budget("state budget exceeded in " + self.frames[0][0].qn + " at " + f.qn)
            dead = False
            n = len(b.insts)
            while idx < n:
                sid, node, line = b.insts[idx]
                idx += 1
                out = self.step(st, f, ctx, sid, node, line)
                if out is None:
                    continue
                if not out:
                    dead = True
                    break
                # The state was split.
                for s2 in out[1:]:
                    work.append((bid, idx if idx > 0 else 0, s2) if idx else (bid, idx, s2))
                st = out[0]
            if dead or b.noret:
                continue
            if bid == f.exit:
                rv = st.store.pop(("retval", ctx), None)
                self.leave_frame(f, ctx, st, rv)
                rule.leave(self, st, f, ctx, rv)
                k = (rv, st.key())
                if k in seen_ret:
                    continue
                seen_ret.add(k)
                results.append((st, rv))
                continue
            self.branch(f, ctx, b, st, work)
        self.frames.pop()
        return results

    # Wall clock of the whole process: the checks must always answer in time.
    START = time.time()
    LIMIT = 780
    LIMIT_FOUND = 60

    def check_limits(self):
        """A broken program may have far more states than the intact one. What is
        found is reported without waiting for the rest of the walk."""
        now = time.time()
        if self.rule.violations and (now - self.t0 > self.LIMIT_FOUND or len(self.rule.violations) > 30):
            if any(not self.is_known(v) for v in self.rule.violations):
                raise Enough("enough violations are found")
        if now - Interp.START > self.LIMIT:
            raise Budget("out of time in " + self.frames[0][0].qn)

    def enter_block(self, f, ctx, bid, st, visited):
        # Drop values of expressions and variables which are dead now.
        cross = f.cross[bid]
        reach = f.reach_vars[bid]
        dead = []
        for k in st.store:
            t = k[0]
            if t == "x":
                if k[1] == ctx and k[2] not in cross:
                    dead.append(k)
            elif t == "v":
                if k[1] == ctx and k[2] not in reach:
                    dead.append(k)
            elif t == "o":
                # A temporary object.
                if k[1][0] == "mat" and k[1][1] == ctx:
                    dead.append(k)
        if dead:
            pts = None
            for k in dead:
                if k[0] in ("v", "o"):
                    if pts is None:
                        pts = set()
                        for v in st.store.values():
                            if isinstance(v, tuple) and v[0] in ("&", "L"):
                                pts.add(root_of(v[1]))
                        for v in st.rs.values():
                            self.collect_ptrs(v, pts)
                    if k in pts:
                        continue
                del st.store[k]
        # Widening.
        vk = (ctx, bid)
        cnt, snap = st.visits.get(vk, (0, None))
        head = bid in f.heads
        if cnt >= self.rule.max_loop and snap is not None and head:
            self.widen(st, snap, ctx, bid)
        if cnt > 20 and self.debug:
            print("BLOCK", f.qn, bid, cnt)
            for k, v in sorted(st.store.items(), key=repr):
                print("   ", k, "=", v)
            print("   rs", st.rs)
            print("   facts", st.facts)
        if cnt > 60:
            raise Budget("a loop does not converge in %s" % f.qn)
        if head or cnt or f.blocks[bid].insts:
            st.visits[vk] = (cnt + 1, st.store.copy() if head and cnt + 1 >= self.rule.max_loop else None)
        self.gc(st)
        k = (bid, st.key())
        if k in visited:
            return False
        visited.add(k)
        return True

    def collect_ptrs(self, v, pts):
        if isinstance(v, tuple):
            if len(v) and v[0] in ("&", "L") and len(v) == 2 and isinstance(v[1], tuple):
                pts.add(root_of(v[1]))
            for i in v:
                self.collect_ptrs(i, pts)
        elif isinstance(v, frozenset):
            for i in v:
                self.collect_ptrs(i, pts)

    def rename(self, st, old, new):
        """Give another name to a term in the whole state."""
        st.store = {(replace(k, old, new) if isinstance(k, tuple) else k): replace(v, old, new)
                    for k, v in st.store.items()}
        st.facts = {replace(k, old, new): (replace(v, old, new) if isinstance(v, tuple) and v[0] != "b" else v)
                    for k, v in st.facts.items()}
        rs = {replace(k, old, new) if isinstance(k, tuple) else k: replace(v, old, new)
              for k, v in st.rs.items()}
        st.rs.clear()
        st.rs.update(rs)
        st.epochs = {replace(k, old, new): replace(v, old, new) for k, v in st.epochs.items()}

    def widen(self, st, snap, ctx, bid):
        """Values changed by the loop become anonymous; equal ones stay equal."""
        self.forget_anonymous(st)
        done = set()
        for k, v in list(st.store.items()):
            if k[0] in ("alias", "this", "retval", "sel", "x", "dfl"):
                continue
            if k not in snap or snap[k] == v:
                continue
            v = st.store.get(k)
            if v is None or snap[k] == v:
                continue
            if self.is_anonymous(k):
                del st.store[k]
                st.epochs[k] = self.fresh(st, ("wd", ctx, bid))
                continue
            site = ("w", ctx, bid, k)
            if v == ("t", site) or v in done:
                continue
            low = None
            if isinstance(v, int) or v[0] == "op":
                # A bound which holds for two iterations in a row is kept.
                a = self.bounds(st, snap[k])[0] if isinstance(snap[k], int) or (
                    isinstance(snap[k], tuple) and snap[k][0] in ("t", "op", "ld")) else -INF
                if a > -INF and self.bounds(st, v)[0] >= a:
                    low = a
            t = ("t", self.fresh(st, site))
            done.add(t)
            v = st.store.get(k)
            if v is None:
                continue
            if low is not None:
                b = st.facts.get(t, ("b", -INF, INF, frozenset()))
                if low > b[1]:
                    st.facts[t] = ("b", low, b[2], b[3])
            if isinstance(v, int) or v[0] == "op":
                # What is known about it relatively to other values.
                for x, b in list(st.facts.items()):
                    if b and isinstance(b, tuple) and b[0] == "b" and x != t and x != v and x[0] in ("ld", "t"):
                        if self.lt(st, v, x) is False:
                            if b[1] != b[2]:
                                st.facts[("cmp", "<", t, x)] = False
                        elif isinstance(v, int) and self.lt(st, v, x) is True:
                            if b[1] != b[2]:
                                st.facts[("cmp", "<", t, x)] = True
                            else:
                                o = st.facts.get(t, ("b", -INF, INF, frozenset()))
                                st.facts[t] = ("b", o[1], min(o[2], b[1] - 1), o[3])
            if isinstance(v, int) or v[0] in ("fn", "str", "cmp", "not"):
                st.store[k] = t
                continue
            if v[0] == "&":
                rt = root_of(v[1])
                if rt[0] == "sym" and isinstance(rt[1], tuple):
                    self.rename(st, rt[1], t)
                else:
                    st.store[k] = t
                continue
            self.rename(st, v, t)
        self.forget_anonymous(st)

    @staticmethod
    def is_anonymous(k):
        """Memory reachable only via values which lost their names."""
        rt = root_of(k[1] if k[0] == "dfl" else k)
        return rt[0] == "sym" and nameless(rt[1])

    def forget_anonymous(self, st):
        anon = {}
        for k in st.store:
            if k[0] in ("f", "e", "dfl", "sym") and self.is_anonymous(k):
                anon.setdefault(root_of(k[1] if k[0] == "dfl" else k)[1], []).append(k)
        for k in st.epochs:
            if k[0] in ("f", "e", "sym") and self.is_anonymous(k):
                anon.setdefault(root_of(k)[1], [])
        if not anon:
            return
        live = set()
        work = []

        def mention(x):
            if isinstance(x, tuple):
                if x in anon:
                    if x not in live:
                        live.add(x)
                        work.append(x)
                for i in x:
                    if isinstance(i, (tuple, frozenset)):
                        mention(i)
            elif isinstance(x, frozenset):
                for i in x:
                    mention(i)
        for k, v in st.store.items():
            if k[0] in ("f", "e", "dfl", "sym") and self.is_anonymous(k):
                continue
            mention(v)
        for k, v in st.rs.items():
            mention(v)
            mention(k)
        while work:
            for k in anon[work.pop()]:
                mention(st.store[k])
        for t, ks in anon.items():
            if t not in live:
                for k in ks:
                    del st.store[k]
                for k in [k for k in st.epochs if root_of(k) == ("sym", t)]:
                    del st.epochs[k]

    def leave_frame(self, f, ctx, st, rv):
        keep = set()
        self.collect_ptrs(rv, keep)
        for k in [k for k in st.store if (k[0] in ("x", "v", "this", "sel", "retval") and k[1] == ctx)]:
            if k[0] == "v" and k in keep:
                continue
            del st.store[k]
        for k in [k for k in st.store if k[0] == "alias" and k[1][1] == ctx]:
            del st.store[k]
        # Sub-regions of dead locals.
        roots = None
        dead = []
        for k in st.store:
            if k[0] in ("f", "e", "dfl"):
                rt = root_of(k[1] if k[0] == "dfl" else k)
                if (rt[0] == "v" and rt[1] == ctx and rt not in keep):
                    dead.append(k)
        for k in dead:
            del st.store[k]
        for k in [k for k in st.visits if k[0] == ctx]:
            del st.visits[k]
        for k in [k for k in st.epochs if root_of(k)[0] == "v" and root_of(k)[1] == ctx]:
            del st.epochs[k]
        # (The object of a constructor is not referred to by the caller yet.)
        self.drop_garbage(st, (rv, self.frames[-1][2]) if f.kind == "ctor" else rv)
        self.gc(st, (rv,))

    def drop_garbage(self, st, rv):
        """Temporaries nobody refers to any more."""
        roots = set()
        objs = {}
        for k, v in st.store.items():
            if k[0] in ("f", "e", "o", "dfl"):
                rt = root_of(k[1] if k[0] == "dfl" else k)
                if rt[0] == "o":
                    objs.setdefault(rt, []).append(k)
        if not objs:
            return
        work = []

        def mention(x):
            if isinstance(x, tuple):
                if x in objs and x not in roots:
                    roots.add(x)
                    work.append(x)
                for i in x:
                    if isinstance(i, (tuple, frozenset)):
                        mention(i)
            elif isinstance(x, frozenset):
                for i in x:
                    mention(i)
        mention(rv)
        for k, v in st.store.items():
            rt = root_of(k[1] if k[0] == "dfl" else k) if k[0] in ("f", "e", "o", "dfl") else None
            if rt is not None and rt[0] == "o":
                continue
            mention(v)
            mention(k)
        for k, v in st.rs.items():
            mention(v)
            mention(k)
        while work:
            o = work.pop()
            for k in objs[o]:
                mention(st.store[k])
        for o, ks in objs.items():
            if o not in roots:
                for k in ks:
                    del st.store[k]
                for k in [k for k in st.epochs if root_of(k) == o]:
                    del st.epochs[k]

    def branch(self, f, ctx, b, st, work):
        t = b.term
        succ = b.succ
        if t is None or (len(succ) == 1):
            for s in succ:
                if s is not None:
                    work.append((s, 0, st))
            return
        k = t["k"]
        line = t.get("line", 0)
        if k == "TempDtor":
            key = ("x", ctx, t.get("s"))
            i = 0 if key in st.store else 1
            if i < len(succ) and succ[i] is not None:
                work.append((succ[i], 0, st))
            return
        if k == "SwitchStmt":
            v = self.norm(st, self.rv(st, f, ctx, t["c"], line))
            rest = st.copy()
            restok = True
            for i, c in enumerate(t["cases"]):
                if c[0] == "default":
                    continue
                s2 = st.copy()
                if c[0] == c[1]:
                    ok = self.assume(s2, self.cmpv(s2, "==", v, c[0]), True)
                    restok = restok and self.assume(rest, self.cmpv(rest, "==", v, c[0]), False)
                else:
                    ok = True
                if ok and succ[i] is not None:
                    self.note(s2, f, line, "switch -> case %s" % (c[0],))
                    work.append((succ[i], 0, s2))
            for i, c in enumerate(t["cases"]):
                if c[0] == "default" and restok and succ[i] is not None:
                    self.note(rest, f, line, "switch -> default")
                    work.append((succ[i], 0, rest))
            return
        if "c" not in t:
            for s in succ:
                if s is not None:
                    work.append((s, 0, st.copy()))
            return
        v = self.rv(st, f, ctx, t["c"], line)
        tr = self.truth(st, v)
        if tr is None:
            tr = self.rule.decide(self, st, v)
        for i, want in ((1, False), (0, True)):
            if tr is not None and tr != want:
                continue
            if i >= len(succ) or succ[i] is None:
                continue
            s2 = st.copy() if tr is None else st
            if tr is None:
                if not self.assume(s2, v, want):
                    continue
                self.note(s2, f, line, "%s -> %s" % (k, "true" if want else "false"))
                self.rule.branch(self, s2, v, want, f, line)
            if "s" in t and k in ("&&", "||", "ConditionalOperator", "BinaryConditionalOperator"):
                if k == "&&":
                    if not want:
                        s2.store[("sel", ctx, t["s"])] = 0
                elif k == "||":
                    if want:
                        s2.store[("sel", ctx, t["s"])] = 1
                else:
                    s2.store[("sel", ctx, t["s"])] = int(want)
            elif k in ("&&", "||") and want == (k == "||") and self.has_logic(f, succ[i]):
                # A nested operator whose value is decided goes right to the end of the outer one.
                s2.store[("sel", ctx, ("lhs", t["c"]))] = int(want)
            work.append((succ[i], 0, s2))

    def has_logic(self, f, bid):
        r = self.logic_blocks.get((f.id, bid))
        if r is None:
            def find(x):
                return isinstance(x, (tuple, list)) and ((len(x) > 0 and x[0] == "logic") or any(find(i) for i in x))
            r = self.logic_blocks[(f.id, bid)] = any(find(i) for i in f.blocks[bid].insts)
        return r

    def logic_sel(self, st, ctx, n):
        """What a logical operator evaluated not until the end gave."""
        s = st.store.pop(("sel", ctx, ("lhs", n[2])), None)
        if isinstance(n[2], tuple) and n[2][0] == "logic":
            x = self.logic_sel(st, ctx, n[2])
            if s is None and x is not None and x == (n[1] == "||"):
                s = x
        return s

    # ------------------------------------------------------------ statements
    def rv(self, st, f, ctx, ref, line):
        """Value of an operand."""
        if isinstance(ref, int):
            v = st.store.get(("x", ctx, ref))
            return v
        if ref is None:
            return None
        out = self.ev(st, f, ctx, 0, ref, line)
        if isinstance(out, list):
            # A nested splitting expression - only happens for expressions
            # which are not CFG elements. Take the first.
            if not out:
                return None
            return out[0][1]
        return out

    def region_of(self, v):
        """Region of a glvalue."""
        if isinstance(v, tuple) and v[0] == "L":
            return v[1]
        return ("sym", v)

    def step(self, st, f, ctx, sid, node, line):
        """Execute an element. None - the state was modified in place, or a list of states."""
        op = node[0]
        if op == "decl":
            for d in node[1]:
                did, name, typ, isref, static, init, sname = d
                r = ("v", ctx, did)
                if static:
                    st.store[("alias", r)] = ("g", sname)
                    continue
                v = self.rv(st, f, ctx, init, line) if init is not None else None
                if v == ("L", r):
                    # Constructed in place.
                    continue
                st.store.pop(("alias", r), None)
                self.drop_under(st, r)
                if init is None:
                    continue
                if isref:
                    if isinstance(v, tuple) and v[0] == "L":
                        st.store[r] = addr(v[1])
                    else:
                        t = ("o", ("refinit", ctx, did))
                        st.store[t] = v if v is not None else ("t", ("undef",))
                        st.store[r] = ("&", t)
                elif isinstance(v, tuple) and v[0] == "L":
                    if v[1] != r:
                        if v[1][0] == "o":
                            st.store[("alias", r)] = v[1]
                        else:
                            self.copy_region(st, v[1], r)
                elif v is not None:
                    st.store[r] = v
                    self.rule.store(self, st, r, v, f, line)
            return None
        if op == "ret":
            if len(node) > 1:
                v = self.rv(st, f, ctx, node[1], line)
                if v is not None:
                    st.store[("retval", ctx)] = v
            self.note(st, f, line, "return")
            return None
        if op == "init":
            return self.do_init(st, f, ctx, node, line)
        if op == "dtor":
            return self.do_dtor(st, f, ctx, node, line)
        v = self.ev(st, f, ctx, sid, node, line)
        if isinstance(v, list):
            res = []
            for s2, x in v:
                if sid:
                    if x is None:
                        s2.store.pop(("x", ctx, sid), None)
                    else:
                        s2.store[("x", ctx, sid)] = x
                res.append(s2)
            return res
        if sid:
            if v is None:
                st.store.pop(("x", ctx, sid), None)
            else:
                st.store[("x", ctx, sid)] = v
        return None

    def do_init(self, st, f, ctx, node, line):
        _, kind, name, cls, typ, isref, init = node
        this = st.store.get(("this", ctx))
        v = self.rv(st, f, ctx, init, line)
        if kind != "field":
            return None
        r = ("f", deref(this), name)
        if isref:
            if isinstance(v, tuple) and v[0] == "L":
                st.store[r] = addr(v[1])
            return None
        if isinstance(v, tuple) and v[0] == "L":
            if v[1] != r:
                self.copy_region(st, v[1], r)
            return None
        if v is not None:
            st.store[r] = v
            self.rule.store(self, st, r, v, f, line)
        return None

    def do_dtor(self, st, f, ctx, node, line):
        kind, what, fn = node[1], node[2], node[3]
        if kind == "var":
            r = self.var_region(st, ctx, what)
        elif kind == "temp":
            v = self.rv(st, f, ctx, what, line)
            if not (isinstance(v, tuple) and v[0] == "L"):
                return None
            r = v[1]
        elif kind == "field":
            r = ("f", deref(st.store.get(("this", ctx))), what)
        else:
            r = deref(st.store.get(("this", ctx)))
        out = self.do_call(st, f, ctx, ("d", line, kind, what if not isinstance(what, tuple) else "t"),
                           {"id": fn["id"], "qn": fn["qn"], "n": fn["n"], "cls": fn.get("cls", ""), "args": (),
                            "pk": (), "type": "void"}, line, ("L", r), [], kind="dtor")
        res = []
        for s2, _ in out:
            if kind == "temp" and isinstance(what, int):
                s2.store.pop(("x", ctx, what), None)
            res.append(s2)
        return res

    def var_region(self, st, ctx, did):
        r = ("v", ctx, did)
        a = st.store.get(("alias", r))
        return a if a is not None else r

    def ev(self, st, f, ctx, sid, n, line):
        """Evaluate a node: a value, or a list of (state, value) when split."""
        if isinstance(n, int):
            return st.store.get(("x", ctx, n))
        op = n[0]
        if op == "int":
            v = n[1]
            if isinstance(v, str):
                return int(v[1:])
            return v
        if op == "null":
            return 0
        if op == "str":
            return ("str", n[1])
        if op == "fn":
            return ("fn", n[1]["id"], n[1]["qn"])
        if op == "var":
            did, name, cap, isref = n[1], n[2], n[3], n[4]
            if cap:
                this = st.store.get(("this", ctx))
                r = ("f", deref(this), "cap:" + name)
                fl = st.store.get(("f", deref(this), "capref:" + name))
                if fl is not None:
                    return ("L", deref(fl))
                return ("L", r)
            if isref:
                r = ("v", ctx, did)
                al = st.store.get(("alias", r))
                if al is not None:
                    return ("L", al)
                v = st.store.get(r)
                if v is None:
                    v = ("ld", ("param", f.qn, name), ())
                return ("L", deref(v))
            return ("L", self.var_region(st, ctx, did))
        if op == "gvar":
            if len(n) > 4:
                if isinstance(n[4], (list, tuple)):
                    for name, v in n[4]:
                        self.gconst[("f", ("g", n[1]), name)] = v
                else:
                    self.gconst[("g", n[1])] = n[4]
            r = ("g", n[1])
            if n[2]:
                return ("L", deref(self.read(st, r)))
            return ("L", r)
        if op == "this":
            if n[1]:
                c = st.store.get(("this", ctx))
                return self.read(st, ("f", deref(c), "cap:this"))
            return st.store.get(("this", ctx))
        if op == "fld":
            base = self.rv(st, f, ctx, n[1], line)
            if n[2]:
                r0 = self.check_deref(st, base, f, line)
                if r0 is None:
                    return []
            else:
                r0 = self.region_of(base)
            if not n[3]:
                # A member of an anonymous struct or union is a member of the owner.
                return ("L", r0)
            r = ("f", r0, n[3])
            if n[6]:
                v = self.read(st, r)
                self.rule.load(self, st, r, v, f, line)
                return ("L", deref(v))
            self.ftype(r, n[5])
            return ("L", r)
        if op == "mfn":
            return None
        if op == "load":
            g = self.rv(st, f, ctx, n[1], line)
            if not (isinstance(g, tuple) and g[0] == "L"):
                return g
            v = self.read(st, g[1], n[2])
            self.rule.load(self, st, g[1], v, f, line)
            return v
        if op == "decay":
            g = self.rv(st, f, ctx, n[1], line)
            if isinstance(g, tuple) and g[0] == "L":
                return ("&", ("e", g[1], 0))
            return g
        if op in ("pass", "mat"):
            g = self.rv(st, f, ctx, n[1], line)
            if op == "mat" and not (isinstance(g, tuple) and g[0] == "L"):
                r = ("o", ("mat", ctx, sid))
                st.store[r] = g if g is not None else ("t", ("undef",))
                return ("L", r)
            return g
        if op == "bcast":
            v = self.rv(st, f, ctx, n[1], line)
            if n[2] == "dyn":
                return self.tok(st, ("dyn", ctx, sid))
            return v
        if op == "rcast":
            return self.rv(st, f, ctx, n[1], line)
        if op == "icast":
            v = self.rv(st, f, ctx, n[1], line)
            to = n[2]
            if isinstance(v, int) and len(to) >= 3:
                w = to[1]
                v &= (1 << w) - 1
                if to[2] and v >= (1 << (w - 1)):
                    v -= 1 << w
                return v
            fr = n[3]
            if isinstance(v, tuple) and len(to) >= 3 and len(fr) >= 3:
                if not to[2] and fr[2] or to[1] < fr[1]:
                    # The value may change. Keep the term when known to fit.
                    lo, hi = self.bounds(st, v)
                    mn = -(1 << (to[1] - 1)) if to[2] else 0
                    mx = (1 << (to[1] - (1 if to[2] else 0))) - 1
                    if lo >= mn and hi <= mx:
                        return v
                    if v[0] in ("cmp", "not"):
                        return v
                    t = ("conv", v, to[1], to[2])
                    self.tinfo.setdefault(t, (to[1], to[2], ""))
                    return t
            return v
        if op == "tobool":
            v = self.rv(st, f, ctx, n[1], line)
            if isinstance(v, int):
                return int(v != 0)
            t = self.truth(st, v)
            if t is not None:
                return int(t)
            if isinstance(v, tuple) and v[0] in ("cmp", "not"):
                return v
            return self.notv(self.cmpv(st, "==", v, 0))
        if op == "void":
            return None
        if op == "addr":
            g = self.rv(st, f, ctx, n[1], line)
            if isinstance(g, tuple) and g[0] == "L":
                return addr(g[1])
            return g
        if op == "deref":
            v = self.rv(st, f, ctx, n[1], line)
            r = self.check_deref(st, v, f, line)
            if r is None:
                return []
            return ("L", r)
        if op == "not":
            v = self.rv(st, f, ctx, n[1], line)
            if v is None:
                v = self.tok(st, ("noval", ctx, sid))
            t = self.truth(st, v)
            if t is not None:
                return int(not t)
            if v[0] in ("cmp", "not"):
                return self.notv(v)
            return self.cmpv(st, "==", v, 0)
        if op == "idx":
            b = self.rv(st, f, ctx, n[1], line)
            i = self.rv(st, f, ctx, n[2], line)
            p = self.arith(st, "+", b, i)
            r = self.check_deref(st, p, f, line)
            if r is None:
                return []
            return ("L", r)
        if op == "bin":
            a = self.rv(st, f, ctx, n[2], line)
            b = self.rv(st, f, ctx, n[3], line)
            return self.binop(st, n[1], a, b, n[4] if len(n) > 4 else None, n[5] if len(n) > 5 else None)
        if op == "un":
            v = self.rv(st, f, ctx, n[2], line)
            if isinstance(v, int):
                return -v if n[1] == "-" else (~v if n[1] == "~" else v)
            if n[1] == "-":
                return self.arith(st, "-", 0, v)
            return ("op", n[1], v, 0)
        if op == "assign":
            g = self.rv(st, f, ctx, n[1], line)
            v = self.rv(st, f, ctx, n[2], line)
            r = self.region_of(g)
            if isinstance(v, tuple) and v[0] == "L":
                self.copy_region(st, v[1], r)
            elif v is not None:
                self.write(st, r, v)
            else:
                self.havoc(st, r, ("as", ctx, sid))
                v = self.read(st, r)
            self.rule.store(self, st, r, v, f, line)
            return ("L", r)
        if op == "cassign":
            g = self.rv(st, f, ctx, n[2], line)
            b = self.rv(st, f, ctx, n[3], line)
            r = self.region_of(g)
            a = self.read(st, r)
            self.rule.load(self, st, r, a, f, line)
            v = self.binop(st, n[1], a, b, n[4], n[4])
            st.store[r] = v
            self.rule.store(self, st, r, v, f, line)
            return ("L", r)
        if op == "incdec":
            g = self.rv(st, f, ctx, n[2], line)
            r = self.region_of(g)
            a = self.read(st, r)
            self.rule.load(self, st, r, a, f, line)
            v = self.arith(st, n[1], a, 1)
            st.store[r] = v
            self.rule.store(self, st, r, v, f, line)
            return ("L", r) if n[3] else a
        if op == "comma":
            return self.rv(st, f, ctx, n[2], line)
        if op == "logic":
            s = st.store.pop(("sel", ctx, sid), None) if sid else None
            x = self.logic_sel(st, ctx, n)
            if s is not None:
                return s
            if x is not None:
                return int(x)
            v = self.rv(st, f, ctx, n[3], line)
            t = self.truth(st, v)
            return int(t) if t is not None else v
        if op == "cond":
            s = st.store.pop(("sel", ctx, sid), None)
            if s is None:
                c = self.truth(st, self.rv(st, f, ctx, n[1], line))
                s = 1 if c else 0
            return self.rv(st, f, ctx, n[2] if s else n[3], line)
        if op == "zero":
            if n[1].endswith("*") or n[1] in ("int", "bool", "unsigned int", "long", "unsigned long", "char", "unsigned char"):
                return 0
            r = ("o", ("zero", ctx, sid))
            self.drop_under(st, r)
            st.store[("dfl", r)] = 0
            return ("L", r)
        if op == "initlist":
            vals = [self.rv(st, f, ctx, x, line) for x in n[1]]
            r = ("o", self.fresh(st, ("il", ctx, sid)))
            self.drop_under(st, r)
            st.store[("dfl", r)] = 0
            names = n[3]
            if len(vals) == 1 and not names and not n[2].endswith("]"):
                return vals[0]
            for i, v in enumerate(vals):
                d = ("f", r, names[i]) if names and i < len(names) else ("e", r, i)
                if v is not None:
                    self.write(st, d, v)
            return ("L", r)
        if op == "lambda":
            r = ("o", self.fresh(st, ("lam", ctx, sid)))
            self.drop_under(st, r)
            self.types[r] = n[1]
            for c in n[2]:
                v = self.rv(st, f, ctx, c[2], line) if len(c) > 2 else None
                if v is None:
                    continue
                d = ("f", r, "cap:" + c[0])
                if c[0] == "this":
                    st.store[d] = v
                elif c[1]:
                    st.store[("f", r, "capref:" + c[0])] = addr(self.region_of(v))
                else:
                    self.write(st, d, v)
            st.store[("f", r, "lambda")] = ("fn", n[3]["id"], n[3]["qn"])
            return ("L", r)
        if op == "ctor":
            return self.do_ctor(st, f, ctx, sid, n[1], line)
        if op == "call":
            c = n[1]
            obj = self.rv(st, f, ctx, c["obj"], line) if "obj" in c else None
            if obj is not None and c.get("arrow"):
                r = self.check_deref(st, obj, f, line)
                if r is None:
                    return []
                obj = ("L", r)
            elif obj is None and "obj" in c:
                obj = ("L", ("o", ("lost", ctx, sid)))
            elif obj is not None and not (isinstance(obj, tuple) and obj[0] == "L"):
                r = ("o", ("objval", ctx, sid))
                st.store[r] = obj
                obj = ("L", r)
            args = [self.rv(st, f, ctx, a, line) for a in c["args"]]
            return self.do_call(st, f, ctx, sid, c, line, obj, args)
        if op == "new":
            o = n[1]
            if o["place"]:
                p = self.rv(st, f, ctx, o["place"][0], line)
                if o.get("init") is not None:
                    self.rv(st, f, ctx, o["init"], line)
                return p
            init = self.rv(st, f, ctx, o["init"], line) if o.get("init") is not None else None
            if isinstance(init, tuple) and init[0] == "L" and init[1][0] == "o":
                r = init[1]
            else:
                r = ("o", self.fresh(st, ("new", ctx, sid)))
                if init is not None:
                    self.write(st, r, init)
            self.types[r] = o["type"]
            v = ("&", r)
            if o.get("arr"):
                v = ("&", ("e", r, 0))
            self.rule.new(self, st, r, o, f, line)
            return v
        if op == "delete":
            o = n[1]
            v = self.rv(st, f, ctx, o["arg"], line)
            return self.do_delete(st, f, ctx, sid, o, v, line)
        if op in ("coawait", "coyield"):
            return self.tok(st, ("co", ctx, sid))
        if op == "throw":
            return []
        if op == "opaque":
            return self.tok(st, ("opq", ctx, sid))
        raise AnalysisBroken("unknown node %s in %s" % (op, f.qn))

    def ftype(self, r, t):
        if r not in self.types:
            t2 = t[6:] if t.startswith("const ") else t
            if t2 in self.p.records:
                self.types[r] = t2

    def check_deref(self, st, v, f, line):
        v = self.norm(st, v)
        if isinstance(v, int):
            # A null pointer dereference.
            self.rule.deref(self, st, v, f, line)
            if v == 0:
                return None
            return ("sym", v)
        if v is None:
            return ("o", ("lost",))
        self.rule.deref(self, st, v, f, line)
        if v[0] not in ("&", "str", "fn"):
            # A dereferenced pointer is not null.
            if not self.refine(st, v, ne=0):
                return None
        return deref(v)

    def binop(self, st, op, a, b, ta=None, tr=None):
        if a is None or b is None:
            return None
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if isinstance(a, tuple) and a[0] == "L":
                a = self.read(st, a[1])
            if isinstance(b, tuple) and b[0] == "L":
                b = self.read(st, b[1])
            return self.cmpv(st, op, a, b)
        if op == "<=>":
            return ("op", op, a, b)
        v = None
        if self.rule.widths and op == "-" and tr is not None and len(tr) >= 3:
            # Steps of a calculation in another width can't be mixed with this one.
            x, y = self.norm(st, a), self.norm(st, b)
            if x != y and any(isinstance(z, tuple) and z[0] == "op" and self.tinfo.get(z, tr[1:])[0] != tr[1] for z in (x, y)):
                v = ("op", op, x, y)
        if v is None:
            v = self.arith(st, op, a, b)
        if isinstance(v, int) and tr is not None and len(tr) >= 3:
            w = tr[1]
            if not tr[2]:
                v &= (1 << w) - 1
        elif isinstance(v, tuple) and tr is not None:
            self.settype(v, tr)
        return v

    def arith(self, st, op, a, b):
        a = self.norm(st, a) if a is not None else None
        b = self.norm(st, b) if b is not None else None
        if isinstance(a, int) and isinstance(b, int):
            try:
                if op == "+":
                    return a + b
                if op == "-":
                    return a - b
                if op == "*":
                    return a * b
                if op == "/":
                    return int(a / b) if b else 0
                if op == "%":
                    return a - b * int(a / b) if b else 0
                if op == "&":
                    return a & b
                if op == "|":
                    return a | b
                if op == "^":
                    return a ^ b
                if op == "<<":
                    return a << b
                if op == ">>":
                    return a >> b
            except (OverflowError, ValueError):
                pass
        if op == "-" and isinstance(b, int):
            op, b = "+", -b
        if op == "+":
            if isinstance(a, int) and not isinstance(b, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return a
                if isinstance(a, tuple) and a[0] == "&" and a[1][0] == "e":
                    return ("&", ("e", a[1][1], self.arith(st, "+", a[1][2], b)))
                if isinstance(a, tuple) and a[0] == "op" and a[1] == "+" and isinstance(a[3], int):
                    s = a[3] + b
                    return a[2] if s == 0 else ("op", "+", a[2], s)
            elif isinstance(a, tuple) and a[0] == "&" and a[1][0] == "e" and isinstance(b, tuple):
                return ("&", ("e", a[1][1], self.arith(st, "+", a[1][2], b)))
            elif isinstance(a, tuple) and isinstance(b, tuple):
                # x + (y - x) = y
                if b[0] == "op" and b[1] == "-" and b[3] == a:
                    return b[2]
                if a[0] == "op" and a[1] == "-" and a[3] == b:
                    return a[2]
        if op == "-":
            if a == b:
                return 0
            if isinstance(a, tuple) and a[0] == "op" and a[1] == "+" and not isinstance(a[3], int):
                if a[3] == b:
                    return a[2]
                if a[2] == b:
                    return a[3]
            ba, oa = self.split(a)
            bb, ob = self.split(b)
            if ba == bb:
                return oa - ob
            if isinstance(ob, int) and ob != 0 and isinstance(bb, tuple):
                # a - (b + c) = (a - b) - c
                return self.arith(st, "+", self.arith(st, "-", a, bb), -ob)
            if oa != 0 and isinstance(ba, tuple):
                return self.arith(st, "+", self.arith(st, "-", ba, b), oa)
        if op == "&" and (a == 0 or b == 0):
            return 0
        if op == "*":
            if a == 0 or b == 0:
                return 0
            if a == 1:
                return b
            if b == 1:
                return a
        if op in ("+", "*", "|", "&", "^") and not isinstance(b, int) and (isinstance(a, int) or repr(a) > repr(b)):
            a, b = b, a
        if op in ("|", "^") and b == 0:
            return a
        return ("op", op, a, b)

    # ----------------------------------------------------------------- calls
    def make_call(self, st, f, ctx, sid, c, line, obj, args, kind):
        k = Call()
        k.qn = c.get("qn", "")
        k.name = c.get("n", "")
        k.cls = c.get("cls", "")
        k.id = c.get("id")
        k.obj = self.region_of(obj) if obj is not None else None
        k.args = args
        k.node = c
        k.fn = f
        k.line = line
        k.ctx = ctx
        k.sid = sid
        k.virt = c.get("virt", False)
        k.kind = kind
        k.ip = self
        k.target = self.p.funcs.get(k.id)
        return k

    def do_call(self, st, f, ctx, sid, c, line, obj, args, kind="call"):
        k = self.make_call(st, f, ctx, sid, c, line, obj, args, kind)
        qn = k.qn
        # Calls via pointers and callables.
        if not qn and "fp" in c:
            fv = self.rv(st, f, ctx, c["fp"], line)
            if isinstance(fv, tuple) and fv[0] == "L":
                fv = self.read(st, fv[1])
            if isinstance(fv, tuple) and fv[0] == "fn":
                k.id = fv[1]
                k.qn = qn = fv[2]
                k.target = self.p.funcs.get(k.id)
        if k.virt and k.obj is not None:
            dyn = self.types.get(k.obj)
            if dyn is None and k.obj[0] == "sym":
                dyn = self.types.get(k.obj)
            if dyn is not None:
                m = self.p.resolve_virtual(k.id, dyn)
                if m is not None:
                    k.id = m["id"]
                    k.qn = qn = m["qn"]
                    k.cls = m.get("cls", k.cls)
                    k.target = self.p.funcs.get(k.id)
                    k.virt = False
        r = self.rule.call(self, st, k)
        if isinstance(r, list):
            return r
        if r != "inline":
            if r is None:
                m = self.builtin(st, k)
                if m is not None:
                    return m
            if r == "opaque" or k.target is None or not k.target.blocks or \
                    any(qn.startswith(x) for x in OPAQUE_QN):
                return self.opaque(st, k)
            if k.virt:
                # A virtual call on an unknown class.
                return self.opaque(st, k)
            if not self.rule.want_inline(self, k.target, k):
                return self.opaque(st, k)
        elif k.target is None:
            return self.opaque(st, k)
        # No recursion.
        n = 0
        for g, _, _ in self.frames:
            if g.id == k.target.id:
                n += 1
        if n >= 2:
            return self.opaque(st, k)
        return self.inline(st, k)

    def inline(self, st, k):
        t = k.target
        nctx = self.ctx(k.ctx, k.sid, t)
        self.note(st, k.fn, k.line, "call " + t.qn)
        this = addr(k.obj) if k.obj is not None else None
        # A static operator or a free function gets an object as an argument.
        args = k.args
        if t.kind == "fn" or t.static:
            this = None
        # The same context may still have leftovers when the loop is going.
        return self.run(t, st, nctx, this, args)

    def builtin(self, st, k):
        qn = k.qn
        if qn in ABORTS or k.node.get("noret"):
            return []
        if qn in IDENT:
            return [(st, k.args[0])] if k.args else None
        if k.cls.startswith(ATOMIC_CLS):
            return self.atomic(st, k)
        if qn.startswith("std::swap") and len(k.args) == 2:
            a, b = k.args
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "L" and b[0] == "L":
                t = ("o", ("swap", k.ctx, k.sid))
                self.copy_region(st, a[1], t)
                self.copy_region(st, b[1], a[1])
                self.copy_region(st, t, b[1])
                self.drop_under(st, t)
                for x in (a, b):
                    v = st.store.get(x[1])
                    if v is not None:
                        self.rule.store(self, st, x[1], v, k.fn, k.line)
                return [(st, None)]
        if qn in ("memset", "bzero", "std::memset"):
            p = k.args[0]
            if p is not None and len(k.args) > 1 and k.args[1] == 0:
                r = deref(p)
                self.drop_under(st, r)
                st.store[("dfl", r)] = 0
                return [(st, p)]
        if qn in ("std::min", "std::max") and len(k.args) == 2:
            a = self.rvalue(st, k.args[0])
            b = self.rvalue(st, k.args[1])
            s1, s2 = st, st.copy()
            res = []
            c = self.cmpv(st, "<", b, a)
            d = None if isinstance(c, int) else self.rule.decide(self, st, c)
            for s, tr in ((s1, True), (s2, False)):
                if (d is None or d == tr) and self.assume(s, c, tr):
                    self.rule.branch(self, s, c, tr, k.fn, k.line)
                    small, big = (k.args[1], k.args[0]) if tr else (k.args[0], k.args[1])
                    res.append((s, small if qn == "std::min" else big))
            return res
        return None

    def rvalue(self, st, v):
        if isinstance(v, tuple) and v[0] == "L":
            return self.read(st, v[1])
        return v

    def atomic(self, st, k):
        """std::atomic operations as primitives."""
        r = k.obj
        n = k.name
        a = [self.rvalue(st, x) if i or n not in ("compare_exchange_weak", "compare_exchange_strong") else x
             for i, x in enumerate(k.args)]
        rule = self.rule
        site = ("at", k.ctx, k.sid)
        ti = k.node.get("ti")
        if k.kind == "ctor":
            if k.args:
                st.store[r] = self.rvalue(st, k.args[0])
                rule.atomic(self, st, "init", r, (5,), st.store[r], None, k.fn, k.line)
            return [(st, ("L", r))]
        if k.kind == "dtor":
            return [(st, None)]
        shared = self.is_shared_atomic(st, r)

        def current(s, op):
            """Value observed: split over the domain the rule knows."""
            if not shared:
                return [(s, self.read(s, r))]
            dom = rule.atomic_domain(self, s, op, r)
            if dom is None:
                t = self.tok(s, site, ti)
                return [(s, t)]
            res = []
            for v in dom:
                s2 = s.copy()
                res.append((s2, v))
            return res
        if n in ("load", "operator __integral_type", "operator T") or n.startswith("operator ") and not a and n not in (
                "operator++", "operator--"):
            o = a[0] if a and isinstance(a[0], int) else 5
            res = []
            for s, v in current(st, "load"):
                rule.atomic(self, s, "load", r, (o,), None, v, k.fn, k.line)
                res.append((s, v))
            return res
        if n in ("store", "operator="):
            o = a[1] if len(a) > 1 and isinstance(a[1], int) else 5
            st.store[r] = a[0] if a[0] is not None else ("t", ("undef",))
            rule.atomic(self, st, "store", r, (o,), a[0], None, k.fn, k.line)
            return [(st, a[0] if n == "operator=" else None)]
        if n == "exchange":
            o = a[1] if len(a) > 1 and isinstance(a[1], int) else 5
            res = []
            for s, v in current(st, "xchg"):
                s.store[r] = a[0]
                rule.atomic(self, s, "xchg", r, (o,), a[0], v, k.fn, k.line)
                res.append((s, v))
            return res
        if n in ("compare_exchange_strong", "compare_exchange_weak"):
            os_ = tuple(x for x in a[2:] if isinstance(x, int)) or (5,)
            er = self.region_of(a[0])
            expected = self.read(st, er)
            res = []
            s1 = st.copy()
            # Success.
            ok = True
            if not shared:
                ok = self.assume(s1, self.cmpv(s1, "==", self.read(s1, r), expected), True)
            else:
                dom = rule.atomic_domain(self, s1, "cas", r)
                if dom is not None and isinstance(expected, int) and expected not in dom:
                    ok = False
            if ok:
                s1.store[r] = a[1]
                self.note(s1, k.fn, k.line, "cas succeeds")
                rule.atomic(self, s1, "cas", r, os_, (expected, a[1]), expected, k.fn, k.line, True)
                res.append((s1, 1))
            for s, v in current(st.copy(), "cas"):
                if n == "compare_exchange_strong" or not shared:
                    if not self.assume(s, self.cmpv(s, "==", v, expected), False):
                        continue
                s.store[er] = v
                self.note(s, k.fn, k.line, "cas fails")
                rule.atomic(self, s, "cas", r, os_, (expected, a[1]), v, k.fn, k.line, False)
                res.append((s, 0))
            return res
        OPS = {"fetch_add": "+", "fetch_sub": "-", "fetch_or": "|", "fetch_and": "&", "fetch_xor": "^",
               "operator++": "+", "operator--": "-", "operator+=": "+", "operator-=": "-", "operator|=": "|",
               "operator&=": "&"}
        if n in OPS:
            x = a[0] if a and a[0] is not None else 1
            if n in ("operator++", "operator--"):
                x = 1
            o = a[1] if len(a) > 1 and isinstance(a[1], int) else 5
            res = []
            for s, v in current(st, "rmw"):
                nv = self.arith(s, OPS[n], v, x)
                s.store[r] = nv
                rule.atomic(self, s, "rmw" + OPS[n], r, (o,), x, v, k.fn, k.line)
                res.append((s, v if n.startswith("fetch") or (n in ("operator++", "operator--") and a) else nv))
            return res
        return None

    def is_shared_atomic(self, st, r):
        rt = root_of(r)
        return rt[0] not in ("v",) and not (rt[0] == "o" and ("private", rt) in st.rs)

    def opaque(self, st, k):
        """A call without a body: forgets what could be changed by it."""
        c = k.node
        if k.kind == "dtor":
            return [(st, None)]
        qn = k.qn
        self.opaque_seen[qn] = self.opaque_seen.get(qn, 0) + 1
        site = ("call", k.ctx, k.sid)
        if k.kind == "ctor":
            if k.node.get("copy") or k.node.get("move"):
                if k.args and isinstance(k.args[0], tuple) and k.args[0][0] == "L":
                    self.copy_region(st, k.args[0][1], k.obj)
                    return [(st, ("L", k.obj))]
            self.havoc_args(st, k, site)
            self.havoc(st, k.obj, site)
            return [(st, ("L", k.obj))]
        if k.name == "operator=" and k.obj is not None and len(k.args) == 1 and \
                isinstance(k.args[0], tuple) and k.args[0][0] == "L" and not qn.startswith("std::"):
            self.copy_region(st, k.args[0][1], k.obj)
            return [(st, ("L", k.obj))]
        t = c.get("type", "void")
        pure = c.get("const") and k.obj is not None
        if pure:
            res = ("pure", qn, k.obj, self.epoch(st, k.obj)) + tuple(
                a if not (isinstance(a, tuple) and a[0] == "L") else addr(a[1]) for a in k.args)
            self.settype(res, c.get("ti"))
            res = self.norm(st, res)
        else:
            self.havoc_args(st, k, site)
            if k.obj is not None:
                self.havoc(st, k.obj, (site, "obj"))
            if t == "void":
                return [(st, None)]
            res = self.tok(st, site, c.get("ti"))
        if c.get("lv"):
            return [(st, ("L", ("sym", res)))]
        if self.is_record(t):
            r = ("o", ("rec", res))
            self.types.setdefault(r, t)
            return [(st, ("L", r))]
        return [(st, res)]

    def is_record(self, t):
        if t.endswith(("*", "&")) or t == "void":
            return False
        base = t[6:] if t.startswith("const ") else t
        if base in self.p.records or base.startswith("std::"):
            return True
        if base in self.p.enums:
            return False
        return "::" in base and base not in self.p.enums and not base.endswith("_t") or base.startswith("struct ")

    def havoc_args(self, st, k, site):
        pk = k.node.get("pk", ())
        for i, a in enumerate(k.args):
            kind = pk[i] if i < len(pk) else "p"
            if kind == "r":
                if isinstance(a, tuple) and a[0] == "L":
                    self.havoc(st, a[1], (site, i))
            elif kind == "p":
                if isinstance(a, tuple) and a[0] not in ("str", "fn"):
                    r = deref(a)
                    if r[0] == "e" and r[2] == 0:
                        r = r[1]
                    self.havoc(st, r, (site, i))

    def do_ctor(self, st, f, ctx, sid, c, line):
        args = [self.rv(st, f, ctx, a, line) for a in c["args"]]
        tg = c.get("target")
        if c.get("elide") and len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == "L":
            return args[0]
        if tg and tg[0] == "var":
            r = ("v", ctx, tg[1])
            st.store.pop(("alias", r), None)
        elif tg and tg[0] == "field":
            r = ("f", deref(st.store.get(("this", ctx))), tg[1])
        elif tg and tg[0] == "base":
            r = deref(st.store.get(("this", ctx)))
        else:
            r = ("o", self.fresh(st, ("ctor", ctx, sid)))
        if not (tg and tg[0] == "base"):
            self.drop_under(st, r)
            self.types[r] = c["type"]
        if c.get("zero") or (not c["args"] and c.get("trivial")):
            if c.get("zero"):
                st.store[("dfl", r)] = 0
            if c.get("trivial"):
                return ("L", r)
        out = self.do_call(st, f, ctx, sid, c, line, ("L", r), args, kind="ctor")
        if out is None:
            return ("L", r)
        return [(s2, ("L", r)) for s2, _ in out]

    def do_delete(self, st, f, ctx, sid, o, v, line):
        v = self.norm(st, v)
        if v == 0:
            return None
        res = []
        t = self.truth(st, v)
        if t is None and isinstance(v, tuple):
            s0 = st.copy()
            if self.assume(s0, v, False):
                res.append((s0, None))
            if not self.assume(st, v, True):
                return res
        m = self.rule.delete(self, st, v, o, f, line)
        if isinstance(m, list):
            return res + m
        if m == "skip":
            return res + [(st, None)]
        d = o.get("dtor")
        if d is not None:
            c = {"id": d["id"], "qn": d["qn"], "n": d["n"], "cls": d.get("cls", ""), "args": (), "pk": (),
                 "type": "void"}
            if o.get("virt"):
                c["virt"] = True
            out = self.do_call(st, f, ctx, sid, c, line, ("L", deref(v)), [], kind="dtor")
            return res + [(s, None) for s, _ in out]
        return res + [(st, None)]

    # ----------------------------------------------------------------- entry
    def entry(self, f, this=None, args=None, dyn=None, setup=None):
        """Analyse an entry function with symbolic arguments."""
        st = State()
        ctx = self.ctx(0, 0, f)
        if f.kind != "fn" and not f.static:
            tr = this if this is not None else ("name", "this")
            thisv = addr(tr)
            c = dyn or f.cls
            if c:
                self.types[tr] = c
        else:
            thisv = None
        vals = []
        for i, pr in enumerate(f.params):
            if args is not None and i < len(args) and args[i] is not None:
                vals.append(args[i])
            elif pr[3]:
                vals.append(("L", ("name", "arg:" + (pr[1] or str(i)))))
            elif pr[2].rstrip().endswith("*") or pr[2] not in self.p.records and not pr[2].startswith("std::"):
                vals.append(("ld", ("name", "arg:" + (pr[1] or str(i))), ()))
            else:
                vals.append(("L", ("name", "arg:" + (pr[1] or str(i)))))
        if setup:
            setup(self, st, thisv, vals)
        out = self.run(f, st, ctx, thisv, vals)
        for s, rv in out:
            self.paths += 1
            self.frames.append((f, ctx, thisv))
            self.rule.end(self, s, rv, f, f.line)
            self.frames.pop()
        return out
