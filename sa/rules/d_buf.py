"""D05, D06: buffers of the network data."""
from ..core import check
from ..engine import Rule, addr, deref, root_of
from ..ir import AnalysisBroken
from ..poly import add, atom, const, entails, infeasible, mkeq, sub, total

NS = "mg::net::"
BUF = "mg::net::BufferCopy"
THIS, ARG, RES = ("name", "this"), ("o", ("argp",)), ("o", ("res",))
U32 = const((1 << 32) - 1)
ONE = const(1)


def fld(r, *ns):
    for n in ns:
        r = ("f", r, n)
    return r


def node(x):
    return ("o", ("buf", x))


def tok(*n):
    return ("t", n)


def T(*n):
    return atom(tok(*n))


def ptr(r):
    """Where a shared pointer keeps its object."""
    return fld(r, "myObject")


class Split(Exception):
    def __init__(self, e):
        self.e = e


def neg(e):
    return (tuple((a, -c) for a, c in e[0]), -e[1] - 1)


class Buf(Rule):
    """Quantities are related by linear inequalities, buffers are explicit nodes with real reference counts."""
    max_loop = 12
    widths = True
    exact = False   # No sizes can be near to 2^64
    size = 0    # Size of a copy-buffer

    # ---- numbers
    def lin(self, ip, st, v, inner=0):
        P = st.rs["poly"]
        if isinstance(v, bool) or isinstance(v, int):
            return const(int(v))
        if not isinstance(v, tuple):
            return None
        if v[0] == "op" and v[1] in ("+", "-"):
            # Only the result of an unsigned calculation can overflow, wrapped steps in the middle of it cancel each other out.
            t = ip.tinfo.get(v)
            w = t[0] if t is not None and not t[1] else 0
            a, b = self.lin(ip, st, v[2], w), self.lin(ip, st, v[3], w)
            if a is None or b is None:
                return atom(v)
            r = add(a, b) if v[1] == "+" else sub(a, b)
            if w and not (inner and w >= inner):
                if not entails(P, r) or (w == 32 or self.exact) and not entails(P, sub(const((1 << w) - 1), r)):
                    # Can overflow.
                    return atom(v)
            return r
        if v[0] == "op" and v[1] == "*" and isinstance(v[3], int):
            a = self.lin(ip, st, v[2])
            return add(const(0), a, v[3])
        if v[0] == "conv":
            r = self.lin(ip, st, v[1])
            if r is not None and entails(P, r) and (v[2] >= 64 or entails(P, sub(const((1 << v[2] - (1 if v[3] else 0)) - 1), r))):
                return r
            return atom(v)
        if v[0] == "&" and v[1][0] == "e":
            i = self.lin(ip, st, v[1][2])
            if i is not None:
                return add(atom(("&", ("e", v[1][1], 0))), i)
        return atom(v)

    def forms(self, ip, st, cond):
        """[(form >= 0 if true)], [(.. if false)], None when not linear."""
        if not isinstance(cond, tuple):
            return None
        if cond[0] == "not":
            r = self.forms(ip, st, cond[1])
            return r and (r[1], r[0])
        if cond[0] == "cmp":
            a, b = self.lin(ip, st, cond[2]), self.lin(ip, st, cond[3])
            if a is None or b is None:
                return None
            if cond[1] == "<":
                return [add(sub(b, a), ONE, -1)], [sub(a, b)]
            d = sub(a, b)
        else:
            d = self.lin(ip, st, cond)
            if d is None:
                return None
            return [("ne", d)], [d, sub(const(0), d)]
        return [d, sub(const(0), d)], [("ne", d)]

    def holds(self, P, fs):
        for f in fs:
            if f[0] == "ne":
                d = f[1]
                if not (entails(P, add(d, ONE, -1)) or entails(P, add(sub(const(0), d), ONE, -1))):
                    return False
            elif not entails(P, f):
                return False
        return True

    def decide(self, ip, st, cond):
        f = self.forms(ip, st, cond)
        if f is None:
            return None
        P = st.rs["poly"]
        if self.holds(P, f[0]):
            return True
        if self.holds(P, f[1]):
            return False
        return None

    def branch(self, ip, st, cond, truth, fn, line):
        f = self.forms(ip, st, cond)
        if f is None:
            return
        P = st.rs["poly"]
        for e in f[0 if truth else 1]:
            if e[0] == "ne":
                d = e[1]
                if entails(P, d):
                    P |= {add(d, ONE, -1)}
                elif entails(P, sub(const(0), d)):
                    P |= {add(sub(const(0), d), ONE, -1)}
            else:
                P |= {e}
        st.rs["poly"] = P

    # ---- nodes
    def make(self, ip, st, x, data, pos, cap, refs=1, nxt=0):
        n = node(x)
        ip.settype(n, BUF)
        for f, v, t in (("myPos", pos, 32), ("myCapacity", cap, 32), ("myRData", data, None)):
            if isinstance(v, tuple) and t is not None:
                ip.tinfo[v] = (t, False, "")
            st.store[fld(n, f)] = v
        st.store[ptr(fld(n, "myNext"))] = nxt
        st.rs[("ref", x)] = refs
        st.rs["all"] = st.rs.get("all", ()) + (x,)
        st.rs["keep"] = st.rs.get("keep", ()) + (n,)

    def given(self, ip, st, names, kinds, refs=1):
        """A chain of existing buffers: F - full, P - partially filled, E - empty with a space, Z - empty without a space."""
        P = set()
        for i, (x, k) in enumerate(zip(names, kinds)):
            pos, cap = tok("pos", x), tok("cap", x)
            p, c = atom(pos), atom(cap)
            P |= {p, sub(c, p), sub(U32, c)}
            if k in "FP":
                P |= {sub(p, ONE)}
            if k == "F":
                P |= mkeq(p, c)
            if k in "PE":
                P |= {sub(sub(c, p), ONE)}
            if k in "EZ":
                P |= mkeq(p, const(0))
            if k == "Z":
                P |= mkeq(c, const(0))
            self.make(ip, st, x, tok("data", x), pos, cap, refs, addr(node(names[i + 1])) if i + 1 < len(names) else 0)
        st.rs["poly"] = st.rs.get("poly", frozenset()) | P

    def name_of(self, r):
        r = root_of(r)
        return r[1][1] if r[0] == "o" and r[1][0] == "buf" else None

    def touch(self, ip, st, r, fn, line):
        x = self.name_of(r)
        if x is not None and st.rs.get(("dead", x)):
            n = node(x)
            if not any(f.kind == "dtor" and t == n for f, _, t in ip.frames):
                ip.report(st, "a freed buffer is used", fn, line)

    def load(self, ip, st, r, v, fn, line):
        self.touch(ip, st, r, fn, line)

    def store(self, ip, st, r, v, fn, line):
        self.touch(ip, st, r, fn, line)

    def deref(self, ip, st, v, fn, line):
        if v == 0:
            ip.report(st, "the data is accessed beyond the last buffer", fn, line)

    def delete(self, ip, st, v, nd, fn, line):
        r = deref(v) if isinstance(v, tuple) and v[0] == "&" else None
        x = self.name_of(r) if r is not None else None
        if x is None:
            return None
        if st.rs.get(("dead", x)) or st.rs.get(("ref", x)) != 0:
            ip.report(st, "a buffer is deleted while it is owned", fn, line)
        self.free(ip, st, x)
        return "skip"

    def free(self, ip, st, x):
        """What the destructor does, see Dtor."""
        while x is not None:
            st.rs[("dead", x)] = 1
            n = ptr(fld(node(x), "myNext"))
            v = ip.norm(st, ip.read(st, n))
            st.store[n] = 0
            r = deref(v) if isinstance(v, tuple) and v[0] == "&" else None
            x = self.name_of(r) if r is not None else None
            if x is not None:
                st.rs[("ref", x)] -= 1
                if st.rs[("ref", x)] != 0:
                    return

    def call(self, ip, st, c):
        rs = st.rs
        if c.cls == "mg::box::RefCount" and c.name == "~RefCount" and self.name_of(c.obj) is not None:
            return [(st, None)]
        if c.cls == "mg::box::RefCount" and c.name in ("Inc", "Dec"):
            x = self.name_of(c.obj)
            if x is None:
                return None
            self.count("references")
            if rs.get(("dead", x)):
                ip.report(st, "a freed buffer is used", c.fn, c.line)
                return []
            n = rs[("ref", x)] + (1 if c.name == "Inc" else -1)
            rs[("ref", x)] = n
            return [(st, None if c.name == "Inc" else int(n == 0))]
        if c.name == "NewShared" and c.cls in (NS + "BufferCopy", NS + "BufferRaw"):
            self.count("allocations")
            x = "n%d" % sum(1 for y in rs["all"] if y[0] == "n")
            P = {T("data", x)}
            if c.cls.endswith("Copy"):
                self.make(ip, st, x, tok("data", x), 0, self.size)
            else:
                a = [ip.norm(st, ip.rvalue(st, v)) for v in c.args]
                if not a:
                    raise AnalysisBroken("a raw buffer without data")
                pos = a[1] if len(a) > 1 else 0
                self.make(ip, st, x, a[0], pos, a[2] if len(a) > 2 else pos)
                rs[("raw", x)] = (self.lin(ip, st, a[0]), self.lin(ip, st, pos))
            rs["poly"] |= P
            t = ("o", ("tmp", x))
            st.store[ptr(t)] = addr(node(x))
            return [(st, ("L", t))]
        if c.qn in ("memcpy", "std::memcpy", "memmove", "__builtin_memcpy"):
            self.count("copies")
            d, s, n = [self.lin(ip, st, ip.norm(st, ip.rvalue(st, v))) for v in c.args]
            self.copy(ip, st, c, d, s, n)
            return [(st, c.args[0])]
        if c.qn.startswith("mg::box::Assert"):
            ip.report(st, "an assertion may fail", c.fn, c.line)
            return []
        if c.name == "PrivCheck":
            return [(st, None)]
        return None

    def cur(self, ip, st, x, f):
        return self.lin(ip, st, ip.norm(st, ip.read(st, fld(node(x), f))))

    def bufs_at(self, ip, st, a):
        """The buffers whose memory the address belongs to by its base."""
        names = {v for v, _ in a[0]}
        res = []
        for x in st.rs["all"]:
            d = self.base(st, x)
            if d[0] and set(v for v, _ in d[0]) <= names and d[0][0][0] in names:
                res.append(x)
        return res

    def base(self, st, x):
        raw = st.rs.get(("raw", x))
        return raw[0] if raw is not None else T("data", x)

    def copy(self, ip, st, c, d, s, n):
        rs = st.rs
        P = rs["poly"]
        if None in (d, s, n) or not entails(P, n):
            ip.report(st, "data is copied with an unknown size or place", c.fn, c.line)
            return
        if entails(P, sub(const(0), n)):
            # Nothing.
            return
        for a, write in ((d, True), (s, False)):
            xs = self.bufs_at(ip, st, a)
            if xs:
                x = xs[0]
                data, pos, cap = (self.cur(ip, st, x, f) for f in ("myRData", "myPos", "myCapacity"))
                if not write:
                    lo, hi = data, add(data, pos)
                else:
                    lo, hi = self.base(st, x), add(data, cap)
                    if x[0] != "n":
                        lo = add(lo, T("pos", x))
                if rs.get(("dead", x)):
                    ip.report(st, "a freed buffer is used", c.fn, c.line)
                elif not entails(P, sub(hi, add(a, n))):
                    ip.report(st, "data is copied beyond the end of a buffer", c.fn, c.line)
                elif not entails(P, sub(a, lo)):
                    ip.report(st, "data which is not read yet is overwritten" if write else "data before a buffer is read",
                              c.fn, c.line)
            else:
                u = T("dst") if write else T("src")
                lim = T("size")
                if not entails(P, sub(a, u)) or not entails(P, sub(add(u, lim), add(a, n))):
                    ip.report(st, "data is copied outside of the memory of the user", c.fn, c.line)
        rs["copied"] = rs.get("copied", ()) + ((d, s, n),)

    # ---- the state after
    def dec(self, P, e):
        if entails(P, e):
            return True
        if entails(P, neg(e)):
            return False
        raise Split(e)

    def zero(self, P, e):
        return self.dec(P, sub(const(0), e)) if entails(P, e) else (self.dec(P, e) and self.dec(P, sub(const(0), e)))

    def same(self, P, a, b):
        return self.zero(P, sub(a, b))

    def cases(self, st, fn):
        """Run the check in each case it depends on."""
        work = [st.rs["poly"]]
        n = 0
        while work:
            P = work.pop()
            if infeasible(frozenset(P)):
                continue
            n += 1
            if n > 300:
                raise AnalysisBroken("too many cases of sizes")
            try:
                fn(P)
            except Split as s:
                work += [P | {s.e}, P | {neg(s.e)}]

    def chain(self, ip, st, v, bad):
        res = []
        while v != 0:
            r = deref(v) if isinstance(v, tuple) and v[0] == "&" else None
            x = self.name_of(r) if r is not None else None
            if x is None:
                bad("a link to a next buffer is not set")
                return None
            if x in res:
                bad("buffers are linked in a loop")
                return None
            if st.rs.get(("dead", x)):
                bad("a freed buffer is left linked")
                return None
            res.append(x)
            v = ip.norm(st, ip.read(st, ptr(fld(node(x), "myNext"))))
        return res

    def pieces(self, ip, st, P, names, old):
        """What the readable part of these buffers consists of."""
        res = []
        for x in names:
            data, pos = self.cur(ip, st, x, "myRData"), self.cur(ip, st, x, "myPos")
            if x in old:
                s = sub(data, self.base(st, x))
                e = add(s, pos)
                was = old[x]
                if not self.dec(P, sub(e, was)):
                    # Became smaller: some bytes in the end are lost.
                    res.append(("old", x, s, e))
                    continue
                if not self.zero(P, sub(was, s)):
                    res.append(("old", x, s, was))
                g = sub(e, was)
                if not self.zero(P, g):
                    res.append(("new", add(self.base(st, x), was), g))
            elif not self.zero(P, pos):
                res.append(("new", data, pos))
        return res

    def check_old(self, P, got, want, bad):
        """The same pieces of existing data."""
        want = [w for w in want if not self.zero(P, sub(w[3], w[2]))]
        for g, w in zip(got, want):
            if g[0] != "old" or g[1] != w[1] or not self.same(P, g[2], w[2]) or not self.same(P, g[3], w[3]):
                bad("the data is not what it has to be: some is lost, repeated or reordered")
                return False
        if len(got) < len(want):
            bad("some data is lost")
            return False
        if len(got) > len(want):
            bad("extra data has appeared")
            return False
        return True

    def match(self, st, P, to, frm, bad, what):
        """The copies made fill these places, in order, with the bytes from these ones."""
        to, frm = list(to), list(frm)
        for d, s, n in st.rs.get("copied", ()):
            if self.zero(P, n):
                continue
            for q in (to, frm):
                while q and self.zero(P, q[0][1]):
                    q.pop(0)
            if not to or not frm:
                bad("%s: extra data is copied" % what)
                return
            for q, a in ((to, d), (frm, s)):
                if not self.same(P, q[0][0], a) or not self.dec(P, sub(q[0][1], n)):
                    bad("%s: the copied data is not %s" % (what, "where it is told to be" if q is to else "the next one of the source"))
                    return
                q[0] = (add(a, n), sub(q[0][1], n))
        if any(not self.zero(P, n) for _, n in frm):
            bad("%s: not all data is copied" % what)
        elif any(not self.zero(P, n) for _, n in to):
            bad("%s: more data is told than it was copied" % what)


def drop(rule, P, segs, n):
    """The pieces without their first n bytes."""
    segs = list(segs)
    while segs:
        if rule.zero(P, n):
            break
        k, x, s, e = segs[0]
        if rule.dec(P, sub(n, sub(e, s))):
            n = sub(n, sub(e, s))
            segs.pop(0)
            continue
        segs[0] = (k, x, add(s, n), e)
        break
    return segs


class Stream(Buf):
    def __init__(self, op, kinds, chain=""):
        super().__init__()
        self.op, self.kinds, self.chain_kinds = op, kinds, chain

    def setup(self, ip, st, this, args):
        rs = st.rs
        rs["poly"] = frozenset()
        rs["all"], rs["keep"] = (), (ARG, RES)
        self.names = ["b%d" % i for i in range(len(self.kinds))]
        self.cnames = ["c%d" % i for i in range(len(self.chain_kinds))]
        self.given(ip, st, self.names, self.kinds)
        self.given(ip, st, self.cnames, self.chain_kinds)
        ks = self.kinds
        rend = wpos = None
        for i, k in enumerate(ks):
            if k in "FP":
                rend = i
        for i, k in enumerate(ks):
            if k in "PE" and (rend is None or i >= rend):
                wpos = i
                break
        at = lambda i: addr(node(self.names[i])) if i is not None else 0
        st.store[ptr(fld(THIS, "myHead"))] = at(0 if ks else None)
        st.store[fld(THIS, "myREnd")] = at(rend)
        st.store[fld(THIS, "myWPos")] = at(wpos)
        st.store[fld(THIS, "myTail")] = at(len(ks) - 1 if ks else None)
        pos = [T("pos", x) for x in self.names]
        free = [sub(T("cap", x), T("pos", x)) for x in self.names]
        rsize, wsize = total(pos), total(free[wpos:] if wpos is not None else [])
        P = set()
        for f, want in (("rsize", rsize), ("wsize", wsize)):
            nz = bool(want[0])
            t = tok(f)
            ip.tinfo[t] = (64, False, "")
            st.store[fld(THIS, "myRSize" if f == "rsize" else "myWSize")] = t if nz else 0
            if nz:
                P |= mkeq(atom(t), want)
        size = T("size")
        P |= {size}
        lim = {"SkipData": rsize, "ReadData": rsize, "PeekData": rsize, "PropagateWritePos": wsize,
               "WriteCopy": add(wsize, const(2 * self.size)), "EnsureWriteSize": add(wsize, const(2 * self.size))}.get(self.op)
        if lim is not None:
            P |= {sub(lim, size)}
        ip.tinfo[tok("size")] = (64, False, "")
        rs["poly"] |= P
        self.rsize, self.wsize = rsize, wsize
        if self.op == "WriteRef":
            st.store[ptr(ARG)] = addr(node("c0")) if self.cnames else 0
        self.count("shapes")

    def end(self, ip, st, val, fn, line):
        self.count("exits")

        def bad(m):
            ip.report(st, m, fn, line)
        v = lambda f: ip.norm(st, ip.read(st, fld(THIS, f)))
        L = self.chain(ip, st, ip.norm(st, ip.read(st, ptr(fld(THIS, "myHead")))), bad)
        if L is None:
            return
        out = []
        if self.op == "PopData":
            r = val[1] if isinstance(val, tuple) and val[0] == "L" else None
            if r is None:
                raise AnalysisBroken("PopData() returns not an object")
            out = self.chain(ip, st, ip.norm(st, ip.read(st, ptr(r))), bad)
            if out is None:
                return
            if set(out) & set(L):
                bad("a buffer is both popped and left in the stream")
                return
        for x in st.rs["all"]:
            n = st.rs[("ref", x)]
            if x in L or x in out:
                if n != 1:
                    bad("a buffer of the stream has a wrong reference count")
                    return
            elif not st.rs.get(("dead", x)):
                bad("a buffer is leaked")
                return
        at = {addr(node(x)): i for i, x in enumerate(L)}
        ends = {}
        for f in ("myREnd", "myWPos", "myTail"):
            e = v(f)
            if e != 0 and e not in at:
                bad("%s points not into the stream" % f)
                return
            ends[f] = at[e] if e != 0 else None
        rsz, wsz = self.lin(ip, st, v("myRSize")), self.lin(ip, st, v("myWSize"))
        self.cases(st, lambda P: self.check(ip, st, P, L, out, ends, rsz, wsz, bad))

    def check(self, ip, st, P, L, out, ends, rsz, wsz, bad):
        rend, wpos, tail = ends["myREnd"], ends["myWPos"], ends["myTail"]
        pos = [self.cur(ip, st, x, "myPos") for x in L]
        free = [sub(self.cur(ip, st, x, "myCapacity"), p) for x, p in zip(L, pos)]
        for p, f in zip(pos, free):
            if not entails(P, p) or not entails(P, f):
                bad("a buffer can have more data than its capacity")
                return
        for p, f in zip(pos, free):
            if self.zero(P, p) and self.zero(P, f):
                bad("a used up buffer is kept in the stream")
                return
        if tail != (len(L) - 1 if L else None):
            bad("the tail of the stream is wrong")
            return
        last = None
        for i, p in enumerate(pos):
            if not self.zero(P, p):
                last = i
        if rend != last:
            bad("the last readable buffer is wrong")
            return
        for i in range((last or 0) if last is not None else 0):
            if self.zero(P, pos[i]):
                bad("an empty buffer is between the readable ones")
                return
        w = None
        for i in range(last or 0, len(L)):
            if not self.zero(P, free[i]):
                w = i
                break
        if wpos != w:
            bad("the first writable buffer is wrong")
            return
        for i in range(w + 1 if w is not None else len(L), len(L)):
            if self.zero(P, free[i]):
                bad("a buffer without a space is between the writable ones")
                return
        if not self.same(P, rsz, total(pos)):
            bad("the readable size is wrong")
            return
        if not self.same(P, wsz, total(free[w:] if w is not None else [])):
            bad("the writable size is wrong")
            return
        # Content.
        op = self.op
        old = {x: T("pos", x) for x in self.names + self.cnames}
        was = [("old", x, const(0), T("pos", x)) for x in self.names]
        got = self.pieces(ip, st, P, L, old)
        size = T("size")
        if op in ("SkipData", "ReadData"):
            self.check_old(P, got, drop(self, P, was, size), bad)
        elif op in ("PeekData", "EnsureWriteSize", "ToString"):
            self.check_old(P, got, was, bad)
        elif op == "WriteRef":
            self.check_old(P, got, was + [("old", x, const(0), T("pos", x)) for x in self.cnames], bad)
        elif op == "Clear":
            self.check_old(P, got, [], bad)
        elif op == "PopData":
            self.check_old(P, got, [], bad)
            self.check_old(P, self.pieces(ip, st, P, out, old), was, bad)
        else:
            k = [g for g in got if g[0] == "old"]
            if not self.check_old(P, k, was, bad):
                return
            i = got.index(k[-1]) + 1 if k else 0
            new = got[i:]
            if len(new) + len(k) != len(got):
                bad("new data is placed before the old one")
            elif op == "WriteCopy":
                self.match(st, P, [(g[1], g[2]) for g in new], [(T("src"), size)], bad, "write")
            elif not self.same(P, total([g[2] for g in new]), size):
                bad("the data got is not what the buffers tell")
            else:
                self.check_filled(ip, st, P, L, new, bad)
        if op == "EnsureWriteSize" and not self.dec(P, sub(wsz, size)):
            bad("the space is not enough")
        if op in ("ReadData", "PeekData"):
            frm = [(add(T("data", x), a), sub(b, a)) for _, x, a, b in self.head(P, was, size)]
            self.match(st, P, [(T("dst"), size)], frm, bad, "read")

    def head(self, P, segs, n):
        """The first n bytes."""
        res = []
        for k, x, s, e in segs:
            if self.zero(P, n):
                break
            if self.dec(P, sub(n, sub(e, s))):
                res.append((k, x, s, e))
                n = sub(n, sub(e, s))
            else:
                res.append((k, x, s, add(s, n)))
                break
        return res

    def check_filled(self, ip, st, P, L, new, bad):
        """The space is filled without gaps: each buffer is full before a next one is used."""
        for i, x in enumerate(L):
            if any(g[1] == add(T("data", x), T("pos", x)) for g in new[:-1]):
                if not self.same(P, self.cur(ip, st, x, "myPos"), self.cur(ip, st, x, "myCapacity")):
                    bad("a gap is left in the data got")


def shapes(n):
    """All states of a stream with up to n buffers."""
    res = [""]

    def grow(s):
        if len(s) > n:
            return
        if s:
            res.append(s)
        for k in "FPE":
            if k == "E" or "E" not in s:
                grow(s + k)
    grow("")
    return res


@check("D05")
def d05(res):
    rn = "stream"
    N = 3
    res.rule(rn, "each operation of a stream of buffers walked on each state of up to %d full, partial or empty buffers of any sizes, "
             "with any size of an argument: content, sizes, ends of the stream, ownership and bounds of the copies." % N)
    p = res.prog("epoll", ("net",))
    Buf.size = copy_size(res, p, rn)
    dtors(res, p, rn)
    for op in ("SkipData", "ReadData", "PeekData", "PopData", "Clear", "EnsureWriteSize", "PropagateWritePos", "WriteCopy",
               "WriteRef"):
        f = p.fn(NS + "BufferStream::" + op)
        for s in shapes(N):
            if op == "PropagateWritePos" and not s:
                continue
            for ch in (("", "F", "P", "FF", "FP", "PF", "PP") if op == "WriteRef" else ("",)):
                r = Stream(op, s, ch)
                args = {"SkipData": [tok("size")], "EnsureWriteSize": [tok("size")], "PropagateWritePos": [tok("size")],
                        "ReadData": [tok("dst"), tok("size")], "PeekData": [tok("dst"), tok("size")],
                        "WriteCopy": [tok("src"), tok("size")], "WriteRef": [("L", ARG)]}.get(op, [])
                res.walk(p, r, f, rn, args=args, setup=r.setup)
    for k, n in (("shapes", 100), ("exits", 300), ("copies", 30), ("references", 100), ("allocations", 10)):
        res.need(rn, k, n)


class Dtor(Buf):
    """A list of buffers is freed till the first one which is still owned by somebody else, without a recursion."""
    def __init__(self, refs):
        super().__init__()
        self.refs = refs

    def setup(self, ip, st, this, args):
        st.rs["all"], st.rs["keep"], st.rs["poly"] = (), (), frozenset()
        names = ["b%d" % i for i in range(len(self.refs))]
        for i, r in enumerate(self.refs):
            self.make(ip, st, names[i], tok("data", i), tok("pos", i), tok("cap", i), r,
                      addr(node(names[i + 1])) if i + 1 < len(names) else 0)
        self.count("chains")

    def free(self, ip, st, x):
        st.rs[("dead", x)] = 1
        if ip.norm(st, ip.read(st, ptr(fld(node(x), "myNext")))) != 0:
            # Would be a recursion over a long list.
            st.rs["recursion"] = 1

    def end(self, ip, st, val, fn, line):
        self.count("exits")
        if st.rs.get("recursion"):
            ip.report(st, "a list of buffers is freed recursively: a long one overflows the stack", fn, line)
        alive = False
        for i, r in enumerate(self.refs[1:], 1):
            x = "b%d" % i
            if not alive and st.rs[("ref", x)] != r - 1:
                ip.report(st, "the next buffer is not unreferenced exactly once", fn, line)
                return
            if alive and st.rs[("ref", x)] != r:
                ip.report(st, "a buffer of somebody else is unreferenced", fn, line)
                return
            alive = alive or r > 1
            if bool(st.rs.get(("dead", x))) == alive:
                ip.report(st, "a buffer is freed while it is owned" if alive else "a buffer is leaked", fn, line)
                return


def dtors(res, p, rn):
    fs = [f for f in p.fns(NS + "Buffer::~Buffer") if not f.implicit]
    if len(fs) != 1:
        raise AnalysisBroken("destructor of Buffer")
    for refs in ((0,), (0, 1), (0, 2), (0, 1, 1), (0, 1, 2), (0, 2, 1), (0, 1, 1, 1), (0, 1, 2, 1), (0, 1, 1, 3)):
        r = Dtor(refs)
        res.walk(p, r, fs[0], rn, this=node("b0"), setup=r.setup)


class Ctor(Rule):
    """A copy-buffer has all of its memory free."""
    got = None

    def end(self, ip, st, val, fn, line):
        v = [ip.norm(st, ip.read(st, fld(THIS, f))) for f in ("myPos", "myCapacity", "myRData")]
        Ctor.got = v[1]
        if v[0] != 0 or not isinstance(v[1], int) or v[2] != addr(("e", fld(THIS, "myCopyData"), 0)):
            ip.report(st, "a new buffer is not empty or is not using its own memory", fn, line)


def copy_size(res, p, rn):
    fs = [f for f in p.fns(BUF + "::BufferCopy") if not f.implicit]
    if len(fs) != 1:
        raise AnalysisBroken("constructor of BufferCopy")
    res.walk(p, Ctor(), fs[0], rn)
    if not isinstance(Ctor.got, int):
        raise AnalysisBroken("capacity of BufferCopy is %s" % (Ctor.got,))
    return Ctor.got


# ---------------------------------------------------------------------- lists
def link(i):
    return ("o", ("link", i))


class Queue(Buf):
    """Lists of chains of buffers, which can be shared with others and hence are never changed."""
    def __init__(self, op, links, ext=0, count=0, args=None):
        super().__init__()
        self.op, self.links, self.ext, self.vcount = op, links, ext, count
        self.args = args

    def setup(self, ip, st, this, args):
        rs = st.rs
        rs["poly"] = frozenset()
        rs["all"], rs["keep"] = (), (ARG, RES, ("o", ("off",)), ("o", ("vec",)), ("o", ("other",))) + tuple(
            link(i) for i in range(len(self.links)))
        first = 0
        self.chains = []
        for i, ks in enumerate(self.links):
            names = ["l%db%d" % (i, j) for j in range(len(ks))]
            self.chains.append(names)
            self.given(ip, st, names, ks)
            if names and self.ext:
                rs[("ref", names[0])] += 1
            r = link(i)
            ip.settype(r, NS + "BufferLink")
            st.store[ptr(fld(r, "myHead"))] = addr(node(names[0])) if names else 0
            st.store[fld(r, "myNext")] = addr(link(i + 1)) if i + 1 < len(self.links) else 0
        n = len(self.links)
        if self.op in ("SkipData", "SkipEmptyPrefix"):
            self.list_at(st, THIS, 0, n)
        elif self.op == "AppendMove":
            # The last link is to be appended.
            self.list_at(st, THIS, 0, n - 1)
        elif self.op == "Append":
            self.list_at(st, THIS, 0, n - 1)
            self.list_at(st, ("o", ("other",)), n - 1, n)
        elif self.op.startswith("AppendRef"):
            self.list_at(st, THIS, 0, n - 1)
        flat = [x for c in self.chains for x in c]
        self.flat = flat
        off = T("off")
        P = {off, sub(U32, off), T("size")}
        ip.tinfo[tok("off")] = (32, False, "")
        ip.tinfo[tok("size")] = (64, False, "")
        full = [x for i, c in enumerate(self.chains) for x, k in zip(c, self.links[i]) if k in "FP"]
        st.store[("o", ("off",))] = tok("off")
        if full:
            # A sent buffer is not left in the beginning.
            P |= {sub(sub(T("pos", full[0]), off), ONE if self.op != "SkipEmptyPrefix" else const(0))}
        else:
            P |= mkeq(off, const(0))
        if self.op == "SkipData":
            P |= {sub(sub(total([T("pos", x) for x in flat]), off), T("size"))}
        if self.op.startswith("Copy"):
            P |= {sub(const(self.size + self.size // 2), T("pos", x)) for x in full}
            P |= mkeq(off, const(0))
        if self.op == "CopyRaw":
            P |= {sub(const(4 * self.size), T("size"))}
        if self.op == "Ref":
            P |= {sub(const(4 * ((1 << 32) - 1)), T("size"))}
        rs["poly"] |= P
        self.count("queues")

    def list_at(self, st, r, a, b):
        r = fld(r, "myLinks")
        st.store[fld(r, "myFirst")] = addr(link(a)) if a < b else 0
        st.store[fld(r, "myLastLink")] = addr(fld(link(b - 1), "myNext") if a < b else fld(r, "myFirst"))
        if a < b:
            st.store[fld(link(b - 1), "myNext")] = 0

    def store(self, ip, st, r, v, fn, line):
        super().store(ip, st, r, v, fn, line)
        x = self.name_of(r)
        if x is not None and x[0] == "l" and not self.op.startswith("Read"):
            if not any(f.kind == "dtor" and t == node(x) for f, _, t in ip.frames):
                ip.report(st, "a buffer which can be shared is changed: others lose or repeat data", fn, line)

    def delete(self, ip, st, v, nd, fn, line):
        r = deref(v) if isinstance(v, tuple) and v[0] == "&" else None
        if r is not None and self.name_of(r) is None:
            if st.rs.get(("ldead", r)):
                ip.report(st, "a link is freed twice", fn, line)
            st.rs[("ldead", r)] = 1
            return None
        return super().delete(ip, st, v, nd, fn, line)

    def touch(self, ip, st, r, fn, line):
        super().touch(ip, st, r, fn, line)
        q = root_of(r)
        if st.rs.get(("ldead", q)) and not any(f.kind == "dtor" for f, _, t in ip.frames):
            ip.report(st, "a freed link is used", fn, line)

    def queue(self, ip, st, r, bad):
        """Chains in the list."""
        r = fld(r, "myLinks")
        v = ip.norm(st, ip.read(st, fld(r, "myFirst")))
        res = []
        end = fld(r, "myFirst")
        while v != 0:
            q = deref(v) if isinstance(v, tuple) and v[0] == "&" else None
            if q is None or len(res) > 8:
                bad("the links are broken")
                return None
            if st.rs.get(("ldead", q)):
                bad("a freed link is left in the list")
                return None
            c = self.chain(ip, st, ip.norm(st, ip.read(st, ptr(fld(q, "myHead")))), bad)
            if c is None:
                return None
            res.append(c)
            end = fld(q, "myNext")
            v = ip.norm(st, ip.read(st, end))
        if ip.norm(st, ip.read(st, fld(r, "myLastLink"))) != addr(end):
            bad("the end of the list is wrong")
            return None
        return res

    def end(self, ip, st, val, fn, line):
        self.count("exits")

        def bad(m):
            ip.report(st, m, fn, line)
        op = self.op
        Q = []
        if op in ("SkipData", "SkipEmptyPrefix", "Append", "AppendMove") or op.startswith("AppendRef"):
            Q = self.queue(ip, st, THIS, bad)
            if Q is None:
                return
        if op == "Append":
            if self.queue(ip, st, ("o", ("other",)), bad) != []:
                bad("the source list is not empty")
        out = []
        if op.startswith("Copy") or op == "Ref":
            r = val[1] if isinstance(val, tuple) and val[0] == "L" else None
            if r is None:
                raise AnalysisBroken("%s returns not an object" % op)
            out = self.chain(ip, st, ip.norm(st, ip.read(st, ptr(r))), bad)
            if out is None:
                return
        # References.
        want = {}
        heads = [c[0] for c in Q if c] + out[:1]
        if op.startswith("Copy") or op.startswith("Vec") or op.startswith("Read"):
            heads += [c[0] for c in self.chains if c]
        if self.ext:
            heads += [c[0] for c in self.chains if c]
        if op == "AppendRef":
            heads += [self.chains[-1][0]]
        work = list(heads)
        for x in heads:
            want[x] = want.get(x, 0) + 1
        seen = set()
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            v = ip.norm(st, ip.read(st, ptr(fld(node(x), "myNext"))))
            r = deref(v) if isinstance(v, tuple) and v[0] == "&" else None
            y = self.name_of(r) if r is not None else None
            if y is not None:
                want[y] = want.get(y, 0) + 1
                work.append(y)
        for x in st.rs["all"]:
            if want.get(x, 0) != st.rs[("ref", x)] or (x in want) == bool(st.rs.get(("dead", x))):
                bad("a buffer is leaked" if want.get(x, 0) < st.rs[("ref", x)] else "a buffer is freed while it is used")
                return
        vec = None
        if op.startswith("Vec") or op.startswith("Read"):
            n = ip.norm(st, val)
            if not isinstance(n, int):
                n = self.lin(ip, st, n)
                n = n[1] if n is not None and not n[0] else None
            if n is None:
                raise AnalysisBroken("the number of vectors is not known: %s" % (val,))
            vec = [tuple(self.lin(ip, st, ip.norm(st, ip.read(st, fld(("e", ("o", ("vec",)), i), f)))) for f in ("myData", "mySize"))
                   for i in range(n)]
        self.cases(st, lambda P: self.check(ip, st, P, Q, out, vec, bad))

    def check(self, ip, st, P, Q, out, vec, bad):
        op = self.op
        off = T("off")
        was = [("old", x, const(0), T("pos", x)) for x in self.flat]
        if op in ("SkipData", "SkipEmptyPrefix", "Append", "AppendMove") or op.startswith("AppendRef"):
            got = [("old", x, const(0), T("pos", x)) for c in Q for x in c if not self.zero(P, T("pos", x))]
            if op[0] == "S":
                o = self.lin(ip, st, ip.norm(st, ip.read(st, ("o", ("off",)))))
                n = add(off, T("size")) if op == "SkipData" else off
                left = drop(self, P, was, n)
                if got:
                    if not self.dec(P, sub(sub(got[0][3], o), ONE)) or not self.dec(P, o):
                        bad("the offset is not in the first buffer")
                        return
                    got = [("old", got[0][1], o, got[0][3])] + got[1:]
                elif not self.zero(P, o):
                    bad("the offset is left in an empty queue")
                    return
                self.check_old(P, got, left, bad)
                if op == "SkipEmptyPrefix" and Q and (not Q[0] or self.zero(P, T("pos", Q[0][0]))):
                    bad("an empty buffer is left in the beginning")
            else:
                self.check_old(P, got, was, bad)
        elif op.startswith("Vec") or op.startswith("Read"):
            if op == "Read":
                want = [(add(T("data", x), T("pos", x)), sub(T("cap", x), T("pos", x))) for x in self.flat]
            else:
                want = [(add(T("data", x), a), sub(b, a)) for _, x, a, b in drop(self, P, was, off) if not self.zero(P, sub(b, a))]
            want = want[:self.vcount]
            if len(vec) != len(want):
                bad("a wrong number of vectors is filled")
                return
            for (a, n), (b, m) in zip(vec, want):
                if a is None or n is None or not self.same(P, a, b) or not self.same(P, n, m):
                    bad("a vector is not the next part of the data")
                    return
        else:
            pos = [(self.cur(ip, st, x, "myRData"), self.cur(ip, st, x, "myPos")) for x in out]
            if op == "Ref":
                acc = const(0)
                for a, n in pos:
                    if a is None or n is None or not self.same(P, a, add(T("src"), acc)) or self.zero(P, n):
                        bad("the buffers don't reference the data in order")
                        return
                    acc = add(acc, n)
                if not self.same(P, acc, T("size")):
                    bad("not all data is referenced")
            else:
                for x, (_, n) in zip(out, pos):
                    if x[0] != "n":
                        bad("the copy has buffers of the source")
                        return
                    if n is None or self.zero(P, n):
                        bad("a copy has an empty buffer")
                        return
                frm = [(T("src"), T("size"))] if op == "CopyRaw" else [(T("data", x), T("pos", x)) for x in self.flat]
                self.match(st, P, pos, frm, bad, "copy")


class RawCtor(Buf):
    def setup(self, ip, st, this, args):
        st.rs["poly"], st.rs["all"] = frozenset(), ()
        ip.tinfo[tok("size")] = (32, False, "")

    def end(self, ip, st, val, fn, line):
        v = [ip.norm(st, ip.read(st, fld(THIS, f))) for f in ("myRData", "myPos", "myCapacity")]
        self.count("constructors")
        if v != [tok("src"), tok("size"), tok("size")]:
            ip.report(st, "a raw buffer is not the data it was given", fn, line)


@check("D06")
def d06(res):
    rn = "queue"
    res.rule(rn, "each operation of queues of shared buffers, of vectors for system calls and of copying walked on up to 3 buffers in "
             "up to 3 chains, of any sizes, some empty, from any offset: the bytes, their order, ownership, no changes of shared ones.")
    p = res.prog("epoll", ("net",))
    Buf.size = copy_size(res, p, rn)
    dtors(res, p, rn)
    OFF, VEC = ("L", ("o", ("off",))), addr(("e", ("o", ("vec",)), 0))
    raw = [f for f in p.fns(NS + "BufferRaw::BufferRaw") if len(f.params) == 2]
    if len(raw) != 1:
        raise AnalysisBroken("constructor of BufferRaw")
    r = RawCtor()
    res.walk(p, r, raw[0], rn, args=[tok("src"), tok("size")], setup=r.setup)

    def go(f, r, args):
        res.walk(p, r, f, rn, args=args, setup=r.setup)

    def pick(name, *types):
        fs = [f for f in p.fns(NS + name) if len(f.params) == len(types) and
              all(t in x[2] + ("&&" if x[3] == 2 else "") for t, x in zip(types, f.params))]
        if len(fs) != 1:
            raise AnalysisBroken("%d functions %s%s" % (len(fs), name, types))
        return fs[0]
    one = ["", "F", "E", "FF", "EF", "FE"]
    lists = [()] + [(a,) for a in one + ["FFF", "FEF"]] + [(a, b) for a in one for b in one] + [("F", "E", "F"), ("E", "E", "F")]
    L = "BufferLinkList::"
    for ls in lists:
        for ext in (0, 1):
            go(pick(L + "SkipData", "", ""), Queue("SkipData", ls, ext), [OFF, tok("size")])
            go(pick(L + "SkipEmptyPrefix", ""), Queue("SkipEmptyPrefix", ls, ext), [OFF])
        if ls and ls[0]:
            go(pick(L + "AppendMove", "BufferLink *"), Queue("AppendMove", ls), [addr(link(len(ls) - 1))])
            go(pick(L + "Append", "BufferLinkList"), Queue("Append", ls), [("L", ("o", ("other",)))])
            if ls[-1]:
                x = addr(node("l%db0" % (len(ls) - 1)))
                go(pick(L + "AppendRef", "Buffer *"), Queue("AppendRef", ls), [x])
        for n in (1, 2, 3):
            go(pick("BuffersToIOVecsForWrite", "BufferLink *", "", "", ""), Queue("Vec", ls, 0, n),
               [addr(link(0)) if ls else 0, tok("off"), VEC, n])
        if sum(len(x) for x in ls) <= 3:
            go(pick("BuffersCopy", "BufferLink *"), Queue("CopyLinks", ls), [addr(link(0)) if ls else 0])
    for ks in ["", "F", "E", "FF", "EF", "FE", "FFF", "FEF", "EEF"]:
        x = addr(node("l0b0")) if ks else 0
        for n in (1, 2, 3):
            go(pick("BuffersToIOVecsForWrite", "Buffer *", "", "", ""), Queue("Vec", (ks,), 0, n), [x, tok("off"), VEC, n])
        go(pick("BuffersCopy", "Buffer *"), Queue("CopyBufs", (ks,)), [x])
    for ks in ["P", "E", "PE", "EE", "PEE"]:
        for n in (1, 2, 3):
            go(pick("BuffersToIOVecsForRead", "Buffer *", "", ""), Queue("Read", (ks,), 0, n), [addr(node("l0b0")), VEC, n])
    go(pick("BuffersCopy", "void *", ""), Queue("CopyRaw", ()), [tok("src"), tok("size")])
    go(pick("BuffersRef", "void *", ""), Queue("Ref", ()), [tok("src"), tok("size")])
    for k, n in (("queues", 200), ("exits", 300), ("copies", 20), ("references", 50), ("allocations", 10), ("chains", 5)):
        res.need(rn, k, n)
