"""D04: asynchronous resolve of domain names."""
from ..core import check
from ..engine import addr, deref, under
from ..ir import AnalysisBroken
from ..sysmodel import Sys, errc

NET = "mg::net::"
CTX, WRK, REQ = NET + "DomainToIPContext", NET + "DomainToIPWorker", NET + "DomainToIPRequest"
THIS = ("name", "this")
INF64 = 0xffffffffffffffff


def fld(r, n):
    return ("f", r, n)


MAIN, HEAP, FRONT, CANCEL = [fld(THIS, n) for n in ("myMain", "myMainHeap", "myFront", "myFrontCancel")]
EAI_SYSTEM = -11


class Dns(Sys):
    max_loop = 2

    def __init__(self, p, what):
        super().__init__(p)
        self.what = what
        e = p.enum("mg::box::ErrorCode")
        self.CANCEL, self.TIMEOUT, self.NOADDR = e["ERR_BOX_CANCEL"], e["ERR_BOX_TIMEOUT"], e["ERR_NET_ADDR_NOT_AVAIL"]

    def setup(self, f):
        def fn(ip, st, this, args):
            self.args = args
            self.f = f
            ip.settype(THIS, f.cls)
            if f.cls == CTX:
                st.rs[("c", THIS)] = (0, 0, 0, 0, 0)
                st.rs["own"] = THIS
                st.store[fld(THIS, "myIndex")] = -1
        return fn

    # ---- a request: in the list, in the heap, times told, references dropped, cancelled
    def c(self, st, r):
        return st.rs.get(("c", r))

    def upd(self, st, r, **kw):
        v = dict(zip(("main", "heap", "told", "unref", "cancel"), self.c(st, r)))
        v.update(kw)
        st.rs[("c", r)] = tuple(v.values())

    def fresh(self, ip, st, site, main, heap, cancel=0):
        r = ("o", ("ctx", site.ctx, site.sid, cancel and heap))
        if self.c(st, r) is not None:
            self.finished(ip, st, r, lambda m: self.rep(ip, st, m, site))
        st.rs.pop(("why", r), None)
        st.rs.pop(("gone", r), None)
        if st.rs.get("looked") == r:
            st.rs["looked"] = None
        ip.drop_under(st, r)
        ip.settype(r, CTX)
        st.rs[("c", r)] = (main, heap, 0, 0, cancel)
        self.index(ip, st, r)
        return r

    def index(self, ip, st, r):
        if self.c(st, r)[1]:
            v = ip.tok(st, ("idx", r))
            ip.refine(st, v, lo=0, hi=0x7fffffff)
        else:
            v = -1
        st.store[fld(r, "myIndex")] = v

    def which(self, ip, st, v):
        if isinstance(v, tuple):
            r = deref(v)
            if self.c(st, r) is not None:
                return r
        return None

    def branch_empty(self, ip, st, q, val=(1, 0)):
        """Is the container empty?"""
        k = ("empty", q)
        if st.rs.get(k) is not None:
            return [(st, val[0] if st.rs[k] else val[1])]
        s2 = st.copy()
        st.rs[k], s2.rs[k] = True, False
        return [(st, val[0]), (s2, val[1])]

    def on_other(self, ip, st, c):
        rs = st.rs
        q = c.qn
        n = c.name
        if q.startswith("mg::box::Assert"):
            self.rep(ip, st, "an assertion may fail", c)
            return None
        o = c.obj
        if c.cls and c.cls.startswith("mg::box::DoublyList<"):
            return self.main(ip, st, c)
        if c.cls and "BinaryHeap" in c.cls:
            return self.heap(ip, st, c)
        if c.cls and c.cls.startswith("mg::box::ForwardList<"):
            return self.fwd(ip, st, c)
        if n in ("PrivUnref", "PrivRef"):
            return self.ref(ip, st, c)
        if q == "mg::box::GetMilliseconds":
            v = ip.tok(st, ("now", c.ctx, c.sid))
            ip.refine(st, v, lo=0, hi=1 << 62)
            rs["now"] = v
            return [(st, v)]
        if q == "mg::box::Sleep":
            return [(st, None)]
        if q == CTX + "::Process" and self.what != "Process":
            return self.process(ip, st, c)
        if n == "c_str":
            return [(st, ("t", ("cstr", o)))]
        if c.cls and c.cls.startswith("std::function<") and n == "operator()":
            return self.callback(ip, st, c)
        if q == "getaddrinfo":
            return self.resolve(ip, st, c)
        if q == "freeaddrinfo":
            a = self.arg(ip, st, c, 0)
            self.count("frees")
            if rs.get("res") != a:
                self.rep(ip, st, "a wrong result of a resolve is freed, or it is freed twice", c)
            rs["res"] = None
            return [(st, None)]
        if q == "gai_strerror":
            return [(st, ("t", ("str",)))]
        if q == NET + "Host::Set":
            a = self.arg(ip, st, c, 0)
            if isinstance(a, tuple) and a[0] == "ld" and a[1][0] == "f" and a[1][2] == "ai_addr":
                fam = ip.norm(st, ip.read(st, fld(a[1][1], "ai_family")))
                rs["fam"] = any(ip.eq(st, fam, x) is True for x in (2, 10))
                if rs.get("res") is None:
                    self.rep(ip, st, "a result of a resolve is used when there is none", c)
            else:
                rs["fam"] = False
            return [(st, None)]
        if q in (NET + "Host::operator!=", NET + "Host::operator=="):
            s2 = st.copy()
            eq = q.endswith("==")
            return [(st, int(eq)), (s2, int(not eq))]
        if c.cls and c.cls.startswith("std::vector<") and "DomainEndpoint" in c.cls:
            return self.vector(ip, st, c)
        if c.cls and "__normal_iterator" in c.cls or n in ("operator!=", "operator==") and "__gnu_cxx" in q:
            if n in ("operator!=", "operator=="):
                s2 = st.copy()
                return [(st, 1), (s2, 0)]
            if n == "operator*":
                return [(st, ("L", ("o", ("elem",))))]
            return [(st, None)]
        return None

    def vector(self, ip, st, c):
        rs = st.rs
        n = c.name
        if n in ("push_back", "emplace_back"):
            self.count("endpoints")
            rs["pushed"] = True
            if not rs.get("fam"):
                self.rep(ip, st, "an address of an unknown family is told", c)
            return [(st, None)]
        if n == "empty":
            return [(st, int(not rs.get("pushed")))]
        if n == "size":
            return [(st, int(bool(rs.get("pushed"))))]
        if n in ("begin", "end"):
            return [(st, ("t", ("it", n)))]
        if n == "vector":
            return [(st, ("L", c.obj))]
        return [(st, None)]

    def main(self, ip, st, c):
        rs = st.rs
        n = c.name
        self.count("queue_ops")
        if n == "IsEmpty":
            return self.branch_empty(ip, st, "queue")
        if n == "PopFirst":
            if rs.get(("empty", "queue")) is not False:
                self.rep(ip, st, "a request is taken while there may be none", c)
            r = self.fresh(ip, st, c, 0, 1)
            rs["top"] = None
            if not rs.get("expired_checked"):
                self.rep(ip, st, "a request is handled while older ones may have timed out", c)
            rs[("empty", "queue")] = None
            return [(st, addr(r))]
        if n in ("Remove", "Append"):
            r = self.which(ip, st, self.arg(ip, st, c, 0))
            if r is None:
                self.rep(ip, st, "a wrong request is put or removed", c)
                return [(st, None)]
            if self.c(st, r)[0] == int(n == "Append"):
                self.rep(ip, st, "a request is %s twice" % ("queued" if n == "Append" else "removed"), c)
            self.upd(st, r, main=int(n == "Append"))
            rs[("empty", "queue")] = False if n == "Append" else None
            return [(st, None)]
        return None

    def heap(self, ip, st, c):
        rs = st.rs
        n = c.name
        self.count("queue_ops")
        if n == "Count":
            v = ip.tok(st, ("count", c.ctx, c.sid))
            s2 = st.copy()
            res = []
            for s, e in ((st, True), (s2, False)):
                if s.rs.get(("empty", "queue")) in (e, None):
                    s.rs[("empty", "queue")] = e
                    if not e:
                        ip.refine(s, v, lo=1, hi=1 << 30)
                    res.append((s, 0 if e else v))
            return res
        if n == "GetTop":
            if rs.get(("empty", "queue")) is not False:
                self.rep(ip, st, "the first request is looked at while there may be none", c)
            if rs.get("top") is None:
                rs["top"] = self.fresh(ip, st, c, 1, 1)
            rs["looked"] = rs["top"]
            return [(st, addr(rs["top"]))]
        if n in ("RemoveTop", "Remove", "Push"):
            r = rs.get("top") if n == "RemoveTop" else self.which(ip, st, self.arg(ip, st, c, 0))
            if r is None:
                self.rep(ip, st, "a wrong request is put or removed", c)
                return [(st, None)]
            if self.c(st, r)[1] == int(n == "Push"):
                self.rep(ip, st, "a request is %s twice" % ("queued" if n == "Push" else "removed"), c)
            self.upd(st, r, heap=int(n == "Push"))
            self.index(ip, st, r)
            rs["top"] = None
            return [(st, None)]
        return None

    def fwd(self, ip, st, c):
        rs = st.rs
        n = c.name
        o = c.obj
        self.count("queue_ops")
        objs = [o] + [a[1] for a in c.args if isinstance(a, tuple) and a[0] == "L"]
        shared = self.f.cls == WRK and any(under(x, THIS) for x in objs)
        if shared:
            self.count("guarded")
            if fld(THIS, "myMutex") not in self.held(st):
                self.rep(ip, st, "requests of other threads are touched without the lock", c)
        if c.kind == "ctor" and not c.args:
            rs[("empty", o)] = True
            return [(st, ("L", o))]
        if n.startswith("~"):
            if rs.get(("empty", o)) is not True:
                self.rep(ip, st, "requests are lost", c)
            return [(st, None)]
        if n == "operator=" or c.kind == "ctor":
            src = c.args[0][1]
            if n == "operator=" and rs.get(("empty", o)) is not True:
                self.rep(ip, st, "requests are lost", c)
            rs[("empty", o)] = rs.get(("empty", src))
            rs[("from", o)] = src
            rs[("empty", src)] = True
            rs["moved"] = rs.get("moved", ()) + (src,)
            return [(st, ("L", o))]
        if n == "IsEmpty":
            return self.branch_empty(ip, st, o)
        if n == "Append":
            r = self.which(ip, st, self.arg(ip, st, c, 0))
            if r is None:
                self.rep(ip, st, "a wrong request is queued", c)
            rs["put"] = rs.get("put", ()) + ((o, r),)
            rs["was"] = rs.get(("empty", o))
            rs[("empty", o)] = False
            return [(st, None)]
        if n == "PopFirst":
            if rs.get(("empty", o)) is not False:
                self.rep(ip, st, "a request is taken while there may be none", c)
            src = rs.get(("from", o), o)
            rs[("empty", o)] = None
            if src == FRONT:
                return [(st, addr(self.fresh(ip, st, c, 0, 0)))]
            if rs.get(("empty", ("front",))) is not True and not self.front_done(st):
                self.rep(ip, st, "a cancel is handled before the request it cancels is taken: it is not canceled", c)
            s2 = st.copy()
            r = self.fresh(ip, st, c, 1, 1, 1)
            r2 = self.fresh(ip, s2, c, 0, 0, 1)
            s2.rs["gone", r2] = True
            for s in (st, s2):
                s.rs["top"] = None
            return [(st, addr(r)), (s2, addr(r2))]
        return None

    def front_done(self, st):
        """All the new requests were taken."""
        for k, v in st.rs.items():
            if isinstance(k, tuple) and k[0] == "from" and v == FRONT and st.rs.get(("empty", k[1])) is True:
                return True
        return False

    def ref(self, ip, st, c):
        rs = st.rs
        r = c.obj
        v = self.c(st, r)
        if v is None:
            return None if c.cls != CTX else [(st, None)]
        if c.name == "PrivRef":
            self.upd(st, r, unref=v[3] - 1)
            return [(st, None)]
        self.count("unrefs")
        lim = 1 + v[4]
        if rs.get(("gone", r)):
            lim = 1
        if v[3] >= lim:
            self.rep(ip, st, "a request is released more times than it is owned", c)
        if v[0] or v[1]:
            self.rep(ip, st, "a request is released while it is in the queue", c)
        self.upd(st, r, unref=v[3] + 1)
        if v[3] + 1 == lim and not v[2] and not rs.get(("gone", r)):
            self.rep(ip, st, "a request is released before its end is told: the end is never told", c)
        return [(st, None)]

    def process(self, ip, st, c):
        """Checked on its own: tells the end once."""
        r = c.obj
        v = self.c(st, r)
        self.count("processed")
        if self.held(st):
            self.rep(ip, st, "a resolve is done under the lock", c)
        if v is None or v[0] or v[1] or v[3]:
            self.rep(ip, st, "a finished or queued request is resolved", c)
            return [(st, None)]
        if v[2]:
            self.rep(ip, st, "a request is told twice", c)
        self.upd(st, r, told=1)
        return [(st, None)]

    # ---- the end of a request
    def callback(self, ip, st, c):
        rs = st.rs
        self.count("callbacks")
        r = c.obj[1] if c.obj[0] == "f" else None
        v = self.c(st, r) if r is not None else None
        if v is None:
            self.rep(ip, st, "a callback of an unknown request is called", c)
            return [(st, None)]
        if self.held(st):
            self.rep(ip, st, "a callback is called under the lock", c)
        if v[2]:
            self.rep(ip, st, "a request is told twice", c)
        if v[0] or v[1]:
            self.rep(ip, st, "a request is told while it is still queued: it is told again later", c)
        if v[3]:
            self.rep(ip, st, "a request is told after it is released", c)
        if rs.get(("gone", r)):
            self.rep(ip, st, "a finished request is told again", c)
        self.upd(st, r, told=1)
        if self.arg(ip, st, c, 0) != ("t", ("cstr", fld(r, "myDomain"))):
            self.rep(ip, st, "a wrong domain is told", c)
        e = self.arg(ip, st, c, 2)
        w = rs.get(("why", r))
        if v[4]:
            want = self.CANCEL
        elif w is not None:
            want = w
        elif self.what == "Main":
            want = self.TIMEOUT
            d = ip.norm(st, ip.read(st, fld(r, "myDeadline")))
            if rs.get("now") is None or ip.lt(st, rs["now"], d) is not False:
                self.rep(ip, st, "a timeout is told before the deadline", c)
        else:
            want = None
        if want == "ok":
            if ip.eq(st, e, 0) is not True:
                self.rep(ip, st, "an error is told for a successful resolve", c)
            a = c.args[1]
            if not (isinstance(a, tuple) and a[0] == "L" and rs.get("vec") in (None, a[1])):
                self.rep(ip, st, "wrong addresses are told", c)
        elif want == "res":
            # By the found addresses.
            if rs.get("pushed"):
                if ip.eq(st, e, 0) is not True:
                    self.rep(ip, st, "found addresses are told as an error", c)
            elif ip.eq(st, e, 0) is True or self.code_of(ip, st, e) != self.NOADDR:
                self.rep(ip, st, "no addresses are told as a success, or with a wrong error", c)
        elif want is not None:
            if ip.eq(st, e, 0) is True:
                self.rep(ip, st, "a failure is told as a success", c)
            elif self.code_of(ip, st, e) != want:
                self.rep(ip, st, "a wrong error is told", c)
        # Anything may be requested inside.
        rs["callback"] = True
        return [(st, None)]

    def resolve(self, ip, st, c):
        rs = st.rs
        self.count("resolves")
        r = rs.get("own") or self.current(st)
        if r is None:
            self.rep(ip, st, "a wrong domain is resolved", c)
            return []
        if self.held(st):
            self.rep(ip, st, "a resolve is done under the lock", c)
        v = self.c(st, r)
        if v[0] or v[1] or v[2] or v[3]:
            self.rep(ip, st, "a finished or queued request is resolved", c)
        if self.arg(ip, st, c, 0) != ("t", ("cstr", fld(r, "myDomain"))):
            self.rep(ip, st, "a wrong domain is resolved", c)
        out = deref(self.arg(ip, st, c, 3))
        if out[0] == "e" and out[2] == 0:
            out = out[1]
        res = []
        for k in ("ok", "sys", "other"):
            s = st.copy()
            rt = ("t", ("addrinfo", c.ctx, c.sid))
            ip.drop_under(s, ("o", ("ai",)))
            if k == "ok":
                ip.refine(s, rt, ne=0)
                s.store[out] = rt
                s.rs["res"] = rt
                s.rs[("why", r)] = "res"
                ret = 0
            else:
                s.rs["res"] = None
                if k == "sys":
                    e = ip.tok(s, ("errno", c.ctx, c.sid))
                    ip.refine(s, e, lo=1, hi=4095)
                    s.store[("name", "errno")] = e
                    s.rs["errno"] = "fresh"
                    s.rs[("why", r)] = errc(e)
                    ret = EAI_SYSTEM
                else:
                    ret = ip.tok(s, ("eai", c.ctx, c.sid))
                    ip.refine(s, ret, lo=-1000, hi=-1, ne=EAI_SYSTEM)
                    s.rs[("why", r)] = self.NOADDR
            res.append((s, ret))
        return res

    def current(self, st):
        for k, v in st.rs.items():
            if isinstance(k, tuple) and k[0] == "c" and not any(v[:4]) and not v[4]:
                return k[1]
        return None

    def bad_errno(self, ip, st, fn, line):
        pass

    # ---- waiting
    def on_wait(self, ip, st, cv, m, timed, fn, line):
        rs = st.rs
        self.count("waits")
        if m != fld(THIS, "myMutex") or m not in self.held(st):
            ip.report(st, "the worker waits without the lock", fn, line)
        for q in (FRONT, CANCEL):
            if rs.get(("empty", q)) is not True:
                ip.report(st, "the worker sleeps while there are requests", fn, line)
        if rs.get(("empty", "queue")) is not True and not timed:
            ip.report(st, "the worker sleeps while there are requests", fn, line)
        for q in (FRONT, CANCEL):
            rs[("empty", q)] = None

    def on_lock(self, ip, st, m, fn, line):
        for q in (FRONT, CANCEL):
            st.rs[("empty", q)] = None
            st.rs["notified"] = False

    def on_unlock(self, ip, st, m, fn, line):
        rs = st.rs
        if rs.get("put") and self.what in ("Post", "Cancel"):
            self.count("puts")
            if rs.get("was") is not False and not rs.get("notified"):
                ip.report(st, "a new request does not wake the worker up", fn, line)
            rs["given"] = rs["put"][-1][1]

    def on_notify(self, ip, st, cv, all_, fn, line):
        if cv != fld(THIS, "myCond"):
            ip.report(st, "a wrong condition is signaled", fn, line)
        st.rs["notified"] = True

    def branch(self, ip, st, cond, truth, fn, line):
        r = st.rs.get("looked")
        if r is not None and st.rs.get("now") is not None:
            d = ip.norm(st, ip.read(st, fld(r, "myDeadline")))
            if ip.lt(st, st.rs["now"], d) is True:
                st.rs["expired_checked"] = True

    # ---- ends
    def end(self, ip, st, val, fn, line):
        self.count("exits")
        rs = st.rs

        def bad(m):
            ip.report(st, m, fn, line)
        if self.held(st):
            bad("the lock is left taken")
        if rs.get("res") is not None:
            bad("the result of a resolve is leaked")
        for k, v in list(rs.items()):
            if not (isinstance(k, tuple) and k[0] == "c"):
                continue
            r = k[1]
            if rs.get("own") == r:
                if not v[2]:
                    bad("the end of a request is not told")
                continue
            if isinstance(self, Api):
                continue
            self.finished(ip, st, r, bad)
        getattr(self, "x_" + self.what, lambda *a: None)(ip, st, val, bad)

    def finished(self, ip, st, r, bad):
        v = self.c(st, r)
        gone = st.rs.get(("gone", r))
        if v[0] != v[1]:
            bad("a request is in one of the queues only: its deadline or itself is lost")
        elif v[0]:
            if v[2] or v[3]:
                bad("a finished request is left in the queues")
        else:
            if not v[2] and not gone:
                bad("the end of a request is not told")
            if v[3] != (1 if gone else 1 + v[4]):
                bad("a finished request is leaked")

    def x_Front(self, ip, st, val, bad):
        m = st.rs.get("moved", ())
        if FRONT not in m or CANCEL not in m:
            bad("new requests and cancels are not taken")
        for k, v in st.rs.items():
            if isinstance(k, tuple) and k[0] == "from" and v in (FRONT, CANCEL) and st.rs.get(("empty", k[1])) is not True:
                bad("requests are lost")


class Api(Dns):
    """Calls of the user."""

    def setup(self, f):
        g = super().setup(f)

        def fn(ip, st, this, args):
            g(ip, st, this, args)
            rs = st.rs
            if self.what == "Cancel":
                q = args[0][1]
                r = ("o", ("ctx", "req"))
                ip.settype(r, CTX)
                rs[("c", r)] = (0, 0, 0, 0, 0)
                rs["req"] = (q, r)
                st.store[fld(q, "myCtx")] = addr(r)
                st.store[fld(r, "myIsCancelled")] = 0
            if self.what == "Post":
                r = ("o", ("ctx", 0))
                rs[("c", r)] = (0, 0, 1, 0, 0)
                st.store[fld(args[0][1], "myCtx")] = addr(r) if self.full[0] else 0
            if self.what in ("dtor", "move", "movector"):
                q = THIS if self.what != "movector" else args[0][1]
                for i, x in enumerate((THIS,) + ((args[0][1],) if self.what == "move" else ()) if self.what != "movector" else
                                      (args[0][1],)):
                    v = self.full[i]
                    r = ("o", ("ctx", i))
                    rs[("c", r)] = (0, 0, 1, 0, 0)
                    st.store[fld(x, "myCtx")] = addr(r) if v else 0
        return fn

    def on_other(self, ip, st, c):
        q = c.qn
        if q == CTX + "::DomainToIPContext":
            st.rs["made"] = c.obj
            st.rs[("c", c.obj)] = (0, 0, 0, 0, 0)
            st.rs["ctxargs"] = tuple(a[1] if isinstance(a, tuple) and a[0] == "L" else ip.norm(st, ip.rvalue(st, a)) for a in c.args)
            return [(st, ("L", c.obj))]
        return super().on_other(ip, st, c)

    def touched(self, ip, st, r, fn, line):
        g = st.rs.get("given")
        if g is not None and under(r, g) and self.what in ("Post", "Cancel"):
            ip.report(st, "a request is used after it was handed over to the resolver", fn, line)

    def load(self, ip, st, r, v, fn, line):
        self.touched(ip, st, r, fn, line)
        return super().load(ip, st, r, v, fn, line)

    def store(self, ip, st, r, v, fn, line):
        self.touched(ip, st, r, fn, line)
        return super().store(ip, st, r, v, fn, line)

    def ref(self, ip, st, c):
        self.count("unrefs")
        r = c.obj
        v = self.c(st, r)
        self.touched(ip, st, r, c.fn, c.line)
        if v is None:
            self.rep(ip, st, "a wrong request is released", c)
            return [(st, None)]
        self.upd(st, r, unref=v[3] + (1 if c.name == "PrivUnref" else -1))
        return [(st, None)]

    def x_Post(self, ip, st, val, bad):
        rs = st.rs
        r = rs.get("made")
        if r is None or rs.get("put") != ((FRONT, r),):
            bad("a request is not queued exactly once")
            return
        if ip.norm(st, ip.read(st, fld(self.args[0][1], "myCtx"))) != addr(r):
            bad("the user gets a wrong request")
        if self.c(st, r)[3] != -1:
            bad("a request is not owned by both the user and the worker")
        if self.full[0]:
            self.refs(st, bad, (1,))
        a = rs.get("ctxargs")
        if len(a) != 3 or a[0] != ip.norm(st, ip.rvalue(st, self.args[1])) or a[2] != self.args[3][1]:
            bad("a wrong domain or callback is used")

    def x_Cancel(self, ip, st, val, bad):
        rs = st.rs
        q, r = rs["req"]
        if rs.get("put") != ((CANCEL, r),):
            bad("a cancel is not queued exactly once")
        if ip.norm(st, ip.read(st, fld(q, "myCtx"))) != 0:
            bad("a canceled request is kept by the user: it is released twice")
        if self.c(st, r)[3]:
            bad("a canceled request is released before its cancel is handled")

    def owned(self, ip, st, x):
        return ip.norm(st, ip.read(st, fld(x, "myCtx")))

    def x_dtor(self, ip, st, val, bad):
        self.refs(st, bad, (1 if self.full[0] else 0,))

    def refs(self, st, bad, want):
        for i, w in enumerate(want):
            if self.c(st, ("o", ("ctx", i)))[3] != w:
                bad("a request is not released exactly once")

    def x_movector(self, ip, st, val, bad):
        if self.owned(ip, st, THIS) != (addr(("o", ("ctx", 0))) if self.full[0] else 0) or \
                self.owned(ip, st, self.args[0][1]) != 0:
            bad("a moved request is lost or shared")
        self.refs(st, bad, (0,))

    def x_move(self, ip, st, val, bad):
        if self.owned(ip, st, THIS) != (addr(("o", ("ctx", 1))) if self.full[1] else 0) or \
                self.owned(ip, st, self.args[0][1]) != 0:
            bad("a moved request is lost or shared")
        self.refs(st, bad, (1 if self.full[0] else 0, 0))


@check("D04")
def d04(res):
    rn = "resolve"
    res.rule(rn, "ownership and outcome of each request walked through the queues of the resolver: posted, taken, timed out, "
             "canceled, resolved; the queues of other threads only under the lock.")
    p = res.prog("epoll", ("net",))

    def go(r, f):
        res.walk(p, r, f, rn, setup=r.setup(f))
    go(Dns(p, "Main"), p.fn(WRK + "::PrivProcessMain"))
    go(Dns(p, "Front"), p.fn(WRK + "::PrivProcessFront"))
    go(Dns(p, "Process"), p.fn(CTX + "::Process"))
    for full in (0, 1):
        r = Api(p, "Post")
        r.full = (full,)
        go(r, p.fn(WRK + "::Post"))
    go(Api(p, "Cancel"), p.fn(WRK + "::Cancel"))
    for w, f in (("dtor", p.fn(REQ + "::~DomainToIPRequest")), ("move", p.fn(REQ + "::operator=")),
                 ("movector", [f for f in p.fns(REQ + "::DomainToIPRequest") if f.params and f.params[0][3]][0])):
        for full in ((0, 0), (0, 1), (1, 0), (1, 1)) if w == "move" else ((0,), (1,)):
            r = Api(p, w)
            r.full = full
            go(r, f)
    for k, n in (("exits", 20), ("callbacks", 6), ("resolves", 1), ("frees", 2), ("waits", 1), ("puts", 2), ("guarded", 8),
                 ("unrefs", 5), ("endpoints", 1)):
        res.need(rn, k, n)
