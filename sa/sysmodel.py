"""Models of the system calls, of errno, and of the repository's error objects.

A call of the system either succeeds or fails; a failure gives a fresh nonzero errno. The errno is known only right after
a failed call: whatever comes next may change it. An error object is known by its code."""
from .engine import addr, deref, INF
from .sync import SyncRule

ERRNO = ("name", "errno")
EAGAIN, EINTR, EINPROGRESS = 11, 4, 115

# What a successful call returns.
SYSCALLS = {
    "sendmsg": "size", "recvmsg": "size", "send": "size", "recv": "size", "read": "size", "write": "size", "readv": "size",
    "writev": "size",
    "connect": "zero", "bind": "zero", "listen": "zero", "setsockopt": "zero", "getsockopt": "zero", "shutdown": "zero",
    "close": "zero", "getsockname": "zero", "epoll_ctl": "zero",
    "socket": "fd", "accept": "fd", "accept4": "fd", "epoll_create": "fd", "epoll_create1": "fd", "eventfd": "fd",
    "fcntl": "nonneg", "ioctl": "nonneg", "poll": "nonneg", "clock_gettime": "zero",
}
# Calls which are known to leave errno alone.
KEEPS = ("memset", "memcpy", "memmove", "strlen", "memcmp", "strcmp", "strncmp", "htons", "htonl", "ntohs", "ntohl",
         "__errno_location", "operator new", "operator delete")


def errc(v):
    """The error code made of an errno."""
    return ("t", ("errc", v))


class Sys(SyncRule):
    # Values of errno to tell apart.
    ERRNOS = {"sendmsg": (EAGAIN,), "recvmsg": (EAGAIN,), "connect": (EINPROGRESS,), "accept4": (EAGAIN,),
              "accept": (EAGAIN,)}

    def __init__(self, p):
        super().__init__()
        self.p = p

    # ------------------------------------------------------------ small helpers
    def arg(self, ip, st, c, i):
        return ip.norm(st, ip.rvalue(st, c.args[i]))

    def rep(self, ip, st, msg, c):
        ip.report(st, msg, c.fn, c.line)

    def on_syscall(self, ip, st, c):
        """Before the call. Return a list of results to override the model."""
        return None

    def after_syscall(self, ip, st, c, val, err):
        pass

    def on_other(self, ip, st, c):
        return None

    # ------------------------------------------------------------ calls
    def on_call(self, ip, st, c):
        r = self.on_other(ip, st, c)
        if r is not None:
            return r
        q = c.qn
        if q == "__errno_location":
            return [(st, addr(ERRNO))]
        if q in SYSCALLS:
            r = self.on_syscall(ip, st, c)
            if r is not None:
                return r
            return self.syscall(ip, st, c)
        if q.startswith("mg::box::"):
            r = self.error_call(ip, st, c)
            if r is not None:
                return r
        if c.fn is not None and self.is_foreign(c) and c.name not in KEEPS:
            self.stale(ip, st, c)
        return None

    def is_foreign(self, c):
        if c.qn.startswith(("mg::", "std::move", "std::forward", "std::__")):
            return False
        return c.kind == "call" and self.p.funcs.get(c.id) is None

    def stale(self, ip, st, c):
        if st.rs.get("errno") == "fresh":
            st.rs["errno"] = "stale"
        st.store[ERRNO] = ip.tok(st, ("errno?", c.ctx, c.sid))

    def syscall(self, ip, st, c):
        self.count("syscalls")
        q = c.qn
        res = []
        site = (q, c.ctx, c.sid)
        for e in self.ERRNOS.get(q, ()) + (None,):
            s = st.copy()
            if e is None:
                e = ip.tok(s, ("errno",) + site)
                ip.refine(s, e, lo=1, hi=4095)
                for x in self.ERRNOS.get(q, ()):
                    ip.refine(s, e, ne=x)
            s.store[ERRNO] = e
            s.rs["errno"] = "fresh"
            self.filled(ip, s, c, False)
            ip.note(s, c.fn, c.line, "%s() fails" % q)
            self.after_syscall(ip, s, c, -1, e)
            res.append((s, -1))
        kinds = {"size": ("zero", "pos"), "zero": ("zero",), "fd": ("nonneg",), "nonneg": ("nonneg",)}[SYSCALLS[q]]
        for k in kinds:
            s = st.copy()
            v = 0
            if k != "zero":
                v = ip.tok(s, ("ret",) + site)
                ip.refine(s, v, lo=1 if k == "pos" else 0, hi=0x7fffffff)
            s.rs["errno"] = "none"
            s.store[ERRNO] = ip.tok(s, ("errno?",) + site)
            self.filled(ip, s, c, True)
            self.after_syscall(ip, s, c, v, None)
            res.append((s, v))
        return res

    def filled(self, ip, st, c, ok):
        """Out-parameters of the call."""
        out = {"getsockopt": (3, 4), "getsockname": (1, 2), "accept4": (1, 2), "accept": (1, 2), "read": (1,), "recv": (1,),
               "poll": (0,), "clock_gettime": (1,)}.get(c.qn, ())
        for i in out:
            if i < len(c.args):
                a = ip.norm(st, ip.rvalue(st, c.args[i]))
                if isinstance(a, tuple) and a[0] not in ("str", "fn"):
                    r = deref(a)
                    if r[0] == "e" and r[2] == 0:
                        r = r[1]
                    ip.havoc(st, r, ("out", c.qn, c.ctx, c.sid, i))

    # ------------------------------------------------------------ errors
    def load(self, ip, st, region, val, fn, line):
        if region == ERRNO:
            self.count("errno_reads")
            if st.rs.get("errno") != "fresh":
                self.bad_errno(ip, st, fn, line)
        self.on_load(ip, st, region, val, fn, line)

    def on_load(self, ip, st, region, val, fn, line):
        pass

    def bad_errno(self, ip, st, fn, line):
        w = "after another call could change it" if st.rs.get("errno") == "stale" else "while no call has failed"
        ip.report(st, "errno is used %s: a wrong error is told" % w, fn, line)

    def errno_now(self, ip, st, c):
        if st.rs.get("errno") != "fresh":
            self.count("errno_reads")
            self.bad_errno(ip, st, c.fn, c.line)
        else:
            self.count("errno_reads")
        return ip.norm(st, ip.read(st, ERRNO))

    def make_error(self, ip, st, c, code):
        self.count("errors_raised")
        r = ("o", ("raised", c.ctx, c.sid))
        ip.drop_under(st, r)
        e = ("o", ("error", code, ip.fresh(st, ("error", c.ctx, c.sid))))
        st.store[("f", e, "myCode")] = code
        st.store[("f", ("f", r, "myError"), "myObject")] = addr(e)
        return [(st, ("L", r))]

    def code_of(self, ip, st, ptr):
        """The code of an error by its pointer."""
        return ip.norm(st, ip.read(st, ("f", deref(ptr), "myCode")))

    def error_call(self, ip, st, c):
        q = c.qn
        if q in ("mg::box::Error::PrivRef", "mg::box::Error::PrivUnref"):
            return [(st, None)]
        if q == "mg::box::ErrorCodeErrno":
            return [(st, self.known(ip, st, errc(self.errno_now(ip, st, c))))]
        if q == "mg::box::ErrorCodeFromErrno":
            return [(st, self.known(ip, st, errc(self.arg(ip, st, c, 0))))]
        if q in ("mg::box::ErrorRaiseErrno", "mg::box::ErrorRaiseFormatErrno"):
            pk = c.node.get("pt", ())
            v = None
            if c.args:
                a = self.arg(ip, st, c, 0)
                if not self.is_string(a, c, 0):
                    v = a
            if v is None:
                v = self.errno_now(ip, st, c)
            return self.make_error(ip, st, c, self.known(ip, st, errc(v)))
        if q in ("mg::box::ErrorRaise", "mg::box::ErrorRaiseFormat"):
            a = c.args[0]
            if isinstance(a, tuple) and a[0] == "L":
                # Another error.
                v = self.code_of(ip, st, ip.norm(st, ip.read(st, ("f", a[1], "myObject"))))
            else:
                a = self.arg(ip, st, c, 0)
                v = self.code_of(ip, st, a) if isinstance(a, tuple) and a[0] == "&" else a
            return self.make_error(ip, st, c, v)
        return None

    @staticmethod
    def is_string(a, c, i):
        return isinstance(a, tuple) and a[0] in ("str", "&")

    def known(self, ip, st, code):
        ip.refine(st, code, ne=0)
        return code
