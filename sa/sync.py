"""Models of the repository's own blocking primitives, by their public API.

Rules deriving from SyncRule see Mutex/ConditionVariable operations as events
instead of walking into their implementation (which has a check of its own)."""
from .engine import Rule, region_str, deref

M = "mg::box::Mutex::"
CV = "mg::box::ConditionVariable::"


class SyncRule(Rule):
    # Report a second lock of a held mutex (the class is recursive, so by default - no).
    def held(self, st):
        return st.rs.get("held", ())

    def holds(self, st, region):
        return region in self.held(st)

    def on_lock(self, ip, st, m, fn, line):
        pass

    def on_unlock(self, ip, st, m, fn, line):
        pass

    def on_wait(self, ip, st, cv, m, timed, fn, line):
        pass

    def on_notify(self, ip, st, cv, all_, fn, line):
        pass

    def call(self, ip, st, c):
        r = self.sync_call(ip, st, c)
        if r is not None:
            return r
        return self.on_call(ip, st, c)

    def on_call(self, ip, st, c):
        return None

    def _lock(self, st, m):
        h = self.held(st)
        st.rs["held"] = tuple(sorted(h + (m,), key=repr))

    def _unlock(self, ip, st, m, fn, line):
        h = list(self.held(st))
        if m in h:
            h.remove(m)
            st.rs["held"] = tuple(h)
            return True
        return False

    def bad_unlock(self, ip, st, m, fn, line):
        ip.report(st, "mutex %s is unlocked without being held" % region_str(m), fn, line)

    def sync_call(self, ip, st, c):
        q = c.qn
        if q.startswith(M):
            n = q[len(M):]
            m = c.obj
            if n == "Lock":
                self._lock(st, m)
                self.on_lock(ip, st, m, c.fn, c.line)
                return [(st, None)]
            if n == "TryLock":
                s2 = st.copy()
                self._lock(st, m)
                ip.note(st, c.fn, c.line, "TryLock taken")
                self.on_lock(ip, st, m, c.fn, c.line)
                return [(st, 1), (s2, 0)]
            if n == "Unlock":
                self.on_unlock(ip, st, m, c.fn, c.line)
                if not self._unlock(ip, st, m, c.fn, c.line):
                    self.bad_unlock(ip, st, m, c.fn, c.line)
                    return []
                return [(st, None)]
            if n == "IsOwnedByThisThread":
                return [(st, int(m in self.held(st)))]
            if n == "Mutex" or n == "~Mutex":
                return [(st, ("L", m) if c.kind == "ctor" else None)]
        if q.startswith(CV):
            n = q[len(CV):]
            if n in ("Wait", "TimedWait"):
                m = ip.region_of(c.args[0])
                self.on_wait(ip, st, c.obj, m, n == "TimedWait", c.fn, c.line)
                v = None
                if n == "TimedWait":
                    v = ip.tok(st, ("tw", c.ctx, c.sid))
                return [(st, v)]
            if n in ("Signal", "Broadcast"):
                self.on_notify(ip, st, c.obj, n == "Broadcast", c.fn, c.line)
                return [(st, None)]
            if n in ("ConditionVariable", "~ConditionVariable"):
                return [(st, ("L", c.obj) if c.kind == "ctor" else None)]
        return None
