"""A small polyhedra domain: conjunctions of linear inequalities over named quantities.

A linear form is (((atom, coefficient), ...) sorted, constant). A constraint is a form known to be >= 0."""
from functools import lru_cache
from math import gcd

LIMIT = 600


def lin(d, k=0):
    return (tuple(sorted(((a, c) for a, c in d.items() if c), key=repr)), k)


def const(k):
    return ((), k)


def atom(a):
    return (((a, 1),), 0)


def add(x, y, m=1):
    d = dict(x[0])
    for a, c in y[0]:
        d[a] = d.get(a, 0) + c * m
    return lin(d, x[1] + y[1] * m)


def sub(x, y):
    return add(x, y, -1)


def total(xs):
    r = const(0)
    for x in xs:
        r = add(r, x)
    return r


def tighten(e):
    g = 0
    for _, c in e[0]:
        g = gcd(g, abs(c))
    if g > 1:
        return (tuple((a, c // g) for a, c in e[0]), e[1] // g)
    return e


def related(cons, e):
    """Constraints connected with the form."""
    names = {a for a, _ in e[0]}
    rest = list(cons)
    res = []
    while True:
        more = [c for c in rest if any(a in names for a, _ in c[0])]
        if not more:
            break
        rest = [c for c in rest if c not in more]
        res += more
        for c in more:
            names.update(a for a, _ in c[0])
    return res


@lru_cache(maxsize=200000)
def infeasible(cons):
    cons = {tighten(c) for c in cons}
    # Equalities are substituted first.
    while True:
        if any(not c[0] and c[1] < 0 for c in cons):
            return True
        cons = {c for c in cons if c[0]}
        pick = None
        for c in cons:
            n = (tuple((a, -k) for a, k in c[0]), -c[1])
            if n in cons:
                for a, k in c[0]:
                    if abs(k) == 1:
                        pick = (a, k, c)
                        break
            if pick:
                break
        if not pick:
            break
        a, k, c = pick
        # a = -(c - k*a) / k
        new = set()
        for x in cons:
            m = dict(x[0]).get(a, 0)
            new.add(tighten(add(x, c, -m * k)) if m else x)
        cons = new
    while cons:
        count = {}
        for c in cons:
            for a, k in c[0]:
                p = count.setdefault(a, [0, 0])
                p[k < 0] += 1
        a = min(count, key=lambda v: (count[v][0] * count[v][1], repr(v)))
        pos, neg, rest = [], [], set()
        for c in cons:
            k = dict(c[0]).get(a, 0)
            if k > 0:
                pos.append((k, c))
            elif k < 0:
                neg.append((-k, c))
            else:
                rest.add(c)
        best = {}
        for kp, p in pos:
            for kn, n in neg:
                x = lin({}, 0)
                x = add(x, p, kn)
                x = add(x, n, kp)
                x = tighten(x)
                if not x[0]:
                    if x[1] < 0:
                        return True
                    continue
                rest.add(x)
        for x in rest:
            if x[0] not in best or best[x[0]] > x[1]:
                best[x[0]] = x[1]
        cons = set(best.items())
        if len(cons) > LIMIT:
            return False
    return False


def entails(cons, e):
    """Is the form always >= 0."""
    if not e[0]:
        return e[1] >= 0 or infeasible(frozenset(cons))
    neg = (tuple((a, -c) for a, c in e[0]), -e[1] - 1)
    return infeasible(frozenset(related(cons, e)) | {neg})


def eq0(cons, e):
    return entails(cons, e) and entails(cons, (tuple((a, -c) for a, c in e[0]), -e[1]))


def eq(cons, a, b):
    return eq0(cons, sub(a, b))


def le(cons, a, b):
    return entails(cons, sub(b, a))


def lt(cons, a, b):
    return entails(cons, add(sub(b, a), const(-1)))


def mkeq(a, b):
    d = sub(a, b)
    return {d, (tuple((x, -c) for x, c in d[0]), -d[1])}
