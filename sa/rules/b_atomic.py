"""B12: wrappers of atomics."""
import re
from ..core import check
from ..engine import Rule, under
from ..ir import AnalysisBroken

THIS = ("name", "this")
CLS = ("mg::box::Atomic<int>", "mg::box::Atomic<unsigned long>")
OPS = {"Load": ("load", ""), "Store": ("store", ""), "Exchange": ("xchg", "old"), "CmpExchgWeak": ("cas", ""),
       "CmpExchgStrong": ("cas", "")}
for _w, _o in (("Add", "+"), ("Sub", "-"), ("Increment", "+"), ("Decrement", "-"), ("BitOr", "|"), ("BitAnd", "&")):
    OPS[_w], OPS["Fetch" + _w], OPS[_w + "Fetch"] = (_o, ""), (_o, "old"), (_o, "new")
ORDERS = {"Relaxed": (0, 1, 2, 3, 4, 5), "Acquire": (2, 4, 5), "Release": (3, 4, 5), "AcqRel": (4, 5), "": (5,)}
NAME = re.compile("^(%s)(Relaxed|Acquire|Release|AcqRel|)$" % "|".join(sorted(OPS, key=len, reverse=True)))
ALIASES = ("unsigned char", "unsigned short", "unsigned int", "unsigned long", "signed char", "short", "int", "long", "bool", "void *")
SUGAR = {"unsigned char": "uint8_t", "unsigned short": "uint16_t", "unsigned int": "uint32_t", "unsigned long": "uint64_t",
         "signed char": "int8_t", "short": "int16_t", "int": "int32_t", "long": "int64_t"}
ARG, EXP = ("o", ("arg",)), ("o", ("exp",))
VAL, WAS = ("t", ("arg",)), ("t", ("exp",))


class Wrap(Rule):
    def __init__(self, op, order, width):
        super().__init__()
        self.op, self.order, self.width = op, order, width

    def setup(self, ip, st, this, args):
        st.rs["keep"], st.rs["ops"] = (ARG, EXP), ()
        st.store[ARG], st.store[EXP] = VAL, WAS
        for t in (VAL, WAS):
            ip.tinfo[t] = self.width

    def atomic(self, ip, st, op, region, orders, operand, result, fn, line, success=None):
        if not under(region, THIS):
            return
        self.count("operations")
        now = st.store.get(region)
        st.rs["ops"] += ((op, orders, operand, result, success, now),)

    def call(self, ip, st, c):
        if self.op == "CmpExchgStrong" and c.name == "compare_exchange_weak":
            st.rs["weak"] = 1
        return None

    def end(self, ip, st, val, fn, line):
        def bad(m):
            ip.report(st, m, fn, line)
        self.count("exits")
        ops = st.rs["ops"]
        if self.op == "ctor":
            if len(ops) != 1 or ops[0][0] != "init" or ops[0][5] != VAL:
                bad("an atomic doesn't start with the given value")
            return
        kind, ret = OPS[self.op]
        if len(ops) != 1:
            bad("one operation is made of %d atomic ones" % len(ops))
            return
        op, orders, operand, result, success, now = ops[0]
        val = ip.norm(st, ip.rvalue(st, val)) if val is not None else None
        if op == "cas" and not success:
            pass
        elif not orders or orders[0] not in ORDERS[self.order]:
            bad("the memory order is weaker than the one in the name")
        arg = 1 if "crement" in self.op else VAL
        if kind == "load":
            good = op == "load" and val == result
        elif kind == "store":
            good = op == "store" and now == VAL
        elif kind == "xchg":
            good = op == "xchg" and now == VAL and val == result
        elif kind == "cas":
            t = ip.truth(st, val)
            if st.rs.get("weak"):
                bad("a strong exchange fails when the value is the expected one")
            if success:
                good = op == "cas" and operand == (WAS, VAL) and t is True
            else:
                good = op == "cas" and operand == (WAS, VAL) and t is False and ip.norm(st, ip.read(st, EXP)) == result
        else:
            if op == "store" or op == "load":
                good = False
            else:
                want = ip.arith(st, kind, result, arg)
                good = now == want and (ret == "" or val == (result if ret == "old" else want))
        if not good:
            bad("the operation does not what its name says")


@check("B12")
def b12(res):
    rn = "atomic"
    res.rule(rn, "each method of the wrapper of atomics walked: one atomic operation, the one of the name, with its operand, at least "
             "with the order of the name, the returned value; the types behind the short names.")
    p = res.prog("epoll", ("box",))
    n = 0
    for cls, w in zip(CLS, ((32, True, ""), (64, False, ""))):
        own = (f for q, l in p.by_qn.items() if q.startswith(cls + "::") for f in l)
        for f in sorted(own, key=lambda f: (f.name, f.line)):
            m = NAME.match(f.name)
            if m:
                r = Wrap(m.group(1), m.group(2), w)
                args = [("L", EXP), ("L", ARG)] if "CmpExchg" in f.name else [("L", ARG)] if f.params else []
            elif f.kind == "ctor" and len(f.params) == 1 and "Atomic" not in f.params[0][2]:
                r = Wrap("ctor", "", w)
                args = [("L", ARG)]
            else:
                continue
            n += 1
            res.walk(p, r, f, rn, args=args, setup=r.setup)
    f = p.fn("verif::AliasOfAtomic")
    if len(f.params) != len(ALIASES):
        raise AnalysisBroken("aliases")
    for prm, t in zip(f.params, ALIASES):
        res.instance(rn, "aliases")
        if not any("Atomic<%s>" % x in prm[2] for x in (t, SUGAR.get(t))):
            res.violation(rn, "an atomic of %s is made of another type: %s" % (t, prm[2]), "src/mg/box/Atomic.h", 1, "Atomic")
    for k, m in (("operations", 150), ("exits", 150)):
        res.need(rn, k, m)
