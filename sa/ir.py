"""Extraction of the program representation from /repo's current sources.

The extractor (tool/extract.cpp, libTooling) is run over every Linux
translation unit with the flags of the real build; the result is one merged
program per configuration ("epoll", "iouring")."""
import concurrent.futures, hashlib, json, os, pickle, re, subprocess, sys, glob

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOL = os.path.join(HERE, "tool", "extract")


class AnalysisBroken(Exception):
    """The analysis could not be done: neither a pass nor a violation."""


def build_tool():
    src = os.path.join(HERE, "tool", "extract.cpp")
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    flags = subprocess.check_output(["/usr/bin/llvm-config-18", "--cxxflags"], text=True).split()
    flags = [f for f in flags if not f.startswith("-std=")]
    tmp = TOOL + ".tmp%d" % os.getpid()
    r = subprocess.run(["g++", "-std=c++17", "-O1", "-fno-rtti", "-w"] + flags +
                       [src, "-o", tmp, "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1",
                        "-L/usr/lib/llvm-18/lib", "-lLLVM-18"], capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("cannot build the extractor: " + r.stderr[-2000:])
    os.rename(tmp, TOOL)


# Platform specific sources which do not take part in a Linux build.
SKIP = ("_Win.cpp", "_Apple.cpp", "_IOCP.cpp", "_kqueue.cpp")
MODULES = ("box", "sch", "net", "aio", "sio", "stub")


def sources(config, modules=MODULES):
    res = []
    for m in modules:
        d = os.path.join(REPO, "src/mg", m)
        for f in sorted(glob.glob(d + "/*.cpp")):
            if f.endswith(SKIP):
                continue
            if f.endswith("_epoll.cpp") and config != "epoll":
                continue
            if f.endswith("_iouring.cpp") and config != "iouring":
                continue
            # The stubs replace the real implementations in users of the
            # libraries which do not link those.
            if "/mg/stub/" in f:
                continue
            res.append(f)
    return res


def flags(config):
    fl = ["-std=c++20", "-I" + os.path.join(REPO, "src"), "-w", "-pthread",
          "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
    if config == "iouring":
        fl.append("-DMG_IOCORE_USE_IOURING=1")
    return fl


def _extract(args):
    f, fl = args
    r = subprocess.run([TOOL, os.path.join(REPO, "src") + "/", os.path.join(HERE, "tool") + "/", f, "--"] + fl,
                       capture_output=True, text=True)
    if r.returncode != 0:
        return (f, None, r.stderr[-3000:])
    return (f, json.loads(r.stdout), "")


def _tree_hash(config, modules):
    h = hashlib.sha256()
    h.update((config + ",".join(modules) + REPO).encode())
    for root in (os.path.join(REPO, "src"), os.path.join(HERE, "tool")):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith((".h", ".cpp")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as x:
                        h.update(x.read())
    return h.hexdigest()


def _relfile(p):
    for pre in (REPO + "/",):
        if p.startswith(pre):
            return p[len(pre):]
    return p


# Types of variables which are not constructed in place.
SCALAR = re.compile(r"(const )?(bool|int|unsigned int|long|unsigned long|short|unsigned short|char|unsigned char|u?int\d+_t|size_t|"
                    r".*\*)( const)?$")


class Func:
    __slots__ = ("id", "qn", "name", "cls", "file", "line", "kind", "params", "pk", "ret", "blocks", "entry",
                 "exit", "virt", "over", "access", "static", "const", "implicit", "outer", "cross", "reach_vars", "heads",
                 "addr_vars", "units", "instrs", "intern")

    def __repr__(self):
        return "<%s %s:%d>" % (self.qn, self.file, self.line)


class Block:
    __slots__ = ("id", "insts", "term", "succ", "noret")


def _tup(x):
    if isinstance(x, list):
        return tuple(_tup(i) for i in x)
    if isinstance(x, dict):
        return {k: _tup(v) for k, v in x.items()}
    return x


def _mentions(x, out, addr, inaddr=False):
    """Collect ids of the local variables mentioned by an instruction."""
    if isinstance(x, tuple):
        if len(x) >= 4 and x[0] == "var":
            out.add(x[1])
            return
        for i in x:
            _mentions(i, out, addr)
    elif isinstance(x, dict):
        for v in x.values():
            _mentions(v, out, addr)


def _sidrefs(x, out):
    # Operands given by an integer in operand positions. Integers appear also
    # as plain data; over-approximation is harmless here.
    if isinstance(x, tuple):
        for i in x:
            _sidrefs(i, out)
    elif isinstance(x, dict):
        for v in x.values():
            _sidrefs(v, out)
    elif isinstance(x, int) and not isinstance(x, bool):
        out.add(x)


def _mkfunc(o, unit):
    f = Func()
    f.id = o["id"]
    f.qn = o["qn"]
    f.name = o["n"]
    f.cls = o.get("cls", "")
    f.file = _relfile(o["file"])
    f.line = o["line"]
    f.kind = o["kind"]
    f.params = _tup(o["params"])
    f.pk = tuple(o.get("pk", ()))
    f.ret = o["ret"]
    f.virt = o.get("virt", False)
    f.over = tuple(o.get("over", ()))
    f.access = o.get("access", 3)
    f.static = o.get("static", False)
    f.const = o.get("const", False)
    f.implicit = o.get("implicit", False)
    f.intern = o.get("intern", False)
    f.outer = o.get("outer")
    f.units = [unit]
    f.entry = o.get("entry")
    f.exit = o.get("exit")
    f.blocks = {}
    f.instrs = 0
    if o.get("nocfg"):
        return f
    defs = {}
    for b in o["blocks"]:
        k = Block()
        k.id = b["id"]
        k.insts = [_tup(i) for i in b["i"]]
        k.term = _tup(b["t"]) if "t" in b else None
        k.succ = tuple(b["s"])
        k.noret = b.get("noret", False)
        f.blocks[k.id] = k
        f.instrs += len(k.insts)
        for i in k.insts:
            if i[0]:
                defs[i[0]] = k.id
    # Expression values which live across blocks.
    ment = {}
    kill = {}
    use = {}
    for k in f.blocks.values():
        refs = set()
        m = set()
        kill[k.id] = set()
        for i in k.insts:
            if i[1][0] == "decl":
                for d in i[1][1]:
                    if not d[3] and not d[4] and d[0] not in m and SCALAR.match(d[2] or ""):
                        kill[k.id].add(d[0])
            _sidrefs(i[1], refs)
            _mentions(i[1], m, None)
            if i[1][0] == "decl":
                for d in i[1][1]:
                    m.add(d[0])
            if i[1][0] == "dtor" and i[1][1] == "var":
                m.add(i[1][2])
        if k.term:
            _sidrefs(k.term, refs)
            _mentions(k.term, m, None)
        use[k.id] = {r for r in refs if r in defs and defs[r] != k.id}
        ment[k.id] = m
    own = {k: set() for k in f.blocks}
    for r, b in defs.items():
        own[b].add(r)
    live = {k: set(v) for k, v in use.items()}
    changed = True
    while changed:
        changed = False
        for k in f.blocks.values():
            s = live[k.id]
            n = len(s)
            for x in k.succ:
                if x is not None:
                    s |= live[x] - own[k.id]
            if len(s) != n:
                changed = True
    # Values of expressions never outlive an iteration of the loop they are in.
    state = {}
    back = []
    stack = [(f.entry, iter(f.blocks[f.entry].succ))] if f.entry in f.blocks else []
    if stack:
        state[f.entry] = 1
    while stack:
        b, it = stack[-1]
        for x in it:
            if x is None:
                continue
            if state.get(x) == 1:
                back.append((b, x))
            elif x not in state:
                state[x] = 1
                stack.append((x, iter(f.blocks[x].succ)))
                break
        else:
            state[b] = 2
            stack.pop()
    if back:
        pred = {}
        for k in f.blocks.values():
            for x in k.succ:
                if x is not None:
                    pred.setdefault(x, []).append(k.id)
        for u, h in back:
            body = {h, u}
            work = [u] if u != h else []
            while work:
                for x in pred.get(work.pop(), ()):
                    if x not in body:
                        body.add(x)
                        work.append(x)
            for x in body:
                live[h] = live[h] - own[x]
    f.cross = live
    # Variables mentioned in blocks reachable from the block before they are declared anew.
    reach = {k: v - kill[k] for k, v in ment.items()}
    changed = True
    while changed:
        changed = False
        for k in f.blocks.values():
            s = reach[k.id]
            n = len(s)
            for x in k.succ:
                if x is not None:
                    s |= reach[x] - kill[k.id]
            if len(s) != n:
                changed = True
    f.reach_vars = reach
    # Targets of the retreating edges: each cycle goes through one of them.
    f.heads = set()
    color = {f.entry: 1}
    stack = [(f.entry, iter([x for x in f.blocks[f.entry].succ if x is not None]))]
    while stack:
        bid, it = stack[-1]
        for x in it:
            if color.get(x) == 1:
                f.heads.add(x)
            elif x not in color:
                color[x] = 1
                stack.append((x, iter([y for y in f.blocks[x].succ if y is not None])))
                break
        else:
            color[bid] = 2
            stack.pop()
    return f


class Program:
    def __init__(self, config):
        self.config = config
        self.funcs = {}      # id -> Func
        self.by_qn = {}      # qn -> [Func]
        self.records = {}    # canonical name -> dict
        self.enums = {}
        self.globals = {}
        self.units = []
        self.overriders = {}
        self.subclasses = {}

    def finish(self):
        for f in self.funcs.values():
            self.by_qn.setdefault(f.qn, []).append(f)
        meth = {}
        for r in self.records.values():
            for m in r["methods"]:
                meth[m["id"]] = m
                for o in m["over"]:
                    self.overriders.setdefault(o, set()).add(m["id"])
            for b, _ in r["bases"]:
                self.subclasses.setdefault(b, set()).add(r["n"])
        self.methods = meth
        return self

    def fn(self, qn, nparams=None, must=True, pred=None):
        l = self.by_qn.get(qn, [])
        if nparams is not None:
            l = [f for f in l if len(f.params) == nparams]
        if pred:
            l = [f for f in l if pred(f)]
        if len(l) == 0:
            if must:
                raise AnalysisBroken("anchor vanished: no function " + qn)
            return None
        if len(l) > 1 and must:
            raise AnalysisBroken("anchor ambiguous: %s (%d)" % (qn, len(l)))
        return l[0]

    def fns(self, qn, must=True):
        l = self.by_qn.get(qn, [])
        if not l and must:
            raise AnalysisBroken("anchor vanished: no function " + qn)
        return l

    def record(self, name):
        r = self.records.get(name)
        if r is None:
            raise AnalysisBroken("anchor vanished: no class " + name)
        return r

    def field(self, cls, name, type_re=None):
        """A field's name: the known one, or when it was renamed - the only one with the type."""
        import re
        r = self.record(cls)
        for f in r["fields"]:
            if f[0] == name:
                return name
        if type_re:
            l = [f[0] for f in r["fields"] if re.search(type_re, f[1])]
            if len(l) == 1:
                return l[0]
        raise AnalysisBroken("anchor vanished: no field %s::%s" % (cls, name))

    def enum(self, name):
        e = self.enums.get(name)
        if e is None:
            raise AnalysisBroken("anchor vanished: no enum " + name)
        return dict(e["vals"])

    def bases_of(self, cls, acc=None):
        acc = set() if acc is None else acc
        r = self.records.get(cls)
        if r:
            for b, _ in r["bases"]:
                if b not in acc:
                    acc.add(b)
                    self.bases_of(b, acc)
        return acc

    def resolve_virtual(self, mid, cls):
        """The final overrider of the method in the given dynamic class."""
        seen = set()

        def derived(a):
            # All methods overriding a, transitively.
            res = set()
            for o in self.overriders.get(a, ()):
                res.add(o)
                res |= derived(o)
            return res
        cands = derived(mid) | {mid}
        order = [cls]
        i = 0
        while i < len(order):
            r = self.records.get(order[i])
            i += 1
            if r is None:
                continue
            for m in r["methods"]:
                if m["id"] in cands:
                    return m
            for b, _ in r["bases"]:
                if b not in seen:
                    seen.add(b)
                    order.append(b)
        return None


_loaded = {}


def load(config="epoll", modules=MODULES, instantiate=True):
    key = (config, tuple(modules))
    if key in _loaded:
        return _loaded[key]
    build_tool()
    cache = None
    if os.environ.get("VERIF_CACHE"):
        cache = os.path.join(HERE, ".cache", _tree_hash(config, modules) + ".pkl")
        if os.path.exists(cache):
            with open(cache, "rb") as x:
                p = pickle.load(x)
            _loaded[key] = p
            return p
    todo = [(f, flags(config)) for f in sources(config, modules)]
    if instantiate:
        todo.append((os.path.join(HERE, "tool", "instantiate.cpp"), flags(config)))
    if len(todo) < 2:
        raise AnalysisBroken("no sources found under " + REPO)
    p = Program(config)
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for f, doc, err in ex.map(_extract, todo):
            if doc is None:
                raise AnalysisBroken("cannot parse %s: %s" % (f, err))
            unit = _relfile(f)
            p.units.append(unit)
            for o in doc["funcs"]:
                old = p.funcs.get(o["id"])
                if old is not None:
                    old.units.append(unit)
                    continue
                p.funcs[o["id"]] = _mkfunc(o, unit)
            for r in doc["records"]:
                r["file"] = _relfile(r["file"])
                p.records.setdefault(r["n"], r)
            for e in doc["enums"]:
                p.enums.setdefault(e["n"], e)
            for g in doc["globals"]:
                p.globals.setdefault(g["n"], g)
    p.finish()
    if cache:
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        with open(cache + ".tmp", "wb") as x:
            pickle.dump(p, x)
        os.rename(cache + ".tmp", cache)
    _loaded[key] = p
    return p


if __name__ == "__main__":
    import time
    t = time.time()
    for c in ("epoll", "iouring"):
        p = load(c)
        print(c, len(p.units), "units", len(p.funcs), "functions", len(p.records), "records", time.time() - t)
