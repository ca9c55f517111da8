#!/usr/bin/env python3
"""Self-test of the checks: the whole of the sources rewritten in ways which change no behaviour; all checks must stay quiet.

usage: refactor.py TRANSFORM[,TRANSFORM...] [property ...]
With KEEP=dir the rewritten sources are left there."""
import glob, os, re, shutil, subprocess, sys, tempfile
import concurrent.futures

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
R = os.environ.get("SELFTEST_REPO", "/repo")


def mask(s):
    """The text with comments and literals blanked."""
    def rep(m):
        t = m.group(0)
        return re.sub(r"[^\n]", " ", t)
    return re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])'|^[ \t]*#(?:[^\n]*\\\n)*[^\n]*", rep, s, flags=re.S | re.M)


def match(m, i, o, c):
    d = 0
    while i < len(m):
        if m[i] == o:
            d += 1
        elif m[i] == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    return None


def stmt_end(m, i):
    """The end (exclusive) of the statement which begins at i (spaces skipped). None - too hard."""
    n = len(m)
    while i < n and m[i].isspace():
        i += 1
    if m[i] == "{":
        return match(m, i, "{", "}") + 1
    k = re.match(r"(if|while|for|switch)\b(?: constexpr)?\s*\(", m[i:])
    if k:
        p = match(m, i + k.end() - 1, "(", ")")
        e = stmt_end(m, p + 1)
        if e and k.group(1) == "if":
            x = re.match(r"\s*else\b", m[e:])
            if x:
                return stmt_end(m, e + x.end())
        return e
    if re.match(r"(do|else|case|default|return\s*\[)\b", m[i:]):
        return None
    d = 0
    while i < n:
        if m[i] in "([{":
            d += 1
        elif m[i] in ")]}":
            d -= 1
            if d < 0:
                return None
        elif m[i] == ";" and d == 0:
            return i + 1
        i += 1


def sites(s, kw):
    """(start, cond start, cond end, body start, body end), the last ones first."""
    m = mask(s)
    res = []
    for k in re.finditer(r"(?<![\w#])%s \(" % kw, m):
        p = match(m, k.end() - 1, "(", ")")
        if p is None:
            continue
        b = p + 1
        while m[b].isspace():
            b += 1
        e = stmt_end(m, b)
        # Inside of a macro.
        if e is None or "\\\n" in s[k.start():e] or s[s.rfind("\n", 0, k.start()) + 1:].lstrip().startswith("#"):
            continue
        res.append((k.start(), k.end(), p, b, e))
    return m, res[::-1]


def pp(s):
    return re.search(r"^\s*#", s, re.M) is not None


def t_while(s):
    """while (X) {} -> while (true) { if (!(X)) break; }"""
    while True:
        m, ss = sites(s, "while")
        for a, c, d, b, e in ss:
            x = s[c:d]
            if m[b] != "{" or x.strip() == "true" or "MORPHED" in x or pp(x) or re.match(r"\w+\*? \w+ =", x):
                continue
            s = s[:c] + "true /*MORPHED*/" + s[d:b + 1] + " if (!(" + x + ")) break;" + s[b + 1:]
            break
        else:
            return s


def t_for(s):
    """for (A; B; C) {} -> { A; while (B) { ...; C; } }"""
    while True:
        m, ss = sites(s, "for")
        for a, c, d, b, e in ss:
            x = m[c:d]
            if m[b] != "{" or x.count(";") != 2 or re.search(r"\bcontinue\b", m[b:e]) or pp(x):
                continue
            i = x.index(";")
            j = x.index(";", i + 1)
            A, B, C = s[c:c + i], s[c + i + 1:c + j], s[c + j + 1:d]
            # Unreachable step is an error.
            s = s[:a] + "{ " + A + "; while (" + (B.strip() or "true") + ") " + s[b:e - 1] + (C.strip() + ";" if C.strip() else "") + "} }" + s[e:]
            break
        else:
            return s


def split_and(m, c, d):
    depth = 0
    res = [c]
    i = c
    while i < d:
        ch = m[i]
        if ch in "([{":
            depth += 1
        elif ch in ")]}":
            depth -= 1
        elif depth == 0 and m[i:i + 2] == "||" or (depth == 0 and ch in "?;=" and m[i - 1] not in "=!<>" and m[i + 1] != "="):
            return None
        elif depth == 0 and m[i:i + 2] == "&&":
            res += [i, i + 2]
            i += 2
            continue
        i += 1
    res.append(d)
    return [(res[k], res[k + 1]) for k in range(0, len(res), 2)]


def t_and(s):
    """if (A && B) -> if (A) if (B)"""
    pos = len(s)
    while True:
        m, ss = sites(s, "if")
        for a, c, d, b, e in ss:
            if a >= pos:
                continue
            pos = a
            if re.match(r"\s*else\b", m[e:]) or pp(s[c:d]) or m[:a].rstrip().endswith("else") and re.match(r"\s*else", m[e:]):
                continue
            k = split_and(m, c, d)
            if not k or len(k) < 2:
                continue
            s = s[:a] + "{ " + " ".join("if (" + s[x:y].strip() + ")" for x, y in k) + s[d + 1:e] + " }" + s[e:]
            break
        else:
            return s


def t_else(s):
    """if (A) X else Y -> if (!(A)) Y else X"""
    pos = len(s)
    while True:
        m, ss = sites(s, "if")
        for a, c, d, b, e in ss:
            if a >= pos:
                continue
            pos = a
            x = re.match(r"\s*else\b\s*", m[e:])
            if not x or pp(s[c:d]) or pp(s[e:e + x.end()]):
                continue
            b2 = e + x.end()
            e2 = stmt_end(m, b2)
            if e2 is None or m[b2:].startswith("if") or ";" in m[c:d]:
                continue
            if pp(s[a:e2]):
                continue
            s = s[:a] + "if (!(" + s[c:d] + "))\n{ " + s[b2:e2] + " }\nelse\n{ " + s[b:e] + " }" + s[e2:]
            break
        else:
            return s


def t_var(s):
    """if (X) -> if (bool v = (X); v)"""
    pos = len(s)
    n = 0
    while True:
        m, ss = sites(s, "if")
        for a, c, d, b, e in ss:
            if a >= pos:
                continue
            pos = a
            if ";" in m[c:d] or re.match(r"\s*(auto|bool|const)\b", m[c:d]) or pp(s[c:d]):
                continue
            n += 1
            s = s[:c] + "bool theCond%d = (" % n + s[c:d] + "); theCond%d" % n + s[d:]
            break
        else:
            return s


def t_swap(s):
    """a == b -> b == a, a < b -> b > a"""
    m = mask(s)
    flip = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}
    out = []
    last = 0
    for k in re.finditer(r"(?<=\()([\w.]+(?:->\w+)*) (==|!=|<=|>=|<|>) ([\w.:]+(?:->\w+)*)(?=\))", m):
        if "\\\n" in s[k.start() - 200:k.start() + 200] or s[s.rfind("\n", 0, k.start()) + 1:].lstrip().startswith(("#", "template", "static_assert")):
            continue
        out.append(s[last:k.start()] + k.group(3) + " " + flip[k.group(2)] + " " + k.group(1))
        last = k.end()
    return "".join(out) + s[last:]


def t_lambda(s):
    """if (X) { S } -> if (X) { [&]() { S }(); }"""
    pos = len(s)
    while True:
        m, ss = sites(s, "if")
        for a, c, d, b, e in ss:
            if a >= pos:
                continue
            pos = a
            t = m[b:e]
            if m[b] != "{" or re.search(r"\b(return|break|continue|goto|co_await|co_return|case|constexpr)\b", t) or pp(s[b:e]):
                continue
            if re.search(r"\bco_(await|return|yield)\b|constexpr|template", m[max(0, a - 600):a]):
                continue
            s = s[:b] + "{ [&]() " + s[b:e] + "(); }" + s[e:]
            break
        else:
            return s


def t_ret(s):
    """return X -> bool r = X; return r"""
    m = mask(s)
    out = []
    last = 0
    for k in re.finditer(r"\n([ \t]*)return ([^;{}]+);", m):
        # The function: its type is on its own line.
        h = None
        for f in re.finditer(r"\n\t\t?(?:(?:inline|static|constexpr) )*(\w[\w:<>, ]*[*&]?)\n\t\t?[\w:~<>]+\(|\n\t\t?(?:\w[\w:]* )*(\w[\w:]*[*&]?) ~?\w+\(", m[:k.start()]):
            h = f.group(1) or f.group(2)
        if h != "bool" or "\\\n" in s[k.start() - 100:k.end() + 100] or pp(s[k.start(2):k.end(2)]):
            continue
        x = s[k.start(2):k.end(2)]
        out.append(s[last:k.start()] + "\n" + k.group(1) + "{ bool theRes = bool(" + x + "); return theRes; }")
        last = k.end()
    return "".join(out) + s[last:]


def t_dead(s):
    """A statement which does nothing before each statement with a call."""
    m = mask(s)
    out = []
    last = 0
    for k in re.finditer(r"(?<=[;{}]\n)([\t]{2,})(?=\w[\w.>:-]*\([^;{}]*\);)", m):
        if "\\\n" in s[k.start() - 100:k.end() + 100] or re.search(r"class|struct|enum|public:|private:", m[max(0, k.start() - 300):k.start()]):
            continue
        if not re.match(r"(my|Priv|a[A-Z]|SocketI|pthread|mg::)", m[k.end():]):
            continue
        out.append(s[last:k.end()] + "(void)0; ")
        last = k.end()
    return "".join(out) + s[last:]


def t_body(s):
    """T f(...) { body } -> T f(...) { return [&]() -> T { body }(); }"""
    m = mask(s)
    out = []
    last = 0
    for k in re.finditer(r"\n\t(?:(?:inline|static|constexpr|virtual) )*(\w[\w:<>, ]*[*&]{0,2})\n\t~?[\w:]+(?:operator[^\w\s(]+)?\(", m):
        t = s[k.start(1):k.end(1)]
        p = match(m, k.end() - 1, "(", ")")
        if p is None or t.split()[0] in ("friend", "using", "explicit", "template", "class", "struct", "namespace"):
            continue
        x = re.match(r"(?: const| noexcept)*\n\t\{", m[p + 1:])
        if not x or k.start() < last:
            continue
        b = p + 1 + x.end() - 1
        e = match(m, b, "{", "}")
        body = s[b + 1:e]
        if re.search(r"\bco_|va_|VA_|VAR|__func__", m[b:e]) or "..." in m[k.end():p] or m[:k.start()].rstrip().endswith(">"):
            continue
        out.append(s[last:b + 1] + (" " if t == "void" else " return ") + "[&]() -> " + t + " {" + body + "\n}(); }")
        last = e + 1
    return "".join(out) + s[last:]


def t_loopfn(s):
    """while (X) { S } -> while (X) { [&]() { S }(); }"""
    for kw in ("while", "for"):
        pos = len(s)
        while True:
            m, ss = sites(s, kw)
            for a, c, d, b, e in ss:
                if a >= pos:
                    continue
                pos = a
                t = m[b:e]
                if m[b] != "{" or pp(s[b:e]):
                    continue
                if re.search(r"\b(return|break|goto|case|co_await)\b", t) or re.search(r"\b(while|for)\b", t) and "continue" in t:
                    continue
                s = s[:b] + "{ [&]() " + re.sub(r"\bcontinue;", "return;", s[b:e]) + "(); }" + s[e:]
                break
            else:
                break
    return s


def t_early(s):
    """void f() { ...; if (X) { S } } -> if (!(X)) return; S"""
    m = mask(s)
    out = []
    last = 0
    for k in re.finditer(r"\n\t(?:inline )?void\n\t[\w:]+\(", m):
        p = match(m, k.end() - 1, "(", ")")
        x = re.match(r"(?: const| noexcept)*\n\t\{", m[p + 1:])
        if not x or k.start() < last:
            continue
        b = p + 1 + x.end() - 1
        e = match(m, b, "{", "}")
        y = None
        for y in re.finditer(r"\n\t\tif \(", m[b:e]):
            pass
        if not y:
            continue
        c = b + y.end()
        d = match(m, c - 1, "(", ")")
        z = stmt_end(m, d + 1)
        if z is None or m[z:e].strip() or pp(s[c:z]) or ";" in m[c:d]:
            continue
        out.append(s[last:b + y.start()] + "\n\t\tif (!(" + s[c:d] + "))\n\t\t\treturn;\n" + s[d + 1:z] + s[z:e])
        last = e
    return "".join(out) + s[last:]


def t_order(s):
    """a = 1; b = 2; -> b = 2; a = 1;"""
    pat = r"([ \t]+)(my\w+) = ([\w:]+);\n([ \t]+)(my\w+) = ([\w:]+);\n"

    def rep(k):
        if k.group(2) == k.group(5) or k.group(1) != k.group(4) or k.group(2) == k.group(6) or k.group(5) == k.group(3):
            return k.group(0)
        i = k.group(1)
        return "%s%s = %s;\n%s%s = %s;\n" % (i, k.group(5), k.group(6), i, k.group(2), k.group(3))
    return re.sub(r"(?<=[;{}]\n)" + pat, rep, s)


def t_incr(s):
    return re.sub(r"(?<=\n)([ \t]+)(\+\+|--)([\w.>-]+);", lambda k: "%s%s %s 1;" % (k.group(1), k.group(3), k.group(2)[0] + "="), s)


T = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_")}
MODS = ("box", "sch", "aio", "net", "sio")


def main():
    names = sys.argv[1].split(",")
    d = os.environ.get("KEEP") or tempfile.mkdtemp(prefix="refac_", dir="/tmp")
    shutil.copytree(R + "/src", d + "/src", dirs_exist_ok=True)
    n = 0
    only = os.environ.get("ONLY")
    for mod in MODS:
        for p in glob.glob(d + "/src/mg/%s/*.cpp" % mod) + glob.glob(d + "/src/mg/%s/*.h" % mod):
            if "_Win" in p or only and not re.search(only, p):
                continue
            s = o = open(p).read()
            for t in names:
                if t == "ret" and p.endswith(".h"):
                    continue
                s = T[t](s)
            if s != o:
                n += 1
                open(p, "w").write(s)
    print("changed %d files in %s" % (n, d))
    import json
    ids = sys.argv[2:] or [x["property"] for x in json.load(open(V + "/MANIFEST.json"))["checks"]] if not sys.argv[2:] else sys.argv[2:]
    e = dict(os.environ, VERIF_REPO=d, VERIF_SELFTEST="1")
    e.pop("VERIF_CACHE", None)

    def go(i):
        r = subprocess.run([sys.executable, V + "/check.py", i], capture_output=True, text=True, env=e)
        return i, r
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        for i, r in ex.map(go, ids):
            if r.returncode:
                print(i, "rc=%d" % r.returncode, "\n".join((r.stdout + r.stderr).strip().split("\n")[-6:])[:1200], flush=True)
    if not os.environ.get("KEEP"):
        shutil.rmtree(d)


main()
