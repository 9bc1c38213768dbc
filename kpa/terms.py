"""Hash-consed symbolic value terms and their normalising constructors."""


class Term:
    __slots__ = ("op", "args", "id", "_kids")

    def __repr__(self):
        return show(self)


_tab = {}


def T(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_tab)
        t._kids = None
        _tab[k] = t
    return t


def kids(t):
    if t._kids is None:
        out = []

        def coll(x):
            if isinstance(x, Term):
                out.append(x)
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    coll(y)
        coll(t.args)
        t._kids = tuple(out)
    return t._kids


def INT(v):
    return T("int", int(v))


def STR(s):
    return T("str", s)


TRUE = INT(1)
FALSE = INT(0)
NULL = T("null")
EMPTY = T("empty")
END = T("end")


def isint(t, v=None):
    return t.op == "int" and (v is None or t.args[0] == v)


def const(t):
    return t.args[0] if t.op == "int" else None


MAXALT = 40


def mk_phi(alts):
    """alts: list of (frozenset guard, value)."""
    flat = []
    for g, v in alts:
        if v.op == "phi":
            for g2, v2 in v.args[0]:
                flat.append((frozenset(g) | g2, v2))
        else:
            flat.append((frozenset(g), v))
    # merge identical values
    by = {}
    order = []
    for g, v in flat:
        if v in by:
            by[v].append(g)
        else:
            by[v] = [g]
            order.append(v)
    if len(order) == 1:
        return order[0]
    res = []
    for v in order:
        gs = by[v]
        if len(gs) == 1:
            res.append((gs[0], v))
        else:
            # keep separate guards when few, else intersect
            if len(gs) <= 4:
                for g in gs:
                    res.append((g, v))
            else:
                c = gs[0]
                for g in gs[1:]:
                    c = c & g
                res.append((c, v))
    if len(res) == 2:
        (g1, v1), (g2, v2) = res
        if {v1, v2} == {TRUE, FALSE}:
            if v1 is FALSE:
                (g1, v1), (g2, v2) = (g2, v2), (g1, v1)
            if len(g1) == 1 and len(g2) == 1:
                a, b = next(iter(g1)), next(iter(g2))
                if mk_not(a) is b:
                    return a
    if len(res) > MAXALT:
        return T("many", tuple(order[:MAXALT]))
    return T("phi", tuple(res))


def alts(t):
    """Alternatives of a phi as (guard, value)."""
    if t.op == "phi":
        return list(t.args[0])
    if t.op == "many":
        return [(frozenset(), v) for v in t.args[0]]
    return [(frozenset(), t)]


NONNULL = ("new", "addr", "cdata", "str", "closure", "fn", "padd", "lv")


def truthy(t):
    if t.op == "int":
        return INT(t.args[0] != 0)
    if t.op == "null":
        return FALSE
    if t.op in NONNULL:
        return TRUE
    if t.op == "phi":
        return mk_phi([(g, truthy(v)) for g, v in t.args[0]])
    if t.op in ("not", "eq", "lt", "and", "or", "truthy", "good", "has", "isopen", "fail", "bad", "eof", "exists",
                "equal"):
        return t
    return T("truthy", t)


def mk_not(t):
    if t.op == "not":
        return t.args[0]
    if t.op == "int":
        return INT(not t.args[0])
    if t.op == "and":
        return mk_or(mk_not(t.args[0]), mk_not(t.args[1]))
    if t.op == "or":
        return mk_and(mk_not(t.args[0]), mk_not(t.args[1]))
    if t.op == "phi":
        return mk_phi([(g, mk_not(v)) for g, v in t.args[0]])
    return T("not", t)


def mk_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    return T("and", a, b)


def mk_or(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return a
    return T("or", a, b)


def mk_eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "phi" and len(x.args[0]) <= 12:
            return mk_phi([(g, mk_eq(v, y)) for g, v in x.args[0]])
    if a.op == "int" and b.op == "int":
        return INT(a.args[0] == b.args[0])
    if a.op == "str" and b.op == "str":
        return INT(a.args[0] == b.args[0])
    if a.op == "addr" and b.op == "addr":
        x, y = owner(a), owner(b)
        if x is not None and y is not None and x is not y:
            return FALSE
    for x, y in ((a, b), (b, a)):
        if y.op == "null":
            return mk_not(truthy(x))
        if x.op in BOOLOPS and y.op == "int":
            return x if y.args[0] == 1 else (mk_not(x) if y.args[0] == 0 else FALSE)
        if x.op == "strcmp" and isint(y, 0):
            return mk_eq(x.args[0], x.args[1])
        if x.op == "find" and y.op == "iter" and y.args[1] is END:
            return mk_not(T("has", x.args[0], x.args[1]))
        if x.op == "size" and isint(y, 0) and x.args[0] in (EMPTY,):
            return TRUE
        if x.op == "str" and x.args[0] == "":
            return mk_eq(mk_size(y), INT(0))
        if x.op == "cast" and y.op == "int" and x.args[0][0] == "w":
            pass
    if a.id > b.id:
        a, b = b, a
    return T("eq", a, b)


def owner(a):
    """The object created here (allocation, temporary, local) that an address points into."""
    l = a.args[0]
    if not isinstance(l, Term) or l.op != "lv":
        return None
    r = l.args[0]
    if r.op in ("tmp", "var") or (r.op == "obj" and r.args[0].op == "new"):
        return r
    return None


BOOLOPS = ("not", "eq", "lt", "and", "or", "truthy", "good", "has", "isopen", "fail", "bad", "eof", "exists", "equal")


def mk_size(v):
    if v.op == "str":
        return INT(len(v.args[0]))
    if v.op == "empty":
        return INT(0)
    if v.op == "arr":
        return INT(v.args[1])
    if v.op == "resized":
        return v.args[1]
    if v.op == "phi":
        return mk_phi([(g, mk_size(x)) for g, x in v.args[0]])
    if v.op == "strbytes":
        return mk_size(v.args[0])
    return T("size", v)


def unsigned_like(t):
    return t.op in ("size", "gcount") or (t.op == "cast" and t.args[0].startswith("u"))


def mk_lt(a, b):
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return INT(a.args[0] < b.args[0])
    for i, (x, y) in enumerate(((a, b), (b, a))):
        if x.op == "phi" and len(x.args[0]) <= 12:
            return mk_phi([(g, mk_lt(v, y) if i == 0 else mk_lt(y, v)) for g, v in x.args[0]])
    if isint(a, 0) and unsigned_like(b):
        return mk_not(mk_eq(b, a))
    if isint(b, 1) and unsigned_like(a):
        return mk_eq(a, INT(0))
    if isint(b, 0) and unsigned_like(a):
        return FALSE
    return T("lt", a, b)


def wrap(v, ty):
    if ty is None:
        return v
    sg = ty[0] == "s"
    w = int(ty[1:])
    v &= (1 << w) - 1
    if sg and v >= 1 << (w - 1):
        v -= 1 << w
    return v


def mk_bin(op, a, b, ty):
    """ty: 'u32' / 's64' / None."""
    if op == "==":
        return mk_eq(a, b)
    if op == "!=":
        return mk_not(mk_eq(a, b))
    if op == "<":
        return mk_lt(a, b)
    if op == ">":
        return mk_lt(b, a)
    if op == "<=":
        return mk_not(mk_lt(b, a))
    if op == ">=":
        return mk_not(mk_lt(a, b))
    if a.op == "int" and b.op == "int":
        x, y = a.args[0], b.args[0]
        r = None
        if op == "+":
            r = x + y
        elif op == "-":
            r = x - y
        elif op == "*":
            r = x * y
        elif op == "&":
            r = x & y
        elif op == "|":
            r = x | y
        elif op == "^":
            r = x ^ y
        elif op == "<<" and 0 <= y < 64:
            r = x << y
        elif op == ">>" and 0 <= y < 64:
            r = x >> y
        elif op == "/" and y:
            r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        elif op == "%" and y:
            r = abs(x) % abs(y) * (1 if x >= 0 else -1)
        if r is not None:
            return INT(wrap(r, ty))
    if op in ("+", "|", "^", "-", "<<", ">>") and isint(b, 0):
        return a
    if op in ("+", "|", "^") and isint(a, 0):
        return b
    if a.op == "iter" and op in ("+", "-"):
        if op == "-" and b.op == "iter" and a.args[0] is b.args[0] and a.args[1] is END and isint(b.args[1], 0):
            return T("size", T("lvv", a.args[0]))
        return T("iter", a.args[0], mk_bin(op, a.args[1], b, None))
    if a.op in ("cdata", "addr", "padd") and op in ("+", "-") and ty is None:
        return mk_padd(a, b if op == "+" else mk_bin("-", INT(0), b, None))
    if op in ("+", "*", "&", "|", "^") and a.op == "int" and b.op != "int":
        a, b = b, a
    return T("bin", op, a, b, ty)


def mk_padd(p, n):
    if isint(n, 0):
        return p
    if p.op == "padd":
        return mk_padd(p.args[0], mk_bin("+", p.args[1], n, None))
    return T("padd", p, n)


def mk_cast(ty, t, fromty):
    """Integer conversion to ty ('u16') from fromty; value preserving ones vanish."""
    if t.op == "int":
        return INT(wrap(t.args[0], ty))
    if t.op == "phi":
        return mk_phi([(g, mk_cast(ty, v, fromty)) for g, v in t.args[0]])
    if ty == fromty or fromty is None or ty is None:
        return t
    w, fw = int(ty[1:]), int(fromty[1:])
    if w > fw and (ty[0] == fromty[0] or fromty[0] == "u"):
        return t
    if t.op == "cast" and len(t.args) > 2 and t.args[2] == ty and int(t.args[0][1:]) >= w:
        return t.args[1]                # there and back
    return T("cast", ty, t, fromty)


def mk_struct(cls, base, fields):
    return T("struct", cls, base, tuple(sorted(fields.items(), key=lambda kv: str(kv[0]))))


def project(v, pe):
    if v.op == "struct":
        for f, x in v.args[2]:
            if f == pe:
                return x
        if v.args[1] is not None:
            return project(v.args[1], pe)
        return T("undef", "%s.%s" % (v.args[0], pe))
    if v.op == "phi":
        return mk_phi([(g, project(x, pe)) for g, x in v.args[0]])
    if v.op == "undef":
        return T("undef", v.args[0])
    if v.op == "zeros":
        return INT(0) if isinstance(pe, Term) or pe == "[]" else v
    if v.op == "tuple" and isinstance(pe, str) and pe.isdigit():
        i = int(pe)
        if i < len(v.args):
            return v.args[i]
    if v.op == "arr":
        if isinstance(pe, Term) and pe.op == "idx" and pe.args[0].op == "int":
            i = pe.args[0].args[0]
            if i < len(v.args[0]):
                return v.args[0][i]
            if i < v.args[1]:
                return INT(0)
        if pe == "[]" or isinstance(pe, Term):
            return T("elem", v) if len(v.args[0]) > 8 else mk_phi([(frozenset([T("alt", INT(i))]), x)
                                                                   for i, x in enumerate(v.args[0])])
    if v.op == "upd" and isinstance(pe, Term):
        if v.args[1] is pe:
            return v.args[2]
    if pe == "[]" or (isinstance(pe, Term) and pe.op == "idx" and v.op in ("vec", "empty", "upd")):
        if v.op == "vec":
            b = project(v.args[0], "[]")
            if b.op == "noelem":
                return v.args[1]
            return mk_phi([(frozenset([T("older")]), b), (frozenset([T("newest")]), v.args[1])])
        if v.op == "empty":
            return T("noelem")
        if v.op == "upd":
            b = project(v.args[0], "[]")
            if b.op == "noelem":
                return v.args[2]
            return mk_phi([(frozenset([T("older")]), b), (frozenset([T("newest")]), v.args[2])])
        if pe == "[]":
            return T("elem", v)
    if isinstance(pe, Term) and pe.op == "idx":
        if v.op == "str" and pe.args[0].op == "int" and pe.args[0].args[0] < len(v.args[0]):
            return INT(ord(v.args[0][pe.args[0].args[0]]) & 0xff)
        return T("at", v, pe.args[0])
    if isinstance(pe, Term) and pe.op == "key":
        x = v
        while x.op == "mapput":
            if x.args[1] is pe.args[0]:
                return x.args[2]
            x = x.args[0]
        return T("mapval", v, pe.args[0])
    return T("fld", v, pe)


def update(v, path, new):
    if not path:
        return new
    pe = path[0]
    if pe == "[]" or (isinstance(pe, Term) and pe.op == "idx"):
        inner = update(project(v, pe), path[1:], new)
        if v.op == "arr" and isinstance(pe, Term) and pe.args[0].op == "int" and pe.args[0].args[0] < len(v.args[0]):
            l = list(v.args[0])
            l[pe.args[0].args[0]] = inner
            return T("arr", tuple(l), v.args[1])
        return T("upd", v, pe, inner)
    if isinstance(pe, Term) and pe.op == "key":
        return T("mapput", v, pe.args[0], update(project(v, pe), path[1:], new))
    inner = update(project(v, pe), path[1:], new)
    if v.op == "struct":
        d = dict(v.args[2])
        d[pe] = inner
        return mk_struct(v.args[0], v.args[1], d)
    if v.op == "tuple" and isinstance(pe, str) and pe.isdigit():
        l = list(v.args)
        l[int(pe)] = inner
        return T("tuple", *l)
    return mk_struct(None, v, {pe: inner})


def LV(root, path=()):
    return T("lv", root, tuple(path))


def sub(lv, pe):
    if lv.op != "lv":
        if lv.op in ("phi", "many"):
            return mk_phi([(g, sub(v, pe)) for g, v in alts(lv)])
        return T("lv", T("obj", T("addrof", lv)), (pe,))
    return T("lv", lv.args[0], lv.args[1] + (pe,))


# -- printing ---------------------------------------------------------------
def show(t, depth=6):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth) for x in t) + ")"
        if isinstance(t, frozenset):
            return "{" + ",".join(sorted(show(x, depth) for x in t)) + "}"
        return str(t)
    if depth <= 0:
        return "..."
    d = depth - 1
    o, a = t.op, t.args
    if o == "int":
        return str(a[0])
    if o == "str":
        return '"%s"' % a[0]
    if o in ("null", "end", "empty"):
        return o
    if o == "lv":
        return "@" + show(a[0], d) + "".join("." + show(x, d) if isinstance(x, str) else "[%s]" % show(x, d)
                                             for x in a[1])
    if o == "var":
        return "%s" % (a[2],)
    if o == "fld":
        return show(a[0], d) + "." + show(a[1], d)
    if o == "deref":
        return "*" + show(a[0], d)
    if o == "heap":
        return "*" + show(a[0], d)
    if o == "param":
        return a[0]
    if o == "phi":
        return "phi(" + "|".join(show(v, d) for g, v in a[0]) + ")"
    if o == "not":
        return "!" + show(a[0], d)
    if o == "eq":
        return "(%s==%s)" % (show(a[0], d), show(a[1], d))
    if o == "lt":
        return "(%s<%s)" % (show(a[0], d), show(a[1], d))
    if o == "bin":
        return "(%s%s%s)" % (show(a[1], d), a[0], show(a[2], d))
    return o + "(" + ",".join(show(x, d) for x in a) + ")"


def subterms(t, seen=None):
    """All subterms, shared ones once."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))
