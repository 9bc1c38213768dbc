"""Rewriting of value terms into a form that two directions of a format can be compared in."""
from .terms import *
from .terms import _tab

FOLD = {
    "eq": lambda a: mk_eq(*a), "lt": lambda a: mk_lt(*a), "not": lambda a: mk_not(*a), "and": lambda a: mk_and(*a),
    "or": lambda a: mk_or(*a), "truthy": lambda a: truthy(*a), "size": lambda a: mk_size(*a),
    "bin": lambda a: mk_bin(*a), "cast": lambda a: mk_cast(*a),
}


def rebuild(t, f, memo=None, depth=0):
    """Top-down rewriting: f(t) returns a replacement (not rewritten again) or None."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        if depth > 400:
            return t

        def go(x):
            if isinstance(x, Term):
                return rebuild(x, f, memo, depth + 1)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if isinstance(x, frozenset):
                return frozenset(go(y) for y in x)
            return x
        args = tuple(go(a) for a in t.args)
        if args == t.args:
            r = t
        elif t.op == "phi":
            r = mk_phi([(g, v) for g, v in args[0] if FALSE not in g])
        elif t.op in FOLD:
            r = FOLD[t.op](args)
        elif t.op == "fld":
            r = project(args[0], args[1]) if args[0].op in ("struct", "phi") else T("fld", *args)
        else:
            r = T(t.op, *args)
    memo[t] = r
    return r


def flatten(I, v, seen=None, g=frozenset()):
    """All values that may reach v through joins and loop-carried variables: list of (guards, leaf)."""
    if seen is None:
        seen = set()
    out = []
    todo = [(g, v)]
    while todo:
        g, x = todo.pop()
        if x.op in ("phi", "many"):
            for g2, y in alts(x):
                todo.append((g | g2, y))
            continue
        if x.op == "lphi":
            if x in seen:
                continue
            seen.add(x)
            e = I.lphi.get(x)
            if e is None:
                out.append((g, x))
                continue
            for y in e:
                if y is not None:
                    todo.append((g, y))
            continue
        out.append((g, x))
    return out


def strip_casts(t, memo=None):
    return rebuild(t, lambda x: strip_casts(x.args[1]) if x.op == "cast" else None, memo)


def rd_of(x):
    """The read event a projected value comes from and the projection path."""
    path = []
    while x.op in ("fld",):
        path.append(x.args[1])
        x = x.args[0]
    if x.op in ("rd", "rest"):
        return x, tuple(reversed(path))
    return None, None


# ---------------------------------------------------------------------------
# counted loops
def counters(I):
    """Loop-carried variables that enumerate positions 0, 1, 2, ...: lphi -> position of the iteration."""
    out = {}
    for l, (e, b) in I.lphi.items():
        L = I.loops.get(l.args[0])
        if L is None or L.kind not in ("for", "while", "do") or e is None or b is None:
            continue
        e, b = strip_casts(e), strip_casts(b)
        if e.op == "int" and e.args[0] == 0 and b.op == "bin" and b.args[0] == "+":
            k = [strip_casts(x) for x in b.args[1:3] if isinstance(x, Term)]
            if l in k and any(x.op == "int" and x.args[0] == 1 for x in k):
                out[l] = T("i", l.args[0])
    return out


def normalised(r):
    """The event graph with explicit index and iterator loops over containers written as range loops."""
    import copy
    cs = counters(r.I)
    if not cs:
        return r
    memo = {}

    def f(t):
        if t in cs:
            return cs[t]
        if t.op == "lt" and t.args[0] in cs and t.args[1].op == "size":
            return TRUE
        if t.op == "eq" and any(a in cs for a in t.args) and any(
                isinstance(a, Term) and (a.op in ("end", "size")) for a in t.args):
            return FALSE
        return None

    def go(x):
        if isinstance(x, Term):
            return rebuild(x, f, memo)
        if isinstance(x, (list, tuple)):
            return type(x)(go(y) for y in x)
        return x

    def gofacts(fs):
        return frozenset(y for y in (go(x) for x in fs) if y is not TRUE)
    r2 = copy.copy(r)
    I2 = copy.copy(r.I)
    I2.nodes = {}
    for i, n in r.I.nodes.items():
        m = copy.copy(n)
        m.args = go(n.args)
        m.facts = gofacts(n.facts)
        if isinstance(n.extra, dict) and "vals" in n.extra:
            m.extra = dict(n.extra)
            m.extra["vals"] = go(n.extra["vals"])
        I2.nodes[i] = m
    I2.stores = {}
    for k, s in r.I.stores.items():
        s2 = dict(s)
        s2["v"] = go(s["v"])
        s2["facts"] = gofacts(s["facts"])
        I2.stores[k] = s2
    r2.I = I2
    r2.nodes = I2.nodes
    r2._succ = r2._byname = None
    return r2
