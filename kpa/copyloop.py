"""Element-wise copy loops: which elements of the source reach which elements of the destination."""
from .canon import strip_casts
from .decide import evalnum
from .terms import *

SIZES = (1, 2, 3, 16, 33)


def counters(r, k):
    """(phi term, start, next value) of the counters of loop k."""
    out = []
    for l, (e, b) in r.I.lphi.items():
        if l.args[0] == k and e is not None and b is not None and e.op == "int" and l in set(subterms(b)):
            if evalnum(b, {l: 3}) is not None:
                out.append((l, e.args[0], b))
    return out


def element(v):
    """(source, index) of a value that is one element of something."""
    n = 0
    while v.op == "cast":
        v = v.args[1]
    if v.op == "at":
        return v.args[0], v.args[1]
    return None


def copy_loop(r, L):
    """How the array carried around a loop is filled: ('copy', source) when element i becomes element i of the source for
    every i, ('bad', text, location) when some element does not, None when the loop is something else."""
    eb = r.I.lphi.get(L)
    if not eb or eb[0] is None or eb[1] is None:
        return None
    e, b = eb
    if b.op != "upd" or b.args[0] is not L or b.args[1].op != "idx":
        return None
    di = b.args[1].args[0]
    se = element(b.args[2]) if isinstance(b.args[2], Term) else None
    if se is None or not isinstance(di, Term):
        return None
    src, si = se
    cs = counters(r, L.args[0])
    if not cs:
        return None
    lp = r.I.loops.get(L.args[0])
    if lp is None or not lp.complete or lp.cond is None:
        return None
    where = "%s:%s" % (lp.file, lp.line)
    facts = [f for f in lp.cond if any(c[0] in set(subterms(f)) for c in cs)]
    if not facts:
        return None
    sz = mk_size(src)
    known = evalnum(sz, {})
    if known is None and sz.op != "size":
        return None
    if known is None and not any(y.op == "size" and (strip_casts(y.args[0]) is src or y is sz) for f in facts for y in subterms(f)):
        return None         # bounded by something whose relation to the source is not known
    for n in SIZES if known is None else (known,):
        env = {c[0]: c[1] for c in cs}
        if known is None:
            env[sz] = n
        for x in {y for f in facts for y in subterms(f) if y.op == "size"}:
            if strip_casts(x.args[0]) is src or x.args[0] is L or x.args[0] is e:
                env[x] = n
        pairs = []
        for _ in range(n + 3):
            ev = [evalnum(f, env) for f in facts]
            if None in ev:
                return None
            if 0 in ev:
                break
            p = (evalnum(di, env), evalnum(si, env))
            if None in p:
                return None
            pairs.append(p)
            nx = [evalnum(c[2], env) for c in cs]
            if None in nx:
                return None
            env.update({c[0]: v for c, v in zip(cs, nx)})
        if sorted(set(pairs)) != [(i, i) for i in range(n)]:
            miss = [i for i in range(n) if (i, i) not in pairs]
            wrong = [p for p in pairs if p[0] != p[1] or p[0] >= n]
            return ("bad", "of %d elements, %s" % (n, "element %d is not copied" % miss[0] if miss else
                                                   "element %d receives element %d" % wrong[0]), where)
    return ("copy", src)
