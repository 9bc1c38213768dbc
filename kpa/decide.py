"""Deciding whether two terms over the same unconstrained attributes can have different values.

Terms are compared structurally; where they differ only in integer expressions, those expressions are evaluated over
boundary values of their (free) attributes that satisfy the path condition.  Only attributes of parameters, sizes of
such attributes and stream counts stay symbolic leaves.
"""
import itertools
from .canon import *
from .terms import *

LEAF = ("fld", "par", "size", "deref", "lock", "at", "gcount")
SAMPLES = (0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 48, 64, 255, 256, 1000, 65535, 65536, 70000, (1 << 31) - 1, (1 << 32) - 1,
           1 << 32, (1 << 32) + 5)


def evalnum(t, env):
    """Integer value of t, None when unknown."""
    if t in env:
        return env[t]
    o = t.op
    if o == "int":
        return t.args[0]
    if o == "bin":
        a, b = evalnum(t.args[1], env), evalnum(t.args[2], env)
        if a is None or b is None:
            return None
        op = t.args[0]
        if op in ("min", "max"):
            return min(a, b) if op == "min" else max(a, b)
        r = mk_bin(op, INT(a), INT(b), t.args[3] if len(t.args) > 3 else None)
        return r.args[0] if r.op == "int" else None
    if o == "cast":
        a = evalnum(t.args[1], env)
        return None if a is None else wrap(a, t.args[0])
    if o in ("min", "max"):
        a, b = evalnum(t.args[0], env), evalnum(t.args[1], env)
        return None if a is None or b is None else (min(a, b) if o == "min" else max(a, b))
    if o == "eq":
        a, b = evalnum(t.args[0], env), evalnum(t.args[1], env)
        return None if a is None or b is None else int(a == b)
    if o == "lt":
        a, b = evalnum(t.args[0], env), evalnum(t.args[1], env)
        return None if a is None or b is None else int(a < b)
    if o == "not":
        a = evalnum(t.args[0], env)
        return None if a is None else int(not a)
    if o == "truthy":
        a = evalnum(t.args[0], env)
        return None if a is None else int(bool(a))
    if o in ("and", "or"):
        v = [evalnum(x, env) for x in t.args if isinstance(x, Term)]
        if o == "and":
            return 0 if 0 in v else (None if None in v else 1)
        return 1 if any(x for x in v if x is not None) else (None if None in v else 0)
    if o == "phi":
        # guards can overlap: the way out of a loop has none of its own
        vals = {evalnum(v, env) for g, v in t.args[0] if 0 not in [evalnum(x, env) for x in g]}
        return vals.pop() if len(vals) == 1 else None
    return None


def evalset(t, env):
    """Set of values t may have; a conditional value has every alternative that is not excluded.  None when unknown."""
    v = evalnum(t, env)
    if v is not None:
        return {v}
    if t.op == "phi":
        out = set()
        for g, x in t.args[0]:
            if any(evalnum(y, env) == 0 for y in g):
                continue
            s = evalset(x, env)
            if s is None:
                return None
            out |= s
        return out
    if t.op in ("bin", "cast", "min", "max"):
        subs = [x for x in t.args if isinstance(x, Term)]
        sets = [evalset(x, env) for x in subs]
        if any(x is None for x in sets):
            return None
        out = set()
        for combo in itertools.product(*sets):
            m = dict(zip(subs, combo))
            v = evalnum(T(t.op, *[INT(m[x]) if x in m else x for x in t.args]), {})
            if v is None:
                return None
            out.add(v)
        return out
    return None


ARITH = ("bin", "cast", "min", "max", "eq", "lt", "not", "truthy", "and", "or", "int")


def numleaves(t, out):
    """Collects symbolic integer leaves; False when t holds something that is not an integer expression."""
    o = t.op
    if o == "int":
        return True
    if o in ARITH:
        return all(numleaves(x, out) for x in t.args if isinstance(x, Term))
    if o == "phi":
        return all(numleaves(v, out) and all(numleaves(x, out) for x in g) for g, v in t.args[0])
    if o in LEAF and rooted(t):
        out.add(t)
        return True
    return False


def rooted(t):
    while t.op in ("fld", "size", "deref", "lock", "at"):
        t = t.args[0]
    return t.op == "par"


def can_differ(a, b, facts=()):
    """True when two integer terms take different values for some values of their attributes allowed by the facts."""
    lv = set()
    if not numleaves(a, lv) or not numleaves(b, lv):
        return None
    rel = []
    for f in facts:
        s = set()
        if numleaves(f, s) and s & lv:
            rel.append(f)
            lv |= s
    if len(lv) > 3:
        return None
    lv = sorted(lv, key=lambda t: t.id)
    seen = False
    for vals in itertools.product(SAMPLES, repeat=len(lv)):
        env = dict(zip(lv, vals))
        if any(evalnum(f, env) == 0 for f in rel):
            continue
        x, y = evalnum(a, env), evalnum(b, env)
        if x is None or y is None:
            return None
        seen = True
        if x != y:
            return True
    return False if seen else None


def diff_pairs(a, b, out, depth=0):
    """Minimal differing subterm pairs of two terms."""
    if a is b:
        return
    if a.op == b.op and len(a.args) == len(b.args) and a.op not in ARITH and a.op not in LEAF and a.op != "phi" and depth < 40:
        ok = True
        sub_ = []
        for x, y in zip(a.args, b.args):
            if isinstance(x, Term) and isinstance(y, Term):
                sub_.append((x, y))
            elif x != y:
                ok = False
        if ok:
            for x, y in sub_:
                diff_pairs(x, y, out, depth + 1)
            return
    out.append((a, b))


def overwritten(x, y, facts):
    """x is a sequence with a constant in a fixed place, y an attribute nothing is known about."""
    return x.op == "upd" and isinstance(x.args[1], Term) and x.args[1].op == "idx" and \
        isinstance(x.args[1].args[0], (int, Term)) and isinstance(x.args[2], Term) and x.args[2].op == "int" and \
        (not isinstance(x.args[1].args[0], Term) or x.args[1].args[0].op == "int") and \
        y.op in ("fld", "par") and rooted(y) and not any(y in subterms(f) for f in facts)


def differ(a, b, facts=()):
    """True: the terms have different values for some allowed attributes.  False: always equal.  None: not decided."""
    if a is b:
        return False
    ps = []
    diff_pairs(a, b, ps)
    res = [can_differ(x, y, facts) for x, y in ps]
    if True in res:
        return True
    # two different attributes are different values, and so are an attribute and one with an element overwritten
    for x, y in ps:
        if overwritten(x, y, facts) or overwritten(y, x, facts):
            return True
        if x.op in ("fld", "par") and y.op in ("fld", "par") and rooted(x) and rooted(y):
            return True
    if res and all(r is False for r in res):
        return False
    return None
