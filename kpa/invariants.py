"""Value sets of private integer members.

The set holds every value a constructor leaves in the member and is closed under every store of every method of the
class; each store's value is evaluated for all members of the set, under those path conditions that can be evaluated.
"""
import itertools
from .decide import evalnum, evalset
from .canon import *
from .terms import *

LIMIT = 300


def leaf_of(t, cls):
    """Field name when t is a value of a direct member of an object of class cls."""
    if t.op == "fld" and t.args[0].op in ("self", "deref") and (t.args[0].op != "self" or t.args[0].args[0] == cls):
        return t.args[1]
    if t.op == "lphi" and isinstance(t.args[1], Term) and t.args[1].op == "lv":
        root, path = t.args[1].args
        if len(path) == 1 and isinstance(path[0], str) and isinstance(root, Term) and root.op in ("self", "obj"):
            return path[0]
    return None


def leaves(t, cls, field):
    return {x for x in subterms(t) if leaf_of(x, cls) == field}


def member_values(c, cls, field):
    cache = c.__dict__.setdefault("_member_values", {})
    k = (cls, field)
    if k not in cache:
        cache[k] = None
        cache[k] = compute(c, cls, field)
    return cache[k]


def compute(c, cls, field):
    vals = set()
    steps = []
    seen_ctor = False
    for f in c.P.funcs.values():
        if f.get("rec") != cls or not f.get("body"):
            continue
        r = c.run(f)
        if f["n"].split("::")[-1] == cls.split("::")[-1]:
            seen_ctor = True
            lv = LV(T("self", cls), (field,))
            r.I.S = r.S
            v = r.I.read(lv)
            v = strip_casts(v)
            if v.op != "int":
                return None
            vals.add(v.args[0])
            continue
        for s in r.I.stores.values():
            root, path = s["lv"].args
            if len(path) != 1 or path[0] != field:
                continue
            if not isinstance(root, Term) or root.op not in ("self", "obj", "deref", "at"):
                continue
            steps.append((s["v"], s["facts"]))
    if not seen_ctor:
        return None
    todo = True
    while todo:
        todo = False
        for v, facts in steps:
            lv = leaves(v, cls, field)
            fs = [x for x in facts if leaves(x, cls, field)]
            for x in fs:
                lv |= leaves(x, cls, field)
            lv = sorted(lv, key=lambda t: t.id)
            if len(lv) > 3:
                return None
            for combo in itertools.product(sorted(vals), repeat=len(lv)):
                env = dict(zip(lv, combo))
                if any(evalnum(x, env) == 0 for x in fs):
                    continue
                ys = evalset(v, env)
                if ys is None:
                    return None
                if not ys <= vals:
                    vals |= ys
                    todo = True
                    if len(vals) > LIMIT:
                        return None
    return vals


def refuted_by_members(c, r, facts):
    """No combination of possible member values satisfies the facts."""
    per = {}
    for x in facts:
        for t in subterms(x):
            for cls in classes_of(t):
                fld = leaf_of(t, cls)
                if fld is not None:
                    per[t] = (cls, fld)
    sets = {}
    for t, (cls, fld) in per.items():
        q = member_values(c, cls, fld)
        if q:
            sets[t] = sorted(q)
    if not sets or len(sets) > 3:
        return False
    ts = sorted(sets, key=lambda t: t.id)
    rel = [x for x in facts if any(t in subterms(x) for t in ts)]
    for combo in itertools.product(*[sets[t] for t in ts]):
        env = dict(zip(ts, combo))
        if not any(evalnum(x, env) == 0 for x in rel):
            return False
    return True


def classes_of(t):
    if t.op == "fld" and t.args[0].op == "self":
        return [t.args[0].args[0]]
    if t.op == "lphi" and isinstance(t.args[1], Term) and t.args[1].op == "lv":
        root = t.args[1].args[0]
        if isinstance(root, Term) and root.op == "self":
            return [root.args[0]]
    return []
