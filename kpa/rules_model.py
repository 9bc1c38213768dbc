"""Rules about the model classes: comparison, accessors, effects."""
from .terms import *
from .core import at
from . import canon
from .rules_flow import short, flat_alts, contradictory


# ---------------------------------------------------------------------------
# P17: comparison

# fields that comparison leaves out by design (stated in the property)
NOT_COMPARED = {("keepass::Icon", "uuid_"), ("keepass::Binary", "compress_")}


def all_terms(r):
    """Every term the analysis of a function mentions."""
    out = []
    for n in r.nodes.values():
        out += [x for x in n.args if isinstance(x, Term)]
        out += list(n.facts)
    if isinstance(r.v, Term):
        out.append(r.v)
    seen = set()
    for x in out:
        for s in subterms(x, seen):
            yield s


def deref_of(x):
    return x.args[0] if x.op == "deref" else None


def fieldpath(t):
    path = []
    while t.op == "fld":
        path.append(t.args[1])
        t = t.args[0]
    return (t, tuple(path)) if path and t.op in ("self", "par") else None


class Compare:
    """One comparison operator, decided by conditional constant propagation under assumed (in)equalities."""

    def __init__(self, c, f, ops):
        self.c, self.f = c, f
        self.cls = f["rec"] if isinstance(f["rec"], str) else f["c"].cls.s
        self.ops = ops
        self.prims = tuple(sorted(ops))
        self.r = c.run(f, extra_prims=self.prims)
        self.S = T("self", f["rec"])
        self.O = T("par", f["ps"][0]["n"])
        self.calls = {}
        self.equals = []
        for t in all_terms(self.r):
            a = None
            if t.op == "prim" and t.args[0] in ops:
                a = t.args[1]
            elif t.op == "rec":
                a = t.args[2] if len(t.args) > 2 else None
            elif t.op == "equal":
                self.equals.append(t)
            if isinstance(a, tuple) and len(a) == 1 and t.op == "rec":
                a = self.rec_args(t)
            if isinstance(a, tuple) and len(a) == 2:
                self.calls.setdefault(frozenset(a), []).append(t)
        # equalities between attributes of different name
        self.cross = {t for t in all_terms(self.r) if t.op == "eq" and self.unpaired(*t.args)}

    def unpaired(self, a, b):
        pa, pb = fieldpath(a), fieldpath(b)
        return pa is not None and pb is not None and pa[0] is not pb[0] and pa[1] != pb[1]

    def rec_args(self, t):
        for n in self.r.by("rec"):
            if isinstance(t.args[1], Term) and n.id == t.args[1].args[0]:
                t0 = n.extra.get("thisv")
                if t0 is not None:
                    return (t0,) + tuple(n.extra.get("vals", ()))
        return t.args[2]

    # leaves: each gives (ways to differ, ways to be equal), every way a set of facts
    def leaf(self, a, b, ty, depth=0):
        out = []
        ty = ty.strip()
        name = str(ty.n or ty.s)
        ident = mk_eq(a, b)
        if "weak_ptr<" in ty.s[:20] or "shared_ptr<" in ty.s[:20]:
            weak = "weak_ptr<" in ty.s[:20]
            la, lb = (T("lock", a), T("lock", b)) if weak else (a, b)
            forms = [(la, lb)] if not weak else [(la, lb)]
            ta, tb = truthy(la), truthy(lb)
            ne = mk_not(mk_eq(la, lb))
            tt = mk_eq(ta, tb)
            diff = [("one is set, the other is not", {ta, mk_not(tb), ne, mk_not(tt)}),
                    ("one is not set, the other is", {mk_not(ta), tb, ne, mk_not(tt)})]
            nul = {mk_not(ta), mk_not(tb), mk_eq(la, lb), tt}
            if weak:
                diff.append(("they designate different objects", {ta, tb, ne, tt}))
                return diff, [{ta, tb, tt, mk_eq(la, lb)}, nul]
            da, db = T("deref", a), T("deref", b)
            calls = [truthy(x) for x in self.calls.get(frozenset((da, db)), ())]
            diff.append(("the objects differ", {ta, tb, ne, tt} | {mk_not(x) for x in calls}))
            return diff, [{ta, tb, ne, tt} | set(calls), nul]
        if "vector<" in name or "vector<" in ty.s[:20]:
            ptrs = "_ptr<" in ty.s
            sz = mk_eq(mk_size(a), mk_size(b))
            eqs = [x for x in self.equals if {x.args[0], x.args[1]} == {a, b}]
            la, lb = mk_lt(mk_size(a), mk_size(b)), mk_lt(mk_size(b), mk_size(a))
            d = [("the first has fewer", {mk_not(ident), mk_not(sz), la, mk_not(lb)} | {truthy(x) for x in eqs}),
                 ("the first has more", {mk_not(ident), mk_not(sz), lb, mk_not(la)} | {truthy(x) for x in eqs}),
                 ("an element differs", {mk_not(ident), sz, mk_not(la), mk_not(lb)} | {mk_not(truthy(x)) for x in eqs})]
            e = {sz, mk_not(la), mk_not(lb)} | {truthy(x) for x in eqs}
            e.add(ident if not ptrs else mk_not(ident))
            return d, [e]
        rec = self.c.P.record(name) if "keepass::" in name else None
        if rec is None and ty.r:
            rec = self.c.P.record(ty.r)
        if rec is not None and rec["n"].startswith("keepass::") and depth < 4 and rec["fields"]:
            calls = {truthy(x) for x in self.calls.get(frozenset((a, b)), ())}
            d, e = [], set()
            for fd in rec["fields"]:
                d2, e2 = self.leaf(project(a, fd["n"]), project(b, fd["n"]), fd["t"], depth + 1)
                d += [("%s: %s" % (fd["n"], w), x | {mk_not(y) for y in calls} | {mk_not(ident)}) for w, x in d2]
                e |= e2[0]
            return d, [e | calls | {ident}]
        return [("the values differ", {mk_not(ident)})], [{ident}]

    def fields(self):
        out = []
        for rec in [self.c.P.record(self.cls)] + [self.c.P.record(b) for b in self.c.P.bases_of(self.cls)]:
            if rec is not None and rec not in out:
                out.append(rec)
        return [(rec, fd) for rec in out for fd in rec["fields"]]

    def value(self, facts):
        """True / False / None: what the operator returns when the facts hold."""
        fs = frozenset(x for x in facts if not (x.op == "int"))
        # attributes of different name hold different values in the cases considered
        fs |= frozenset(mk_not(x) for x in self.cross if x not in fs)
        fs |= frozenset(truthy(x) for x in self.equals if x.args[0] is x.args[1])
        r = self.c.run(self.f, extra_prims=self.prims, facts=tuple(fs))
        got = set()
        if not isinstance(r.v, Term):
            return None
        for g, v in flat_alts(r.v):
            if contradictory(frozenset(g) | fs):
                continue
            got.add(bool(v.args[0]) if v.op == "int" else decided(v, fs))
        return got.pop() if len(got) == 1 else None


def decided(v, fs):
    if v.op == "int":
        return v.args[0] != 0
    if v in fs or truthy(v) in fs:
        return True
    if mk_not(v) in fs or mk_not(truthy(v)) in fs:
        return False
    if v.op == "not":
        x = decided(v.args[0], fs)
        return None if x is None else not x
    if v.op in ("and", "or"):
        xs = [decided(x, fs) for x in v.args]
        if v.op == "and":
            return False if False in xs else (True if all(xs) else None)
        return True if True in xs else (False if all(x is False for x in xs) else None)
    if v.op == "truthy":
        return decided(v.args[0], fs)
    return None


def comparison(c, rep):
    rep.rule("difference-seen", "two objects that differ in one attribute only compare unequal, for every stored attribute and "
             "every way it can differ (value, presence, number, element, order)")
    rep.rule("equal-compares-equal", "two objects whose attributes all agree compare equal")
    rep.rule("elements-compared", "element-wise comparisons visit all elements from the first on both sides and compare what the "
             "element pointers designate, with the element type's own comparison")
    rep.rule("unequal-is-not-equal", "operator!= is the negation of operator==")
    ops = {f["c"].q for f in c.P.funcs.values() if f["c"].sn == "operator==" and f["n"].startswith("keepass::")}
    eqs = [f for f in c.P.funcs.values() if f["c"].q in ops and f.get("rec") and len(f["ps"]) == 1]
    for f in sorted(eqs, key=lambda f: f["n"]):
        K = Compare(c, f, ops)
        where = "%s:%s" % (f["file"], f["line"]) if "file" in f else f["n"]
        leaves = []
        for rec, fd in K.fields():
            a, b = project(K.S, fd["n"]), project(K.O, fd["n"])
            leaves.append((rec, fd) + K.leaf(a, b, fd["t"]))
        for i, (rec, fd, diff, same) in enumerate(leaves):
            if (rec["n"], fd["n"]) in NOT_COMPARED:
                continue
            others = set()
            for j, (_, _, _, e) in enumerate(leaves):
                if j != i:
                    others |= e[0]
            for way, d in diff:
                v = K.value(d | others)
                rep.judge("difference-seen", None if v is None else v is False, "%s.%s/%s" % (short(rec["n"]), fd["n"], way), where,
                          "%s ignores %s when %s" % (short(f["n"]), fd["n"], way), "%s.%s, %s" % (short(rec["n"]), fd["n"], way))
        for k in (0, 1):
            e = set()
            for rec, fd, _, same in leaves:
                if (rec["n"], fd["n"]) in NOT_COMPARED:
                    e |= {mk_not(x) for x in same[0]}
                else:
                    e |= same[min(k, len(same) - 1)]
            v = K.value(e)
            kind = "optional parts set" if k == 0 else "optional parts absent"
            rep.judge("equal-compares-equal", v, "%s/%s" % (short(f["n"]), kind), where,
                      "%s does not report objects as equal whose attributes all agree (%s)" % (short(f["n"]), kind),
                      "%s, %s" % (short(f["n"]), kind))
        for n in K.r.by("equal"):
            A, B, va, vb, oa, ob = n.args[:6]
            full = n.extra.get("full")
            whole = isint(oa, 0) and isint(ob, 0) and full is va
            rep.judge("elements-compared", whole, "%s/whole" % short(f["n"]), at(n),
                      "%s compares only a part of the elements" % short(f["n"]), "whole range")
            ts = [t for t in K.equals if t.args[0] is full and t.args[1] is vb]
            for t in ts:
                p = t.args[3]
                good = None
                if p.op == "dflt":
                    elemptr = "_ptr" in show(va)
                    good = None
                else:
                    inner = p.args[0] if p.op == "truthy" else p
                    args = None
                    if inner.op == "prim" and inner.args[0] in ops:
                        args = inner.args[1]
                    elif inner.op == "rec":
                        args = K.rec_args(inner)
                    if args is not None and len(args) == 2:
                        good = same_element(args[0], args[1], va, vb)
                    elif inner.op == "int":
                        good = False
                    elif inner.op == "eq" and all(x.op == "at" for x in inner.args):
                        good = False
                    elif inner.op == "not":
                        good = False
                rep.judge("elements-compared", good, "%s/pairs" % short(f["n"]), at(n),
                          "%s does not compare corresponding elements by value" % short(f["n"]), "corresponding elements")
    for f in sorted((f for f in c.P.funcs.values() if f["c"].sn == "operator!=" and f.get("rec")
                     and f["n"].startswith("keepass::")), key=lambda f: f["n"]):
        r = c.run(f, extra_prims=tuple(sorted(ops)))
        v = r.v
        good = None
        S, O = T("self", f["rec"]), T("par", f["ps"][0]["n"])
        x = v.args[0] if isinstance(v, Term) and v.op == "not" else None
        if x is not None:
            if x.op == "truthy":
                x = x.args[0]
            good = x.op == "prim" and x.args[0] in ops and set(x.args[1]) == {S, O}
        elif isinstance(v, Term):
            calls = [t for t in all_terms(r) if t.op == "prim" and t.args[0] in ops]
            if len(calls) == 1 and set(calls[0].args[1]) == {S, O}:
                t = truthy(calls[0])
                vals = []
                for fact in (t, mk_not(t)):
                    r2 = c.run(f, extra_prims=tuple(sorted(ops)), facts=(fact,))
                    vals.append(decided(r2.v, {fact}))
                if None not in vals:
                    good = vals == [False, True]
            elif not calls:
                good = False
        rep.judge("unequal-is-not-equal", good, short(f["n"]), "%s:%s" % (f.get("file", f["n"]), f.get("line", "")),
                  "%s is not the negation of operator==" % short(f["n"]), short(f["n"]))


def same_element(x, y, va, vb):
    """x, y are the same-index elements' targets (or values) of va and vb."""
    def norm(t):
        if t.op == "deref":
            t = t.args[0]
        return t
    x, y = norm(x), norm(y)
    if x.op == "at" and y.op == "at":
        if {x.args[0], y.args[0]} != {va, vb}:
            return False
        return x.args[1] is y.args[1]
    return None


# ---------------------------------------------------------------------------
# P18: accessors, copies and moves

def lossless(t):
    """t without the conversions that keep every value."""
    from .rules_xml import width, holds
    while t.op == "cast":
        if holds(width(t.args[0]), width(t.args[2])) is not True and not same_type(t.args[0], t.args[2]):
            return t
        t = t.args[1]
    return t


def same_type(a, b):
    return getattr(a, "s", a) == getattr(b, "s", b)


def lvpath(I, lv):
    """(root, field names) of a location."""
    root, path = lv.args[0], lv.args[1] if len(lv.args) > 1 else ()
    return root, path


def designates(r, v):
    """The term a returned value or location stands for."""
    if r.I.islv(v):
        r.I.S = r.S
        return r.I.read(v)
    if v.op == "addr" and r.I.islv(v.args[0]):
        r.I.S = r.S
        return r.I.read(v.args[0])
    return v


def model_methods(c):
    from .rules_flow import model_classes
    mc = model_classes(c.P)
    for f in sorted(c.P.funcs.values(), key=lambda f: (f["n"], f["fid"])):
        rec = f.get("rec")
        if rec and f["acc"] == 0 and not f.get("implicit") and not f.get("defaulted") and (
                rec in mc or rec.startswith("keepass::protect<")) and not rec.startswith("keepass::Key"):
            yield rec, f


def final(r, root, names):
    """Final value of a field path below root."""
    r.I.S = r.S
    lv = LV(root)
    for n in names:
        lv = sub(lv, n)
    return r.I.read(lv)


def along(v, path):
    for p in path:
        v = project(v, p)
    return v


def leaves_of(c, rec, path=(), depth=0):
    out = []
    for fd in rec["fields"]:
        ty = fd["t"].strip()
        sub_ = c.P.record(str(ty.n or "")) or (c.P.record(ty.r) if ty.r else None)
        if sub_ is not None and sub_["n"].startswith("keepass::") and sub_["fields"] and depth < 3 and "_ptr<" not in ty.s[:30]:
            out += leaves_of(c, sub_, path + (fd["n"],), depth + 1)
        else:
            out.append(path + (fd["n"],))
    return out


UNCLEAR = ("opq", "made", "lphi", "upd", "many", "edited", "overlay", "prim", "rec", "map", "mapf", "filled")


def keeps(v, want, old):
    """True / False / None: v is want on every path (old is the value before)."""
    res = True
    for g, x in flat_alts(v):
        x = lossless(x)
        if x is want:
            continue
        if x is old and old is not None and mk_eq(old, want) in g:
            continue
        if contradictory(g):
            continue
        if any(a.op == "eq" and any(s.op == "addr" for s in a.args) for a in g):
            continue    # the object assigned to itself
        if any(s.op in UNCLEAR for s in subterms(x)):
            res = None
            continue
        return False
    return res


def accessors(c, rep):
    rep.rule("set-then-get", "after set_x(v), x() gives v, on every path and without narrowing")
    rep.rule("others-unchanged", "set_x changes no attribute that another accessor reads and nothing outside the object")
    rep.rule("add-appends", "Add… appends exactly one element made from the arguments to the end of one container of the object "
             "that an accessor returns, whatever it holds already")
    rep.rule("getter-pure", "reading an attribute changes nothing")
    rep.rule("constructed", "a constructor's argument is what the attribute of that name reads afterwards")
    rep.rule("copied", "user-written copy and move operations transfer every attribute")
    rep.rule("protected-view", "the conversions of a protected value designate its value")
    meths = {}
    for rec, f in model_methods(c):
        meths.setdefault(rec, []).append(f)
    getters = {}
    for rec, fs in meths.items():
        for f in fs:
            if f["ps"] or f["c"].ctor or f["c"].sn.startswith("~") or f["c"].static:
                continue
            r = c.run(f)
            if not isinstance(r.v, Term) or r.S is None:
                continue
            v = designates(r, r.v)
            v2 = v.args[0] if v.op == "lock" else v
            p = fieldpath(lossless(v2))
            if p is not None and p[0].op == "self":
                getters.setdefault(rec, {})[f["c"].sn] = (p[1], f, v)
            elif v2.op == "cast" and fieldpath(canon.strip_casts(v2)):
                rep.bad("set-then-get", "%s/narrow" % short(f["n"]), where_of(f),
                        "%s returns its attribute converted to a type that cannot hold all of its values" % short(f["n"]))
            if f["c"].cm:
                touched = [s for s in r.I.stores.values() if outside(s["lv"]) or root_self(s["lv"])]
                rep.judge("getter-pure", not touched, short(f["n"]), where_of(f),
                          "%s changes %s" % (short(f["n"]), ", ".join(show(s["lv"], 4) for s in touched[:3])), short(f["n"]))
    setters = {}
    for rec, fs in meths.items():
        self_ = T("self", rec)
        for f in fs:
            sn = f["c"].sn
            if sn.startswith("set_") and len(f["ps"]) == 1:
                setters.setdefault(rec, {}).setdefault(sn[4:], []).append(f)
    for rec, ss in sorted(setters.items()):
        self_ = T("self", rec)
        gs = getters.get(rec, {})
        for name, fs in sorted(ss.items()):
            g = gs.get(name) or gs.get("is_" + name)
            for f in fs:
                r = c.run(f)
                if r.S is None:
                    rep.bad("set-then-get", short(f["n"]), where_of(f), "%s never returns" % short(f["n"]))
                    continue
                want = T("par", f["ps"][0]["n"])
                if g is None:
                    rep.und("set-then-get", where_of(f), "no accessor %s() of a stored attribute" % name)
                else:
                    from .rules_xml import width, holds
                    if holds(width(f["ps"][0]["t"]), width(g[1]["c"].ret)) is False:
                        rep.bad("set-then-get", short(f["n"]) + "/parameter", where_of(f), "%s takes a %s, but %s() gives %s: not "
                                "every value can be set" % (short(f["n"]), f["ps"][0]["t"].strip().s, g[1]["c"].sn, g[1]["c"].ret.s))
                    v = final(r, self_, g[0])
                    old = along(self_, g[0])
                    ok = field_keeps(c, rec, g[0], v, want, old, r)
                    rep.judge("set-then-get", ok, short(f["n"]), where_of(f),
                              "after %s(v), %s() gives %s" % (short(f["n"]), g[1]["c"].sn, show(v, 3)), short(f["n"]))
                    for n in r.by("copyinto"):
                        C, off, src, before = n.args[:4]
                        if not r.I.islv(C) or not root_self(C):
                            continue
                        a, b = extent(c, rec, f, before, C), extent(c, rec, f, src, None)
                        rep.judge("set-then-get", None if a is None or b is None else a is b, short(f["n"]) + "/size", at(n),
                                  "%s copies its argument into storage that need not have its size" % short(f["n"]),
                                  "size of " + short(f["n"]))
                    if r.thrown:
                        rep.bad("set-then-get", short(f["n"]) + "/throws", where_of(f), "%s refuses some values" % short(f["n"]))
                stored = set()
                for s in r.I.stores.values():
                    if root_self(s["lv"]):
                        stored.add(tuple(x for x in s["lv"].args[1] if isinstance(x, str)))
                    elif outside(s["lv"]):
                        rep.bad("others-unchanged", "%s/outside" % short(f["n"]), where_of(f),
                                "%s changes %s" % (short(f["n"]), show(s["lv"], 4)))
                hit = []
                for other, (path, gf, _) in sorted(gs.items()):
                    if other in (name, "is_" + name) or (g is not None and path == g[0] and other not in ss):
                        continue
                    for st in stored:
                        k = min(len(st), len(path))
                        if st[:k] == path[:k]:
                            v = final(r, self_, path)
                            if v is not along(self_, path) and any(x is not along(self_, q) for q, x in
                                                                   [(q, final(r, self_, q)) for q in sub_leaves(c, rec, path)]):
                                hit.append(other)
                            break
                rep.judge("others-unchanged", not hit, short(f["n"]), where_of(f),
                          "%s also changes what %s() gives" % (short(f["n"]), ", ".join(hit)), short(f["n"]))
    for rec, fs in sorted(meths.items()):
        self_ = T("self", rec)
        R = c.P.record(rec)
        for f in fs:
            C = f["c"]
            if C.copy or C.move or C.casg or C.masg:
                r = c.run(f)
                other = T("par", f["ps"][0]["n"])
                if r.S is None:
                    continue
                for q in leaves_of(c, R):
                    v, want = final(r, self_, q), along(other, q)
                    ok = keeps(v, want, along(self_, q))
                    rep.judge("copied", ok, "%s/%s/%s" % (short(f["n"]), "move" if C.move or C.masg else "copy", ".".join(q)), where_of(f),
                              "%s of %s leaves %s as %s" % ("moving" if C.move or C.masg else "copying", short(rec), ".".join(q), show(v, 3)),
                              "%s %s" % (short(f["n"]), ".".join(q)))
            elif C.ctor and f["ps"]:
                r = c.run(f)
                if r.S is None:
                    continue
                for p in f["ps"]:
                    g = getters.get(rec, {}).get(p["n"])
                    if g is None and rec.startswith("keepass::protect<"):
                        leaf = R["fields"][f["ps"].index(p)]["n"] if len(f["ps"]) == len(R["fields"]) else None
                        path = (leaf,) if leaf else None
                    elif g is None:
                        path = None
                    else:
                        path = g[0]
                    if path is None:
                        rep.und("constructed", where_of(f), "no accessor named like parameter %s" % p["n"])
                        continue
                    v = final(r, self_, path)
                    ok = field_keeps(c, rec, path, v, T("par", p["n"]), None, r)
                    rep.judge("constructed", ok, "%s/%s" % (short(f["n"]), p["n"]), where_of(f),
                              "an object constructed with %s holds %s" % (p["n"], show(v, 3)), "%s %s" % (short(f["n"]), p["n"]))
            elif C.sn.startswith("Add") and f["ps"]:
                r = c.run(f)
                if r.S is None:
                    rep.bad("add-appends", short(f["n"]), where_of(f), "%s never returns" % short(f["n"]))
                    continue
                conts = {}
                bad = None
                for s in r.I.stores.values():
                    if root_self(s["lv"]):
                        conts[tuple(x for x in s["lv"].args[1] if isinstance(x, str))] = s
                    elif outside(s["lv"]):
                        bad = "changes " + show(s["lv"], 4)
                if len(conts) != 1:
                    bad = "changes %d attributes" % len(conts)
                ok = None
                if bad is None:
                    path = next(iter(conts))
                    v = final(r, self_, path)
                    old = along(self_, path)
                    ok = appended(c, r, v, old, f, getters)
                    if ok is False:
                        bad = "leaves the container as %s" % show(v, 4)
                    if not any(g[0] == path for g in getters.get(rec, {}).values()):
                        bad, ok = "fills a container that no accessor returns", False
                else:
                    ok = False
                rep.judge("add-appends", ok, short(f["n"]), where_of(f), "%s %s" % (short(f["n"]), bad), short(f["n"]))
            elif rec.startswith("keepass::protect<") and not f["ps"] and (C.conv or C.sn in ("operator*", "operator->", "value")):
                g = getters.get(rec, {}).get(C.sn)
                gv = getters.get(rec, {}).get("value")
                want = gv[0] if gv else (R["fields"][0]["n"],)
                rep.judge("protected-view", g is not None and g[0] == want, short(C.sn), where_of(f),
                          "%s does not designate the value" % C.sn, C.sn)


def array_len(ty):
    ty = ty.strip()
    if "std::array<" in ty.s[:20]:
        for a in ty.args or ():
            if isinstance(a, int):
                return a
        tail = ty.s.rsplit(",", 1)[-1].strip(" >")
        return int(tail) if tail.isdigit() else None
    return None


def extent(c, rec, f, v, lv):
    """Number of elements of a sequence value."""
    n = mk_size(v)
    if n.op == "int":
        return n
    p = v
    if p.op == "par":
        for q in f["ps"]:
            if q["n"] == p.args[0] and array_len(q["t"]) is not None:
                return INT(array_len(q["t"]))
    fp = fieldpath(p)
    if fp is not None and fp[0].op == "self" and len(fp[1]) == 1:
        for fd in c.P.record(rec)["fields"]:
            if fd["n"] == fp[1][0] and array_len(fd["t"]) is not None:
                return INT(array_len(fd["t"]))
    if n.op == "size" and n.args[0].op == "par":
        for q in f["ps"]:
            if q["n"] == n.args[0].args[0] and array_len(q["t"]) is not None:
                return INT(array_len(q["t"]))
    return n


def where_of(f):
    return "%s:%s" % (f.get("file", f["n"]), f.get("line", ""))


def root_self(lv):
    return lv.op == "lv" and isinstance(lv.args[0], Term) and lv.args[0].op == "self"


def outside(lv):
    """The location belongs to an object that exists outside the function."""
    if lv.op != "lv":
        return False
    root = lv.args[0]
    for s in subterms(root):
        if s.op in ("self", "par", "glob", "static"):
            return not root_self(lv)
    return False


def sub_leaves(c, rec, path):
    R = c.P.record(rec)
    out = [q for q in leaves_of(c, R) if q[:len(path)] == path]
    return out or [path]


def field_keeps(c, rec, path, v, want, old, r):
    ok = keeps(v, want, old)
    if ok:
        return True
    leaves = [q[len(path):] for q in sub_leaves(c, rec, path)]
    if leaves and leaves != [()]:
        rs = [keeps(along(v, q), along(want, q), along(old, q) if old is not None else None) for q in leaves]
        if False in rs:
            return False
        return None if None in rs else True
    return ok


def appended(c, r, v, old, f, getters):
    if v.op not in ("vec", "cat") or v.args[0] is not old or len(v.args) != 2:
        if v.op == "phi":
            rs = {appended(c, r, x, old, f, getters) for g, x in flat_alts(v) if not contradictory(g)}
            return rs.pop() if len(rs) == 1 else (False if False in rs else None)
        if v.op == "edited" and v.args[0] is old:
            at_ = [n for n in r.by("edit") if len(n.args) == 3 and n.name.endswith("::insert")]
            if at_ and all(n.args[1].op == "iter" and n.args[1].args[1].op == "int" for n in at_):
                return False
        return False if v.op in ("vec", "cat") or v is old else None
    x = v.args[1]
    pars = [T("par", p["n"]) for p in f["ps"]]
    if len(pars) == 1 and lossless(x) is pars[0]:
        return True
    if x.op != "struct":
        return None
    cls = x.args[0]
    for p in f["ps"]:
        g = getters.get(cls, {}).get(p["n"])
        if g is None:
            return None
        got = along(x, g[0])
        if lossless(got) is T("par", p["n"]):
            continue
        R = c.P.record(cls)
        qs = [q for q in leaves_of(c, R) if q[:len(g[0])] == g[0]]
        if not qs or any(along(x, q) is not along(T("par", p["n"]), q[len(g[0]):]) for q in qs):
            return False
    return True


# ---------------------------------------------------------------------------
# P14: read-only operations

CLOCK = ("time", "std::time", "clock", "std::clock", "gettimeofday", "clock_gettime", "rand", "std::rand", "random", "getpid",
         "getenv", "std::getenv")


def real_targets(lv, facts):
    """Roots the location can denote under the facts, as (root term) list."""
    root = lv.args[0]
    if root.op != "obj":
        return [root]
    out = []
    for g, p in flat_alts(root.args[0]):
        if contradictory(frozenset(g) | frozenset(facts)):
            continue
        out.append(p)
    return out


def fresh(p):
    """The pointer designates an object the operation itself created."""
    while p.op in ("lock", "cast", "addr"):
        p = p.args[0]
    if p.op == "new":
        return True
    if p.op == "lv":
        return p.args[0].op in ("var", "tmp", "ret") or (p.args[0].op == "obj" and fresh(p.args[0].args[0]))
    return p.op in ("var", "tmp", "ret", "made", "null")


def readonly_ops(c):
    from .rules_flow import model_classes
    mc = model_classes(c.P)
    for f in sorted(c.P.funcs.values(), key=lambda f: (f["n"], f["fid"])):
        if f.get("body") is None or f.get("lambda"):
            continue
        rec = f.get("rec") or ""
        C = f["c"]
        if C.sn == "Export" and rec.startswith("keepass::"):
            yield f, True
        elif (rec in mc or rec.startswith("keepass::protect<")) and not f.get("implicit") and (
                C.cm or C.sn in ("ToJson", "operator==", "operator!=")):
            yield f, False


def read_only(c, rep):
    rep.rule("model-unchanged", "no store of a read-only operation (export, rendering, comparison, inspection) targets an object "
             "reachable from the database, group, entry or key it is given")
    rep.rule("content-determined", "the content an export writes depends on the database only, not on chance or the clock")
    for f, export in readonly_ops(c):
        r = c.run(f)
        name = short(f["n"])
        hits = {}
        for s in r.I.stores.values():
            lv = s["lv"]
            if lv.op != "lv":
                continue
            for p in real_targets(lv, s["facts"]):
                if fresh(p):
                    continue
                if export and p.op == "self":
                    continue
                if any(x.op in ("self", "par") for x in subterms(p)):
                    # the export's own file object may keep working state in its members
                    if export and p.op == "fld" and False:
                        continue
                    hits.setdefault(show(lv, 4), s["loc"])
        for k, loc in sorted(hits.items()):
            rep.bad("model-unchanged", "%s/%s" % (name, k), at(loc) if loc else where_of(f), "%s changes %s" % (name, k))
        if not hits:
            rep.ok("model-unchanged", where_of(f), "%s: %d stores" % (name, len(r.I.stores)))
        if not export:
            continue
        kdbx = bool(r.by("xset"))
        bad = []
        for n in r.by("xset") + r.by("xattr") + ([] if kdbx else r.by("swrite")):
            for a in n.args:
                if isinstance(a, Term) and any(x.op in ("randombytes", "now") for x in subterms(a)):
                    bad.append(n)
        for n in bad:
            rep.bad("content-determined", "%s/random" % name, at(n), "%s writes a random value into the content" % name)
        clock = [n for n in r.nodes.values() if n.kind in ("ext", "prim", "time") and n.name.split("::")[-1] in CLOCK]
        for n in clock:
            rep.bad("content-determined", "%s/%s" % (name, n.name), at(n), "%s consults %s" % (name, n.name))
        if not bad and not clock:
            rep.ok("content-determined", where_of(f), "%s: %d values written" % (name, len(r.by("xset") + r.by("swrite"))))


# ---------------------------------------------------------------------------
# P15: reuse of file objects

def reusable(c, rep):
    rep.rule("starts-afresh", "no operation of a file object reads a member that an earlier operation on the object can have "
             "changed before giving it a value that does not depend on the earlier operation")
    P = c.P
    ops = {}
    for f in P.funcs.values():
        rec = f.get("rec") or ""
        if f["c"].sn in ("Import", "Export") and rec.startswith("keepass::") and f.get("body") is not None:
            ops.setdefault(rec, []).append(f)
    for rec, fs in sorted(ops.items()):
        R = P.record(rec)
        self_ = T("self", rec)
        fields = [fd["n"] for fd in R["fields"]]
        # every public operation that is not const can leave state behind
        pub = [f for f in P.funcs.values() if f.get("rec") == rec and f["acc"] == 0 and not f["c"].ctor
               and not f["c"].sn.startswith("~") and f.get("body") is not None]
        runs = {f["fid"]: c.run(f) for f in pub}
        changed = {}
        for f in pub:
            for s in runs[f["fid"]].I.stores.values():
                if root_self(s["lv"]) and s["lv"].args[0] is self_ and s["lv"].args[1]:
                    changed.setdefault(s["lv"].args[1][0], []).append(short(f["n"]))
        for f in sorted(pub, key=lambda f: f["n"]):
            r = runs[f["fid"]]
            mine = {}
            for fd in fields:
                mine[project(self_, fd)] = fd
            read = {}

            def scan(t, where):
                for x in subterms(t):
                    if x in mine:
                        read.setdefault(mine[x], where)
            for n in r.nodes.values():
                for a in n.args:
                    if isinstance(a, Term):
                        scan(a, at(n))
                for a in n.facts:
                    scan(a, at(n))
            for entry, back in r.I.lphi.values():
                if isinstance(entry, Term):
                    scan(entry, where_of(f))
            if isinstance(r.v, Term):
                scan(r.v, where_of(f))
            for s in r.I.stores.values():
                if isinstance(s["v"], Term) and s["lv"].op == "lv" and s["lv"].args[0].op not in ("var", "tmp", "ret"):
                    scan(s["v"], at(s["loc"]) if s["loc"] else where_of(f))
            for fd in fields:
                if fd in read and fd in changed and f["c"].sn in ("Import", "Export"):
                    rep.bad("starts-afresh", "%s/%s" % (short(f["n"]), fd), read[fd],
                            "%s uses %s as an earlier operation (%s) left it" % (short(f["n"]), fd, ", ".join(sorted(set(changed[fd])))))
                elif f["c"].sn in ("Import", "Export"):
                    rep.ok("starts-afresh", where_of(f), "%s.%s" % (short(f["n"]), fd))
        if not fields:
            for f in fs:
                rep.ok("starts-afresh", where_of(f), "%s has no members" % short(rec))
