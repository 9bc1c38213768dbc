"""References between the parts of an imported document."""
import collections

from .canon import *
from .core import at
from .decide import can_differ
from .rules_flow import stable
from .rules_xml import XmlCheck, has_place, pl, pp
from .terms import *


def identifier_only(X):
    """Attributes for which the export writes one attribute of the object only, while it writes the objects of that class
    completely elsewhere."""
    kids_ = collections.defaultdict(set)
    for ws in X.E.writes.values():
        for _, als in ws:
            for e in als:
                if e.kind == "attr":
                    for i in range(2, len(e.leaf)):
                        kids_[e.leaf[:i]].add(e.leaf[i])
    cls, most = {}, collections.defaultdict(int)
    for R, k in kids_.items():
        t = X.E.types.field(R)
        q = X.E.types.cls(t) if t is not None else None
        if q and X.c.P.record(q) and ("shared_ptr" in str(t) or "weak_ptr" in str(t) or R[-1] == "[]"):
            cls[R] = q
            most[q] = max(most[q], len(k))
    return {R for R, q in cls.items() if R[-1] != "[]" and len(kids_[R]) == 1 and most[q] > 1}


def plain(t):
    t = strip_casts(t)
    return strip_casts(t.args[0]) if t.op == "tostr" else t


def offset(a, b):
    """Two numbers that differ by a constant."""
    if a.op not in ("bin", "lphi", "fld") or b.op not in ("bin", "lphi", "fld"):
        return False
    lv = {x for t in (a, b) for x in subterms(t) if x.op == "lphi"}
    m = {x: T("par", "n%d" % i) for i, x in enumerate(sorted(lv, key=lambda x: x.id))}
    return can_differ(rebuild(a, m.get), rebuild(b, m.get)) is True


def references(c, rep):
    """P26"""
    rep.rule("references", "a reference is resolved through its own identifier, with the inverse encoding, in a pool whose "
             "keys are the identifiers the export writes for the referenced objects")
    rep.rule("null-reference", "a reference for which nothing was written stays empty")
    rep.rule("own-part", "every pool a reference is looked up in holds the objects of the imported database at that time")
    rep.rule("registered", "every object that becomes part of the database is entered in the pool under its identifier")
    X = XmlCheck(c, rep)
    X.refs()
    X.nulls()
    IV, r = X.IV, X.IV.r
    refs = identifier_only(X)
    refs |= {A for (A, o) in X.groups if any(al.kind == "lookup" for a in X.groups[(A, o)] for al in a.alts)}
    owned = set()
    for o, path in IV.path_of.items():
        if path not in refs:
            owned.add(o)
    puts = r.by("mapput")
    for A in sorted(refs):
        for (B, o), asg in sorted(X.groups.items(), key=lambda x: (x[0][0], x[0][1].id)):
            if B != A:
                continue
            by_site = collections.defaultdict(list)
            for a in asg:
                by_site[a.loc].append(a)
            for site, l in by_site.items():
                objs = {ob for a in l for al in a.alts if al.kind == "lookup" for _, ob in al.leaf[1]}
                objs |= {al.term for a in l for al in a.alts if al.kind == "obj"}
                if not objs:
                    continue
                good = objs & owned
                rep.judge("own-part", bool(good), pp(A), at(site), "%s is set where no part of the database can be found yet"
                          % pp(A), "%s refers to %s" % (pp(A), ", ".join(sorted({pp(IV.path_of[q]) for q in good}))))
                # a pool that is still being filled in the same loop
                for a in l:
                    for ob in good:
                        for m in puts:
                            if len(m.args) > 2 and m.args[2] is ob and m.loops and set(m.loops) & set(getattr(a, "loops", ()) or ()):
                                rep.bad("own-part", pp(A) + ":partial", at(site), "%s is looked up while the pool is still "
                                        "being filled" % pp(A))
    # registration
    for m in puts:
        if len(m.args) < 3:
            continue
        ob = m.args[2]
        if ob not in owned:
            continue
        made = ob.args[0] if ob.op == "new" else None
        base = set()
        if made is not None and made.op == "ev" and made.args[0] in r.nodes:
            base |= r.nodes[made.args[0]].facts
        for n in r.by("push"):
            if len(n.args) > 1 and n.args[1] is ob:
                base |= n.facts
        extra = [x for x in m.facts if x not in base and has_place(x)]
        rep.judge("registered", not extra, "%s" % pp(IV.path_of[ob]), at(m), "the object is entered in the pool only if %s" %
                  ", ".join(show(x, 4) for x in extra[:2]), "%s registered with its creation" % pp(IV.path_of[ob]))
    rep.rule("written-key", "the key under which an exported object is later referred to is the identifier written with it")
    E = X.E.r
    for m in E.by("mapput"):
        k = plain(m.args[1])
        if k.op == "lphi" and m.loops and k in E.I.lphi and E.I.lphi[k][1] is not None:
            steps = [x for _, x in alts(E.I.lphi[k][1])]
            stuck = [x for x in steps if x is k]
            step = [x for x in steps if x.op == "bin" and x.args[0] == "+" and k in x.args and
                    any(y.op == "int" and y.args[0] for y in x.args[1:3])]
            rep.judge("written-key", False if stuck else True if len(step) == len(steps) else None,
                      "distinct:" + stable(show(m.args[0], 2)), at(m), "two objects get the same key", "distinct keys")
        if k.op in ("int", "str") and m.loops:
            rep.bad("written-key", "distinct:" + stable(show(m.args[0], 2)), at(m), "two objects get the same key")
        cand = [n for n in X.E.sets if m.loops and n.loops and n.loops[-1] == m.loops[-1]]
        if any(plain(n.args[1]) is k for n in cand):
            rep.ok("written-key", at(m), "key of %s" % show(m.args[2], 3) if len(m.args) > 2 else "key")
            continue
        near = [n for n in cand if offset(plain(n.args[1]), k)]
        rep.judge("written-key", False if near else None, pp(("export",)) + ":" + stable(show(m.args[0], 2)), at(m),
                  "the key differs from the identifier written at %s" % ", ".join(
                      pl(X.E.place(n.args[0]) or ("?",)) for n in near[:2]) if near else "key not matched with a written value")
    have = {m.args[2] for m in puts if len(m.args) > 2}
    want = collections.defaultdict(set)
    for A in refs:
        for (B, o), asg in X.groups.items():
            if B == A:
                for a in asg:
                    for al in a.alts:
                        if al.kind == "lookup":
                            for _, ob in al.leaf[1]:
                                if ob in owned:
                                    want[IV.path_of[ob]].add(ob)
    for obs in want.values():
        have |= obs
    for ob in owned:
        if IV.path_of[ob] in want and ob not in have and ob.op == "new":
            rep.bad("registered", pp(IV.path_of[ob]) + ":missing", IV.r.name, "an object of the database is never entered in "
                    "the pool")
