"""Use of the inner keystream on both sides of the XML document."""
import collections

from .canon import *
from .core import at
from .decide import evalnum
from .rules_xml import Scenario, XmlCheck, cases, flat_alts, pl, places_in, pp, relevant, strval, contradictory
from .terms import *


def bare(p):
    return None if p is None else tuple(x.split("{")[0] for x in p)


class Item:
    """One event that consumes keystream: a call of the obfuscator, or a recursive call that may."""
    __slots__ = ("n", "place", "chain", "rec")

    def __init__(self, n, place, chain, rec):
        self.n, self.place, self.chain, self.rec = n, place, chain, rec


class Order:
    def __init__(self, r):
        self.r = r
        self._reach = {}

    def reach(self, a, avoid):
        k = (a, avoid)
        if k not in self._reach:
            self._reach[k] = self.r.reach(a, avoid=avoid)
        return self._reach[k]

    def common(self, a, b):
        out = []
        for x, y in zip(a.loops, b.loops):
            if x != y:
                break
            out.append(x)
        return tuple(out)

    def head(self, loops):
        """Node ids of the loop events that start the iteration of the innermost of these loops."""
        if not loops:
            return ()
        return tuple(n.id for n in self.r.by("loop") if n.id in (loops[-1],) or n.id == loops[-1] + 1) + (loops[-1],)

    def before(self, a, b):
        """a happens before b in one iteration of their innermost common loop; None when unordered or unclear."""
        av = self.head(self.common(a, b))
        f, g = b.id in self.reach(a.id, av), a.id in self.reach(b.id, av)
        return None if f == g else f


def chain_of(t):
    """xn terms from the top down to t."""
    out = []
    while t.op == "xn":
        out.append(t)
        t = t.args[1]
    return out[::-1]


def export_items(X, rep):
    E, r = X.E, X.E.r
    items = []
    for n in r.by("obf"):
        me = T("ev", n.id)
        ws = [s for s in E.sets if any(x.op == "obf" and x.args[0] is me for x in subterms(s.args[1]))]
        if not ws:
            rep.bad("once", "unwritten:%s" % n.stack[-1][0].split("::")[-1], at(n),
                    "keystream is consumed for a value that is not written")
            continue
        places = {E.place(s.args[0]) for s in ws}
        dup = [s for s in ws if any(o is not s and (s.id in r.reach(o.id)) for o in ws)]
        rep.judge("once", not dup, pl(sorted(places, key=str)[0]) if None not in places else "?", at(n),
                  "one piece of keystream is used for two places", "written at %s" % ", ".join(map(pl, places)) if None not in places
                  else "one place")
        for s in ws:
            v = s.args[1]
            deep = [x for x in subterms(v) if x.op == "obf" and any(y.op == "obf" for y in subterms(x.args[2]))]
            if deep:
                rep.bad("once", "twice:%s" % pl(E.place(s.args[0]) or ("?",)), at(s), "the value is combined with the keystream "
                        "twice")
            for _, tgt in alts(s.args[0]):
                items.append(Item(n, E.place(s.args[0]), chain_of(tgt), False))
    for n in r.by("rec"):
        if not any(isinstance(v, Term) and is_obf(v) for v in list(n.args) + list(n.extra.get("vals", ()))):
            continue
        got = False
        for v in n.extra.get("vals", ()):
            if isinstance(v, Term) and E.place(v) is not None:
                for _, t in alts(v):
                    items.append(Item(n, E.place(v), chain_of(t), True))
                got = True
                break
        if not got:
            rep.und("order", at(n), "%s: element not understood" % n.name)
    return items


def is_obf(v):
    return v.op == "obfuscator" or (v.op == "lv" and "obfuscator" in repr(v).lower())


def node_chain(IV, t):
    """Import: the element terms from the root down to t."""
    out = []
    while t is not None:
        out.append(t)
        if t.op in ("xc", "xa"):
            t = t.args[0]
        elif t.op == "lphi":
            e = IV.I.lphi.get(t)
            if e is None or e[0] is None:
                return None
            ps = {x.args[0] for _, x in alts(e[0]) if x.op == "xc"}
            if len(ps) != 1:
                return None
            t = ps.pop()
        elif t.op == "xroot":
            break
        else:
            return None
    return out[::-1]


def import_items(X, rep):
    IV, r = X.IV, X.IV.r
    items = []
    for n in r.by("obf"):
        els = {x.args[0] for x in subterms(n.args[1]) if x.op == "xval"} | \
            {x.args[1] for x in subterms(n.args[1]) if x.op == "xas"}
        if not els:
            rep.und("order", at(n), "the place of the value is not understood")
        for el in els:
            for _, e in alts(el):
                p = IV.place(e, n.facts)
                ch = node_chain(IV, e)
                if p is None or ch is None:
                    rep.und("order", at(n), "the place of the value is not understood (%s)" % show(e, 3))
                else:
                    items.append(Item(n, p, ch, False))
    for n in r.by("rec"):
        if not any(isinstance(v, Term) and is_obf(v) for v in list(n.args) + list(n.extra.get("vals", ()))):
            continue
        got = False
        for v in n.extra.get("vals", ()):
            if isinstance(v, Term) and IV.place(v, n.facts) is not None:
                for _, e in alts(v):
                    ch = node_chain(IV, e)
                    if ch is not None:
                        items.append(Item(n, IV.place(e, n.facts), ch, True))
                        got = True
                break
        if not got:
            rep.und("order", at(n), "%s: element not understood" % n.name)
    return items


def diverge(a, b):
    """Index of the first different component, None when one chain is a prefix of the other."""
    for i, (x, y) in enumerate(zip(a, b)):
        if x is not y:
            return i
    return None


def same_object(rep, r, side):
    objs = collections.defaultdict(list)
    for n in r.by("obf"):
        objs[n.extra.get("obj")].append(n)
    inits = {n.id for n in r.by("obfinit")}
    for o, l in objs.items():
        vals = {n.args[0] for n in l}
        rep.judge("one-stream", True if len(objs) == 1 and o is not None else None if o is None else False,
                  "%s:%s" % (side, show(o, 2) if isinstance(o, Term) else "?"), at(l[0]),
                  "%s uses more than one copy of the keystream: %s" % (side, ", ".join(sorted(show(k, 3) for k in objs if k is not None))),
                  "%d uses of one obfuscator" % len(l))
        evs = {v.args[1].args[0] for v in vals if v.op == "obfuscator" and v.args[1].op == "ev"}
        if len(evs) > 1 and len(inits) > 1:
            rep.bad("one-stream", side + ":restart", at(l[0]), "%s restarts the keystream within a document" % side)
    for n in r.by("obfinit"):
        if n.loops:
            rep.bad("one-stream", side + ":loop", at(n), "%s starts a new keystream within a loop" % side)
    for n in r.by("rec"):
        for v in n.args:
            if isinstance(v, Term) and v.op == "obfuscator":
                rep.bad("one-stream", "%s:copy:%s" % (side, n.name.split("::")[-1]), at(n), "%s works on a copy of the keystream in "
                        "%s" % (side, n.name))
            elif isinstance(v, Term) and is_obf(v) and objs and v.op == "lv":
                rep.judge("one-stream", v in objs if None not in objs else None, "%s:rec:%s" % (side, n.name.split("::")[-1]), at(n),
                          "%s continues with another keystream in %s" % (side, n.name), "%s continues with the same obfuscator" %
                          n.name.split("::")[-1])


def keystream(c, rep):
    """RandomObfuscator::Process: the sequence of keystream positions used for consecutive bytes."""
    q = "keepass::RandomObfuscator::Process"
    for f in c.find(q):
        r = c.run(f, extra_prims=("keepass::Salsa20Cipher::Process",), noprims=(q,))
        key = "Process(%s)" % (str(f["ps"][0].s if hasattr(f["ps"][0], "s") else f["ps"][0].get("t", "")) if f["ps"] else "")
        key = "Process/%s" % f["line"] if not key else key
        rep.und("keystream", at(r.start()), "see below") if False else None
        one_process(rep, r, key)


def one_process(rep, r, key):
    I = r.I
    data = [x for v in [r.v] if v is not None for x in subterms(v) if x.op == "par"]
    xors = set()
    pool = [b for a, b in I.lphi.values() if b is not None] + ([r.v] if r.v is not None else [])
    for t in pool:
        for x in subterms(t):
            if x.op == "bin" and x.args[0] == "^" and any(y.op == "par" for y in subterms(x)):
                xors.add(x)
    where = at(r.start())
    if not xors:
        rep.und("keystream", where, key + ": no combination recognised")
        return
    for x in xors:
        sides = [strip_casts(x.args[1]), strip_casts(x.args[2])]
        d = [s for s in sides if s.op in ("at", "elem") and s.args[0].op == "par"]
        k = [s for s in sides if s not in d]
        if len(d) != 1 or len(k) != 1:
            rep.und("keystream", where, key + ": %s" % show(x, 3))
            continue
        k = k[0]
        # member counters of the loop
        cnt = [l for l, (a, b) in I.lphi.items() if a is not None and b is not None and a.op == "fld" and
               any(l in subterms(y) for y in index_terms(k)) and root_self(a)]
        if len(cnt) != 1 or d[0].op != "at":
            rep.und("keystream", where, key + ": position not recognised")
            continue
        l = cnt[0]
        back = I.lphi[l][1]
        size = buffer_size(I, l, k)
        I.S = r.S
        fin = I.read(LV(T("self", r.f["rec"]), (I.lphi[l][0].args[1],)))
        off = [q for q in range(size + 1) if evalnum(fin, {l: q}) not in (q, None)]
        if off:
            rep.bad("keystream", key + ":end", where, "the position %d is %d after the call" % (off[0], evalnum(fin, {l: off[0]})))
        seq = []
        pos = size
        for _ in range(3 * size + 5):
            env = {l: pos}
            u = used(k, env, I)
            nx = evalnum(back, env)
            if u is None or nx is None:
                seq = None
                break
            seq.append(u)
            pos = nx
        if seq is None:
            rep.und("keystream", where, key + ": position not computable")
            continue
        want = [(i % size, i % size == 0) for i in range(3 * size + 5)]
        wrong = [i for i, (a, b) in enumerate(zip(seq, want)) if a != b]
        rep.judge("keystream", not wrong, key, where, "byte %d of a document is combined with byte %d of %s block of keystream "
                  "instead of byte %d of %s block" % ((wrong[0], seq[wrong[0]][0], "a new" if seq[wrong[0]][1] else "the current",
                                                      want[wrong[0]][0], "a new" if want[wrong[0]][1] else "the current")
                                                     if wrong else (0, 0, "", 0, "")),
                  "%d consecutive positions" % len(seq))


def index_terms(k):
    out = []
    for _, v in flat_alts(k):
        if v.op == "at":
            out.append(v.args[1])
    return out


def root_self(t):
    while t.op == "fld":
        t = t.args[0]
    return t.op in ("self", "deref")


def buffer_size(I, l, k):
    best = 64
    for g, v in flat_alts(k):
        for f in g:
            if f.op == "eq" and l in f.args:
                for x in f.args:
                    if x.op == "int":
                        best = x.args[0]
    return best


def used(k, env, I):
    """(index into the block, is the block a new one)."""
    for g, v in flat_alts(k):
        gs = [evalnum(x, env) for x in g]
        if 0 in gs:
            continue
        if None in gs or v.op != "at":
            return None
        i = evalnum(v.args[1], env)
        if i is None:
            return None
        return i, not (v.args[0].op == "lphi" or root_self(v.args[0]))
    return None


def protected_stream(c, rep):
    """P20"""
    rep.rule("marked", "a value is combined with the keystream on export exactly under the conditions under which the import of "
             "the element written undoes it")
    rep.rule("once", "every use of the keystream on export belongs to one written value")
    rep.rule("order", "keystream is consumed in document order by the export, and in the order of the export's document by the "
             "import")
    rep.rule("one-stream", "each side uses one obfuscator object for the whole document")
    rep.rule("keystream", "consecutive bytes use consecutive keystream positions; a block is replaced when it is used up")
    X = XmlCheck(c, rep)
    E, IV = X.E, X.IV
    # marks
    marked = set()
    for p, ws in E.writes.items():
        for n, als in ws:
            for e in als:
                if ("obf",) in e.ops:
                    marked.add(p)
    for path, asg in IV.assigns.items():
        for a in asg:
            for al in a.alts:
                if al.kind == "place" and ("obf",) in al.ops:
                    marked.add(al.leaf)
    for p in sorted(marked):
        if not any(("obf",) in e.ops for n, als in E.writes.get(p, ()) for e in als):
            # the import deobfuscates something that is never written obfuscated at this (discriminated) place
            if not any(bare(q) == bare(p) for q in marked if q != p):
                rep.bad("marked", pl(p), IV.r.name, "%s is taken as protected but never written so" % pl(p))
            continue
        for n, als in E.writes.get(p, ()):
            for e in als:
                if e.kind != "attr" or X.is_ref(e.leaf):
                    continue
                lst = X.asg_of(e.leaf)
                key = "%s@%s%s" % (pp(e.leaf), pl(p), ":obf" if ("obf",) in e.ops else "")
                if not lst:
                    rep.bad("marked", key, at(n), "%s is written at %s but not read" % (pp(e.leaf), pl(p)))
                for obj, asg in lst:
                    X.one_read("marked", key, n, p, e, e.leaf, e.term, obj, asg)
    # order
    consumed(X, rep)
    ex = export_items(X, rep)
    im = import_items(X, rep)
    OE, OI = Order(E.r), Order(IV.r)
    docorder = {}
    ev = {}
    for n in E.r.by("xappend"):
        ev[n.id] = n
    npairs = 0
    for i, A in enumerate(ex):
        for B in ex[i + 1:]:
            if A.n is B.n:
                continue
            d = diverge(A.chain, B.chain)
            use = OE.before(A.n, B.n)
            if use is None:
                continue
            if d is None:
                if not A.rec and not B.rec and A.place == B.place:
                    rep.bad("order", "same:%s" % pl(A.place), at(B.n), "two keystream uses end up in one element")
                continue
            a, b = A.chain[d].args[0], B.chain[d].args[0]
            if a.op != "ev" or b.op != "ev" or a.args[0] not in ev or b.args[0] not in ev:
                continue
            doc = OE.before(ev[a.args[0]], ev[b.args[0]])
            if doc is None:
                continue
            npairs += 1
            key = "%s<%s" % (pl(A.place or ("?",)), pl(B.place or ("?",)))
            rep.judge("order", doc == use, "export:" + key, at(B.n), "%s %s %s in the document but the export consumes the keystream "
                      "in the other order" % (pl(A.place), "precedes" if doc else "follows", pl(B.place)),
                      "%s %s %s" % (pl(A.place), "before" if doc else "after", pl(B.place)))
            if d < len(A.place) and bare(A.place)[:d + 1] != bare(B.place)[:d + 1]:
                docorder[(bare(A.place), bare(B.place))] = doc
                docorder[(bare(B.place), bare(A.place))] = not doc
    for A in ex:
        # elements of one loop are appended in the order in which they are filled
        for k in A.n.loops:
            if not any(t.args[0].op == "ev" and t.args[0].args[0] in ev and k in ev[t.args[0].args[0]].loops for t in A.chain):
                rep.bad("order", "loop:%s" % pl(A.place), at(A.n), "a loop consumes keystream repeatedly for one element")
    for i, A in enumerate(im):
        for B in im[i + 1:]:
            if A.n is B.n:
                continue
            use = OI.before(A.n, B.n)
            if use is None:
                continue
            d = diverge(A.chain, B.chain)
            pa, pb = bare(A.place), bare(B.place)
            if d is None:
                if not A.rec and not B.rec and pa == pb and not exclusive(A.n, B.n):
                    rep.bad("once", "import:%s" % pl(A.place), at(B.n), "keystream is consumed twice for %s" % pl(A.place))
                continue
            # depth of the diverging component in the places (chains start with the root)
            if pa[:d] == pb[:d] and exclusive(A.n, B.n):
                continue
            if pa[:d] == pb[:d] and d <= min(len(pa), len(pb)):
                rep.bad("order", "passes:%s<%s" % (pl(A.place), pl(B.place)), at(B.n), "the import reads all of %s before any %s, "
                        "while they alternate in the document" % ((pl(A.place), pl(B.place)) if use else
                                                                 (pl(B.place), pl(A.place))))
                continue
            doc = docorder.get((pa, pb))
            if doc is None:
                continue
            npairs += 1
            rep.judge("order", doc == use, "import:%s<%s" % (pl(A.place), pl(B.place)), at(B.n), "%s %s %s in exported documents but "
                      "the import consumes the keystream in the other order" % (pl(A.place), "precedes" if doc else "follows",
                                                                               pl(B.place)),
                      "%s %s %s" % (pl(A.place), "before" if doc else "after", pl(B.place)))
    have = {bare(i.place) for i in im}
    for A in ex:
        if A.place is None:
            rep.und("order", at(A.n), "element not understood")
        elif bare(A.place) not in have:
            rep.bad("marked", "missing:%s" % pl(A.place), at(A.n), "%s consumes keystream on export but not on import" % pl(A.place))
    same_object(rep, E.r, "the export")
    same_object(rep, IV.r, "the import")
    keystream(c, rep)


def consumed(X, rep):
    """Whatever is written with keystream makes the import use keystream for it."""
    E, IV = X.E, X.IV
    uses = collections.defaultdict(list)
    for n in IV.r.by("obf"):
        for el in {x.args[0] for x in subterms(n.args[1]) if x.op == "xval"}:
            for _, e in alts(el):
                p = IV.place(e, n.facts)
                if p is not None:
                    a = Use()
                    a.facts, a.loops, a.n, a.place = n.facts, n.loops, n, p
                    uses[bare(p)].append(a)
    for p, ws in sorted(E.writes.items()):
        for n, als in ws:
            for e in als:
                if ("obf",) not in e.ops or not uses.get(bare(p)):
                    continue
                for F in cases(n.facts | e.g):
                    if contradictory(F) or X.absent_owner(e.term, F):
                        continue
                    sc = Scenario(E, IV, F)
                    res, why = None, set()
                    best = False
                    for a in uses[bare(p)]:
                        st, q = True, set()
                        for g in a.facts:
                            if not relevant(g, IV, a.loops):
                                continue
                            v = sc.ev(g, a.facts)
                            if v is False:
                                st = False
                                break
                            if v is None:
                                ps = places_in(g, IV, a.facts, deep=False)
                                if emptiness(g) and {bare(x) for x in ps} <= {bare(p)}:
                                    continue        # an empty value uses no keystream
                                ps = {x for x in ps if bare(x)[:len(p)] != bare(p) and bare(p)[:len(x)] != bare(x)}
                                if ps:
                                    st = None
                                    q |= {(pl(x), g) for x in ps}
                        if st is True:
                            best = True
                        elif st is None:
                            best = best or None
                            why |= q
                    key = "consume:%s@%s" % (pp(e.leaf) if e.leaf and e.kind == "attr" else "?", pl(p))
                    if best is None and covers_all(uses[bare(p)], sc, IV):
                        best = True
                    rep.judge("marked", best if best is not None else False, key, at(n),
                              "the import does not use the keystream for %s written protected%s" % (
                                  pl(p), " unless %s" % ", ".join(sorted({show(g, 5) for _, g in why})) if why else ""),
                              "%s uses keystream on import" % pl(p))


class Use:
    pass


def emptiness(g):
    x = g.args[0] if g.op == "not" else g
    return x.op == "eq" and any(k.op == "int" and k.args[0] == 0 for k in x.args) and any(k.op == "size" for k in x.args)


def covers_all(us, sc, IV):
    """The conditions of several uses cover every case: resolve complementary conditions."""
    cs = set()
    for a in us:
        c = set()
        for g in a.facts:
            if relevant(g, IV, a.loops) and sc.ev(g, a.facts) is None and places_in(g, IV, a.facts, deep=False):
                c.add(g)
        cs.add(frozenset(c))
    changed = True
    while changed and frozenset() not in cs and len(cs) < 200:
        changed = False
        for x in list(cs):
            for y in list(cs):
                for f in x:
                    if mk_not(f) in y:
                        z = (x - {f}) | (y - {mk_not(f)})
                        if z not in cs and not any(mk_not(q) in z for q in z):
                            cs.add(z)
                            changed = True
    return frozenset() in cs


def exclusive(a, b):
    """Conditions about values that do not change between the two events exclude each other."""
    common = {x for x, y in zip(a.loops, b.loops) if x == y}
    return any(mk_not(f) in b.facts for f in a.facts if not ({x.args[0] for x in subterms(f) if x.op in ("lphi", "i")} - common))
