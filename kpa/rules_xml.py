"""KDBX documents: correspondence of attributes and places between export and import."""
import collections
from .canon import *
from .core import at
from . import decide
from .decide import can_differ
from .restored import Replay, samples
from .rules_flow import contradictory, flat_alts, short
from .terms import *

EXPORT, IMPORT = "keepass::KdbxFile::Export", "keepass::KdbxFile::Import"


# ---------------------------------------------------------------------------
# model paths
def model_path(t):
    """Canonical access path of a term rooted in a parameter: ('db', 'root_', 'entries_', '[]', ...) or None."""
    out = []
    while True:
        if t.op == "fld":
            out.append(t.args[1])
            t = t.args[0]
        elif t.op in ("deref", "lock"):
            t = t.args[0]
        elif t.op == "at":
            i = t.args[1]
            out.append("[]" if i.op == "i" else "[%s]" % show(i, 3))
            t = t.args[0]
        elif t.op == "phi":
            al = [v for _, v in t.args[0] if root_of(v).op != "noelem"]
            ps = {model_path(v) for v in al}
            if len(ps) != 1 or None in ps:
                return None
            return ps.pop() + tuple(reversed(out))
        elif t.op == "par":
            return (t.args[0],) + tuple(reversed(out))
        elif t.op == "lv":
            p = tuple(x for x in t.args[1] if isinstance(x, str)) if len(t.args) > 1 else ()
            if len(p) != len(t.args[1]):
                return None
            out += list(reversed(p))
            r = t.args[0]
            if r.op == "obj":
                t = r.args[0]
                continue
            return None
        else:
            return None


def root_of(t):
    while t.op in ("fld", "deref", "lock", "at"):
        t = t.args[0]
    return t


def loops_of(t):
    """Loop keys indexing a model path."""
    out = []
    for x in subterms(t):
        if x.op == "i":
            out.append(x.args[0])
    return set(out)


def pp(p):
    return ".".join(p).replace(".[]", "[]") if p else "?"


def pl(p):
    return "/" + "/".join(p) if p is not None else "?"


class Types:
    def __init__(self, P):
        self.P = P

    def field(self, path):
        """Declared type of a canonical path starting at the database parameter."""
        t = None
        cls = "keepass::Database"
        for c in path[1:]:
            if c.startswith("["):
                t = t.args[0] if t is not None and t.args else None
            else:
                rec = self.P.record(cls) if cls else None
                if rec is None:
                    return None
                t = None
                todo = [rec]
                while todo:
                    r = todo.pop()
                    for f in r["fields"]:
                        if f["n"] == c:
                            t = f["t"]
                    todo += [self.P.record(b.r) for b in r["bases"] if b.r and self.P.record(b.r)]
            if t is None:
                return None
            cls = self.cls(t)
        return t

    def cls(self, t):
        t = t.strip() if t.isref else t
        for _ in range(3):
            if t is None:
                return None
            n = t.r or t.s
            if n.startswith(("std::shared_ptr", "std::weak_ptr", "std::unique_ptr")):
                t = t.args[0] if t.args else None
                continue
            return n
        return None


# ---------------------------------------------------------------------------
class Alt:
    """One alternative of a value: guards, codec operations (outermost first on export, innermost first on import) and leaf."""
    __slots__ = ("g", "ops", "kind", "leaf", "term")

    def __init__(self, g, ops, kind, leaf, term):
        self.g, self.ops, self.kind, self.leaf, self.term = g, ops, kind, leaf, term

    def __repr__(self):
        return "%s%s:%s" % ("".join("%s(" % o[0] for o in self.ops), self.kind,
                            pp(self.leaf) if self.kind == "attr" else pl(self.leaf) if self.kind == "place" else
                            show(self.term, 3))


def width(ty):
    """(bits, signed) of an integral type given as Type or compact name such as u32."""
    if ty is None:
        return None
    if isinstance(ty, str):
        if ty and ty[0] in "us" and ty[1:].isdigit():
            return int(ty[1:]), ty[0] == "s"
        return None
    t = ty.strip() if ty.isref else ty
    if t.k in ("int", "bool", "enum", "char") or t.w:
        if t.s == "bool":
            return 1, False
        if t.w:
            return t.w, bool(t.sg)
    return None


def holds(big, small):
    """True when every value of integral type small is representable in big."""
    if big is None or small is None:
        return None
    (b, bs), (s, ss) = big, small
    if bs == ss:
        return b >= s
    if bs:
        return b > s
    return False


class ExportView:
    def __init__(self, c, r):
        r = normalised(r)
        self.c, self.r, self.I = c, r, r.I
        self.P = c.P
        self.writes = collections.defaultdict(list)
        self.elems = collections.defaultdict(list)
        self.attrs = {}          # xna term -> place
        self.keys = {}           # xn term -> {child: const}
        self._place = {}
        self.sets = [n for n in r.by("xset")]
        byplace = collections.defaultdict(set)
        for n in r.by("xappend"):
            t = T("xn", T("ev", n.id), n.args[0], n.args[1])
            byplace[self.raw(t)].add(t)
        self.elem_terms = byplace
        for n in self.sets:
            t = n.args[0]
            if t.op == "xn" and t.args[1].op == "xn":
                par = t.args[1]
                v = n.args[1]
                self.keys.setdefault(par, {})[strval(t.args[2])] = v if v.op == "str" else None
        # elements of the same name distinguished by a constant child
        self.disc = {}
        for p, ts in byplace.items():
            if p is None or len(ts) < 2:
                continue
            per = [self.keys.get(t, {}) for t in ts]
            names = set().union(*[set(k) for k in per]) if per else set()
            for nm in names:
                vals = [k.get(nm, "absent") for k in per]
                if any(isinstance(v, Term) for v in vals) and "absent" not in vals:
                    self.disc[p] = nm
        for n in r.by("xappend"):
            t = T("xn", T("ev", n.id), n.args[0], n.args[1])
            self.elems[self.place(t)].append(n)
        for n in r.by("xattr"):
            self.elems[self.place(n.args[0]) + ("@" + strval(n.args[1]),) if self.place(n.args[0]) else None].append(n)
        for n in self.sets:
            p = self.place(n.args[0])
            if p is None:
                continue
            self.writes[p].append((n, self.value(n.args[1])))

    def raw(self, t):
        if t.op == "xdoc":
            return ()
        if t.op == "xn":
            p = self.raw(t.args[1])
            s = strval(t.args[2])
            return None if p is None or s is None else p + (s,)
        if t.op in ("phi", "many"):
            ps = {self.raw(v) for _, v in alts(t)}
            return ps.pop() if len(ps) == 1 else None
        return None

    def place(self, t):
        if t in self._place:
            return self._place[t]
        r = None
        if t.op == "xdoc":
            r = ()
        elif t.op == "xn":
            p = self.place(t.args[1])
            s = strval(t.args[2])
            if p is not None and s is not None:
                d = self.disc.get(self.raw(t))
                if d is not None:
                    k = self.keys.get(t, {}).get(d)
                    s = "%s{%s=%s}" % (s, d, strval(k) if k is not None else "*")
                r = p + (s,)
        elif t.op == "xna":
            p = self.place(t.args[1])
            s = strval(t.args[2])
            r = None if p is None or s is None else p + ("@" + s,)
        elif t.op in ("phi", "many"):
            ps = {self.place(v) for _, v in alts(t)}
            r = ps.pop() if len(ps) == 1 else None
        self._place[t] = r
        return r

    def value(self, v, ops=(), g=frozenset(), depth=0):
        out = []
        for g2, x in flat_alts(v, g):
            if x.op == "noelem" or root_of(x).op == "noelem":
                continue
            if depth > 12:
                out.append(Alt(g2, ops, "unknown", None, x))
                continue
            mp = model_path(x)
            if mp is not None:
                out.append(Alt(g2, ops, "attr", mp, x))
            elif x.op in ("int", "str", "empty", "null", "zeros"):
                out.append(Alt(g2, ops, "const", x, x))
            elif x.op == "ctext":
                out += self.value(x.args[0], ops + ((("substr", "up to a zero byte"),) if any(o[0] in ("b64", "obf") for o in ops)
                                                    else ()), g2, depth + 1)
            elif x.op == "b64e":
                out += self.value(x.args[0], ops + (("b64",),), g2, depth + 1)
            elif x.op == "obf":
                out += self.value(x.args[2], ops + (("obf",),), g2, depth + 1)
            elif x.op == "strf":
                y = x.args[0]
                if y.op in ("gm", "local"):
                    out += self.value(y.args[0], ops + (("time", strval(x.args[1]), y.op),), g2, depth + 1)
                else:
                    out.append(Alt(g2, ops, "unknown", None, x))
            elif x.op == "tostr":
                out += self.value(x.args[0], ops + (("num",),), g2, depth + 1)
            elif x.op == "cast":
                w, f = width(x.args[0]), width(x.args[2])
                h = holds(w, f)
                o = ops if h else ops + (("cast", str(x.args[0]), str(x.args[2])),)
                if h is False and w and f and w[0] == f[0]:
                    o = ops        # same width: the bytes are kept
                out += self.value(x.args[1], o, g2, depth + 1)
            elif x.op == "truthy":
                out += self.value(x.args[0], ops, g2, depth + 1)
            elif x.op in ("rest", "sstr"):
                src = self.written(x.args[0])
                if src is None:
                    out.append(Alt(g2, ops, "unknown", None, x))
                else:
                    z, val = src
                    out += self.value(val, ops + z, g2, depth + 1)
            elif x.op == "fld" and x.args[0].op == "at" and x.args[1] == "first":
                p = self.pool_key(x.args[0])
                if p is not None:
                    out.append(Alt(g2, ops, "ref", p, x))
                else:
                    out.append(Alt(g2, ops, "unknown", None, x))
            elif x.op == "bin":
                sub_ = [a for k in x.args[1:] if isinstance(k, Term) for a in self.value(k, (), g2, depth + 1)]
                at_ = [a for a in sub_ if a.kind == "attr"]
                if len(at_) == 1 and can_differ(x, at_[0].term) is False:
                    out.append(Alt(g2, ops, "attr", at_[0].leaf, at_[0].term))
                elif len(at_) == 1 and all(a.kind in ("attr", "const") for a in sub_):
                    out.append(Alt(g2, ops + (("arith", show(x, 3)),), "attr", at_[0].leaf, x))
                else:
                    out.append(Alt(g2, ops, "unknown", None, x))
            elif x.op in ("bytes", "substr", "slice", "filter", "resized") and isinstance(x.args[0], Term):
                a = self.value(x.args[0], (), g2, depth + 1)
                if len(a) == 1 and a[0].kind == "attr" and x.op != "bytes":
                    out.append(Alt(g2, ops + ((x.op,) + a[0].ops,), "attr", a[0].leaf, x))
                elif x.op == "bytes" and len(a) == 1:
                    out.append(Alt(g2, ops + a[0].ops, a[0].kind, a[0].leaf, a[0].term))
                else:
                    out.append(Alt(g2, ops, "unknown", None, x))
            elif x.op == "lphi":
                out.append(Alt(g2, ops, "counter", x, x))
            else:
                out.append(Alt(g2, ops, "unknown", None, x))
        return out

    def written(self, sid):
        """(codec ops, value) written into an in-memory stream, directly or through a filter."""
        vals = []
        for n in self.r.by("swrite") + self.r.by("sput"):
            s = n.args[0]
            if s is sid:
                vals.append(((), n.args[1]))
            elif s.op == "sid" and s.args[2].op == "via" and sid in subterms(s.args[2]):
                b = s.args[2].args[0]
                nm = b.args[0].split("::")[-1] if b.op == "sbuf" else "?"
                vals.append(((("gz",) if nm.startswith("gzip") else (nm,),), n.args[1]))
        if len(vals) == 1:
            return vals[0]
        return None

    def pool_key(self, e):
        """Place where the key of a pool element is written, when the element was matched by identity."""
        m = e.args[0]
        ks = set()
        for g, x in flatten(self.I, m):
            y = x
            while y.op == "mapput":
                ks.add(y.args[1])
                y = y.args[0]
                break
        for n in self.r.by("mapput"):
            ks.add(n.args[1])
        out = set()
        for k in ks:
            k = k.args[0] if k.op == "tostr" else k
            for n in self.sets:
                v = n.args[1]
                v = v.args[0] if v.op == "tostr" else v
                if v is k:
                    out.add(self.place(n.args[0]))
        return out.pop() if len(out) == 1 else None


def strval(t):
    if t is None:
        return None
    if isinstance(t, str):
        return t
    if t.op == "str":
        s = t.args[0]
        return s if isinstance(s, str) else s.decode("latin1") if isinstance(s, bytes) else str(s)
    if t.op == "empty":
        return ""
    return None


def searched(el):
    """What a search established about the element it found."""
    out = set()
    for y in subterms(el):
        if y.op == "findif" and isinstance(y.args[1], Term):
            out.add(rebuild(y.args[1], lambda t: y if t is T("i", y.args[2]) else None))
    return out


def scalar_field(P, name):
    ks = {fd["t"].k for rec in P.records.values() for fd in rec["fields"] if fd["n"] == name}
    return bool(ks) and ks <= {"int", "bool", "enum"}


# ---------------------------------------------------------------------------
class Assign:
    __slots__ = ("path", "alts", "facts", "loc", "value", "k", "loops", "obj")


class ImportView:
    def __init__(self, c, r, disc):
        self.c, self.r, self.I, self.disc = c, r, r.I, disc
        self.P = c.P
        self._place = {}
        self.stores = [s for s in r.I.stores.values()]
        self.holder = {}
        self.objs = {}
        self.read_places = set()
        self.assigns = collections.defaultdict(list)
        self.initial = {}
        self.count = 0
        self._collect()

    # places -----------------------------------------------------------
    def place(self, t, facts=frozenset()):
        """Place of a node term; iterated elements get the discriminator implied by facts."""
        if t.op == "xroot":
            return ()
        if t.op == "xc":
            p = self.place(t.args[0], facts)
            s = strval(t.args[1])
            return None if p is None or s is None else self.with_disc(t, p, s, facts)
        if t.op == "xa":
            p = self.place(t.args[0], facts)
            s = strval(t.args[1])
            return None if p is None or s is None else p + ("@" + s,)
        if t.op == "lphi":
            e = self.I.lphi.get(t)
            if e is None or e[0] is None:
                return None
            p = None
            for g, x in flat_alts(e[0]):
                if x.op != "xc":
                    return None
                q = self.place(x.args[0], facts)
                s = strval(x.args[1])
                if q is None or s is None or (p is not None and p != (q, s)):
                    return None
                p = (q, s)
            if e[1] is not None:
                for g, x in flat_alts(e[1]):
                    if x.op != "xsib" or x.args[0] is not t or strval(x.args[1]) != p[1]:
                        return None
            if p[1] == "*":
                # any child element; its name is tested in the loop
                ns = {strval(k) for f in facts if f.op == "eq" for a, k in (f.args, f.args[::-1])
                      if k.op == "str" and a.op == "xname" and a.args[0] is t}
                if len(ns) != 1:
                    return None
                p = (p[0], ns.pop())
            return self.with_disc(t, p[0], p[1], facts)
        if t.op == "phi":
            ps = {self.place(v, facts) for g, v in flat_alts(t)}
            return ps.pop() if len(ps) == 1 else None
        return None

    def with_disc(self, t, parent, name, facts):
        raw = tuple(x.split("{")[0] for x in parent) + (name,)
        d = self.disc.get(raw)
        if d is None or t.op != "lphi":
            return parent + (name,)
        key = T("xval", T("xc", t, STR(d)))
        k2 = None
        neg = False
        for f in facts:
            n = f.op == "not"
            e = f.args[0] if n else f
            if e.op == "eq":
                for a, b in (e.args, e.args[::-1]):
                    if b.op == "str" and a.op == "xval" and a.args[0].op == "xc" and a.args[0].args[0] is t and \
                            strval(a.args[0].args[1]) == d:
                        if n:
                            neg = True
                        else:
                            k2 = strval(b)
        return parent + ("%s{%s=%s}" % (name, d, k2 if k2 is not None else "*"),)

    # objects ----------------------------------------------------------
    def _collect(self):
        r = self.r
        cands = collections.defaultdict(list)
        for s in self.stores:
            lv = s["lv"]
            root, path = lv.args
            if root.op != "obj" or root.args[0].op != "new":
                continue
            for g, x, extra in self.elements(s["v"]):
                if x.op == "new":
                    cands[x].append((len(extra) == 0, root.args[0], tuple(path) + extra, s))
        self.cands = cands
        dbs = {x for _, x in flat_alts(r.v) if x.op == "new"}
        self.path_of = {}
        for d in dbs:
            self.path_of[d] = ("db",)
        changed = True
        while changed:
            changed = False
            for o, cs in cands.items():
                if o in self.path_of:
                    continue
                best = None
                for plain, par, path, s in sorted(cs, key=lambda x: x[0]):
                    if par in self.path_of and all(isinstance(x, str) for x in path):
                        best = self.path_of[par] + path
                        break
                if best is not None:
                    # objects that are also list elements are named by the list
                    if any(not p for p, _, _, _ in cs) and "[]" not in best[-1:]:
                        todo = [par for p, par, _, _ in cs if not p]
                        if any(t not in self.path_of for t in todo):
                            pass
                    self.path_of[o] = best
                    changed = True
        for s in self.stores:
            root, path = s["lv"].args
            if root.op != "obj":
                continue
            o = root.args[0]
            if o.op != "new" or o not in self.path_of:
                continue
            if not all(isinstance(x, str) for x in path):
                continue
            base = self.path_of[o] + tuple(path)
            self.add(base, s["v"], s, o)
        for n in r.nodes.values():
            for a in list(n.args) + list(n.facts):
                if isinstance(a, Term):
                    self.note(a, n.facts)
        for s in self.stores:
            self.note(s["v"], s["facts"])
            for f in s["facts"]:
                self.note(f, s["facts"])

    def note(self, t, facts):
        for x in subterms(t):
            if x.op == "xval":
                self.read_places.add(self.place(x.args[0], facts))
            elif x.op == "xas":
                self.read_places.add(self.place(x.args[1], facts))
            elif x.op in ("xvald",):
                self.read_places.add(self.place(x.args[0], facts))

    def elements(self, v):
        """(guard, element, suffix) for values stored directly or appended to a container."""
        for g, x in flat_alts(v):
            if x.op == "vec":
                for y in x.args[1:]:
                    if isinstance(y, Term):
                        for g2, z in flat_alts(y, g):
                            yield g2, z, ("[]",)
            else:
                yield g, x, ()

    def add(self, base, v, s, obj):
        for g, x in flat_alts(v):
            if x.op == "vec" and base and True:
                for y in x.args[1:]:
                    if isinstance(y, Term) and y.op == "struct":
                        self.add_value(base + ("[]",), y, s, obj)
                return
        self.add_value(base, v, s, obj)

    def add_value(self, base, v, s, obj):
        als = flat_alts(v)
        if len(als) == 1 and als[0][1].op == "struct":
            for f, x in als[0][1].args[2]:
                self.add(base + (f,), x, s, obj)
            return
        a = Assign()
        a.path, a.facts, a.loc, a.value, a.loops, a.obj = base, s["facts"], s["loc"], v, s["loops"], obj
        a.alts = self.value(v, s["facts"])
        a.k = self.count = self.count + 1
        if all(x.kind == "const" and not any(has_place(f) for f in x.g) for x in a.alts):
            self.initial.setdefault((obj, base), a)
            if not any(has_place(f) for f in s["facts"]) or (obj, base) not in self.initial:
                if self.initial[(obj, base)] is a:
                    return
        self.assigns[base].append(a)

    def value(self, v, facts, ops=(), g=frozenset(), depth=0):
        out = []
        for g2, x in flat_alts(v, g):
            F = facts | g2
            if depth > 12:
                out.append(Alt(g2, ops, "unknown", None, x))
            elif x.op in ("int", "str", "empty", "null", "zeros"):
                out.append(Alt(g2, ops, "const", x, x))
            elif x.op == "xval":
                p = self.place(x.args[0], F)
                out.append(Alt(g2, ops, "place" if p is not None else "unknown", p, x))
            elif x.op == "xas":
                p = self.place(x.args[1], F)
                out.append(Alt(g2, (("num", x.args[0], x.args[2]),) + ops, "place" if p is not None else "unknown", p, x))
            elif x.op == "truthy":
                out += self.value(x.args[0], facts, ops, g2, depth + 1)
            elif x.op == "ctext":
                out += self.value(x.args[0], facts, (("substr", "up to a zero byte"),) + ops, g2, depth + 1)
            elif x.op in ("b64d", "b64do"):
                y = x.args[0] if x.op == "b64d" else [k for k in x.args if isinstance(k, Term)][0]
                for z in ([y] if x.op == "b64d" else [k for k in x.args if isinstance(k, Term)]):
                    if x.op == "b64do" and not any(q.op in ("xval",) for q in subterms(z)):
                        continue
                    out += self.value(z, facts, (("b64",),) + ops, g2, depth + 1)
            elif x.op == "obf":
                out += self.value(x.args[2], facts, (("obf",),) + ops, g2, depth + 1)
            elif x.op in ("timegm", "mktime") and x.args[0].op == "strp":
                out += self.value(x.args[0].args[0], facts,
                                  (("time", strval(x.args[0].args[1]), "gm" if x.op == "timegm" else "local"),) + ops, g2,
                                  depth + 1)
            elif x.op == "stoi":
                out += self.value(x.args[0], facts, (("num", "stoi", None),) + ops, g2, depth + 1)
            elif x.op == "cast":
                h = holds(width(x.args[0]), width(x.args[2]))
                o = ops
                if h is False:
                    w, f = width(x.args[0]), width(x.args[2])
                    if not (w and f and w[0] == f[0]):
                        o = (("cast", str(x.args[0]), str(x.args[2])),) + ops
                out += self.value(x.args[1], facts, o, g2, depth + 1)
            elif x.op == "rest" and x.args[0].op == "sid" and x.args[0].args[2].op == "via":
                b = x.args[0].args[2].args[0]
                nm = b.args[0].split("::")[-1] if b.op == "sbuf" else "?"
                ins = [q for q in b.args[1] if isinstance(q, Term) and q.op == "sid"] if b.op == "sbuf" else []
                if len(ins) == 1 and len(ins[0].args) > 2:
                    op = ("gz",) if nm.startswith("gzip") else (nm,)
                    out += self.value(ins[0].args[2], facts, (op,) + ops, g2, depth + 1)
                else:
                    out.append(Alt(g2, ops, "unknown", None, x))
            elif x.op == "mapval":
                out += self.lookup(x, facts, g2)
            elif x.op == "new":
                out.append(Alt(g2, ops, "obj", x, x))
            elif x.op == "rec":
                out.append(Alt(g2, ops, "rec", x, x))
            else:
                out.append(Alt(g2, ops, "unknown", None, x))
        return out

    def lookup(self, x, facts, g):
        """Object found in a pool by a key read from the document."""
        key = self.value(x.args[1], facts)
        objs = []
        for g2, m in flatten(self.I, x.args[0]):
            y = m
            while y.op == "mapput":
                objs.append((y.args[1], y.args[2]))
                z = [q for _, q in flatten(self.I, y.args[0])]
                y = z[0] if len(z) == 1 else T("empty")
        objs = [(k, o) for k, o in objs]
        if not objs:
            return []
        out = []
        for k in key:
            out.append(Alt(g | k.g, k.ops, "lookup", (k.leaf, tuple(objs)), x))
        return out


def has_place(f):
    return any(x.op in ("xval", "xas", "exists", "xc", "xa", "xroot") for x in subterms(f))


# ---------------------------------------------------------------------------
# scenarios: what an exported document holds when a given write happens
NUMK = {"int": (32, True), "uint": (32, False), "llong": (64, True), "ullong": (64, False), "bool": (1, False)}


def model_fact(f):
    return any(x.op == "par" and x.args[0] == "db" for x in subterms(f))


def cases(facts, limit=8):
    """Case distinction over facts that are joins: list of fact sets without joins of model conditions."""
    out = [frozenset()]
    for f in facts:
        opts = []
        if f.op == "or" and model_fact(f):
            opts = [frozenset([x]) for x in f.args if isinstance(x, Term)]
        elif f.op == "phi" and model_fact(f):
            for g, v in flat_alts(f):
                if any(x.op == "noelem" for x in subterms(v)):
                    continue
                opts.append(frozenset(g) | (frozenset() if v.op == "int" and v.args[0] else frozenset([v])))
        else:
            opts = [frozenset([f])]
        if len(out) * len(opts) > limit:
            continue
        out = [o | p for o in out for p in opts]
    return [o for o in out if not contradictory(o)] or [frozenset(facts)]


class Scenario:
    """The documents in which a set of facts about the model holds."""

    def __init__(self, E, IV, facts):
        self.E, self.IV = E, IV
        self.F = frozenset(f for f in facts if model_fact(f))
        self._w = {}

    def implied(self, facts):
        return any(self.implied1(k) for k in cases(facts))

    def implied1(self, facts):
        for f in facts:
            if f in self.F or not model_fact(f):
                continue
            if f.op == "or" and any(a in self.F for a in f.args if isinstance(a, Term)):
                continue
            return False
        return True

    def possible(self, facts):
        return any(not contradictory(self.F | frozenset(f for f in k if model_fact(f))) for k in cases(facts))

    def at(self, p):
        """('absent', []) / ('present', alternatives) / ('unknown', alternatives)."""
        if p in self._w:
            return self._w[p]
        sure, al, poss = False, [], False
        for n, als in self.E.writes.get(p, ()):
            if not self.possible(n.facts):
                continue
            poss = True
            sure = sure or self.implied(n.facts)
            al += [a for a in als if self.possible(n.facts | a.g)]
        r = ("absent", []) if not poss else ("present" if sure else "unknown", al)
        self._w[p] = r
        return r

    def exists(self, p):
        if p == ():
            return True
        if self.at(p)[0] == "present":
            return True
        poss = False
        for q, ns in self.E.elems.items():
            if q is None or q[:len(p)] != p:
                continue
            for n in ns:
                if self.possible(n.facts):
                    poss = True
                    if self.implied(n.facts):
                        return True
        if any(q is not None and q[:len(p)] == p and self.at(q)[0] != "absent" for q in self.E.writes):
            poss = True
        return None if poss else False

    def value(self, p):
        """Term for the text at place p, or None."""
        st, al = self.at(p)
        if st == "absent":
            return T("empty")
        if st != "present" or not al:
            return None
        if len({(a.kind, a.ops, a.term) for a in al}) != 1:
            return None
        a = al[0]
        if a.kind == "const":
            return a.term
        if a.kind == "attr":
            return T("wv", p, a.ops, a.leaf, a.term)
        return None

    def ev(self, g, facts):
        """Truth of an import guard in this scenario: True / False / None."""
        IV, E = self.IV, self.E

        def f(x):
            if x.op == "exists":
                p = IV.place(x.args[0], facts)
                if p is None:
                    return None
                e = self.exists(p)
                return None if e is None else TRUE if e else FALSE
            if x.op == "xval":
                p = IV.place(x.args[0], facts)
                v = self.value(p) if p is not None else None
                return v
            if x.op == "xas":
                p = IV.place(x.args[1], facts)
                if p is None:
                    return None
                st, al = self.at(p)
                if st == "absent":
                    d = x.args[2]
                    return d if isinstance(d, Term) else INT(int(d)) if isinstance(d, (int, bool)) else None
                v = self.value(p)
                if v is None:
                    return None
                if v.op == "int":
                    return v
                s = strval(v)
                if s is not None and x.args[0] == "bool":
                    return INT(1 if s[:1] in "1tTyY" and s else 0)
                if v.op == "wv":
                    return self.known(v)
                return None
            if x.op in ("strpok", "strpend"):
                v = x.args[0]
                if v.op == "xval":
                    v = f(v)
                if v is not None and v.op == "wv" and v.args[1] and v.args[1][0][0] == "time" and \
                        (v.args[1][0][1] or "").startswith(strval(x.args[1]) or "\0"):
                    return TRUE
                return None
            if x.op == "eq":
                a, b = [rebuild(k, f) for k in x.args]
                if a.op == "wv" and a.args[1] == () and a.args[3].op != "wv":
                    pass
                for u, w in ((a, b), (b, a)):
                    if u.op == "wv" and strval(w) is not None:
                        if strval(w) == "":
                            return None
                        others = [y for _, ys in E.writes.get(u.args[0], ()) for y in ys if y.kind == "const"]
                        if any(strval(y.term) == strval(w) for y in others):
                            return FALSE
                        return None
                    if u.op == "size" and w.op == "int" and w.args[0] == 0:
                        k = u.args[0]
                        if k.op == "b64d":
                            k = k.args[0]
                        if k.op == "wv" and k.args[1] and k.args[1][0][0] == "b64":
                            t = E.types.field(k.args[2])
                            if t is not None and "array" in (t.r or t.s):
                                return FALSE
                return mk_eq(a, b)
            if x.op == "has" and rebuild(x.args[1], f).op == "empty":
                return FALSE       # identifiers are never empty
            return None
        r = rebuild(g, f)
        if r is TRUE or (r.op == "int" and r.args[0] != 0):
            return True
        if r is FALSE or (r.op == "int" and r.args[0] == 0):
            return False
        if r.op == "phi":
            vs = {True if v is TRUE or (v.op == "int" and v.args[0]) else False if v is FALSE or v.op == "int" else None
                  for _, v in alts(r)}
            if len(vs) == 1:
                return vs.pop()
        return None

    def known(self, v):
        """Constant value of the attribute under the facts."""
        t = v.args[3]
        if truthy(t) in self.F or t in self.F:
            return INT(1)
        if mk_not(truthy(t)) in self.F:
            return INT(0)
        return v


def relevant(f, IV, a_loops):
    """Import facts that say something about the document (not: an iteration that has ended)."""
    if not has_place(f):
        return False
    if f.op == "not" and f.args[0].op == "exists" and f.args[0].args[0].op == "lphi":
        return False
    return True


def places_in(t, IV, facts, deep=True):
    out = set()
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        for y in subterms(x):
            if y in seen:
                continue
            seen.add(y)
            if y.op == "xval":
                out.add(IV.place(y.args[0], facts))
            elif y.op == "xas":
                out.add(IV.place(y.args[1], facts))
            elif y.op == "exists":
                out.add(IV.place(y.args[0], facts))
            elif y.op == "lphi" and deep:
                e = IV.I.lphi.get(y)
                if e is not None and IV.place(y, facts) is None:
                    todo += [v for v in e if v is not None]
    out.discard(None)
    return out


class XmlCheck:
    def __init__(self, c, rep):
        self.c, self.rep = c, rep
        self.E = ExportView(c, c.root(EXPORT))
        self.E.types = Types(c.P)
        self.IV = ImportView(c, c.root(IMPORT), self.E.disc)
        self.attr_places = collections.defaultdict(set)
        for p, ws in self.E.writes.items():
            for n, als in ws:
                for a in als:
                    if a.kind == "attr":
                        self.attr_places[a.leaf].add(p)
        self.groups = collections.defaultdict(list)
        for path, asg in self.IV.assigns.items():
            for a in asg:
                self.groups[(path, a.obj)].append(a)

    # composition ------------------------------------------------------
    def same_codec(self, W, e, i):
        """Does reading alternative i undo writing alternative e (both at the same place)?  True/False/None, text."""
        eo, io = list(e.ops), list(i.ops)
        t = self.E.types.field(e.leaf)
        pt = W.extra.get("ptype")
        aw = width(t)
        num_e = None
        if pt not in (None, "const char *") and "char" not in pt:
            num_e = pt
        if eo and eo[0] == ("num",):
            num_e = "text"
            eo = eo[1:]
        num_i = None
        if io and io[0][0] == "num":
            num_i = io[0][1]
            io = io[1:]
        if any(o[0] == "cast" for o in eo):
            return False, "the value is narrowed before it is written (%s)" % ", ".join(map(str, eo))
        if any(o[0] == "cast" for o in io):
            return False, "the value read is narrowed (%s)" % ", ".join(map(str, io))
        if any(o[0] in ("arith", "substr", "slice", "filter", "resized") for o in eo + io):
            return False, "the value is altered (%s)" % ", ".join(o[0] for o in eo + io)
        if (num_e is None) != (num_i is None):
            return False, "written as %s but read as %s" % (num_e or "text", num_i or "text")
        if num_e is not None:
            if num_i in ("float", "double") or (num_i not in NUMK and num_i != "stoi"):
                return None, "numeric kind %s" % num_i
            kw = NUMK.get(num_i, (32, True))
            if aw is not None and holds(kw, aw) is False:
                return False, "read as %s, which does not hold every value of the attribute's type %s" % (num_i, t.s)
            if num_e == "bool" and num_i != "bool":
                return False, "written as a boolean word but read as a number"
            if num_i == "bool" and num_e != "bool" and aw is not None and aw[0] != 1:
                return False, "a number is read back as a boolean"
            pk = W.extra.get("pk")
            if num_e != "text" and pk is not None and aw is not None:
                pw = width(pk)
                if pw and holds(pw, aw) is False and pw[0] != aw[0]:
                    return False, "written as %s, which does not hold every value of the attribute's type %s" % (pt, t.s)
        if len(eo) != len(io):
            return False, "written through [%s] but read through [%s]" % (
                ", ".join(o[0] for o in eo), ", ".join(o[0] for o in io))
        for a, b in zip(eo, io):
            if a[0] != b[0]:
                return False, "written through [%s] but read through [%s]" % (
                    ", ".join(o[0] for o in eo), ", ".join(o[0] for o in io))
            if a[0] == "time":
                if a[2] == "gm" and b[2] != "gm" or a[2] == "local" and b[2] != "local":
                    return False, "time written as %s time but read as %s time" % (a[2], b[2])
                if not (a[1] or "").startswith(b[1] or "\0"):
                    return False, "time written as '%s' but read as '%s'" % (a[1], b[1])
                if not all("%" + k in b[1] for k in "YmdHMS"):
                    return False, "time format '%s' does not carry every component" % b[1]
        return True, ""

    def alt_state(self, sc, a, alt):
        """True: certainly taken; None: possibly; False: not taken."""
        r = True
        fs = a.facts | alt.g
        for g in fs:
            if not relevant(g, self.IV, a.loops):
                continue
            e = sc.ev(g, fs)
            if e is False:
                return False
            if e is None and g not in self.soft(sc, a, fs):
                r = None
        return r

    def soft(self, sc, a, fs):
        """Guards that only tell an empty value from a non-empty one; every codec maps empty to empty."""
        out = set()
        for g in fs:
            x = g.args[0] if g.op == "not" else g
            if g.op == "not" and x.op == "eq" and any(k.op == "int" and k.args[0] == 0 for k in x.args) and \
                    any(k.op == "size" for k in x.args):
                out.add(g)
        return out

    def const_fits(self, sc, attr_term, alt):
        """The constant read is the attribute's value under the scenario's facts."""
        k = alt.term
        t = attr_term
        if mk_eq(t, k) in sc.F:
            return True
        if k.op == "null" or (k.op == "int" and k.args[0] == 0):
            if mk_not(truthy(t)) in sc.F or mk_not(t) in sc.F:
                return True
        if k.op == "int" and k.args[0] == 1 and (truthy(t) in sc.F or t in sc.F):
            return True
        if k.op == "int" and k.args[0] == 0:
            for f in sc.F:
                if f.op == "eq" and t in f.args and any(x.op in ("int", "zeros", "empty") for x in f.args):
                    return True
        if k.op == "empty" and mk_eq(mk_size(t), INT(0)) in sc.F:
            return True
        return None if any(t in subterms(f) for f in sc.F) else False

    # ------------------------------------------------------------------
    def judge_read(self, rule, W, F, p, e, A, term, obj, asg):
        """One scenario: attribute A (value term) is written at p as alternative e; asg are the stores to A on import."""
        rep, IV, E = self.rep, self.IV, self.E
        sc = Scenario(E, IV, F)
        good, bad, unk, blocked, cond = [], [], [], [], set()
        for a in sorted(asg, key=lambda a: a.k):
            for alt in a.alts:
                st = self.alt_state(sc, a, alt)
                if st is False:
                    if alt.kind == "place" and alt.leaf == p:
                        blocked.append(a)
                    continue
                if alt.kind == "place" and alt.leaf == p:
                    if e.kind == "attr":
                        ok, why = self.same_codec(W, e, alt)
                    else:
                        ok, why = False, "the constant %s stands for the attribute" % show(e.term, 3)
                        if all(o[0] == "num" for o in alt.ops):
                            ok = self.const_fits(sc, term, e)
                elif alt.kind == "place":
                    ok, why = False, "it is read from %s" % pl(alt.leaf)
                elif alt.kind == "const":
                    ok = self.const_fits(sc, term, alt)
                    why = "the constant %s is stored instead" % show(alt.term, 3)
                elif alt.kind == "unknown":
                    ps = places_in(alt.term, IV, a.facts | alt.g)
                    ok, why = None, "value not understood: %s" % show(alt.term, 3)
                    if not ps:
                        ok, why = False, "the value stored (%s) does not come from the document" % show(alt.term, 2)
                else:
                    ok, why = None, "value not understood: %s" % show(alt.term, 3)
                if ok is None and alt.kind == "const":
                    ok = None
                (good if ok else bad if ok is False else unk).append((a, alt, st, why))
        return sc, good, bad, unk

    def conditional(self, sc, a, alt, p):
        """Places other than p that decide whether p is read at all, and that the writer does not tie to it."""
        out = set()
        fs = a.facts | alt.g
        for g in fs:
            if not relevant(g, self.IV, a.loops) or sc.ev(g, fs) is not None or g in self.soft(sc, a, fs):
                continue
            ps = places_in(g, self.IV, fs, deep=False)
            for q in ps:
                if q == p or q[:len(p)] == p or p[:len(q)] == q:
                    continue
                if any(c.split("{")[0] != c for c in q) and q[:-1] == p[:len(q) - 1]:
                    continue
                out.add(q)
        return out

    # rules ------------------------------------------------------------
    def reads(self, A):
        return any(alt.kind == "place" for g, asg in self.groups.items() if g[0] == A for a in asg for alt in a.alts)

    def asg_of(self, A):
        """Import stores to A, one list per object of that path."""
        return [(o, asg) for (p, o), asg in self.groups.items() if p == A]

    def readback(self):
        rep, E = self.rep, self.E
        for p, ws in sorted(E.writes.items()):
            for n, als in ws:
                for e in als:
                    if e.kind != "attr" or p == ("KeePassFile", "Meta", "HeaderHash"):
                        continue
                    A = e.leaf
                    if self.is_ref(A):
                        continue
                    key = "%s@%s" % (pp(A), pl(p))
                    lst = self.asg_of(A)
                    if not lst or not any(alt.kind != "const" for _, asg in lst for a in asg for alt in a.alts):
                        rep.bad("read-back", key, at(n), "%s is written at %s but no import fills it" % (pp(A), pl(p)))
                        continue
                    for obj, asg in lst:
                        self.one_read("read-back", key, n, p, e, A, e.term, obj, asg)

    def one_read(self, rule, key, n, p, e, A, term, obj, asg):
        for F in cases(n.facts | e.g):
            if not self.absent_owner(term, F):
                self.one_case(rule, key, n, F, p, e, A, term, obj, asg)

    def one_case(self, rule, key, n, F, p, e, A, term, obj, asg):
        rep = self.rep
        sc, good, bad, unk = self.judge_read(rule, n, F, p, e, A, term, obj, asg)
        sure_bad = [b for b in bad if b[2] is True and not any(g[0].k >= b[0].k and g[2] is not False for g in good)]
        if good and not sure_bad:
            w = self.replaced(sc, p, term, asg, [b for b in bad if b[1].kind == "const" and b[1].leaf.op == "int"])
            if w:
                rep.bad(rule, key + ":replaced", at(w[0][0].loc), "%s is written at %s (%s) but the import replaces %s by %s" % (
                    pp(A), pl(p), at(n), w[1], show(w[0][1].term, 3)))
                return
            g = good[-1]
            c = set()
            for x in good:
                c |= self.conditional(sc, x[0], x[1], p)
            if c and not any(not self.conditional(sc, x[0], x[1], p) for x in good) and not self.dropped_ok(A, c):
                rep.bad(rule, key + ":if", at(g[0].loc), "%s is read back from %s only depending on %s" % (
                    pp(A), pl(p), ", ".join(sorted(pl(q) for q in c))))
                return
            rep.ok(rule, at(n), "%s <-> %s" % (pp(A), pl(p)))
            return
        if sure_bad:
            b = sure_bad[-1]
            rep.bad(rule, key, at(b[0].loc), "%s is written at %s (%s) but on import %s" % (pp(A), pl(p), at(n), b[3]))
            return
        if unk:
            rep.und(rule, at(n), "%s at %s: %s" % (pp(A), pl(p), unk[0][3]))
            return
        if bad:
            rep.bad(rule, key, at(bad[-1][0].loc), "%s is written at %s (%s) but on import %s" % (
                pp(A), pl(p), at(n), bad[-1][3]))
        else:
            rep.bad(rule, key, at(asg[-1].loc), "%s is written at %s (%s) but the import never takes that value" % (
                pp(A), pl(p), at(n)))

    def replaced(self, sc, p, term, asg, bad):
        """A value of the attribute for which a constant is stored in its place."""
        t = strip_casts(term)
        ty = width(self.E.types.field(model_path(t))) if model_path(t) is not None else None
        if ty is None or ty[0] == 1:
            return None
        last = max([a.k for a in asg] or [0])
        for a, alt, st, why in bad:
            if a.k != last:
                continue
            fs = a.facts | alt.g

            def f(x):
                if x.op == "xas" and self.IV.place(x.args[1], fs) == p:
                    return term
                return None
            gs = [g for g in fs if relevant(g, self.IV, a.loops) and sc.ev(g, fs) is not True]
            gs = [rebuild(g, f) for g in gs]
            if not gs or any(has_place(g) for g in gs):
                continue
            for v in [0, 1, 2, 3, 7, 30, 100, 255, 256, 365, 1000, 65535, 65536, (1 << (ty[0] - 1)) - 1] + \
                    ([(1 << ty[0]) - 1] if not ty[1] else [-1, -2, -100]):
                if v == alt.leaf.args[0] or any(decide.evalnum(g, {term: v, t: v}) in (0, None) for g in gs):
                    continue
                if any(decide.evalnum(g, {term: v, t: v}) == 0 for g in sc.F):
                    continue
                return (a, alt), v
        return None

    def values(self):
        """Own-value conditions: for chosen values of an attribute, what the import ends up with."""
        rep, E, IV = self.rep, self.E, self.IV
        per = collections.defaultdict(list)
        for p, ws in sorted(E.writes.items()):
            for n, als in ws:
                for e in als:
                    if e.kind == "attr" and p != ("KeePassFile", "Meta", "HeaderHash") and not self.is_ref(e.leaf):
                        per[e.leaf].append((p, n, e))
        refused = {mk_not(f) for t in E.r.by("throw") for f in t.facts}
        for A, uses in sorted(per.items()):
            t = E.types.field(A)
            text = t is not None and "string" in (t.r or t.s)
            sw = width(t)
            for p, n, e in uses:
                fs = [f for f in n.facts | e.g if f not in refused]
                term = strip_casts(e.term)
                sc = Scenario(E, IV, frozenset(f for f in n.facts | e.g if term not in subterms(f)))
                for obj, asg in self.asg_of(A):
                    R = Replay(self, sc, p, e.term, asg, relevant)
                    vs = samples(sw, text, [f for f in fs if term in subterms(f)] + [g for a in asg for x in a.alts
                                                                                     for g in a.facts | x.g])
                    for v in vs:
                        w = self.lost(R, A, p, n, e, v, uses, fs, text, term)
                        if w:
                            rep.bad("own-value", "%s@%s" % (pp(A), pl(p)), w[0], "%s is %r: %s" % (pp(A), v if not isinstance(
                                v, str) else v[:40], w[1]))
                            break
                    else:
                        if vs:
                            rep.ok("own-value", at(n), "%s (%d values)" % (pp(A), len(vs)))

    def lost(self, R, A, p, n, e, v, uses, fs, text, term):
        if all(o[0] == "num" for o in e.ops) and R.written(fs, v):
            out = R.run(v)
            if out and v not in out and not out & {"?", None}:
                return at(R.asg[-1].loc), "it is written at %s but the import ends up with %s" % (
                    pl(p), ", ".join(sorted(map(repr, out))))
        for same in (False, True):
            like = (lambda x: v if x.op == "fld" and model_path(x) is not None and self.is_text(x) else None) \
                if same and text else None
            if same and like is None:
                continue
            if any(R.written(n2.facts | e2.g, v, like, e2.term) for p2, n2, e2 in uses):
                continue
            if any(y.kind != "attr" and R.written(n2.facts | y.g, v, like) for n2, ys in self.E.writes.get(p, ()) for y in ys):
                continue
            out = R.run(v, absent=True)
            if v not in out and "?" not in out:
                return at(n), "it is not written, and the import ends up with %s" % (
                    ", ".join(sorted("no object" if x is None else repr(x) for x in out)))
        return None

    def is_text(self, x):
        t = self.E.types.field(model_path(x))
        return t is not None and "string" in (t.r or t.s)

    def dropped_ok(self, A, c):
        """Stated exclusions: icons without data."""
        return A[:4] == ("db", "meta_", "icons_", "[]") and all(q[-2:] == ("Icon", "Data") for q in c)

    def is_ref(self, A):
        """The identifier of an object the attribute points to, not of an object stored here."""
        if len(A) < 3 or A[-2] == "[]":
            return False
        lst = self.asg_of(A[:-1])
        ks = {alt.kind for _, asg in lst for a in asg for alt in a.alts}
        return "lookup" in ks or "obj" in ks and not self.reads(A)


    def targets(self):
        """Attributes the import fills from each place."""
        target = collections.defaultdict(set)
        for A, asg in self.IV.assigns.items():
            for a in asg:
                for alt in a.alts:
                    if alt.kind == "place":
                        target[alt.leaf].add(A)
        return target

    def computed(self):
        """Values computed from several attributes: equal to the attribute the import fills from there?"""
        rep, E = self.rep, self.E
        target = self.targets()
        for p, ws in sorted(E.writes.items()):
            for n, als in ws:
                for e in als:
                    if e.kind != "unknown" or p[-1] == "HeaderHash":
                        continue
                    key = pl(p)
                    src = {}
                    for x in subterms(e.term):
                        m = model_path(x)
                        if m is not None and m[:2] in (("db", "meta_"), ("db", "root_")):
                            src[m] = x
                    for A in sorted(target.get(p, ())):
                        t = src.get(A)
                        if t is None:
                            if src:
                                rep.bad("computed", "%s@%s" % (pp(A), key), at(n), "what is written at %s (%s) does not contain "
                                        "%s, which the import fills from there" % (pl(p), show(e.term, 5), pp(A)))
                            continue
                        d = can_differ(e.term, t, n.facts | e.g)
                        if d is None:
                            rep.und("computed", at(n), "%s at %s: %s" % (pp(A), pl(p), show(e.term, 4)))
                        else:
                            rep.judge("computed", not d, "%s@%s" % (pp(A), key), at(n), "%s is written at %s as %s, which can "
                                      "differ from it" % (pp(A), pl(p), show(e.term, 5)), pp(A))

    def consts(self):
        """Writes of a constant in place of an attribute, and the attributes written nowhere else in that case."""
        rep, E = self.rep, self.E
        target = self.targets()
        for p, ws in sorted(E.writes.items()):
            for n, als in ws:
                attrs = {a.leaf: a for n2, als2 in ws for a in als2 if a.kind == "attr"}
                attrs.update({a.leaf: a for a in als if a.kind == "attr"})
                attrs = {A: a.term for A, a in attrs.items()}
                fterms = {}
                for e in als:
                    for f in n.facts | e.g:
                        for x in subterms(f):
                            m = model_path(x)
                            if m is not None:
                                fterms[m] = x
                for A in target.get(p, ()):
                    if A in fterms and A not in attrs and not any(self.absent_owner(fterms[A], n.facts | e.g) for e in als):
                        attrs[A] = fterms[A]
                for e in als:
                    if e.kind != "const":
                        continue
                    for A, at_ in attrs.items():
                        if self.is_ref(A):
                            continue
                        for obj, asg in self.asg_of(A):
                            self.one_read("stand-in", "%s@%s=%s" % (pp(A), pl(p), show(e.term, 2)), n, p, e, A, at_,
                                          obj, asg)

    def absent_owner(self, t, facts):
        """The object holding the attribute does not exist in this case."""
        x = t
        while x.op in ("fld", "deref", "lock", "at"):
            x = x.args[0]
            if mk_not(truthy(x)) in facts:
                return True
        return False

    def written(self):
        """Every attribute the import fills from the document is exported."""
        rep = self.rep
        guards = self.guard_attrs()
        for path, asg in sorted(self.IV.assigns.items()):
            if path[:2] not in (("db", "meta_"), ("db", "root_")):
                continue
            ps = sorted({alt.leaf for a in asg for alt in a.alts if alt.kind == "place"})
            look = any(alt.kind in ("lookup",) for a in asg for alt in a.alts)
            if not ps and not look:
                continue
            if path in self.attr_places or path in guards or any(q[:len(path)] == path for q in self.attr_places) or \
                    self.under_ref(path):
                rep.ok("written", at(asg[-1].loc), pp(path))
            else:
                rep.bad("written", pp(path), at(asg[-1].loc), "the import fills %s%s but no export writes that attribute" % (
                    pp(path), " from " + pl(ps[0]) if ps else ""))

    def under_ref(self, path):
        for i in range(2, len(path)):
            ks = {alt.kind for _, asg in self.asg_of(path[:i]) for a in asg for alt in a.alts}
            if "lookup" in ks and "obj" in ks and path[:i] + path[i:] not in self.attr_places and \
                    any(q[:i] == path[:i] and len(q) == i + 1 for q in self.attr_places):
                return True
        return False

    def guard_attrs(self):
        """Boolean attributes that are exported by writing or not writing something: path -> [(term, place, True/False)]."""
        out = collections.defaultdict(list)
        for p, ws in self.E.writes.items():
            for n, als in ws:
                for e in als:
                    for f in set().union(*cases(n.facts | e.g)):
                        neg = f.op == "not"
                        x = f.args[0] if neg else f
                        t = x.args[0] if x.op == "truthy" else x
                        mp = model_path(t)
                        if mp is not None and mp[:2] in (("db", "meta_"), ("db", "root_")):
                            ty = self.E.types.field(mp)
                            if ty is not None and width(ty) == (1, False):
                                out[mp].append((t, p, n, e, not neg))
        return out

    def flags(self):
        rep = self.rep
        g = self.guard_attrs()
        done = collections.Counter()
        for A, uses in sorted(g.items()):
            if A in self.attr_places:
                continue
            lst = self.asg_of(A)
            if not any(alt.kind == "place" or any(has_place(x) for x in alt.g) for _, asg in lst for a in asg for alt in a.alts):
                rep.bad("flags", pp(A), at(uses[0][2]), "%s decides how %s is written, but no import restores it" % (
                    pp(A), pl(uses[0][1])))
                continue
            for t, p, n, e, val in uses:
                sc = Scenario(self.E, self.IV, frozenset(f for k in cases(n.facts | e.g) for f in k))
                if contradictory(sc.F):
                    continue
                for obj, asg in lst:
                    vals = set()
                    where = None
                    for a in sorted(asg, key=lambda a: a.k):
                        va = set()
                        for alt in a.alts:
                            st = self.alt_state(sc, a, alt)
                            if st is False or not self.same_element(a, alt, p):
                                continue
                            where = a
                            if alt.kind == "const":
                                va.add((bool(alt.term.args[0]) if alt.term.op == "int" else None, st))
                            elif alt.kind == "place":
                                st2, al2 = sc.at(alt.leaf)
                                if st2 == "absent":
                                    d = alt.ops[0][2] if alt.ops and alt.ops[0][0] == "num" else None
                                    d = d.args[0] if isinstance(d, Term) and d.op == "int" else d
                                    va.add((bool(d) if d is not None else None, st))
                                else:
                                    k = {strval(x.term) for x in al2 if x.kind == "const"}
                                    va.add(((list(k)[0] or "")[:1] in tuple("1tTyY") if len(k) == 1 and None not in k
                                            else None, st))
                            else:
                                va.add((None, st))
                        if any(st for v, st in va):
                            vals = {x for x in va if x[1]}
                        else:
                            vals |= va
                    known = {v for v, st in vals}
                    key = "%s=%d@%s" % (pp(A), val, pl(p))
                    if not vals:
                        continue
                    done[A] += 1
                    if known == {val}:
                        rep.ok("flags", at(n), "%s=%d at %s" % (pp(A), val, pl(p)))
                    elif val not in known and None not in known:
                        rep.bad("flags", key, at(where.loc), "%s is %s when %s is written (%s) but is read back as %s" % (
                            pp(A), str(val).lower(), pl(p), at(n), str(not val).lower()))
                    else:
                        rep.und("flags", at(n), "%s at %s: %s" % (pp(A), pl(p), sorted(map(str, known))))
            if not done[A]:
                rep.und("flags", at(uses[0][2]), "%s: no import store decides it" % pp(A))

    def same_element(self, a, alt, p):
        """The store belongs to the element the write at p is about."""
        ps = set()
        for g in a.facts | alt.g:
            if relevant(g, self.IV, a.loops):
                ps |= places_in(g, self.IV, a.facts | alt.g, deep=False)
        if alt.kind == "place":
            ps.add(alt.leaf)
        return any(q[:len(p)] == p or p[:len(q)] == q for q in ps)


    # references -------------------------------------------------------
    def refs(self):
        rep, E = self.rep, self.E
        for p, ws in sorted(E.writes.items()):
            for n, als in ws:
                for e in als:
                    if e.kind == "attr" and self.is_ref(e.leaf):
                        R = e.leaf[:-1]
                    elif e.kind == "ref":
                        R = None
                        known = n.facts | searched(e.term.args[0])
                        for f in known:
                            if f.op == "eq":
                                for a, b in (f.args, f.args[::-1]):
                                    if b.op == "fld" and b.args[0] is e.term.args[0] and model_path(a):
                                        R = model_path(a)
                        if R is None:
                            if self.weakly_matched(e.term.args[0], known):
                                rep.bad("references", "unmatched@%s" % pl(p), at(n), "the object referenced is not compared "
                                        "with the attribute it stands for")
                            else:
                                rep.und("references", at(n), "%s: object referenced not identified" % pl(p))
                            continue
                    else:
                        continue
                    lst = self.asg_of(R)
                    key = "%s@%s" % (pp(R), pl(p))
                    if not lst:
                        rep.bad("references", key, at(n), "%s is written at %s but no import restores it" % (pp(R), pl(p)))
                    for obj, asg in lst:
                        for F in cases(n.facts | e.g):
                            self.one_ref(key, n, F, p, e, R, obj, asg)

    def refs_kept(self):
        """A reference found in the document is stored whatever the rest of the database looks like."""
        rep, IV, E = self.rep, self.IV, self.E
        for (A, o), asg in sorted(self.groups.items(), key=lambda x: (x[0][0], x[0][1].id if isinstance(x[0][1], Term) else 0)):
            if len(A) < 2 or not any(alt.kind == "lookup" or alt.kind == "obj" and alt.term in IV.path_of and
                                     IV.path_of[alt.term] != A for a in asg for alt in a.alts):
                continue
            hits = [(a, alt) for a in asg for alt in a.alts if alt.kind in ("lookup", "obj")]
            allf = set().union(*[a.facts | alt.g for a, alt in hits])
            done = False
            for a, alt in hits:
                fs = a.facts | alt.g
                places = {alt.leaf[0]} if alt.kind == "lookup" else set()
                for g in fs:
                    if mk_not(g) in allf:
                        continue
                    w = self.restricts(g, a, fs, places)
                    if w:
                        rep.bad("references", "%s:if" % pp(A), at(a.loc), "%s is restored only if %s" % (pp(A), w))
                        done = True
                        break
                if done:
                    break
            if not done:
                rep.ok("references", at(hits[0][0].loc), "%s restored unconditionally" % pp(A))

    def restricts(self, g, a, fs, places):
        xs = [y for _, y in alts(g)] if g.op == "phi" else [g]
        neg = [x.args[0] for x in xs if x.op == "not"]
        if len(neg) == len(xs) and all(x.op == "eq" and all(y.op in ("new", "mapval", "deref", "null", "int") for y in x.args)
                                       for x in neg):
            for x in neg:
                p, q = x.args
                if {p.op, q.op} <= {"new", "mapval"}:
                    return "it does not designate a certain object (%s)" % show(x, 4)
        if not has_place(g):
            # numbers of parts already read
            sz = {y for y in subterms(g) if y.op == "size" and (y.args[0].op == "vec" or y.args[0].op == "lphi" and
                                                                y.args[0].args[1].op == "lv")}
            if sz and not any(y.op in ("rd", "get", "rest") for z in sz for y in subterms(z)):
                for k in (1, 2, 5, 1000):
                    if decide.evalnum(g, {z: k for z in sz}) == 0:
                        return "%s, which %d items do not satisfy" % (show(g, 4), k)
            return None
        if not relevant(g, self.IV, a.loops):
            return None
        if g.op in ("not", "eq", "lt", "truthy", "xas") and not any(y.op in ("lphi",) and self.IV.place(y, fs) is None and
                                                                    not self.IV.I.lphi.get(y) for y in subterms(g)):
            h = [y for y in subterms(g) if y.op == "xas" and y.args[0] in ("uint", "int", "llong", "ullong")]
            if h and not any(y.op in ("xval", "exists", "has") for y in subterms(g)):
                q = {self.IV.place(y.args[1], fs) for y in h}
                if None not in q and not q & places and decide.evalnum(g, {y: k for y in h for k in (7,)}) == 0:
                    return show(g, 4)
        return None

    def weakly_matched(self, el, facts):
        """No fact, or only facts about numbers and flags, connect a pool element with an attribute."""
        for f in facts:
            if f.op in ("eq", "equal", "rec", "prim", "truthy") and el in set(subterms(f)):
                a = [x for x in f.args if isinstance(x, Term)]
                if f.op == "eq" and any(x.op == "fld" and scalar_field(self.c.P, x.args[1]) for x in a):
                    continue
                return False
        return True

    def one_ref(self, key, n, F, p, e, R, obj, asg):
        rep, IV, E = self.rep, self.IV, self.E
        sc = Scenario(E, IV, F)
        state, why, loc = None, None, n
        for a in sorted(asg, key=lambda a: a.k):
            for alt in a.alts:
                st = self.alt_state(sc, a, alt)
                if st is False:
                    continue
                ok, w = self.ref_ok(sc, a, alt, p, e, R)
                if ok is True:
                    state, why, loc = True, "", a.loc
                elif st is True or state is None:
                    if alt.kind == "const" and st is not True and state is True:
                        continue
                    if state is True and st is not True:
                        continue
                    state, why, loc = ok, w, a.loc
        if state is None and why is None:
            rep.bad("references", key, at(asg[-1].loc), "%s is written at %s (%s) but the import never restores it" % (
                pp(R), pl(p), at(n)))
            return
        rep.judge("references", state, key, at(loc), "%s is written at %s (%s) but on import %s" % (pp(R), pl(p), at(n), why),
                  "%s <-> %s" % (pp(R), pl(p)))

    def ref_ok(self, sc, a, alt, p, e, R):
        IV, E = self.IV, self.E
        fs = a.facts | alt.g
        if alt.kind == "const":
            return False, "it becomes %s" % show(alt.term, 2)
        if alt.kind == "lookup":
            kp, objs = alt.leaf
            if kp != p:
                return (False, "it is looked up by %s" % pl(kp)) if kp is not None else (None, "lookup key not understood")
            if e.kind == "attr" and alt.ops not in ((),) and alt.ops != e.ops:
                return False, "its identifier is decoded differently"
            for k, o in objs:
                path = IV.path_of.get(o)
                ks = IV.value(k, fs)
                if len(ks) != 1 or ks[0].kind != "place" or path is None:
                    return None, "pool entry %s not understood" % show(k, 3)
                q = ks[0].leaf
                if ks[0].ops != alt.ops:
                    return False, "the pool is keyed by differently decoded text (%s)" % pl(q)
                if e.kind == "ref":
                    if q != e.leaf:
                        return False, "the pool is keyed by %s, but the reference designates %s" % (pl(q), pl(e.leaf))
                    continue
                als = [y for _, ys in E.writes.get(q, ()) for y in ys if y.kind != "const"]
                if not als:
                    return False, "the pool is keyed by %s, which is never written" % pl(q)
                for y in als:
                    if y.kind != "attr" or y.leaf != path + e.leaf[-1:] or y.ops != e.ops:
                        return False, "the object pool is keyed by %s, which holds %s" % (
                            pl(q), pp(y.leaf) if y.kind == "attr" else "another value")
            return True, ""
        if alt.kind == "obj":
            o = alt.term
            path = IV.path_of.get(o)
            if path == R and e.kind == "attr":
                for a2 in self.groups.get((R + e.leaf[-1:], o), ()):
                    for x in a2.alts:
                        if x.kind == "place" and x.leaf == p and x.ops == e.ops:
                            return True, ""
            # an object of the document, chosen because its identifier equals the reference
            mentioned = set()
            for g in fs:
                for x in subterms(g):
                    if x.op == "eq":
                        m = places_in(x, IV, fs)
                        if p in m:
                            mentioned |= m - {p}
                            for y in x.args:
                                o = places_in(y, IV, fs)
                                if p in o and o != {p}:
                                    return False, "it is chosen by a value that also depends on %s" % (
                                        ", ".join(sorted(pl(q) for q in o - {p})))
            mentioned = {q for q in mentioned if any(y.kind == "attr" and path is not None and y.leaf == path + e.leaf[-1:]
                                                     for _, ys in E.writes.get(q, ()) for y in ys)}
            if mentioned:
                return True, ""
            return False, "it is set to an object chosen without comparing %s" % pl(p)
        return None, "value not understood: %s" % show(alt.term, 3)

    def nulls(self):
        """References that are null when written stay null."""
        rep, E = self.rep, self.E
        seen = {}
        for p, ws in sorted(E.writes.items()):
            for n, als in ws:
                for e in als:
                    if e.kind == "attr" and self.is_ref(e.leaf):
                        t = e.term
                        while t.op in ("fld", "deref", "lock") and model_path(t) != e.leaf[:-1]:
                            t = t.args[0]
                        while t.op in ("deref", "lock"):
                            t = t.args[0]
                        seen.setdefault((e.leaf[:-1], t), []).append(n)
        for (R, t), ns in sorted(seen.items(), key=lambda x: (x[0][0], x[1][0].id)):
            for n in ns[:1]:
                # what is known where the decision is taken, minus the non-null test itself
                F = frozenset(f for f in n.facts if model_fact(f) and t not in subterms(f)) | {mk_not(truthy(t)),
                                                                                                        mk_not(truthy(T("lock", t)))}
                sc = Scenario(E, self.IV, F)
                for obj, asg in self.asg_of(R):
                    for a in sorted(asg, key=lambda a: a.k):
                        for alt in a.alts:
                            st = self.alt_state(sc, a, alt)
                            if st is False:
                                continue
                            key = "%s" % pp(R)
                            if alt.kind == "const" and alt.term.op in ("null", "empty") or alt.kind == "const" and \
                                    alt.term.op == "int" and alt.term.args[0] == 0:
                                rep.ok("null-reference", at(a.loc), pp(R))
                            elif st is True:
                                rep.bad("null-reference", key, at(a.loc), "%s is null and nothing is written for it, yet the "
                                        "import sets it" % pp(R))
                            else:
                                rep.und("null-reference", at(a.loc), "%s: %s" % (pp(R), alt))


    # coverage ---------------------------------------------------------
    def always(self):
        """An attribute is written whenever the object holding it exists."""
        rep, E = self.rep, self.E
        per = collections.defaultdict(list)
        allf = [frozenset(n.facts) for ws in E.writes.values() for n, _ in ws]
        self.base = frozenset.intersection(*allf) if allf else frozenset()
        for p, ws in E.writes.items():
            for n, als in ws:
                for e in als:
                    if e.kind == "attr":
                        per[e.leaf].append((n, e))
        for A, uses in sorted(per.items()):
            cs = set()
            why = {}
            for n, e in uses:
                for F in cases(n.facts | e.g):
                    res = frozenset(self.residual(A, e.term, F))
                    cs.add(res)
                    why[res] = n
            if self.covers(cs):
                rep.ok("always-written", at(uses[0][0]), pp(A))
                continue
            best = min(cs, key=len)
            n = why[best]
            unknown = any(x.op in ("lphi", "ev", "opq", "prim", "ext") for f in best for x in subterms(f))
            msg = "%s is written only if %s" % (pp(A), " and ".join(sorted(show(f, 6) for f in best)))
            if unknown:
                rep.und("always-written", at(n), msg)
            else:
                rep.bad("always-written", pp(A), at(n), msg)

    def subject(self, f):
        x = f.args[0] if f.op == "not" else f
        return x.args[0] if x.op == "truthy" else x

    def residual(self, A, t, F):
        own = set()
        x = t
        while True:
            own.add(x)
            if x.op in ("fld", "deref", "lock", "at"):
                x = x.args[0]
            else:
                break
        for f in F:
            if not model_fact(f) or f in self.base:
                continue
            mps = {model_path(x) for x in subterms(f)} - {None}
            if not any(q[:2] in (("db", "meta_"), ("db", "root_")) and len(q) > 1 for q in mps):
                if not any(q == ("db", "compress_") for q in mps):
                    continue                        # decided before the document is built
            s = self.subject(f)
            neg = f.op == "not"
            if not neg and f.op == "truthy" and (s in own or s.op == "lock" and s.args[0] in own):
                continue                            # the object holding it exists
            if any(q == A for q in mps):
                continue                            # its own value; judged by what the import restores then
            yield f

    def covers(self, cs):
        cs = set(cs)
        for _ in range(6):
            if frozenset() in cs:
                return True
            new = set()
            for a in cs:
                for f in a:
                    for b in cs:
                        if mk_not(f) in b:
                            new.add((a - {f}) | (b - {mk_not(f)}))
            if new <= cs or len(cs) > 200:
                break
            cs |= new
        return frozenset() in cs

    EXEMPT = {("keepass::Group", "flags_"): "only the KDB format stores it"}

    def covered(self):
        """Every member of the model classes takes part in the document."""
        rep = self.rep
        known = set(self.attr_places) | set(self.guard_attrs())
        recs = {self.rec_path(n) for n in self.E.r.by("rec")} - {None}
        known |= recs
        for p, ws in self.E.writes.items():
            for n, als in ws:
                for e in als:
                    if e.kind == "ref":
                        for f in n.facts:
                            if f.op == "eq":
                                known |= {model_path(a) for a in f.args} - {None}
        P = self.c.P
        todo = [(("db", "meta_"), None), (("db", "root_"), None)]
        seen = set()
        verdict = {}
        while todo:
            path, _ = todo.pop()
            t = self.E.types.field(path)
            cls = self.E.types.cls(t) if t is not None else None
            if cls is None:
                continue
            if cls.startswith(("std::vector", "std::list")) and t is not None and t.args:
                cls2 = self.E.types.cls(t.args[0])
                path = path + ("[]",)
                cls = cls2
            rec = P.record(cls) if cls else None
            if rec is None or (cls, path[-1]) in seen or cls.startswith("std::"):
                continue
            seen.add((cls, path[-1]))
            if path in recs or self.reference(path):
                continue
            for f in rec["fields"]:
                q = path + (f["n"],)
                if (cls, f["n"]) in self.EXEMPT:
                    continue
                used = any(k is not None and (k[:len(q)] == q) for k in known)
                verdict[(cls, f["n"])] = verdict.get((cls, f["n"])) or (q if used else None)
                if used:
                    todo.append((q, None))
        for (cls, fn), q in sorted(verdict.items()):
            rep.judge("covered", q is not None, "%s::%s" % (cls, fn), "%s::%s" % (cls, fn),
                      "the export never writes %s::%s" % (cls, fn), pp(q) if q else None)

    def reference(self, path):
        return any(alt.kind == "lookup" for _, asg in self.asg_of(path) for a in asg for alt in a.alts) and \
            not any(alt.kind == "obj" for _, asg in self.asg_of(path) for a in asg for alt in a.alts)

    def rec_path(self, n):
        for v in n.extra.get("vals", ()):
            if isinstance(v, Term):
                m = model_path(v)
                if m is not None:
                    return m
        return None

    def recursion(self):
        """Sub-groups and history entries go through the same code at the place they are read from."""
        rep, E, IV = self.rep, self.E, self.IV
        ex = collections.defaultdict(list)
        for n in E.r.by("rec"):
            p = None
            for v in n.extra.get("vals", ()):
                if isinstance(v, Term) and p is None:
                    p = E.place(v)
            m = self.rec_path(n)
            if p is None or m is None:
                rep.und("nested", at(n), "%s not understood" % n.name)
                continue
            ex[p].append((m, n))
        im = collections.defaultdict(list)
        for s in IV.stores:
            root, path = s["lv"].args
            if root.op != "obj" or root.args[0] not in IV.path_of or not all(isinstance(x, str) for x in path):
                continue
            for g, x, extra in IV.elements(s["v"]):
                if x.op == "rec":
                    nd = [n for n in IV.r.by("rec") if T("ev", n.id) in x.args or any(
                        isinstance(k, Term) and k.op == "ev" and k.args[0] == n.id for k in x.args)]
                    for n in nd:
                        p = None
                        for v in n.extra.get("vals", ()):
                            if isinstance(v, Term) and p is None:
                                p = IV.place(v, n.facts)
                        im[p].append((IV.path_of[root.args[0]] + tuple(path) + extra, n, s))
        for p, lst in sorted(ex.items()):
            cs = set()
            for m, n in lst:
                for F in cases(n.facts):
                    cs.add(frozenset(self.residual(None, T("empty"), F)))
            if not self.covers(cs):
                best = min(cs, key=len)
                rep.bad("always-written", pl(p), at(lst[0][1]), "%s is written only if %s" % (
                    pp(lst[0][0]), " and ".join(sorted(show(f, 6) for f in best))))
            for m, n in lst:
                got = im.get(p)
                if not got:
                    rep.bad("nested", pl(p), at(n), "%s is written at %s but nothing is read from there" % (pp(m), pl(p)))
                    continue
                for m2, n2, s in got:
                    key = "%s@%s" % (pp(m), pl(p))
                    rep.judge("nested", m2 == m, key, at(n2), "%s is written at %s but read into %s" % (pp(m), pl(p), pp(m2)),
                              "%s <-> %s" % (pp(m), pl(p)))
                    sc = Scenario(E, IV, n.facts)
                    self.push_ok(sc, s, p, m, n)
        for p, lst in im.items():
            if p not in ex:
                rep.bad("nested", pl(p), at(lst[0][1]), "%s is read from %s but nothing is written there" % (
                    pp(lst[0][0]), pl(p)))

    def push_ok(self, sc, s, p, m, n):
        fs = s["facts"]
        other = set()
        for g in fs:
            if any(x.op == "rec" for x in subterms(g)):
                self.rep.bad("kept", pp(m), at(s["loc"]), "the object read from %s is kept only if %s" % (pl(p), show(g, 5)))
                return
            if not relevant(g, self.IV, s["loops"]):
                continue
            e = sc.ev(g, fs)
            if e is False:
                self.rep.bad("kept", pp(m), at(s["loc"]), "%s is written at %s (%s) but the object read is dropped because %s" % (
                    pp(m), pl(p), at(n), show(g, 5)))
                return
            if e is None:
                other |= {q for q in places_in(g, self.IV, fs, deep=False) if q[:len(p)] != p or True}
        other = {q for q in other if q != p and p[:len(q)] != q}
        if other and not self.dropped_ok(m + ("x",) if m[-1] == "[]" else m, other):
            self.rep.bad("kept", pp(m), at(s["loc"]), "the object read from %s is kept only depending on %s" % (
                pl(p), ", ".join(sorted(pl(q) for q in other))))
            return
        self.rep.ok("kept", at(s["loc"]), pp(m))

    def kept(self):
        """Objects read from an element of the document are added to the model."""
        IV, E = self.IV, self.E
        for o, path in sorted(IV.path_of.items(), key=lambda x: x[1]):
            if path[-1] != "[]":
                continue
            pushes = [s for plain, par, q, s in IV.cands.get(o, ()) if par in IV.path_of and IV.path_of[par] + q == path]
            wr = [(p, n) for p, ws in E.writes.items() for n, als in ws for e in als
                  if e.kind == "attr" and e.leaf[:-1] == path]
            if not wr or not pushes:
                continue
            p, n = sorted(wr, key=lambda x: x[1].id)[0]
            for s in pushes:
                self.push_ok(Scenario(E, IV, n.facts), s, p[:-1], path, n)

    @staticmethod
    def stepping(r, L, k):
        """A value the condition looks at moves from round to round."""
        ls = [t for x in (L.cond or ()) for t in subterms(x) if t.op == "lphi" and t.args[0] == k]
        return any((r.I.lphi.get(t) or (None, None))[1] is None or any(
            v is not t and v.op != "int" for _, v in flat_alts(r.I.lphi[t][1])) for t in ls)

    def loops(self):
        rep = self.rep
        for r, view, what in ((self.E.r, self.E, "written"), (self.IV.r, self.IV, "read")):
            used = {}
            ns = [n for ws in self.E.writes.values() for n, _ in ws] if view is self.E else []
            for n in ns + r.by("rec"):
                for k in n.loops:
                    used.setdefault(k, n)
            if view is self.IV:
                for asg in self.IV.assigns.values():
                    for a in asg:
                        for k in a.loops:
                            used.setdefault(k, a)
            for k, n in sorted(used.items()):
                L = r.I.loops.get(k)
                if L is None or L.kind in ("gen", "while"):
                    continue
                if view is self.E and self.search_loop(k):
                    continue
                if L.kind == "for" and not self.stepping(r, L, k):
                    continue            # repeats until told to stop, like a while loop
                if L.exits:
                    rep.bad("all-elements", "%s:%s" % (L.fn.split("::")[-1], k if False else what),
                            "%s:%s" % (L.file, L.line), "the loop over the elements %s can end before the last one" % what)
                else:
                    rep.ok("all-elements", "%s:%s" % (L.file, L.line), L.fn)

    def search_loop(self, k):
        """A loop that looks an object up; its result is a reference."""
        return all(not any(e.kind == "attr" for e in als) for ws in self.E.writes.values() for n, als in ws if k in n.loops) \
            and not any(k in n.loops for n in self.E.r.by("rec"))


def written_once(X):
    """A list element of the model is written as one element only."""
    rep, E = X.rep, X.E
    r = E.r
    from .rules_protect import Order, exclusive
    O = Order(r)
    for p, ws in sorted(E.writes.items()):
        by = collections.defaultdict(list)
        for n, als in ws:
            for e in als:
                if e.kind == "attr" and "[]" in e.leaf and n not in by[e.leaf]:
                    by[e.leaf].append(n)
        for leaf, ns in by.items():
            twice = None
            for i, a in enumerate(ns):
                for b in ns[i + 1:]:
                    if a.id != b.id and a.args[0] is not b.args[0] and O.before(a, b) is not None and not exclusive(a, b):
                        twice = twice or (a, b)
            if twice:
                a, b = twice
                later = b if O.before(a, b) else a
                rep.bad("written-once", "%s@%s" % (pp(leaf), pl(p)), at(later), "%s is written to two elements %s for one object" % (
                    pp(leaf), pl(p)))
            else:
                rep.ok("written-once", at(ns[0]), "%s@%s" % (pp(leaf), pl(p)))


def time_range(X):
    """A formatted year comes back only when it has at most four digits and no sign; other times must be refused."""
    rep, E = X.rep, X.E
    done = {}
    for p, ws in sorted(E.writes.items()):
        for n, als in ws:
            fm = [o for e in als if e.kind == "attr" for o in e.ops if o[0] == "time"]
            if not fm or not any("%Y" in (o[1] or "") for o in fm):
                continue
            sf = {x for a in n.args if isinstance(a, Term) for x in subterms(a) if x.op == "strf" and x.args[0].op in ("gm", "local")}
            for e in als:
                if e.kind != "attr" or not any(o[0] == "time" for o in e.ops):
                    continue
                for x in sorted(sf, key=lambda t: t.id):
                    tm = x.args[0]
                    if model_path(strip_casts(tm.args[0])) != e.leaf:
                        continue
                    bad, und = [], False
                    for year, t in ((8100, 253402300800), (67000, 2051222400000), (-1901, -62167219201), (-5000, -160000000000)):
                        ev = []
                        for f in n.facts | e.g:
                            if f.op == "truthy" and f.args[0].op == "okt":
                                continue
                            ys = [y for y in subterms(f) if y.op == "fld" and y.args[0] is tm]
                            if not ys and not any(y is tm.args[0] for y in subterms(f)):
                                continue
                            m = {y: year for y in ys if y.args[1] == "tm_year"}
                            m[strip_casts(tm.args[0])] = t
                            m[tm.args[0]] = t
                            ev.append(decide.evalnum(f, m))
                        if 0 in ev:
                            continue
                        if None in ev:
                            und = True
                        else:
                            bad.append(year + 1900)
                    key = "%s@%s" % (pp(e.leaf), pl(p))
                    rep.judge("time-range", None if und and not bad else not bad, key, at(n),
                              "%s is written with the year %s, which the import does not read back" % (pp(e.leaf), bad and bad[0]), key)


def document(X):
    """The whole document is written and parsed with inverse options."""
    rep = X.rep
    ESC, NOESC = 0x10, 0x10            # pugi::parse_escapes, pugi::format_no_escapes

    def num(n, k):
        a = n.args[k] if len(n.args) > k else None
        return a.args[0] if isinstance(a, Term) and a.op == "int" else None
    saves, loads = X.E.r.by("xsave"), X.IV.r.by("xload")
    enc = set()
    for n in saves:
        f = num(n, 3)
        rep.judge("document", None if f is None else not f & NOESC, "save:escapes", at(n),
                  "the document is written without escaping markup characters in texts", "saved with escapes")
        enc.add(num(n, 4))
    for n in loads:
        f = num(n, 1)
        rep.judge("document", None if f is None else bool(f & ESC), "load:escapes", at(n),
                  "character references are not resolved when the document is parsed", "loaded with escapes")
        k = num(n, 2)
        for w in enc:
            ok = None if k is None or w is None else k == 0 or (w or 1) == k
            rep.judge("document", ok, "encoding", at(n), "the document is written in encoding %s but parsed as encoding %s" % (w, k),
                      "encoding")
    for r, what in ((X.E.r, "export"), (X.IV.r, "import")):
        for n in r.by("ext"):
            if n.name.startswith("pugi::"):
                f = n.name.split("::")[-1]
                if f.startswith("remove_"):
                    rep.bad("document", "%s:%s" % (what, f), at(n), "the %s removes part of the document again" % what)
                else:
                    rep.und("document", at(n), "the %s uses %s, which is not modelled" % (what, n.name))


def xml_roundtrip(c, rep):
    """P01"""
    rep.rule("document", "the document is saved and loaded with inverse options (escapes, encoding)")
    rep.rule("time-range", "a time is written only with a year of at most four digits and without sign, as the import reads it")
    rep.rule("written-once", "the elements of a list are written once each")
    rep.rule("read-back", "for every document place an attribute is written to, and every combination of conditions it is "
             "written under, the import's store to that attribute takes the value from that place through the inverse "
             "encoding; numeric kinds hold every value of the attribute's type")
    rep.rule("stand-in", "where a constant is written instead of an attribute (e.g. the 'never' time), the import restores the "
             "value the attribute has in that case")
    rep.rule("computed", "where a computed value is written, it equals the attribute the import fills from that place")
    rep.rule("written", "every attribute the import fills from the document is written by the export")
    rep.rule("flags", "attributes that are exported by the form of the document only (protected, compressed) are restored from "
             "that form")
    rep.rule("references", "objects referenced by identifier are found again in a pool keyed by the same identifier")
    rep.rule("null-reference", "a reference that is null at export is null after import")
    rep.rule("always-written", "the conditions under which an attribute is written cover every case in which its object exists")
    rep.rule("own-value", "chosen values of an attribute (usual ones, and those next to every constant the code compares it "
             "with) come back: replay of the export's and import's conditions on the attribute itself")
    rep.rule("covered", "every member of the model classes is part of the document")
    rep.rule("nested", "sub-groups and history entries are written and read by the same code at the same places")
    rep.rule("kept", "an object read from an element is added to the model")
    rep.rule("all-elements", "the loops over elements do not end early")
    X = XmlCheck(c, rep)
    X.readback()
    X.consts()
    X.computed()
    X.written()
    X.flags()
    X.refs()
    X.refs_kept()
    X.nulls()
    X.values()
    X.always()
    X.covered()
    X.recursion()
    written_once(X)
    time_range(X)
    document(X)
    X.kept()
    X.loops()
