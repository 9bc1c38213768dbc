"""P02: record fields of a KDB export against the record fields its import reads."""
import collections
import itertools
import types

from . import decide, wire
from .canon import *
from .core import at as at_
from .rules_xml import Types, model_path, width
from .terms import *

EXPORT, IMPORT = "keepass::KdbFile::Export", "keepass::KdbFile::Import"
MODEL = ("keepass::Group", "keepass::Entry", "keepass::Entry::Attachment", "keepass::Binary")


def at(n):
    """Location outside the generic stream helpers."""
    if not isinstance(n, tuple) and n.stack:
        for q, f, l in reversed(n.stack):
            if f not in ("io.hh", "io.cc"):
                # the call inside this function is the location of the frame below it
                i = n.stack.index((q, f, l))
                return "%s:%s" % (f, n.stack[i][2]) if i + 1 < len(n.stack) and False else "%s:%s (%s)" % (f, l, q.split("::")[-1])
    return at_(n)


def short(c):
    return c.split("::")[-1] if c else "?"


def name(a):
    return "%s.%s" % (short(a[0]), ".".join(a[1])) if a else "?"


class Names:
    """Attributes named relative to the closest model object that holds them."""

    def __init__(self, c):
        self.c, self.P, self.T = c, c.P, Types(c.P)

    def walk(self, cls, path):
        own, rel = cls, ()
        t = None
        cur = cls
        for x in path:
            if x.startswith("["):
                t = t.args[0] if t is not None and t.args else None
                if t is None:
                    return None
                cur = self.T.cls(t)
                if cur in MODEL:
                    own, rel = cur, ()
                continue
            t = self.fieldtype(cur, x)
            if t is None:
                return None
            rel += (x,)
            cur = self.T.cls(t)
            if cur in MODEL:
                own, rel = cur, ()
        return own, rel

    def fieldtype(self, cls, f):
        rec = self.P.record(cls) if cls else None
        todo = [rec] if rec else []
        while todo:
            r = todo.pop()
            for x in r["fields"]:
                if x["n"] == f:
                    return x["t"]
            todo += [self.P.record(b.r) for b in r["bases"] if b.r and self.P.record(b.r)]
        return None

    def attr(self, t):
        """(class, field path) of an attribute below the exported database."""
        p = model_path(t)
        if not p or len(p) < 2:
            return None
        a = self.walk("keepass::Database", p[1:])
        return a if a and a[1] and a[0] in MODEL else None

    def type_of(self, a):
        cur, t = a[0], None
        for x in a[1]:
            t = self.fieldtype(cur, x)
            if t is None:
                return None
            cur = self.T.cls(t)
        return t


class Field:
    """One record field as written: tag, size, payload parts."""

    def __init__(self, tag, tagn, size, sizen, parts, first):
        self.tag, self.tagn, self.size, self.sizen, self.parts, self.first = tag, tagn, size, sizen, parts, first


class Writer:
    """The fields an export writes, recovered by following its writes in order."""

    def __init__(self, c, names):
        self.c, self.N = c, names
        r = self.r = normalised(c.root(EXPORT))
        by = collections.defaultdict(list)
        for n in r.by("swrite"):
            by[n.args[0]].append(n)
        cand = {s: [n for n in ns if n.loops and names.attr(strip(n.args[1]))] for s, ns in by.items()}
        self.sid = max(cand, key=lambda s: len(cand[s])) if cand else None
        self.fields, self.problems, self.odd = [], [], []
        if self.sid is None or not cand[self.sid]:
            self.sid = None
            return
        self.puts = [n for n in r.by("sput") if n.args[0] is self.sid]
        R = wire.Records(r, self.sid)
        self.R = R
        ids = {n.id for n in R.writes}
        heads = [n for n in R.writes if not (r.back(n.id) & ids)]
        # writes that can come first: reachable from the start without passing another write
        first = set()
        seen, todo = set(), [r.start().id]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in ids:
                first.add(x)
                continue
            todo += list(r.succ[x])
        self.heads = first
        self.seen = set()
        todo = [(i, "tag") for i in sorted(first)]
        while todo:
            i, st = todo.pop()
            if (i, st) in self.seen:
                continue
            self.seen.add((i, st))
            todo += [(j, "tag") for j in self.field(i)]

    def field(self, i):
        r = self.r
        n = r.nodes[i]
        t, k = strip(n.args[1]), strip(n.args[2])
        if t.op != "int" or k.op != "int":
            self.odd.append(n)
            return []
        if k.args[0] != 2:
            self.problems.append((n, "tag-width", "a field number is expected here (two bytes) but %s bytes are written" % show(k, 3)))
            return []
        tag = t.args[0] & 0xffff
        out = []
        nx = sorted(self.R.next[i])
        if not nx:
            self.problems.append((n, "no-size", "field number %d is not followed by a size" % tag))
        for j in nx:
            m = r.nodes[j]
            s, k = strip(m.args[1]), strip(m.args[2])
            if k.op != "int" or k.args[0] != 4:
                self.problems.append((m, "size-width", "the size of field %d is expected here (four bytes) but %s bytes are written" % (
                    tag, show(k, 3))))
                continue
            out += self.payload(tag, n, s, m)
        return out

    def payload(self, tag, n, s, m):
        """Follows the payload of one field; returns the nodes where the next field starts."""
        r = self.r
        if s.op == "int" and s.args[0] == 0:
            self.fields.append(Field(tag, n, s, m, [], m))
            return sorted(self.R.next[m.id])
        out = []
        for j in sorted(self.R.next[m.id]) or [None]:
            if j is None:
                self.problems.append((m, "no-payload", "field %d announces %s bytes but none are written" % (tag, show(s, 4))))
                continue
            parts, cur, total = [], {j}, INT(0)
            ok = False
            while len(cur) == 1 and len(parts) < 6:
                p = r.nodes[next(iter(cur))]
                parts.append(p)
                total = mk_bin("+", total, strip(p.args[2]), "u64") if total is not INT(0) else strip(p.args[2])
                d = same_size(s, total)
                if d is not False:
                    ok = True
                    if d is None:
                        self.odd.append(p)
                    break
                if s.op == "int" and total.op == "int" and total.args[0] > s.args[0]:
                    break
                if s.op != "int" and total.op != "int":
                    break
                cur = self.R.next[p.id]
            if not ok:
                self.problems.append((m, "size:%d" % tag, "field %d announces %s bytes but %s bytes are written after it" % (
                    tag, show(s, 5), show(total, 5))))
                continue
            self.fields.append(Field(tag, n, s, m, parts, parts[0]))
            out += sorted(self.R.next[parts[-1].id])
        return out


def strip(t):
    return strip_casts(t)


def same_size(a, b):
    if a is b:
        return True
    d = decide.can_differ(a, b)
    return None if d is None else not d


# ---------------------------------------------------------------------------
# bits
class Leaf:
    def __init__(self, key, base, off):
        self.key, self.base, self.off = key, base, off


def calendar(t):
    """('tm_year', source term, kind, offset) of a component of a broken-down time plus a constant."""
    off = 0
    while True:
        if t.op == "cast":
            t = t.args[1]
            continue
        if t.op == "bin" and t.args[0] in ("+", "-"):
            a, b = t.args[1], t.args[2]
            if b.op == "int":
                off += b.args[0] if t.args[0] == "+" else -b.args[0]
                t = a
                continue
            if a.op == "int" and t.args[0] == "+":
                off += a.args[0]
                t = b
                continue
        break
    if t.op == "fld" and t.args[0].op in ("local", "gm") and t.args[1].startswith("tm_"):
        return t, off
    return None


def tyw(ty):
    w = width(ty) if isinstance(ty, str) else None
    return w or (64, False)


def bits(t, leafbits):
    """Provenance of the 64 low bits of an integer expression: 0, 1, (leaf, bit) or None for unknown."""
    o = t.op
    cal = calendar(t)
    if cal is not None:
        w = leafbits(cal)
        return [((cal[0], cal[1]), i) if i < w else 0 for i in range(64)]
    if o == "int":
        return [(t.args[0] >> i) & 1 for i in range(64)]
    if o == "cast":
        b = bits(t.args[1], leafbits)
        if b is None:
            return None
        return fit(b, t.args[0])
    if o == "bin":
        op, x, y = t.args[0], t.args[1], t.args[2]
        ty = t.args[3] if len(t.args) > 3 else None
        k = y.args[0] if y.op == "int" else None
        a = bits(x, leafbits)
        if a is None:
            return None
        if op in ("<<", "*", ">>", "/", "%") and k is not None:
            if op in ("*", "/", "%"):
                if k <= 0 or k & (k - 1) or (op != "*" and a[63] != 0):
                    return None
                sh = k.bit_length() - 1
                if op == "%":
                    return [a[i] if i < sh else 0 for i in range(64)]
                op, k = ("<<" if op == "*" else ">>"), sh
            if op == "<<":
                return fit([0] * k + a[:64 - k], ty)
            return a[k:] + [a[63]] * k
        b = bits(y, leafbits)
        if b is None:
            return None
        out = []
        for p, q in zip(a, b):
            if op == "&":
                out.append(0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else p if p == q else None)
            elif op in ("|", "^", "+"):
                if p == 0:
                    out.append(q)
                elif q == 0:
                    out.append(p)
                elif op == "|" and (p == 1 or q == 1):
                    out.append(1)
                elif op == "|" and p == q:
                    out.append(p)
                elif op == "+":
                    return None
                else:
                    out.append(None)
            else:
                return None
        return fit(out, ty)
    return None


def fit(b, ty):
    w, sg = tyw(ty)
    if w >= 64:
        return b
    return b[:w] + ([b[w - 1]] * (64 - w) if sg else [0] * (64 - w))


LIMITS = {"tm_sec": (0, 60), "tm_min": (0, 59), "tm_hour": (0, 23), "tm_mday": (1, 31), "tm_mon": (0, 11),
          "tm_year": (-(1 << 31), (1 << 31) - 1)}
BOUND = sorted({s * x + d for x in [0, 1, 60, 100, 1000, 1900, 1970, 2999, 4095, 9999, 16383] + [1 << k for k in range(32)]
                for d in (-1901, -1900, -1899, -1, 0, 1) for s in (1, -1)})


def limits(base, facts):
    """Range of a broken-down time component under the path facts."""
    lo, hi = LIMITS.get(base.args[1], (-(1 << 31), (1 << 31) - 1))
    fs = [f for f in facts if base in set(subterms(f))]
    extra = set()
    for f in fs:
        for x in subterms(f):
            if x.op == "int":
                for d in (-1901, -1900, -1899, -1, 0, 1, 1899, 1900, 1901):
                    extra |= {x.args[0] + d, d - x.args[0]}
    ok = []
    for v in sorted({x for x in set(BOUND) | extra | {lo, hi} if lo <= x <= hi}):
        if not any(decide.evalnum(f, {base: v}) == 0 for f in fs):
            ok.append(v)
    return (min(ok), max(ok)) if ok else (lo, hi)


def byte_of(t, k):
    """Element k of an array value."""
    while True:
        if t.op == "upd":
            p = t.args[1]
            i = p.args[0] if p.op == "idx" and p.args else None
            i = i.args[0] if isinstance(i, Term) and i.op == "int" else i
            if not isinstance(i, int):
                return None
            if i == k:
                return t.args[2]
            t = t.args[0]
            continue
        if t.op == "arr":
            vs = t.args[0]
            if isinstance(vs, tuple) and k < len(vs):
                x = vs[k]
                return x if isinstance(x, Term) else INT(x)
            return INT(0) if isinstance(vs, tuple) else None
        if t.op in ("zeros", "empty"):
            return INT(0)
        return None


# ---------------------------------------------------------------------------
class Reader:
    """What the import stores from each record field."""

    def __init__(self, c, names):
        self.c, self.N = c, names
        r = self.r = c.root(IMPORT)
        self.tags = wire.tag_index(r)
        self.stores = []          # (class, attr path, value, store, (tag event, tag))
        self.tagev = {}           # tag event -> class
        for s in r.I.stores.values():
            root, path = s["lv"].args
            if root.op != "obj" or not s["loops"]:
                continue
            tg = self.tag(s)
            for o in self.objects(root.args[0]):
                if o.args[1] not in MODEL or not all(isinstance(x, str) for x in path):
                    continue
                for x, v in expand(path, s["v"]):
                    self.stores.append((o.args[1], x, v, s, tg, o))
        cnt = collections.defaultdict(collections.Counter)
        for cls, p, v, s, tg, o in self.stores:
            if tg and cls in ("keepass::Group", "keepass::Entry"):
                cnt[tg[0]][cls] += 1
        self.tagev = {e: k.most_common(1)[0][0] for e, k in cnt.items()}

    def tag(self, s):
        n = types.SimpleNamespace(id=-1, loops=s["loops"], facts=s["facts"])
        e = wire.eq_consts(self.r, n)
        ev = {t[0] for t in self.tags.values()}
        for (i, path), ks in e.items():
            if i in ev and len(ks) == 1:
                return i, next(iter(ks))
        return None

    def objects(self, o):
        out, seen, todo = [], set(), [o]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "new":
                out.append(x)
            elif x.op == "lphi":
                todo += [y for y in self.r.I.lphi.get(x, ()) if y is not None]
            elif x.op == "phi":
                todo += [v for _, v in x.args[0]]
        return out


def expand(path, v):
    """Leaf assignments of a structured value."""
    if v.op == "struct" and isinstance(v.args[2], tuple) and v.args[2]:
        for f, x in v.args[2]:
            for y in expand(path + (f,), x):
                yield y
        return
    yield path, v


TIME_OK = "time"


def unchanged(x, s):
    """The fact says that the value stored differs from what the place already holds."""
    if x.op != "not" or x.args[0].op not in ("eq", "equal"):
        return False
    a, b = x.args[0].args[:2]
    for p, q in ((a, b), (b, a)):
        if q.op == "lphi":
            q = q.args[1]
        if strip_casts(p) is strip_casts(s["v"]) and (q is s["lv"] or (
                q.op == "fld" and s["lv"].args[1] and q.args[1] == s["lv"].args[1][-1])):
            return True
    return False


def left(r, x, loops):
    """The condition says no more than that a counting loop was gone through to its end."""
    for t in subterms(x):
        if t.op == "lphi" and t.args[0] not in loops and t.args[0] in r.I.loops:
            L = r.I.loops[t.args[0]]
            if mk_not(x) in (L.cond or ()) and not L.exits:
                return True
    return False


class Kdb:
    def __init__(self, c, rep):
        self.c, self.rep = c, rep
        self.N = Names(c)
        self.W, self.Rd = Writer(c, self.N), Reader(c, self.N)

    # -- import values
    def imported(self, v):
        """(kind, detail) of a stored value: int / rest / string / time / const."""
        I = self.Rd.r.I
        v = strip(v)
        if v.op == "rd":
            k = strip(v.args[2])
            return ("raw", k.args[0] if k.op == "int" else None, v)
        if v.op == "rest":
            return ("rest", None, v)
        if v.op == "lphi":
            e, b = I.lphi.get(v, (None, None))
            L = I.loops.get(v.args[0])
            if e is not None and b is not None and e.op == "empty" and b.op == "vec" and b.args[0] is v:
                src = [x for x in subterms(b.args[1]) if x.op == "rest"]
                if src and L is not None:
                    nz = [p for n in self.Rd.r.by("push") if n.args[1] is b.args[1]
                          for p in n.facts if p.op == "not" and p.args[0].op == "eq" and INT(0) in p.args[0].args and
                          b.args[1] in [strip(x) for x in p.args[0].args]]
                    return ("string" if nz and L.exits else "chars", None, src[0])
            return None
        ls = [strip(x) for g, x in flatten(I, v)]
        if any(x.op in ("mktime", "timegm") for x in ls):
            return ("time", None, v)
        if all(x.op in ("int", "empty", "null", "zeros", "randombytes") for x in ls):
            return ("const", None, v)
        if v.op == "new":
            return ("object", None, v)
        return None

    def reads(self):
        """tag key (class, tag) -> list of (attribute or '#local', kind, detail, store)."""
        out = collections.defaultdict(list)
        for cls, p, v, s, tg, o in self.Rd.stores:
            if tg is None or tg[0] not in self.Rd.tagev:
                continue
            k = self.imported(v)
            if k and k[0] in ("const", "object"):
                continue
            a = self.N.walk(cls, p)
            out[(self.Rd.tagev[tg[0]], tg[1])].append((a, k, s, v))
        return out

    def record_of(self, f):
        """Class of the record a written field belongs to: by the element loops around it."""
        return None

    def run(self):
        rep, W = self.rep, self.W
        rep.rule("framing", "every field an export writes is a two byte number and a four byte size followed by exactly that many bytes")
        rep.rule("same-attribute", "a field number carries the same attribute of the same kind of object in the export and in the import")
        rep.rule("encoding", "the import decodes a field with the inverse of the encoding the export used")
        rep.rule("complete", "every attribute the import fills from a field is written by the export in that field")
        rep.rule("always", "a field is left out only when the attribute is empty")
        rep.rule("kept", "whatever was written in a field is stored when it is read, and objects read from fields are added to their entry")
        rep.rule("terminated", "a record ends with the end field the import stops at, and fields are written only inside records")
        rep.rule("order", "all group records precede all entry records on both sides")
        rep.rule("time", "broken-down time components come back bit by bit, and every value written is accepted")
        if W.sid is None:
            rep.und("framing", "src/kdb.cc", "no content stream found in %s" % EXPORT)
            return
        for n in W.odd:
            rep.und("framing", at(n), "write not understood: %s" % show(n.args[1], 3))
        for n in W.puts:
            rep.und("framing", at(n), "single byte write not understood")
        for n, key, msg in W.problems:
            rep.bad("framing", key, at(n), msg)
        if W.problems:
            return
        for f in W.fields:
            rep.ok("framing", at(f.tagn), "field %d, %s bytes" % (f.tag, show(f.size, 4)))
        recs = self.split()
        if recs is None:
            return
        reads = self.reads()
        self.compare(recs, reads)
        self.kept(recs)
        self.orders(recs)

    # -- records
    def split(self):
        """Groups the written fields into records by class: the fields between two end fields of one loop nest."""
        W, rep, r = self.W, self.rep, self.W.r
        by = collections.defaultdict(list)
        for f in W.fields:
            by[f.tagn.loops].append(f)
        recs = collections.defaultdict(list)
        end = self.end_tags()
        votes = {}
        # nodes of one record: same loop nest of the tag writes, split by class of the attributes they carry
        for loops, fs in by.items():
            comp = self.components(fs, end)
            for cs in comp:
                cl = collections.Counter()
                for f in cs:
                    for p in f.parts:
                        a = self.source(p.args[1])
                        if a:
                            cl["keepass::Group" if a[0] == "keepass::Group" else "keepass::Entry"] += 1
                if not cl:
                    for f in cs:
                        rep.bad("same-attribute", "const:%d" % f.tag, at(f.tagn), "field %d carries no attribute" % f.tag)
                    continue
                recs[cl.most_common(1)[0][0]] += cs
        return recs

    def split_(self):
        if not hasattr(self, "_recs"):
            self._recs = self.split()
        return self._recs

    def components(self, fs, end):
        """Connected runs of fields, cut after end fields."""
        idx = {f.tagn.id: f for f in fs}
        par = {f.tagn.id: f.tagn.id for f in fs}

        def find(x):
            while par[x] != x:
                x = par[x]
            return x
        for f in fs:
            if f.tag in end:
                continue
            last = f.parts[-1] if f.parts else f.sizen
            for j in self.W.R.next[last.id]:
                if j in idx:
                    par[find(j)] = find(f.tagn.id)
        g = collections.defaultdict(list)
        for f in fs:
            if f not in g[find(f.tagn.id)]:
                g[find(f.tagn.id)].append(f)
        return list(g.values())

    def end_tags(self):
        """Field numbers at which the import returns the record: those whose facts hold at the exit of the field loop."""
        r = self.Rd.r
        out = {}
        for e, cls in self.Rd.tagev.items():
            consts = {k for (i, k) in self.Rd.tags.values() if i == e}
            # the tag under which the finished object leaves the field loop
            ks = set()
            for n in r.by("push") + r.by("mapput"):
                if set(n.loops) >= set(r.nodes[e].loops):
                    continue
                for x in n.facts:
                    if x.op == "eq":
                        for p, q in (x.args, x.args[::-1]):
                            b, path = rd_of(strip(p))
                            if b is not None and wire.ev_of(b) is not None and wire.ev_of(b).args[0] == e and q.op == "int":
                                ks.add(q.args[0])
            out[cls] = ks
        return {k for s in out.values() for k in s} or {0xffff}

    def source(self, v):
        p = self.path(v)
        return self.N.walk("keepass::Database", p[1:]) if p else None

    def path(self, v):
        v = strip(v)
        if self.N.attr(v):
            return model_path(v)
        ps = {model_path(x): x for x in subterms(v) if x.op == "fld" and self.N.attr(x)}
        ps.pop(None, None)
        top = [p for p in ps if not any(q != p and q[:len(p)] == p for q in ps)]
        return top[0] if len(top) == 1 else None

    def compare(self, recs, reads):
        rep, Rd = self.rep, self.Rd
        locs = self.locals_()
        written = collections.defaultdict(list)
        for cls, fs in recs.items():
            for f in fs:
                written[(cls, f.tag)].append(f)
        ends = self.end_tags()
        for cls, fs in recs.items():
            rep.judge("terminated", any(f.tag in ends for f in fs), "end:" + short(cls), at(fs[0].tagn),
                      "no end field is written for a %s record" % short(cls), "end field of %s" % short(cls))
        for (cls, tag), fs in sorted(written.items()):
            rd = reads.get((cls, tag), [])
            for f in fs:
                key = "%s:%d" % (short(cls), tag)
                if tag in ends:
                    continue
                if not f.parts:
                    continue
                v = f.parts[0].args[1]
                a = self.source(v)
                if len(f.parts) != 1:
                    rep.und("encoding", at(f.tagn), "field %s is written in %d parts" % (key, len(f.parts)))
                    continue
                if a is None:
                    # the position of the record in the tree: both sides use a value that is not an attribute
                    rep.judge("same-attribute", True if (cls, tag) in locs else (False if rd else None), key + ":position", at(f.tagn),
                              "field %s holds no attribute in the export but is read into %s" % (
                                  key, ", ".join(name(x[0]) for x in rd) or "nothing"), "%s: position" % key)
                    if (cls, tag) in locs:
                        n, s = locs[(cls, tag)]
                        k = strip(f.parts[0].args[2])
                        rep.judge("encoding", k is INT(n) if k.op == "int" else None, key, at(f.tagn),
                                  "field %s is written with %s bytes but read with %d" % (key, show(k, 3), n), key)
                    continue
                if not rd:
                    if (cls, tag) in locs:
                        rep.bad("same-attribute", key, at(f.tagn), "%s is written in field %s, which the import reads as the position of the record" % (
                            name(a), key))
                    else:
                        rep.bad("same-attribute", key, at(f.tagn), "%s is written in field %s but the import stores nothing from it" % (name(a), key))
                    continue
                for b, k, s, iv in rd:
                    if b is None:
                        rep.und("same-attribute", at(s["loc"]), "target of field %s not understood" % key)
                        continue
                    rep.judge("same-attribute", a == b, key, at(f.tagn), "field %s is written from %s but read into %s" % (
                        key, name(a), name(b)), "%s: %s" % (key, name(a)))
                    if a == b:
                        self.encoding(key, f, a, k, s, iv)
        back = collections.defaultdict(set)
        for (cls, tag), fs in written.items():
            for f in fs:
                for p in f.parts:
                    back[(cls, tag)].add(self.source(p.args[1]))
        for (cls, tag), rd in sorted(reads.items()):
            for b, k, s, iv in rd:
                if b is None:
                    continue
                rep.judge("complete", (cls, tag) in written, "%s:%d" % (short(cls), tag), at(s["loc"]),
                          "%s is read from field %d of a %s record, which the export never writes" % (name(b), tag, short(cls)),
                          name(b))
        for (cls, tag), (n, s) in sorted(locs.items()):
            rep.judge("complete", (cls, tag) in written, "%s:%d" % (short(cls), tag), at(s),
                      "the position of a %s record is read from field %d, which the export never writes" % (short(cls), tag),
                      "position of %s" % short(cls))
        self.always(recs, ends)

    def locals_(self):
        """Fields the import keeps in local variables (positions): (class, tag) -> (bytes, where)."""
        out = {}
        r = self.Rd.r
        used = {x for n in r.by("push") + r.by("mapput") + r.by("find") for a in n.args if isinstance(a, Term) for x in subterms(a)
                if x.op == "lphi"}
        for l, (e, b) in r.I.lphi.items():
            if b is not None:
                used |= {x for x in subterms(b) if x.op == "lphi" and x.args[0] != l.args[0]}
        for l in used:
            eb = r.I.lphi.get(l)
            if not eb or eb[1] is None:
                continue
            for g, x in flatten(r.I, eb[1]):
                x = strip(x)
                if x.op != "rd":
                    continue
                ev = wire.ev_of(x)
                tg = self.Rd.tags.get(ev.args[0]) if ev is not None else None
                if tg is None or tg[0] not in self.Rd.tagev:
                    continue
                k = strip(x.args[2])
                if k.op == "int":
                    out[(self.Rd.tagev[tg[0]], tg[1])] = (k.args[0], (r.nodes[ev.args[0]].file, r.nodes[ev.args[0]].line))
        return out

    # -- encodings
    def encoding(self, key, f, a, k, s, iv):
        rep = self.rep
        p = f.parts[0]
        v, n = p.args[1], strip(p.args[2])
        where = at(f.tagn)
        if k is None:
            if isinstance(s["v"], Term) and "data_" in name(a) and any(x.op == "ctext" for x in subterms(s["v"])):
                rep.bad("encoding", key, at_(s["loc"]), "binary data in field %s is cut at its first zero byte" % key)
                return
            rds = {x for x in subterms(s["v"]) if x.op == "rd"} if isinstance(s["v"], Term) else set()
            if len(rds) == 1:
                x = rds.pop()
                b = strip(x.args[2])
                w = 8 * b.args[0] if b.op == "int" and b.args[0] in (1, 2, 4, 8) else 0
                for q in sorted({0, 1, 2, 68, 69, 100, 255, 256, 4095, 32768, 65535, 65536, 1 << 30, 1 << 31, (1 << w) - 1}):
                    if w and q < 1 << w:
                        got = decide.evalnum(s["v"], {x: q})
                        if got is not None and got != q:
                            rep.bad("encoding", key, at_(s["loc"]), "%d in field %s is stored as %d" % (q, key, got))
                            return
            rep.und("encoding", at(s["loc"]), "the value stored from field %s is not understood" % key)
            return
        plain = self.N.attr(strip(v)) is not None
        if k[0] == "raw":
            if not plain:
                rep.und("encoding", where, "field %s is not written as it is" % key)
                return
            rep.judge("encoding", n is INT(k[1]) if n.op == "int" and k[1] is not None else None, key, where,
                      "field %s is written with %s bytes but read with %s" % (key, show(n, 3), k[1]), "%s: %s bytes" % (name(a), k[1]))
            t = self.N.type_of(a)
            w = width(t) if t is not None else None
            if w and n.op == "int":
                rep.judge("encoding", n.args[0] * 8 >= w[0], key + ":width", where,
                          "%s has %d bits but only %d bytes are written" % (name(a), w[0], n.args[0]))
            self.narrowed(key, v, where, a)
            return
        if k[0] in ("string", "chars", "rest"):
            if not plain:
                rep.und("encoding", where, "field %s is not written as it is" % key)
                return
            sz = mk_size(strip(v))
            want = mk_bin("+", sz, INT(1), "u64") if k[0] == "string" else sz
            other = sz if k[0] == "string" else mk_bin("+", sz, INT(1), "u64")
            if same_size(n, strip(want)) is True:
                rep.ok("encoding", where, "%s: %s" % (name(a), k[0]))
            elif k[0] == "string":
                rep.bad("encoding", key, where, "%s is read up to a terminating zero but %s bytes are written" % (name(a), show(n, 5)))
            else:
                rep.judge("encoding", False if same_size(n, strip(other)) is True else None, key, where,
                          "all bytes of field %s are read into %s but %s bytes are written" % (key, name(a), show(n, 5)))
            return
        if k[0] == "time":
            self.time(key, f, a, s, iv)

    def narrowed(self, key, v, where, a):
        for x in subterms(v):
            if x.op == "cast" and self.N.attr(strip(x)) == a:
                w, s = width(x.args[0]), width(x.args[2]) if len(x.args) > 2 else None
                if w and s and w[0] < s[0]:
                    self.rep.bad("encoding", key + ":cast", where, "%s is narrowed to %d bits before it is written" % (name(a), w[0]))

    # -- times
    def time(self, key, f, a, s, iv):
        rep, W, Rd = self.rep, self.W, self.Rd
        where = at(f.tagn)
        n = f.parts[0]
        v = n.args[1]
        ias = list(flatten(Rd.r.I, iv))
        base = None
        for g, x in ias:
            for y in subterms(x):
                if y.op in ("mktime", "timegm"):
                    bs = [z for z in subterms(y) if z.op == "rd"]
                    if bs:
                        base = bs[0]
        if base is None or v.op != "struct":
            rep.und("time", where, "time in field %s not understood" % key)
            return
        k = strip(base.args[2])
        if k.op == "int" and strip(n.args[2]).op == "int" and k is not strip(n.args[2]):
            rep.bad("encoding", key, where, "field %s is written with %s bytes but read with %s" % (key, show(n.args[2], 3), show(k, 3)))
            return
        rep.ok("encoding", where, "%s: %s byte time" % (name(a), show(k, 3)))
        fs = dict(v.args[2])
        for combo in self.alternatives(fs):
            g, vals = combo
            self.one_time(key, n, a, s, base, ias, g, vals, where)

    def alternatives(self, fs):
        """Written alternatives of a struct whose fields are conditional."""
        items = []
        for fn, x in fs.items():
            items.append([(g, fn, y) for g, y in (alts(x) if x.op in ("phi", "many") else [(frozenset(), x)])])
        for c in itertools.product(*items):
            yield frozenset().union(*[g for g, _, _ in c]), {fn: y for _, fn, y in c}

    def one_time(self, key, n, a, s, base, ias, g, vals, where):
        rep = self.rep
        facts = frozenset(g) | n.facts
        cals = {c[0] for x in vals.values() for y in subterms(x) for c in [calendar(y)] if c}
        attrs = [x for x in {y for v in list(vals.values()) + list(g) for y in subterms(v)} if self.N.attr(x) == a]

        def sub(t):
            def f(x):
                if x.op == "at" and x.args[1].op == "int":
                    b, p = rd_of(x.args[0])
                    if b is base and len(p) == 1 and p[0] in vals:
                        y = byte_of(vals[p[0]], x.args[1].args[0])
                        return y
                b, p = rd_of(x)
                if b is base and len(p) == 1 and p[0] in vals:
                    return vals[p[0]]
                return None
            return rebuild(t, f)
        if not cals:
            # a constant stands for "no time"
            tm = [x for x in attrs if x.op == "fld"]
            if len(tm) != 1:
                rep.und("time", where, "constant time in field %s not understood" % key)
                return
            for v in (1, 2, 59, 1000, 1 << 31, 1 << 33, -2, 946684800):
                ev = [decide.evalnum(x, {tm[0]: v}) for x in g if tm[0] in set(subterms(x))]
                if 0 not in ev:
                    rep.bad("time", key + ":never", where, "%s may hold the time %d but a constant is written in its place" % (name(a), v))
                    return
            for ig, x in ias:
                fs = [sub(y) for y in ig]
                ev = [truth(y) for y in fs]
                if any(e is False for e in ev):
                    continue
                if strip(x) is INT(0):
                    rep.ok("time", where, "%s: no time" % name(a))
                    continue
                if all(e is True for e in ev if e is not None) and any(y.op in ("mktime", "timegm") for y in subterms(x)):
                    # reached unless the comparison with the constant keeps it out
                    rep.bad("time", key + ":constant", where,
                            "the constant written for %s when it holds no time is read back as a time" % name(a))
            return
        if any(c.args[0].args[0] is not None and self.N.attr(strip(c.args[0].args[0])) != a for c in cals):
            rep.bad("time", key + ":mixed", where, "components of several times are mixed in field %s" % key)
            return
        self.unset(key, a, ias, g, {strip(c.args[0].args[0]) for c in cals if c.args[0].args[0] is not None}, where)
        lim = {c: limits(c, facts) for c in cals}

        def leafbits(cal):
            lo, hi = lim[cal[0]] if cal[0] in lim else LIMITS.get(cal[0].args[1], (0, 1 << 31))
            if lo + cal[1] < 0:
                return 64
            return (hi + cal[1]).bit_length()
        conv = {"local": "mktime", "gm": "timegm"}
        for ig, x in ias:
            ms = [y for y in subterms(x) if y.op in ("mktime", "timegm")]
            if not ms:
                continue
            m = ms[0]
            st = m.args[0]
            comps = dict(st.args[2]) if st.op == "struct" else {}
            kinds = {c.args[0].op for c in cals}
            rep.judge("time", kinds == {"local" if m.op == "mktime" else "gm"}, key + ":zone", where,
                      "%s is written as %s time but read as %s time" % (name(a), "/".join(kinds), m.op), name(a) + ": time zone")
            if m.op == "mktime":
                d = comps.get("tm_isdst")
                if d is not None and d.op == "int":
                    rep.judge("time", d.args[0] < 0, key + ":dst", at(s["loc"]),
                              "daylight saving time is fixed when %s is read" % name(a), name(a) + ": daylight saving")
            for cn in ("tm_year", "tm_mon", "tm_mday", "tm_hour", "tm_min", "tm_sec"):
                cc = [c for c in cals if c.args[1] == cn]
                iv = comps.get(cn)
                if not cc or iv is None:
                    rep.judge("time", False if (iv is not None and strip(iv).op == "int") or not cc else None, key + ":" + cn, where,
                              "%s of %s is not carried by field %s" % (cn, name(a), key))
                    continue
                y, off = sub(iv), 0
                while True:
                    if y.op == "cast":
                        y = y.args[1]
                    elif y.op == "bin" and y.args[0] in ("+", "-") and y.args[2].op == "int":
                        off += y.args[2].args[0] if y.args[0] == "+" else -y.args[2].args[0]
                        y = y.args[1]
                    else:
                        break
                b = bits(y, leafbits)
                if b is None:
                    rep.und("time", where, "%s of %s not understood" % (cn, name(a)))
                    continue
                src = {z[0] for z in b if isinstance(z, tuple)}
                if None in b:
                    if len(src) and all(z[0].args[1] == cn for z in src):
                        rep.bad("time", key + ":" + cn, where, "%s of %s: %s" % (cn, name(a), self.why(lim, cn)))
                    else:
                        rep.bad("time", key + ":" + cn, where, "%s of %s is mixed with other components" % (cn, name(a)))
                    continue
                if len(src) != 1 or next(iter(src))[0].args[1] != cn:
                    rep.bad("time", key + ":" + cn, where, "%s of %s is read from the bits of %s" % (
                        cn, name(a), "/".join(sorted(z[0].args[1] for z in src)) or "nothing"))
                    continue
                leaf = next(iter(src))
                want = [(leaf, i) if i < min(64, leafbits(leaf)) else 0 for i in range(64)]
                if b != want:
                    rep.bad("time", key + ":" + cn, where, "%s of %s does not come back bit by bit: %s" % (cn, name(a), self.lost(b, want, lim, leaf)))
                    continue
                rep.judge("time", leaf[1] + off == 0, key + ":" + cn + ":offset", where,
                          "%s of %s comes back shifted by %d" % (cn, name(a), leaf[1] + off), "%s.%s" % (name(a), cn))
            self.accepted(key, a, s, ig, sub, lim, where)
            return

    def unset(self, key, a, ias, g, tms, where):
        """The value the import uses for "no time" is not written as a date."""
        for c in {strip(x) for _, x in ias if strip(x).op == "int"}:
            for tm in tms:
                ev = [decide.evalnum(x, {tm: c.args[0]}) for x in g if tm in set(subterms(x))
                      and not any(y.op in ("local", "gm") for y in subterms(x))]
                self.rep.judge("time", True if 0 in ev else (None if None in ev else False), key + ":unset", where,
                               "the import uses %d for %s when the file holds no time, but the export writes %d as a date" %
                               (c.args[0], name(a), c.args[0]), name(a) + ": no time is not written as a date")

    def why(self, lim, cn):
        for c, (lo, hi) in lim.items():
            if c.args[1] == cn:
                return "values from %d to %d are not all representable" % (lo, hi)
        return ""

    def lost(self, b, want, lim, leaf):
        for i, (x, y) in enumerate(zip(b, want)):
            if x != y:
                lo, hi = lim.get(leaf[0], (0, 0))
                return "bit %d is %s (values from %d to %d)" % (i, "dropped" if x == 0 else "wrong", lo + leaf[1], hi + leaf[1])
        return ""

    def accepted(self, key, a, s, ig, sub, lim, where):
        """The checks of the import pass for every broken-down time the export can write."""
        rep = self.rep
        for f in sorted(set(ig) | set(s["facts"]), key=lambda t: t.id):
            y = sub(f)
            if y is f:
                continue
            cs = [c for c in {c[0] for z in subterms(y) for c in [calendar(z)] if c} if c in lim]
            if any(z.op in ("mktime", "timegm") for z in subterms(y)) or (y.op == "not" and y.args[0].op == "eq" and any(
                    z.op in ("arr", "upd") for z in y.args[0].args)):
                continue
            if not cs or len(cs) > 3:
                continue
            for vals in itertools.product(*[sorted({lim[c][0], lim[c][1]} | ({LIMITS[c.args[1]][0]} if len(cs) > 1 else set()))
                                            for c in cs]):
                if any(not lim[c][0] <= v <= lim[c][1] for c, v in zip(cs, vals)):
                    continue
                if decide.evalnum(y, dict(zip(cs, vals))) == 0:
                    rep.bad("time", key + ":accepted", where, "a %s with %s can be written but the import refuses it" % (
                        name(a), ", ".join("%s = %d" % (c.args[1], v) for c, v in zip(cs, vals))))
                    return
        rep.ok("time", where, "%s: accepted" % name(a))

    # -- presence
    def always(self, recs, ends):
        """From the start of a record, its end is not reached without the field, unless the attribute is empty."""
        rep, r = self.rep, self.W.r
        for cls, fs in recs.items():
            heads = self.heads(fs, ends)
            tails = {f.tagn.id for f in fs if f.tag in ends}
            base = frozenset.intersection(*[f.tagn.facts for f in fs]) if fs else frozenset()
            if tails:
                base |= frozenset.intersection(*[r.nodes[t].facts for t in tails])
            for tag in sorted({f.tag for f in fs} - ends):
                nodes = {f.tagn.id for f in fs if f.tag == tag}
                key = "%s:%d" % (short(cls), tag)
                if nodes & heads:
                    rep.ok("always", at(r.nodes[min(nodes)]), key)
                    continue
                skip = any(tails & r.reach(h, avoid=nodes) for h in heads)
                if not skip:
                    rep.ok("always", at(r.nodes[min(nodes)]), key)
                    continue
                f = [f for f in fs if f.tag == tag][0]
                a = self.source(f.parts[0].args[1]) if f.parts else None
                ap = self.path(f.parts[0].args[1]) if f.parts else None
                bad = []
                for x in f.tagn.facts - base:
                    if any(y.op in ("good", "fail", "eof") for y in subterms(x)):
                        continue
                    if not self.presence(x, ap) and not self.enforced(x, f.tagn.facts):
                        bad.append(x)
                rep.judge("always", not bad, key, at(f.tagn), "%s is written only if %s" % (
                    name(a), " and ".join(sorted(show(x, 6) for x in bad))), key)

    def enforced(self, x, facts):
        """The export throws where the condition fails (possibly under conditions that hold here as well)."""
        nx = mk_not(x)
        return any(nx in t.facts and t.facts - {nx} <= facts for t in self.W.r.by("throw"))

    def presence(self, x, ap):
        """A condition that says the attribute (or the object holding it) is there."""
        neg = x.op == "not"
        y = x.args[0] if neg else x
        ps = [model_path(z) for z in subterms(y)]
        ps = [p for p in ps if p and len(p) > 1]
        if not ps or ap is None:
            # a constant condition on something else: not about this attribute
            return not any(z.op in ("par", "new") for z in subterms(y))
        p = max(ps, key=len)
        pre = lambda p, q: q[:len(p)] == p
        gen = tuple("[]" if z.startswith("[") else z for z in ap)
        own = tuple("[]" if z.startswith("[") else z for z in p)
        if not pre(own, gen):
            return False
        if y.op == "truthy" and not neg:
            return True
        if y.op == "eq":
            k = [z for z in y.args if z.op == "int"]
            o = [z for z in y.args if z.op != "int"]
            if neg and k and k[0].args[0] == 0 and strip(o[0]).op == "size":
                return True
        if y.op == "lt" and not neg and y.args[0].op == "int" and y.args[0].args[0] == 0 and strip(y.args[1]).op == "size":
            return True
        if y.op == "equal" and neg:
            return any(z.op in ("empty", "null") for z in y.args if isinstance(z, Term))
        return False

    def heads(self, fs, ends):
        ids = {f.tagn.id for f in fs}
        prev = set()
        for f in fs:
            if f.tag in ends:
                continue
            last = f.parts[-1] if f.parts else f.sizen
            prev |= set(self.W.R.next[last.id])
        return ids - prev or {min(ids)}

    # -- conditions of the import
    def residual(self, facts, tg, size):
        """Conditions of a store beyond the field number and the success of the reads; None when one cannot hold."""
        r = self.Rd.r
        ev = r.nodes[tg[0]]
        nxt = self.size_read(tg[0])
        out = set()

        def one(x):
            if size is None:
                return None
            if x.op == "rd" and nxt is not None and wire.ev_of(x) is not None and wire.ev_of(x).args[0] == nxt:
                return size
            if x.op == "size" and x.args[0].op == "rest" and x.args[0].args[0] is not ev.args[0]:
                return size
            return None

        def sub(t):
            return rebuild(t, one)
        for x in facts - ev.facts:
            if any(y.op in ("good", "fail", "eof", "gcount", "sstr", "tell") for y in subterms(x)):
                continue
            evs = {wire.ev_of(y).args[0] for y in subterms(x) if y.op == "rd" and wire.ev_of(y) is not None}
            if tg[0] in evs:
                continue
            y = sub(strip(x))
            if y is TRUE:
                continue
            out.add(y)
        return out

    def size_read(self, tagev):
        r = self.Rd.r
        sid = r.nodes[tagev].args[0]
        ids = {n.id for n in r.by("sread") if n.args[0] is sid}
        seen, todo, out = set(), list(r.succ[tagev]), set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in ids:
                out.add(x)
                continue
            todo += list(r.succ[x])
        return out.pop() if len(out) == 1 else None

    def kept(self, recs):
        rep, Rd = self.rep, self.Rd
        by = collections.defaultdict(list)
        for cls, p, v, s, tg, o in Rd.stores:
            if tg is None or tg[0] not in Rd.tagev:
                continue
            k = self.imported(v)
            if k is None or k[0] in ("const", "object"):
                continue
            by[(Rd.tagev[tg[0]], tg, self.N.walk(cls, p))].append((s, v))
        made = collections.defaultdict(set)
        for (cls, tg, a), ss in sorted(by.items(), key=lambda x: str(x[0])):
            if a is None:
                continue
            fs = [f for f in recs.get(cls, ()) if f.tag == tg[1] and f.parts]
            if not fs:
                continue
            f = fs[0]
            size = f.size if f.size.op == "int" or decide.numleaves(f.size, set()) else None
            opts = []
            for s, v in ss:
                o = set()
                done = frozenset(x for x in s["facts"] if not left(Rd.r, x, s["loops"]))
                for x in self.residual(done, tg, size):
                    if self.nonempty(x, v) or unchanged(x, s):
                        continue
                    e = self.holds(x, size)
                    if e is True:
                        continue
                    o.add(x)
                opts.append(frozenset(o))
            key = "%s:%d" % (short(cls), tg[1])
            ok = covers(opts)
            rep.judge("kept", ok, key, at(ss[0][0]["loc"]), "%s is read from field %s only if %s" % (
                name(a), key, " or ".join(" and ".join(sorted(show(x, 6) for x in o)) for o in opts)), name(a))
            if a[0] not in ("keepass::Group", "keepass::Entry"):
                for s, v in ss:
                    made[(cls, tg[0], a[0])].add(s["lv"].args[0].args[0])
        # objects filled from fields reach their entry
        for (cls, ev, oc), objs in sorted(made.items(), key=str):
            self.added(cls, ev, oc, objs, recs)

    def added(self, cls, ev, oc, objs, recs):
        rep, r = self.rep, self.Rd.r
        news = set()
        for o in objs:
            news |= set(self.Rd.objects(o))
        got = []
        for s in r.I.stores.values():
            root, path = s["lv"].args
            if root.op != "obj" or not path:
                continue
            hit = [x for x in elements(s["v"]) if set(self.Rd.objects(x)) & news]
            if not hit or set(self.Rd.objects(root.args[0])) & news:
                continue
            tg = self.Rd.tag(s)
            got.append((s, hit[0], tg))
        if not got:
            rep.bad("kept", "object:" + short(oc), "src/kdb.cc", "the %s read from a %s record is not added to anything" % (short(oc), short(cls)))
            return
        opts = []
        for s, x, tg in got:
            o = set()
            fs = [f for f in recs.get(cls, ()) if tg and f.tag == tg[1] and f.parts]
            size = fs[0].size if fs else None
            for y in self.residual(frozenset(s["facts"]), tg or (ev, None), size):
                if self.holds(y, size) is True:
                    continue
                if y.op == "truthy" and set(self.Rd.objects(y.args[0])) & news and y.args[0].op in ("lphi", "new", "phi"):
                    continue
                if y.op == "not" and any(set(self.Rd.objects(z)) & news for z in subterms(y) if z.op in ("lphi", "new")) and \
                        any(z.op == "null" for z in subterms(y)):
                    continue
                o.add(y)
            opts.append((frozenset(o), s, tg))
        direct = [t for t in opts if t[2] is None or t[2][1] in self.end_tags()]
        use = direct or opts
        ok = covers([o for o, s, t in use])
        if not direct and not ok:
            # added where it is created
            ok = None if any(True for o in use) else False
        rep.judge("kept", ok, "object:" + short(oc), at(use[0][1]["loc"]), "the %s read from a %s record is kept only if %s" % (
            short(oc), short(cls), " or ".join(" and ".join(sorted(show(x, 6) for x in o)) for o, s, t in use)), short(oc))

    def nonempty(self, x, v):
        v = strip(v)
        if x.op == "not" and x.args[0].op == "eq" and INT(0) in x.args[0].args:
            return any(y.op == "size" and y.args[0] is v for y in x.args[0].args)
        if x.op == "lt" and x.args[0] is INT(0):
            return x.args[1].op == "size" and x.args[1].args[0] is v
        return False

    def holds(self, x, size):
        """Value of a condition on the field size for everything the export writes there."""
        lv = set()
        if not decide.numleaves(x, lv):
            return None
        lv = sorted(lv, key=lambda t: t.id)
        if not lv:
            return bool(decide.evalnum(x, {}))
        if len(lv) > 1 or lv[0].op != "size":
            return None
        for v in (1, 2, 3, 4, 5, 15, 16, 17, 255, 256, 65535, 65536, 70000):
            if decide.evalnum(x, {lv[0]: v}) == 0:
                return False
        return True

    # -- order of records
    def orders(self, recs):
        rep, r, Rd = self.rep, self.W.r, self.Rd
        g, e = recs.get("keepass::Group", []), recs.get("keepass::Entry", [])
        if not g or not e:
            for cls, fs in (("Group", g), ("Entry", e)):
                if not fs:
                    rep.bad("complete", "records:" + cls, "src/kdb.cc", "no %s records are written" % cls)
            return
        gi, ei = {f.tagn.id for f in g}, {f.tagn.id for f in e}
        eb = set().union(*[r.reach(i) for i in ei]) & gi
        rev = {v: k for k, v in Rd.tagev.items()}
        tg, te = rev.get("keepass::Group"), rev.get("keepass::Entry")
        if tg is None or te is None:
            rep.und("order", "src/kdb.cc", "record loops of the import not found")
            return
        ib = te in Rd.r.reach(tg) and tg not in Rd.r.reach(te)
        if eb:
            rep.bad("order", "export", at(r.nodes[min(eb)]), "a group record can follow an entry record")
        else:
            rep.ok("order", at(r.nodes[min(gi)]), "export: groups first")
        rep.judge("order", ib, "import", at(Rd.r.nodes[te]), "the import does not read all groups before the entries", "import: groups first")
        # every field of the content lies in one of the two kinds of record
        known = {f.tagn.id for fs in recs.values() for f in fs}
        for f in self.W.fields:
            if f.tagn.id not in known:
                rep.bad("terminated", "stray:%d" % f.tag, at(f.tagn), "field %d belongs to no record" % f.tag)
        # each loop element starts with a record
        for cls, fs in recs.items():
            hs = self.heads(fs, self.end_tags())
            for h in hs:
                n = r.nodes[h]
                if not n.loops:
                    rep.und("order", at(n), "%s records are not written in a loop" % short(cls))
                    continue
                k = n.loops[-1]
                L = r.I.loops.get(k)
                if L is None or (L.kind != "range" and not L.complete):
                    rep.und("order", at(n), "loop over %s objects not understood" % short(cls))
                    continue
                if L.exits:
                    rep.bad("complete", "loop:" + short(cls), "%s:%s" % (L.file, L.line), "the loop over the %s objects can end early" % short(cls))
                skip = r.skips(k, set(hs))
                rep.judge("complete", not skip if skip is not None else None, "each:" + short(cls), at(n),
                          "a %s object can pass without a record being written" % short(cls), "each %s" % short(cls))


def truth(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    v = decide.evalnum(t, {})
    return None if v is None else bool(v)


def elements(v):
    """Objects added by a container value."""
    out, todo = [], [v]
    while todo:
        x = todo.pop()
        if x.op == "vec":
            out += [y for y in x.args[1:] if isinstance(y, Term)]
        elif x.op in ("phi", "many"):
            todo += [y for _, y in alts(x)]
        elif x.op in ("new", "lphi"):
            out.append(x)
    return out


def covers(opts):
    """One of several conjunctions holds whatever the truth of their conditions is."""
    atoms = {}
    for o in opts:
        for x in o:
            atoms.setdefault(x.args[0] if x.op == "not" else x, len(atoms))
    if len(atoms) > 6:
        return None
    for vals in itertools.product((True, False), repeat=len(atoms)):
        if not any(all(vals[atoms[x.args[0]]] is False if x.op == "not" else vals[atoms[x]] for x in o) for o in opts):
            return False
    return True


def kdb_records(c, rep):
    Kdb(c, rep).run()
