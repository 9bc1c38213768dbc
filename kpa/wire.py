"""Tagged records and header fields of the two file formats, as written by an export and as read by an import."""
import collections

from .canon import *
from .terms import *
from .facts import AnalysisError


def file_sids(r, kinds):
    out = []
    for n in r.by("open"):
        if n.name in kinds:
            out.append(T("sid", T("ev", n.id), n.name, T("file", n.args[0])))
    return out


def sources(I, v, limit=4000):
    """Read events (rd / rest / get terms) that contribute to v, through joins and loop-carried variables."""
    out, seen, todo = set(), set(), [v]
    while todo and len(seen) < limit:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("rd", "rest", "get"):
            out.add(x)
            continue
        if x.op == "lphi":
            e = I.lphi.get(x)
            if e:
                todo += [y for y in e if y is not None]
            continue
        if x.op == "phi":
            todo += [y for _, y in x.args[0]]
            continue
        todo += kids(x)
    return out


def ev_of(t):
    for a in t.args:
        if isinstance(a, Term) and a.op == "ev":
            return a
    return None


def eq_consts(r, n):
    """Equality facts at n between a value read in the same loop and a constant: (read event, path) -> constants."""
    out = collections.defaultdict(set)
    for x in n.facts:
        if x.op != "eq":
            continue
        a, b = x.args
        for p, q in ((a, b), (b, a)):
            if q.op != "int":
                continue
            base, path = rd_of(strip_casts(p))
            if base is None or ev_of(base) is None:
                continue
            m = r.nodes.get(ev_of(base).args[0])
            if m is None or not m.loops or not n.loops:
                continue
            if set(m.loops) & set(n.loops):
                out[(m.id, path)].add(q.args[0])
    return out


def tag_index(r):
    """node id -> tag.  The tag of a record is the value that selects among most alternatives in its loop."""
    per, allc = {}, collections.defaultdict(set)
    for n in r.nodes.values():
        if not n.loops:
            continue
        e = eq_consts(r, n)
        if e:
            per[n.id] = e
            for k, v in e.items():
                allc[k] |= v
    out = {}
    for i, e in per.items():
        k = max(e, key=lambda k: (len(allc[k]), -k[0]))
        if len(allc[k]) >= 3 and len(e[k]) == 1:
            out[i] = (k[0], next(iter(e[k])))
    return out


class ImportSlots:
    """Names for the values an import reads: ('hdr', field) or ('tag', number)."""

    def __init__(self, r):
        self.r = r
        self.tags = tag_index(r)

    def slot(self, src, path=()):
        ev = ev_of(src)
        if ev is None:
            return None
        n = self.r.nodes.get(ev.args[0])
        if n is None:
            return None
        tg = self.tags.get(n.id)
        if tg is not None:
            return ("tag", tg[1])
        if not n.loops and path:
            return ("hdr",) + path
        return None

    def slots(self, v):
        """Slots contributing to v (values inside a header record keep their field name)."""
        out, seen, todo = set(), set(), [v]
        while todo and len(seen) < 5000:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            base, path = rd_of(x)
            if base is not None:
                s = self.slot(base, path)
                out.add(s if s is not None else ("?", base))
                continue
            if x.op == "lphi":
                e = self.r.I.lphi.get(x)
                if e:
                    todo += [y for y in e if y is not None]
                continue
            if x.op == "phi":
                todo += [y for _, y in x.args[0]]
                continue
            if x.op == "sha":
                # a digest is not the thing itself
                continue
            todo += kids(x)
        return out

    def leaves(self, v):
        """(slot or None, leaf) for every alternative of v."""
        out = []
        for g, l in flatten(self.r.I, v):
            out.append((self.slots(l), l))
        return out


class Records:
    """What an export writes to one stream: header struct fields and tagged records."""

    def __init__(self, r, sid):
        self.r, self.sid = r, sid
        self.writes = [n for n in r.by("swrite") if n.args[0] is sid]
        self.hdr = {}          # field -> (value, node)
        self.tags = collections.defaultdict(list)     # tag -> [(size value, [payload nodes], tag node)]
        self.other = []
        ids = {n.id for n in self.writes}
        self.next = {}
        for n in self.writes:
            nx = set()
            seen, todo = set(), list(r.succ[n.id])
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in ids:
                    nx.add(x)
                    continue
                todo.extend(r.succ[x])
            self.next[n.id] = nx

    def struct_tags(self, idf="id", sizef="size"):
        """Records introduced by a struct holding a tag and a size."""
        for n in self.writes:
            v = n.args[1]
            if v.op != "struct":
                continue
            fs = dict(v.args[2])
            if idf in fs and sizef in fs:
                t = fs[idf]
                if t.op != "int":
                    self.other.append(n)
                    continue
                pay = [self.r.nodes[m] for m in self.next[n.id]
                       if not (self.r.nodes[m].args[1].op == "struct" and
                               idf in dict(self.r.nodes[m].args[1].args[2]))]
                self.tags[t.args[0]].append((fs[sizef], pay, n))
            else:
                for f, x in fs.items():
                    self.hdr[f] = (x, n)
        return self
