"""Accesses stay inside their storage (P27).

Every subscript, element access, iterator dereference and bulk access (stream reads and writes, hashing, copies, cipher
blocks, zlib buffers, get areas) is an obligation: offset + length <= capacity.  Capacities come from the types (fixed
arrays) or from the tracked value of the container; the inequality is decided in a linear domain over the conditions of the
path, ranges of types, loop counters and inductive relations between container sizes and counters.
"""
import os
from collections import defaultdict
from math import gcd

from .canon import *
from .core import at
from .decide import evalnum
from .interp import LV
from .models import PRIMITIVES
from .invariants import member_values, classes_of, leaf_of
from .rules_flow import contradictory, flat_alts, short
from .terms import *

INF = 1 << 70
DEBUG = bool(os.environ.get("KPA_DEBUG"))
BOOL = ("eq", "lt", "not", "and", "or", "truthy", "good", "has", "isopen", "fail", "eof", "exists", "equal")


def type_range(ty):
    if not ty or ty[0] not in "us" or not ty[1:].isdigit():
        return -INF, INF
    w = int(ty[1:])
    return (-(1 << w - 1), (1 << w - 1) - 1) if ty[0] == "s" else (0, (1 << w) - 1)


# -- linear constraints: (coefficients, constant), meaning sum + constant <= 0 --
def add(a, b, k=1):
    c = dict(a[0])
    for x, v in b[0].items():
        c[x] = c.get(x, 0) + k * v
        if c[x] == 0:
            del c[x]
    return c, a[1] + k * b[1]


def tighten(c):
    g = 0
    for v in c[0].values():
        g = gcd(g, abs(v))
    if g > 1:
        return {x: v // g for x, v in c[0].items()}, -((-c[1]) // g)
    return c


def key(c):
    return frozenset(c[0].items()), c[1]


def infeasible(cons):
    """True when the constraints contradict each other (integers, Fourier-Motzkin elimination)."""
    cur = {}
    for c in cons:
        c = tighten(c)
        if not c[0]:
            if c[1] > 0:
                return True
            continue
        k = frozenset(c[0].items())
        if k not in cur or cur[k] < c[1]:
            cur[k] = c[1]
    for _ in range(40):
        if not cur:
            return False
        pos, neg = defaultdict(int), defaultdict(int)
        for k in cur:
            for x, v in k:
                (pos if v > 0 else neg)[x] += 1
        xs = set(pos) | set(neg)
        x = min(xs, key=lambda x: (pos[x] * neg[x] - pos[x] - neg[x], x.id))
        P, N, rest = [], [], {}
        for k, c in cur.items():
            d = dict(k)
            v = d.get(x, 0)
            if v > 0:
                P.append((d, c))
            elif v < 0:
                N.append((d, c))
            else:
                rest[k] = c
        if len(P) * len(N) > 900:
            return False
        for p, pc in P:
            for n, nc in N:
                a, b = -n[x], p[x]
                r = tighten(add(({k: v * a for k, v in p.items()}, pc * a), (n, nc), b))
                if not r[0]:
                    if r[1] > 0:
                        return True
                    continue
                k = frozenset(r[0].items())
                if k not in rest or rest[k] < r[1]:
                    rest[k] = r[1]
        cur = rest
    return False


class Num:
    """Linear reasoning at one place of one function."""

    def __init__(self, r, facts, shared=None, assumed=()):
        self.r, self.I = r, r.I
        self.facts = frozenset(facts)
        self.depth = 0
        self.assumed = list(assumed)
        self.lins = {}
        self.atom_cons = {}
        self.shared = shared if shared is not None else {}
        self.fact_cache = None

    # -- ranges
    def rng(self, t, d=0):
        lo, hi = self.rng1(t, d)
        ty = self.I.tys.get(t)
        if ty:
            tl, th = type_range(ty)
            lo, hi = max(lo, tl), min(hi, th)
        return lo, hi

    def rng1(self, t, d):
        o = t.op
        if o == "int":
            return t.args[0], t.args[0]
        if d > 25:
            return -INF, INF
        if o == "cast":
            lo, hi = self.rng(t.args[1], d + 1)
            fl, fh = type_range(t.args[2] if len(t.args) > 2 else None)
            lo, hi = max(lo, fl), min(hi, fh)
            tl, th = type_range(t.args[0])
            return (lo, hi) if lo >= tl and hi <= th else (tl, th)
        if o == "bin":
            op, ty = t.args[0], t.args[3] if len(t.args) > 3 else None
            a, b = self.rng(t.args[1], d + 1), self.rng(t.args[2], d + 1)
            tl, th = type_range(ty)
            r = None
            if op == "&":
                if b[0] >= 0 and b[1] < INF:
                    r = 0, b[1]
                elif a[0] >= 0 and a[1] < INF:
                    r = 0, a[1]
                if r and a[0] >= 0 and b[0] >= 0:
                    r = 0, min(a[1], b[1])
            elif op in ("|", "^"):
                if a[0] >= 0 and b[0] >= 0 and max(a[1], b[1]) < INF:
                    r = 0, (1 << max(a[1], b[1]).bit_length()) - 1
            elif op == ">>" and b[0] == b[1] and 0 <= b[0] < 64 and a[0] > -INF and a[1] < INF:
                r = a[0] >> b[0], a[1] >> b[0]
            elif op == "<<" and b[0] == b[1] and 0 <= b[0] < 64 and a[0] > -INF and a[1] < INF:
                r = a[0] << b[0], a[1] << b[0]
            elif op == "%" and b[0] == b[1] and b[0] > 0:
                r = (0 if a[0] >= 0 or (ty and ty[0] == "u") else 1 - b[0]), min(b[0] - 1, max(a[1], 0))
            elif op == "/" and b[0] == b[1] and b[0] > 0 and a[0] >= 0:
                r = a[0] // b[0], a[1] // b[0]
            elif op == "+":
                r = a[0] + b[0], a[1] + b[1]
            elif op == "-":
                r = a[0] - b[1], a[1] - b[0]
            elif op == "*":
                c = [x * y for x in a for y in b]
                r = min(c), max(c)
            elif op in ("min", "max"):
                f = min if op == "min" else max
                r = f(a[0], b[0]), f(a[1], b[1])
            if r is None:
                return tl, th
            r = max(r[0], -INF), min(r[1], INF)
            return r if r[0] >= tl and r[1] <= th else (tl, th)
        if o in BOOL:
            return 0, 1
        if o in ("size", "gcount", "i"):
            return 0, 1 << 62
        if o == "zo":
            return 0, (1 << 32) - 1
        if o == "tell":
            return -1, 1 << 62
        if o in ("get", "peek"):
            return -1, 255
        if o == "phi":
            rs = [self.rng(v, d + 1) for g, v in t.args[0]]
            return min(x[0] for x in rs), max(x[1] for x in rs)
        if o == "at" and t.args[0].op == "str":
            cs = [ord(x) for x in t.args[0].args[0]] + [0]
            return min(cs), max(cs)
        if o == "opq" and t.args[0] == "pugi::xml_node::type":
            return 0, self.node_types()
        for cls in classes_of(t):
            f = leaf_of(t, cls)
            vs = f and self.members(cls, f)
            if vs:
                return min(vs), max(vs)
        return -INF, INF

    def node_types(self):
        """Largest node type a parsed document has: document types appear only when the parser is told to keep them."""
        c = self.r.ctx
        if not hasattr(c, "_node_types"):
            c._node_types = 8
            hi = 7
            for f in c.P.funcs.values():
                if f.get("body") and "keepass" in f["n"]:
                    for n in c.run(f).by("xload"):
                        if len(n.args) > 1 and not (n.args[1].op == "int" and not n.args[1].args[0] & 0x200):
                            hi = 8
            c._node_types = hi
        return c._node_types

    def members(self, cls, f):
        try:
            return member_values(self.r.ctx, cls, f)
        except Exception:
            return None

    # -- linear forms
    def lin(self, t):
        if t in self.lins:
            return self.lins[t]
        self.lins[t] = ({t: 1}, 0)          # while being computed
        self.depth += 1
        x = self.lin1(t) if self.depth < 40 else ({t: 1}, 0)
        self.depth -= 1
        self.lins[t] = x
        return x

    def lin1(self, t):
        o = t.op
        if o == "int":
            return {}, t.args[0]
        if o == "size":
            n = self.size(t.args[0])
            if n is not t:
                return self.lin(n)
        if o == "cast":
            fr = type_range(t.args[2] if len(t.args) > 2 else None)
            to = type_range(t.args[0])
            inner = self.rng(t.args[1])
            lo, hi = max(fr[0], inner[0]), min(fr[1], inner[1])
            if lo >= to[0] and (hi <= to[1] or hi >= (1 << 62) and to[1] >= (1 << 62)):
                return self.lin(t.args[1])
            x = self.lin(t.args[1])
            if self.depth < 6 and (lo >= to[0] or self.prove(add(({}, to[0]), x, -1))) and (
                    hi <= to[1] or to[1] >= (1 << 62) or self.prove(add(x, ({}, -to[1])))):
                return x
            return {t: 1}, 0
        if o == "bin":
            op, a, b = t.args[:3]
            ty = t.args[3] if len(t.args) > 3 else None
            if op in ("+", "-"):
                x, y = self.lin(a), self.lin(b)
                r = add(x, y, 1 if op == "+" else -1)
                if ty is None:
                    return r
                lo, hi = type_range(ty)
                if op == "-" and ty[0] == "u":
                    if r[0] or r[1] < 0:
                        if not (self.depth < 8 and self.prove(({k: -v for k, v in r[0].items()}, -r[1]))):
                            return {t: 1}, 0
                elif op == "+" and ty in ("u32", "u16", "u8"):
                    q = self.rng(t)
                    if r[0] and q == (lo, hi) and not (self.depth < 8 and self.prove(add(r, ({}, -hi)))):
                        return {t: 1}, 0
                return r
            if op == "*":
                x, y = self.lin(a), self.lin(b)
                if not y[0]:
                    return {k: v * y[1] for k, v in x[0].items() if y[1]}, x[1] * y[1]
                if not x[0]:
                    return {k: v * x[1] for k, v in y[0].items() if x[1]}, x[1] * y[1]
            if op == "<<" and b.op == "int" and 0 <= b.args[0] < 32:
                x = self.lin(a)
                k = 1 << b.args[0]
                q = self.rng(t)
                if q[1] < INF:
                    return {z: v * k for z, v in x[0].items()}, x[1] * k
        return {t: 1}, 0

    def size(self, v, d=0):
        """Term for the number of elements of a value."""
        n = self.size1(v, d)
        if n.op == "cast" and n.args[0] == "u64" and len(n.args) > 2 and n.args[2] == "s64":
            return n.args[1]        # a size beyond max_size() cannot be reached
        return n

    def size1(self, v, d):
        n = mk_size(v)
        if n.op != "size" or d > 12:
            return n
        v = n.args[0]
        if v.op in ("mapf", "map"):
            return self.size(v.args[1], d + 1)
        if v.op == "upd":
            return self.size(v.args[0], d + 1)
        if v.op == "vec":
            return mk_bin("+", self.size(v.args[0], d + 1), INT(1), None)
        if v.op == "popped":
            return mk_bin("-", self.size(v.args[0], d + 1), INT(1), None)
        if v.op == "cat":
            a = None
            for x in v.args:
                s = self.size(x, d + 1)
                a = s if a is None else mk_bin("+", a, s, None)
            return a
        if v.op == "overlay":
            return self.size(v.args[0], d + 1)
        if v.op == "rd":
            return v.args[2] if len(v.args) > 2 else n
        if v.op == "bytes" or v.op == "substr" and False:
            return v.args[1]
        if v.op == "zeros" and isinstance(v.args[0], int) and v.args[0]:
            return INT(v.args[0])
        return n

    # -- constraints
    def of_atom(self, a):
        if a in self.atom_cons:
            return self.atom_cons[a]
        out = self.atom_cons[a] = []
        lo, hi = self.rng(a)
        if lo > -INF:
            out.append(({a: -1}, lo))
        if hi < 1 << 61:
            out.append(({a: 1}, -hi))
        if a.op == "bin" and a.args[0] in ("min", "max"):
            s = 1 if a.args[0] == "min" else -1
            for x in a.args[1:3]:
                c = add(({a: 1}, 0), self.lin(x), -1)
                out.append(c if s == 1 else ({k: -v for k, v in c[0].items()}, -c[1]))
        if a.op == "cast" and len(a.args) > 2 and str(a.args[0])[0] == "u" and self.rng(a.args[1])[0] >= 0:
            out.append(add(({a: 1}, 0), self.lin(a.args[1]), -1))       # truncation does not increase
        if a.op == "lphi" and a in self.I.lphi:
            e, b = self.I.lphi[a]
            if e is not None and b is not None:
                ds = []
                for g, x in flat_alts(b):
                    ds.append(self.step(x, a))
                if ds and None not in ds:
                    E = self.lin(e)
                    if a not in E[0]:
                        if min(ds) >= 0:
                            out.append(add(E, ({a: 1}, 0), -1))
                        if max(ds) <= 0:
                            out.append(add(({a: 1}, 0), E, -1))
                        if set(ds) in ({1}, {-1}):
                            out += self.stops_at(a, E, min(ds))
        if a.op in ("gcount", "zo"):
            n = self.r.nodes.get(a.args[0].args[0]) if a.args and isinstance(a.args[0], Term) and a.args[0].op == "ev" else None
            if n is not None and a.op == "gcount" and n.kind == "sread":
                out.append(add(({a: 1}, 0), self.lin(n.args[1]), -1))
            if n is not None and a.op == "zo" and n.kind == "zlib" and a.args[1] in ("avail_in", "avail_out"):
                out.append(add(({a: 1}, 0), self.lin(n.args[0 if a.args[1] == "avail_in" else 2]), -1))
        if a.op == "size" and a.args[0].op == "lphi":
            out += self.size_invariants(a)
        if a.op == "size" and a.args[0].op == "slice":
            pass
        return out

    def stops_at(self, a, E, d):
        """A counter moved by one stays on its side of the value the loop stops at."""
        k = ("stop", a)
        if k not in self.shared:
            self.shared[k] = out = []
            L = self.I.loops.get(a.args[0])
            cond = getattr(L, "cond", None)
            for f in [y for x in sorted(cond or (), key=lambda x: x.id) for y in flat_conj(x)]:
                if f.op != "not" or f.args[0].op != "eq":
                    continue
                for x, y in (f.args[0].args, f.args[0].args[::-1]):
                    if strip_casts(x) is not a or any(z.op == "lphi" and z.args[0] == a.args[0] for z in subterms(y)):
                        continue
                    N = Num(self.r, (), self.shared)
                    Y = N.lin(y)
                    c = add(E, Y, -1)
                    if d < 0:
                        c = {v: -w for v, w in c[0].items()}, -c[1]
                    if N.prove(c):
                        g = add(({a: 1}, 0), Y, -1)
                        out.append(g if d > 0 else ({v: -w for v, w in g[0].items()}, -g[1]))
        return self.shared[k]

    def step(self, x, a):
        """x = a + constant."""
        while x.op == "cast":
            x = x.args[1]
        if x is a:
            return 0
        if x.op == "bin" and x.args[0] in ("+", "-") and x.args[2].op == "int":
            s = self.step(x.args[1], a)
            return None if s is None else s + x.args[2].args[0] * (1 if x.args[0] == "+" else -1)
        return None

    def size_invariants(self, a):
        """Relations size(V) >= L + k that hold initially and are kept by every iteration."""
        k = ("inv", a)
        if k in self.shared:
            return self.shared[k]
        self.shared[k] = []
        out = []
        V = a.args[0]
        eV, bV = self.I.lphi.get(V, (None, None))
        if eV is None or bV is None:
            return out
        N0 = Num(self.r, (), self.shared)
        sV = N0.lin(N0.size(eV))
        # the size never changes
        if all(self.same_size(x, V) for g, x in flat_alts(bV)):
            c = add(({a: 1}, 0), sV, -1)
            out += [c, ({x: -v for x, v in c[0].items()}, -c[1])]
        for L, (eL, bL) in list(self.I.lphi.items()):
            if L is V or L.args[0] != V.args[0] or eL is None or bL is None or L.args[1].args[1] and \
                    L.args[1].args[1][-1] == "$ver":
                continue
            d = add(sV, N0.lin(eL), -1)
            if d[0]:
                continue
            k0 = d[1]
            hyp = add(({L: 1}, k0), ({a: 1}, 0), -1)          # L + k0 - size <= 0
            good = True
            for g1, x in flat_alts(bV):
                for g2, y in flat_alts(bL):
                    if contradictory(g1 | g2):
                        continue
                    N = Num(self.r, g1 | g2, self.shared, [hyp])
                    goal = add(add(N.lin(y), ({}, k0)), N.lin(N.size(x)), -1)
                    if not N.prove(goal):
                        good = False
                        break
                if not good:
                    break
            if good:
                out.append(hyp)
        self.shared[k] = out
        return out

    def same_size(self, x, V):
        while x.op == "upd":
            x = x.args[0]
        return x is V

    def of_fact(self, f):
        """Alternatives (lists of constraints) a fact stands for; None when it is not linear."""
        neg = f.op == "not"
        g = f.args[0] if neg else f
        if g.op in ("lt", "eq"):
            x, y = self.lin(g.args[0]), self.lin(g.args[1])
            d = add(x, y, -1)
            m = ({k: -v for k, v in d[0].items()}, -d[1])
            if g.op == "lt":
                return [[m]] if neg else [[(d[0], d[1] + 1)]]
            if not neg:
                return [[d, m]]
            return [[(d[0], d[1] + 1)], [(m[0], m[1] + 1)]]
        if g.op == "truthy" and g.args[0].op in ("bin", "cast", "lphi", "size", "par", "fld", "at"):
            d = self.lin(g.args[0])
            m = ({k: -v for k, v in d[0].items()}, -d[1])
            return [[d, m]] if neg else [[(d[0], d[1] + 1)], [(m[0], m[1] + 1)]]
        if g.op in ("and", "or"):
            xs = [x for x in g.args if isinstance(x, Term)]
            xs = [mk_not(x) for x in xs] if neg else xs
            if (g.op == "and") != neg:
                cur = [[]]
                for x in xs:
                    a = self.of_fact(x)
                    if a is None:
                        continue
                    cur = [p + q for p in cur for q in a]
                    if len(cur) > 8:
                        return None
                return cur
            out = []
            for x in xs:
                a = self.of_fact(x)
                if a is None:
                    return None
                out += a
            return out
        if g.op == "phi":
            out = []
            for gs, v in g.args[0]:
                if v.op == "int":
                    if bool(v.args[0]) == neg:
                        continue
                    last = None
                else:
                    last = mk_not(v) if neg else v
                cur = [[]]
                for x in list(gs) + ([last] if last is not None else []):
                    a = self.of_fact(x)
                    if a is None:
                        continue
                    cur = [p + q for p in cur for q in a]
                    if len(cur) > 8:
                        return None
                out += cur
            return out if len(out) <= 8 else None
        return None

    def constraints(self):
        if self.fact_cache is None:
            self.fact_cache = []
            for f in sorted(self.facts, key=lambda f: f.id):
                a = self.of_fact(f)
                if a:
                    self.fact_cache.append((f, a))
        return self.fact_cache

    def prove(self, goal, depth=0):
        """goal <= 0 under the facts."""
        if not goal[0]:
            return goal[1] <= 0
        neg = ({k: -v for k, v in goal[0].items()}, -goal[1] + 1)     # goal >= 1
        base, splits = self.relevant([neg])
        return self.closed(base, splits)

    def relevant(self, start):
        atoms = set()
        cons = list(start)
        for c in start:
            atoms |= set(c[0])
        facts = self.constraints() if self.depth < 12 else []
        used, splits = set(), []
        done = set()
        extra = list(self.assumed)
        for _ in range(6):
            new = set()
            for a in list(atoms):
                if a not in done:
                    done.add(a)
                    for c in self.of_atom(a):
                        cons.append(c)
                        new |= set(c[0])
            for i, (f, alts) in enumerate(facts):
                if i in used:
                    continue
                vs = {x for c in alts for q in c for x in q[0]}
                if vs & atoms:
                    used.add(i)
                    new |= vs
                    if len(alts) == 1:
                        cons += alts[0]
                    else:
                        splits.append(alts)
            for c in list(extra):
                if set(c[0]) & atoms:
                    extra.remove(c)
                    cons.append(c)
                    new |= set(c[0])
            if not new - atoms or len(cons) > 80:
                break
            atoms |= new
        self.last_atoms = atoms
        splits.sort(key=len)
        return cons, self.phi_splits(atoms) + splits[:5]

    def phi_splits(self, atoms):
        """Case distinctions on merged values; values merged at the same place take the same side."""
        groups = {}
        for a in sorted(atoms, key=lambda a: a.id):
            if a.op == "phi" and len(a.args[0]) <= 5:
                groups.setdefault(tuple(frozenset(g) for g, v in a.args[0]), []).append(a)
        out = []
        for gs, phis in list(groups.items())[:3]:
            alts = []
            for i, g in enumerate(gs):
                if contradictory(self.facts | g):
                    continue
                sub = Num(self.r, self.facts | g, self.shared, self.assumed)
                sub.depth = self.depth + 4
                cur = [[]]
                for f in sorted(g, key=lambda f: f.id):
                    x = sub.of_fact(f)
                    if x:
                        cur = [p + q for p in cur for q in x]
                        if len(cur) > 6:
                            cur = [[]]
                            break
                for a in phis:
                    v = sub.lin(a.args[0][i][1])
                    d = add(({a: 1}, 0), v, -1)
                    m = ({k: -v for k, v in d[0].items()}, -d[1])
                    cur = [p + [d, m] for p in cur]
                more = []
                for a in sorted({x for p in cur for q in p for x in q[0]}, key=lambda a: a.id):
                    more += sub.of_atom(a)
                alts += [p + more for p in cur]
            out.append(alts)
        return out

    def closed(self, cons, splits):
        if infeasible(cons):
            return True
        if not splits:
            return False
        return all(self.closed(cons + a, splits[1:]) for a in splits[0])

    def possible(self, goal):
        """goal >= 1 can hold: every condition on the quantities involved is known exactly, and they contradict nothing."""
        ph = next((a for a in sorted(goal[0], key=lambda a: a.id) if a.op == "phi" and len(a.args[0]) <= 8), None)
        if ph is not None:
            k = goal[0][ph]
            rest = {x: v for x, v in goal[0].items() if x is not ph}, goal[1]
            for g, v in ph.args[0]:
                if contradictory(self.facts | frozenset(g)):
                    continue
                sub = Num(self.r, self.facts | frozenset(g), self.shared, self.assumed)
                if sub.possible(add(rest, sub.lin(v), k)):
                    return True
            return False
        neg = ({k: -v for k, v in goal[0].items()}, -goal[1] + 1)
        cons, splits = self.relevant([neg])
        atoms = set(self.last_atoms)
        for a in atoms:
            if not self.free(a):
                if DEBUG:
                    print("   not free:", show(a, 6))
                return False
        known = {f for f, a in self.constraints()}
        for f in self.facts - known:
            if any(x in atoms for x in subterms(f)):
                if DEBUG:
                    print("   not linear:", show(f, 6))
                return False
        return not self.closed(cons, splits)

    def free(self, a):
        """The quantity takes every value of its range: it comes from the input, or counts a loop."""
        o = a.op
        if o in ("par", "get", "peek", "tell"):
            return True
        if o in ("rd", "gcount", "zo"):
            return True
        if o == "size":
            v = a.args[0]
            if v.op == "lphi" and v in self.I.lphi and self.I.lphi[v][1] is not None:
                if all(self.same_size(x, v) for g, x in flat_alts(self.I.lphi[v][1])):
                    return True         # fixed by the value at the loop's start
            return self.content(v)
        if o == "cast":
            return self.free(a.args[1])
        if o == "bin":
            return all(x.op == "int" or self.free(x) for x in a.args[1:3]) and a.args[0] in ("-", "&", ">>", "%", "+", "/")
        for cls in classes_of(a):
            f = leaf_of(a, cls)
            vs = f and self.members(cls, f)
            if vs and max(vs) - min(vs) == len(vs) - 1:
                return True             # a counter running through its range
        if o in ("fld", "at"):
            return self.content(a)
        if o == "lphi" and a in self.I.lphi:
            e, b = self.I.lphi[a]
            if e is None or b is None or a.args[1].op != "lv":
                return False
            ds = [self.step(x, a) for g, x in flat_alts(b)]
            return bool(ds) and None not in ds and set(ds) in ({1}, {-1})
        return False

    def content(self, v, d=0):
        o = v.op
        if d > 8:
            return False
        if o in ("par", "rd", "rest", "b64d", "b64e", "xval", "get", "sstr", "out"):
            return True
        if o == "mapf":
            return any(self.content(x, d + 1) for x in v.args[1:] if isinstance(x, Term))
        if o == "lphi" and v in self.I.lphi and v.args[1].op == "lv" and self.I.lphi[v][0] is not None and d < 3:
            e, b = self.I.lphi[v]
            return b is not None and self.content(e, d + 1) and any(
                x is not v and self.content(x, d + 5) for g, x in flat_alts(b))
        if o == "fld" and isinstance(v.args[1], str) and self.grown(v.args[1]):
            return True
        if o in ("fld", "at", "deref"):
            b = v.args[0]
            if b.op == "lphi" and b in self.I.lphi:
                return self.collected(b)
            if b.op == "self":
                return False
            return self.content(b, d + 1)
        return False

    def grown(self, f):
        """A member container that a public operation of its class extends without conditions: any size occurs."""
        c = self.r.ctx
        cache = c.__dict__.setdefault("_grown", {})
        if f not in cache:
            cache[f] = False
            for g in c.P.funcs.values():
                if not g.get("rec") or not g.get("body") or "keepass" not in g["n"]:
                    continue
                if not any(x["n"] == f for x in (c.P.record(g["rec"]) or {"fields": []})["fields"]):
                    continue
                r = c.run(g)
                ss = [s for s in r.I.stores.values() if not s.get("init")]
                if len(ss) == 1 and not ss[0]["facts"] and ss[0]["v"].op == "vec" and ss[0]["v"].args[0].op == "fld" and \
                        ss[0]["v"].args[0].args[1] == f and ss[0]["v"].args[0].args[0].op == "self":
                    cache[f] = True
        return cache[f]

    def collected(self, b):
        """A container filled in a loop with parts of the input nothing was checked about."""
        e, back = self.I.lphi[b]
        if back is None:
            return False
        vals = []
        for g, x in flat_alts(back):
            while x.op in ("vec", "mapput", "upd"):
                vals.append(x.args[-1])
                x = x.args[0]
            if x is not b:
                return False
        parts = set()
        for v in vals:
            for x in subterms(v):
                if x.op in ("out", "recout", "rd"):
                    parts.add(x)
        if not parts:
            return False
        for n in self.r.nodes.values():
            for f in n.facts:
                if any(x in parts for x in subterms(f)) and not all(x.op in BOOL or True for x in ()):
                    return False
        return True


# -- obligations ---------------------------------------------------------------
def internal(c):
    """Functions with a caller in the repository."""
    if not hasattr(c, "_internal"):
        from .interp import Interp
        g = Interp(c.P, ()).callgraph
        c._internal = {y for x, ys in g.items() for y in ys if y != x}
    return c._internal


def flat_conj(t):
    if t.op == "and":
        return [y for x in t.args if isinstance(x, Term) for y in flat_conj(x)]
    return [t]


def depends(t, ops):
    return any(x.op in ops for x in subterms(t)) if isinstance(t, Term) else False


def goal_of(r, N, d, kind):
    """(linear form that must be <= 0, description); None when the extent of the storage is not known."""
    I = r.I
    base = d["C"] if kind == "ix" else d["base"]
    if base is None:
        return None
    cap = I.caps.get(base)
    cv = d["cv"]
    if kind == "ix":
        i = d["i"]
        if d["why"] in ("front", "back", "pop"):
            n = INT(cap[0]) if cap and cap[0] is not None else N.size(cv)
            return add(({}, 1), N.lin(n), -1), "no element"
        if cap is not None and cap[0] is not None:
            n = ({}, cap[0])
        elif base.op == "lv" and cap is None:
            return None
        else:
            n = N.lin(N.size(cv))
            if cap is not None and len(cap) > 2:
                n = n[0], n[1] + 1
        return add((N.lin(i)[0], N.lin(i)[1] + 1), n, -1), "index %s, %s" % (show(i, 4), count(n))
    off, n = d["off"], N.lin(d["n"])
    if base.op in ("str", "cstr"):
        total = ({}, len(base.args[0]) + 1) if base.op == "str" else None
        es = 1
    elif cap is None or cap[1] is None:
        return None
    else:
        es = cap[1]
        if cap[0] is not None:
            total = ({}, cap[0])
        else:
            total = N.lin(N.size(cv))
            if len(cap) > 2 and d["why"] in ("write", "hash", "source", "second"):
                total = total[0], total[1] + 1
    if total is None:
        return None
    m = es if d["unit"] == "b" else 1
    t = {k: v * m for k, v in total[0].items()}, total[1] * m
    o = N.lin(off)
    o = {k: v * m for k, v in o[0].items()}, o[1] * m
    return add(add(o, n), t, -1), "%s of %s%s, %s" % (show(d["n"], 4), "bytes" if d["unit"] == "b" else "elements", "" if not (
        o[0] or o[1]) else " from " + show(off, 4), count(t))


def count(n):
    return "%d available" % n[1] if not n[0] else "available: " + " + ".join(
        ["%s%s" % ("" if v == 1 else "%d*" % v, show(k, 4)) for k, v in n[0].items()] + ([str(n[1])] if n[1] else []))


def buffer_bounds(c, rep):
    """P27"""
    rep.rule("index", "a subscript is smaller than the number of elements on every path")
    rep.rule("element", "the first or last element is taken of a container only when it has one")
    rep.rule("iterator", "an iterator is dereferenced only where it is known to designate an element")
    rep.rule("extent", "a bulk access (stream transfer, hash, copy, cipher block, zlib buffer, get area) stays inside its buffer")
    sites = defaultdict(list)
    inner = internal(c)
    for f in sorted(c.P.funcs.values(), key=lambda f: (f["file"], f["line"], f["n"])):
        if not f.get("body") or "keepass" not in f["n"]:
            continue
        r = c.run(f)
        shared = {}
        for kind, ds in (("ix", r.I.indexes), ("ac", r.I.accesses)):
            for d in ds.values():
                rule = "extent" if kind == "ac" else {"[]": "index", "iter": "iterator", "find": "iterator"}.get(d["why"], "element")
                sites[(rule, d["loc"][0], d["loc"][1], d["loc"][2] if len(d["loc"]) > 2 else 0, d["why"])].append((f, r, kind, d, shared))
    for k in sorted(sites, key=str):
        judge_site(c, rep, k, sites[k], inner)


def judge_site(c, rep, k, uses, inner):
    rule, where = k[0], "%s:%s" % (k[1], k[2])
    res, seen = [], set()
    for f, r, kind, d, shared in uses:
        t = (kind, d["cv"], d["i"] if kind == "ix" else (d["off"], d["n"]), d["facts"])
        if t in seen:
            continue
        seen.add(t)
        v, what = decide(r, kind, d, shared)
        if v is None and kind == "ix" and d["why"] == "[]" and f.get("rec") and f.get("acc") == 0:
            w = walked(c, f, r, d)
            if w:
                v, what = False, w
        if v is not True and f["id" if "id" in f else "n"] is not None and is_internal(c, f, inner) and about_caller(r, kind, d):
            v = "ctx"
        res.append((v, what, f, d))
    vs = [x[0] for x in res]
    name = short(uses[0][3]["fn"])
    bad = [x for x in res if x[0] is False]
    if bad:
        v, what, f, d = bad[0]
        rep.bad(rule, "%s/%s/%s" % (name, k[4], skey(d)), where, "%s: %s (seen from %s)" % (name, what, short(f["n"])))
    elif None in vs or not any(v is True for v in vs):
        x = next((x for x in res if x[0] is None), res[0])
        rep.und(rule, where, "%s: %s" % (name, x[1]))
    else:
        rep.ok(rule, where, "%s: %s" % (name, next(x[1] for x in res if x[0] is True)))
    rep.counts["contexts"] += len(res)


def skey(d):
    import re
    t = d["i"] if "i" in d else d["n"]
    b = d["C"] if "C" in d else d["base"]
    return re.sub(r"\(?\b\d{2,},?", "", (show(b, 3) if b is not None else "?") + "/" + show(t, 3)).replace(" ", "")[:70]


def is_internal(c, f, inner):
    if f["n"] in PRIMITIVES:
        return False                    # never seen from its callers
    return next((i for i, g in c.P.funcs.items() if g is f), None) in inner


def about_caller(r, kind, d):
    """The access is about storage or lengths the caller provides."""
    ts = [d["cv"], d["C"] if kind == "ix" else d["base"], d["i"] if kind == "ix" else d["n"], None if kind == "ix" else d["p"]]
    return any(depends(t, ("par", "self", "deref", "undef", "refof")) for t in ts if t is not None)


def decide(r, kind, d, shared):
    facts = d["facts"]
    if kind == "ix" and d["why"] == "iter":
        i, cv = d["i"], d["cv"]
        ok = mk_not(mk_eq(i, END)) in facts or mk_not(mk_eq(END, i)) in facts or any(
            f.op == "not" and f.args[0].op == "eq" and i in f.args[0].args and END in f.args[0].args for f in facts)
        if ok:
            return True, "iterator compared with the end"
        if i is END:
            return False, "the end iterator is dereferenced"
        if i.op == "findif":
            return (True if any(i in subterms(f) for f in facts) else False), "result of a search"
        N = Num(r, facts, shared)
        g = add((N.lin(i)[0], N.lin(i)[1] + 1), N.lin(N.size(cv)), -1) if i.op not in ("findif",) else None
        if g is not None and N.prove(g):
            return True, "iterator position below the size"
        return None, "iterator %s" % show(i, 4)
    if kind == "ix" and d["why"] == "find":
        i, cv = d["i"], d["cv"]
        k = T("has", i.args[0], i.args[1])
        if k in facts or T("has", cv, i.args[1]) in facts:
            return True, "the key was found"
        if not any(x is i.args[1] for f in facts for x in subterms(f)):
            return False, "the result of looking up %s is used without a test that it was found" % show(i.args[1], 4)
        return None, "lookup of %s" % show(i.args[1], 4)
    if kind == "ac" and d["why"] in ("input", "output"):
        for g, n in flat_alts(d["n"]):
            fs = facts | frozenset(g)
            if contradictory(fs):
                continue
            v, what = stream_window(r, d, d["p"], n, fs, shared)
            if v is not True:
                return v, what
        return True, "%s window of the compressor" % d["why"]
    return bounded(r, kind, d, facts, shared)


def stream_window(r, d, p, n, facts, shared, depth=0):
    """The window (p, n) handed to zlib lies in its buffer, or is what zlib left of such a window."""
    f = {"input": ("next_in", "avail_in"), "output": ("next_out", "avail_out")}[d["why"]]
    if n is INT(0):
        return True, "empty window"
    if p.op == "zo" and n.op == "zo":
        return (True if p.args[0] is n.args[0] and (p.args[1], n.args[1]) == f else None), "what the last call left"
    if p.op == "fld" and n.op == "fld" and p.args[0] is n.args[0] and (p.args[1], n.args[1]) == f:
        return kept_window(r, d, f, shared), "what the last call left"
    if p.op == "lphi" and n.op == "lphi":
        if p.args[0] != n.args[0] or depth > 3:
            return None, "window %s, %s" % (show(p, 3), show(n, 3))
        (ep, bp), (en, bn) = r.I.lphi.get(p, (None, None)), r.I.lphi.get(n, (None, None))
        if None in (ep, bp, en, bn):
            return None, "window %s, %s" % (show(p, 3), show(n, 3))
        for P, N, fs in ((ep, en, frozenset()), (bp, bn, None)):
            for g1, x in flat_alts(P):
                for g2, y in flat_alts(N):
                    fs2 = frozenset(g1) | frozenset(g2)
                    if contradictory(fs2) or x is p and y is n:
                        continue
                    v, what = stream_window(r, d, x, y, fs2, shared, depth + 1)
                    if v is not True:
                        return v, what
        return True, "window of the loop"
    if p.op in ("lphi", "fld", "zo") or n.op in ("lphi", "fld") and n.args[-1] in f:
        return None, "window %s, %s" % (show(p, 3), show(n, 3))
    base, off = r.I.pointer(p)
    e = dict(d, p=p, base=base, off=off, n=n, cv=d["cvs"].get(base))
    if e["cv"] is None and base is not None and base.op == "lv" and (r.I.caps.get(base) or (None,))[0] is None:
        return None, "size of %s" % show(base, 3)
    return bounded(r, "ac", e, facts, shared)


def kept_window(r, d, f, shared):
    """Every method leaves the pair of members designating a window, so it does at the start of each."""
    cls = r.f.get("rec")
    k = ("window", cls, f)
    if k in shared:
        return shared[k]
    shared[k] = True
    c = r.ctx
    for g in c.P.funcs.values():
        if g.get("rec") != cls or not g.get("body"):
            continue
        q = c.run(g)
        ss = [s["lv"] for s in q.I.stores.values() if s["lv"].args[1] and s["lv"].args[1][-1] in f]
        if not ss:
            continue
        q.I.S = q.S
        lv = ss[0]
        P, N = (q.I.read(LV(lv.args[0], lv.args[1][:-1] + (x,))) for x in f)
        for g1, x in flat_alts(P):
            for g2, y in flat_alts(N):
                fs = frozenset(g1) | frozenset(g2)
                if contradictory(fs):
                    continue
                v, what = stream_window(q, d, x, y, fs, shared)
                if v is not True:
                    shared[k] = v
                    return v
    return True


def walked(c, f, r, d):
    """A cursor kept in a member: its values from the member's initial value on, by the loop's own transfer function.
    Says when the first use of a new object leaves the buffer."""
    ls = [t for g, v in flat_alts(d["i"]) for t in subterms(v) if t.op == "lphi"]
    if len(set(ls)) != 1 or ls[0] not in r.I.lphi:
        return None
    L = ls[0]
    entry, back = r.I.lphi[L]
    if entry.op != "fld" or entry.args[0].op != "self" or entry.args[0].args[0] != f.get("rec"):
        return None
    rec = c.P.records.get(f["rec"])
    if not rec or not str(rec.get("file")).endswith(".hh"):
        return None
    inits = [i for g in c.P.funcs.values() if g.get("rec") == f["rec"] for i in g.get("inits") or () if i.get("f") == entry.args[1]]
    inits = {i["e"]["v"] if (i.get("e") or {}).get("k") == "int" else None for i in inits}
    if len(inits) != 1 or None in inits:
        return None
    first = inits.pop()
    g = goal_of(r, Num(r, d["facts"]), d, "ix")
    if g is None:
        return None
    s = first
    about = [x for x in d["facts"] if any(t is L for t in subterms(x))]
    for _ in range(1024):
        here = [evalnum(x, {L: s}) for x in about]
        if None in here:
            return None
        if 0 not in here:
            over = g[0][1]
            for t, n in g[0][0].items():
                v = evalnum(t, {L: s})
                if v is None:
                    return None
                over += n * v
            if over > 0:
                return "%s: fails for a new object, whose %s is %d and comes to %d here" % (
                    g[1], entry.args[1], first, s)
        s = evalnum(back, {L: s})
        if s is None:
            return None
    return None


def bounded(r, kind, d, facts, shared):
    N = Num(r, facts, shared)
    g = goal_of(r, N, d, kind)
    if g is None:
        return None, "extent of %s not known" % (show(d["C"] if kind == "ix" else d["p"], 4))
    lf, what = g
    if N.prove(lf):
        if kind == "ac" and d["why"] == "position":
            n = N.lin(d["n"])
            if N.possible(({k: -v for k, v in n[0].items()}, -n[1])):
                return False, "%s: can be negative" % what
        off = d["i"] if kind == "ix" else d["off"]
        if off.op == "int" or d["why"] in ("front", "back", "pop"):
            return True, what
        lo = N.lin(off)
        if N.prove(({k: -v for k, v in lo[0].items()}, -lo[1])):
            return True, what
        if not lo[0] or N.possible(add(({}, 0), lo, -1)):
            return False, "%s: can be negative" % what
        return None, "%s: sign not known" % what
    if not lf[0] or N.possible(lf):
        return False, "%s: nothing keeps the access inside" % what
    return None, what
