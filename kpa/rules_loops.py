"""Every loop ends (P30).

For each loop of the library (all calling contexts), a reason is looked for why it cannot go on forever: a counter that
moves towards a bound it can reach, an iterator or document node that advances, a transfer that consumes input on every
iteration and leaves the loop once there is none, a compression step that makes progress.
"""
from collections import defaultdict

from .core import at
from .rules_bounds import Num, type_range
from .rules_flow import flat_alts, short
from .terms import *
from .wire import flatten

INF = 1 << 62


def strip(t):
    while isinstance(t, Term) and t.op == "cast":
        t = t.args[1]
    return t


def top(t):
    """Largest value of the type a counter is kept in."""
    if t.op == "cast":
        return type_range(t.args[0])[1]
    if t.op == "bin" and len(t.args) > 3:
        return type_range(t.args[3])[1]
    return None


class LoopCase:
    def __init__(self, c, r, k, L):
        self.c, self.r, self.k, self.L = c, r, k, L
        self.I = r.I
        self.own = {p: eb for p, eb in r.I.lphi.items() if p.args[0] == k}
        self.cond = list(L.cond or ())
        self.back = frozenset(L.back or ())
        self.inner = [n for n in r.nodes.values() if k in n.loops]
        self.varying = set(self.own)

    def changes(self, t):
        """The value can differ between iterations."""
        ids = {n.id for n in self.inner}
        for x in subterms(t):
            if x in self.varying:
                return True
            if x.op == "ev" and x.args and x.args[0] in ids:
                return True
            if x.op == "lphi" and x not in self.varying and self.k in self.parents(x.args[0]):
                return True
        return False

    def parents(self, k):
        L = self.I.loops.get(k)
        return (L.parent or ()) if L else ()

    # -- why it ends
    def verdict(self):
        L = self.L
        if L.kind == "range":
            grows = self.grows()
            if grows:
                return False, "the container the loop runs over grows in its body", None
            return True, "", "elements of a container"
        if L.kind not in ("while", "for", "do"):
            return True, "", "library algorithm over a given range"
        if L.back is None:
            return True, "", "at most one iteration"
        bad = []
        for f in (self.counter, self.iterator, self.node, self.growth, self.transfer, self.deflater, self.inflater):
            v, why = f()
            if v is True:
                return True, "", why
            if v is False:
                bad.append(why)
        if not bad:
            v, why = self.stuck()
            if v is False:
                bad.append(why)
        if bad:
            return False, bad[0], None
        return None, "no reason found why the loop ends", None

    def grows(self):
        cont = self.L.cont
        for p, (e, b) in self.own.items():
            if p.args[1] is cont and b is not None:
                for g, x in flat_alts(b):
                    y = x
                    while y.op == "vec":
                        y = y.args[0]
                    if y is p and x is not p:
                        return True
        return False

    def conds(self):
        for f in self.cond:
            neg = f.op == "not"
            yield f, neg, (f.args[0] if neg else f)

    def counter(self):
        """A counter reaches its bound."""
        bad = None
        for f, neg, y in self.conds():
            if y.op not in ("lt", "eq", "truthy"):
                continue
            for i in range(min(2, len(y.args))):
                l = strip(y.args[i])
                if l not in self.own:
                    continue
                e, b = self.own[l]
                N = y.args[1 - i] if len(y.args) == 2 else INT(0)
                if b is None or self.changes(N):
                    continue
                if y.op == "lt":
                    want = 1 if (i == 0) != neg else -1
                elif y.op == "truthy":
                    if neg:
                        continue
                    want = 0
                else:
                    if not neg:
                        continue
                    want = 0
                steps = self.steps(l, b)
                if steps is None:
                    continue
                if 0 in steps:
                    if len(steps) > 1:
                        bad = bad or self.still(l, b, "%s stays the same on a path through the body" % name(l))
                    continue
                if want == 1 and min(steps) > 0 or want == -1 and max(steps) < 0:
                    v, why = self.reaches(l, b, N, want, neg)
                    if v:
                        return True, "counter %s" % name(l)
                    if v is False:
                        bad = bad or why
                elif want == 0 and steps in ({1}, {-1}):
                    v, why = self.reaches(l, b, N, 0, neg)
                    if v:
                        return True, "counter %s" % name(l)
                    if v is False:
                        bad = bad or why
                elif want and (want == 1 and max(steps) < 0 or want == -1 and min(steps) > 0):
                    bad = bad or "%s moves away from its bound" % name(l)
        return (False, bad) if bad else (None, None)

    def steps(self, l, b):
        out = set()
        for g, x in flat_alts(b):
            x = strip(x)
            if x is l:
                out.add(0)
                continue
            k = 0
            while x.op == "bin" and x.args[0] in "+-" and strip(x.args[2]).op == "int":
                d = strip(x.args[2]).args[0]
                hi = top(x)
                if hi and d > hi >> 1 and hi > 255:
                    d -= hi + 1 if type_range(x.args[3])[0] == 0 else 0
                k += d if x.args[0] == "+" else -d
                x = strip(x.args[1])
            if x is not l or k == 0:
                return None
            out.add(k)
        return out

    def reaches(self, l, b, N, want, neg):
        his = [top(x) for g, x in flat_alts(b) if strip(x) is not l]
        if None in his:
            return None, None
        hi = min(his)
        nlo, nhi = Num(self.r, self.back).rng(N)
        if want == 1:
            # ends when l >= N, or l > N for a negated test
            need = nhi + 1 if neg else nhi
            if need <= hi:
                return True, ""
            if N.op == "int":
                return False, "%s can never exceed %d" % (name(l), hi)
            if hi >= (1 << 31) - 1 and strip(N).op in ("size", "i"):
                return True, ""
            if hi >= (1 << 32) - 1 and neg and nhi <= hi:
                return None, None
            return False, "%s is at most %d, the bound can be larger" % (name(l), hi)
        if want == -1:
            return True, ""
        if nhi <= hi or hi >= (1 << 31) - 1 and strip(N).op in ("size", "i"):
            return True, ""
        if N.op == "int" or nhi < INF:
            return False, "%s is at most %d, the bound can be larger" % (name(l), hi)
        return None, None

    def still(self, l, b, why):
        """A path on which nothing the loop condition depends on changes."""
        deps = {x for f in self.cond for x in subterms(f) if x in self.own}
        for g, x in flat_alts(b):
            if strip(x) is not l:
                continue
            same = True
            for d in deps - {l}:
                bd = self.own[d][1]
                if bd is None or not any(strip(z) is d for gg, z in flat_alts(bd)):
                    same = False
            if same and not self.consumes():
                return why
        return None

    def consumes(self):
        return [n for n in self.inner if n.kind in ("sread", "sget", "srest", "zlib")]

    def iterator(self):
        for f, neg, y in self.conds():
            if y.op != "eq" or not neg:
                continue
            for i in (0, 1):
                l, N = y.args[i], y.args[1 - i]
                if l not in self.own or self.own[l][1] is None or self.changes(N):
                    continue
                ok = True
                for g, x in flat_alts(self.own[l][1]):
                    chain = []
                    while x.op in ("next", "sbit") or x.op == "bin" and x.args[0] == "+" and isint(x.args[2], 1):
                        stream = x.op == "sbit"
                        x = x.args[1] if x.op == "bin" else x.args[0]
                        if not stream:           # a stream position at the end stays there
                            chain.append(x)
                        elif x is l:
                            chain = [x]
                    if x is not l:
                        ok = None
                        break
                    if not chain:
                        return False, "the position stays the same on a path through the body"
                    # every position passed was tested to differ from the end
                    for z in chain[:-1]:
                        if not any(q.op == "not" and q.args[0].op == "eq" and set(q.args[0].args) == {z, N} for q in g | self.back):
                            return False, "the position can step over the end of the range"
                if ok:
                    return True, "advances towards the end of the range"
        return None, None

    def node(self):
        for f, neg, y in self.conds():
            if y.op != "exists" or neg:
                continue
            l = y.args[0]
            if l not in self.own or self.own[l][1] is None:
                continue
            ok = True
            for g, x in flat_alts(self.own[l][1]):
                if x is l:
                    return False, "the same node is visited again on a path through the body"
                if x.op in ("xsib", "xnext") and x.args[0] is l:
                    continue
                if not self.changes(x) and x.op in ("xc", "xsib", "xnext"):
                    return False, "after the first node the loop always goes on with the same one"
                ok = None
            if ok:
                return True, "siblings of a document"
        return None, None

    def growth(self):
        """A container grows or shrinks towards the bound."""
        for f, neg, y in self.conds():
            if y.op == "lt" and not neg and y.args[0].op == "size" and y.args[0].args[0] in self.own and not self.changes(y.args[1]):
                l = y.args[0].args[0]
                b = self.own[l][1]
                if b is not None and all(x.op == "vec" and x.args[0] is l for g, x in flat_alts(b)):
                    return True, "grows to the size"
        return None, None

    def transfer(self):
        """Every iteration consumes input, and the loop is left when there is none."""
        need = {n.id for n in self.inner if n.kind == "sget" or n.kind == "sread" and len(n.args) > 1 and
                strip(n.args[1]).op == "int" and strip(n.args[1]).args[0] > 0}
        tests, soft = [], []
        for f in list(self.cond) + [x for x in self.back]:
            z = f.args[0] if f.op == "not" else f
            if f.op == "good" or (f.op == "not" and z.op in ("fail", "bad")):
                if z.op != "bad" and z.args:
                    tests.append(z.args[0])
            elif f.op == "not" and z.op == "eof" and z.args:
                soft.append(z.args[0])
        hard = {n for v in tests for n in self.sources(v)}
        good = [i for i in need if i in hard]
        if good and self.r.skips(self.k, need) is False:
            # with several streams, the tested one is the one every iteration reads
            return True, "consumes input until there is none"
        if good and self.r.skips(self.k, need) and not self.others():
            sk = self.r.skips(self.k, {n.id for n in self.inner if n.kind in ("sget", "sread", "srest", "zlib", "sseek", "sclear")})
            if sk:
                return False, "an iteration can pass without reading from the tested stream"
        if not good and soft and need and self.r.skips(self.k, need) is False:
            kinds = {n.args[0].args[1] if n.args and n.args[0].op == "sid" else None for n in self.inner if n.id in need}
            if kinds == {"stringstream"} and any(i in {n for v in soft for n in self.sources(v)} for i in need):
                return True, "reads a stream in memory to its end"
        if not good and not tests and soft and any(i in {n for v in soft for n in self.sources(v)} for i in need):
            sids = [n.args[0] for n in self.inner if n.kind in ("sread", "sget") and n.args]
            if any(s.op == "sid" and s.args[1] in ("ifstream", "istream", "fstream") for s in sids):
                return False, "a read that fails before the end of the file is repeated forever"
        if tests and not good:
            reads = [n for n in self.inner if n.kind in ("sread", "sget", "srest")]
            if not reads and all(self.unchanged(v) for v in tests) and not self.others():
                return False, "nothing in the body changes the state of the tested stream"
        return None, None

    def unchanged(self, v):
        return not self.changes(v) or v in self.own and self.own[v][1] is v

    def others(self):
        """The loop can be left or bounded in another way than by the stream state."""
        if self.L.exits:
            return True
        for f in self.cond:
            z = f.args[0] if f.op == "not" else f
            if z.op not in ("good", "fail", "eof", "bad") and self.changes(f):
                return True
        return False

    def sources(self, v, seen=None):
        """The transfers of this loop that the stream state can come from."""
        seen = set() if seen is None else seen
        out = set()
        if v in seen:
            return out
        seen.add(v)
        if v.op == "ev":
            if any(n.id == v.args[0] for n in self.inner):
                out.add(v.args[0])
            n = self.r.nodes.get(v.args[0])
            return out
        if v.op == "phi":
            for g, x in v.args[0]:
                out |= self.sources(x, seen)
        elif v.op == "lphi":
            e, b = self.I.lphi.get(v, (None, None))
            for x in (e, b):
                if x is not None:
                    out |= self.sources(x, seen)
            # transfers before an inner loop on the same stream: every read of the loop on that stream
            s = self.stream_of(v)
            if s is not None:
                out |= {n.id for n in self.inner if n.kind in ("sread", "sget") and n.args and n.args[0] is s}
        return out

    def stream_of(self, v):
        for n in self.inner:
            if n.kind in ("sread", "sget") and n.args and n.args[0].op == "fld" and n.args[0].args[1] == "$id":
                base = n.args[0].args[0]
                lv = v.args[1]
                if lv.op == "lv" and base in set(subterms(lv)):
                    return n.args[0]
        return None

    def deflater(self):
        for f in self.cond:
            if f.op == "eq" and any(x.op == "zo" and x.args[1] == "avail_out" for x in f.args) and \
                    any(x is INT(0) for x in f.args):
                z = [x for x in f.args if x.op == "zo"][0]
                ev = z.args[0].args[0]
                n = self.r.nodes.get(ev)
                if n is None or self.k not in n.loops:
                    continue
                room = self.room(n)
                if room is None:
                    v = n.args[2] if len(n.args) > 2 else None
                    b = self.own[v][1] if v in self.own else None
                    if b is z:
                        return False, "the compressor is called again without output space"
                    continue
                if room > 0 and self.r.skips(self.k, {n.id}) is False:
                    return True, "every further iteration stores a full buffer"
                if room == 0:
                    return False, "the compressor is called again without output space"
        from .decide import evalnum
        for n in self.inner:
            if n.kind == "zlib" and n.name == "deflate" and self.room(n) and self.r.skips(self.k, {n.id}) is False:
                env = {}
                for f in self.back:
                    for x in subterms(f):
                        if x.op in ("zo", "zres") and x.args[0] is T("ev", n.id):
                            env[x] = 1 if x.op == "zres" else {"avail_out": 5, "avail_in": 0}.get(x.args[1], 0)
                vals = [(f, evalnum(f, env)) for f in self.back]
                if all(v not in (0, False) and (v is not None or f.op == "good" or not self.changes(f)) for f, v in vals):
                    return False, "compression goes on although all input is consumed and no output is pending"
        return None, None

    def room(self, n):
        """Output space handed to the step (avail_out)."""
        v = n.args[2] if len(n.args) > 2 else None
        return v.args[0] if isinstance(v, Term) and v.op == "int" else None

    def inflater(self):
        for n in self.inner:
            if n.kind != "zlib":
                continue
            res = [x for f in self.back for x in subterms(f) if x.op == "zres" and x.args[0].args[0] == n.id]
            if not res or self.r.skips(self.k, {n.id}) is not False:
                continue
            from .decide import evalnum
            if any(evalnum(f, {res[0]: -5}) == 0 for f in self.back):
                return True, "a decompression step without progress leaves the loop"
            if not self.room(n):
                return None, None
            # tolerated: then there must be input on every step
            num, verdict = Num(self.r, n.facts), True
            for g, v in flat_alts(n.args[0]):
                if num.rng(v)[0] > 0 or self.nonzero(v, g | n.facts):
                    continue
                if any(x.op == "gcount" for x in subterms(v)):
                    return False, "at the end of the input a decompression step without progress is repeated forever"
                verdict = None
            return (True, "every decompression step has input") if verdict else (None, None)
        return None, None

    def nonzero(self, v, facts):
        from .decide import evalnum
        base = strip(v)
        return any(evalnum(f, {base: 0, v: 0}) == 0 for f in facts)

    def stuck(self):
        """The condition never changes and nothing else leaves the loop."""
        if self.L.exits or any(self.changes(t) for n in self.inner if n.kind in ("return", "throw")
                               for t in list(n.facts) + [a for a in n.args if isinstance(a, Term)]):
            return None, None
        if any(n.kind in ("random", "time", "ext", "prim") for n in self.inner):
            return None, None
        if self.cond and not any(self.changes(f) for f in self.cond):
            return False, "nothing the condition depends on changes in the body"
        if not self.cond and self.L.kind != "do":
            return False, "the loop has no condition and no exit"
        return None, None


def name(l):
    return show(l.args[1], 3).lstrip("@") if l.op == "lphi" else show(l, 3)


def loops_end(c, rep):
    """P30"""
    rep.rule("ends", "a loop cannot go on forever: a counter reaches its bound, a position advances, or input is consumed "
             "on every iteration until there is none")
    sites = defaultdict(list)
    for f in sorted(c.P.funcs.values(), key=lambda f: (f["file"], f["line"], f["n"])):
        if not f.get("body") or "pugi" in f["n"]:
            continue
        r = c.run(f)
        for k, L in r.I.loops.items():
            sites[(L.file, L.line, (L.node or {}).get("col", 0))].append((f, r, k, L))
    for (file, line, _), uses in sorted(sites.items(), key=lambda x: (str(x[0][0]), x[0][1] or 0)):
        res = [LoopCase(c, r, k, L).verdict() + (f,) for f, r, k, L in uses]
        where = "%s:%s" % (file, line)
        badd = [x for x in res if x[0] is False]
        und = [x for x in res if x[0] is None]
        rep.counts["loops"] = rep.counts.get("loops", 0) + 1
        rep.counts["contexts"] = rep.counts.get("contexts", 0) + len(res)
        L = uses[0][3]
        if badd:
            rep.bad("ends", "%s:%s" % (file, short(L.fn)), where, "%s (%s)" % (badd[0][1], short(L.fn)))
        elif und:
            rep.und("ends", where, "%s (%s)" % (und[0][1], short(und[0][3]["n"])))
        else:
            rep.ok("ends", where, "%s: %s (%d contexts)" % (short(L.fn), res[0][2], len(res)))


# ---------------------------------------------------------------------------
DEEP = 20000           # nesting that exhausts an ordinary stack
PAIRS = (("ParseGroup", "WriteGroup"), ("ParseEntry", "WriteEntry"))


def cycles(c):
    """(function names in call cycles, functions reachable from an import)."""
    from .interp import Interp
    g = Interp(c.P, ()).callgraph
    reach = {}

    def closure(x):
        seen, todo = set(), list(g.get(x, ()))
        while todo:
            y = todo.pop()
            if y not in seen:
                seen.add(y)
                todo += g.get(y, ())
        return seen
    for x in list(g):
        reach[x] = closure(x)
    rec = {x for x in g if x in reach[x]}
    imp = set()
    for k, f in c.P.funcs.items():
        if f["n"].endswith("::Import") and f.get("body"):
            imp |= reach.get(k, set()) | {k}
    return rec, imp


def limit_of(facts, X):
    """Largest probed value of X the facts admit; None without any limit."""
    from .decide import evalnum
    top = None
    for v in (0, 1, 2, 8, 16, 31, 32, 33, 64, 100, 128, 255, 256, 257, 500, 512, 1000, 1023, 1024, 1025, 1026, 2000, 2048, 4096, 4097,
              8192, 10000, 16384, DEEP, 32768, 65535, 1 << 20, 1 << 31):
        if any(evalnum(f, {X: v}) == 0 for f in facts):
            continue
        top = v
    return top


def exact_limit(facts, X):
    from .decide import evalnum
    consts = {y.args[0] for f in facts if X in set(subterms(f)) for y in subterms(f) if y.op == "int"}
    ok = [v for k in consts for v in (k - 2, k - 1, k, k + 1, k + 2) if v >= 0 and
          not any(evalnum(f, {X: v}) == 0 for f in facts)]
    return max(ok) if ok and limit_of(facts, X) != 1 << 31 else None


def nesting_bounded(c, rep):
    """P31"""
    rep.rule("recursion", "a function an import calls recursively passes on a depth that it increases and that is compared with a "
             "constant limit before")
    rep.rule("tree-depth", "a group is put below another one only while its level is within a constant limit")
    rep.rule("same-limit", "an export refuses trees that are nested more deeply than the import of the same format accepts")
    rec, imp = cycles(c)
    limits, unlimited = {}, set()
    for k in sorted(rec):
        f = c.P.funcs.get(k)
        if f is None or not f.get("body") or "pugi" in f["n"]:
            continue
        r = c.run(f)
        nodes = [n for n in r.by("rec") if n.name == f["n"]]
        lims = []
        if nodes and not any(y.op == "lt" and any(isint(z) and z.args[0] > 1 for z in y.args)
                             for n in nodes for g in n.facts for y in subterms(g)):
            unlimited.add(short(f["n"]))
        for n in nodes:
            lim, how = None, None
            for a in n.args:
                if not isinstance(a, Term):
                    continue
                x = strip(a)
                if x.op == "bin" and x.args[0] == "+" and isint(x.args[2]) and x.args[2].args[0] > 0 and strip(x.args[1]).op == "par":
                    X = strip(x.args[1])
                    if limit_of(n.facts, X) is not None and limit_of(n.facts, X) < DEEP:
                        lim = exact_limit(n.facts, X)
                        how = "%s at most %s" % (show(X, 2), lim)
                elif x.op == "bin" and x.args[0] == "-" and isint(x.args[2]) and strip(x.args[1]).op == "par":
                    X = strip(x.args[1])
                    from .decide import evalnum
                    if any(evalnum(g, {X: 0}) == 0 for g in n.facts):
                        lim, how = -1, "%s counts down" % show(X, 2)
            lims.append(lim)
            if k not in imp:
                continue
            where = "%s:%s" % (f["file"], f["line"])
            if lim is not None:
                rep.ok("recursion", where, "%s: %s" % (short(f["n"]), how))
                continue
            tested = [g for g in n.facts if any(y.op == "lt" and any(isint(z) and z.args[0] > 1 for z in y.args) and
                                                any(z.op in ("fld", "glob", "lphi", "par") for z in subterms(y)) for y in subterms(g))]
            depth_tested = [g for g in tested if any(z.op in ("self", "glob", "par") for z in subterms(g))]
            off = len(n.args) - len(f["ps"])
            same = None
            for j, q in enumerate(f["ps"]):
                X, a = T("par", q["n"]), n.args[j + off] if 0 <= j + off < len(n.args) else None
                if isinstance(a, Term) and any(X in set(subterms(g)) for g in depth_tested) and (strip(a) is X or isint(a)):
                    same = q["n"]
            if same:
                rep.bad("recursion", short(f["n"]), where, "%s calls itself with the same %s again, so its limit never applies" %
                        (short(f["n"]), same))
            elif depth_tested:
                rep.und("recursion", where, "%s: limit of the recursion not recognised" % short(f["n"]))
            else:
                rep.bad("recursion", short(f["n"]), where, "%s calls itself once per nesting level of the input, without a limit" %
                        short(f["n"]))
        if nodes and all(x is not None for x in lims):
            limits[short(f["n"])] = max(lims)
    for k in sorted(rec & imp):
        f = c.P.funcs.get(k)
        if f is not None and f.get("body") and "pugi" not in f["n"] and not [n for n in c.run(f).by("rec") if n.name == f["n"]]:
            rep.und("recursion", "%s:%s" % (f["file"], f["line"]), "%s: recursive call not found" % short(f["n"]))
    for a, b in PAIRS:
        la = [v for q, v in limits.items() if q.endswith(a)]
        lb = [v for q, v in limits.items() if q.endswith(b)]
        if la and any(q.endswith(b) for q in unlimited):
            rep.bad("same-limit", b, b, "%s writes any nesting, %s accepts %d levels" % (b, a, la[0]))
        if la and lb and la[0] >= 0 and lb[0] >= 0:
            rep.judge("same-limit", lb[0] <= la[0], b, b, "%s goes down to level %d, %s only to %d" % (b, lb[0], a, la[0]),
                      "%s %d, %s %d" % (b, lb[0], a, la[0]))
    kdb_depth(c, rep)


def kdb_depth(c, rep):
    F = [f for f in c.P.funcs.values() if f["n"] == "keepass::KdbFile::Import" and f.get("body")]
    E = [f for f in c.P.funcs.values() if f["n"] == "keepass::KdbFile::Export" and f.get("body")]
    if not F:
        return
    r = c.run(F[0])
    lims = []
    for n in r.by("push"):
        lv = n.args[0]
        if lv.op != "lv" or not lv.args[1] or lv.args[1][-1] != "groups_":
            continue
        idx = [x for x in subterms(lv.args[0]) if x.op == "at"]
        if not idx:
            continue
        cand = {x for q in idx for x in subterms(q.args[1]) if x.op not in ("int", "bin", "cast", "i")}
        best = None
        for X in cand:
            l = limit_of(n.facts, X)
            if l is not None and l < DEEP:
                best = exact_limit(n.facts, X)
        where = at(n)
        if best is not None:
            lims.append(best)
            rep.ok("tree-depth", where, "level at most %d" % best)
        elif cand:
            rep.bad("tree-depth", "KDB", where, "groups can be nested as deeply as the levels stored in the file say")
        else:
            rep.und("tree-depth", where, "parent of the group not recognised")
    if not lims:
        return
    for k, f in sorted(c.P.funcs.items()):
        if not f.get("body") or "KdbFile::Export" not in f["n"] or "operator()" not in f["n"]:
            continue
        r = c.run(f)
        for q in f["ps"]:
            if not q["n"]:
                continue
            X = T("par", q["n"])
            ws = [n for n in r.by("swrite") if any(isinstance(a, Term) and X in set(subterms(a)) and
                                                   strip(a) is X for a in n.args)]
            for n in ws[:1]:
                top = exact_limit(n.facts, X) if limit_of(n.facts, X) is not None else None
                if top is None or limit_of(n.facts, X) >= DEEP:
                    top = None
                rep.judge("same-limit", top is not None and top <= min(lims), "KDB", at(n),
                          "groups are written at %s, the import accepts levels up to %d" %
                          ("any level" if top is None else "levels up to %d" % top, min(lims)),
                          "KDB levels up to %s" % top)
