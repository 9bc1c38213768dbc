"""Structured abstract interpreter over the exported syntax trees.

Every function reachable from an analysis root is interpreted in its calling
context over symbolic value terms.  Control-flow joins produce guarded phi
terms, loops are havocked to loop-phi terms whose entry and back-edge values
are recorded, and everything observable (stream traffic, allocations, throws,
stores into objects, library calls) becomes a node of an event graph together
with the conditions that hold whenever the node is reached.
"""
import sys
from .terms import *
from .facts import Type, Callee, AnalysisError

sys.setrecursionlimit(20000)

_keys = {}


def intern_key(*k):
    v = _keys.get(k)
    if v is None:
        v = len(_keys) + 1
        _keys[k] = v
    return v


class State:
    __slots__ = ("env", "facts", "preds")

    def __init__(self, env, facts, preds):
        self.env = env
        self.facts = facts
        self.preds = preds

    def copy(self):
        return State(dict(self.env), self.facts, self.preds)


class Node:
    __slots__ = ("id", "kind", "name", "args", "facts", "preds", "loops", "stack", "file", "line", "extra", "res")

    def __repr__(self):
        return "<%s %s %s:%s>" % (self.kind, self.name, self.file, self.line)


class Frame:
    __slots__ = ("key", "fn", "this", "vars", "parent", "lex", "rets", "unroll", "file", "line", "roots", "fid", "thiscls")


class Loop:
    __slots__ = ("key", "kind", "cont", "node", "frame", "entry", "file", "line", "elem", "complete", "cond",
                 "parent", "fn", "exits", "back")


DEADSTATE = None


def guard_conflict(g, facts):
    for x in g:
        if mk_not(x) in facts:
            return True
        y = x.args[0] if x.op == "not" else x
        if y.op == "eq" and x.op != "not":
            for i in (0, 1):
                c = y.args[i]
                if c.op in ("int", "str"):
                    o = y.args[1 - i]
                    for f in facts:
                        if f.op == "eq":
                            if f.args[0] is o and f.args[1].op == c.op and f.args[1] is not c:
                                return True
                            if f.args[1] is o and f.args[0].op == c.op and f.args[0] is not c:
                                return True
    return False


def disjunction(states, common):
    """What holds after a join beyond the common facts: one of the branches' own (few) facts.

    Only kept for conditions over the outcomes of compression steps."""
    if len(states) > 4:
        return frozenset()
    ds = [s.facts - common for s in states]
    if any(not d or len(d) > 3 for d in ds):
        return frozenset()
    if not any(y.op in ("zres", "zo") for d in ds for x in d for y in subterms(x)):
        return frozenset()
    if len(ds) == 2:
        # c and x, or not c: the condition itself adds nothing
        for a, b in ((0, 1), (1, 0)):
            if len(ds[b]) == 1 and len(ds[a]) > 1:
                ds[a] = {x for x in ds[a] if mk_not(x) not in ds[b]} or ds[a]
    o = FALSE
    for d in ds:
        k = TRUE
        for x in sorted(d, key=lambda x: x.id):
            if x.op == "phi" or (x.op == "or" and len(d) > 1):
                return frozenset()
            k = mk_and(k, x)
        o = mk_or(o, k)
    if o.op != "or" or trivial(o):
        return frozenset()
    return frozenset((o,))


def trivial(o):
    ds = []

    def go(x):
        if x.op == "or":
            go(x.args[0])
            go(x.args[1])
        else:
            ds.append(x)
    go(o)
    return any(mk_not(x) in ds for x in ds)


class Interp:
    def __init__(self, P, primitives=()):
        self.P = P
        self.prims = set(primitives)
        self.S = None
        self.rec = True
        self.nodes = {}
        self.thr = []
        self.brk = []
        self.cont = []
        self.frames = []
        self.loopstack = []
        self.lphi = {}
        self.loops = {}
        self.loopmods = {}
        self.recmods = {}
        self.derefs = {}
        self.indexes = {}
        self.caps = {}                  # location -> (element count or None when it varies, bytes per element)
        self.accesses = {}
        self.loopconds = {}
        self.tys = {}                   # term -> narrowest integer type it was read with
        self.stores = {}
        self.conds = {}
        self.unknown = {}
        self.globcache = {}
        self.extcalls = {}
        self.tmpn = 0
        self.catchvar = []
        self.markers = False
        self.assertcond = None
        self.fieldtypes = {}
        self.notes = []
        from . import models
        self.models = models
        for n, r in P.records.items():
            if r["fields"]:
                RECORDS[r["n"]] = tuple(f["n"] for f in r["fields"])
        self.recursive = self._sccs()

    # ------------------------------------------------------------------
    def _sccs(self):
        """Function ids that can reach themselves in the direct call graph."""
        g = {}

        def coll(n, out):
            if isinstance(n, list):
                for x in n:
                    coll(x, out)
            elif isinstance(n, dict):
                c = n.get("c")
                if isinstance(c, Callee) and c.id in self.P.funcs:
                    out.add(c.id)
                for v in n.values():
                    if isinstance(v, (list, dict)):
                        coll(v, out)
        for fid, f in self.P.funcs.items():
            s = set()
            coll(f.get("body"), s)
            coll(f.get("inits"), s)
            g[fid] = s
        reach = {}
        res = set()
        for fid in g:
            seen = set()
            st = list(g[fid])
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                st.extend(g.get(x, ()))
            if fid in seen:
                res.add(fid)
        self.callgraph = g
        return res

    # -- state helpers ---------------------------------------------------
    @property
    def fr(self):
        return self.frames[-1]

    def dead(self):
        return self.S is None

    def loc(self, n=None):
        f = self.fr
        if n is not None and "l" in n:
            f.line = n["l"]
        return f.file, f.line

    def join(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        common = states[0].facts
        preds = states[0].preds
        for s in states[1:]:
            common = common & s.facts
            preds = preds | s.preds
        env = {}
        keys = set()
        for s in states:
            keys.update(s.env)
        s0 = states[0]
        for k in keys:
            v0 = s0.env.get(k)
            same = True
            for s in states[1:]:
                if s.env.get(k) is not v0:
                    same = False
                    break
            if same:
                env[k] = v0
                continue
            al = []
            for s in states:
                v = s.env.get(k)
                if v is None:
                    if k.op in ("var", "tmp", "ret") or (k.op == "obj" and k.args[0].op == "new"):
                        continue
                    v = self.default(k)
                al.append((s.facts - common, v))
            env[k] = join_values(al)
        return State(env, common | disjunction(states, common), preds)

    def fork(self):
        return self.S.copy() if self.S is not None else None

    def default(self, root):
        o = root.op
        if o == "obj":
            p = root.args[0]
            return T("deref", p)
        if o == "glob":
            return self.globval(root.args[0])
        if o in ("var", "tmp"):
            return T("undef", str(root.args[-1]))
        return root

    def assume(self, t, pos=True):
        """Refine the current state with condition t; dead when contradictory."""
        if self.S is None:
            return
        if not pos:
            t = mk_not(t)
        t = self.simp(t)
        if t is TRUE:
            return
        if t is FALSE:
            self.S = None
            return
        if t.op == "and":
            self.assume(t.args[0])
            self.assume(t.args[1])
            return
        facts = set(self.S.facts)
        if t.op == "phi":
            ok = [(g, v) for g, v in t.args[0] if v is not FALSE and not guard_conflict(g, self.S.facts)]
            if not ok:
                self.S = None
                return
            if len(ok) == 1:
                g, v = ok[0]
                facts |= g
                if v is TRUE:
                    facts.add(t)
                self.S = State(self.S.env, frozenset(facts), self.S.preds)
                if v is not TRUE:
                    self.assume(v)
                return
            com = ok[0][0]
            for g, v in ok[1:]:
                com = com & g
            facts |= com
            facts.add(T("phi", tuple(ok)))
            self.S = State(self.S.env, frozenset(facts), self.S.preds)
            return
        facts.add(t)
        if t.op == "eq":
            # not equal to any other constant: nothing to add, found on demand
            pass
        self.S = State(self.S.env, frozenset(facts), self.S.preds)

    def simp(self, t):
        """Value of condition t under the current facts, or t."""
        F = self.S.facts
        if t.op == "int":
            return t
        if t in F:
            return TRUE
        n = mk_not(t)
        if n in F:
            return FALSE
        if t.op == "not":
            r = self.simp(t.args[0])
            if r.op == "int":
                return INT(not r.args[0])
            return t if r is t.args[0] else mk_not(r)
        if t.op == "and":
            return mk_and(self.simp(t.args[0]), self.simp(t.args[1]))
        if t.op == "or":
            return mk_or(self.simp(t.args[0]), self.simp(t.args[1]))
        if t.op == "eq":
            for i in (0, 1):
                c = t.args[i]
                if c.op in ("int", "str"):
                    o = t.args[1 - i]
                    for f in F:
                        if f.op == "eq":
                            a, b = f.args
                            if a is o and b.op == c.op and b is not c:
                                return FALSE
                            if b is o and a.op == c.op and a is not c:
                                return FALSE
        if t.op == "phi":
            ok = [(g, v) for g, v in t.args[0] if not guard_conflict(g, F)]
            if len(ok) < len(t.args[0]):
                if not ok:
                    return t
                return mk_phi([(g - F, v) for g, v in ok])
        return t

    # -- events ----------------------------------------------------------
    def evkey(self, n, kind, extra=()):
        return intern_key(self.fr.key, n["u"] if n is not None else 0, kind, tuple(self.fr.unroll), extra)

    def emit(self, kind, name, args, n=None, extra=(), **kw):
        k = self.evkey(n, kind + ":" + name, extra)
        ev = T("ev", k)
        if self.S is None:
            return ev
        if self.rec:
            nd = self.nodes.get(k)
            if nd is None or nd.kind == "placeholder":
                nd = Node()
                nd.id = k
                nd.preds = frozenset()
                self.nodes[k] = nd
                nd.facts = self.S.facts
            else:
                nd.facts = nd.facts & self.S.facts
            nd.kind = kind
            nd.name = name
            nd.args = tuple(args)
            nd.preds = nd.preds | self.S.preds
            nd.loops = tuple(self.loopstack)
            nd.stack = tuple((f.fn["n"] if f.fn else "?", f.file, f.line) for f in self.frames)
            nd.file, nd.line = self.loc(n)
            nd.extra = kw
            nd.res = None
        self.S.preds = frozenset([k])
        return ev

    def note_unknown(self, what, n=None):
        if self.rec:
            self.unknown.setdefault(what, self.loc(n))

    # -- memory ----------------------------------------------------------
    def lv_alts(self, lv):
        if lv.op == "lv":
            return [(frozenset(), lv)]
        if lv.op in ("phi", "many"):
            out = []
            for g, v in alts(lv):
                for g2, v2 in self.lv_alts(v):
                    out.append((g | g2, v2))
            return out
        return [(frozenset(), LV(T("obj", T("addrof", lv))))]

    def read(self, lv):
        if lv.op == "lv":
            root, path = lv.args
            v = self.S.env.get(root) if self.S is not None else None
            if v is None:
                v = self.default(root)
            for pe in path:
                v = project(v, pe)
            if v.op == "phi" and self.S is not None:
                v = self.simp(v) if True else v
            return v
        if lv.op in ("phi", "many"):
            al = [(g, self.read(v)) for g, v in self.lv_alts(lv)]
            return join_values(al)
        return lv

    def write(self, lv, v, n=None, init=False):
        if self.S is None:
            return
        if v.op == "lv":
            v = self.read(v)
        al = self.lv_alts(lv)
        al = [(g, x) for g, x in al if not guard_conflict(g, self.S.facts)] or al
        if len(al) == 1:
            g, x = al[0]
            self._write1(x, v)
        else:
            for g, x in al:
                old = self.read(x)
                self._write1(x, join_values([(g, v), (frozenset([T("notalias", lv)]), old)]))
        if self.rec:
            for g, x in al:
                r = x.args[0]
                if r.op not in ("var", "tmp", "ret"):
                    k = self.evkey(n, "st", (r.id, tuple(p.id if isinstance(p, Term) else p for p in x.args[1])))
                    self.stores[k] = dict(lv=x, v=v, facts=self.S.facts | g, loc=self.loc(n), init=init,
                                          stack=tuple((f.fn["n"] if f.fn else "?", f.file, f.line) for f in self.frames),
                                          loops=tuple(self.loopstack), preds=self.S.preds)

    def _write1(self, lv, v):
        root, path = lv.args
        if not path:
            self.S.env[root] = v
            return
        old = self.S.env.get(root)
        if old is None:
            old = self.default(root)
        self.S.env[root] = update_phi(old, path, v, self)

    def val(self, x):
        """rvalue of an evaluation result."""
        if x is None:
            return T("void")
        if x.op == "lv":
            return self.read(x)
        if x.op in ("phi", "many") and any(v.op == "lv" for g, v in alts(x)):
            return self.read(x)
        return x

    def islv(self, x):
        return x.op == "lv" or (x.op in ("phi", "many") and all(v.op == "lv" for g, v in alts(x)))

    def tolv(self, x, n=None, tag="tmp"):
        if self.islv(x):
            return x
        root = T("tmp", self.fr.key, intern_key(self.fr.key, n["u"] if n is not None else 0, tag,
                                                tuple(self.fr.unroll)))
        if self.S is not None:
            self.S.env[root] = x
        return LV(root)

    def deref(self, p, n=None, why="deref"):
        """Location a pointer value designates."""
        if p.op == "lv":
            p = self.read(p)
        if p.op == "addr":
            return p.args[0]
        if p.op in ("phi", "many"):
            al = [(g, v) for g, v in alts(p) if v.op != "null"
                  and not (self.S is not None and guard_conflict(g, self.S.facts))]
            if len(al) < len(alts(p)):
                self.note_deref(p, n, why)
            if not al:
                return LV(T("obj", NULL))
            res = []
            for g, v in al:
                S = self.S
                if S is not None:
                    self.S = State(S.env, S.facts | g, S.preds)
                res.append((g, self.deref(v, n, why)))
                self.S = S
            return res[0][1] if len(res) == 1 else mk_phi(res)
        if p.op == "cdata":
            return sub(p.args[0], T("idx", INT(0)))
        if p.op == "padd" and p.args[0].op == "cdata":
            return sub(p.args[0].args[0], T("idx", p.args[1]))
        if p.op == "padd" and p.args[0].op == "addr":
            return sub(p.args[0].args[0], T("idx", p.args[1]))
        if p.op == "iter":
            return self.iter_deref(p, n)
        self.note_deref(p, n, why)
        return LV(T("obj", p))

    def note_deref(self, p, n, why):
        if not self.rec or self.S is None:
            return
        if p.op in ("new", "addr", "padd", "par", "this"):
            if p.op != "padd":
                return
        k = (p, self.fr.file, n.get("l") if n is not None else self.fr.line, why)
        d = self.derefs.get(k)
        if d is None:
            self.derefs[k] = dict(p=p, facts=self.S.facts, loc=self.loc(n), why=why,
                                  stack=tuple((f.fn["n"] if f.fn else "?", f.file, f.line) for f in self.frames),
                                  loops=tuple(self.loopstack))
        else:
            d["facts"] = d["facts"] & self.S.facts

    def iter_deref(self, it, n=None):
        C, pos = it.args
        if pos is END:
            self.note_index(C, END, n, "iter")
        if pos.op == "find":
            self.note_index(C, pos, n, "find")
            return sub(C, T("key", pos.args[1]))
        if pos.op not in ("find",):
            self.note_index(C, pos, n, "iter")
        return sub(C, T("idx", pos))

    def note_index(self, C, i, n, why):
        if not self.rec or self.S is None:
            return
        k = self.evkey(n, "ix" + why, (C.id, i.id))
        d = self.indexes.get(k)
        if d is None:
            self.indexes[k] = dict(C=C, cv=self.read(C) if self.islv(C) else C, i=i, facts=self.S.facts,
                                   loc=self.loc(n), why=why, fn=self.fr.fn["n"] if self.fr.fn else "?",
                                   loops=tuple(self.loopstack))
        else:
            d["facts"] = d["facts"] & self.S.facts

    def note_cap(self, x, t):
        """Remember the extent of the storage at location x, of type t."""
        if t is None or not self.islv(x):
            return
        t = t.strip()
        c = cap_of(t)
        if c is not None:
            for g, y in self.lv_alts(x):
                self.caps.setdefault(y, c)

    def pointer(self, x):
        """(location or value, offset) a pointer or iterator value designates."""
        off = INT(0)
        while x.op == "padd":
            off = mk_bin("+", off, x.args[1], None)
            x = x.args[0]
        if x.op == "iter":
            pos = x.args[1]
            return x.args[0], T("endpos") if pos is END else mk_bin("+", off, pos, None)
        if x.op == "cdata":
            return x.args[0], off
        if x.op == "addr" and self.islv(x.args[0]):
            lv = x.args[0]
            if lv.args[1] and isinstance(lv.args[1][-1], Term) and lv.args[1][-1].op == "idx":
                return LV(lv.args[0], lv.args[1][:-1]), mk_bin("+", off, lv.args[1][-1].args[0], None)
            return lv, off
        if x.op in ("str", "cstr"):
            return x, off
        return None, off

    def note_access(self, p, n, e, why, unit="b"):
        """n bytes or elements are read or written from p on."""
        if not self.rec or self.S is None or n is None:
            return
        for g, x in alts(p):
            base, off = self.pointer(x)
            k = self.evkey(e, "ac" + why, (x.id, n.id))
            d = self.accesses.get(k)
            fs = self.S.facts | frozenset(g)
            if d is None:
                cvs, todo, h = {}, [x], 0
                while todo and h < 8:           # storage a pointer advanced in a loop started in
                    y, h = todo.pop(), h + 1
                    if y.op in ("lphi", "phi"):
                        y = self.lphi.get(y, (None, None))[0] if y.op == "lphi" else y
                        todo += [z for _, z in alts(y)] if y is not None else []
                    else:
                        b2 = self.pointer(y)[0]
                        if b2 is not None and self.islv(b2):
                            cvs[b2] = self.read(b2)
                self.accesses[k] = dict(cvs=cvs, p=x, base=base, off=off, n=n, unit=unit, facts=fs, loc=self.loc(e), why=why,
                                        cv=None if base is None else self.read(base) if self.islv(base) else base,
                                        fn=self.fr.fn["n"] if self.fr.fn else "?", loops=tuple(self.loopstack))
            else:
                d["facts"] = d["facts"] & fs

    def span(self, a, b):
        """Number of elements between two pointers or iterators of one sequence."""
        A, i = self.pointer(a)
        B, j = self.pointer(b)
        if A is None or A is not B:
            return None
        if j.op == "endpos":
            c = self.caps.get(A)
            j = INT(c[0]) if c is not None and c[0] is not None else mk_size(self.read(A) if self.islv(A) else A)
        if i.op == "endpos":
            return INT(0) if j is i else None
        return mk_bin("-", j, i, None) if i is not INT(0) else j

    # -- globals ---------------------------------------------------------
    def globval(self, g):
        if g in self.globcache:
            return self.globcache[g]
        self.globcache[g] = T("glob", g)
        G = self.P.globals.get(g)
        v = T("glob", g)
        if G is not None and G.get("init") is not None:
            t = G["t"]
            if t.const or (t.k == "arr") or getattr(t, "lam", False) or G.get("constexpr") or (t.k == "ptr" and not self.written_global(g)):
                S, rec, frames, loops = self.S, self.rec, self.frames, self.loopstack
                self.rec = False
                fr = self.mkframe(None, intern_key("glob", g), None)
                self.frames = self.frames + [fr]
                self.S = State({}, frozenset(), frozenset())
                try:
                    x = self.val(self.ev(G["init"]))
                    if self.S is not None and pure_value(x):
                        v = x
                finally:
                    self.S, self.rec, self.frames, self.loopstack = S, rec, frames, loops
        self.globcache[g] = v
        return v

    def written_global(self, g):
        """Does the program change the variable after its initialisation."""
        w = getattr(self.P, "_written", None)
        if w is None:
            w = self.P._written = {}
        if g not in w:
            from .rules_flow import written_global
            w[g] = bool(written_global(self.P, g))
        return w[g]

    # -- frames and calls ------------------------------------------------
    def mkframe(self, fn, key, this):
        f = Frame()
        f.key = key
        f.fn = fn
        f.fid = fn["fid"] if fn else None
        f.this = this
        f.vars = {}
        f.parent = self.frames[-1] if self.frames else None
        f.lex = None
        f.rets = []
        f.unroll = []
        f.file = fn["file"].split("/")[-1] if fn else (f.parent.file if f.parent else "?")
        f.line = fn["line"] if fn else 0
        f.roots = []
        f.thiscls = None
        return f

    def call_function(self, fn, this, args, n, lex=None, caps=None):
        """Inline a repository function."""
        fid = fn["fid"]
        if fid in self.recursive:
            on = [f for f in self.frames if f.fid == fid]
            if on:
                return self.recursive_call(fn, this, args, n)
            return self.outer_recursive(fn, this, args, n, lex, caps)
        if len(self.frames) > 60:
            self.note_unknown("inline depth " + fn["n"], n)
            return T("opq", "depth", fn["n"])
        return self.inline(fn, this, args, n, lex, caps)

    def inline(self, fn, this, args, n, lex=None, caps=None, key=None):
        if key is None:
            key = intern_key(self.fr.key if self.frames else 0, n["u"] if n is not None else 0, fn["fid"],
                             tuple(self.fr.unroll) if self.frames else ())
        f = self.mkframe(fn, key, this)
        f.lex = lex
        if caps:
            f.vars.update(caps)
        self.bind_params(f, fn, args, n)
        if self.frames:
            self.loc(n)
        self.frames.append(f)
        save_b, save_c = self.brk, self.cont
        self.brk, self.cont = [], []
        try:
            for ini in fn.get("inits") or []:
                self.run_init(fn, this, ini)
            if fn.get("body") is not None:
                self.stmt(fn["body"])
        finally:
            self.brk, self.cont = save_b, save_c
            self.frames.pop()
        states = []
        RET = T("ret", key)
        hasval = False
        for s, v in f.rets:
            if v is not None:
                s.env[RET] = v
                hasval = True
            states.append(s)
        if self.S is not None and not (hasval and fn["c"].ret.k != "void"):
            states.append(self.S)
        elif self.S is not None and not f.rets:
            states.append(self.S)
        self.S = self.join(states)
        if self.S is None:
            return T("void")
        r = self.S.env.pop(RET, T("void"))
        self.drop_frame(key, keep=r)
        return r

    def drop_frame(self, key, keep=None):
        env = self.S.env
        dead = [k for k in env if k.op in ("var", "tmp") and k.args[0] == key]
        for k in dead:
            del env[k]

    def bind_params(self, f, fn, args, n):
        for i, p in enumerate(fn["ps"]):
            a = args[i] if i < len(args) else T("undef", p["n"])
            t = p["t"]
            if t.isref:
                if self.islv(a):
                    f.vars[p["d"]] = a
                else:
                    root = T("var", f.key, p["d"], p["n"])
                    if self.S is not None:
                        self.S.env[root] = a
                    f.vars[p["d"]] = LV(root)
            else:
                root = T("var", f.key, p["d"], p["n"])
                if self.S is not None:
                    self.S.env[root] = self.val(a)
                f.vars[p["d"]] = LV(root)

    def run_init(self, fn, this, ini):
        if self.S is None:
            return
        if "deleg" in ini:
            e = ini["e"]
            self.construct_expr(self.deref(this), e)
            return
        if "base" in ini:
            e = ini["e"]
            if isinstance(e, dict) and e.get("k") == "ctor" and e["c"].id in self.P.funcs:
                self.construct_expr(self.deref(this), e)
            return
        lv = sub(self.deref(this), ini["f"])
        t = ini.get("t")
        e = ini["e"]
        x = self.ev(e)
        if self.S is None:
            return
        ft = self.field_type(fn.get("rec"), ini["f"])
        if ft is not None and ft.isref:
            self.write_raw(lv, self.tolv(x, e))
        else:
            self.write(lv, self.val(x), ini, init=True)

    def write_raw(self, lv, v):
        if self.S is None:
            return
        for g, x in self.lv_alts(lv):
            self._write1(x, v)

    def construct_expr(self, lv, e):
        """Run a constructor expression in place."""
        if e["k"] == "ctor" and e["c"].id in self.P.funcs and not self.trivial_copy(e["c"], self.P.funcs[e["c"].id]):
            args = [self.ev(a) for a in e.get("a", [])]
            if self.S is None:
                return
            self.call_function(self.P.funcs[e["c"].id], T("addr", lv), args, e)
        else:
            self.write(lv, self.val(self.ev(e)), e, init=True)

    def trivial_copy(self, c, f):
        return (c.copy or c.move) and (f.get("implicit") or f.get("defaulted") or c.defaulted)

    def recursive_call(self, fn, this, args, n):
        a = [self.val(x) if not self.islv(x) else x for x in args]
        av = [self.val(x) for x in args]
        thisv = None
        if this is not None and this.op == "addr" and self.islv(this.args[0]):
            thisv = self.read(this.args[0])
        elif this is not None and not self.islv(this):
            thisv = T("deref", this)
        caps = tuple((lv, self.read(lv)) for lv in self.recmods.get(fn["fid"], ()) if lv.op == "lv")
        ev = self.emit("rec", fn["n"], [this if this is not None else NULL] + a, n, vals=tuple(av), thisv=thisv,
                       valtypes=tuple(str(p["n"]) for p in fn["ps"]), caps=caps)
        for lv in self.recmods.get(fn["fid"], ()):
            self.write_raw(lv, T("recout", ev, lv))
        t = fn["c"].ret
        if t.k == "void":
            return T("void")
        return T("rec", fn["fid"], ev, tuple(av))

    def outer_recursive(self, fn, this, args, n, lex, caps):
        entry = self.S.copy()
        rec = self.rec
        for it in range(4):
            self.S = entry.copy()
            self.rec = False
            marks = [len(x) for x in self.thr]
            self.inline(fn, this, args, n, lex, caps)
            for x, m in zip(self.thr, marks):
                del x[m:]
            mods = set(self.recmods.get(fn["fid"], set()))
            new = set()
            if self.S is not None:
                for r, v in self.S.env.items():
                    if r.op in ("ret",):
                        continue
                    o = entry.env.get(r)
                    if o is None:
                        if r.op == "obj" and r.args[0].op == "new":
                            continue
                        o = self.default(r)
                    if o is not v:
                        for path in diff_paths(o, v):
                            new.add(LV(r, path))
            new = reduce_lvs(mods | new)
            self.rec = rec
            if new == mods:
                break
            self.recmods[fn["fid"]] = new
        self.S = entry
        self.rec = rec
        return self.inline(fn, this, args, n, lex, caps)

    def field_type(self, cls, f):
        k = (cls, f)
        if k in self.fieldtypes:
            return self.fieldtypes[k]
        r = self.P.record(cls) if cls else None
        res = None
        if r is not None:
            for x in r["fields"]:
                if x["n"] == f:
                    res = x["t"]
            if res is None:
                for b in r["bases"]:
                    if b.r or b.n:
                        res = res or self.field_type(b.n or b.r, f) or self.field_type(b.r, f)
        self.fieldtypes[k] = res
        return res

    # -- throwing --------------------------------------------------------
    def throw_state(self, tname, val, n, implicit=False, cond=None):
        """Registers an exception leaving from here; caller decides about self.S."""
        if self.S is None:
            return
        s = self.S
        self.S = s.copy()
        if cond is not None:
            self.S.facts = self.S.facts | frozenset([cond])
        self.emit("throw", tname, [val], n, extra=(tname,), implicit=implicit, cond=cond)
        if self.thr:
            self.thr[-1].append((self.S, tname, val))
        self.S = s

    def do_throw(self, tname, val, n):
        self.throw_state(tname, val, n)
        self.S = None

    # -- statements ------------------------------------------------------
    def stmt(self, s):
        if self.S is None or s is None:
            return
        m = getattr(self, "s_" + s["k"], None)
        if "l" in s:
            self.fr.line = s["l"]
        if m is None:
            # an expression used as a statement
            if hasattr(self, "e_" + s["k"]):
                self.ev(s)
                return
            self.note_unknown("stmt " + s["k"], s)
            return
        m(s)

    def s_block(self, s):
        for x in s["s"]:
            if self.S is None:
                # labels are not used; unreachable tail
                break
            self.stmt(x)

    def s_nop(self, s):
        pass

    def s_expr(self, s):
        self.ev(s["e"])

    def s_decl(self, s):
        for v in s["v"]:
            if self.S is None:
                return
            if v.get("g"):
                if "d" in v:
                    self.fr.vars[v["d"]] = LV(T("glob", v["g"]))
                if v.get("static"):
                    self.conds.setdefault("statics", set()).add(v["g"])
                continue
            root = T("var", self.fr.key, v["d"], v["n"])
            t = v["t"]
            i = v.get("i")
            if t.isref:
                x = self.ev(i) if i is not None else T("undef", v["n"])
                if self.islv(x):
                    self.fr.vars[v["d"]] = x
                else:
                    if self.S is not None:
                        self.S.env[root] = x
                    self.fr.vars[v["d"]] = LV(root)
                continue
            self.fr.vars[v["d"]] = LV(root)
            if i is None:
                val = self.zero_undef(t, v["n"])
                self.S.env[root] = val
                continue
            if i["k"] == "ctor" and i["c"].id in self.P.funcs and i["c"].id not in self.prims and \
                    i["c"].q not in self.prims and not self.trivial_copy(i["c"], self.P.funcs[i["c"].id]):
                self.S.env[root] = mk_struct(i["c"].cls.n or i["c"].cls.s, None, {})
                self.construct_expr(LV(root), i)
                if self.S is not None and root in self.S.env:
                    self.S.env[root] = self.collapse(self.S.env[root], i["c"].cls)
                continue
            x = self.ev_init(i, LV(root))
            if self.S is not None and x is not None:
                self.S.env[root] = self.val(x)

    def ev_init(self, i, lv):
        """Initialise lv from i; models may construct in place (streams)."""
        if i["k"] == "ctor":
            r = self.models.construct_inplace(self, i, lv)
            if r is not None:
                return None
        return self.ev(i)

    def zero_undef(self, t, name):
        if t.k in ("arr", "array") or (t.n or "").startswith("std::array"):
            return T("undef", name + "[]")
        return T("undef", name)

    def s_if(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        if s.get("cv"):
            self.s_decl({"v": [s["cv"]], "k": "decl"})
        if self.S is None:
            return
        before = self.S.facts
        st, sf = self.cond(s["c"])
        outs = []
        self.S = st
        if self.S is not None:
            if self.markers:
                self.emit("br", "then", tuple(self.S.facts - before), s, extra=("then",))
            self.stmt(s["th"])
        outs.append(self.S)
        self.S = sf
        if self.S is not None and self.markers:
            self.emit("br", "else", tuple(self.S.facts - before), s, extra=("else",))
        if self.S is not None and s.get("el") is not None:
            self.stmt(s["el"])
        outs.append(self.S)
        self.S = self.join(outs)

    def cond(self, e):
        """Evaluate e as a condition: (state when true, state when false)."""
        if self.S is None:
            return None, None
        k = e["k"]
        if k in ("load", "mat") and len(e.get("a", [])) == 1 and e["a"][0]["k"] in ("bin", "un", "cond"):
            return self.cond(e["a"][0])
        if k == "bin" and e["op"] == "&&":
            t, f = self.cond(e["a"][0])
            self.S = t
            t2, f2 = self.cond(e["a"][1])
            return t2, self.join_or(f, f2)
        if k == "bin" and e["op"] == "||":
            t, f = self.cond(e["a"][0])
            self.S = f
            t2, f2 = self.cond(e["a"][1])
            return self.join_or(t, t2), f2
        if k == "un" and e["op"] == "!":
            t, f = self.cond(e["a"][0])
            return f, t
        if k == "cond" and e["t"].k == "bool":
            t, f = self.cond(e["a"][0])
            self.S = t
            t1, f1 = self.cond(e["a"][1])
            self.S = f
            t2, f2 = self.cond(e["a"][2])
            return self.join([t1, t2]), self.join([f1, f2])
        if k == "py":
            v = e["f"]()
        else:
            v = truthy(self.val(self.ev(e)))
        if self.S is None:
            return None, None
        if v.op == "undef" or has_undef(v):
            self.use_undef(v, e, "condition")
        base = self.S
        self.S = base.copy()
        self.assume(v, True)
        t = self.S
        self.S = base.copy()
        self.assume(v, False)
        f = self.S
        return t, f

    def join_or(self, a, b):
        """Join the two ways a short-circuit condition gets its value, keeping the disjunction as a fact."""
        s = self.join([a, b])
        if a is None or b is None or s is None:
            return s
        da, db = a.facts - s.facts, b.facts - s.facts
        neg = {mk_not(x) for x in da}
        db = {x for x in db if x not in neg} or db
        if 0 < len(da) <= 3 and 0 < len(db) <= 3:
            def conj(d):
                r = TRUE
                for x in sorted(d, key=lambda x: x.id):
                    r = mk_and(r, x)
                return r
            o = mk_or(conj(da), conj(db))
            if o.op == "or":
                s.facts = s.facts | {o}
        return s

    def use_undef(self, v, n, why):
        if self.rec and self.S is not None:
            k = self.evkey(n, "undef" + why)
            self.conds.setdefault("undef", {})[k] = dict(v=v, loc=self.loc(n), why=why, facts=self.S.facts,
                                                         fn=self.fr.fn["n"] if self.fr.fn else "?")

    def s_return(self, s):
        v = None
        if s.get("e") is not None:
            x = self.ev(s["e"])
            rt = self.fr.fn["c"].ret if self.fr.fn else None
            if rt is not None and not rt.isref:
                v = self.val(x) if self.S is not None else None
            else:
                v = x
                if self.S is not None and not self.islv(x):
                    v = x
        if self.S is None:
            return
        self.fr.rets.append((self.S, v))
        self.S = None

    def s_break(self, s):
        self.brk[-1].append(self.S)
        self.S = None

    def s_continue(self, s):
        self.cont[-1].append(self.S)
        self.S = None

    def s_switch(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        if s.get("cv"):
            self.s_decl({"v": [s["cv"]], "k": "decl"})
        v = self.val(self.ev(s["c"]))
        if self.S is None:
            return
        body = s["b"]
        items = body["s"] if body["k"] == "block" else [body]
        # flatten case labels
        flat = []

        def add(x):
            if x["k"] == "case":
                flat.append(("case", x))
                add(x["s"])
            elif x["k"] == "default":
                flat.append(("default", x))
                add(x["s"])
            else:
                flat.append(("stmt", x))
        for x in items:
            add(x)
        allcases = []
        for kd, x in flat:
            if kd == "case":
                c = self.val(self.ev(x["e"]))
                allcases.append(mk_eq(v, c))
        base = self.S
        self.brk.append([])
        # the value of a switch over an enumeration is one of its enumerators:
        # recorded for the rules, not assumed here
        cur = None
        ci = 0
        notbefore = []
        for kd, x in flat:
            if kd == "case":
                st = base.copy()
                self.S = st
                self.assume(allcases[ci])
                ci += 1
                if self.S is not None:
                    for o in allcases:
                        pass
                cur = self.join([cur, self.S])
                self.S = cur
            elif kd == "default":
                self.S = base.copy()
                for c in allcases:
                    if self.S is None:
                        break
                    self.assume(c, False)
                cur = self.join([cur, self.S])
                self.S = cur
            else:
                self.S = cur
                if cur is not None:
                    self.stmt(x)
                cur = self.S
        outs = self.brk.pop()
        outs.append(cur)
        if not any(kd == "default" for kd, x in flat):
            self.S = base.copy()
            for c in allcases:
                if self.S is None:
                    break
                self.assume(c, False)
            outs.append(self.S)
        self.S = self.join(outs)

    def s_case(self, s):
        self.stmt(s["s"])

    def s_default(self, s):
        self.stmt(s["s"])

    def s_try(self, s):
        self.thr.append([])
        nb, nc, nr = [len(x) for x in self.brk], [len(x) for x in self.cont], None
        self.stmt(s["b"])
        normal = self.S
        thrown = self.thr.pop()
        outs = [normal]
        rest = thrown
        for h in s["h"]:
            t = h.get("t")
            tn = None
            if t is not None:
                tt = t.strip()
                tn = tt.r or tt.n or tt.s
                tn = tn.replace("const ", "")
            match, rest2 = [], []
            for st, name, val in rest:
                if tn is None or tn in self.P.bases_of(name) or name == "...":
                    match.append((st, name, val))
                    if name == "..." and tn is not None:
                        rest2.append((st.copy(), name, val))
                else:
                    rest2.append((st, name, val))
            rest = rest2
            if match:
                self.S = self.join([m[0] for m in match])
                self.catchvar.append((match[0][1], match[0][2], [m[1] for m in match]))
                if h.get("v"):
                    v = h["v"]
                    root = T("var", self.fr.key, v["d"], v["n"]) if isinstance(v, dict) else None
                    if root is not None:
                        self.S.env[root] = join_values([(frozenset([T("ex", i)]), m[2]) for i, m in enumerate(match)])
                        self.fr.vars[v["d"]] = LV(root)
                self.emit("catch", tn or "...", [], h if "u" in h else s, extra=(tn,),
                          types=tuple(sorted({m[1] for m in match})))
                self.stmt(h["b"])
                self.catchvar.pop()
                outs.append(self.S)
        if self.thr:
            self.thr[-1].extend(rest)
        self.S = self.join(outs)

    # -- loops -----------------------------------------------------------
    def s_while(self, s):
        if s.get("cv"):
            self.loop(s, "while", cond=s["c"], body=s["b"], cv=s["cv"])
        else:
            self.loop(s, "while", cond=s["c"], body=s["b"])

    def s_do(self, s):
        self.loop(s, "do", cond=s["c"], body=s["b"])

    def s_for(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        if self.S is None:
            return
        n = self.const_trip(s)
        if n is not None and n <= 8 and self.small_body(s["b"]):
            self.unrolled(s, n)
            return
        self.loop(s, "for", cond=s.get("c"), body=s["b"], inc=s.get("inc"))

    def const_trip(self, s):
        """Trip count when the loop condition folds to constants, else None."""
        if s.get("c") is None or s.get("inc") is None:
            return None
        if not getattr(self, "unroll_ok", True):
            return None
        save, rec = self.S, self.rec
        self.rec = False
        self.S = save.copy()
        self.thr.append([])
        cnt = 0
        try:
            d = decl_of_cond(s["c"])
            if d is None or assigned_in(s["b"], d):
                return None
            while cnt <= 8:
                v = truthy(self.val(self.ev(s["c"])))
                if v is FALSE:
                    return cnt
                if v is not TRUE:
                    return None
                cnt += 1
                self.ev(s["inc"])
                if self.S is None:
                    return None
            return None
        finally:
            self.thr.pop()
            self.S, self.rec = save, rec

    def small_body(self, b):
        return True

    def unrolled(self, s, n):
        self.brk.append([])
        for i in range(n + 1):
            self.fr.unroll.append((s["u"], i))
            try:
                st, sf = self.cond(s["c"])
                if st is None:
                    self.S = sf
                    break
                if sf is not None:
                    self.brk[-1].append(sf)
                self.S = st
                self.cont.append([])
                self.stmt(s["b"])
                cs = self.cont.pop()
                self.S = self.join([self.S] + cs)
                if self.S is None:
                    break
                self.ev(s["inc"])
            finally:
                self.fr.unroll.pop()
        outs = self.brk.pop()
        self.S = self.join([self.S] + outs)

    def s_range(self, s):
        r = self.ev(s["r"])
        if self.S is None:
            return
        C = self.tolv(r, s, "range")
        cv = self.val(C)
        v = s["v"]
        if cv.op == "arr" and len(cv.args[0]) <= 40 and cv.args[1] <= 40 or \
                (cv.op == "str" and len(cv.args[0]) <= 12) or \
                (cv.op == "vec" and vec_elems(cv) is not None):
            if cv.op == "arr":
                n = cv.args[1]
            elif cv.op == "vec":
                n = len(vec_elems(cv))
            else:
                n = len(cv.args[0])
            if n > 0:
                self.unrolled_range(s, C, n)
                return
        if cv.op == "xrange":
            self.sibling_range(s, cv.args[0], cv.args[1])
            return
        self.loop(s, "range", body=s["b"], rng=(C, v))

    def sibling_range(self, s, parent, name):
        """Range over the child elements of one name: the loop over child(name), next_sibling(name)."""
        hid = LV(T("var", self.fr.key, s["u"], "element"))
        self.S.env[hid.args[0]] = T("xc", parent, name)

        def test():
            return T("exists", self.read(hid))

        def step():
            self._write1(hid, T("xsib", self.read(hid), name))

        def body():
            self.bind_range_var(s["v"], hid)
            self.stmt(s["b"])

        base = {k: s[k] for k in ("u", "l") if k in s}
        self.loop(s, "for", cond=dict(base, k="py", f=test), body=dict(base, k="py", f=body), inc=dict(base, k="py", f=step))

    def s_py(self, s):
        s["f"]()

    def e_py(self, e):
        e["f"]()
        return T("void")

    def unrolled_range(self, s, C, n):
        self.brk.append([])
        for i in range(n):
            self.fr.unroll.append((s["u"], i))
            try:
                self.bind_range_var(s["v"], sub(C, T("idx", INT(i))))
                self.cont.append([])
                self.stmt(s["b"])
                cs = self.cont.pop()
                self.S = self.join([self.S] + cs)
                if self.S is None:
                    break
            finally:
                self.fr.unroll.pop()
        outs = self.brk.pop()
        self.S = self.join([self.S] + outs)

    def bind_range_var(self, v, elem):
        if self.S is None:
            return
        if v["t"].isref:
            self.fr.vars[v["d"]] = elem
        else:
            root = T("var", self.fr.key, v["d"], v["n"])
            self.S.env[root] = self.val(elem)
            self.fr.vars[v["d"]] = LV(root)

    def loop(self, s, kind, cond=None, body=None, inc=None, rng=None, cv=None, runner=None, meta=None):
        """Havoc-and-record treatment of a loop.  `runner` replaces the body
        for algorithms that invoke closures."""
        key = intern_key(self.fr.key, s["u"], "loop", tuple(self.fr.unroll))
        entry = self.S
        mods = self.loopmods.get(key)

        def once(havoc, rec):
            """One abstract iteration from the havocked head; returns
            (exit states, back state, head state)."""
            self.S = entry.copy()
            hv = {}
            for lv in havoc:
                old = self.read(lv)
                ph = T("lphi", key, lv)
                self.lphi.setdefault(ph, (old.args[1] if old.op == "iter" else old, None))
                if old.op == "iter":
                    ph = T("iter", old.args[0], ph)
                self._write1(lv, ph)
                hv[lv] = (old, ph)
            self.emit("loop", kind, [], s, extra=("head",))
            headk = self.evkey(s, "loop:" + kind, ("head",))
            head = self.S.copy()
            self.brk.append([])
            self.cont.append([])
            exits = []
            self.loopstack.append(key)
            try:
                if rng is not None:
                    C, v = rng
                    exits.append(self.S.copy())
                    it = T("i", key)
                    self.bind_range_var(v, sub(C, T("idx", it)))
                    self.stmt(body)
                elif runner is not None:
                    exits.append(self.S.copy())
                    runner(self, key)
                else:
                    if kind == "do":
                        self.stmt(body)
                        cs = self.cont[-1]
                        self.S = self.join([self.S] + cs)
                        self.cont[-1] = []
                        if self.S is not None:
                            t, f = self.cond(cond)
                            exits.append(f)
                            self.S = t
                            if t is not None:
                                self.loopconds[key] = t.facts - head.facts
                    else:
                        if cv:
                            self.s_decl({"v": [cv], "k": "decl"})
                        if cond is not None:
                            t, f = self.cond(cond)
                            exits.append(f)
                            self.S = t
                            if t is not None:
                                self.loopconds[key] = t.facts - head.facts
                        if self.S is not None:
                            self.stmt(body)
                cs = self.cont.pop()
                self.S = self.join([self.S] + cs)
                if self.S is not None and inc is not None:
                    self.ev(inc)
                back = self.S
                bs = self.brk.pop()
            finally:
                self.loopstack.pop()
            if rec and back is not None and headk in self.nodes:
                self.nodes[headk].preds = self.nodes[headk].preds | back.preds
            return exits, bs, back, head, hv

        rec = self.rec
        if mods is None:
            mods = set()
            for it in range(5):
                self.rec = False
                marks = [len(x) for x in self.thr]
                nrets = [len(f.rets) for f in self.frames]
                exits, bs, back, head, hv = once(mods, False)
                for x, m in zip(self.thr, marks):
                    del x[m:]
                for f, m in zip(self.frames, nrets):
                    del f.rets[m:]
                self.rec = rec
                new = self.modified(head, back, key)
                new = reduce_lvs(mods | new)
                if new == mods:
                    break
                mods = new
            self.loopmods[key] = mods
        for tries in range(3):
            marks = [len(x) for x in self.thr]
            nrets = [len(f.rets) for f in self.frames]
            exits, bs, back, head, hv = once(mods, rec)
            new = reduce_lvs(mods | self.modified(head, back, key))
            if new == mods or tries == 2:
                break
            mods = new
            self.loopmods[key] = mods
            for x, m in zip(self.thr, marks):
                del x[m:]
            for f, m in zip(self.frames, nrets):
                del f.rets[m:]
        self.S = None
        for lv, (old, ph) in hv.items():
            p = ph.args[1] if ph.op == "iter" else ph
            bv = None
            if back is not None:
                self.S = back
                bv = self.read(lv)
                self.S = None
                if ph.op == "iter" and bv.op == "iter":
                    bv = bv.args[1]
            o = old.args[1] if old.op == "iter" else old
            self.lphi[p] = (o, bv)
        L = Loop()
        L.key = key
        L.kind = kind
        L.cont = rng[0] if rng else (meta or None)
        L.node = s
        L.file, L.line = self.fr.file, s.get("l", self.fr.line)
        L.frame = self.fr.key
        L.complete = not bs
        L.entry = entry.facts
        L.parent = tuple(self.loopstack)
        L.fn = self.fr.fn["n"] if self.fr.fn else "?"
        L.exits = len(bs)
        L.back = back.facts if back is not None else None     # what holds when another iteration is tried
        L.elem = None
        L.cond = self.loopconds.get(key)     # what holds at the start of every iteration
        if rec:
            self.loops[key] = L
        self.S = self.join(exits + bs)
        if self.S is not None and back is not None:
            # objects allocated by the body stay known (one per site)
            for r, v in back.env.items():
                if r.op == "obj" and r.args[0].op == "new" and r not in self.S.env:
                    self.S.env[r] = v
        if self.S is not None:
            self.emit("loopend", kind, [], s, extra=("end",), loop=key)

    def modified(self, head, back, key):
        if back is None:
            return set()
        res = set()
        for r, v in back.env.items():
            if r.op == "ret":
                continue
            o = head.env.get(r)
            if o is None:
                if r.op in ("var", "tmp"):
                    continue        # declared inside the body
                o = self.default(r)
            if o is not v:
                if r.op == "obj" and r.args[0].op == "new" and r not in head.env:
                    continue
                for path in diff_paths(o, v):
                    res.add(LV(r, path))
        return res

    # -- expressions -----------------------------------------------------
    def ev(self, e):
        if e is None:
            return T("void")
        if self.S is None:
            return T("void")
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            self.note_unknown("expr " + e["k"], e)
            return T("opq", "expr", e["u"])
        return m(e)

    def e_int(self, e):
        return INT(e["v"])

    def e_str(self, e):
        return STR(e["v"])

    def e_float(self, e):
        return T("float", str(e.get("v")))

    def e_null(self, e):
        return NULL

    def e_this(self, e):
        f = self.fr
        while f is not None and f.this is None and f.lex is not None:
            f = f.lex
        return f.this if f is not None and f.this is not None else T("this")

    def lookup(self, d):
        f = self.fr
        while f is not None:
            if d in f.vars:
                return f.vars[d]
            f = f.lex
        return None

    def e_ref(self, e):
        lv = self.lookup(e["d"])
        if lv is None:
            root = T("var", 0, e["d"], e["n"])
            return LV(root)
        return lv

    def e_glob(self, e):
        return LV(T("glob", e["g"]))

    def e_fn(self, e):
        return T("fn", e["c"].id)

    def e_mem(self, e):
        b = self.ev(e["b"])
        if self.S is None:
            return T("void")
        f = e["f"]
        if e.get("arrow"):
            base = self.deref(self.val(b), e, "->" + f)
        else:
            base = b
        cls = e.get("cls")
        cn = (cls.n or cls.r or cls.s) if cls is not None else None
        if not self.islv(base):
            r = project(base, f)
            return r
        al = self.lv_alts(base)
        res = []
        for g, x in al:
            path = x.args[1]
            if path and isinstance(path[-1], Term) and path[-1].op == "key" and f in ("first", "second"):
                if f == "second":
                    res.append((g, x))
                else:
                    res.append((g, self.tolv(path[-1].args[0], e, "key")))
            else:
                y = sub(x, f)
                ft = self.field_type(cn, f)
                if ft is not None and ft.isref:
                    v = self.read(y)
                    y = v if self.islv(v) else LV(T("obj", T("refof", v)))
                res.append((g, y))
        return res[0][1] if len(res) == 1 else mk_phi(res)

    def e_load(self, e):
        x = self.ev(e["a"][0])
        if self.S is None:
            return T("void")
        return self.typed(self.val(x), e.get("t"))

    def typed(self, x, t):
        """Remember the integer type a value was read with (widening conversions leave no trace in the terms)."""
        if x.op not in ("int", "cast") and t is not None:
            ty = ity(t)
            if ty is not None:
                old = self.tys.get(x)
                if old is None or int(ty[1:]) < int(old[1:]):
                    self.tys[x] = ty
                if x.op == "phi":
                    for g, y in alts(x):
                        self.typed(y, t)
        return x

    def e_mat(self, e):
        x = self.ev(e["a"][0])
        if self.S is None:
            return T("void")
        if self.islv(x):
            return x
        return self.tolv(x, e, "mat")

    def e_decay(self, e):
        x = self.ev(e["a"][0])
        if self.S is None:
            return T("void")
        if x.op == "str":
            return x
        if self.islv(x):
            v = self.val(x)
            if v.op == "str":
                return v
            self.note_cap(x, e["a"][0].get("t"))
            return T("cdata", x)
        return x

    def e_bcast(self, e):
        return self.ev(e["a"][0])

    def e_cast(self, e):
        x = self.ev(e["a"][0])
        if self.S is None:
            return T("void")
        ck = e["ck"]
        t, ft = e.get("t"), e.get("ft")
        if ck == "ToVoid":
            return T("void")
        if ck in ("LValueBitCast",):
            return x
        if ck in ("BitCast", "NoOp", "ReinterpretMemberPointer", "PointerToIntegral", "IntegralToPointer",
                  "BaseToDerived", "DerivedToBase", "UncheckedDerivedToBase", "Dynamic"):
            return x
        x = self.val(x)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return truthy(x)
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            self.typed(x, ft)
            return mk_cast(ity(t), x, ity(ft))
        if ck in ("NullToPointer",):
            return NULL
        if ck in ("IntegralToFloating", "FloatingToIntegral", "FloatingCast"):
            return T("cast", ity(t) or "f", x, ity(ft))
        if ck == "lv":
            return x
        return x

    def e_un(self, e):
        op = e["op"]
        if op == "!":
            v = self.val(self.ev(e["a"][0]))
            return mk_not(truthy(v)) if self.S is not None else T("void")
        x = self.ev(e["a"][0])
        if self.S is None:
            return T("void")
        if op in ("++", "--"):
            old = self.val(x)
            ty = ity(e.get("t"))
            new = mk_bin("+" if op == "++" else "-", old, INT(1), ty)
            self.write(x, new, e)
            return old if e.get("post") else x
        if op == "*":
            return self.deref(self.val(x), e, "*")
        if op == "&":
            if self.islv(x):
                self.note_cap(x, e["a"][0].get("t"))
                al = self.lv_alts(x)
                res = []
                for g, y in al:
                    if y.args[0].op == "obj" and not y.args[1]:
                        res.append((g, y.args[0].args[0]))
                    else:
                        res.append((g, T("addr", y)))
                return res[0][1] if len(res) == 1 else mk_phi(res)
            return x
        v = self.val(x)
        if op == "-":
            if v.op == "int":
                return INT(wrap(-v.args[0], ity(e.get("t"))))
            return mk_bin("-", INT(0), v, ity(e.get("t")))
        if op == "~":
            if v.op == "int":
                return INT(wrap(~v.args[0], ity(e.get("t"))))
            return T("bin", "^", v, INT(-1), ity(e.get("t")))
        if op in ("+", "__extension__"):
            return v
        return T("un", op, v)

    def e_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            return self.bool_via_cond(e)
        if op == ",":
            self.ev(e["a"][0])
            return self.ev(e["a"][1])
        if op == "=":
            r = self.ev(e["a"][1])
            if self.S is None:
                return T("void")
            rv = self.val(r)
            l = self.ev(e["a"][0])
            if self.S is None:
                return T("void")
            self.write(self.tolv(l, e), rv, e)
            return l
        a = self.val(self.ev(e["a"][0]))
        if self.S is None:
            return T("void")
        b = self.val(self.ev(e["a"][1]))
        if self.S is None:
            return T("void")
        return mk_bin(op, a, b, ity(e.get("t")))

    def bool_via_cond(self, e):
        t, f = self.cond(e)
        if t is None and f is None:
            self.S = None
            return T("void")
        if t is None:
            self.S = f
            return FALSE
        if f is None:
            self.S = t
            return TRUE
        # pure conditions: build the boolean term when the states only differ in facts
        root = T("ret", intern_key("b", e["u"], self.fr.key))
        t = t.copy()
        f = f.copy()
        t.env[root] = TRUE
        f.env[root] = FALSE
        self.S = self.join([t, f])
        return self.S.env.pop(root)

    def e_casg(self, e):
        l = self.ev(e["a"][0])
        if self.S is None:
            return T("void")
        r = self.val(self.ev(e["a"][1]))
        if self.S is None:
            return T("void")
        old = self.val(l)
        op = e["op"].rstrip("=") if e["op"] not in ("<<=", ">>=") else e["op"][:-1]
        ct, lt = e.get("ct"), e.get("t")
        o2 = mk_cast(ity(ct), old, ity(lt)) if ity(ct) and ity(lt) else old
        new = mk_bin(op, o2, r, ity(ct))
        if ity(ct) and ity(lt):
            new = mk_cast(ity(lt), new, ity(ct))
        self.write(self.tolv(l, e), new, e)
        return l

    def e_cond(self, e):
        if is_assert(e) and self.S is not None:
            # value of the asserted condition, for the rules
            base, rec, n = self.S, self.rec, [len(x) for x in self.thr]
            self.rec = False
            self.S = base.copy()
            v = truthy(self.val(self.ev(e["a"][0])))
            self.assertcond = (v, base.facts) if self.S is not None else None
            for x, m in zip(self.thr, n):
                del x[m:]
            self.S, self.rec = base, rec
        t, f = self.cond(e["a"][0])
        root = T("ret", intern_key("c", e["u"], self.fr.key))
        outs = []
        lvs = []
        for st, x in ((t, e["a"][1]), (f, e["a"][2])):
            self.S = st
            if st is None:
                continue
            v = self.ev(x)
            if self.S is None:
                continue
            if not e.get("lv"):
                v = self.val(v)
            if v is None:
                v = T("void")
            self.S.env[root] = v
            outs.append(self.S)
        self.S = self.join(outs)
        if self.S is None:
            return T("void")
        return self.S.env.pop(root, T("void"))

    def e_sub(self, e):
        b = self.ev(e["a"][0])
        if self.S is None:
            return T("void")
        i = self.val(self.ev(e["a"][1]))
        if self.S is None:
            return T("void")
        if self.islv(b) and e["a"][0].get("t") is not None and e["a"][0]["t"].k == "arr":
            C = b
            self.note_cap(b, e["a"][0]["t"])
        else:
            b = self.val(b)
            if b.op == "cdata":
                C = b.args[0]
            elif b.op == "addr":
                C = b.args[0]
            elif b.op == "padd" and b.args[0].op in ("cdata", "addr"):
                C = b.args[0].args[0]
                i = mk_bin("+", b.args[1], i, None)
            elif b.op == "str":
                self.note_index(b, i, e, "[]")
                return project(b, T("idx", i))
            else:
                self.note_deref(b, e, "[]")
                C = LV(T("obj", b))
            base, off = self.pointer(b)
            pt = e["a"][0].get("t")
            ps = byte_size(pt.p) if pt is not None and pt.k == "ptr" and pt.p is not None else None
            cap = self.caps.get(base)
            if base is not None and base is not C or cap is not None and ps != cap[1]:
                if cap is not None and ps is not None and ps != cap[1]:
                    self.note_access(b, mk_bin("*", mk_bin("+", i, INT(1), None), INT(ps), None), e, "[]")
                else:
                    self.note_index(base, mk_bin("+", off, i, None), e, "[]")
                return self.sub_all(C, T("idx", i))
        self.note_index(C, i, e, "[]")
        return self.sub_all(C, T("idx", i))

    def sub_all(self, C, pe):
        al = self.lv_alts(C)
        res = [(g, sub(x, pe)) for g, x in al]
        return res[0][1] if len(res) == 1 else mk_phi(res)

    def e_init(self, e):
        t = e["t"]
        vals = [self.val(self.ev(a)) for a in e["a"]]
        if self.S is None:
            return T("void")
        if t.k == "arr":
            n = arr_len(t)
            fill = None
            if e.get("filler") is not None:
                fill = self.val(self.ev(e["filler"]))
            if n is None:
                n = len(vals)
            if all(v is INT(0) for v in vals) and (len(vals) == n or fill is INT(0) or fill is None or fill.op == "zeros"):
                return T("zeros", n)
            if len(vals) < n and n <= 4096 and fill is not None:
                vals = vals + [fill] * (n - len(vals))
            return T("arr", tuple(vals), n)
        if t.k == "rec":
            name = t.n or t.r or t.s
            if (t.r or "").startswith("std::array") or t.s.startswith("std::array") or (t.n or "").startswith("std::array"):
                if len(vals) == 1 and vals[0].op in ("arr", "zeros", "str"):
                    return vals[0]
                if not vals:
                    return T("zeros", 0)
                return T("arr", tuple(vals), len(vals))
            r = self.P.record(t.n or t.r)
            if r is not None:
                fs = [x["n"] for x in r["fields"]]
                if len(vals) <= len(fs):
                    return self.collapse(mk_struct(name, None, dict(zip(fs, vals))), t)
            return mk_struct(name, None, {str(i): v for i, v in enumerate(vals)})
        if len(vals) == 1:
            return vals[0]
        if not vals:
            return INT(0)
        return T("list", *vals)

    def e_zeroinit(self, e):
        t = e.get("t")
        if t is None or t.k in ("int", "bool", "enum", "float"):
            return INT(0)
        if t.k in ("ptr", "nullptr"):
            return NULL
        return T("zeros", arr_len(t) or 0)

    def e_stdinit(self, e):
        x = self.val(self.ev(e["a"][0]))
        return x

    def e_lambda(self, e):
        caps = []
        for c in e.get("caps", []):
            if c.get("this"):
                caps.append(("this", None, self.e_this(e)))
            elif c.get("ref"):
                lv = self.lookup(c["d"])
                if lv is None:
                    lv = LV(T("var", 0, c["d"], c["n"]))
                caps.append((c["d"], c["n"], lv))
            else:
                if c.get("init") is not None:
                    v = self.val(self.ev(c["init"]))
                else:
                    lv = self.lookup(c["d"])
                    v = self.read(lv) if lv is not None else T("opq", "cap", c["d"])
                caps.append((c["d"], c["n"], v))
        return T("closure", e["c"].id, tuple(caps), e["u"])

    def e_new(self, e):
        t = e["t"]
        name = t.n or t.r or t.s
        k = self.evkey(e, "new")
        ev = self.emit("new", name, [], e)
        p = T("new", ev, name)
        root = T("obj", p)
        if e.get("array"):
            self.S.env[root] = T("undef", name)
            return T("addr", LV(root))
        if e["a"]:
            i = e["a"][0]
            self.heap_construct(p, i)
        elif self.S is not None:
            self.S.env[root] = T("undef", name)
        return p

    def heap_construct(self, p, i):
        root = T("obj", p)
        self.S.env[root] = mk_struct(p.args[1], None, {})
        if i["k"] == "ctor" and i["c"].id in self.P.funcs and i["c"].q not in self.prims and \
                not self.trivial_copy(i["c"], self.P.funcs[i["c"].id]):
            self.construct_expr(LV(root), i)
        else:
            x = self.ev_init(i, LV(root))
            if self.S is not None and x is not None:
                self.S.env[root] = self.val(x)

    def e_delete(self, e):
        for a in e.get("a", []):
            self.ev(a)
        return T("void")

    def e_throw(self, e):
        if not e.get("a"):
            # rethrow
            if self.catchvar:
                for nm in self.catchvar[-1][2]:
                    self.throw_state(nm, self.catchvar[-1][1], e)
            else:
                self.throw_state("...", T("opq", "rethrow"), e)
            self.S = None
            return T("void")
        v = self.val(self.ev(e["a"][0]))
        if self.S is None:
            return T("void")
        t = e["tt"].strip()
        self.do_throw((t.r or t.n or t.s), v, e)
        return T("void")

    def e_arrcopy(self, e):
        return self.val(self.ev(e["a"][0]))

    def e_typeid(self, e):
        return T("opq", "typeid", e["u"])

    def e_stmtexpr(self, e):
        for x in e.get("a", []):
            self.stmt(x)
        return T("void")

    def e_unk(self, e):
        return T("opq", e.get("cls", "?"), e["u"])

    # -- construction and calls -----------------------------------------
    def e_ctor(self, e):
        c = e["c"]
        f = self.P.funcs.get(c.id)
        if f is not None and c.q not in self.prims and not self.trivial_copy(c, f):
            root = T("tmp", self.fr.key, intern_key(self.fr.key, e["u"], "ctor", tuple(self.fr.unroll)))
            args = [self.ev(a) for a in e.get("a", [])]
            if self.S is None:
                return T("void")
            self.S.env[root] = mk_struct(c.cls.n or c.cls.s, None, {})
            self.call_function(f, T("addr", LV(root)), args, e)
            if self.S is None:
                return T("void")
            v = self.S.env.pop(root, T("undef", c.n))
            return self.collapse(v, c.cls)
        if (c.copy or c.move) and (f is not None or c.cls is not None and c.cls.repo):
            return self.val(self.ev(e["a"][0]))
        return self.models.construct(self, e)

    def collapse(self, v, cls):
        """struct whose fields all project the same value is that value."""
        if v.op != "struct":
            return v
        b = None
        rec = self.P.record(cls.n or cls.r) if cls is not None else None
        if rec is None or not rec["fields"] or rec["bases"]:
            return v
        d = dict(v.args[2])
        for f in rec["fields"]:
            x = d.get(f["n"])
            if x is None or x.op != "fld" or x.args[1] != f["n"]:
                return v
            if b is None:
                b = x.args[0]
            elif b is not x.args[0]:
                return v
        return b

    def e_call(self, e):
        c = e.get("c")
        if c is None:
            return self.indirect_call(e)
        # object first, then arguments
        q = c.q
        obj = None
        if q in self.models.LAZY:
            return self.models.LAZY[q](self, e)
        if "o" in e and e["o"] is not None:
            obj = self.ev(e["o"])
            if self.S is None:
                return T("void")
            if e.get("arrow"):
                obj = self.deref(self.val(obj), e, "->" + (c.sn or c.q.split("::")[-1]))
        args = []
        for a in e.get("a", []):
            x = self.ev(a)
            if self.S is None:
                return T("void")
            args.append(x)
        return self.call(c, obj, args, e)

    def call(self, c, obj, args, e):
        q = c.q
        if c.id in self.prims or q in self.prims:
            return self.primitive(c, obj, args, e)
        f = self.P.funcs.get(c.id)
        if f is not None and (f.get("body") is not None):
            if c.virt and not e.get("qual") and obj is not None:
                # dynamic dispatch on a known class
                cls = self.dyn_class(obj)
                if cls is not None:
                    g = self.find_override(cls, c)
                    if g is not None:
                        return self.call_function(g, T("addr", self.tolv(obj, e)), args, e)
            if f.get("lambda"):
                cl = self.val(obj) if obj is not None else None
                return self.call_closure(cl, args, e)
            if (c.casg or c.masg) and (f.get("implicit") or f.get("defaulted")):
                self.write(obj, self.val(args[0]), e)
                return obj
            this = None
            if obj is not None and not c.static:
                o = self.tolv(obj, e)
                this = self.addr_of(o)
            return self.call_function(f, this, args, e)
        if c.virt and obj is not None and c.cls is not None and c.cls.repo:
            cls = self.dyn_class(obj)
            if cls is not None:
                g = self.find_override(cls, c)
                if g is not None and g["c"].q not in self.prims:
                    return self.call_function(g, self.addr_of(self.tolv(obj, e)), args, e)
            return self.primitive(c, obj, args, e)
        return self.models.call(self, c, obj, args, e)

    def addr_of(self, lv):
        al = self.lv_alts(lv)
        res = []
        for g, y in al:
            if y.args[0].op == "obj" and not y.args[1]:
                res.append((g, y.args[0].args[0]))
            else:
                res.append((g, T("addr", y)))
        return res[0][1] if len(res) == 1 else mk_phi(res)

    def dyn_class(self, obj):
        if obj.op == "lv" and not obj.args[1] and obj.args[0].op == "obj" and obj.args[0].args[0].op == "new":
            return obj.args[0].args[0].args[1]
        return None

    def find_override(self, cls, c):
        r = self.P.record(cls)
        if r is None:
            return None
        for m in r["methods"]:
            if m["c"].sn == c.sn and len(m["c"].ps) == len(c.ps) and m["c"].id in self.P.funcs:
                return self.P.funcs[m["c"].id]
        return None

    def primitive(self, c, obj, args, e):
        """A repository function kept as one event."""
        a = []
        vals = []
        if obj is not None:
            a.append(obj)
            vals.append(self.val(obj) if self.islv(obj) else obj)
        for i, x in enumerate(args):
            a.append(x)
            p = c.ps[i] if i < len(c.ps) else None
            if c.q not in self.models.PRIM and p is not None and p.k == "ref" and not p.p.const and \
                    self.val(x).op == "undef":
                vals.append(T("outarg", i))
            else:
                vals.append(self.val(x))
        h = self.models.PRIM.get(c.q)
        if h is not None:
            return h(self, c, obj, args, e, vals)
        ev = self.emit("prim", c.q, a, e, vals=tuple(vals), callee=c)
        for i, (p, x) in enumerate(zip(c.ps, args)):
            if p.k == "ref" and not p.p.const and self.islv(x):
                self.write(x, T("out", ev, c.q, i, tuple(vals)), e)
        if c.ret.k == "void":
            return T("void")
        return T("prim", c.q, tuple(vals), ev) if not c.cm and not c.static else T("prim", c.q, tuple(vals), ev)

    def call_closure(self, cl, args, n):
        if cl.op in ("phi", "many"):
            base = self.S
            outs = []
            res = []
            RT = T("ret", intern_key("cc", n["u"], self.fr.key))
            for g, v in alts(cl):
                self.S = base.copy()
                if guard_conflict(g, self.S.facts):
                    continue
                self.S.facts = self.S.facts | g
                r = self.call_closure(v, args, n)
                if self.S is not None:
                    self.S.env[RT] = r if r is not None else T("void")
                    outs.append(self.S)
            self.S = self.join(outs)
            return self.S.env.pop(RT, T("void")) if self.S is not None else T("void")
        if cl.op == "closure":
            f = self.P.funcs.get(cl.args[0])
            if f is None:
                self.note_unknown("closure body", n)
                return T("opq", "closure", n["u"])
            caps = {}
            this = None
            lexkey = intern_key(self.fr.key, n["u"], "clos", cl.id)
            for d, nm, v in cl.args[1]:
                if d == "this":
                    this = v
                elif v.op == "lv" or self.islv(v):
                    caps[d] = v
                else:
                    root = T("var", lexkey, d, nm)
                    if root not in self.S.env:
                        self.S.env[root] = v
                    caps[d] = LV(root)
            return self.inline_closure(f, this, args, n, caps)
        if cl.op == "fn":
            f = self.P.funcs.get(cl.args[0])
            if f is not None:
                return self.call_function(f, None, args, n)
            c = self.P.callees.get(cl.args[0])
            if c is not None:
                return self.models.call(self, c, None, args, n)
        if cl.op == "functor":
            return self.models.functor(self, cl, args, n)
        if cl.op == "struct":
            r = self.P.record(cl.args[0])
            if r is not None:
                for m in r["methods"]:
                    if m["n"] == "operator()" and m["c"].id in self.P.funcs:
                        lv = self.tolv(cl, n, "fo")
                        return self.call_function(self.P.funcs[m["c"].id], T("addr", lv), args, n)
        ev = self.emit("callback", "?", [cl] + [self.val(a) for a in args], n, lvs=tuple(args))
        return T("opqcall", cl, tuple(self.val(a) for a in args), ev)

    def inline_closure(self, f, this, args, n, caps):
        if any(fr.fid == f["fid"] for fr in self.frames):
            return self.recursive_call(f, this, args, n)
        return self.inline(f, this, args, n, None, caps)

    def indirect_call(self, e):
        if "pm" in e and e["pm"] is not None:
            pm = self.val(self.ev(e["pm"]))
            obj = self.ev(e["o"])
            if self.S is None:
                return T("void")
            if e.get("arrow"):
                obj = self.deref(self.val(obj), e, "->*")
            args = [self.ev(a) for a in e.get("a", [])]
            if self.S is None:
                return T("void")
            if pm.op == "fn":
                c = self.P.callees.get(pm.args[0])
                if c is not None:
                    return self.call(c, obj, args, e)
            if pm.op == "addr" and pm.args[0].op == "lv":
                pass
            self.note_unknown("member pointer call", e)
            return T("opq", "pm", e["u"])
        fe = self.val(self.ev(e["fe"]))
        args = [self.ev(a) for a in e.get("a", [])]
        if self.S is None:
            return T("void")
        return self.call_closure(fe, args, e)

    # -- roots -----------------------------------------------------------
    def run_root(self, fn, argspec=None, this_cls=None, facts=()):
        """Interpret fn with symbolic arguments.  Returns (state, value, thrown)."""
        self.S = State({}, frozenset(facts), frozenset())
        self.frames = []
        self.thr = [[]]
        self.loopstack = []
        key = intern_key("root", fn["fid"])
        this = None
        if fn.get("rec") and not fn["c"].static:
            this = T("addr", LV(T("self", this_cls or fn["rec"])))
        dummy = self.mkframe(fn, intern_key("rootcaller", fn["fid"]), None)
        self.frames.append(dummy)
        args = []
        for p in fn["ps"]:
            r = T("par", p["n"])
            if argspec and p["n"] in argspec:
                args.append(argspec[p["n"]])
            elif p["t"].isref:
                args.append(LV(r))
            else:
                args.append(r)
        self.emit("start", fn["n"], [], None)
        v = self.inline_root(fn, this, args, key)
        thrown = self.thr.pop()
        self.frames.pop()
        return self.S, v, thrown

    def inline_root(self, fn, this, args, key):
        if fn["fid"] in self.recursive:
            keep = self.drop_frame
            r = self.outer_recursive(fn, this, args, None, None, None)
            if self.S is not None:
                self.emit("return", fn["n"], [r], None)
            return r
        keep = self.drop_frame
        self.drop_frame = lambda k, keep=None: None if k == key else Interp.drop_frame(self, k)
        try:
            v = self.inline(fn, this, args, None, key=key)
        finally:
            del self.drop_frame
        if self.S is not None:
            self.emit("return", fn["n"], [v], None)
        return v


# -- helpers ------------------------------------------------------------
def is_assert(e):
    x = e["a"][2] if len(e.get("a", [])) > 2 else None
    while isinstance(x, dict) and x.get("k") in ("cast", "load", "bcast", "mat", "stmtexpr") and x.get("a"):
        x = x["a"][0]
    return isinstance(x, dict) and x.get("k") == "call" and isinstance(x.get("c"), Callee) and \
        x["c"].q == "__assert_fail"


def ity(t):
    if t is None:
        return None
    t = t.strip()
    if t.k == "bool":
        return "u1"
    if t.k in ("int", "enum") and t.w:
        return ("s" if t.sg else "u") + str(t.w)
    return None


def byte_size(t):
    if t.k in ("int", "bool", "enum"):
        return max(1, (t.w or 8) // 8)
    if t.k == "ptr":
        return 8
    if t.k == "arr":
        n = arr_len(t)
        return n * byte_size(t.p) if n is not None and t.p is not None and byte_size(t.p) else None
    return t.size


def cap_of(t):
    """(number of elements or None when it varies, bytes per element) of an object of type t."""
    n = t.n if isinstance(t.n, str) and t.n else t.s or ""
    if n.startswith("std::array") or t.k == "arr":
        el = t.p if t.k == "arr" else next((a for a in t.args or () if not isinstance(a, int)), None)
        k = arr_len(t)
        return None if k is None or el is None else (k, byte_size(el))
    if n.startswith(("std::vector", "std::basic_string")):
        el = next((a for a in t.args or () if not isinstance(a, int)), None)
        z = byte_size(el) if el is not None else None
        return (None, z) if n.startswith("std::vector") else (None, z, "str")
    if t.k in ("int", "bool", "enum", "rec") and not n.startswith("std::"):
        z = byte_size(t)
        return None if z is None else (1, z)
    return None


def arr_len(t):
    if t.k == "arr":
        m = t.s[t.s.rfind("[") + 1:-1] if "[" in t.s else ""
        # first dimension
        i = t.s.find("[")
        if i >= 0:
            j = t.s.find("]", i)
            m = t.s[i + 1:j]
        return int(m) if m.isdigit() else None
    if t.s.find("std::array<") >= 0 and t.args:
        for a in t.args:
            if isinstance(a, int):
                return a
    return None


def join_values(al):
    """Join guarded values; structs with the same shape are joined per field."""
    vals = [v for g, v in al]
    if not vals:
        return T("undef", "join")
    if all(v is vals[0] for v in vals):
        return vals[0]
    if all(v.op == "struct" for v in vals):
        c0, b0 = vals[0].args[0], vals[0].args[1]
        if all(v.args[1] is b0 for v in vals):
            fs = set()
            for v in vals:
                fs.update(k for k, x in v.args[2])
            out = {}
            for f in fs:
                out[f] = join_values([(g, project(v, f)) for g, v in al])
            return mk_struct(next((v.args[0] for v in vals if v.args[0]), None), b0, out)
    if any(v.op == "struct" for v in vals):
        # struct over its own base against the plain base
        bases = {v.args[1] if v.op == "struct" else v for v in vals}
        if len(bases) == 1 and None not in bases:
            b = bases.pop()
            fs = set()
            for v in vals:
                if v.op == "struct":
                    fs.update(k for k, x in v.args[2])
            out = {}
            for f in fs:
                out[f] = join_values([(g, project(v, f)) for g, v in al])
            return mk_struct(next((v.args[0] for v in vals if v.op == "struct" and v.args[0]), None), b, out)
    if all(v.op == "iter" for v in vals) and all(v.args[0] is vals[0].args[0] for v in vals):
        return T("iter", vals[0].args[0], join_values([(g, v.args[1]) for g, v in al]))
    return mk_phi(al)


def update_phi(v, path, new, I):
    if path and v.op == "phi" and not (isinstance(path[0], Term)):
        return mk_phi([(g, update(x, path, new)) for g, x in v.args[0]])
    return update(v, path, new)


def diff_paths(a, b, depth=4):
    """Field paths at which two values differ."""
    if a is b:
        return []
    if depth > 0 and a.op == "struct" and b.op == "struct" and a.args[1] is b.args[1]:
        fs = {k for k, x in a.args[2]} | {k for k, x in b.args[2]}
        out = []
        for f in sorted(fs, key=str):
            if isinstance(f, Term):
                return [()]
            for p in diff_paths(project(a, f), project(b, f), depth - 1):
                out.append((f,) + p)
        return out
    if depth > 0 and b.op == "struct" and b.args[1] is a:
        out = []
        for f, x in b.args[2]:
            if isinstance(f, Term):
                return [()]
            for p in diff_paths(project(a, f), x, depth - 1):
                out.append((f,) + p)
        return out
    return [()]


def reduce_lvs(s):
    """Drop locations covered by a prefix."""
    by = {}
    for lv in s:
        by.setdefault(lv.args[0], []).append(lv.args[1])
    out = set()
    for r, ps in by.items():
        ps = sorted(set(ps), key=len)
        keep = []
        for p in ps:
            if not any(p[:len(q)] == q for q in keep):
                keep.append(p)
        for p in keep:
            out.add(LV(r, p))
    return out


def pure_value(v):
    for t in subterms(v):
        if t.op in ("lv", "ev", "var", "tmp", "undef", "opq", "par"):
            return False
    return True


_hu = {}


RECORDS = {}
LIBFIELDS = {"tm": ("tm_sec", "tm_min", "tm_hour", "tm_mday", "tm_mon", "tm_year", "tm_isdst")}
# operations whose result does not depend on the prior content of their storage argument
FRESH = ("resized",)


def has_undef(v):
    """True when v depends on storage that was never written."""
    r = _hu.get(v)
    if r is not None:
        return r
    _hu[v] = False
    if v.op == "undef":
        r = True
    elif v.op == "struct":
        fs = dict(v.args[2])
        r = any(has_undef(x) for x in fs.values())
        b = v.args[1]
        if not r and b is not None:
            if b.op == "undef":
                name = v.args[0] or b.args[0].split(".")[0]
                want = LIBFIELDS.get(name) or RECORDS.get(name)
                if want is not None:
                    r = any(f not in fs for f in want)
                else:
                    r = False
            else:
                r = has_undef(b)
    elif v.op == "upd":
        # element-wise initialisation: decided by the container analysis
        r = has_undef(v.args[2]) or (v.args[0].op not in ("undef", "upd") and has_undef(v.args[0])) or \
            (v.args[0].op == "upd" and has_undef(v.args[0]))
    elif v.op in ("lphi", "ev"):
        r = False
    elif v.op == "phi":
        # an array filled element by element joins "not yet" with "written"
        def arr(x):
            return x.op == "undef" and str(x.args[0]).endswith("[]")
        alts = [x for _, x in v.args[0]]
        if any(arr(x) for x in alts) and not all(arr(x) for x in alts):
            alts = [x for x in alts if not arr(x)]
        r = any(has_undef(x) for x in alts)
    else:
        r = any(has_undef(x) for x in kids(v))
    _hu[v] = r
    return r


def vec_elems(v):
    out = []
    while v.op == "vec":
        out.append(v.args[1])
        v = v.args[0]
        if len(out) > 12:
            return None
    if v.op == "empty":
        return out[::-1]
    return None


def decl_of_cond(c):
    """Local variable compared in a loop condition."""
    res = []

    def walk(n):
        if isinstance(n, list):
            for x in n:
                walk(x)
        elif isinstance(n, dict):
            if n.get("k") == "ref":
                res.append(n["d"])
            if n.get("k") in ("call",):
                if "o" in n:
                    return
            for v in n.values():
                if isinstance(v, (dict, list)):
                    walk(v)
    walk(c)
    return res[0] if res else None


def assigned_in(b, d):
    hit = []

    def isref(n):
        while n.get("k") in ("load", "mat", "bcast", "cast") and n.get("a"):
            n = n["a"][0]
        return n.get("k") == "ref" and n["d"] == d

    def walk(n):
        if isinstance(n, list):
            for x in n:
                walk(x)
        elif isinstance(n, dict):
            k = n.get("k")
            if k == "casg" and isref(n["a"][0]):
                hit.append(1)
            if k == "bin" and n.get("op") == "=" and isref(n["a"][0]):
                hit.append(1)
            if k == "un" and n.get("op") in ("++", "--") and isref(n["a"][0]):
                hit.append(1)
            for v in n.values():
                if isinstance(v, (dict, list)):
                    walk(v)
    walk(b)
    return bool(hit)
