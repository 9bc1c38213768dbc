"""Evaluation of integer code to value graphs.

Loops with constant bounds are unrolled, memory is a set of byte arrays, every number is a value of bits.py.  A branch on a
condition that is not constant is taken both ways and the memories are merged bit by bit.  Whatever is not modelled raises
Unknown, which makes the obligation undecided.
"""
from .bits import *
from . import bits as B

LIMIT = 20000


class Throw(Exception):
    def __init__(self, name):
        self.name = name


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Mem:
    __slots__ = ("b", "es", "name")

    def __init__(self, b, es=1, name=""):
        self.b, self.es, self.name = b, es, name


class Box:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v


class Rec:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f


class L:
    """Place in memory; idx is a symbolic element number counted from off."""
    __slots__ = ("m", "off", "t", "idx")

    def __init__(self, m, off, t, idx=None):
        self.m, self.off, self.t, self.idx = m, off, t, idx


class Ptr:
    __slots__ = ("m", "off", "es")

    def __init__(self, m, off, es):
        self.m, self.off, self.es = m, off, es


class RPtr:
    """Pointer to a record or a boxed value."""
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r


class Closure:
    __slots__ = ("c", "vars", "this")

    def __init__(self, c, vars, this):
        self.c, self.vars, self.this = c, vars, this


class Back:
    """back_insert_iterator"""
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m


class Functor:
    """Operator object of the standard library."""
    __slots__ = ("op", "w")

    def __init__(self, op, w):
        self.op, self.w = op, w


NULLP = object()


def ctype(t):
    """(width, signed) of an integer type."""
    if t is None:
        return None
    t = t.strip()
    if t.k == "bool":
        return (8, False)
    if t.k in ("int", "enum") and t.w:
        return (t.w, bool(t.sg))
    return None


def elem(t):
    """Element type of an array type."""
    t = t.strip()
    if t.k == "arr":
        return t.p if hasattr(t.p, "k") else (t.args[0] if t.args else None)
    if t.args:
        a = t.args[0]
        return a if hasattr(a, "k") else None
    return None


def isarr(t):
    t = t.strip()
    return t.k == "arr" or (t.r or "") == "std::array"


def isdyn(t):
    return (t.strip().r or "") in ("std::vector", "std::basic_string")


def tsize(t):
    t = t.strip()
    c = ctype(t)
    if c:
        return max(1, c[0] // 8)
    if t.size:
        return t.size
    if t.k == "arr":
        d = t.s[t.s.index("["):]
        n = 1
        for x in d.strip("[]").split("]["):
            n *= int(x)
        base = elem(t)
        while base is not None and base.k == "arr":
            base = elem(base)
        return n * tsize(base)
    raise Unknown("size of " + t.s)


class Frame:
    def __init__(self, fn, this, lex=None):
        self.fn, self.this, self.lex, self.vars = fn, this, lex, {}


class Ev:
    def __init__(self, P, opaque=None):
        self.P = P
        self.opaque = opaque or {}
        self.frames = []
        self.globs = {}
        self.journal = []
        self.heads = {}
        self.steps = 0
        self.limit = 400000
        self.notes = []

    # -- memory
    def touch(self, m):
        for j in self.journal:
            if m not in j:
                j[m] = list(m.b) if isinstance(m, Mem) else m.v

    def store(self, m, off, v, n):
        self.touch(m)
        if off < 0 or off + n > len(m.b):
            raise Unknown("store outside of an object")
        if isinstance(v, int):
            for i in range(n):
                m.b[off + i] = v >> (8 * i) & 255
        else:
            b = bits(v, 8 * n)
            for i in range(n):
                m.b[off + i] = norm(b[8 * i:8 * i + 8])

    def load(self, m, off, n):
        if off < 0 or off + n > len(m.b):
            raise Unknown("read outside of an object")
        out = ()
        num = 0
        const = True
        for i in range(n):
            x = m.b[off + i]
            if x is None:
                raise Unknown("read of storage without a value")
            if isinstance(x, int):
                num |= x << (8 * i)
            else:
                const = False
            out += bits(x, 8)
        return num if const else out

    def rd(self, x, t=None):
        """Value of an expression result."""
        if isinstance(x, L):
            c = ctype(x.t)
            if c is None:
                if x.t.strip().k == "ptr":
                    raise Unknown("pointer in memory")
                return x
            n = max(1, c[0] // 8)
            if x.idx is not None:
                if n != 1 or any(not isinstance(y, int) for y in x.m.b[x.off:]):
                    raise Unknown("symbolic index")
                return table(x.m.b[x.off:], x.idx)
            return self.load(x.m, x.off, n)
        if isinstance(x, Box):
            return x.v
        return x

    def wr(self, l, v):
        if isinstance(l, L):
            c = ctype(l.t)
            if c is None:
                self.copyinto(l, v)
                return
            if l.idx is not None:
                raise Unknown("store at a symbolic index")
            self.store(l.m, l.off, v, max(1, c[0] // 8))
        elif isinstance(l, Box):
            self.touch(l)
            l.v = v
        elif isinstance(l, Mem):
            self.assign(l, v)
        elif isinstance(l, Rec) and isinstance(v, Rec):
            for k, x in self.clone(v).f.items():
                l.f[k] = x
        else:
            raise Unknown("store")

    def copyinto(self, l, v):
        n = tsize(l.t)
        if isinstance(v, Mem):
            v = L(v, 0, l.t)
        if not isinstance(v, L):
            raise Unknown("copy of an aggregate")
        src = v.m.b[v.off:v.off + n]
        self.touch(l.m)
        l.m.b[l.off:l.off + n] = src

    def assign(self, m, v):
        if isinstance(v, L):
            n = tsize(v.t)
            b = v.m.b[v.off:v.off + n]
        elif isinstance(v, Mem):
            b = v.b
        else:
            raise Unknown("assignment to a container")
        self.touch(m)
        m.b[:] = list(b)

    def clone(self, v):
        if isinstance(v, Mem):
            return Mem(list(v.b), v.es, v.name)
        if isinstance(v, Rec):
            return Rec(v.cls, {k: self.clone(x) for k, x in v.f.items()})
        if isinstance(v, Box):
            return Box(v.v)
        return v

    # -- objects of a type
    def make(self, t, name=""):
        t = t.strip()
        c = ctype(t)
        if c:
            return Mem([None] * max(1, c[0] // 8), max(1, c[0] // 8), name)
        if t.k == "ptr":
            return Box(None)
        if isdyn(t):
            e = elem(t)
            return Mem([], max(1, (ctype(e) or (8, 0))[0] // 8) if e is not None else 1, name)
        if isarr(t):
            e = elem(t)
            return Mem([None] * tsize(t), tsize(e) if e is not None else 1, name)
        r = self.P.records.get(t.r or t.n or t.s) or self.P.records.get(t.n or "")
        if r is not None and not r.get("lambda"):
            return Rec(r["n"], {f["n"]: self.make(f["t"], f["n"]) for f in r["fields"]})
        return Box(None)

    def place(self, x, t):
        """Lvalue for a variable or member."""
        if isinstance(x, Mem) and t is not None and (ctype(t) or isarr(t)) and not isdyn(t):
            return L(x, 0, t.strip())
        return x

    def init(self, t, v, name=""):
        """New object of type t with value v."""
        t = t.strip()
        c = ctype(t)
        if c:
            m = self.make(t, name)
            self.store(m, 0, v, len(m.b))
            return m
        if isinstance(v, L):
            n = tsize(t)
            m = self.make(t, name)
            if isinstance(m, Mem):
                m.b = list(v.m.b[v.off:v.off + n])
                return m
            raise Unknown("initialisation of " + t.s)
        if isinstance(v, (Mem, Rec)):
            return self.clone(v)
        if isinstance(v, Box):
            return Box(v.v)
        return Box(v)

    # -- frames
    @property
    def fr(self):
        return self.frames[-1]

    def lookup(self, d):
        f = self.fr
        while f is not None:
            if d in f.vars:
                return f.vars[d]
            f = f.lex
        raise Unknown("variable")

    def call_fn(self, fn, this, args, lex=None):
        if len(self.frames) > 60:
            raise Unknown("recursion")
        f = Frame(fn, this, lex)
        for p, a in zip(fn["ps"], args):
            if p["t"].isref:
                f.vars[p["d"]] = (self.init(p["t"], a) if not isinstance(a, (L, Mem, Rec, Box)) else a, p["t"].strip())
            else:
                f.vars[p["d"]] = (self.init(p["t"], self.rd(a)), p["t"])
        self.frames.append(f)
        try:
            for i in fn.get("inits") or []:
                self.member_init(this, i)
            if fn.get("body") is not None:
                self.stmt(fn["body"])
        except Ret as r:
            return r.v
        finally:
            self.frames.pop()
        return None

    def member_init(self, this, i):
        e = i.get("e")
        if i.get("f") is None:
            # delegation or a base class
            if e is not None and e["k"] == "ctor":
                f = self.P.funcs.get(e["c"].id)
                if f is not None:
                    self.call_fn(f, this, [self.ev(a) for a in e.get("a", [])])
                    return
                return
            raise Unknown("initialiser")
        if e is None:
            return
        v = self.rd(self.ev(e))
        r = this.r if isinstance(this, RPtr) else this
        old = r.f.get(i["f"])
        n = self.init(i["t"], v, i["f"])
        if isinstance(old, Mem) and isinstance(n, Mem):
            self.touch(old)
            old.b = n.b
        else:
            r.f[i["f"]] = n

    def new(self, cls, fn, args):
        """Construct a record: (cls name, constructor, arguments)."""
        r = self.P.records[cls]
        o = Rec(cls, {f["n"]: self.make(f["t"], f["n"]) for f in r["fields"]})
        self.call_fn(fn, RPtr(o), args)
        return o

    # -- statements
    def stmt(self, s):
        self.steps += 1
        if self.steps > self.limit:
            raise Unknown("too long")
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            raise Unknown("statement " + s["k"])
        m(s)

    def s_block(self, s):
        for x in s["s"]:
            self.stmt(x)

    def s_nop(self, s):
        pass

    def s_expr(self, s):
        self.ev(s["e"])

    def s_decl(self, s):
        for v in s["v"]:
            if v.get("g"):
                if "d" in v:
                    self.fr.vars[v["d"]] = (self.glob(v["g"]), v["t"])
                continue
            t, i = v["t"], v.get("i")
            if t.isref:
                x = self.ev(i)
                if not isinstance(x, (L, Mem, Rec, Box)):
                    x = self.init(t, x)
                self.fr.vars[v["d"]] = (x, t.strip())
            elif i is None:
                self.fr.vars[v["d"]] = (self.make(t, v["n"]), t)
            else:
                self.fr.vars[v["d"]] = (self.init(t, self.rd(self.ev(i)), v["n"]), t)

    def s_if(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        if s.get("cv"):
            self.s_decl({"v": [s["cv"]]})
        c = self.cond(s["c"])
        if c == ONE:
            self.stmt(s["th"])
        elif not c:
            if s.get("el") is not None:
                self.stmt(s["el"])
        else:
            self.both(c, lambda: self.stmt(s["th"]), lambda: self.stmt(s["el"]) if s.get("el") is not None else None)

    def both(self, c, f, g):
        """Run f when c, else g; merge the memories."""
        def run(h):
            j = {}
            self.journal.append(j)
            try:
                r = h()
            except (Ret, Brk, Cont, Throw):
                self.journal.pop()
                raise Unknown("control flow depends on unknown data")
            self.journal.pop()
            after = {}
            for m, old in j.items():
                after[m] = list(m.b) if isinstance(m, Mem) else m.v
                if isinstance(m, Mem):
                    m.b = list(old)
                else:
                    m.v = old
            return r, j, after
        rf, jf, af = run(f)
        rg, jg, ag = run(g)
        for m in set(jf) | set(jg):
            self.touch(m)
            old = jf.get(m, jg.get(m))
            x, y = af.get(m, old), ag.get(m, old)
            if isinstance(m, Box):
                if x is not y:
                    raise Unknown("pointer depends on unknown data")
                m.v = x
                continue
            if len(x) != len(y):
                raise Unknown("length depends on unknown data")
            m.b = [p if p == q else (None if p is None or q is None else select(c, p, q, 8)) for p, q in zip(x, y)]
        return rf, rg

    def head(self, s):
        st = {}
        for d, (x, t) in self.fr.vars.items():
            if isinstance(x, Mem) and ctype(t):
                st[d] = tuple(None if y is None else (y if isinstance(y, int) else bits(y, 8)) for y in x.b)
        self.heads.setdefault((s["u"], len(self.frames)), []).append(st)

    def loop(self, s, cond, step, post=False):
        n = 0
        while True:
            if not post or n:
                if cond is not None:
                    c = self.cond(cond)
                    if not c:
                        return
                    if c != ONE:
                        raise Unknown("loop depends on unknown data")
            self.head(s)
            n += 1
            if n > LIMIT:
                raise Unknown("loop too long")
            try:
                self.stmt(s["b"])
            except Brk:
                return
            except Cont:
                pass
            if step is not None:
                self.ev(step)

    def s_while(self, s):
        self.loop(s, s["c"], None)

    def s_do(self, s):
        self.loop(s, s["c"], None, True)

    def s_for(self, s):
        if s.get("init") is not None:
            self.stmt(s["init"])
        self.loop(s, s.get("c"), s.get("inc") if s.get("inc") is not None else s.get("step"))

    def s_range(self, s):
        C = self.ev(s["r"] if "r" in s else s["e"])
        m, off, n = self.extent(C)
        v = s["v"]
        t = v["t"]
        i = 0
        es = m.es
        if isinstance(C, L) and elem(C.t) is not None:
            es = tsize(elem(C.t))
        while i * es < (len(m.b) if n is None else n):
            et = elem(C.t) if isinstance(C, L) and not ctype(t) else None
            x = L(m, off + i * es, et.strip() if et is not None else t.strip())
            self.fr.vars[v["d"]] = (x, t.strip()) if t.isref else (self.init(t, self.rd(x)), t)
            i += 1
            self.head(s)
            try:
                self.stmt(s["b"])
            except Brk:
                return
            except Cont:
                continue

    def extent(self, C):
        if isinstance(C, Box):
            C = C.v
        if isinstance(C, L):
            return C.m, C.off, tsize(C.t)
        if isinstance(C, Mem):
            return C, 0, None
        raise Unknown("container")

    def s_return(self, s):
        if s.get("e") is None:
            raise Ret(None)
        x = self.ev(s["e"])
        rt = self.fr.fn["c"].ret
        if rt is not None and rt.isref:
            raise Ret(x)
        v = self.rd(x)
        if isinstance(v, (L, Mem, Rec)):
            v = self.clone(v) if not isinstance(v, L) else self.init(v.t, v)
        raise Ret(v)

    def s_break(self, s):
        raise Brk()

    def s_continue(self, s):
        raise Cont()

    def s_switch(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        v = self.rd(self.ev(s["c"]))
        if not isinstance(v, int):
            raise Unknown("switch on unknown data")
        items = []

        def flat(x):
            if x["k"] in ("case", "default"):
                items.append((x["k"], x))
                flat(x["s"])
            else:
                items.append(("s", x))
        body = s["b"]
        for x in body["s"] if body["k"] == "block" else [body]:
            flat(x)
        at = None
        for i, (k, x) in enumerate(items):
            if k == "case":
                lo = self.rd(self.ev(x["lo"] if "lo" in x else x["v"]))
                if lo == v:
                    at = i
                    break
        if at is None:
            at = next((i for i, (k, x) in enumerate(items) if k == "default"), None)
        if at is None:
            return
        try:
            for k, x in items[at:]:
                if k == "s":
                    self.stmt(x)
        except Brk:
            pass

    def s_try(self, s):
        try:
            self.stmt(s["b"])
        except Throw:
            raise Unknown("handler")

    # -- expressions
    def ev(self, e):
        self.steps += 1
        if self.steps > self.limit:
            raise Unknown("too long")
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unknown("expression " + e["k"])
        return m(e)

    def val(self, e):
        return self.rd(self.ev(e))

    def num(self, e):
        v = self.val(e)
        if v is None or not isinstance(v, (int, tuple)):
            raise Unknown("not a number")
        return v

    def cond(self, e):
        """A bit."""
        v = self.val(e)
        return self.truth(v, e.get("t"))

    def truth(self, v, t=None):
        if isinstance(v, int):
            return ONE if v else ZERO
        if isinstance(v, tuple):
            nz = [x for x in v if x]
            if len(nz) == 1:
                return nz[0]
            return bxor(eq(v, 0, len(v)), ONE)
        if isinstance(v, (Ptr, RPtr)):
            return ONE
        if v is NULLP:
            return ZERO
        raise Unknown("condition")

    def e_int(self, e):
        c = ctype(e.get("t"))
        v = int(e["v"])
        return v & (1 << c[0]) - 1 if c else v

    def e_str(self, e):
        s = e["v"]
        return Mem(list(s.encode("latin-1") if isinstance(s, str) else s) + [0], 1, "literal")

    def e_null(self, e):
        return NULLP

    def e_this(self, e):
        f = self.fr
        while f is not None and f.this is None and f.lex is not None:
            f = f.lex
        return f.this

    def e_ref(self, e):
        x, t = self.lookup(e["d"])
        return self.place(x, t)

    def e_glob(self, e):
        t = self.P.globals[e["g"]]["t"] if e["g"] in self.P.globals else e.get("t")
        return self.place(self.glob(e["g"]), t)

    def glob(self, g):
        if g in self.globs:
            return self.globs[g]
        G = self.P.globals.get(g)
        if G is None or G.get("init") is None:
            raise Unknown("global variable " + g)
        t = G["t"]
        if not (t.const or t.k in ("arr", "ptr") or getattr(t, "lam", False) or G.get("constexpr") or G.get("const")):
            raise Unknown("variable with static storage " + g)
        self.frames.append(Frame(None, None))
        try:
            self.globs[g] = self.init(t, self.rd(self.ev(G["init"])), g)
        finally:
            self.frames.pop()
        return self.globs[g]

    def e_fn(self, e):
        return e["c"]

    def e_mem(self, e):
        b = self.ev(e["b"])
        if e.get("arrow"):
            b = self.rd(b)
        if isinstance(b, Box):
            b = b.v
        if isinstance(b, RPtr):
            b = b.r
        if not isinstance(b, Rec) or e["f"] not in b.f:
            raise Unknown("member " + e["f"])
        x = b.f[e["f"]]
        return self.place(x, self.field_type(b, e))

    def field_type(self, b, e):
        r = self.P.records.get(b.cls)
        for f in r["fields"] if r else ():
            if f["n"] == e["f"]:
                return f["t"]
        return e.get("t")

    def e_load(self, e):
        return self.rd(self.ev(e["a"][0]))

    def e_mat(self, e):
        return self.ev(e["a"][0])

    e_bcast = e_mat
    e_stdinit = e_mat

    def e_decay(self, e):
        x = self.ev(e["a"][0])
        if isinstance(x, Mem):
            return Ptr(x, 0, x.es)
        if isinstance(x, L):
            p = e.get("t")
            es = tsize(p.strip().p) if p is not None and p.strip().k == "ptr" else x.m.es
            return Ptr(x.m, x.off, es)
        if isinstance(x, Ptr):
            return x
        raise Unknown("decay")

    def e_cast(self, e):
        ck = e["ck"]
        x = self.ev(e["a"][0])
        if ck == "ToVoid":
            return None
        if ck == "LValueBitCast":
            if isinstance(x, Mem):
                x = L(x, 0, e["t"])
            if isinstance(x, L):
                return L(x.m, x.off, e["t"].strip(), x.idx)
            raise Unknown("cast")
        if ck == "BitCast":
            x = self.rd(x)
            t = e["t"].strip()
            if isinstance(x, Ptr) and t.k == "ptr":
                p = t.p.strip()
                return Ptr(x.m, x.off, 1 if p.k == "void" else tsize(p))
            raise Unknown("cast")
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion", "UserDefinedConversion"):
            return x
        x = self.rd(x)
        t, f = ctype(e.get("t")), ctype(e.get("ft"))
        if ck in ("IntegralToBoolean", "PointerToBoolean"):
            c = self.truth(x)
            return norm((c,))
        if ck == "IntegralCast" and t and f and isinstance(x, (int, tuple)):
            if e["ft"].strip().k == "bool":
                f = (1, False)
            return resize(x, f[0], f[1], t[0])
        if ck in ("NullToPointer",):
            return NULLP
        raise Unknown("cast " + ck)

    def e_un(self, e):
        op = e["op"]
        if op == "!":
            return norm((bxor(self.cond(e["a"][0]), ONE),))
        x = self.ev(e["a"][0])
        if op in ("++", "--"):
            d = 1 if op == "++" else -1
            old = self.rd(x)
            if isinstance(old, Ptr):
                new = Ptr(old.m, old.off + d * old.es, old.es)
            else:
                c = ctype(e.get("t"))
                new = add([(self.chk(old), 1), (d & (1 << c[0]) - 1, 1)], c[0])
            self.wr(x, new)
            return old if e.get("post") else x
        if op == "*":
            return self.deref(self.rd(x), e.get("t"))
        if op == "&":
            if isinstance(x, L):
                return Ptr(x.m, x.off, tsize(x.t))
            if isinstance(x, (Rec, Box, Mem)):
                return RPtr(x)
            raise Unknown("address")
        v = self.chk(self.rd(x))
        c = ctype(e.get("t"))
        if op == "-":
            return add([(v, (1 << c[0]) - 1)], c[0])
        if op == "~":
            return not_(v, c[0])
        if op == "+":
            return v
        raise Unknown("operator " + op)

    def deref(self, p, t):
        if isinstance(p, RPtr):
            return p.r
        if isinstance(p, Ptr):
            return L(p.m, p.off, t.strip() if t is not None else None)
        raise Unknown("dereference")

    def chk(self, v):
        if not isinstance(v, (int, tuple)):
            raise Unknown("not a number")
        return v

    def e_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            c = self.cond(e["a"][0])
            stop = ZERO if op == "&&" else ONE
            if c == stop:
                return norm((c,))
            if c == (ONE if op == "&&" else ZERO):
                return norm((self.cond(e["a"][1]),))
            f, _ = self.both(c if op == "&&" else bxor(c, ONE), lambda: self.cond(e["a"][1]), lambda: None)
            return norm((band(c, f) if op == "&&" else bor(c, f),))
        if op == ",":
            self.ev(e["a"][0])
            return self.ev(e["a"][1])
        if op == "=":
            v = self.rd(self.ev(e["a"][1]))
            l = self.ev(e["a"][0])
            self.wr(l, v)
            return l
        a, b = self.val(e["a"][0]), self.val(e["a"][1])
        ta, tb = e["a"][0].get("t"), e["a"][1].get("t")
        return self.arith(op, a, b, e.get("t"), ta, tb)

    def arith(self, op, a, b, t, ta, tb):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_arith(op, a, b, tb)
        if a is NULLP or b is NULLP or isinstance(a, RPtr) or isinstance(b, RPtr):
            if op in ("==", "!="):
                r = (a is b) or (isinstance(a, RPtr) and isinstance(b, RPtr) and a.r is b.r)
                return int(r == (op == "=="))
            raise Unknown("pointer")
        a, b = self.chk(a), self.chk(b)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            w, sg = ctype(ta) or (64, False)
            if op in ("==", "!="):
                c = eq(a, b, w)
                return norm((c if op == "==" else bxor(c, ONE),))
            if op in (">", "<="):
                a, b = b, a
            c = lt(a, b, w, sg)
            return norm((c if op in ("<", ">") else bxor(c, ONE),))
        w, sg = ctype(t)
        if op == "+":
            return add([(a, 1), (b, 1)], w)
        if op == "-":
            return add([(a, 1), (b, (1 << w) - 1)], w)
        if op == "*":
            return mul(a, b, w)
        if op == "^":
            return xor(a, b, w)
        if op == "&":
            return and_(a, b, w)
        if op == "|":
            return or_(a, b, w)
        if op in ("<<", ">>"):
            if not isinstance(b, int):
                raise Unknown("shift by unknown amount")
            if b >= w:
                raise Unknown("shift out of range")
            return shl(a, b, w) if op == "<<" else shr(a, b, w, sg)
        if op in ("/", "%"):
            if isinstance(a, int) and isinstance(b, int) and b:
                if sg:
                    x, y = signed(a, w), signed(b, w)
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    return (q if op == "/" else x - q * y) & (1 << w) - 1
                return a // b if op == "/" else a % b
            if isinstance(b, int) and b and not b & (b - 1) and (not sg or not bits(a, w)[-1]):
                k = b.bit_length() - 1
                return shr(a, k, w) if op == "/" else and_(a, b - 1, w)
        raise Unknown("operator " + op)

    def ptr_arith(self, op, a, b, tb):
        if op in ("==", "!="):
            r = isinstance(a, Ptr) and isinstance(b, Ptr) and a.m is b.m and a.off == b.off
            return int(r == (op == "=="))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.m is not b.m:
                raise Unknown("pointers into different objects")
            if op == "-":
                return (a.off - b.off) // a.es & (1 << 64) - 1
            r = {"<": a.off < b.off, ">": a.off > b.off, "<=": a.off <= b.off, ">=": a.off >= b.off}.get(op)
            if r is None:
                raise Unknown("pointer operator")
            return int(r)
        if isinstance(b, Ptr):
            a, b = b, a
        if not isinstance(b, int):
            raise Unknown("pointer moved by unknown amount")
        c = ctype(tb) or (64, True)
        n = signed(b, c[0]) if c[1] else b
        if c[0] == 64 and n >> 63:
            n -= 1 << 64
        return Ptr(a.m, a.off + (n if op == "+" else -n) * a.es, a.es)

    def e_casg(self, e):
        l = self.ev(e["a"][0])
        r = self.val(e["a"][1])
        old = self.rd(l)
        op = e["op"][:-1]
        if isinstance(old, Ptr):
            self.wr(l, self.ptr_arith(op, old, r, e["a"][1].get("t")))
            return l
        ct, lt_ = e.get("ct") or e.get("t"), ctype(e.get("t"))
        c = ctype(ct)
        a = resize(self.chk(old), lt_[0], lt_[1], c[0])
        v = self.arith(op, a, r, ct, ct, e["a"][1].get("t"))
        self.wr(l, resize(v, c[0], c[1], lt_[0]))
        return l

    def e_cond(self, e):
        c = self.cond(e["a"][0])
        if c == ONE:
            return self.ev(e["a"][1])
        if not c:
            return self.ev(e["a"][2])
        a, b = self.both(c, lambda: self.rd(self.ev(e["a"][1])), lambda: self.rd(self.ev(e["a"][2])))
        t = ctype(e.get("t"))
        if t is None or not isinstance(a, (int, tuple)) or not isinstance(b, (int, tuple)):
            raise Unknown("conditional value")
        return select(c, a, b, t[0])

    def e_sub(self, e):
        b = self.ev(e["a"][0])
        i = self.val(e["a"][1])
        t = e.get("t")
        b = b if isinstance(b, L) and b.t.strip().k == "arr" else self.rd(b)
        if isinstance(b, (L, Mem)):
            off = b.off if isinstance(b, L) else 0
            m = b.m if isinstance(b, L) else b
        elif isinstance(b, Ptr):
            m, off = b.m, b.off
        else:
            raise Unknown("subscript")
        n = tsize(t)
        it = ctype(e["a"][1].get("t"))
        if isinstance(i, int):
            i = signed(i, it[0]) if it and it[1] else i
            return L(m, off + i * n, t.strip())
        if n != 1:
            raise Unknown("symbolic index")
        return L(m, off, t.strip(), i)

    def e_init(self, e):
        t = e["t"].strip()
        if ctype(t):
            return self.num(e["a"][0]) if e["a"] else 0
        if isarr(t):
            m = Mem([None] * tsize(t), 1)
            self.fill(m, 0, e)
            el = elem(t)
            m.es = tsize(el) if el is not None else 1
            return m
        r = self.P.records.get(t.r or t.n or t.s)
        if r is not None:
            o = self.make(t)
            for f, a in zip(r["fields"], e["a"]):
                o.f[f["n"]] = self.init(f["t"], self.rd(self.ev(a)), f["n"])
            return o
        raise Unknown("initialiser of " + t.s)

    def fill(self, m, off, e):
        t = e["t"].strip()
        n = tsize(t)
        if e["k"] == "init" and isarr(t) or e["k"] == "init" and not ctype(t):
            o = off
            for a in e["a"]:
                self.fill(m, o, a)
                o += tsize(a["t"])
            f = e.get("filler")
            if t.k != "arr" and not e["a"]:
                f = None
                m.b[off:off + n] = [0] * n
            while f is not None and o < off + n:
                self.fill(m, o, f)
                o += tsize(f["t"])
            for i in range(o, off + n):
                if m.b[i] is None:
                    m.b[i] = 0
            return
        if e["k"] == "zeroinit":
            m.b[off:off + n] = [0] * n
            return
        v = self.val(e)
        if isinstance(v, (Mem, L)):
            src = v.b if isinstance(v, Mem) else v.m.b[v.off:v.off + n]
            m.b[off:off + n] = (list(src) + [0] * n)[:n]
        else:
            self.store(m, off, self.chk(v), n)

    def e_zeroinit(self, e):
        t = e.get("t").strip()
        if ctype(t):
            return 0
        if t.k == "ptr":
            return NULLP
        x = self.make(t)
        if isinstance(x, Mem):
            x.b = [0] * len(x.b)
            return x
        raise Unknown("zero initialisation")

    def e_lambda(self, e):
        vs = {}
        this = None
        for c in e.get("caps", []):
            if c.get("this"):
                this = self.e_this(e)
            elif c.get("init") is not None and not c.get("ref"):
                t = c["init"].get("t")
                v = self.rd(self.ev(c["init"]))
                vs[c["d"]] = (self.init(t, v) if t is not None else Box(v), t)
            else:
                x, t = self.lookup(c["d"])
                vs[c["d"]] = (x, t) if c.get("ref") else (self.clone(x), t)
        return Closure(e["c"], vs, this)

    def e_throw(self, e):
        t = e.get("tt")
        if t is None:
            raise Unknown("rethrow")
        t = t.strip()
        raise Throw(t.r or t.n or t.s)

    def e_stmtexpr(self, e):
        raise Unknown("statement expression")

    # -- construction and calls
    def e_ctor(self, e):
        from .unroll_lib import CTORS
        c = e["c"]
        h = CTORS(c.q)
        if h is not None:
            return h(self, c, [self.ev(a) for a in e.get("a", [])], e)
        f = self.P.funcs.get(c.id)
        t = e["t"].strip()
        if getattr(t, "lam", False) or "(lambda" in t.s:
            return self.rd(self.ev(e["a"][0]))
        if c.copy or c.move:
            v = self.rd(self.ev(e["a"][0]))
            return self.clone(v) if not isinstance(v, L) else self.init(v.t, v)
        if f is not None:
            o = self.make(t)
            if not isinstance(o, Rec):
                raise Unknown("construction of " + t.s)
            self.call_fn(f, RPtr(o), [self.ev(a) for a in e.get("a", [])])
            return o
        if not e.get("a") and c.q.count("::") == 1 and c.q.split("::")[0] == c.q.split("::")[1]:
            return self.make(t)         # a structure of a C library
        raise Unknown("construction " + c.n)

    def e_call(self, e):
        from .unroll_lib import FUNCS
        c = e.get("c")
        if c is None:
            f = self.val(e["f"]) if e.get("f") is not None else None
            if f is not None and hasattr(f, "q"):
                c = f
            else:
                raise Unknown("indirect call")
        obj = None
        if e.get("o") is not None:
            obj = self.ev(e["o"])
            if e.get("arrow"):
                obj = self.rd(obj)
                if isinstance(obj, RPtr):
                    obj = obj.r
                elif isinstance(obj, Ptr):
                    obj = obj.m
        if c.q in self.opaque:
            return self.opaque[c.q](self, obj, [self.ev(a) for a in e.get("a", [])], e)
        h = FUNCS(c.q)
        if h is not None:
            return h(self, c, obj, [self.ev(a) for a in e.get("a", [])], e)
        f = self.P.funcs.get(c.id)
        if isinstance(obj, Box) and isinstance(obj.v, Closure):
            obj = obj.v
        if isinstance(obj, Closure):
            return self.call_closure(obj, [self.ev(a) for a in e.get("a", [])])
        if f is None or f.get("body") is None:
            raise Unknown("call of " + c.n)
        this = None
        if obj is not None:
            this = RPtr(obj.r if isinstance(obj, RPtr) else obj)
        return self.call_fn(f, this, [self.ev(a) for a in e.get("a", [])])

    def call_closure(self, k, args):
        f = self.P.funcs.get(k.c.id)
        if f is None:
            raise Unknown("lambda")
        lex = Frame(None, k.this)
        lex.vars = dict(k.vars)
        return self.call_fn(f, k.this, args, lex)

    def callv(self, f, args):
        """Call a function object passed to a library algorithm."""
        f = self.rd(f)
        if isinstance(f, Functor):
            from .unroll_lib import FUNCTORS
            a, b = [self.rd(x) for x in args]
            return FUNCTORS[f.op](a, b, f.w)
        if isinstance(f, Closure):
            return self.rd(self.call_closure(f, args))
        if hasattr(f, "q"):
            g = self.P.funcs.get(f.id)
            from .unroll_lib import FUNCS
            h = FUNCS(f.q)
            if h is not None:
                return self.rd(h(self, f, None, args, {}))
            if g is not None:
                return self.rd(self.call_fn(g, None, args))
        raise Unknown("function object")
