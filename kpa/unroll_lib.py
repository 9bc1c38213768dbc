"""Library functions for unroll.py."""
from .bits import *
from .unroll import *
from .unroll import L, Ptr, Mem, Box, Rec, Back, Throw, Closure, RPtr, NULLP, ctype, elem, isarr, tsize

F, C = {}, {}
SEQ = ("std::array", "std::vector", "std::basic_string")
ITER = ("__gnu_cxx::__normal_iterator", "std::move_iterator")


def f(*names):
    def d(h):
        for n in names:
            F[n] = h
        return h
    return d


def seq(*methods):
    return f(*[s + "::" + m for s in SEQ for m in methods])


def it(*methods):
    return f(*[s + "::" + m for s in ITER for m in methods])


FUNCTORS = {"bit_xor": lambda a, b, w: xor(a, b, w), "bit_and": lambda a, b, w: and_(a, b, w),
            "bit_or": lambda a, b, w: or_(a, b, w), "plus": lambda a, b, w: add([(a, 1), (b, 1)], w),
            "minus": lambda a, b, w: add([(a, 1), (b, -1)], w)}


def FUNCS(q):
    return F.get(q)


def CTORS(q):
    for s in SEQ:
        if q.startswith(s + "::"):
            return make_seq
    for s in ITER + ("std::back_insert_iterator", "std::allocator"):
        if q.startswith(s + "::"):
            return lambda I, c, a, e: I.rd(a[0]) if a else None
    n = q.split("::")[1] if q.startswith("std::") else ""
    if n in FUNCTORS:
        def h(I, c, a, e):
            t = e["t"].strip()
            w = ctype(t.args[0]) if t.args and hasattr(t.args[0], "k") else None
            return Functor(n, w[0] if w else 32)
        return h
    if q.endswith("Error::" + q.split("::")[-1]):
        return lambda I, c, a, e: "exception"
    return None


def base(I, o):
    """(memory, offset, length or None for a growing container)"""
    if isinstance(o, Box):
        o = o.v
    if isinstance(o, RPtr):
        o = o.r
    if isinstance(o, L):
        return o.m, o.off, tsize(o.t)
    if isinstance(o, Mem):
        return o, 0, None
    raise Unknown("container")


def length(I, o):
    m, off, n = base(I, o)
    return len(m.b) if n is None else n


def es_of(I, c, m):
    t = elem(c.cls) if getattr(c, "cls", None) is not None else None
    return tsize(t) if t is not None else m.es


def etype(c, e):
    t = elem(c.cls) if getattr(c, "cls", None) is not None else None
    return t if t is not None else e["t"]


def make_seq(I, c, a, e):
    t = e["t"].strip()
    if isarr(t):
        if a:
            v = I.rd(a[0])
            return I.init(t, v) if isinstance(v, L) else I.clone(v)
        return I.make(t)
    m = I.make(t)
    et = elem(t)
    es = m.es
    a = [I.rd(x) for x in a]
    a = [x for x in a if x is not None]
    if not a:
        return m
    if isinstance(a[0], Mem) and len(a) == 1:
        m.b = list(a[0].b)
        return m
    if isinstance(a[0], Ptr) and len(a) >= 2 and isinstance(a[1], Ptr):
        m.b = list(span(I, a[0], a[1]))
        return m
    if isinstance(a[0], Ptr):
        b = a[0].m.b[a[0].off:]
        if len(a) >= 2 and isinstance(a[1], int):
            m.b = list(b[:a[1]])
        else:
            n = next((i for i, x in enumerate(b) if isinstance(x, int) and x == 0), None)
            if n is None or any(not isinstance(x, int) for x in b[:n]):
                raise Unknown("string of unknown length")
            m.b = list(b[:n])
        return m
    if isinstance(a[0], int):
        m.b = [0] * (a[0] * es)
        if len(a) >= 2:
            for i in range(a[0]):
                I.store(m, i * es, a[1], es)
        return m
    raise Unknown("construction of " + t.s)


def span(I, a, b):
    if not isinstance(a, Ptr) or not isinstance(b, Ptr) or a.m is not b.m:
        raise Unknown("range")
    return a.m.b[a.off:b.off]


@seq("operator[]", "at")
def _(I, c, o, a, e):
    m, off, n = base(I, o)
    t = etype(c, e)
    es = tsize(t)
    i = I.rd(a[0])
    if isinstance(i, int):
        if i * es >= (len(m.b) - off if n is None else n):
            if c.q.endswith("::at"):
                raise Throw("std::out_of_range")
            raise Unknown("subscript out of range")
        return L(m, off + i * es, t.strip())
    if es != 1:
        raise Unknown("symbolic index")
    return L(m, off, t.strip(), i)


@seq("size", "length", "max_size")
def _(I, c, o, a, e):
    m, off, n = base(I, o)
    return (len(m.b) if n is None else n) // es_of(I, c, m)


@seq("empty")
def _(I, c, o, a, e):
    return int(length(I, o) == 0)


@seq("data", "c_str", "begin", "cbegin")
def _(I, c, o, a, e):
    m, off, n = base(I, o)
    return Ptr(m, off, es_of(I, c, m))


@seq("end", "cend")
def _(I, c, o, a, e):
    m, off, n = base(I, o)
    return Ptr(m, off + (len(m.b) if n is None else n), es_of(I, c, m))


@seq("front", "back")
def _(I, c, o, a, e):
    m, off, n = base(I, o)
    t = etype(c, e)
    ln = len(m.b) if n is None else n
    return L(m, off if c.q.endswith("front") else off + ln - tsize(t), t.strip())


@seq("clear")
def _(I, c, o, a, e):
    I.touch(o)
    o.b[:] = []


@seq("reserve", "shrink_to_fit")
def _(I, c, o, a, e):
    return None


@seq("resize")
def _(I, c, o, a, e):
    m, off, n = base(I, o)
    k = I.rd(a[0])
    if not isinstance(k, int):
        raise Unknown("size")
    I.touch(m)
    es = es_of(I, c, m)
    v = I.rd(a[1]) if len(a) > 1 else 0
    old = len(m.b)
    m.b[:] = m.b[:k * es] + [0] * (k * es - old)
    if v != 0:
        for i in range(old, k * es, es):
            I.store(m, i, v, es)


def push(I, m, v, es):
    I.touch(m)
    m.b.extend([0] * es)
    I.store(m, len(m.b) - es, v, es)


@seq("push_back", "emplace_back")
def _(I, c, o, a, e):
    m, off, n = base(I, o)
    push(I, m, I.chk(I.rd(a[0])), es_of(I, c, m))


@seq("pop_back")
def _(I, c, o, a, e):
    m, off, n = base(I, o)
    I.touch(m)
    del m.b[-es_of(I, c, m):]


@seq("fill")
def _(I, c, o, a, e):
    m, off, n = base(I, o)
    v = I.rd(a[0])
    es = es_of(I, c, m)
    for i in range(0, n if n is not None else len(m.b), es):
        I.store(m, off + i, v, es)


@seq("operator=", "assign", "swap")
def _(I, c, o, a, e):
    if c.q.endswith("swap"):
        raise Unknown("swap")
    v = I.rd(a[0])
    if c.q.endswith("assign") and len(a) == 2:
        b = I.rd(a[1])
        if isinstance(v, Ptr) and isinstance(b, Ptr):
            I.touch(o)
            o.b[:] = list(span(I, v, b))
            return o
        if isinstance(v, int):
            es = es_of(I, c, o)
            I.touch(o)
            o.b[:] = [0] * (v * es)
            for i in range(v):
                I.store(o, i * es, b, es)
            return o
    I.wr(o, v)
    return o


@f("std::basic_string::operator+=", "std::basic_string::append")
def _(I, c, o, a, e):
    v = I.rd(a[0])
    m, _, _ = base(I, o)
    if isinstance(v, (int, tuple)):
        if len(a) == 2:
            for _ in range(v):
                push(I, m, I.rd(a[1]), 1)
            return o
        push(I, m, v, 1)
        return o
    if isinstance(v, Mem):
        b = list(v.b)
    elif isinstance(v, Ptr) and len(a) == 2 and isinstance(I.rd(a[1]), Ptr):
        b = list(span(I, v, I.rd(a[1])))
    else:
        raise Unknown("append")
    I.touch(m)
    m.b.extend(b)
    return o


def pick(I, m, start, pred, default=(1 << 64) - 1):
    for i in range(start, len(m.b)):
        c = pred(m.b[i])
        if c == ONE:
            return i
        if c:
            raise Unknown("search depends on unknown data")
    return default


def inset(v, chars):
    return decide(v if isinstance(v, int) else bits(v, 8), lambda x: x in chars)


def charset(I, a):
    v = I.rd(a)
    if isinstance(v, int):
        return {v & 255}
    if isinstance(v, Mem):
        b = v.b
    elif isinstance(v, Ptr):
        b = v.m.b[v.off:]
        b = b[:b.index(0)] if 0 in b else b
    else:
        raise Unknown("set of characters")
    if any(not isinstance(x, int) for x in b):
        raise Unknown("set of characters")
    return set(b)


def tri(r):
    if r is None:
        raise Unknown("search depends on unknown data")
    return ONE if r else ZERO


@f("std::basic_string::find", "std::basic_string::find_first_of", "std::basic_string::find_first_not_of",
   "std::basic_string::rfind", "std::basic_string::find_last_not_of")
def _(I, c, o, a, e):
    m, off, n = base(I, o)
    op = c.q.split("::")[-1]
    v = I.rd(a[0])
    pos = I.rd(a[1]) if len(a) > 1 else 0
    if not isinstance(pos, int):
        raise Unknown("position")
    if isinstance(v, tuple):
        if op not in ("find", "find_first_of") or pos or any(not isinstance(x, int) for x in m.b):
            raise Unknown("search for an unknown character")
        return find(list(m.b), v)
    if op == "find" and not isinstance(v, int):
        raise Unknown("search for a string")
    S = charset(I, a[0])
    want = op in ("find", "find_first_of", "rfind")
    if op in ("rfind", "find_last_not_of"):
        for i in range(len(m.b) - 1, -1, -1):
            if (tri(inset(m.b[i], S)) == ONE) == want:
                return i
        return (1 << 64) - 1
    return pick(I, m, pos, lambda x: tri(inset(x, S)) if want else bxor(tri(inset(x, S)), ONE))


@f("std::basic_string::substr")
def _(I, c, o, a, e):
    m, off, n = base(I, o)
    p = I.rd(a[0]) if a else 0
    k = I.rd(a[1]) if len(a) > 1 else (1 << 64) - 1
    if not isinstance(p, int) or not isinstance(k, int):
        raise Unknown("substring")
    if p > len(m.b):
        raise Throw("std::out_of_range")
    return Mem(list(m.b[p:p + k]), 1)


@seq("erase")
def _(I, c, o, a, e):
    m, off, n = base(I, o)
    v = [I.rd(x) for x in a]
    I.touch(m)
    if v and isinstance(v[0], Ptr):
        end = v[1].off if len(v) > 1 else v[0].off + m.es
        del m.b[v[0].off:end]
        return Ptr(m, v[0].off, v[0].es)
    if v and all(isinstance(x, int) for x in v):
        del m.b[v[0]:v[0] + (v[1] if len(v) > 1 else len(m.b))]
        return o
    raise Unknown("erase")


# -- iterators
@it("operator*")
def _(I, c, o, a, e):
    p = I.rd(o)
    if not isinstance(p, Ptr):
        raise Unknown("iterator")
    return L(p.m, p.off, e["t"].strip())


@it("operator[]")
def _(I, c, o, a, e):
    p, i = I.rd(o), I.rd(a[0])
    if not isinstance(p, Ptr) or not isinstance(i, int):
        raise Unknown("iterator")
    return L(p.m, p.off + signed(i, 64) * p.es, e["t"].strip())


@it("operator++", "operator--")
def _(I, c, o, a, e):
    p = I.rd(o)
    if not isinstance(p, Ptr):
        raise Unknown("iterator")
    d = p.es if c.q.endswith("++") else -p.es
    I.wr(o, Ptr(p.m, p.off + d, p.es))
    return p if a else o


@it("operator+", "operator-", "operator+=", "operator-=")
def _(I, c, o, a, e):
    p, n = I.rd(o), I.rd(a[0])
    op = c.q.split("operator")[-1]
    if isinstance(n, Ptr):
        return (p.off - n.off) // p.es & (1 << 64) - 1
    if not isinstance(n, int):
        raise Unknown("iterator")
    n = signed(n, 64)
    r = Ptr(p.m, p.off + (n if op[0] == "+" else -n) * p.es, p.es)
    if op.endswith("="):
        I.wr(o, r)
        return o
    return r


@it("operator=", "base")
def _(I, c, o, a, e):
    if c.q.endswith("base"):
        return I.rd(o)
    I.wr(o, I.rd(a[0]))
    return o


@f(*[n + "::operator" + o for n in ("__gnu_cxx", "std") for o in ("==", "!=", "<", ">", "<=", ">=", "-")])
def _(I, c, o, a, e):
    xs = ([o] if o is not None else []) + list(a)
    x, y = I.rd(xs[0]), I.rd(xs[1])
    op = c.q.split("operator")[-1]
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        return I.ptr_arith(op, x, y, None)
    if isinstance(x, L) and isinstance(y, L) and op in ("==", "!="):
        x, y = Mem(x.m.b[x.off:x.off + tsize(x.t)]), Mem(y.m.b[y.off:y.off + tsize(y.t)])
    if isinstance(x, Mem) and isinstance(y, Mem) and op in ("==", "!="):
        r = ONE if len(x.b) == len(y.b) else ZERO
        for p, q in zip(x.b, y.b) if r else ():
            r = band(r, eq(p, q, 8))
        return norm((r if op == "==" else bxor(r, ONE),))
    raise Unknown("comparison")


@f("std::begin", "std::cbegin")
def _(I, c, o, a, e):
    m, off, n = base(I, I.rd(a[0]))
    return Ptr(m, off, m.es)


@f("std::end", "std::cend")
def _(I, c, o, a, e):
    m, off, n = base(I, I.rd(a[0]))
    return Ptr(m, off + (len(m.b) if n is None else n), m.es)


@f("std::back_inserter")
def _(I, c, o, a, e):
    m, off, n = base(I, a[0])
    return Back(m)


@f("std::back_insert_iterator::operator*", "std::back_insert_iterator::operator++")
def _(I, c, o, a, e):
    return o


@f("std::back_insert_iterator::operator=")
def _(I, c, o, a, e):
    b = I.rd(o)
    if not isinstance(b, Back):
        raise Unknown("iterator")
    v = I.rd(a[0])
    if isinstance(v, Back):
        I.wr(o, v)
        return o
    push(I, b.m, resize(I.chk(v), 8 * b.m.es, False, 8 * b.m.es), b.m.es)
    return o


# -- characters and numbers
def cls(pred):
    def h(I, c, o, a, e):
        v = I.rd(a[0])
        t = ctype(c.ps[0])
        d = decide(v if isinstance(v, int) else v, lambda x: pred(x & 255 if x & 255 == x or t and t[0] == 8 else x & 255))
        if d is None:
            raise Unknown("class of a character")
        return int(d)
    return h


SPACE = {9, 10, 11, 12, 13, 32}
F["std::isspace"] = F["isspace"] = cls(lambda x: x in SPACE)
F["std::isalnum"] = F["isalnum"] = cls(lambda x: chr(x).isalnum() and x < 128)
F["std::isalpha"] = F["isalpha"] = cls(lambda x: chr(x).isalpha() and x < 128)
F["std::isdigit"] = F["isdigit"] = cls(lambda x: 48 <= x < 58)
F["std::isupper"] = F["isupper"] = cls(lambda x: 65 <= x < 91)
F["std::islower"] = F["islower"] = cls(lambda x: 97 <= x < 123)


@f("std::locale::classic")
def _(I, c, o, a, e):
    return "locale"


@f("std::min", "std::max")
def _(I, c, o, a, e):
    x, y = I.rd(a[0]), I.rd(a[1])
    t = ctype(c.ps[0])
    if not isinstance(x, int) or not isinstance(y, int):
        raise Unknown("minimum")
    k = (lambda v: signed(v, t[0])) if t[1] else (lambda v: v)
    return min(x, y, key=k) if c.q.endswith("min") else max(x, y, key=k)


@f("std::move", "std::forward", "std::as_const")
def _(I, c, o, a, e):
    if len(a) != 1:
        raise Unknown("move")
    return a[0]


@f("std::swap")
def _(I, c, o, a, e):
    x, y = I.rd(a[0]), I.rd(a[1])
    if isinstance(x, (L, Mem, Rec)) or isinstance(y, (L, Mem, Rec)):
        raise Unknown("swap")
    I.wr(a[0], y)
    I.wr(a[1], x)


# -- algorithms
def put(I, d, v):
    """Store through an output iterator; returns the next one."""
    if isinstance(d, Back):
        push(I, d.m, resize(I.chk(v), 8 * d.m.es, False, 8 * d.m.es), d.m.es)
        return d
    if isinstance(d, Ptr):
        I.store(d.m, d.off, v, d.es)
        return Ptr(d.m, d.off + d.es, d.es)
    raise Unknown("output iterator")


def elems(I, a, b):
    if not isinstance(a, Ptr) or not isinstance(b, Ptr) or a.m is not b.m or b.off < a.off:
        raise Unknown("range")
    return [(L(a.m, o, None), I.load(a.m, o, a.es)) for o in range(a.off, b.off, a.es)]


@f("std::copy", "std::move_backward")
def _(I, c, o, a, e):
    x = [I.rd(v) for v in a]
    if c.q.endswith("backward") or len(x) != 3:
        raise Unknown("copy")
    d = x[2]
    for _, v in elems(I, x[0], x[1]):
        d = put(I, d, v)
    return d


@f("std::copy_n")
def _(I, c, o, a, e):
    x = [I.rd(v) for v in a]
    if not isinstance(x[1], int):
        raise Unknown("copy")
    d = x[2]
    for _, v in elems(I, x[0], Ptr(x[0].m, x[0].off + x[1] * x[0].es, x[0].es)):
        d = put(I, d, v)
    return d


@f("std::fill")
def _(I, c, o, a, e):
    x = [I.rd(v) for v in a]
    d = x[0]
    while d.off < x[1].off:
        d = put(I, d, x[2])


@f("std::fill_n")
def _(I, c, o, a, e):
    x = [I.rd(v) for v in a]
    d = x[0]
    if not isinstance(x[1], int):
        raise Unknown("fill")
    for _ in range(x[1]):
        d = put(I, d, x[2])
    return d


def holds(I, p, v):
    c = I.truth(I.callv(p, [v]))
    if c != ONE and c:
        raise Unknown("selection depends on unknown data")
    return c == ONE


@f("std::copy_if", "std::remove_copy_if")
def _(I, c, o, a, e):
    x = [I.rd(v) for v in a]
    d = x[2]
    for _, v in elems(I, x[0], x[1]):
        if holds(I, x[3], v) == c.q.endswith("copy_if") and not c.q.endswith("remove_copy_if") or \
                c.q.endswith("remove_copy_if") and not holds(I, x[3], v):
            d = put(I, d, v)
    return d


@f("std::remove_if")
def _(I, c, o, a, e):
    x = [I.rd(v) for v in a]
    d = x[0]
    for _, v in elems(I, x[0], x[1]):
        if not holds(I, x[2], v):
            d = put(I, d, v)
    return d


@f("std::transform")
def _(I, c, o, a, e):
    x = [I.rd(v) for v in a]
    if len(x) == 4:
        d = x[2]
        for _, v in elems(I, x[0], x[1]):
            d = put(I, d, I.callv(x[3], [v]))
        return d
    d = x[3]
    n = x[1].off - x[0].off
    ys = elems(I, x[2], Ptr(x[2].m, x[2].off + n // x[0].es * x[2].es, x[2].es))
    for (_, v), (_, w) in zip(elems(I, x[0], x[1]), ys):
        d = put(I, d, I.callv(x[4], [v, w]))
    return d


@f("std::find_if", "std::find_if_not", "std::any_of", "std::all_of", "std::none_of")
def _(I, c, o, a, e):
    x = [I.rd(v) for v in a]
    n = c.q.split("::")[-1]
    p = x[0]
    for _, v in elems(I, x[0], x[1]):
        h = holds(I, x[2], v)
        if n == "find_if" and h or n == "find_if_not" and not h:
            return p
        if n == "any_of" and h:
            return 1
        if n == "all_of" and not h or n == "none_of" and h:
            return 0
        p = Ptr(p.m, p.off + p.es, p.es)
    return {"any_of": 0, "all_of": 1, "none_of": 1}.get(n, p)


@f("std::distance")
def _(I, c, o, a, e):
    x, y = I.rd(a[0]), I.rd(a[1])
    return (y.off - x.off) // x.es & (1 << 64) - 1


@f("memcpy", "std::memcpy", "memmove", "std::memmove")
def _(I, c, o, a, e):
    d, s, n = I.rd(a[0]), I.rd(a[1]), I.rd(a[2])
    if not isinstance(n, int) or not isinstance(d, Ptr) or not isinstance(s, Ptr):
        raise Unknown("copy")
    b = s.m.b[s.off:s.off + n]
    if len(b) != n or d.off + n > len(d.m.b):
        raise Unknown("copy outside of an object")
    I.touch(d.m)
    d.m.b[d.off:d.off + n] = b
    return d


@f("memset", "std::memset")
def _(I, c, o, a, e):
    d, v, n = I.rd(a[0]), I.rd(a[1]), I.rd(a[2])
    if not isinstance(n, int) or not isinstance(d, Ptr) or not isinstance(v, int):
        raise Unknown("fill")
    I.touch(d.m)
    d.m.b[d.off:d.off + n] = [v & 255] * n
    return d


@f("__assert_fail")
def _(I, c, o, a, e):
    raise Unknown("assertion")
