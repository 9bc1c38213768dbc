"""Value graphs at bit level.

A value is a Python integer or a tuple of bits, least significant first.  A bit is in algebraic normal form: a frozenset of
monomials (exclusive or), a monomial being a frozenset of variables (conjunction).  A variable is one bit of an atom: an
input symbol or the result of an operation that is not bitwise (sum, product, table lookup, comparison, uninterpreted
function).  Bitwise operations, shifts, rotations, splitting into and joining of bytes and cancellation of exclusive ors
are therefore canonical: equal bit functions over the same atoms are identical.  Sums are kept in a normal form of their own.
"""


class Unknown(Exception):
    """The code does something this evaluation does not model."""


ZERO = frozenset()
UNIT = frozenset()
ONE = frozenset([UNIT])
CAP = 3000

ATOMS = []          # id -> (kind, args, width)
_ids = {}


def atom(kind, args, width):
    k = (kind, args, width)
    i = _ids.get(k)
    if i is None:
        i = _ids[k] = len(ATOMS)
        ATOMS.append(k)
    return i


def word(i, width=None, total=None):
    """Bits of atom i, extended with zeros to total."""
    w = ATOMS[i][2] if width is None else width
    k, args, _ = ATOMS[i]
    vs = args[1] if k == "sym" else (args[0] if k == "tab" else None)
    one = zero = 0
    if vs is not None:
        one, zero = ~0, ~0
        for v in vs:
            one, zero = one & v, zero & ~v
    b = tuple(ONE if one >> j & 1 else (ZERO if zero >> j & 1 else frozenset([frozenset([i * 64 + j])])) for j in range(w))
    return b + (ZERO,) * ((total or w) - w)


def sym(name, width, dom=None):
    return word(atom("sym", (name, dom), width))


def bits(v, w):
    if isinstance(v, int):
        return tuple(ONE if v >> i & 1 else ZERO for i in range(w))
    if len(v) >= w:
        return v[:w]
    return v + (ZERO,) * (w - len(v))


def norm(b):
    n = 0
    for i, x in enumerate(b):
        if x is ONE or x == ONE:
            n |= 1 << i
        elif x:
            return tuple(b)
    return n


def signed(n, w):
    return n - (1 << w) if n >> (w - 1) & 1 else n


def band(a, b):
    if not a or not b:
        return ZERO
    if a == ONE:
        return b
    if b == ONE or a == b:
        return a
    if len(a) * len(b) > CAP:
        raise Unknown("conjunction too large")
    r = set()
    for x in a:
        for y in b:
            r ^= {x | y}
    if len(r) > CAP:
        raise Unknown("conjunction too large")
    return frozenset(r)


def bxor(a, b):
    return a ^ b if a and b else (a or b)


def bor(a, b):
    if not a or not b:
        return a or b
    return a ^ b ^ band(a, b)


def xor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    return norm([bxor(x, y) for x, y in zip(bits(a, w), bits(b, w))])


def and_(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    return norm([band(x, y) for x, y in zip(bits(a, w), bits(b, w))])


def or_(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    return norm([bor(x, y) for x, y in zip(bits(a, w), bits(b, w))])


def not_(a, w):
    return xor(a, (1 << w) - 1, w)


def select(c, a, b, w):
    """c ? a : b for a single bit c."""
    if c == ONE:
        return a
    if not c:
        return b
    if isinstance(a, int) and a == b:
        return a
    x, y = bits(a, w), bits(b, w)
    d = [bxor(p, q) for p, q in zip(x, y)]
    if sum(len(p) for p in d) * len(c) > 4000:
        i = atom("ite", (c, x, y), w)
        return norm([p if not q else z for p, q, z in zip(x, d, word(i))])
    return norm([bxor(q, band(c, r)) for q, r in zip(y, d)])


def shl(a, n, w):
    if isinstance(a, int):
        return a << n & (1 << w) - 1
    return norm(((ZERO,) * n + bits(a, w))[:w])


def shr(a, n, w, sg=False):
    if isinstance(a, int):
        return (signed(a, w) >> n) & (1 << w) - 1 if sg else a >> n
    b = bits(a, w)
    return norm(b[n:] + (b[-1] if sg else ZERO,) * min(n, w))


def resize(a, w1, sg, w2):
    """Conversion from w1 bits (signed or not) to w2 bits."""
    if isinstance(a, int):
        a &= (1 << w1) - 1
        if sg and w2 > w1:
            a = signed(a, w1)
        return a & (1 << w2) - 1
    b = bits(a, w1)
    if w2 <= w1:
        return norm(b[:w2])
    return norm(b + (b[-1] if sg else ZERO,) * (w2 - w1))


def whole(b):
    """The atom of which b is the complete word."""
    if isinstance(b, int):
        return None
    for x in b:
        if x and x != ONE:
            break
    else:
        return None
    if len(x) != 1:
        return None
    m, = x
    if len(m) != 1:
        return None
    y, = m
    i = y // 64
    if ATOMS[i][2] != len(b) or word(i) != tuple(b):
        return None
    return i


def linear(a, w, c, acc):
    """acc += c * a, sums taken apart."""
    m = (1 << w) - 1
    if isinstance(a, int):
        acc[None] = (acc.get(None, 0) + c * a) & m
        return
    a = bits(a, w)
    i = whole(a)
    if i is not None and ATOMS[i][0] == "add":
        for x, k in ATOMS[i][1]:
            linear(x, w, c * k, acc)
        return
    acc[a] = (acc.get(a, 0) + c) & m


def add(terms, w):
    """Sum of (value, coefficient) modulo 2^w."""
    acc = {}
    for a, c in terms:
        linear(a, w, c, acc)
    const = acc.pop(None, 0)
    # shifted words: 2^n * x is kept as the shifted word of x
    changed = True
    while changed:
        changed = False
        for a, c in list(acc.items()):
            if c == 0:
                del acc[a]
                continue
            n = (c & -c).bit_length() - 1
            if n:
                k = c >> n
                if c > 1 << (w - 1):
                    k = (c - (1 << w)) >> n
                s = shl(a, n, w)
                del acc[a]
                if isinstance(s, int):
                    const = (const + k * s) & (1 << w) - 1
                else:
                    acc[bits(s, w)] = (acc.get(bits(s, w), 0) + k) & (1 << w) - 1
                changed = True
                break
            if 1 < c < 1 << 16 and bin(c).count("1") <= 4:
                acc[a] = 1
                s = bits(shl(a, 1, w), w)
                acc[s] = (acc.get(s, 0) + (c >> 1)) & (1 << w) - 1
                changed = True
                break
    if not acc:
        return const
    if len(acc) == 1 and not const:
        (a, c), = acc.items()
        if c == 1:
            return norm(a)
    if all(c == 1 for c in acc.values()):
        # without overlapping bits nothing is carried
        cs = list(acc) + ([bits(const, w)] if const else [])
        if all(sum(1 for x in cs if x[i]) <= 1 for i in range(w)):
            return norm([next((x[i] for x in cs if x[i]), ZERO) for i in range(w)])
    args = frozenset(list(acc.items()) + ([(const, 1)] if const else []))
    return word(atom("add", args, w))


def mul(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a * b & (1 << w) - 1
    if isinstance(b, int):
        a, b = b, a
    if isinstance(a, int):
        return add([(b, a)], w)
    return word(atom("mul", frozenset([bits(a, w), bits(b, w)]), w))


def support(b):
    s = set()
    if not isinstance(b, int):
        for x in b:
            for m in x:
                for v in m:
                    s.add(v // 64)
    return s


def domain(i):
    """Values of an atom when they are few and known."""
    k, args, w = ATOMS[i]
    if k == "sym":
        return args[1] if args[1] is not None else (range(1 << w) if w <= 8 else None)
    if k == "tab":
        return sorted(set(args[0]))
    if k == "find":
        return range(len(args[0]))
    return range(1 << w) if w <= 8 else None


def bit_at(x, env):
    r = 0
    for m in x:
        t = 1
        for v in m:
            t &= env[v // 64] >> (v % 64) & 1
            if not t:
                break
        r ^= t
    return r


def cases(b):
    """Values of a bit vector that depends on one atom with a known domain; None when not applicable."""
    s = support(b)
    if len(s) != 1:
        return None
    i, = s
    d = domain(i)
    if d is None:
        return None
    out = []
    for v in d:
        n = 0
        for j, x in enumerate(b):
            n |= bit_at(x, {i: v}) << j
        out.append(n)
    return out


def decide(b, f):
    """Truth of f(value) for all values of b: True, False or None."""
    if isinstance(b, int):
        return bool(f(b))
    vs = cases(b)
    if vs is None:
        return None
    r = {bool(f(v)) for v in vs}
    return r.pop() if len(r) == 1 else None


def eq(a, b, w):
    """A single bit."""
    d = xor(a, b, w)
    if isinstance(d, int):
        return ZERO if d else ONE
    if any(x == ONE for x in d):
        return ZERO
    r = decide(d, lambda v: v == 0)
    if r is not None:
        return ONE if r else ZERO
    nz = tuple(x for x in d if x)
    if len(nz) == 1:
        return bxor(nz[0], ONE)
    return frozenset([frozenset([atom("isz", (bits(d, w),), 1) * 64])])


def lt(a, b, w, sg):
    if isinstance(a, int) and isinstance(b, int):
        return ONE if (signed(a, w) < signed(b, w) if sg else a < b) else ZERO
    if isinstance(b, int) and cases(a) is not None:
        r = decide(a, lambda v: signed(v, w) < signed(b, w) if sg else v < b)
    elif isinstance(a, int) and cases(b) is not None:
        r = decide(b, lambda v: signed(a, w) < signed(v, w) if sg else a < v)
    else:
        r = None
        x, y = bits(a, w), bits(b, w)
        if not sg or (not x[-1] and not y[-1]):
            hi = lambda t: sum(1 << i for i, z in enumerate(t) if z)
            lo = lambda t: sum(1 << i for i, z in enumerate(t) if z == ONE)
            r = True if hi(x) < lo(y) else (False if lo(x) >= hi(y) else None)
    if r is not None:
        return ONE if r else ZERO
    return frozenset([frozenset([atom("lt", (bits(a, w), bits(b, w), sg), 1) * 64])])


def table(data, idx):
    """Entry of a constant table of bytes."""
    if isinstance(idx, int):
        return data[idx]
    n = max(i for i, x in enumerate(idx) if x) + 1
    vs = cases(idx)
    if vs is not None:
        if max(vs) >= len(data):
            raise Unknown("index outside of a table")
        data = data[:max(vs) + 1] if len(data) > 1 << n else data
    elif 1 << n > len(data):
        raise Unknown("index may be outside of a table")
    else:
        data = data[:1 << n]
    return word(atom("tab", (tuple(data), bits(idx, n)), 8))


def find(data, v):
    """Position of byte v in constant data with distinct elements: (value, width 64) or -1."""
    if isinstance(v, int):
        return data.index(v) if v in data else (1 << 64) - 1
    i = whole(v)
    if i is not None and ATOMS[i][0] == "tab" and len(set(data)) == len(data) and \
            tuple(ATOMS[i][1][0]) == tuple(data[:len(ATOMS[i][1][0])]):
        return norm(bits(ATOMS[i][1][1], 64))
    vs = cases(v)
    if vs is None:
        raise Unknown("search for an unknown character")
    if not set(vs) & set(data):
        return (1 << 64) - 1
    if set(vs) <= set(data) and i is not None:
        return norm(bits(word(atom("find", (tuple(data), bits(v, 8)), max(1, (len(data) - 1).bit_length()))), 64))
    raise Unknown("search for a character that may or may not be present")


def fn(name, args, w):
    return word(atom("fn", (name,) + tuple(args), w))


class Valuation:
    """Numbers for all atoms, given the numbers of the symbols."""

    def __init__(self, f):
        self.f = f
        self.env = {}

    def num(self, v):
        if isinstance(v, int):
            return v
        n = 0
        for j, x in enumerate(v):
            r = 0
            for m in x:
                t = 1
                for y in m:
                    t &= self.atom(y // 64) >> (y % 64) & 1
                    if not t:
                        break
                r ^= t
            n |= r << j
        return n

    def atom(self, i):
        if i in self.env:
            return self.env[i]
        k, args, w = ATOMS[i]
        m = (1 << w) - 1
        if k == "sym":
            r = self.f(args[0], w, args[1])
        elif k == "add":
            r = sum(self.num(a) * c for a, c in args) & m
        elif k == "mul":
            r = 1
            for a in args:
                r *= self.num(a)
            r = r ** (2 if len(args) == 1 else 1) & m
        elif k == "tab":
            r = args[0][self.num(args[1])]
        elif k == "find":
            v = self.num(args[1])
            r = args[0].index(v) if v in args[0] else m
        elif k == "isz":
            r = int(self.num(args[0]) == 0)
        elif k == "lt":
            a, b = self.num(args[0]), self.num(args[1])
            n = len(args[0])
            r = int(signed(a, n) < signed(b, n) if args[2] else a < b)
        elif k == "ite":
            r = self.num(args[1] if self.num((args[0],)) else args[2])
        elif k == "fn":
            import hashlib
            d = repr((args[0],) + tuple(self.num(a) if not isinstance(a, str) else a for a in args[1:]))
            r = int.from_bytes(hashlib.sha256(d.encode()).digest()[:8], "little") & m
        else:
            raise Unknown(k)
        self.env[i] = r
        return r


def same(a, b, w, given=()):
    """True: the same function.  (False, valuation): different for this valuation of the symbols.  None: not decided.

    given: valuations of symbols, as functions (name, width, domain) -> number."""
    a, b = norm(bits(a, w)), norm(bits(b, w))
    if a == b:
        return True
    for f in given:
        v = Valuation(f)
        if v.num(a) != v.num(b):
            return (False, v)
    return None


_kids = {}


def kids(i):
    """Atoms an atom is directly made from."""
    r = _kids.get(i)
    if r is None:
        r = set()
        for v in parts(i):
            r |= support(v)
        _kids[i] = r = tuple(r)
    return r


def deep(bs, kinds, limit=200000):
    """Atoms of the given kinds on which the bits depend, through all operations."""
    seen, work, out = set(), list(support(bs)), []
    while work and len(seen) < limit:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        if ATOMS[i][0] in kinds:
            out.append(i)
        work += kids(i)
    return sorted(out)


def parts(i):
    """Bit vectors an atom is made from."""
    k, args, w = ATOMS[i]
    if k in ("add", "mul"):
        vs = [a[0] if k == "add" else a for a in args]
    elif k in ("tab", "find"):
        vs = [args[1]]
    elif k == "isz":
        vs = [args[0]]
    elif k == "lt":
        vs = list(args[:2])
    elif k == "ite":
        vs = [(args[0],), args[1], args[2]]
    elif k == "fn":
        vs = [a for a in args[1:] if not isinstance(a, str)]
    else:
        vs = []
    return [v for v in vs if not isinstance(v, int)]


def steer(i, f):
    """Valuation that makes the compared word of an isz atom zero, found by elimination in its affine part; None."""
    d = ATOMS[i][1][0]
    top = support(d)
    free = {a for a in top if ATOMS[a][0] == "sym" and ATOMS[a][1][1] is None}
    for a in top:
        if ATOMS[a][0] != "sym":
            free -= set(deep([frozenset([frozenset([a * 64])])], ("sym",)))
    for b in d:
        for m in b:
            if len(m) > 1:
                free -= {v // 64 for v in m}
    if not free:
        return None
    V = Valuation(f)
    rows = []
    for b in d:
        us, c = set(), 0
        for m in b:
            if len(m) == 1 and next(iter(m)) // 64 in free:
                us ^= m
            else:
                c ^= V.num((frozenset([m]),))
        rows.append((us, c))
    val = {}
    done = []
    while rows:
        us, c = rows.pop()
        if not us:
            if c:
                return None
            continue
        p = min(us)
        rows = [(u ^ us, k ^ c) if p in u else (u, k) for u, k in rows]
        done = [(q, u ^ us, k ^ c) if p in u else (q, u, k) for q, u, k in done] + [(p, us, c)]
    bitsval = {}
    base = {a: f(ATOMS[a][1][0], ATOMS[a][2], None) for a in free}
    for p, us, c in done:
        x = c
        for v in us:
            if v != p:
                x ^= base[v // 64] >> (v % 64) & 1
        bitsval[p] = x
    for v, x in bitsval.items():
        a = v // 64
        base[a] = base[a] & ~(1 << v % 64) | x << v % 64
    names = {ATOMS[a][1][0]: n for a, n in base.items()}
    return lambda name, w, dom: names[name] if name in names else f(name, w, dom)
