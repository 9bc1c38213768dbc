"""Which values of an attribute come back: the import's stores replayed, at the level of terms, for chosen attribute values."""
from . import decide
from .core import at
from .terms import *
from .canon import *
from .canon import strip_casts

NUMS = (0, 1, 2, 3, 7, 30, 100, 255, 256, 365, 1000, 65535, 65536)
TEXTS = ("", "a", "0", "1", "none", "A title", "http://example.org/x?y=1&z", "{REF:x}", "x" * 300, "\u00e4")


def strval(t):
    if t is None:
        return None
    if t.op == "str":
        s = t.args[0]
        return s if isinstance(s, str) else s.decode("latin1") if isinstance(s, bytes) else str(s)
    return "" if t.op == "empty" else None


def settle(g, leaf):
    """The fact g with text valued terms worked out; leaf(t) gives the text or number of a term, or None."""
    def sval(t):
        while t.op in ("cast", "tostr", "cstr", "deref"):
            t = t.args[-1]
        v = leaf(t)
        if isinstance(v, str):
            return v
        return strval(t)

    def f(x):
        v = leaf(x)
        if isinstance(v, int):
            return INT(v)
        if x.op == "size":
            s = sval(x.args[0])
            return INT(len(s.encode())) if s is not None else None
        if x.op == "eq":
            a, b = [sval(y) if isinstance(y, Term) else None for y in x.args[:2]]
            if a is not None and b is not None:
                return TRUE if a == b else FALSE
        if x.op == "at" and isinstance(x.args[1], Term) and x.args[1].op == "int":
            s = sval(x.args[0])
            if s is not None:
                bs = s.encode()
                k = x.args[1].args[0]
                c = bs[k] if k < len(bs) else 0
                return INT(c - 256 if c > 127 else c)
        if x.op == "sfind" and len(x.args[1]) >= 2:
            s = sval(x.args[1][0])
            n = x.args[1][1]
            k = x.args[1][2] if len(x.args[1]) > 2 else INT(0)
            n = (sval(n) if sval(n) is not None else chr(n.args[0]) if n.op == "int" else None) if isinstance(n, Term) else None
            if s is not None and n is not None and isinstance(k, Term) and k.op == "int" and k.args[0] == 0:
                r = {"find": s.find(n),
                     "rfind": s.rfind(n),
                     "find_first_of": min([s.find(c) for c in n if c in s] or [-1]),
                     "find_first_not_of": next((i for i, c in enumerate(s) if c not in n), -1)}.get(x.args[0])
                if r is not None:
                    return INT(r if r >= 0 else (1 << 64) - 1)
        return None
    return rebuild(g, f)


def samples(scalar, text, terms):
    """Values to try: the usual ones and those next to the constants compared with."""
    if text:
        out = list(TEXTS)
        for g in terms:
            for x in subterms(g):
                if x.op == "str":
                    s = strval(x)
                    if s and s.isprintable() and s == s.strip():
                        out += [s, s + "x", "x" + s, s[:-1]]
                elif x.op == "int" and isinstance(x.args[0], int) and 33 <= x.args[0] < 127:
                    out += [chr(x.args[0]), chr(x.args[0]) + "x", "x" + chr(x.args[0])]
                    if x.args[0] <= 64:
                        out += ["y" * (x.args[0] + k) for k in (-1, 0, 1)]
        return list(dict.fromkeys(v for v in out if v == v.strip()))
    if scalar is None or scalar[0] == 1:
        return []
    w, signed = scalar
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    out = list(NUMS) + [1 << (w - 1), (1 << (w - 1)) - 1, hi] + ([-1, -2, -100] if signed else [])
    for g in terms:
        for x in subterms(g):
            if x.op == "int" and isinstance(x.args[0], int):
                out += [x.args[0] - 1, x.args[0], x.args[0] + 1]
    return list(dict.fromkeys(v for v in out if lo <= v <= hi))


class Replay:
    def __init__(self, X, sc, p, term, asg, relevant):
        self.X, self.sc, self.p, self.term, self.asg, self.relevant = X, sc, p, strip_casts(term), asg, relevant
        self.t0 = term

    def holds(self, g, fs, v, absent):
        """Truth of an import guard when the text at p stands for value v (or nothing is written there)."""
        IV, p = self.X.IV, self.p

        def below(x):
            q = IV.place(x, fs)
            return q is not None and q[:len(p)] == p

        def leaf(x):
            if x.op == "xval" and IV.place(x.args[0], fs) == p:
                return "" if absent else v if isinstance(v, str) else str(v)
            if x.op == "xas" and IV.place(x.args[1], fs) == p:
                if absent:
                    d = x.args[2]
                    return d.args[0] if isinstance(d, Term) and d.op == "int" else d if isinstance(d, int) else None
                if isinstance(v, int):
                    return v
                return v if x.args[0] in ("string", "str") else None
            if absent and x.op == "exists" and below(x.args[0]):
                return 0
            return None
        g1 = settle(g, leaf)
        for _ in range(2):
            e = decide.evalnum(g1, {self.term: v, self.t0: v} if isinstance(v, int) else {})
            if e is not None:
                return bool(e)
            e = self.sc.ev(g1, fs)
            if e is not None:
                return e
        return None

    def run(self, v, absent=False):
        """The set of values the attribute may have afterwards ('?' for one that is not known, None when no object exists)."""
        cur = {None}
        for a in sorted(self.asg, key=lambda a: a.k):
            live = []
            for alt in a.alts:
                fs = a.facts | alt.g
                r = True
                for g in fs:
                    if not self.relevant(g, self.X.IV, a.loops):
                        continue
                    e = self.holds(g, fs, v, absent)
                    if e is False:
                        r = False
                        break
                    if e is None:
                        r = None
                if r is not False:
                    live.append((r, alt))
            if not live:
                continue
            out = set()
            for r, alt in live:
                if alt.kind == "place" and alt.leaf == self.p and not absent and \
                        all(o[0] == "num" for o in alt.ops):
                    out.add(v)
                elif alt.kind == "place" and alt.leaf == self.p and absent and isinstance(v, str):
                    out.add("")             # whatever the encoding, no text is read as nothing
                elif alt.kind == "place" and alt.leaf == self.p and absent and len(alt.ops) == 1 and \
                        alt.ops[0][0] == "num" and len(alt.ops[0]) > 2:
                    d = alt.ops[0][2]
                    d = d.args[0] if isinstance(d, Term) and d.op == "int" else d
                    out.add(int(d) if isinstance(d, (int, bool)) else "?")
                elif alt.kind == "const" and alt.leaf.op == "int":
                    out.add(alt.leaf.args[0])
                elif alt.kind == "const" and strval(alt.leaf) is not None:
                    out.add(strval(alt.leaf))
                else:
                    out.add("?")
            if len(live) > 1 or live[0][0] is None:
                out |= cur
            cur = out
        return cur

    def written(self, facts, v, like=None, term=None):
        """Could a write under these facts happen when the attribute is v?  Other attributes take any value, or the values
        like(term) gives for them."""
        t0 = self.t0 if term is None else term
        t = strip_casts(t0)

        def leaf(x):
            if x is t or x is t0:
                return v
            return like(x) if like else None
        for f in facts:
            if t not in subterms(f) and t0 not in subterms(f):
                continue
            g = settle(f, leaf)
            if decide.evalnum(g, {t: v, t0: v} if isinstance(v, int) else {}) == 0 or g is FALSE:
                return False
        return True
