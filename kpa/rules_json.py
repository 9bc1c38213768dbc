"""Well-formedness of the JSON rendering (P21).

The pieces put on the output stream are run, along every path of the event graph, through a JSON push-down recogniser.
Constants are read character by character; other pieces are classed: numbers, complete JSON values (other renderings),
text that is safe inside a string (escaped text, formatted times), and raw text, which is safe nowhere.
"""
import json as _json

from .canon import *
from .core import at
from .decide import evalnum
from .rules_flow import flat_alts, short
from .terms import *

NAME = "ToJson"
LIMIT = 60000


# -- recogniser: state (stack, expectation, lexeme) --------------------------
START = ("", "v", None)


class Bad(Exception):
    pass


def after_value(stack):
    return {"": "end", "O": ",}", "A": ",]"}[stack[-1:]]


def feed_char(st, ch):
    stack, exp, lex = st
    if lex is not None and lex[0] in "seu":
        k = lex[0]
        if k == "s":
            if ch == '"':
                return (stack, ":" if lex[1] else after_value(stack), None)
            if ch == "\\":
                return (stack, exp, ("e", lex[1]))
            if ord(ch) < 0x20:
                raise Bad("control character in a string")
            return st
        if k == "e":
            if ch == "u":
                return (stack, exp, ("u", lex[1], 4))
            if ch not in '"\\/bfnrt':
                raise Bad("escape sequence \\%s" % ch)
            return (stack, exp, ("s", lex[1]))
        if ch not in "0123456789abcdefABCDEF":
            raise Bad("escape sequence with %r" % ch)
        return (stack, exp, ("s", lex[1]) if lex[2] == 1 else ("u", lex[1], lex[2] - 1))
    if lex is not None and lex[0] == "n":
        if ch in "0123456789.eE+-":
            return st
        st = (stack, after_value(stack), None)
        stack, exp, lex = st
    if lex is not None and lex[0] == "l":
        if ch != lex[1][0]:
            raise Bad("literal")
        return (stack, after_value(stack), None) if len(lex[1]) == 1 else (stack, exp, ("l", lex[1][1:]))
    if ch in " \t\r\n":
        return st
    if exp in ("v", "v]"):
        if ch == "{":
            return (stack + "O", "k}", None)
        if ch == "[":
            return (stack + "A", "v]", None)
        if ch == '"':
            return (stack, exp, ("s", False))
        if ch in "-0123456789":
            return (stack, exp, ("n",))
        for w in ("true", "false", "null"):
            if ch == w[0]:
                return (stack, exp, ("l", w[1:]))
        if ch == "]" and exp == "v]":
            return (stack[:-1], after_value(stack[:-1]), None)
        raise Bad("%r where a value has to stand" % ch)
    if exp in ("k}", "k"):
        if ch == '"':
            return (stack, exp, ("s", True))
        if ch == "}" and exp == "k}":
            return (stack[:-1], after_value(stack[:-1]), None)
        raise Bad("%r where a member name has to stand" % ch)
    if exp == ":":
        if ch == ":":
            return (stack, "v", None)
        raise Bad("%r instead of a colon" % ch)
    if exp == ",}":
        if ch == ",":
            return (stack, "k", None)
        if ch == "}":
            return (stack[:-1], after_value(stack[:-1]), None)
        raise Bad("%r after a member" % ch)
    if exp == ",]":
        if ch == ",":
            return (stack, "v", None)
        if ch == "]":
            return (stack[:-1], after_value(stack[:-1]), None)
        raise Bad("%r after an element" % ch)
    raise Bad("%r after the end" % ch)


def feed_str(st, s):
    for ch in s:
        st = feed_char(st, ch)
    return st


def feed_class(st, k, what):
    stack, exp, lex = st
    ins = lex is not None and lex[0] == "s"
    if k == "text":
        if ins:
            return st
        raise Bad("text %s outside of a string" % what)
    if k == "raw":
        raise Bad("%s is put %s without escaping" % (what, "in a string" if ins else "outside of a string"))
    if k == "int":
        if ins or lex == ("n",):
            return st
        if lex is None and exp in ("v", "v]"):
            return (stack, exp, ("n",))
        raise Bad("number %s where none can stand" % what)
    if k == "value":
        if lex is None and exp in ("v", "v]"):
            return (stack, after_value(stack), None)
        raise Bad("%s where no value can stand%s" % (what, " (inside a string)" if ins else ""))
    raise AssertionError(k)


def complete(st):
    stack, exp, lex = st
    if lex == ("n",):
        exp, lex = after_value(stack), None
    return stack == "" and exp == "end" and lex is None


# -- classification of pieces ------------------------------------------------
class Escapers:
    def __init__(self, c, rep):
        self.c, self.rep = c, rep
        self.known = {}

    def function(self, q):
        """Class of the text a function returns."""
        if q not in self.known:
            self.known[q] = None
            for f in self.c.find(q)[:1]:
                r = self.c.run(f)
                self.known[q] = self.text(r.I, r.v, "%s:%s" % (f["file"], f["line"]), short(q))
        return self.known[q]

    def text(self, I, t, where, name):
        """True: safe inside a JSON string, False: not, None: unknown."""
        out = []
        for g, x in flat_alts(t):
            if x is EMPTY:
                out.append(True)
            elif x.op == "str":
                try:
                    out.append(feed_str(("", "v", ("s", False)), x.args[0])[2] == ("s", False))
                except Bad:
                    out.append(False)
            elif x.op == "strf":
                fm = [y.args[0] for y in x.args if y.op == "str"]
                out.append(not any(z in fm[0] for z in ('"', "\\", "%n", "%t")) if len(fm) == 1 else None)
            elif x.op == "lphi":
                out.append(self.loop(I, x, where, name))
            elif x.op in ("json_escape", "time_to_str"):
                out.append(self.function("keepass::" + x.op))
            else:
                out.append(None)
        if False in out:
            return False
        return None if None in out else True

    def loop(self, I, l, where, name):
        """A loop that appends something for every character of a text."""
        e, b = I.lphi.get(l, (None, None))
        if e is not EMPTY or b is None:
            return None
        src = {x for x in subterms(b) if x.op == "at" and x.args[1].op in ("i", "lphi") and x.args[1].args[0] == l.args[0] and
               x.args[0].op != "str"}
        if len(src) != 1:
            return None
        ch = list(src)[0]
        L = I.loops.get(l.args[0])
        if L is None or not L.complete:
            return None
        verdict = True
        for c in range(-128, 128):
            for env in ({ch: c},):
                outs = []
                for g, x in flat_alts(b):
                    vs = [evalnum(f, env) for f in g]
                    if 0 in vs:
                        continue
                    outs.append(built(x, l, env))
                if not outs or any(o is None for o in outs):
                    return None
                for o in outs:
                    s = bytes(o).decode("latin-1")
                    try:
                        ok = feed_str(("", "v", ("s", False)), s)[2] == ("s", False)
                        back = (_json.loads('"' + s + '"') if c >= 0 else s) == chr(c & 255) if ok else False
                    except (Bad, ValueError):
                        ok = back = False
                    if not ok:
                        self.rep.bad("escaping", name + "/unsafe", where, "%s turns character %d into %r, which is not safe inside a "
                                     "JSON string" % (name, c & 255, s))
                        verdict = False
                    elif not back:
                        self.rep.bad("escaping", name + "/other", where, "%s turns character %d into %r, which stands for another text%s"
                                     % (name, c & 255, s, "" if c >= 0 else " (a byte of an UTF-8 sequence has to stay as it is)"))
                if verdict is False:
                    return False
        self.rep.ok("escaping", where, "%s: all 256 character values" % name)
        return True


def built(x, l, env):
    """Bytes appended to the accumulator, None when unknown."""
    if x is l or x is EMPTY:
        return []
    if x.op == "vec":
        a = built(x.args[0], l, env)
        v = char(x.args[1], env)
        return None if a is None or v is None else a + [v & 255]
    if x.op == "cat":
        out = []
        for y in x.args:
            if y.op == "str":
                out += list(y.args[0].encode("latin-1", "replace"))
            else:
                a = built(y, l, env)
                if a is None:
                    return None
                out += a
        return out
    if x.op == "phi":
        for g, v in flat_alts(x):
            vs = [evalnum(f, env) for f in g]
            if 0 in vs:
                continue
            return built(v, l, env) if None not in vs else None
    if x.op in ("filled", "repeat"):
        return None
    return None


def char(t, env):
    if t.op == "at" and t.args[0].op == "str":
        i = evalnum(t.args[1], env)
        s = t.args[0].args[0]
        return ord(s[i]) if i is not None and 0 <= i < len(s) else (0 if i == len(s) else None)
    if t.op == "cast":
        v = char(t.args[1], env)
        return None if v is None else wrap(v, t.args[0])
    return evalnum(t, env)


# -- a rendering function ------------------------------------------------------
def atoms(fs):
    return {f.args[0] if f.op == "not" else f for f in fs}


class Render:
    def __init__(self, c, rep, esc, f, prims):
        self.c, self.rep, self.esc, self.f = c, rep, esc, f
        self.r = c.run(f, prims, markers=True)
        self.I = self.r.I
        self.name = short(f["n"])
        self.where = "%s:%s" % (f["file"], f["line"])
        self.heads = {h.id: k for k in self.I.loops for h in [self.r.head(k)] if h is not None}
        self.lphis = {}
        for l, (e, b) in self.I.lphi.items():
            if e is not None and b is not None and l.args[1].op == "lv" and l.args[1].args[0].op == "var":
                self.lphis.setdefault(l.args[0], []).append((l, e, b))
        self.relevant = self.find_relevant()
        self.pieces = 0

    def find_relevant(self):
        out = set()
        terms = [a for n in self.r.nodes.values() if n.kind in ("sput", "swrite") for a in n.args[1:] if isinstance(a, Term)]
        terms += [b for ls in self.lphis.values() for l, e, b in ls if not (l.args[1].args[1] and l.args[1].args[1][-1] == "$ver")]
        if self.r.v is not None:
            terms.append(self.r.v)
        for t in terms:
            for x in subterms(t):
                if x.op == "phi":
                    for g, v in x.args[0]:
                        out |= atoms(g)
        seen = {}
        for n in self.r.nodes.values():
            if n.kind == "br":
                for a in atoms(n.args):
                    seen.setdefault(a, set()).add((n.file, n.line))
                    if any(y.op in ("lphi", "i") for y in subterms(a)):
                        out.add(a)
        out |= {a for a, s in seen.items() if len(s) > 1}
        return out

    # -- states: (parser, facts, constants of loop variables)
    def value(self, t, facts, env):
        """Constants a term can be in a state; None when unknown."""
        if t.op == "str":
            return {t.args[0]}
        if t is EMPTY:
            return {""}
        if t in env:
            return {env[t]}
        if t.op == "phi":
            out = set()
            for g, v in flat_alts(t):
                if self.infeasible(g, facts, env):
                    continue
                s = self.value(v, facts, env)
                if s is None:
                    return None
                out |= s
            return out or None
        v = evalnum(t, self.ints(env))
        return None if v is None else {min(v, 8)}

    def ints(self, env):
        out = {}
        for l, v in env.items():
            if isinstance(v, int):
                out[l] = v
            else:
                out[mk_size(l)] = len(v)
        return out

    def infeasible(self, g, facts, env):
        ie = self.ints(env)
        for f in g:
            if mk_not(f) in facts:
                return True
            if ie and evalnum(f, ie) == 0:
                return True
            ss = {x for x in subterms(f) if x.op in ("size", "isempty") and x.args[0].op in ("phi", "cat", "vec", "lphi")}
            if len(ss) == 1:
                x = list(ss)[0]
                lo, hi = self.length(x.args[0], facts, env)
                fe = {}
                for y in list(facts) + [y for y in g if y is not f]:
                    fe.update({y.args[0]: 0} if y.op == "not" else {y: 1})
                vs = [evalnum(f, {**fe, x: n if x.op == "size" else int(n == 0)}) for n in (range(lo, hi + 1) if hi is not None and
                                                                                    hi - lo < 64 else list(range(lo, lo + 16)) + [9999])]
                if all(v == 0 for v in vs):
                    return True
        return False

    def length(self, t, facts, env, depth=0):
        """Bounds of the length of a text under the facts."""
        if t is EMPTY:
            return 0, 0
        if t.op == "str":
            return len(t.args[0]), len(t.args[0])
        if depth > 20:
            return 0, None
        if t.op == "phi":
            bs = [self.length(v, facts, env, depth + 1) for g, v in flat_alts(t) if not any(mk_not(y) in facts for y in g)]
            if not bs:
                return 0, None
            return min(b[0] for b in bs), None if any(b[1] is None for b in bs) else max(b[1] for b in bs)
        if t.op in ("cat", "vec"):
            bs = [self.length(y, facts, env, depth + 1) for y in (t.args if t.op == "cat" else t.args[:1])]
            if t.op == "vec":
                bs.append((1, 1))
            return sum(b[0] for b in bs), None if any(b[1] is None for b in bs) else sum(b[1] for b in bs)
        if t.op == "lphi" and t in self.I.lphi and self.I.lphi[t][0] is not None:
            return 0, None
        return 0, None

    def enter(self, st, n, back):
        """State when a loop head is entered."""
        p, facts, env = st
        env = dict(env)
        key = self.heads[n.id]
        new = [dict(env)]
        for l, e, b in self.lphis.get(key, ()):
            vs = self.value(b if back else e, facts, env)
            if vs is None or len(vs) > 8:
                for m in new:
                    m.pop(l, None)
                continue
            new = [dict(m, **{}) for m in new for v in vs for m in [dict(m, __v=v)]]
            for m in new:
                m[l] = m.pop("__v")
        if back:
            kept = set()
            for f in facts:
                for l, e, b in self.lphis.get(key, ()):
                    if any(x is b for x in subterms(f)):
                        f = subst(f, b, l)
                        break
                else:
                    if any(x.op in ("i", "lphi") and x.args[0] == key for x in subterms(f)):
                        continue
                kept.add(f)
            facts = frozenset(kept)
        else:
            facts = frozenset(f for f in facts if not any(x.op in ("i", "lphi") and x.args[0] == key for x in subterms(f)))
        return [(p, facts, frozenset(m.items())) for m in new]

    def assume(self, st, fs):
        p, facts, env = st
        if self.infeasible(fs, facts, dict(env)):
            return None
        add = {f for f in fs if (f.args[0] if f.op == "not" else f) in self.relevant}
        return (p, facts | add, env)

    def put(self, st, t, pt, depth=0):
        """States after a piece is written."""
        p, facts, env = st
        k, what = None, show(t, 4)
        isch = pt is not None and pt.k in ("int", "char") and (pt.w == 8) and "bool" not in str(pt)
        if t is EMPTY:
            return [st]
        if t.op == "str":
            return [(feed_str(p, t.args[0]), facts, env)]
        if t.op == "int":
            return [(feed_str(p, chr(t.args[0] & 255) if isch else str(t.args[0])), facts, env)]
        vs = self.value(t, facts, dict(env))
        if vs is not None and t.op in ("lphi", "phi"):
            return [(feed_str(p, v if isinstance(v, str) else str(v)), facts, env) for v in vs]
        if t.op == "phi":
            out = []
            for g, v in flat_alts(t):
                s2 = self.assume(st, g)
                if s2 is not None:
                    out += self.put(s2, v, pt, depth + 1)
            return out
        if t.op == "cat" and depth < 8:
            sts = [st]
            for y in t.args:
                sts = [z for s in sts for z in self.put(s, y, None, depth + 1)]
            return sts
        if t.op == "vec" and depth < 8:
            sts = self.put(st, t.args[0], None, depth + 1)
            v = t.args[1]
            if v.op != "int":
                raise Bad("character %s is put without escaping" % show(v, 4))
            return [(feed_str(s[0], chr(v.args[0] & 255)), s[1], s[2]) for s in sts]
        k = self.kind(t, pt)
        if k is None:
            raise Unknown(what)
        return [(feed_class(p, k, what), facts, env)]

    def kind(self, t, pt):
        if t.op == "prim" and t.args[0].split("::")[-1] == NAME or t.op == "rec" and NAME in str(t.args[0]):
            return "value"
        if t.op in ("json_escape", "time_to_str"):
            v = self.esc.function("keepass::" + t.op)
            return "text" if v else ("raw" if v is False else None)
        if t.op == "tostr":
            return "int"
        if t.op == "sstr":
            return None
        if t.op == "lphi" and t in self.I.lphi:
            v = self.esc.text(self.I, t, self.where, self.name)
            return "text" if v else ("raw" if v is False else None)
        if t.op == "strf":
            v = self.esc.text(self.I, t, self.where, self.name)
            return "text" if v else "raw"
        s = str(pt) if pt is not None else ""
        if pt is not None and pt.k in ("int", "bool", "enum") and pt.w != 8 or "bool" in s:
            return "int"
        if pt is not None and pt.k == "int" and pt.w == 8:
            return "raw"
        if "basic_string" in s or pt is not None and pt.k == "ptr" or self.stored(t):
            return "raw"
        return None

    def stored(self, t):
        """Text of the data model."""
        while t.op in ("deref", "lock"):
            t = t.args[0]
        return t.op == "fld" or t.op == "at" and t.args[0].op == "fld"

    # -- fixpoint
    def run(self):
        r, rep = self.r, self.rep
        v = r.v
        if v is None:
            rep.und("document", self.where, self.name + " returns nothing")
            return
        if v.op != "sstr":
            self.term(v)
            return
        sid = v.args[0]
        states = {}
        seen = set()
        start = r.start()
        todo = [(start.id, (START, frozenset(), frozenset()), None)]
        n_states = 0
        errors = False
        while todo:
            nid, st, frm = todo.pop()
            n = r.nodes[nid]
            if nid in self.heads:
                key = self.heads[nid]
                sts = self.enter((st[0], st[1], st[2]), n, back=frm is not None and (frm == nid or key in r.nodes[frm].loops))
            else:
                sts = [st]
            for s in sts:
                s = self.assume(s, n.facts)
                if s is None:
                    continue
                try:
                    if n.kind in ("sput", "swrite") and n.args[0] is sid:
                        outs = self.put(s, n.args[1], n.extra.get("pt"))
                        self.pieces += 1
                    else:
                        outs = [s]
                except Bad as e:
                    rep.bad("document", "%s:%s" % (self.name, short_key(n.args[1])), at(n), "%s: %s (output so far: %s)" % (
                        self.name, e, describe(s[0])))
                    errors = True
                    continue
                except Unknown as e:
                    rep.und("document", at(n), "%s: piece %s not classified" % (self.name, e))
                    errors = True
                    continue
                if n.kind in ("sreset", "sclear") and n.args[0] is sid:
                    rep.und("document", at(n), "%s: output stream is changed" % self.name)
                    return
                for o in outs:
                    if n.kind == "return":
                        if not complete(o[0]):
                            rep.bad("document", self.name + ":end", self.where, "%s can return an incomplete document (%s)" %
                                    (self.name, describe(o[0])))
                            errors = True
                        continue
                    if len(o[0][0]) > 12:
                        rep.bad("document", self.name + ":depth", at(n), "%s: brackets opened in a loop are not closed" % self.name)
                        return
                    k = (nid, o)
                    if k in seen:
                        continue
                    seen.add(k)
                    n_states += 1
                    if n_states > LIMIT:
                        rep.und("document", self.where, self.name + ": too many states")
                        return
                    for m in r.succ[nid]:
                        if r.nodes[m].kind not in ("throw", "catch"):
                            todo.append((m, o, nid))
        rep.counts["states"] += n_states
        rep.counts["pieces"] += len([n for n in r.by("sput") if n.args[0] is sid])
        if not errors:
            rep.ok("document", self.where, "%s: %d pieces, %d states" % (self.name, len([n for n in r.by("sput") if n.args[0] is sid]),
                                                                         n_states))

    # -- documents built as a string value
    def term(self, v):
        try:
            outs = self.strval(v, [(START, frozenset(), frozenset())], None, 0)
        except Bad as e:
            self.rep.bad("document", self.name + ":text", self.where, "%s: %s" % (self.name, e))
            return
        except (Unknown, RecursionError) as e:
            self.rep.und("document", self.where, "%s: %s not understood" % (self.name, e))
            return
        ok = all(complete(o[0]) for o in outs) and outs
        self.rep.judge("document", bool(ok), self.name + ":end", self.where, "%s can return an incomplete document" % self.name,
                       self.name)

    def strval(self, t, sts, acc, depth):
        """States after the value of a string term has been read; acc: (loop accumulator, states at the loop head)."""
        if depth > 60:
            raise Unknown(show(t, 3))
        if acc is not None and t is acc[0]:
            return acc[1]
        if t.op == "phi":
            out = []
            for g, x in flat_alts(t):
                for s in sts:
                    s2 = self.assume(s, g)
                    if s2 is not None:
                        out += self.strval(x, [s2], None if acc is None else (acc[0], [y for y in (self.assume(z, g) for z in acc[1])
                                                                                       if y is not None]), depth + 1)
            return list(set(out))
        if t.op == "cat":
            out = self.strval(t.args[0], sts, acc, depth + 1)
            for y in t.args[1:]:
                out = list({z for s in out for z in self.strval(y, [s], None, depth + 1)})
            return out
        if t.op == "vec":
            out = self.strval(t.args[0], sts, acc, depth + 1)
            return list({z for s in out for z in self.put(s, T("vec", EMPTY, t.args[1]), None)})
        if t.op == "lphi" and t in self.I.lphi and self.I.lphi[t][0] is not None and self.I.lphi[t][1] is not None and \
                self.esc_text(t) is not True:
            e, b = self.I.lphi[t]
            cur = set(self.strval(e, sts, acc, depth + 1))
            for k in range(12):
                nxt = cur | set(self.strval(b, list(cur), (t, list(cur)), depth + 1))
                if nxt == cur:
                    return list(cur)
                if len(nxt) > 2000:
                    raise Unknown("loop")
                cur = nxt
            raise Unknown("loop")
        return [z for s in sts for z in self.put(s, t, None)]

    def esc_text(self, t):
        e, b = self.I.lphi[t]
        if e is not EMPTY:
            return None
        from .core import Report
        return Escapers(self.c, Report("sub")).text(self.I, t, self.where, self.name)


class Unknown(Exception):
    pass


def subst(t, old, new):
    if t is old:
        return new
    if not any(x is old for x in subterms(t)):
        return t
    a = []
    for x in t.args:
        if isinstance(x, Term):
            a.append(subst(x, old, new))
        elif isinstance(x, tuple):
            a.append(tuple(subst(y, old, new) if isinstance(y, Term) else y for y in x))
        else:
            a.append(x)
    return T(t.op, *a)


def describe(st):
    stack, exp, lex = st
    return "open: %s, next: %s%s" % ("".join("{" if x == "O" else "[" for x in stack) or "nothing", {
        "v": "a value", "v]": "a value or ]", "k": "a member", "k}": "a member or }", ":": "a colon", ",}": ", or }",
        ",]": ", or ]", "end": "nothing"}[exp], ", inside a string" if lex and lex[0] in "seu" else "")


def short_key(t):
    import re
    return re.sub(r"\d{2,}", "", show(t, 4)).replace(" ", "")[:60]


def json_output(c, rep):
    """P21"""
    rep.rule("document", "run through a JSON recogniser along every path, the pieces a rendering function writes form one complete "
             "document; text stands only inside strings, and only escaped")
    rep.rule("escaping", "the escaping function maps every character value to text that is valid inside a JSON string and stands "
             "for that character")
    fs = [f for f in c.P.funcs.values() if f["n"].startswith("keepass::") and f["n"].split("::")[-1] == NAME and f.get("body")]
    if not fs:
        rep.und("document", "src", "no rendering function found")
        return
    prims = tuple(sorted({f["n"] for f in fs}))
    esc = Escapers(c, rep)
    for f in sorted(fs, key=lambda f: f["n"]):
        R = Render(c, rep, esc, f, prims)
        R.run()
