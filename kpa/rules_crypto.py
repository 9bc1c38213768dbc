"""Cryptographic parameters: headers, key derivation, integrity checks, confidentiality."""
from .copyloop import copy_loop
from .core import at
from .decide import differ, evalnum
from .rules_flow import (EXPORTS, disjuncts, IMPORTS, WRITE, describe, escapes, not_swallowed, flat_alts, short, sid_of, sink_kind, stable,
                         ver_fact)
from .terms import *
from .wire import *

PAIRS = (("KDB", "keepass::KdbFile::Export", "keepass::KdbFile::Import"),
         ("KDBX", "keepass::KdbxFile::Export", "keepass::KdbxFile::Import"))
HDR_ATTRS = ("cipher_", "master_seed_", "init_vector_", "transform_seed_", "inner_random_stream_key_",
             "transform_rounds_", "compress_")


class Format:
    """One file format: the export, the import and the correspondence of their header fields."""

    def __init__(self, c, name, exp, imp):
        self.name = name
        self.E, self.I = c.root(exp), c.root(imp)
        self.S = ImportSlots(self.I)
        self.hdr_recs = None
        self.hdr, self.tags = {}, {}
        self.hsid = None
        sids = []
        for n in self.E.by("swrite"):
            if n.args[0] not in sids:
                sids.append(n.args[0])
        # the header stream is the one that receives the record with the signature
        for s in sids:
            R = Records(self.E, s).struct_tags()
            if R.hdr and any(x.op == "int" and x.args[0] > 0xffff for x, _ in R.hdr.values()):
                self.hsid, self.hdr_recs = s, R
                break
        if self.hsid is None:
            raise AnalysisError("%s: no header record found in the export" % name)
        R = self.hdr_recs
        self.hdr = {("hdr", f): v for f, v in R.hdr.items()}
        for k, l in R.tags.items():
            self.tags[("tag", k)] = l
        self.file = file_sids(self.E, ("ofstream",))
        self.src = file_sids(self.I, ("ifstream",))
        r = self.I
        r.I.S = r.S
        self.dbv = r.v
        self.db = LV(T("obj", r.v))
        self.E_db = T("par", "db")

    def written(self, slot):
        """Value an export stores in a header slot (None: not written, or written in several ways)."""
        if slot in self.hdr:
            return self.hdr[slot][0]
        l = self.tags.get(slot)
        if l and len(l) == 1 and len(l[0][1]) == 1:
            return l[0][1][0].args[1]
        return None

    def node(self, slot):
        if slot in self.hdr:
            return self.hdr[slot][1]
        l = self.tags.get(slot)
        return l[0][2] if l else None

    def attr(self, f):
        self.I.I.S = self.I.S
        return self.I.I.read(sub(self.db, f))

    def subst(self, t, under=None):
        """An import's term with every header slot replaced by what the export wrote there (under a guard)."""
        unknown = []

        def pick(w):
            if w is None or under is None or w.op != "phi":
                return w
            vs = {v for gg, v in flat_alts(w) if compatible(gg, under)}
            return vs.pop() if len(vs) == 1 else w

        def f(x):
            base, path = rd_of(x)
            if base is not None:
                s = self.S.slot(base, path)
                w = pick(self.written(s)) if s is not None else None
                if w is None:
                    unknown.append(x)
                    return None
                return w
            if x.op in ("lphi", "phi"):
                ss = self.S.slots(x)
                if len(ss) == 1:
                    w = pick(self.written(next(iter(ss))))
                    if w is not None:
                        return w
                if x.op == "lphi":
                    unknown.append(x)
                    return x
            return None
        r = rebuild(t, f)
        return r, unknown


def canon_sizes(t, facts):
    """Replace size(v) by the constant the facts give it, drop value-preserving casts."""
    eqs = {}
    for x in facts:
        if x.op == "eq":
            a, b = x.args
            for p, q in ((a, b), (b, a)):
                if p.op == "size" and q.op == "int":
                    eqs[p] = q

    def f(x):
        if x.op == "cast":
            return canon_sizes(x.args[1], facts)
        if x.op == "size" and x in eqs:
            return eqs[x]
        return None
    return rebuild(t, f)


def fmt(c, i):
    k = "_fmt%d" % i
    if not hasattr(c, k):
        setattr(c, k, Format(c, *PAIRS[i]))
    return getattr(c, k)


CLOSED = ("sha", "shaU", "sha0", "xform", "par", "fld", "int", "size", "deref", "lock", "arr", "randombytes", "ev", "at",
          "zeros", "cdata", "eq", "truthy", "not")


def closed(t):
    return all(x.op in CLOSED for x in subterms(t))


def selecting(facts, env_pred):
    """Facts that talk about the given kind of term."""
    return [x for x in facts if any(env_pred(y) for y in subterms(x))]


def cipher_alts(r):
    """(guards, class, args, node) for every cipher object reaching the bulk encryption."""
    out = []
    for n in r.by("cbc"):
        cip = n.args[2] if len(n.args) > 2 else None
        if cip is None:
            continue
        for g, v in flat_alts(cip):
            if v.op == "cipher":
                ev = [m for m in r.by("cipher") if m.name.split("::")[-1] == str(v.args[0]).split("::")[-1]
                      and tuple(m.args) == tuple(v.args[1])]
                gg = set(g)
                for m in ev[:1]:
                    gg |= m.facts
                out.append((frozenset(gg), str(v.args[0]).split("::")[-1], v.args[1], n))
            else:
                out.append((frozenset(g), None, (), n))
    return out


def consistent(facts, env):
    """Can the facts hold when the terms in env have the given values?  False only when one folds to false."""
    for x in facts:
        y = rebuild(x, lambda t: env.get(t))
        if y is FALSE:
            return False
    return True


# ---------------------------------------------------------------------------
def header_faithful(c, rep):
    """P03"""
    rep.rule("attribute-slot", "each cryptographic attribute of an imported database comes from the header field in which "
             "the export stores that same attribute")
    rep.rule("used-recorded", "every database attribute the export uses to encrypt is stored in a header field")
    rep.rule("constant-accepted", "the fixed header values an export writes pass the import's checks")
    rep.rule("record-size", "the size stored with a header record is the number of bytes written after it")
    rep.rule("size-accepted", "the size stored with a header record passes the import's checks")
    for i in (0, 1):
        F = fmt(c, i)
        E = F.E
        used = set()
        for n in E.by("cipher") + E.by("xform") + E.by("obfinit"):
            for a in n.args:
                for x in subterms(a):
                    if x.op == "fld" and x.args[0] is F.E_db:
                        used.add(x.args[1])
            for x in n.facts:
                for y in subterms(x):
                    if y.op == "fld" and y.args[0] is F.E_db and y.args[1] == "cipher_" and n.kind == "cipher":
                        used.add(y.args[1])
        for n in E.by("xsave"):
            if len(E.by("xsave")) > 1:
                for x in n.facts:
                    for y in subterms(x):
                        if y.op == "fld" and y.args[0] is F.E_db and y.args[1] in HDR_ATTRS:
                            used.add(y.args[1])
        recorded = {}
        for slot in list(F.hdr) + list(F.tags):
            w = F.written(slot)
            if w is None:
                continue
            for g, v in flat_alts(w):
                for x in list(subterms(v)) + [y for z in g for y in subterms(z)]:
                    if x.op == "fld" and x.args[0] is F.E_db:
                        recorded.setdefault(x.args[1], set()).add(slot)
        if "cipher_" not in recorded and E.by("cipher"):
            used.add("cipher_")
        for a in sorted(used):
            if a == "cipher_" and a not in recorded:
                classes = {n.name for n in E.by("cipher")}
                rep.judge("used-recorded", len(classes) == 1, "%s:%s" % (F.name, a), at(E.by("cipher")[0]),
                          "the cipher in use is not recorded in the header", "%s %s (single cipher)" % (F.name, a))
                v = F.attr(a)
                got = {y.args[0] for _, y in flatten(F.I.I, v) if y.op == "int"} if v is not None else set()
                t = T("fld", F.E_db, a)
                facts = E.ret().facts | E.by("cipher")[0].facts
                if got:
                    other = [k for k in range(3) if k not in got and consistent(facts, {t: INT(k)})]
                    rep.judge("used-recorded", not other, "%s:%s:value" % (F.name, a), at(E.by("cipher")[0]),
                              "a database whose %s is %s is written, but the import always restores %s" %
                              (a, other, sorted(got)), "%s %s restored as %s" % (F.name, a, sorted(got)))
                continue
            rep.judge("used-recorded", a in recorded, "%s:%s" % (F.name, a), F.E.f["n"],
                      "%s influences the encryption but is not recorded in the header" % a,
                      "%s %s -> %s" % (F.name, a, sorted(recorded.get(a, ()), key=str)))
        for a in HDR_ATTRS:
            if a not in recorded:
                continue
            v = F.attr(a)
            slots = F.S.slots(v)
            if a == "cipher_" or (a == "compress_" and not slots):
                slots = set()
                gs = [x for g, y in flatten(F.I.I, v) for x in g]
                for x in gs:
                    slots |= F.S.slots(x)
                slots = {s for s in slots if s in recorded[a]} or slots
            unk = {s for s in slots if s[0] == "?"}
            key = "%s:%s" % (F.name, a)
            want = recorded[a]
            if unk:
                rep.und("attribute-slot", F.name, "%s comes from an unrecognised part of the file" % a)
            elif not slots and a == "cipher_":
                rep.ok("attribute-slot", F.name, "%s constant" % a)
            else:
                good = slots == want if len(want) == 1 else bool(slots) and slots <= want
                rep.judge("attribute-slot", good, key, at(F.node(next(iter(want)))),
                          "%s is stored in %s but read back from %s" % (a, sorted(want, key=str), sorted(slots, key=str)),
                          "%s %s %s" % (F.name, a, sorted(slots, key=str)))
                # arrays copied element by element are copied whole
                for g, y in flatten(F.I.I, v):
                    for l in [y] + [z for z in subterms(y) if z.op == "lphi"]:
                        cl = copy_loop(F.I, l) if l.op == "lphi" else None
                        if cl and cl[0] == "bad":
                            rep.bad("attribute-slot", key + ":copy", cl[2], "%s is not read completely: %s" % (a, cl[1]))
                if good and len(want) == 1 and a not in ("cipher_", "compress_"):
                    kept_always(rep, F, a, next(iter(want)), v, key)
                # the stored value is the attribute itself
                w = F.written(next(iter(want))) if len(want) == 1 else None
                if w is not None and good:
                    base = T("fld", F.E_db, a)
                    if a in ("cipher_", "compress_"):
                        continue
                    ws = strip_casts(w)
                    ok = ws is base
                    rep.judge("attribute-slot", True if ok else (False if closed(ws) or differ(ws, base) else None), key + ":value",
                              at(F.node(next(iter(want)))), "stores %s instead of %s" % (show(ws, 4), a))
        # fixed values
        env = {}
        memo = {}
        for slot, (v, n) in F.hdr.items():
            if v.op == "int":
                memo[slot] = v
        for n, w in [(n, None) for n in F.I.by("throw")]:
            pass
        for x in F.I.ret().facts:
            y, _ = F.subst(x)
            if y is FALSE:
                rep.bad("constant-accepted", "%s:%s" % (F.name, stable(show(x, 3))), F.name,
                        "the header written by the export is rejected by the import: %s" % show(x, 5))
            elif y is TRUE:
                rep.ok("constant-accepted", F.name, show(x, 3))
        for slot, l in F.tags.items():
            w = F.written(slot)
            for m in F.I.by("throw"):
                tg = F.S.tags.get(m.id)
                if tg is None or ("tag", tg[1]) != slot or w is None:
                    continue
                if w.op not in ("int", "arr"):
                    continue
                new = [x for x in m.facts if F.S.slots(x) == {slot}]
                if new and all(F.subst(x)[0] is TRUE for x in new):
                    rep.bad("constant-accepted", "%s:%s" % (F.name, slot[1]), at(m),
                            "the value the export writes in header record %d makes the import fail" % slot[1])
                else:
                    rep.ok("constant-accepted", at(m), "record %d" % slot[1])
            for size, pay, n in l:
                key = "%s:%s" % (F.name, slot[1])
                if not pay:
                    rep.judge("record-size", isint(size, 0) or None, key, at(n), "record without payload has size %s" %
                              show(size, 3), key)
                for p in pay:
                    a, b = strip_casts(size), strip_casts(p.args[2])
                    ok = a is b
                    d = differ(size, p.args[2], p.facts | n.facts)
                    if d is True:
                        ok = False
                    elif d is False:
                        ok = True
                    rep.judge("record-size", True if ok else (False if d or a.op == b.op == "int" or
                              (a.op == "size" and b.op == "size") else None), key, at(n),
                              "header record %s announces %s bytes but %s are written" % (slot[1], show(a, 4), show(b, 4)),
                              "record %s: %s" % (slot[1], show(a, 3)))
                for m in F.I.by("throw"):
                    tg = F.S.tags.get(m.id)
                    if tg is None or ("tag", tg[1]) != slot:
                        continue
                    if size.op != "int":
                        for q in record_sizes(F, slot):
                            fs = [x for x in m.facts if size_atoms(x)]
                            ev = [evalnum(x, {y: q for y in size_atoms(x)}) for x in fs]
                            if 1 in ev and 0 not in ev and not any(F.S.slots(x) == {slot} or x.op == "not" and x.args[0].op in (
                                    "good", "isopen") or x.op in ("fail", "bad", "eof") for x in m.facts if not size_atoms(x)):
                                rep.bad("size-accepted", key, at(m), "header record %s of %d bytes, which the export can write, "
                                        "is rejected by the import" % (slot[1], q))
                                break
                        continue
                    for x in m.facts:
                        b = [y for y in subterms(x) if y.op == "fld" and y.args[1] == "size" and rd_of(y)[0] is not None]
                        if not b:
                            continue
                        y = rebuild(x, lambda t: size if t in b else None)
                        if y is TRUE and x.op in ("not", "lt"):
                            rep.bad("size-accepted", key, at(m), "header record %s of size %s is rejected by the import" %
                                    (slot[1], show(size, 2)))
                        else:
                            rep.ok("size-accepted", at(m), key)


def size_atoms(x):
    return {y for y in subterms(x) if y.op == "fld" and y.args[1] == "size" and rd_of(y)[0] is not None}


def record_sizes(F, slot):
    """Sizes the export can give a header record."""
    out = []
    for size, pay, n in F.tags.get(slot, ()):
        s = strip_casts(size)
        if s.op == "int":
            out.append(s.args[0])
            continue
        at_ = {y for y in subterms(size) if y.op == "size"}
        if len(at_) != 1:
            continue
        y = at_.pop()
        for q in (0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 1000, 4096, 32768, 65535):
            if evalnum(size, {y: q}) == q and all(evalnum(f, {y: q}) != 0 for f in n.facts):
                out.append(q)
    return out


def kept_always(rep, F, a, slot, v, key):
    """Whatever value the record holds, the import stores that value."""
    eb = F.I.I.lphi.get(v)
    if eb is not None and eb[1] is not None:
        al = [(g, y) for g, y in flat_alts(eb[1]) if y is not v]
    else:
        al = list(flat_alts(v))

    def content(x):
        ys = {y for y in subterms(x) if y.op in ("rd", "fld") and rd_of(y)[0] is not None and F.S.slot(*rd_of(y)) == slot}
        return {y for y in ys if not any(y is not z and y in set(subterms(z)) for z in ys)}
    where = at(F.node(slot))
    # values altered
    for g, y in al:
        cs = content(y)
        if len(cs) != 1:
            continue
        x = next(iter(cs))
        if strip_casts(y) is x and y is x:
            continue
        for q in (0, 1, 2, 3, 100, 255, 256, 4999, 6000, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) + 5):
            if not F.I or q >= 1 << 8 * wide(x, slot, F):
                continue
            if any(evalnum(f, {x: q}) == 0 for f in g):
                continue
            r = evalnum(y, {x: q})
            if r is not None and r != q:
                rep.bad("attribute-slot", key + ":altered", where, "%s is %d in the header but %d after the import" % (a, q, r))
                return
    # values and sizes that are not stored
    xs = set().union(*[content(f) for g, y in al for f in g] or [set()])
    tests = [({x: q for x in xs}, "value %d" % q) for q in (0, 1, 2, 255, 256, 65536)] if xs else []
    ss = set().union(*[size_atoms(f) for g, y in al for f in g] or [set()])
    if ss and slot[0] == "tag":
        tests += [({x: q for x in ss}, "size %d" % q) for q in record_sizes(F, slot)]
    for env, what in tests:
        live = [(g, y) for g, y in al if not any(evalnum(f, env) == 0 for f in g)]
        refused = any(F.S.tags.get(m.id) is not None and ("tag", F.S.tags[m.id][1]) == slot and
                      any(evalnum(f, env) == 1 for f in m.facts) and all(evalnum(f, env) in (1, None) for f in m.facts)
                      for m in F.I.by("throw"))
        if refused:
            continue
        if live and any(content(y) or not is_constant(y) for g, y in live):
            continue
        if not live:
            rep.bad("attribute-slot", key + ":dropped", where, "%s is not taken from a header record of %s" % (a, what))
            return
        rep.bad("attribute-slot", key + ":dropped", where, "%s becomes %s when the header record has %s" % (
            a, show(live[-1][1], 3), what))
        return
    rep.ok("attribute-slot", where, "%s %s kept for every content" % (F.name, a))


def is_constant(y):
    return y.op in ("int", "empty", "zeros", "null") or y.op in ("resized", "cast") and all(
        is_constant(z) for z in y.args if isinstance(z, Term))


def wide(x, slot, F):
    """Bytes of a numeric read."""
    b = rd_of(x)[0]
    if x.op == "rd" and x.args[2].op == "int":
        return min(x.args[2].args[0], 8)
    return 4


# ---------------------------------------------------------------------------
def key_recipe(c, rep):
    """P04"""
    rep.rule("same-key", "with the header fields replaced by what the export stored in them, the import computes the same "
             "content key as the export, for every cipher")
    rep.rule("same-iv", "the import uses the initialisation vector the export used")
    rep.rule("same-cipher", "the cipher recorded by the export selects the same cipher in the import")
    rep.rule("same-inner-stream", "both sides derive the keystream for protected values identically")
    rep.rule("start-bytes", "the content starts with the bytes recorded in the header")
    rep.rule("compression", "the import decompresses exactly when the export recorded that it compressed")
    rep.rule("key-depends", "the content key depends on the caller's key, the master seed, the transform seed and the "
             "number of rounds")
    for i in (0, 1):
        F = fmt(c, i)
        E, I = F.E, F.I
        ea, ia = cipher_alts(E), cipher_alts(I)
        if not ea or not ia:
            rep.bad("same-key", F.name + ":none", F.name, "no bulk cipher found (export %d, import %d)" % (len(ea), len(ia)))
            continue
        for g, cls, args, n in ea:
            if cls is None:
                rep.und("same-key", at(n), "cipher of the export is not known")
                continue
            # select the import's alternatives for what this alternative records
            cand = []
            for g2, cls2, args2, n2 in ia:
                if cls2 is None:
                    rep.und("same-key", at(n2), "cipher of the import is not known")
                    continue
                dead = False
                for x in g2:
                    ss = F.S.slots(x)
                    if not ss or any(s[0] == "?" for s in ss):
                        continue
                    y, unk = F.subst(x, g)
                    # the value written under this alternative's guard
                    vals = [v for gg, v in flat_alts(y) if compatible(gg, g)]
                    if vals and all(v is FALSE for v in vals):
                        dead = True
                if not dead:
                    cand.append((cls2, args2, n2))
            key = "%s:%s" % (F.name, cls)
            if not cand:
                rep.bad("same-cipher", key, at(n), "no cipher of the import is selected by what the export records for %s" %
                        cls)
                continue
            classes = {x[0] for x in cand}
            exact = classes == {cls}
            if exact:
                rep.ok("same-cipher", at(n), key)
            elif cls not in classes:
                if feasible_export(E, n, g):
                    rep.bad("same-cipher", key, at(n), "content encrypted with %s is decrypted with %s" %
                            (cls, ", ".join(sorted(classes))))
            else:
                rep.und("same-cipher", at(n), "import may choose %s for %s" % (sorted(classes), cls))
            k = canon_sizes(args[0], g)
            for x, what in ((T("par", "key"), "the caller's key"), (T("fld", F.E_db, "master_seed_"), "the master seed"),
                            (T("fld", F.E_db, "transform_seed_"), "the transform seed"),
                            (T("fld", F.E_db, "transform_rounds_"), "the number of rounds")):
                rep.judge("key-depends", x in set(subterms(k)), key + ":" + what, at(n),
                          "the content key does not depend on " + what, "%s %s" % (key, what))
            for cls2, args2, n2 in cand:
                if cls2 != cls:
                    continue
                for j, rule in ((0, "same-key"), (1, "same-iv")):
                    a = canon_sizes(args[j], g) if len(args) > j else None
                    if len(args2) <= j or a is None:
                        rep.judge(rule, (len(args2) > j) == (len(args) > j), key, at(n), "only one side passes a vector")
                        continue
                    b0, unk = F.subst(args2[j])
                    b = canon_sizes(b0, g)
                    ok = a is b
                    d = differ(args[j], b0, E.ret().facts | n.facts | g)
                    if d is not None:
                        ok = not d
                    what = "%s: %s" % (key, show(a, 5))
                    # two alternatives that only differ by guards
                    rep.judge(rule, True if ok else (False if d or closed(a) and (closed(b) or unk) and not opaque(unk) else None),
                              key, at(n2), "export uses %s, import uses %s" % (show(a, 6), show(b, 6)), what)
        # keystream
        eo, io = E.by("obfinit"), I.by("obfinit")
        if bool(eo) != bool(io):
            rep.bad("same-inner-stream", F.name, F.name, "only one direction sets up the protected-value keystream")
        for x in eo:
            for y in io:
                a = tuple(canon_sizes(v, x.facts) for v in x.args)
                bs = [F.subst(v) for v in y.args]
                b = tuple(canon_sizes(v, x.facts) for v, _ in bs)
                a, b = tuple(map(whole_hash, a)), tuple(map(whole_hash, b))
                ok = a == b
                unk = [u for _, us in bs for u in us]
                off = None
                if not ok and not unk and len(a) == len(b) and all(closed(w) for p in a for _, w in flat_alts(p)) and \
                        all(closed(q) and q.op != "phi" for q in b):
                    off = [w for p, q in zip(a, b) for g, w in flat_alts(p)
                           if w is not q and consistent(E.ret().facts | x.facts, {z: TRUE for z in g})]
                rep.judge("same-inner-stream", True if ok else (False if off else False if all(map(closed, a)) and
                          (all(map(closed, b)) or unk) and not opaque(unk) else None), F.name, at(y),
                          "export: %s, import: %s" % ([show(v, 5) for v in a], [show(v, 5) for v in b]),
                          F.name + " " + show(a[0], 4))
        # start bytes
        for n in E.by("cbc"):
            sid = n.args[0]
            for x in I.ret().facts:
                if x.op != "eq":
                    continue
                for p, q in (x.args, x.args[::-1]):
                    sp = F.S.slots(p)
                    base, path = rd_of(q)
                    if len(sp) == 1 and next(iter(sp))[0] == "tag" and base is not None and base.op == "rd":
                        dst = [m.args[1] for m in I.by("cbc")]
                        if base.args[1] not in dst:
                            continue
                        w = F.written(next(iter(sp)))
                        first = first_writes(E, sid)
                        ok = w is not None and first and all(m.args[1] is w for m in first)
                        rep.judge("start-bytes", ok if first else None, F.name, at(first[0]) if first else at(n),
                                  "content starts with %s but the header records %s" %
                                  ([show(m.args[1], 3) for m in first], show(w, 3) if w else None), F.name + " " + show(w, 3)
                                  if w is not None else None)
        # compression
        comp_rule(F, rep)
    key_material(c, rep)


def opaque(unk):
    return any(u.op not in ("rd", "rest", "lphi", "fld") for u in unk)


def whole_hash(t):
    """shaU over a full fixed-size value: the length argument carries no information of its own."""
    return t


def feasible_export(E, n, g):
    return True


def compatible(g1, g2):
    from .interp import guard_conflict
    return not guard_conflict(g1, g2) and not guard_conflict(g2, g1)


def first_writes(r, sid):
    ws = {n.id for n in r.nodes.values() if n.kind in ("swrite", "sput", "xsave") and n.args[0] is sid}
    seen, todo, out = set(), [r.start().id], set()
    while todo:
        x = todo.pop()
        for y in r.succ[x]:
            if y in seen:
                continue
            seen.add(y)
            if y in ws:
                out.add(y)
            else:
                # a filtering stream above it writes later
                todo.append(y)
    up = [n for n in r.nodes.values() if n.kind in ("swrite", "sput", "xsave") and n.args[0].op == "sid" and
          n.args[0].args[2].op == "via" and sid in set(subterms(n.args[0].args[2]))]
    out = [r.nodes[x] for x in out]
    return [n for n in out] + [u for u in up if any(u.id in r.back(o.id) and o.id not in r.back(u.id) for o in out)]


def layers(sid):
    """Names of the filters a stream goes through."""
    out = []
    while sid.op == "sid" and sid.args[2].op == "via":
        b = sid.args[2].args[0]
        if b.op != "sbuf":
            return None
        out.append(b.args[0].split("::")[-1])
        nx = [x for x in b.args[1] if x.op == "sid"]
        if not nx:
            break
        sid = nx[0]
    return out


def comp_rule(F, rep):
    E, I = F.E, F.I
    xs, xl = E.by("xsave"), I.by("xload")
    if not xs and not xl:
        return
    rec = [s for s in list(F.tags) + list(F.hdr) if F.written(s) is not None and
           any(x.op == "fld" and x.args[1] == "compress_" for x in subterms(F.written(s)))]
    if not rec:
        rep.bad("compression", F.name + ":unrecorded", at(xs[0]), "compression is not recorded in the header")
        return
    comp = T("fld", F.E_db, "compress_")
    for val in (0, 1):
        env = {comp: INT(val), T("truthy", comp): INT(val)}
        w = rebuild(F.written(rec[0]), lambda t: env.get(t))
        el, il = set(), set()
        for n in xs:
            if consistent(n.facts, env):
                el.add(tuple(layers(n.args[0]) or ("?",)))
        for n in xl:
            live = True
            for x in n.facts:
                def f(t):
                    base, path = rd_of(t)
                    if base is not None and F.S.slot(base, path) == rec[0]:
                        return w
                    return None
                y = x
                # alternatives of the recorded value
                ss = F.S.slots(x)
                if rec[0] not in ss | control(F, x):
                    continue
                res = set()
                for gs, z in expand(F, x, rec[0]):
                    if not any(rebuild(q, f) is FALSE for q in gs if rec[0] in F.S.slots(q)):
                        res.add(rebuild(z, f))
                if res and all(z is FALSE for z in res):
                    live = False
            if live:
                il.add(tuple(layers(n.args[0]) or ("?",)))
        a = {tuple(s.replace("ostreambuf", "buf") for s in l) for l in el}
        b = {tuple(s.replace("istreambuf", "buf") for s in l) for l in il}
        key = "%s:%s" % (F.name, "on" if val else "off")
        if "?" in str(a) + str(b):
            rep.und("compression", key, "unknown filtering stream")
            continue
        rep.judge("compression", a == b, key, at(xs[0]), "compress=%d: written through %s, read through %s" %
                  (val, sorted(a), sorted(b)), "compress=%d %s" % (val, sorted(a)))


def control(F, x):
    """Header slots that decide which of several fixed values a loop-carried variable in x has."""
    out = set()
    for y in subterms(x):
        if y.op == "lphi":
            for g, v in flatten(F.I.I, y):
                if v.op == "int":
                    for q in g:
                        out |= F.S.slots(q)
    return out


def expand(F, x, slot):
    """The fact with loop-carried values replaced by the alternatives that come from the slot: (guards, fact)."""
    out = [(frozenset(), x)]
    lp = [y for y in subterms(x) if y.op == "lphi" and slot in F.S.slots(y) | control(F, y)]
    for l in lp[:2]:
        nx = []
        for gs, z in out:
            for g, v in flatten(F.I.I, l):
                if slot in F.S.slots(v):
                    nx.append((gs, rebuild(z, lambda t, l=l, v=v: v if t is l else None)))
                elif any(slot in F.S.slots(q) for q in g):
                    nx.append((gs | g, rebuild(z, lambda t, l=l, v=v: v if t is l else None)))
        out = nx or out
    return [(g, truthy(z) if z.op not in ("not",) else z) for g, z in out]


def key_material(c, rep):
    """The composite key and its transformation."""
    rep.rule("composite", "the composite key is the digest of the components that are set, in order; a single component "
             "is used as is only when the format asks for it")
    rep.rule("transform", "the transformed key is the digest of the composite key after exactly the requested number of "
             "encryption rounds under the transform seed")
    rep.rule("password-whole", "the password component is the digest of the complete password")
    r = c.root("keepass::Key::Transform")
    v = r.v
    ok, why = transform_shape(r, v)
    rep.judge("transform", ok, "shape", "key.cc", why, "Transform")
    # composite key under each assignment
    fs = c.find("keepass::Key::CompositeKey::Resolve")
    if not fs:
        rep.und("composite", "key", "composite key resolution not found")
    else:
        r = c.root("keepass::Key::CompositeKey::Resolve")
        selft = [x for x in subterms(r.v) if x.op == "self"]
        if selft:
            s = selft[0]
            pw, kf = T("fld", s, "password_key_"), T("fld", s, "keyfile_key_")
            sha0 = T("sha0")
            res = [x for x in subterms(r.v) if x.op == "par"]
            gs = {x for g, _ in all_guards(r.v) for x in g}
            par = [y for x in gs for y in subterms(x) if y.op == "par"]
            for mode in (0, 1):
                for hp, hk, same in ((0, 0, 1), (0, 1, 0), (1, 0, 0), (1, 1, 0), (1, 1, 1)):
                    for _ in (0,):
                        def env(x):
                            if x.op == "eq":
                                a, b = x.args
                                if {a, b} == {pw, kf}:
                                    return INT(same)
                                for p, q in ((a, b), (b, a)):
                                    if p is pw and q.op in ("zeros", "arr", "glob", "struct"):
                                        return INT(not hp)
                                    if p is kf and q.op in ("zeros", "arr", "glob", "struct"):
                                        return INT(not hk)
                                    if p.op == "par" and q.op == "int":
                                        return INT(q.args[0] == mode)
                            return None
                        got = evalphi(r.v, env)
                        h = sha0
                        if hp:
                            h = T("shaU", h, pw, INT(32))
                        if hk:
                            h = T("shaU", h, kf, INT(32))
                        want = T("sha", h)
                        if mode == 1 and not (hp and hk):
                            want = pw if hp else kf
                        key = "mode%d-pw%d-kf%d%s" % (mode, hp, hk, "-same" if hp and same else "")
                        if not hp and not hk and mode == 1:
                            # both all-zero components denote the same empty key
                            wants = (want, pw)
                        else:
                            wants = (want,)
                        known = got is not None and all(x.op in ("sha", "shaU", "sha0", "fld", "self", "int") for x in
                                                        subterms(got))
                        rep.judge("composite", True if got in wants else (False if known else None), key, "key.cc",
                                  "composite key is %s, expected %s" % (show(got, 6) if got is not None else "unknown",
                                                                       show(want, 6)), key)
    for q in ("keepass::Key::SetPassword",):
        if not c.has(q):
            continue
        r = c.root(q)
        st = [s for s in r.I.stores.values() if s["lv"].args[0].op in ("self", "obj")]
        p = T("par", "password")
        want = T("sha", T("shaU", T("sha0"), p, mk_size(p)))
        for s in st:
            v = strip_casts(s["v"])
            ok = v is want
            rep.judge("password-whole", True if ok else (False if all(x.op in ("sha", "shaU", "sha0", "par", "size", "int",
                      "bin", "strlen", "ctext") for x in subterms(v)) else None), "digest", "%s:%s" % tuple(s["loc"]),
                      "password component is %s" % show(v, 5), show(v, 5))
        if not st:
            rep.bad("password-whole", "none", "key.cc", "the password is not stored")


def all_guards(v, seen=None):
    out = []
    for x in subterms(v):
        if x.op == "phi":
            out += [(g, y) for g, y in x.args[0]]
    return out


def evalphi(t, env, depth=0):
    """Select phi alternatives whose guards hold under env (env maps an atomic fact to INT or None)."""
    if depth > 30:
        return None
    if t.op == "phi":
        live = []
        for g, v in t.args[0]:
            ok = True
            for x in g:
                y = rebuild(x, env)
                if y is FALSE:
                    ok = False
                    break
                if y is not TRUE:
                    ok = ok and None
            if ok is not False:
                live.append(evalphi(v, env, depth + 1))
        s = set(live)
        return s.pop() if len(s) == 1 else None
    args = []
    for a in t.args:
        if isinstance(a, Term):
            a = evalphi(a, env, depth + 1)
            if a is None:
                return None
        args.append(a)
    return T(t.op, *args)


def transform_shape(r, v):
    if v.op != "sha" or v.args[0].op != "shaU":
        return None, "unrecognised shape of the result: %s" % show(v, 4)
    u = v.args[0]
    if u.args[0].op != "sha0":
        return None, "more than one value is hashed: %s" % show(v, 4)
    if not isint(u.args[2], 32):
        return (False if u.args[2].op == "int" else None), "only %s bytes of the transformed key are hashed" % show(u.args[2], 3)
    L = u.args[1]
    if L.op != "lphi":
        return (None if any(x.op == "lphi" for x in subterms(L)) else False), "the key is not transformed in a loop"
    e, b = r.I.lphi[L]
    if b.op == "ecb" and b.args[0].op in ("phi", "sha", "fld", "self", "par"):
        for g, x in flat_alts(b.args[0]):
            if x is not L and x is not e and all(y.op in ("sha", "shaU", "sha0", "fld", "self", "par", "int", "phi", "eq",
                                                          "not", "zeros", "arr") for y in subterms(x)):
                return False, "a round encrypts %s instead of the result of the round before" % show(x, 4)
    if b.op != "ecb" or b.args[0] is not L:
        return None, "unrecognised round: %s" % show(b, 4)
    cip = b.args[1]
    if cip.op != "cipher" or cip.args[1][0] is not T("par", "seed"):
        return None, "rounds are not keyed with the transform seed: %s" % show(cip, 4)
    # trip count
    rounds = T("par", "rounds")
    verdict, why = None, "number of rounds not recognised: %s" % [show(x, 4) for x in r.ret().facts]
    for x in r.ret().facts:
        neg = x.op == "not"
        y = x.args[0] if neg else x
        if y.op not in ("lt", "eq", "truthy"):
            continue
        for k in (0, 1):
            if k >= len(y.args):
                continue
            cnt, wide = peel(y.args[k])
            if cnt.op != "lphi" or cnt not in r.I.lphi:
                continue
            init, back = r.I.lphi[cnt]
            if not isinstance(back, Term) or not isinstance(init, Term):
                continue
            back, bw = peel(back)
            if back.op != "bin" or back.args[1] is not cnt or not isint(back.args[2]):
                continue
            step = back.args[2].args[0] if back.args[0] == "+" else -back.args[2].args[0] if back.args[0] == "-" else None
            if step is not None and step > 2 ** 31:
                step = -1 if step in (2 ** 32 - 1, 2 ** 64 - 1) else step
            o = y.args[1 - k] if len(y.args) == 2 else INT(0)
            lim, lw = peel(o)
            i0, iw = peel(init)
            if lim is rounds or any(z is rounds for z in subterms(lim)):
                if not (wide and bw and lw) or narrow_counter(r, back):
                    return False, "the round counter cannot hold every number of rounds"
                if lim is not rounds:
                    return False, "%s rounds are performed" % show(lim, 3)
                if step != 1 or not isint(i0):
                    return False, "the round counter steps by %s from %s" % (step, show(init, 2))
                i0 = i0.args[0]
                if y.op == "eq" and not neg or y.op == "lt" and neg and k == 0:
                    good = i0 == 0
                elif y.op == "lt" and not neg and k == 1:
                    good = i0 == 1
                else:
                    continue
                return good, "the round counter starts at %d" % i0
            if any(z is rounds for z in subterms(i0)):
                if not (wide and bw and iw) or narrow_counter(r, back):
                    return False, "the round counter cannot hold every number of rounds"
                if i0 is not rounds:
                    return False, "%s rounds are performed" % show(i0, 3)
                if step != -1 or not isint(lim):
                    continue
                if lim.args[0] == 0 and (y.op == "eq" and not neg or y.op == "truthy" and neg or
                                         y.op == "lt" and neg and k == 1):
                    return True, ""
                return False, "the round counter ends at %s" % show(lim, 2)
    return verdict, why


def peel(t):
    """(t without conversions, True when none of them loses values)."""
    from .rules_xml import width, holds
    ok = True
    while t.op == "cast":
        if holds(width(t.args[0]), width(t.args[2])) is False:
            ok = False
        t = t.args[1]
    return t, ok


def narrow_counter(r, back):
    from .rules_xml import width
    ty = back.args[-1]
    w = width(ty) if ty is not None and not isinstance(ty, Term) else None
    want = [width(p["t"]) for p in r.f["ps"] if p["n"] == "rounds"]
    return bool(w and want and want[0] and w[0] < want[0][0])


# ---------------------------------------------------------------------------
def import_verified(c, rep):
    """P05"""
    rep.rule("signature", "an import returns only when every fixed number of the format signature matched")
    rep.rule("version", "an import returns only when the stored format version passed a test")
    rep.rule("content-hash", "KDB: a database is returned only when the digest of the complete decrypted content equals "
             "the digest in the header")
    rep.rule("start-bytes", "KDBX: a database is returned only when the decrypted content starts with the recorded bytes")
    rep.rule("header-hash", "KDBX: a database is returned only when the digest of the complete header equals the digest "
             "in the content")
    rep.rule("hash-covers", "the digest an export stores covers exactly the bytes it writes")
    rep.rule("document-parsed", "a database is returned only when its document was parsed without error")
    rep.rule("read-checked", "no data of a failed or short read reaches the returned database")
    rep.rule("wrong-key", "content that fails authentication is reported as a password error")
    rep.rule("not-swallowed", "no exception raised inside an import ends in a returned database")
    rep.rule("digest-complete", "a digest covers all bytes of the data handed to it")
    rep.rule("whole-digest", "stored and computed digests are compared in full")
    rep.rule("recognised", "a header field for which an export only writes fixed values is accepted with these values only")
    for i in (0, 1):
        F = fmt(c, i)
        I, E = F.I, F.E
        ret = I.ret()
        if ret is None:
            rep.bad("signature", F.name + ":never-returns", F.name, "no successful path")
            continue
        not_swallowed(I, ret, rep, "not-swallowed", F.name)
        # fixed numbers
        for slot, (v, n) in F.hdr.items():
            if v.op != "int":
                continue
            fs = [x for x in ret.facts if slot in F.S.slots(x)]
            big = v.args[0] > 0x10000000
            rule = "signature" if big else "version"
            if big:
                eq = [x for x in fs if x.op == "eq"]
                rep.judge(rule, bool(eq), "%s:%s" % (F.name, slot[1]), at(ret),
                          "a file with a different %s is accepted" % slot[1], "%s %s" % (F.name, slot[1]))
            else:
                rep.judge(rule, bool(fs), "%s:%s" % (F.name, slot[1]), at(ret), "%s is not checked" % slot[1],
                          "%s %s" % (F.name, slot[1]))
                if fs:
                    newer_refused(rep, F, slot, v.args[0], fs, ret)
        for slot in list(F.hdr) + list(F.tags):
            recognised(F, slot, ret, rep)
        cb = I.by("cbc")
        plain = [n.args[1] for n in cb]
        enc = [n.args[0] for n in E.by("cbc")]
        digests_complete(rep, F)
        # equality facts with a digest
        kinds = {"content-hash": [], "header-hash": [], "start-bytes": []}
        for x in ret.facts:
            for z in ([y for _, y in alts(x)] if x.op == "phi" else [x]):
                for p, q in ((z.args[0], z.args[1]), (z.args[1], z.args[0])) if z.op in ("eq", "equal") else ():
                    if not isinstance(p, Term) or not isinstance(q, Term):
                        continue
                    dig = find_digest(I, p)
                    if dig is not None:
                        kinds.setdefault(classify_digest(F, dig, plain), []).append((x, z, dig, q))
                    b, _ = rd_of(q)
                    sp = F.S.slots(p)
                    if b is not None and b.op == "rd" and b.args[1] in plain and len(sp) == 1 and \
                            next(iter(sp))[0] == "tag":
                        kinds["start-bytes"].append((x, z, None, p))
        for z in {z for l in kinds.values() for _, z, _, _ in l if z.op == "equal"}:
            p = z.args[0]
            if p.op == "slice" and len(p.args) == 3 and all(isinstance(y, Term) and y.op == "int" for y in p.args[1:]):
                lo, hi = p.args[1].args[0], p.args[2].args[0]
                rep.judge("whole-digest", lo == 0 and hi >= 32, "%s:%s" % (F.name, stable(show(p.args[0], 2))), at(ret),
                          "only bytes %d to %d are compared" % (lo, hi), show(z, 3))
        unknown = kinds.get(None, [])
        has_hdr_digest = [v for s, (v, n) in F.hdr.items() if v.op == "sha"]
        if has_hdr_digest:
            judge_digest(rep, F, "content-hash", kinds, unknown, at(ret))
            v = has_hdr_digest[0]
            w = whole_stream(E, v, enc)
            rep.judge("hash-covers", w, F.name + ":content", E.f["n"], "the stored digest does not cover the content that "
                      "is encrypted: %s" % show(v, 5), F.name + " content digest")
        if F.tags:
            judge_digest(rep, F, "header-hash", kinds, unknown, at(ret))
            for x, z, dig, q in kinds["header-hash"]:
                header_covered(rep, F, I, dig, ret)
            sb = kinds["start-bytes"]
            rep.judge("start-bytes", bool(sb), F.name, at(ret), "the first bytes of the content are not compared",
                      F.name)
            for x, z, dig, p in sb:
                b = [y for y in z.args if rd_of(y)[0] is not None and rd_of(y)[0].op == "rd" and
                     rd_of(y)[0].args[1] in plain]
                if b:
                    n = rd_of(b[0])[0].args[2]
                    l = F.tags.get(next(iter(F.S.slots(p))))
                    if l and n.op == "int":
                        rep.judge("start-bytes", l[0][0] is n, F.name + ":size", at(ret),
                                  "%s of %s start bytes are compared" % (show(n), show(l[0][0])), "size")
            # stored header digest
            hs = [n for n in E.by("xset") if any(y.op == "sha" for y in subterms(n.args[1]))
                  and any(y.op in ("sstr", "rest") and F.hsid in y.args for y in subterms(n.args[1]))]
            if not hs:
                rep.bad("hash-covers", F.name + ":header", E.f["n"], "no digest of the header is stored")
            for n in hs:
                g = [y for y in subterms(n.args[1]) if y.op in ("sstr", "rest") and F.hsid in y.args][0]
                ver = ev_of(g)
                if ver is None:
                    ver = next((y for a in g.args if isinstance(a, Term) for y in subterms(a) if y.op == "ev" and a is not F.hsid), None)
                ok = None
                if ver is not None and ver.op == "ev":
                    late = [w for w in E.nodes.values() if w.kind in ("swrite", "sput") and w.args[0] is F.hsid and
                            w.id in E.reach(ver.args[0])]
                    ok = not late
                rep.judge("hash-covers", ok, F.name + ":header", at(n), "header bytes are written after the digest was taken",
                          F.name + " header digest")
                # copied to the destination in full
        # documents
        for n in I.by("xload"):
            ev = T("ev", n.id)
            thr = [t for t in I.by("throw") if t.id in I.reach(n.id) and
                   any(x.op == "not" and ev in set(subterms(x)) and x.args[0].op in ("truthy", "xres") or
                       (x.op == "not" and any(y.op == "xres" and y.args[0] is ev for y in subterms(x))) for x in t.facts)]
            rep.judge("document-parsed", bool(thr), "%s:%s" % (F.name, "/".join(layers(n.args[0]) or ("?",))), at(n),
                      "a parse error of the document is ignored", at(n))
        # reads
        for n in I.by("sread") + I.by("sget") + I.by("srest"):
            sid = n.args[0]
            if sid.op != "sid":
                rep.und("read-checked", at(n), "unknown stream")
                continue
            if n.kind == "srest":
                continue
            ev = T("ev", n.id)
            after = I.reach(n.id)
            rds = [t for t in after if I.nodes[t].kind in ("sread", "sget") and I.nodes[t].args[0] is sid]
            thr = [t for t in I.by("throw") if t.id in after and (ver_fact(t.facts, ev, False) or bad_state(I, t.facts, ev, n))]
            if thr:
                rep.ok("read-checked", at(n), "%s %s" % (n.kind, at(n)))
                continue
            if verified_read(I, n, ret):
                rep.ok("read-checked", at(n), "verified by digest")
                continue
            if loops_until(I, n):
                rep.ok("read-checked", at(n), "read in a loop that ends at the end of the stream")
                continue
            if sid.args[2].op == "via" or sid.args[1] not in ("ifstream", "stringstream", "istringstream"):
                rep.und("read-checked", at(n), "state not checked")
                continue
            rep.bad("read-checked", "%s:%s@%s" % (F.name, describe(sid), n.stack[-1][0].split("::")[-1] if n.stack else "?"),
                    at(n), "the result of this read is used without checking that it succeeded")
        # wrong key
        for t in I.by("throw"):
            if t.extra.get("implicit") or escapes(I, t) is False:
                continue
            for x in [d for y in t.facts for d in disjuncts(y)]:
                if x.op != "not":
                    continue
                z = x.args[0]
                if z.op != "eq":
                    continue
                if any(z is k[1] for kk in ("content-hash", "start-bytes") for k in kinds.get(kk, ())) and \
                        z not in [y for p in t.preds for y in I.nodes[p].facts if p in I.nodes]:
                    rep.judge("wrong-key", "keepass::PasswordError" in c.P.bases_of(t.name), "%s:%s" % (F.name, short(t.name)),
                              at(t), "failed authentication is reported as %s" % short(t.name), at(t))


def recognised(F, slot, ret, rep):
    """Every value of a header field that an export never writes ends in an exception."""
    w = F.written(slot)
    if w is None:
        return
    W = set()
    arrays = False
    for _, v in flat_alts(w):
        v = strip_casts(v)
        if v.op == "int":
            W.add(v.args[0])
        elif v.op in ("truthy", "not", "eq", "lt"):
            W |= {0, 1}
        elif v.op == "arr":
            arrays = True
        else:
            return
    if any(v > 0xffff for v in W):
        return
    I = F.I

    def vals(t):
        return {y for y in subterms(t) if y.op in ("rd", "fld") and rd_of(y)[0] is not None and
                F.S.slot(*rd_of(y)) == slot}
    throws = []
    masked = False
    for t in I.by("throw"):
        fs = [x for x in t.facts if vals(x)]
        if fs and escapes(I, t):
            own = set().union(*[vals(x) for x in fs])
            own = {y for y in own if not any(y is not z and y in set(subterms(z)) for z in own)}
            if len(own) == 1:
                y = own.pop()
                n = I.nodes.get(ev_of(rd_of(y)[0]).args[0])
                ev = T("ev", n.id) if n else None
                rest = {x for x in t.facts - ret.facts - (n.facts if n else frozenset())
                        if not ver_fact([x], ev, True)}
                throws.append((t, y, rest))
            masked = masked or any(z.op == "bin" and z.args[0] == "&" and y in set(subterms(z))
                                   for x in fs for z in subterms(x) for y in vals(x))
    key = "%s:%s" % (F.name, slot[1])
    if slot[0] == "hdr" and slot[1] == "version":
        return
    if arrays:
        cands = [None]
    else:
        cands = [v for v in list(range(17)) + [32, 64, 128, 255, 256, 65535, 1 << 31, (1 << 32) - 1] if v not in W]
        if masked:
            u = 0
            for v in W:
                u |= v
            cands = [v for v in cands if not v & u]
    bad = []
    for v in cands:
        hit = False
        for t, y, rest in throws:
            good = True
            for x in rest:
                if v is None:
                    z = rebuild(x, lambda q: FALSE if q.op == "eq" and y in q.args else None)
                    r = 1 if z is TRUE else None
                else:
                    r = evalnum(x, {y: v})
                if not r:
                    good = False
                    break
            if good:
                hit = True
                break
        if not hit:
            bad.append("an unknown value" if v is None else str(v))
    n = F.node(slot)
    rep.judge("recognised", not bad, key, at(ret), "%s is accepted in this header field, which an export never writes"
              % ", ".join(bad[:4]), "%s %s" % (F.name, slot[1]))


def newer_refused(rep, F, slot, written, fs, ret):
    """No file of a later major version than the one exported passes the tests of the successful path."""
    def atoms(t):
        own = {y for y in subterms(t) if y.op in ("rd", "fld") and rd_of(y)[0] is not None and
               F.S.slot(*rd_of(y)) == slot}
        return {y for y in own if not any(y is not z and y in set(subterms(z)) for z in own)}
    worst = True
    for v in (written + 0x10000, written + 0x20000, written + 0x1000000, 0x7fff0000):
        ev = [evalnum(x, {y: v for y in atoms(x)}) for x in fs]
        if 0 in ev:
            continue
        if None in ev:
            worst = None
            continue
        rep.bad("version", "%s:%s:newer" % (F.name, slot[1]), at(ret),
                "a file of the later format version 0x%08x passes the version test" % v)
        return
    rep.judge("version", worst, "%s:%s:newer" % (F.name, slot[1]), at(ret), "",
              "%s: later versions refused" % F.name)


def digests_complete(rep, F):
    """Everything handed to a digest takes part in it."""
    for r, what in ((F.I, "import"), (F.E, "export")):
        seen = {}
        for n in r.nodes.values():
            for t in list(n.args) + list(n.facts):
                if isinstance(t, Term):
                    for y in subterms(t):
                        if y.op == "shaU":
                            seen.setdefault(y, n)
        for u, n in sorted(seen.items(), key=lambda x: x[0].id):
            v, k = u.args[1], u.args[2]
            if not isinstance(v, Term) or not isinstance(k, Term):
                continue
            sz = mk_size(v)
            key = "%s:%s:%s" % (F.name, what, stable(show(v, 2)))
            if strip_casts(k) is strip_casts(sz):
                rep.ok("digest-complete", at(n), show(v, 2))
            elif sz.op == "int" and strip_casts(k).op == "int":
                rep.judge("digest-complete", strip_casts(k).args[0] >= sz.args[0], key, at(n),
                          "only %s of %s bytes of %s are hashed" % (show(k, 2), show(sz, 2), show(v, 3)), show(v, 2))
            elif any(y.op == "ctext" for y in list(subterms(k)) + list(subterms(v))):
                rep.bad("digest-complete", key, at(n), "hashing of %s stops at its first zero byte" % show(v, 3))
            elif sz.op == "size" and sz in set(subterms(k)):
                for q in (0, 1, 15, 31, 33, 255, 257, 1000, 70000):
                    g = evalnum(k, {sz: q})
                    if g is not None and g < q and all(evalnum(f, {sz: q}) != 0 for f in n.facts):
                        rep.bad("digest-complete", key, at(n), "only %d of %d bytes of %s are hashed" % (g, q, show(v, 3)))
                        break
                else:
                    rep.ok("digest-complete", at(n), show(v, 2))


def bad_state(I, facts, ev, n):
    """A fact that says the stream failed, possibly through a later version of the stream state."""
    for x in facts:
        z = x.args[0] if x.op == "not" else x
        if (x.op == "not" and z.op == "good") or z.op in ("fail", "bad", "eof"):
            v = z.args[0]
            if v is ev:
                return True
            if v.op in ("lphi", "phi"):
                if any(l is ev for _, l in flatten(I.I, v)):
                    return True
    return False


def verified_read(I, n, ret):
    ev = T("ev", n.id)
    for x in ret.facts:
        for z in ([y for _, y in alts(x)] if x.op == "phi" else [x]):
            if z.op == "eq" and any(y.op == "sha" for y in subterms(z)) and \
                    any(y.op == "rd" and y.args[0] is ev for y in subterms(z)):
                return True
    return False


def loops_until(I, n):
    """The read is repeated until the stream state is no longer good."""
    if not n.loops:
        return False
    ev = T("ev", n.id)
    for m in I.nodes.values():
        if m.kind == "loopend" or (m.kind in ("return", "throw", "sread", "sclear", "sseek") and m.id in I.reach(n.id)):
            for x in m.facts:
                if x.op == "not" and x.args[0].op == "good":
                    v = x.args[0].args[0]
                    if v.op == "lphi" and any(l is ev for _, l in flatten(I.I, v)):
                        return True
    return False


def header_covered(rep, F, I, dig, ret):
    """The digest compared is over everything from the start of the file to the end of the header."""
    for v, n, u in hashed_data(I, dig):
        b = rd_of(v)[0] if v is not None else None
        if b is None or b.op != "rd" or b.args[0].op != "ev":
            rep.und("header-hash", at(ret), "data hashed not recognised")
            continue
        rd = I.nodes.get(b.args[0].args[0])
        k = strip_casts(b.args[2])
        ends = {y for y in subterms(k) if y.op == "tell"}
        ok = None
        if k.op == "tell":
            ok = True
        elif k.op == "int":
            ok = False
        elif ends:
            ev = [(t, evalnum(k, {y: t for y in ends})) for t in (77, 300, 1500, 70000, 1 << 33)]
            if all(r is not None for _, r in ev):
                ok = all(r == t for t, r in ev)
            elif any(r is not None and r != t for t, r in ev):
                ok = False
        rep.judge("header-hash", ok, F.name + ":length", at(rd) if rd else F.name,
                  "the digest of the header covers %s bytes, not everything up to the end of the header" % show(k, 4),
                  F.name + ": header digest covers the header")
        if rd is None:
            continue
        sk = [m for m in I.by("sseek") if m.args[0] is b.args[1] and rd.id in I.reach(m.id) and
              not any(o.id != m.id and o.args[0] is b.args[1] and o.id in I.reach(m.id) and rd.id in I.reach(o.id)
                      for o in I.by("sseek"))]
        for m in sk:
            a = [strip_casts(x) for x in m.args[1:] if isinstance(x, Term)]
            if len(a) >= 1 and all(x.op == "int" for x in a):
                rep.judge("header-hash", all(x.args[0] == 0 for x in a), F.name + ":start", at(m),
                          "the digest of the header does not start at the start of the file", F.name + ": from the start")
            else:
                rep.und("header-hash", at(m), "start of the hashed header not recognised")


def find_digest(I, p):
    """The digest term among the alternatives of p."""
    for g, v in flatten(I.I, p):
        if v.op == "sha":
            return v
    return None


def hashed_data(I, d):
    """Terms hashed into a digest, in no particular order; None entries for unknown shapes."""
    out, seen, todo = [], set(), [d.args[0]]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "shaU":
            out.append((x.args[1], x.args[2], x))
            todo.append(x.args[0])
        elif x.op in ("lphi", "phi"):
            if x.op == "lphi":
                e = I.lphi.get(x)
                todo += [y for y in e if y is not None] if e else []
            else:
                todo += [v for _, v in x.args[0]]
        elif x.op == "sha0":
            pass
        else:
            out.append((None, None, x))
    return out


def classify_digest(F, dig, plain):
    data = hashed_data(F.I.I, dig)
    src = set()
    for v, n, u in data:
        if v is None:
            return None
        for s in sources(F.I.I, v):
            src |= {a for a in s.args if isinstance(a, Term) and a.op == "sid"}
    if not src:
        return "other"
    if all(s in plain for s in src):
        return "content-hash"
    if all(s.args[2].op == "file" for s in src):
        return "header-hash"
    return None


def judge_digest(rep, F, rule, kinds, unknown, where):
    l = kinds.get(rule, [])
    if not l:
        rep.judge(rule, None if unknown else False, F.name, where,
                  "the database is returned without comparing the digest", F.name)
        return
    I = F.I
    plain = [n.args[1] for n in I.by("cbc")]
    for x, z, dig, q in l:
        if rule == "content-hash":
            slots = F.S.slots(q)
            want = [s for s, (v, n) in F.hdr.items() if v.op == "sha"]
            ok = set(want) == slots
            w = whole_stream(I, dig, plain)
            rep.judge(rule, False if not ok else w, F.name, where, "compared with %s; covers content: %s" % (slots, w),
                      F.name + " " + show(z, 4))
        else:
            # starts at offset 0 and ends at the end of the header
            w = header_range(I, dig)
            from_doc = any(y.op in ("xval", "xas") for _, v in flatten(I.I, q) for y in subterms(v))
            rep.judge(rule, False if w is False else (None if not from_doc else w), F.name, where,
                      "the digest does not cover the header", F.name + " " + show(z, 4))


def whole_stream(r, dig, sids):
    """Digest of a complete stream, read in a loop until its end."""
    I = r.I
    data = hashed_data(I, dig)
    if any(v is None for v, n, u in data):
        return None
    for v, n, u in data:
        ss = {a for s in sources(I, v) for a in s.args if isinstance(a, Term) and a.op == "sid"}
        if not ss:
            g = [y for y in subterms(v) if y.op == "sstr"]
            if g and g[0].args[0] in sids:
                continue
            return None if v.op in ("undef", "lphi") else False
        if not ss <= set(sids):
            return False
        evs = [ev_of(s) for s in sources(I, v)]
        for e in evs:
            nd = r.nodes.get(e.args[0]) if e is not None else None
            if nd is None:
                return None
            if nd.kind == "sread":
                if not nd.loops:
                    return False
                if not loops_until(r, nd):
                    return None
                gc = [y for y in subterms(n) if y.op == "gcount"]
                if not gc:
                    # fixed length: wrong for the last block
                    return False if n.op == "int" else None
    return True


def header_range(r, dig):
    data = hashed_data(r.I, dig)
    if len(data) != 1 or data[0][0] is None:
        return None
    v, n, u = data[0]
    for s in sources(r.I, v):
        if s.op != "rd":
            return None
        nd = r.nodes[s.args[0].args[0]]
        # preceded by a seek to 0
        sk = [m for m in r.by("sseek") if m.id in r.back(nd.id) and m.args[0] is nd.args[0]]
        z = [m for m in sk if any(isint(a, 0) for a in m.args[1:])]
        if not z:
            return False if not sk else None
        if not any(y.op == "tell" for y in subterms(s.args[2])):
            return None
    return True


# ---------------------------------------------------------------------------
PUBLIC = ("master_seed_", "init_vector_", "transform_seed_", "transform_rounds_", "inner_random_stream_key_", "cipher_",
          "compress_")


def confidential(c, rep):
    """P10"""
    rep.rule("plain-bytes", "bytes an export writes to the destination without encryption come only from the header "
             "parameters, fixed values, counts, digests and fresh random bytes")
    rep.rule("content-encrypted", "everything else reaches the destination through the bulk cipher")
    rep.rule("no-other-sink", "no library operation writes data to another file, to the standard streams or to the "
             "process environment")
    rep.rule("key-private", "neither the caller's key nor anything derived from it other than ciphertext is written")
    for i in (0, 1):
        F = fmt(c, i)
        E = F.E
        files = [n.args[0] for n in E.nodes.values() if n.kind in WRITE + ("swrite",) and n.kind != "cbc" and
                 sink_kind(n.args[0]) == "file"]
        files = set(files)
        if not files:
            continue
        for n in sorted(E.nodes.values(), key=lambda n: n.id):
            if n.kind == "xsave" and n.args[0] in files:
                rep.bad("plain-bytes", F.name + ":document", at(n), "the document is written without encryption")
            if n.kind in ("swrite", "sput") and n.args[0] in files:
                judge_plain(E, n, n.args[1], rep, F, set())
            if n.kind == "cbc":
                rep.judge("content-encrypted", n.name == "encrypt_cbc" and n.args[1] in files, F.name, at(n),
                          "the bulk cipher does not write to the destination", at(n))
        if not E.by("cbc"):
            rep.bad("content-encrypted", F.name, E.f["n"], "nothing is encrypted")
        # the document and records are in an encrypted stream
        encs = {n.args[0] for n in E.by("cbc")}
        for n in E.by("xsave"):
            s = n.args[0]
            while s.op == "sid" and s.args[2].op == "via":
                b = s.args[2].args[0]
                nx = [x for x in b.args[1] if x.op == "sid"] if b.op == "sbuf" else []
                if not nx:
                    break
                s = nx[0]
            rep.judge("content-encrypted", s in encs, F.name + ":document", at(n), "the document is saved to %s" %
                      describe(s), at(n))
    from .rules_flow import entry_roots
    seen = set()
    for f in entry_roots(c):
        if "Print" in f["n"] or f["n"] == "main":
            continue
        r = c.run(f)
        for n in r.nodes.values():
            k = (n.file, n.line, n.kind)
            if k in seen:
                continue
            if n.kind in ("swrite", "sput", "xsave", "sins"):
                s = n.args[0]
                if std_stream(s):
                    seen.add(k)
                    rep.bad("no-other-sink", "%s:%s" % (short(f["n"]), n.kind), at(n), "writes to a standard stream")
                    continue
                rep.ok("no-other-sink")
            if n.kind == "open" and n.name in ("ofstream", "fstream"):
                seen.add(k)
                rep.judge("no-other-sink", f["n"] in EXPORTS, short(f["n"]) + ":open", at(n), "opens a file for writing",
                          at(n))
            if n.kind == "ext" and n.name.split("::")[-1] in SINKS:
                seen.add(k)
                rep.bad("no-other-sink", "%s:%s" % (short(f["n"]), n.name), at(n), "calls %s" % n.name)


SINKS = ("printf", "fprintf", "puts", "fputs", "putchar", "fputc", "fwrite", "write", "perror", "syslog", "setenv", "putenv",
         "system", "popen", "fopen", "open", "creat", "send", "sendto", "rename", "unlink", "remove", "symlink", "link",
         "vprintf", "vfprintf", "dprintf", "mkstemp", "tmpfile")


def std_stream(s):
    for x in subterms(s):
        if x.op == "glob" and str(x.args[0]).split("::")[-1].split("@")[0] in ("cout", "cerr", "clog", "wcout", "wcerr"):
            return True
    return False


def outside_digests(v):
    out, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x in out or x.op == "sha":
            continue
        out.add(x)
        todo += kids(x)
    return out


def judge_plain(E, n, v, rep, F, done, origin=None):
    """Every value in unencrypted bytes is public."""
    if v in done:
        return
    done.add(v)
    for x in [v] if v.op != "phi" else [y for _, y in flat_alts(v)]:
        rests = [y for y in outside_digests(x) if y.op in ("rest", "sstr") and any(a.op == "sid" for a in y.args if
                                                                                    isinstance(a, Term))]
        streams = set()
        for y in rests:
            s = [a for a in y.args if isinstance(a, Term) and a.op == "sid"][0]
            streams.add(s)
        for s in streams:
            if s in done:
                continue
            done.add(s)
            for m in E.nodes.values():
                if m.kind in ("swrite", "sput") and m.args[0] is s:
                    judge_plain(E, m, m.args[1], rep, F, done, n)
                if m.kind == "xsave" and m.args[0] is s:
                    rep.bad("plain-bytes", F.name + ":document", at(m), "the document is copied to the destination in clear")
                if m.kind == "cbc" and m.args[1] is s:
                    pass
        leak = leaks(E, x)
        for l in leak:
            rule = "key-private" if l[0] == "key" else "plain-bytes"
            rep.bad(rule, "%s:%s" % (F.name, l[1]), at(n), "%s is written to the destination in clear" % l[1])
        if not leak:
            rep.ok("plain-bytes", at(n), "%s %s" % (F.name, show(x, 3)))


def leaks(E, v):
    out, seen, todo = [], set(), [v]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sha":
            # digests of content are public; digests of key material are not
            if any(y.op == "xform" or (y.op == "par" and y.args[0] == "key") for y in subterms(x)):
                out.append(("key", "a digest of the key"))
            continue
        if x.op == "xform":
            out.append(("key", "the transformed key"))
            continue
        if x.op == "par" and x.args[0] == "key":
            out.append(("key", "the caller's key"))
            continue
        if x.op in ("rest", "sstr", "sid", "gcount", "tell", "size", "good", "isopen"):
            continue
        if x.op == "lphi":
            e = E.I.lphi.get(x)
            if e:
                todo += [y for y in e if y is not None]
            continue
        if x.op == "phi":
            todo += [y for _, y in x.args[0]]
            continue
        if x.op == "fld":
            p = x
            root = [y for y in subterms(x) if y.op == "par"]
            if root and root[0].args[0] == "db":
                if x.args[0] is root[0]:
                    if x.args[1] not in PUBLIC:
                        out.append(("model", "the database's " + x.args[1].strip("_")))
                else:
                    out.append(("model", "the model's " + str(x.args[1]).strip("_")))
                continue
            if root and root[0].args[0] == "key":
                out.append(("key", "the caller's key"))
                continue
        todo += kids(x)
    return out


# ---------------------------------------------------------------------------
def key_file(c, rep):
    """P22"""
    rep.rule("unchanged-on-failure", "loading a key file changes the key only after the last check that can fail")
    rep.rule("component-only", "loading a key file changes nothing but the key-file component, and setting a password "
             "nothing but the password component")
    rep.rule("xml-size", "a key from an XML key file is accepted only when it is 32 bytes long")
    rep.rule("text-form", "a key from a text key file is accepted only from exactly 64 characters, all hexadecimal digits")
    rep.rule("text-value", "byte i of the key is the value of characters 2i and 2i+1")
    rep.rule("missing-file", "a key file that cannot be opened raises FileNotFoundError")
    q = "keepass::Key::SetKeyFile"
    r = c.root(q)
    st = [s for s in r.I.stores.values() if s["lv"].args[0].op in ("self", "obj") and
          s["lv"].args[0].op == "self"]
    if not st:
        rep.bad("component-only", "none", q, "the key file has no effect")
    comps = {}
    for q2, want in ((q, "keyfile"), ("keepass::Key::SetPassword", "password")):
        r2 = c.root(q2)
        comps[q2] = {show(component(s["lv"]), 6) for s in r2.I.stores.values() if s["lv"].args[0].op == "self"}
    both = comps[q] & comps["keepass::Key::SetPassword"]
    rep.judge("component-only", not both and all(len(v) == 1 for v in comps.values()), "overlap", "key.cc",
              "operations overlap or touch several components: %s" % comps, str(sorted(map(sorted, comps.values()))))
    for s in st:
        where = "%s:%s" % tuple(s["loc"])
        # a throw after the store
        late = []
        for p in s["preds"]:
            for m in r.reach(p):
                t = r.nodes[m]
                if t.kind == "throw" and escapes(r, t) is not False and store_before(r, s, t):
                    late.append(t)
        rep.judge("unchanged-on-failure", not late, "store", where,
                  "%s can be thrown at %s after the key was modified" % (late and short(late[0].name), late and at(late[0])),
                  where)
        v = s["v"]
        al = [l for _, l in flatten(r.I, v)]
        b64 = [x for x in al if any(y.op in ("b64d",) for y in subterms(x))]
        if b64:
            d = [y for y in subterms(b64[0]) if y.op == "b64d"][0]
            ok = [x for x in s["facts"] if x.op == "eq" and any(y is T("size", d) for y in x.args)]
            good = any(isint(y, 32) for x in ok for y in x.args)
            rep.judge("xml-size", good, "size", where, "a decoded key of another size is accepted", where)
            loc = show(d.args[0], 9)
            rep.judge("xml-size", all(t in loc for t in ('"KeyFile"', '"Key"', '"Data"')), "element", where,
                      "the key is not taken from KeyFile/Key/Data", loc)
        else:
            rest = [y for x in s["facts"] if x.op == "eq" for y in x.args if y.op == "size" and y.args[0].op == "rest"]
            good = any(x.op == "eq" and any(isint(y, 64) for y in x.args) and any(y in rest for y in x.args)
                       for x in s["facts"])
            rep.judge("text-form", good or (None if not rest and len(al) == 0 else good), "length", where,
                      "text of another length is accepted", where)
            ups = [x for x in al if x.op == "upd"]
            und = not ups
            for x in ups:
                val = strip_casts(x.args[2])
                stoi = [y for y in subterms(val) if y.op == "stoi"]
                if not stoi or val is not stoi[0]:
                    und = True
                    continue
                base = stoi[0].args[1] if len(stoi[0].args) > 1 else None
                rep.judge("text-value", isint(base, 16) if base is not None else False, "base", where,
                          "digits are not interpreted as hexadecimal", "base 16")
                ats = [y for y in subterms(stoi[0]) if y.op == "at"]
                idx = [i for i in subterms(x.args[1]) if i.op == "lphi"]
                if idx and any(i.op == "lphi" and i is not idx[0] for y in ats for i in subterms(y)):
                    und = True
                    continue
                got = sorted({affine(strip_casts(y.args[1]), idx[0]) for y in ats if idx}, key=str) if ats else []
                if idx and got:
                    ok = got == [(2, 0), (2, 1)]
                    rep.judge("text-value", True if ok else (None if any(g is None for g in got) else False), "index", where,
                              "characters %s are used for byte i" % got, str(got))
                    # order: first character is the high digit
                    arr = [y for y in subterms(stoi[0]) if y.op == "arr"]
                    if arr and isinstance(arr[0].args[0], tuple) and len(arr[0].args[0]) == 2 and ok:
                        o = [affine(strip_casts(z.args[1]), idx[0]) for z in map(strip_casts, arr[0].args[0])
                             if isinstance(z, Term) and z.op == "at"]
                        if len(o) == 2:
                            rep.judge("text-value", o == [(2, 0), (2, 1)], "order", where, "digits are swapped", "order")
            # digits verified
            digits = set()
            for t in r.by("throw"):
                for x in t.facts:
                    for z in disjuncts(x):
                        if z.op != "not" or not any(y.op == "ctype" for y in subterms(z)):
                            continue
                        for y in subterms(z):
                            if y.op == "at":
                                lp = [i for i in subterms(y.args[1]) if i.op == "lphi"]
                                if lp:
                                    digits.add(affine(strip_casts(y.args[1]), lp[0]))
            if digits:
                rep.judge("text-form", {(2, 0), (2, 1)} <= digits or None, "digits", where,
                          "not every character is checked to be a hexadecimal digit: %s" % digits, str(sorted(digits, key=str)))
            else:
                bt = [y for y in al if any(z.op == "ctype" for z in subterms(y))] or [
                    x for t in r.by("throw") for x in t.facts if any(y.op == "ctype" for y in subterms(x))]
                rep.judge("text-form", None if bt else False, "digits", where,
                          "characters are not checked to be hexadecimal digits", where)
    opens = r.by("open")
    for o in opens:
        sid = T("sid", T("ev", o.id), o.name, T("file", o.args[0]))
        thr = [t for t in r.by("throw") if mk_not(T("isopen", sid)) in t.facts or ver_fact(t.facts, T("ev", o.id), False)]
        rep.judge("missing-file", bool(thr) and all("keepass::FileNotFoundError" in c.P.bases_of(t.name) or
                  t.name == "keepass::FileNotFoundError" for t in thr), "open", at(o),
                  "a missing key file is not reported as such", at(o))


def component(lv):
    """The member a store changes (a store to an element changes the member)."""
    path = lv.args[1]
    k = next((i for i, p in enumerate(path) if isinstance(p, Term)), len(path))
    return T("lv", lv.args[0], path[:k])


def store_before(r, s, t):
    """Is the throw after the store on some path?  The store happens after its predecessor events."""
    # a throw whose facts contradict the store's own path is not after it
    from .interp import guard_conflict
    return not guard_conflict(s["facts"], t.facts) and not guard_conflict(t.facts, s["facts"])


def affine(t, v):
    """t = a*v + b -> (a, b)."""
    if t is v:
        return (1, 0)
    if t.op == "int":
        return (0, t.args[0])
    if t.op == "bin" and t.args[0] in ("+", "-", "*", "<<", "|"):
        a, b = affine(t.args[1], v), affine(t.args[2], v)
        if a is None or b is None:
            return None
        if t.args[0] == "+" or (t.args[0] == "|" and a[1] == 0 and a[0] % 2 == 0 and b in ((0, 1),)):
            return (a[0] + b[0], a[1] + b[1])
        if t.args[0] == "-":
            return (a[0] - b[0], a[1] - b[1])
        if t.args[0] == "*":
            if a[0] == 0:
                return (a[1] * b[0], a[1] * b[1])
            if b[0] == 0:
                return (b[1] * a[0], b[1] * a[1])
            return None
        if t.args[0] == "<<" and b[0] == 0:
            return (a[0] << b[1], a[1] << b[1])
    if t.op == "cast":
        return affine(t.args[1], v)
    return None
