"""Compressed streams: use of the compression library's stream object, and use of the compressing streams (P25)."""
import itertools
from .canon import *
from .core import at
from .decide import evalnum
from .interp import LV
from .rules_flow import flat_alts, short
from .terms import *

Z_FINISH, Z_STREAM_END = 4, 1
ERRORS = (-1, -2, -3, -4, -5, -6, 2)


def stream_classes(c):
    """Classes of the library that implement a stream buffer."""
    out = {}
    for f in c.P.funcs.values():
        q = f["n"].split("::")
        if q[-1] in ("underflow", "uflow", "overflow", "sync", "xsputn", "xsgetn", "showmanyc") and len(q) > 1:
            out.setdefault("::".join(q[:-1]), []).append(f)
    return out


def methods(c, cls):
    """Methods and constructors that are entered from outside the class."""
    if not hasattr(c, "_cg"):
        from .interp import Interp
        c._cg = Interp(c.P, ()).callgraph
    called = set()
    for fid, s in c._cg.items():
        called |= {x for x in s if x != fid}
    out = []
    for f in c.P.funcs.values():
        q = f["n"].split("::")
        if "::".join(q[:-1]) != cls or f.get("body") is None:
            continue
        if f["fid"] in called and q[-1] not in ("underflow", "uflow", "overflow", "sync", "xsputn", "xsgetn") and \
                q[-1] != q[-2] and not q[-1].startswith("~"):
            continue
        out.append(f)
    return out


def zlib(r, *names):
    return [n for n in r.by("zlib") if n.name in names]


def value_of(r, cls, field):
    r.I.S = r.S
    return r.I.read(LV(T("self", cls), (field,)))


def mentions(ts, *ops, ev=None):
    for t in ts:
        for x in subterms(t):
            if x.op in ops and (ev is None or (isinstance(x.args[0], Term) and x.args[0] is ev)):
                return True
    return False


def possible(guards, env):
    """False when a guard is false under the assignment, True when all are true, None otherwise."""
    vs = [evalnum(g, env) for g in guards]
    if 0 in vs:
        return False
    return True if all(v is not None for v in vs) else None


class Step:
    """One call of inflate or deflate with the terms it defines."""

    def __init__(self, r, n):
        self.r, self.n = r, n
        self.ev = T("ev", n.id)
        self.ai, self.ni, self.ao, self.no, self.flush = n.args[:5]
        self.res = T("zres", self.ev, n.name)

    def out(self, field):
        return T("zo", self.ev, field)

    def env(self, res, ai, ao, good=None, writes=()):
        e = {self.res: INT(res).args[0], self.out("avail_in"): ai, self.out("avail_out"): ao}
        for w in writes:
            for x in ("good", "fail"):
                e[T(x, T("ev", w.id))] = int(good) if x == "good" else int(not good)
        return e


def size_of(v):
    v = strip_casts(v)
    return v.args[0] if v.op == "int" else None


def lv_field(t, cls):
    """Member of the object that an address or a value denotes."""
    t = strip_casts(t)
    if t.op == "cdata":
        t = t.args[0]
    if t.op == "lv":
        root, path = t.args
        return path[0] if isinstance(root, Term) and root.op == "self" and len(path) == 1 else None
    if t.op == "fld" and t.args[0].op == "self":
        return t.args[1]
    return None


def capacity(c, r, t):
    """Number of elements of the array an address denotes, None when not known."""
    if t.op != "cdata" or t.args[0].op != "lv":
        return None
    root, path = t.args[0].args
    ty = None
    if len(path) == 1 and isinstance(root, Term) and root.op == "self":
        rec = c.P.record(root.args[0])
        for f in rec["fields"] if rec else ():
            if f["n"] == path[0]:
                ty = f["t"]
    if ty is None:
        return None
    import re
    m = re.search(r",\s*(\d+)[uUlL]*\s*>", str(ty))
    return int(m.group(1)) if m else None


# ---------------------------------------------------------------------------
def inflating(c, rep, cls, f):
    r = c.run(f)
    steps = [Step(r, n) for n in zlib(r, "inflate")]
    name = short(f["n"])
    for s in steps:
        n = s.n
        k = name
        # input
        ai, ni = dict(), dict()
        for d, v in ((ai, s.ai), (ni, s.ni)):
            for g, x in flat_alts(v):
                d.setdefault(g, x)
        if set(ai) != set(ni):
            rep.und("input-fed", at(n), "%s: the input length and the input position are not chosen together" % name)
        else:
            for g, a in ai.items():
                p, a0 = ni[g], strip_casts(a)
                if a0.op == "gcount":
                    rd = r.nodes.get(a0.args[0].args[0]) if a0.args[0].op == "ev" else None
                    if rd is None or rd.kind != "sread":
                        rep.und("input-fed", at(n), name + ": the input length does not come from a read")
                        continue
                    rep.judge("input-fed", rd.args[2] is p, k + "/place", at(n),
                              "%s: the bytes read into %s are not the ones handed to the decompressor (%s)" %
                              (name, show(rd.args[2], 4), show(p, 4)), "decompressor input is the block just read")
                    # nothing unread may be dropped
                    olds = [l for l in subterms_facts(rd.facts) if is_member(l, "avail_in")]
                    lost = False
                    for v in (1, 2, 5, 100, 16383):
                        if possible([x for x in rd.facts if mentions([x], "lphi", "fld")], {l: v for l in olds}) is not False:
                            lost = True
                    rep.judge("input-fed", lost is False, k + "/kept", at(rd),
                              "%s: input the decompressor has not consumed yet is overwritten by the next block" % name,
                              "a block is read only when the previous one is consumed")
                    gc = T("gcount", T("ev", rd.id))
                    p0 = possible([x for x in (n.facts | g) if mentions([x], "gcount")], {gc: 0})
                    has = any(mentions([x], "gcount") for x in n.facts | g)
                    rep.judge("truncation", p0 is False if has else False, k, at(n),
                              "%s: when the compressed data ends early (nothing was read) decompression goes on instead of "
                              "failing" % name, "an empty read before the end of the stream is an error")
                    cap = capacity(c, r, p)
                    sz = size_of(rd.args[1])
                    if cap is not None and sz is not None:
                        rep.judge("input-fed", 0 < sz <= cap, k + "/size", at(rd),
                                  "%s: %d bytes are read into a buffer of %d" % (name, sz, cap))
                elif a0.op in ("int", "size") and any(p is m.args[2] for m in r.by("sread")):
                    rep.bad("input-fed", k + "/count", at(n), "%s: the decompressor is given %s bytes of the block, not the number "
                            "that was read" % (name, show(a, 3)))
                elif is_member(a, "avail_in") and is_member(p, "next_in"):
                    rep.ok("input-fed", at(n), "remaining input is handed on unchanged")
                else:
                    rep.und("input-fed", at(n), "%s: input of unknown origin (%s)" % (name, show(a, 4)))
        # output range
        sets = [g for g in r.by("setg") if g.id in r.reach(n.id)]
        hit = [g for g in sets if mentions(g.args, "zo", ev=s.ev)]
        rep.judge("released", bool(hit), k + "/set", at(n),
                  "%s: the bytes decompression produced are never made available to the reader" % name)
        for g in hit:
            whole = T("padd", s.no, T("bin", "-", s.ao, s.out("avail_out"), None))
            b, e = strip_casts(g.args[1]), strip_casts(g.args[2])
            okb = b is strip_casts(s.no)
            oke = None
            if e.op == "padd" and strip_casts(e.args[0]) is strip_casts(s.no):
                x = strip_casts(e.args[1])
                res = [(evalnum(x, {s.out("avail_out"): v}), size_of(s.ao)) for v in (0, 1, 100)]
                if all(p[0] is not None and p[1] is not None for p in res):
                    oke = all(p[0] == p[1] - v for p, v in zip(res, (0, 1, 100)))
            rep.judge("released", okb if not okb else oke, k + "/range", at(g),
                      "%s: the range made available (%s .. %s) is not exactly the bytes decompression produced" %
                      (name, show(g.args[1], 5), show(g.args[2], 5)), "released range = produced bytes")
            bad = [x for x in (-1, -2, -3, -4, -6, 2, -5) if possible(
                [y for y in g.facts if mentions([y], "zres", ev=s.ev)], s.env(x, 1, 1)) is not False]
            if not any(mentions([y], "zres", ev=s.ev) for y in g.facts):
                bad = [-3]
            # Z_BUF_ERROR means no progress, it releases nothing; Z_NEED_DICT cannot occur in this container format
            bad = [x for x in bad if x not in (2, -5)]
            rep.judge("corruption", not bad, k, at(g),
                      "%s: output is handed out although decompression failed with %s" % (name, bad),
                      "output released only after a successful step")
        cap, sz = capacity(c, r, s.no), size_of(s.ao)
        if cap is not None and sz is not None:
            rep.judge("released", 0 < sz <= cap, k + "/size", at(n), "%s: up to %d bytes are produced into a buffer of %d" %
                      (name, sz, cap), "output fits its buffer")
        # no output lost: between two steps, and before returning, the output is released
        sids = {g.id for g in hit}
        if hit and n.id in r.reach(n.id, sids):
            rep.bad("released", k + "/lost", at(n), "%s: output of one step can be overwritten by the next before it is released"
                    % name)
        # pending output of the previous call
        pend = [x for x in n.facts if mentions_member(x, "$gptr") and mentions_member(x, "$egptr")]
        rep.judge("released", bool(pend) and all(same_ptr(x) for x in pend), k + "/unread", at(n),
                  "%s: bytes already available to the reader can be replaced before they are read" % name,
                  "decompression runs only when everything released was read")
    if f["n"].endswith("::underflow"):
        at_end(c, rep, cls, r, steps, name)


def subterms_facts(fs):
    return {x for f in fs for x in subterms(f)}


def is_member(t, field):
    t = strip_casts(t)
    if t.op == "lphi":
        t = t.args[1]
    if t.op == "lv":
        return isinstance(t.args[1], tuple) and t.args[1] and t.args[1][-1] == field
    return t.op == "fld" and t.args[1] == field


def mentions_member(x, field):
    return any(is_member(y, field) for y in subterms(x) if y.op in ("lphi", "fld"))


def same_ptr(x):
    """The fact says that the read position is the end of the released range."""
    if x.op == "eq":
        return True
    if x.op == "not" and x.args[0].op == "lt":
        return is_member(x.args[0].args[0], "$gptr")
    return None


def at_end(c, rep, cls, r, steps, name):
    """The end is reported only when the decompressor reported the end of the compressed data."""
    n = r.ret()
    if n is None:
        return
    stores = {}
    for s in r.I.stores.values():
        lv = s["lv"]
        root, path = lv.args
        if isinstance(root, Term) and root.op == "self" and len(path) == 1:
            stores.setdefault(path[0], []).append(s)
    ends = {}
    for fld, ss in stores.items():
        if any(mentions([s["v"]], "zres") or mentions(s["facts"], "zres") and evalnum(s["v"], {}) is not None for s in ss):
            ends[fld] = ss
    for fld, ss in sorted(ends.items()):
        for s in ss:
            wrong = []
            for st in steps:
                for v in (0, 1) + ERRORS:
                    env = st.env(v, 0, 0)
                    if possible([x for x in s["facts"] if mentions([x], "zres")], env) is False:
                        continue
                    x = evalnum(s["v"], env)
                    if x is None and v != Z_STREAM_END:
                        # whatever the state of the stream the input comes from
                        free = sorted({y for y in subterms(s["v"]) if y.op in ("eof", "good", "fail", "bad", "isopen")},
                                      key=lambda t: t.id)[:4]
                        for vs in itertools.product((0, 1), repeat=len(free)):
                            if evalnum(s["v"], dict(env, **{}) | dict(zip(free, vs))):
                                x = 1
                    if x is not None and x and v != Z_STREAM_END:
                        wrong.append(v)
                    if x is not None and not x and v == Z_STREAM_END:
                        wrong.append(v)
            rep.judge("end-reported", not wrong, name + "/mark", at(s["loc"]),
                      "%s: the end of the stream is %s although decompression returned %s" %
                      (name, "recorded", sorted(set(wrong))), "end recorded exactly for Z_STREAM_END")
    for g, v in flat_alts(r.v):
        x = evalnum(v, {})
        if x == -1:
            gs = set(g) | set(r.S.facts)
            fine = any(truth(y, set(ends)) for z in gs for y in conj(z))
            for st in steps:
                zs = [z for z in gs if mentions([z], "zres", ev=st.ev)]
                if zs and all(possible(zs, st.env(v2, 0, 0)) is False for v2 in (0,) + ERRORS):
                    fine = True
            if fine:
                rep.ok("end-reported", at(n), "end of file only at the end of the compressed data")
                continue
            rep.judge("end-reported", False, name + "/early", at(n),
                      "%s: the end is reported without the decompressor having reached the end of the compressed data" % name,
                      "end reported only when the end was recorded")


def conj(x):
    return conj(x.args[0]) + conj(x.args[1]) if x.op == "and" else [x]


def truth(y, ends):
    """The fact says that a member recording the end is set."""
    if y.op == "truthy":
        y = y.args[0]
    if y.op == "phi":
        # a short-circuit or chained condition: every true alternative is guarded by the mark
        return all(any(truth(z, ends) for gg in g for z in conj(gg)) or truth(v, ends)
                   for g, v in y.args[0] if not (v.op == "int" and v.args[0] == 0))
    return any(is_member(y, e) for e in ends)


# ---------------------------------------------------------------------------
def deflating(c, rep, cls, f):
    r = c.run(f)
    steps = [Step(r, n) for n in zlib(r, "deflate")]
    name = short(f["n"])
    meth = f["n"].split("::")[-1]
    for s in steps:
        n = s.n
        ws = [w for w in r.by("swrite") if mentions(w.args[1:2], "zout", ev=s.ev) or mentions(w.args[2:3], "zo", ev=s.ev)]
        if not ws:
            rep.bad("written", name + "/none", at(n), "%s: the compressed bytes are not written to the destination" % name)
            continue
        for w in ws:
            x = strip_casts(w.args[2])
            size = size_of(s.ao)
            res = [evalnum(x, {s.out("avail_out"): v}) for v in (0, 1, 100)]
            good = None if size is None or None in res else all(a == size - v for a, v in zip(res, (0, 1, 100)))
            whole = mentions(w.args[1:2], "zout", ev=s.ev)
            rep.judge("written", good and whole if good is not None else None, name + "/bytes", at(w),
                      "%s: %s bytes are written where compression produced (available before - available after)" %
                      (name, show(w.args[2], 5)), "written bytes = produced bytes")
            skipped = []
            for v, res in itertools.product((0, 1, size - 1 if size else 1), (0, 1)):
                if possible([y for y in w.facts - n.facts], s.env(res, 0, v)) is False:
                    skipped.append((res, v))
            rep.judge("written", not skipped, name + "/skipped", at(w),
                      "%s: produced bytes are not written when deflate returns %s" % (name, sorted({a for a, b in skipped})),
                      "every produced byte is written")
        if n.id in r.reach(n.id, {w.id for w in ws}):
            extra = [y for w in ws for y in w.facts - n.facts if not mentions([y], "zres", "zo", ev=s.ev)]
            if extra:
                rep.bad("written", name + "/lost", at(n), "%s: output of one step can be overwritten by the next before it is "
                        "written" % name)
        # flush mode
        fl = evalnum(s.flush, {})
        last = meth == "sync"
        rep.judge("finished-once", None if fl is None else (fl == Z_FINISH) == last, name + "/mode", at(n),
                  "%s: compression is %s" % (name, "finished although more data may follow" if not last else
                                             "not finished when the stream is flushed (mode %s)" % fl),
                  "finish mode exactly in the flush operation")
        given(rep, r, s, cls, name)
        reported(rep, r, s, ws, cls, name, fl, meth)
    if not steps and meth == "sync":
        rep.bad("finished-once", name + "/none", "%s:%s" % (f["file"], f["line"]), "%s: the compressed data is never finished" % name)
    return bool(steps)


def buffer_stores(r, field):
    out = []
    for s in r.I.stores.values():
        lv = s["lv"]
        root, path = lv.args
        if isinstance(root, Term) and root.op == "self" and path == (field,):
            out.append(s)
    return out


def given(rep, r, s, cls, name):
    """The input handed to the compressor is the whole buffer, and later steps go on where the previous one stopped."""
    n = s.n
    e_ai, e_ni = s.ai, s.ni
    cont = None
    if s.ai.op == "lphi" and s.ni.op == "lphi":
        la, ln = r.I.lphi.get(s.ai), r.I.lphi.get(s.ni)
        if not la or not ln or None in la or None in ln:
            rep.und("consumed", at(n), name + ": input of later steps not derived")
            return
        e_ai, e_ni = la[0], ln[0]
        cont = strip_casts(la[1]) is s.out("avail_in") and strip_casts(ln[1]) is s.out("next_in")
        known = all(x.op in ("zo", "cdata", "int", "size", "fld") for x in (strip_casts(la[1]), strip_casts(ln[1])))
        rep.judge("consumed", True if cont else (False if known else None), name + "/continue", at(n),
                  "%s: a further step does not go on with the remaining input (%s at %s)" %
                  (name, show(la[1], 4), show(ln[1], 4)), "later steps take the remaining input")
    elif n.id in r.reach(n.id) and strip_casts(s.ai).op in ("size", "fld", "int"):
        rep.bad("consumed", name + "/continue", at(n), "%s: every further step is given the whole buffer again" % name)
    a = strip_casts(e_ai)
    field = lv_field(e_ni, cls)
    if a.op == "size":
        sz = [x for x in subterms(e_ai) if x.op == "size"]
        short_ = [v for v in (1, 255, 16383, 16384) if len(sz) == 1 and evalnum(e_ai, {sz[0]: v}) not in (None, v)]
        rep.judge("consumed", not short_, name + "/narrow", at(n),
                  "%s: a buffer of %s bytes is given to the compressor as another number of bytes" % (name, short_))
    if a.op != "size" or field is None:
        if a.op == "bin" and any(x.op == "size" for x in subterms(a)):
            rep.bad("consumed", name + "/all", at(n), "%s: the compressor is given %s bytes, not the whole buffer" %
                    (name, show(a, 4)))
            return
        rep.und("consumed", at(n), "%s: input (%s at %s) not recognised as a whole buffer" % (name, show(e_ai, 4), show(e_ni, 4)))
        return
    pre = [x["v"] for x in buffer_stores(r, field) if x["v"].op not in ("empty",) and
           (x["loc"] is None or True) and not mentions([x["v"]], "zout") and not mentions(x["facts"], "zres", "zo")]
    want = [strip_casts(x) for x in pre] or [T("fld", T("self", cls), field)]
    rep.judge("consumed", a.args[0] in want, name + "/all", at(n),
              "%s: the compressor is given %s, not everything put into the stream" % (name, show(a.args[0], 5)),
              "compressor input = whole buffer")
    s.buffer = field


def with_last_round(r, facts):
    """The conditions, with those of the last round of loops that cannot have been left before their first round."""
    out = set(facts)
    for y in facts:
        ls = {t for t in subterms(y) if t.op == "lphi"}
        keys = {t.args[0] for t in ls}
        if len(keys) != 1 or not all(None not in (r.I.lphi.get(t) or (None,)) for t in ls):
            continue
        L = r.I.loops.get(keys.pop())
        env = {t: evalnum(r.I.lphi[t][0], {}) for t in ls}
        if L is None or None in env.values() or evalnum(y, env) != 0:
            continue
        z = rebuild(y, lambda t: r.I.lphi[t][1] if t in ls else None)
        out |= {z} | set(L.back or ())
    return out


def reported(rep, r, s, ws, cls, name, fl, meth):
    """Success (the buffer emptied, no error reported) only when everything was consumed, produced and written."""
    n = s.n
    field = getattr(s, "buffer", None)
    w = ws[-1:]
    size = size_of(s.ao) or 16384
    bad = {"the destination refused the bytes": s.env(1 if fl == Z_FINISH else 0, 0, 5, False, w),
           "compression failed (-2)": s.env(-2, 0, 5, True, w)}
    if fl == Z_FINISH:
        bad["more output is pending (output buffer full)"] = s.env(0, 0, 0, True, w)
    else:
        bad["input is left over (output buffer full)"] = s.env(0, 5, 0, True, w)
    good = [s.env(1 if fl == Z_FINISH else 0, 0, 5, True, w)]
    if fl == Z_FINISH:
        good = [s.env(1, 0, 5, True, w)]
    targets = []
    if field is not None:
        v = value_of(r, cls, field)
        targets += [("the buffer is emptied", g, x.op == "empty", x) for g, x in flat_alts(v)]
    kept = [t for t in targets if not t[2]]
    if meth == "sync":
        for g, x in flat_alts(r.v):
            k = evalnum(x, {})
            targets.append(("success is reported", g, k == 0 if k is not None else None, x))
    for what, g, ok, x in targets:
        if ok is None:
            rep.und("reported", at(n), "%s: result %s not evaluated" % (name, show(x, 4)))
            continue
        if not ok:
            continue
        gs = with_last_round(r, set(g) | set(r.S.facts))
        for why, env in bad.items():
            p = possible([y for y in gs], env)
            if p is not False and not any(mentions([y], "good", "fail", "zres", "zo") for y in gs):
                # neither result is looked at: the guard does not depend on the step at all
                p = True
            rep.judge("reported", p is False, "%s/%s/%s" % (name, what.split()[-1], why.split(" (")[0].replace(" ", "-")), at(n),
                      "%s: %s although %s" % (name, what, why), "%s only after all was consumed and written" % what)
    # a step that finds nothing to do is not a failure
    if fl == 0 and n.id in r.reach(n.id):
        full, idle = s.env(0, 0, 0, True, w), s.env(-5, 0, size, True, w)
        for e in r.by("loopend"):
            if e.id not in r.reach(n.id) or possible(
                    [y for y in e.facts if mentions([y], "zres", "zo", "good")], full) is not False:
                continue
            fails = [t for t in r.by("throw") if t.id in r.reach(n.id) and any(
                mentions([y], "zres", ev=s.ev) or y.op == "phi" for y in t.facts) and possible(
                [y for y in t.facts if mentions([y], "zres", "zo", "good")], idle) is True]
            rep.judge("reported", not fails, name + "/idle", at(fails[0] if fails else n),
                      "%s: when one step exactly fills the output buffer, the next has nothing to do and that is taken for a "
                      "failure" % name, "a step without work is not a failure")
            break
    # no data twice
    for what, g, ok, x in kept:
        for env in good:
            gs = [y for y in set(g) | set(r.S.facts)]
            if not any(mentions([y], "zres", "zo", "good", "fail", ev=None) for y in gs):
                continue
            if any(mk_not(y) in n.facts for y in gs):
                continue                # the buffer was not compressed in this case
            p = possible([y for y in gs if mentions([y], "zres", "zo", "good", "fail")], env)
            if p is True and x.op not in ("vec", "fld"):
                rep.und("consumed", at(n), "%s: the buffer ends as %s" % (name, show(x, 4)))
            elif p is True:
                rep.bad("consumed", name + "/twice", at(n), "%s: the buffer keeps bytes that were compressed already" % name)
            elif p is False:
                rep.ok("consumed", at(n), "compressed bytes leave the buffer")


def taking(c, rep, cls, f):
    """overflow: the byte is kept or handed on, and a stored byte is not mistaken for the end."""
    r = c.run(f)
    name = short(f["n"])
    n = r.ret()
    par = [x for x in subterms(r.v) if x.op == "par"] or [x for m in r.by("push") for x in subterms(m.args[1]) if x.op == "par"]
    if n is None or not par:
        return
    p = par[0]
    for v in (0, 10, 127, 128, 255):
        env = {p: v}
        outs = []
        for g, x in flat_alts(r.v):
            if possible([y for y in set(g) | set(r.S.facts) if mentions([y], "par")], env) is False:
                continue
            x = rebuild(x, lambda t: T("cast", "u8", t.args[0], None) if t.op == "toint" else None)
            outs.append(evalnum(x, env))
        if None in outs:
            rep.und("byte-values", at(n), "%s: result for byte %d not evaluated" % (name, v))
            continue
        fails = [x for x in outs if x == -1]
        rep.judge("byte-values", not (outs and len(fails) == len(outs)), "%s/%d" % (name, v), at(n),
                  "%s: the byte %d is refused (the result reads as end of file)" % (name, v), "byte accepted")
        seen = [m for m in r.by("push") if possible([y for y in m.facts if mentions([y], "par")], env) is not False]
        vals = [evalnum(m.args[1], env) for m in seen]
        if not seen:
            rep.bad("byte-values", "%s/%d/dropped" % (name, v), at(n), "%s: the byte %d is not stored" % (name, v))
        fields = {m.args[0].args[1][0] for m in seen if m.args[0].op == "lv" and len(m.args[0].args[1]) == 1}
        for fld in fields:
            left = [x for g, x in flat_alts(value_of(r, cls, fld)) if not mentions(g, "zres", "zo") and
                    possible([y for y in set(g) | set(r.S.facts) if mentions([y], "par")], env) is not False]
            rep.judge("byte-values", not any(x is T("fld", T("self", cls), fld) for x in left), "%s/%d/kept" % (name, v), at(n),
                      "%s: the byte %d is not in the buffer afterwards" % (name, v), "byte kept")
            for x in left:
                if x.op not in ("vec", "empty", "fld", "lphi", "zeros"):
                    rep.und("byte-values", at(n), "%s: the buffer ends as %s" % (name, show(x, 4)))
        for m, x in zip(seen, vals):
            rep.judge("byte-values", None if x is None else x & 0xff == v, "%s/%d/stored" % (name, v), at(m),
                      "%s: the byte %d is stored as %s" % (name, v, x), "byte stored unchanged")


def giving(c, rep, cls, f):
    """underflow: a byte handed out is never mistaken for the end."""
    r = c.run(f)
    n = r.ret()
    if n is None:
        return
    for g, v in flat_alts(r.v):
        k = evalnum(v, {})
        if k == -1:
            continue
        x = v
        ok = None
        if x.op == "toint":
            ok = True
        elif x.op == "cast" or x.op in ("deref", "at", "fld", "lphi"):
            y = strip_casts(x)
            if any(z.op == "deref" or is_member(z, "$gptr") for z in subterms(y)):
                ok = x.op == "cast" and str(x.args[0]) == "u8" or any(
                    z.op == "cast" and z.args[0] == "u8" for z in subterms(x))
        elif x.op == "bin" and x.args[0] == "&":
            ok = any(z.op == "int" and z.args[0] == 255 for z in x.args[1:3])
        rep.judge("byte-values", ok, short(f["n"]) + "/sign", at(n),
                  "%s: a byte is handed out as %s, so that 255 reads as the end of the file" % (short(f["n"]), show(x, 4)),
                  "bytes handed out as non-negative values")


# ---------------------------------------------------------------------------
def container(c, rep, inits):
    """Both sides use the gzip container."""
    for r, n in inits:
        w = n.args[0] if n.name.startswith("inflate") else n.args[2]
        k = evalnum(w, {})
        okay = None if k is None else (24 <= k <= 31 if n.name.startswith("deflate") else k == 31 or k == 47)
        rep.judge("container", okay, short(r.name) + "/format", at(n),
                  "%s: window setting %s does not select the gzip container with the full window" % (short(r.name), show(w, 3)),
                  "gzip container")
        res = T("zres", T("ev", n.id), n.name)
        ret = r.ret()
        if ret is not None:
            fs = [y for y in ret.facts if mentions([y], "zres", ev=T("ev", n.id))]
            bad = [v for v in (-2, -4, -6) if possible(fs, {res: v}) is not False]
            rep.judge("container", not bad, short(r.name) + "/result", at(n),
                      "%s: the stream is used although its initialisation failed with %s" % (short(r.name), bad),
                      "initialisation checked")
        # the input fields are defined before use
        if n.name.startswith("inflate"):
            for field in ("avail_in",):
                v = None
                r.I.S = r.S
                rec = [x for x in r.I.stores.values()]
                hit = [x for x in rec if x["lv"].args[1][-1:] == (field,)]
                rep.judge("container", any(evalnum(x["v"], {}) == 0 for x in hit), short(r.name) + "/" + field, at(n),
                          "%s: the decompressor starts with input that was never read" % short(r.name), "no input at the start")


# ---------------------------------------------------------------------------
def used(c, rep, writers, readers):
    roots = ("keepass::KdbxFile::Export", "keepass::KdbxFile::Import")
    for q in roots:
        if not c.has(q):
            continue
        r = c.root(q)
        ends = {x.id for x in r.by("return")}
        for o in [n for n in r.by("stream") if n.args and isinstance(n.args[0], Term) and n.args[0].op == "sbuf"]:
            cls = o.args[0].args[0]
            if cls not in writers and cls not in readers:
                continue
            mine = [n for n in r.nodes.values() if n.args and isinstance(n.args[0], Term) and n.args[0].op == "sid" and
                    n.args[0].args[0] is T("ev", o.id)]
            key = "%s/%s" % (short(q), "->".join(x[0].split("::")[-1] for x in o.stack[-1:]) or short(q))
            if cls in writers:
                ws = [n for n in mine if n.kind in ("swrite", "xsave", "sput")]
                fs = {n.id for n in mine if n.kind == "sflush"}
                under = o.args[0].args[1]
                under = under[0] if isinstance(under, tuple) and under else under
                if not ws:
                    rep.und("used-complete", at(o), "nothing is written to the compressing stream")
                for w in ws:
                    got = r.reach(w.id, fs)
                    lost = got & (ends | {o.id})
                    rep.judge("used-complete", not lost, key + "/flush", at(w),
                              "data is written to a compressing stream that is not flushed afterwards: the compressed data is "
                              "never finished", "every path from the write passes the flush")
                    if isinstance(under, Term):
                        early = [r.nodes[x] for x in got if r.nodes[x].kind in ("srest", "sread", "sget", "sstr") and
                                 r.nodes[x].args and r.nodes[x].args[0] is under]
                        rep.judge("used-complete", not early, key + "/order", at(early[0] if early else w),
                                  "the compressed bytes are taken before the compressing stream is flushed")
                for x in sorted(fs):
                    again = [w for w in ws if w.id in r.reach(x, {o.id})]
                    rep.judge("used-complete", not again, key + "/again", at(r.nodes[x]),
                              "the compressing stream is finished before all data was written to it",
                              "nothing is written after the flush")
            else:
                whole = [n for n in mine if n.kind in ("srest", "xload")]
                part = [n for n in mine if n.kind in ("sread", "sget")]
                for n in whole:
                    t = T("sid", *o.args)  # noqa: F841
                    cut = None
                    if n.kind == "srest":
                        cut = truncating_loop(r, n)
                    rep.judge("used-whole", not cut, key + "/cut", at(n),
                              "the decompressed content is taken only up to %s" % cut, "the whole content is taken")
                if not whole and not part:
                    rep.und("used-whole", at(o), "the decompressing stream is not read")
                for n in part:
                    rep.und("used-whole", at(n), "the decompressed content is read piecewise")


def truncating_loop(r, n):
    """A loop over the content of a stream that can stop before its end, keeping only what it has seen."""
    ev = T("ev", n.id)
    for m in r.by("push"):
        for x in subterms(m.args[1]):
            if x.op == "at" and x.args[0].op == "rest" and x.args[0].args[1] is ev and x.args[1].op == "i":
                L = r.I.loops.get(x.args[1].args[0])
                if L is not None and L.exits:
                    return "a particular byte (loop at %s:%s)" % (L.file, L.line)
    return None


# ---------------------------------------------------------------------------
def compressed(c, rep):
    """P25"""
    rep.rule("input-fed", "the decompressor is given exactly the blocks read, each after the previous one was consumed")
    rep.rule("truncation", "compressed data that ends before its end marker is an error")
    rep.rule("corruption", "nothing is handed out after a failing decompression step")
    rep.rule("released", "the range handed to the reader is exactly what the last step produced, once")
    rep.rule("end-reported", "the end is reported only after the decompressor reported the end of the compressed data")
    rep.rule("consumed", "the compressor is given everything put into the stream, once")
    rep.rule("written", "every produced byte is written to the destination")
    rep.rule("reported", "success only after all input was consumed and all output was written")
    rep.rule("finished-once", "the compressed data is finished by the flush operation and nowhere else")
    rep.rule("container", "both sides select the gzip container and check initialisation")
    rep.rule("byte-values", "no byte value is mistaken for the end of the stream, on either side")
    rep.rule("used-complete", "every compressing stream is flushed after the last write, before its output is taken")
    rep.rule("used-whole", "the content of a decompressing stream is taken whole")
    readers, writers, inits = set(), set(), []
    for cls, fs in sorted(stream_classes(c).items()):
        for f in methods(c, cls):
            m = f["n"].split("::")[-1]
            if m.startswith("~"):
                continue
            r = c.run(f)
            if zlib(r, "inflate"):
                readers.add(cls)
                inflating(c, rep, cls, f)
            if zlib(r, "deflate"):
                writers.add(cls)
                deflating(c, rep, cls, f)
            inits += [(r, n) for n in r.by("zlib") if n.name.startswith(("inflateInit", "deflateInit"))]
            if m == "overflow":
                taking(c, rep, cls, f)
            if m == "underflow":
                giving(c, rep, cls, f)
    for cls in sorted(writers):
        if not any(f["n"].split("::")[-1] == "sync" and zlib(c.run(f), "deflate") for f in methods(c, cls)):
            rep.bad("finished-once", short(cls) + "/sync", short(cls), "%s: the compressed data is never finished" % short(cls))
    if not readers or not writers:
        rep.und("container", "src", "no %s stream found" % ("decompressing" if not readers else "compressing"))
    container(c, rep, inits)
    used(c, rep, writers, readers)
