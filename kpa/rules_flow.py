"""Control-flow properties: failure behaviour of imports and exports."""
from .core import at
from .canon import strip_casts
from .invariants import refuted_by_members
from .terms import *
from .facts import AnalysisError

LIB_EXC = ("keepass::FormatError", "keepass::PasswordError", "keepass::InternalError", "keepass::IoError",
           "keepass::FileNotFoundError")
EXPORTS = ("keepass::KdbFile::Export", "keepass::KdbxFile::Export")
IMPORTS = ("keepass::KdbFile::Import", "keepass::KdbxFile::Import")
WRITE = ("swrite", "sput", "xsave", "sflush", "sclose", "cbc")


def short(q):
    return q.replace("keepass::", "")


def entry_roots(c):
    """Every function of the library that nothing in the library calls, plus the units analysed on their own."""
    P = c.P
    called = set()
    if not hasattr(c, "_cg"):
        from .interp import Interp
        c._cg = Interp(P, ()).callgraph
    for fid, s in c._cg.items():
        called |= {x for x in s if x != fid}
    from .models import PRIMITIVES
    out = []
    for fid, f in P.funcs.items():
        if f.get("body") is None or f.get("lambda") or f.get("implicit") or f["n"].startswith(("std::", "pugi::")):
            continue
        if fid not in called or f["c"].q in PRIMITIVES or f["c"].virt:
            out.append(f)
    return sorted(out, key=lambda f: (f["n"], f["fid"]))


def sid_of(n):
    """Stream a write-like event acts on."""
    if n.kind == "cbc":
        return n.args[1]
    return n.args[0]


def sink_kind(sid):
    """'file' / 'buf' / 'mem' / None."""
    if sid.op != "sid":
        return None
    c = sid.args[2]
    if c.op == "file":
        return "file"
    if c.op == "via":
        return "buf"
    return "mem"


def below(sid):
    """Streams underneath a filtering stream."""
    out = []
    c = sid.args[2]
    if c.op == "via" and c.args[0].op == "sbuf":
        for x in c.args[0].args[1]:
            if x.op == "sid":
                out.append(x)
    return out


def ver_fact(facts, ev, good, bad=True):
    """Does the fact set say that the stream state after ev was good / not good (bad: the badbit alone counts)."""
    g, f, b = T("good", ev), T("fail", ev), T("bad", ev)
    if good:
        return g in facts or mk_not(f) in facts
    if mk_not(g) in facts or f in facts or bad and b in facts:
        return True
    return any(x.op == "or" and any(y in (mk_not(g), f) or bad and y is b for y in disjuncts(x)) for x in facts)


def disjuncts(x):
    if x.op == "or":
        return disjuncts(x.args[0]) + disjuncts(x.args[1])
    return [x]


# ---------------------------------------------------------------------------
def write_checked(c, rep):
    """P08"""
    rep.rule("write-checked", "after the last event on every file or filtering stream of an export there is a branch "
             "that throws when the stream state is not good, guarded by nothing else")
    rep.rule("layer-flushed", "the last event on a filtering stream is a flush")
    rep.rule("layer-order", "every flush of an outer layer is followed on all paths by a flush of the layer below, and "
             "then by the transfer of that layer's content")
    rep.rule("sink-closed", "the last event on the destination file is a close or flush")
    rep.rule("dest-written", "every successful path writes to the destination")
    rep.rule("dest-truncated", "the destination is opened so that earlier content does not stay in it")
    rep.rule("not-swallowed", "no exception raised inside an export ends in a normal return")
    rep.rule("status-returned", "an output stream buffer reports failure when a write to the underlying stream failed")
    for q in EXPORTS:
        r = c.root(q)
        ret = r.ret()
        if ret is None:
            rep.bad("write-checked", short(q) + ":never-returns", q, "no successful path")
            continue
        evs = {}
        for n in r.nodes.values():
            if n.kind in WRITE:
                s = sid_of(n)
                if sink_kind(s) in ("file", "buf") and s.args[1] in ("ofstream", "ostream", "fstream", "iostream"):
                    evs.setdefault(s, []).append(n)
            if n.kind == "sclear":
                s = n.args[0]
                if sink_kind(s) in ("file", "buf"):
                    rep.und("write-checked", at(n), "stream state is reset")
        not_swallowed(r, ret, rep, "not-swallowed", short(q))
        for o in r.by("open"):
            if o.name in ("ofstream", "fstream"):
                dest_truncated(r, o, rep, short(q))
        files = [s for s in evs if sink_kind(s) == "file"]
        if not files:
            rep.bad("dest-written", short(q), q, "no write to a file")
            continue
        # destination written on every successful path
        data = {n.id for s in files for n in evs[s] if n.kind in ("cbc", "swrite", "sput", "xsave")}
        good = ret.id not in r.reach(r.start().id, avoid=data)
        rep.judge("dest-written", good, short(q), at(ret), "a successful path writes nothing", q)
        for s, ns in evs.items():
            ids = {n.id for n in ns}
            desc = describe(s)
            for n in ns:
                if n.kind == "sflush" or n.kind == "sclose":
                    pass
                others = ids - {n.id}
                if ret.id not in r.reach(n.id, avoid=others):
                    continue
                key = "%s:%s" % (short(q), desc)
                if sink_kind(s) == "buf":
                    rep.judge("layer-flushed", n.kind == "sflush", key, at(n), "data written to %s is not flushed" % desc,
                              desc)
                else:
                    rep.judge("sink-closed", n.kind in ("sflush", "sclose"), key, at(n),
                              "write errors of %s after this point are lost" % desc, desc)
                # checked
                ok = None
                region = r.reach(n.id, avoid=others)
                for m in region:
                    t = r.nodes[m]
                    if t.kind == "throw" and not t.extra.get("implicit") and ver_fact(
                            t.facts, T("ev", n.id), False, n.kind != "sclose"):      # closing only sets the failbit
                        extra = [x for x in t.facts - n.facts if not mentions_stream(x, s, n.id)]
                        ok = True if not extra else (ok or None)
                        if extra and ok is None:
                            ok = "cond"
                if ok is None:
                    rep.bad("write-checked", key, at(n), "the state of %s after its last %s is never checked" %
                            (desc, n.kind))
                elif ok == "cond":
                    rep.bad("write-checked", key, at(n), "the state of %s is checked only under a further condition" % desc)
                else:
                    rep.ok("write-checked", at(n), desc)
            # layers
            for low in below(s):
                flushes = {n.id for n in evs.get(low, ()) if n.kind == "sflush"}
                for n in ns:
                    if n.kind != "sflush":
                        continue
                    if low in evs:
                        good = ret.id not in r.reach(n.id, avoid=flushes)
                        rep.judge("layer-order", good, "%s:%s-before-%s" % (short(q), desc, describe(low)), at(n),
                                  "no flush of %s after this flush of %s" % (describe(low), desc), desc)
                    elif sink_kind(low) == "mem":
                        users = {m.id for m in r.nodes.values() if m.kind in ("cbc", "srest") and m.args[0] is low}
                        rets = {m for m in users}
                        if not users:
                            # the content may be taken with str()
                            continue
                        good = ret.id not in r.reach(n.id, avoid=rets)
                        if len(n.loops) > 0:
                            good = any(m in r.reach(n.id) for m in rets)
                        rep.judge("layer-order", good, "%s:%s-content" % (short(q), desc), at(n),
                                  "content of %s is not transferred after the final flush" % desc, desc)
                        early = [u for u in users if n.id in r.reach(u) and not shares_loop(r, u, n.id)]
                        if early:
                            rep.bad("layer-order", "%s:%s-early" % (short(q), desc), at(r.nodes[early[0]]),
                                    "content of %s is transferred before it was flushed" % desc)
    bufs = [f for f in entry_roots(c) if f["c"].virt and f["n"].split("::")[-1] in ("sync", "overflow")
            and f["c"].cls is not None and f["c"].cls.repo]
    for f in bufs:
        r = c.run(f)
        sws = [n for n in r.nodes.values() if n.kind in ("swrite", "sput")]
        if not sws:
            continue
        ret = r.ret()
        al = flat_alts(r.v)
        rep.counts["stream_buffer_functions"] += 1
        for n in sws:
            others = {m.id for m in sws if m is not n and m.args[0] is n.args[0]}
            if ret is None or ret.id not in r.reach(n.id, avoid=others | {n.id}):
                continue
            ev = T("ev", n.id)
            key = "%s" % short(f["n"])
            fails = [v for g, v in al if ver_fact(g, ev, False)]
            thr = [t for t in r.by("throw") if ver_fact(t.facts, ev, False) or
                   any(ver_fact(g, ev, False) for x in t.facts for g, v in flat_alts(x) if v is not FALSE)]
            mention = any(ev in set(subterms(x)) for g, v in al for x in g)
            if fails:
                rep.judge("status-returned", bool(thr) or all(isint(v, -1) for v in fails), key, at(n),
                          "a failed write is not reported (returns %s)" % show(fails[0], 3), f["n"])
            elif thr:
                rep.ok("status-returned", at(n), f["n"])
            elif mention:
                rep.und("status-returned", at(n), "status flows into the result in an unrecognised way")
            else:
                rep.bad("status-returned", key, at(n), "the state of the underlying stream does not influence the result")


def shares_loop(r, a, b):
    return bool(set(r.nodes[a].loops) & set(r.nodes[b].loops))


def mentions_stream(x, s, ev):
    for t in subterms(x):
        if t is s or (t.op == "ev" and t.args[0] == ev):
            return True
    return False


def describe(s):
    if s.op != "sid":
        return "stream"
    c = s.args[2]
    if c.op == "file":
        return "file(%s)" % show(c.args[0], 3)
    if c.op == "via":
        b = c.args[0]
        return b.args[0].split("::")[-1] if b.op == "sbuf" else "buffered stream"
    return s.args[1]


def flat_alts(v, g=frozenset(), depth=0):
    """Alternatives with their complete guards (nested phis resolved)."""
    if v.op == "phi" and depth < 6:
        out = []
        for g2, x in v.args[0]:
            if contradictory(g | g2):
                continue
            out += flat_alts(x, g | g2, depth + 1)
        return out
    return [(g, v)]


def contradictory(g):
    return any(f.op == "not" and f.args[0] in g for f in g) or FALSE in g


# ---------------------------------------------------------------------------
# std::ios_base::openmode in libstdc++
APP, IN, TRUNC = 1, 8, 32


def dest_truncated(r, o, rep, what):
    """P08: a file opened for writing starts out empty."""
    mode = o.args[1] if len(o.args) > 1 else None
    vals = [v for _, v in flat_alts(mode)] if mode is not None else []
    if mode is None:
        vals = [T("int", 16 if o.name == "ofstream" else 24)]
    good = True
    for v in vals:
        v = strip_casts(v)
        if v.op != "int":
            good = None if good else good
            continue
        m = v.args[0]
        if m & APP or m & IN and not m & TRUNC:
            good = False
    rep.judge("dest-truncated", good, "%s:%s" % (what, show(o.args[0], 3)), at(o),
              "the destination is opened without being truncated, so bytes of an earlier file stay in it", what)


def not_swallowed(r, ret, rep, rule, what):
    """An exception caught inside an operation does not end in its normal return.  A handler that records the failure
    in a flag which is tested afterwards leaves a fact with a constant false alternative at the return."""
    n = 0
    for h in r.by("catch"):
        n += 1
        good = ret.id not in r.reach(h.id)
        if not good:
            flag = [x for x in ret.facts if x.op == "phi" and any(v.op == "int" and not v.args[0] for _, v in flat_alts(x))]
            flag += [x for x in ret.facts if x.op == "not" and x.args[0].op == "phi" and
                     any(v.op == "int" and v.args[0] for _, v in flat_alts(x.args[0]))]
            if flag or not any(x.startswith("keepass::") or x == "..." for x in h.extra.get("types", ())):
                good = None         # (a lookup that reports absence by an exception is no failure)
        rep.judge(rule, good, "%s:%s" % (what, ",".join(sorted(short(t) for t in h.extra.get("types", ())))), at(h),
                  "an exception (%s) caught here can end in a normal return" %
                  ", ".join(sorted(short(t) for t in h.extra.get("types", ()))), at(h))
    if not n:
        rep.ok(rule, "no handler", what)


def dest_late(c, rep):
    """P09"""
    rep.rule("open-late", "after the destination of an export has been opened, only failures of the destination itself "
             "can still end the export")
    rep.rule("open-dest-only", "the only file an export opens for writing is the one named by the caller")
    rep.rule("open-failed", "an export whose destination cannot be opened throws IoError and touches nothing further")
    rep.rule("import-readonly", "no import opens a file for writing")
    for q in EXPORTS:
        r = c.root(q)
        opens = [n for n in r.by("open") if n.name in ("ofstream", "fstream")]
        if not opens:
            rep.bad("open-dest-only", short(q) + ":none", q, "the export never opens its destination")
        for o in opens:
            good = o.args[0].op == "par" or (o.args[0].op == "lv")
            if o.args[0].op == "par":
                g = True
            else:
                g = None if not any(t.op == "par" and t.args[0] == "path" for t in subterms(o.args[0])) else False
                if not any(t.op == "par" for t in subterms(o.args[0])):
                    g = False
            rep.judge("open-dest-only", g, short(q) + ":" + show(o.args[0], 3), at(o),
                      "opens %s for writing" % show(o.args[0], 4), q)
            sid = T("sid", T("ev", o.id), o.name, T("file", o.args[0]))
            after = r.reach(o.id)
            evs = {n.id for n in r.nodes.values() if n.kind in WRITE and sid_of(n) is sid}
            nthrow = 0
            for m in after:
                n = r.nodes[m]
                if n.kind == "assert" and not justified_assert(c, r, n)[0]:
                    rep.und("open-late", at(n), "assertion after the destination was opened")
                if n.kind != "throw":
                    continue
                nthrow += 1
                new = n.facts - o.facts
                dep = any(dest_dep(x, sid, evs | {o.id}) for x in new)
                if n.extra.get("implicit"):
                    pred = [r.nodes[p] for p in n.preds if p in r.nodes]
                    dep = dep or any(p.kind == "throw" or (p.kind == "cbc" and p.args[1] is sid) for p in pred)
                caught = escapes(r, n)
                if caught is False:
                    continue
                rep.judge("open-late", dep, "%s:%s@%s" % (short(q), short(n.name), n.stack[-1][0].split("::")[-1]), at(n),
                          "%s can be thrown after the destination was opened (and truncated), for a reason other than "
                          "the destination" % short(n.name), at(n))
            rep.counts["throws_after_open"] += nthrow
            # failed open
            bad = mk_not(T("isopen", sid))
            thr = [n for n in r.by("throw") if bad in n.facts or ver_fact(n.facts, T("ev", o.id), False)]
            thr = [n for n in thr if n.id in after]
            if not thr:
                rep.bad("open-failed", short(q) + ":unchecked", at(o), "a failed open of the destination is not reported")
            for n in thr:
                io = "keepass::IoError" in c.P.bases_of(n.name)
                rep.judge("open-failed", io, short(q) + ":type", at(n), "failed open reported as " + n.name, q)
            for m in evs:
                n = r.nodes[m]
                ok = T("isopen", sid) in n.facts or ver_fact(n.facts, T("ev", o.id), True)
                rep.judge("open-failed", ok, short(q) + ":use", at(n), "destination used although opening it may have failed",
                          at(n))
    for q in IMPORTS:
        r = c.root(q)
        w = [n for n in r.by("open") if n.name in ("ofstream", "fstream")]
        rep.judge("import-readonly", not w, short(q), at(w[0]) if w else q, "import opens a file for writing", q)


def dest_dep(x, sid, evs):
    """The fact says that an operation on the destination failed."""
    if x.op in ("good", "isopen") or (x.op == "truthy" and x.args[0].op in ("good", "isopen")):
        return False
    for t in subterms(x):
        if t is sid:
            return True
        if t.op in ("good", "fail", "bad", "eof", "rdstate") and any(
                y.op == "ev" and y.args[0] in evs for y in subterms(t)):
            return True
    return False


def escapes(r, n):
    """False when the exception raised here is provably handled inside the function."""
    for s, name, v in r.thrown:
        if name == n.name and n.id in s.preds:
            return True
    # the throw state may have been joined; look for a catch among the successors
    for m in r.succ[n.id]:
        if r.nodes[m].kind == "catch":
            return False
    return True


# ---------------------------------------------------------------------------
TAINT = ("rd", "get", "rest", "rdfmt", "rdline", "xval", "xvald", "xas", "xa", "exists", "tell", "eof", "sstr", "strpok",
         "strp", "stoi", "b64d", "b64do", "gcount", "par", "peek", "isopen", "good", "fail", "xname", "fld", "peekit",
         "self", "lphi", "mapval", "has", "rec", "zout", "xres", "ctype")


def interval(t, ctx=None):
    """Conservative [lo, hi] of an integer term, None for unbounded."""
    if t.op == "int":
        return t.args[0], t.args[0]
    if t.op == "cast":
        lo, hi = interval(t.args[1], ctx)
        ty = t.args[0]
        if lo is not None and hi is not None and ty and ty != "f":
            w = int(ty[1:])
            mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if ty[0] == "s" else (0, (1 << w) - 1)
            if mn <= lo and hi <= mx:
                return lo, hi
            return mn, mx
        if ty and ty[0] == "u":
            return 0, (1 << int(ty[1:])) - 1
        return None, None
    if t.op == "gcount":
        v = t.args[0]
        if v.op == "ev" and ctx is not None and v.args[0] in ctx.nodes:
            n = ctx.nodes[v.args[0]]
            if n.kind == "sread" and n.args[1].op == "int":
                return 0, n.args[1].args[0]
            if n.kind == "srest":
                return 0, None
        return 0, None
    if t.op == "size":
        return 0, None
    if t.op == "phi":
        ls = [interval(v, ctx) for g, v in t.args[0]]
        lo = None if any(l is None for l, h in ls) else min(l for l, h in ls)
        hi = None if any(h is None for l, h in ls) else max(h for l, h in ls)
        return lo, hi
    if t.op == "bin":
        op, a, b = t.args[0], t.args[1], t.args[2]
        al, ah = interval(a, ctx)
        bl, bh = interval(b, ctx)
        if op == "%" and bl is not None and bl == bh and bl > 0 and al is not None and al >= 0:
            return 0, bl - 1
        if op == "&" and b.op == "int" and b.args[0] >= 0:
            return 0, b.args[0]
        if op == "+" and None not in (al, bl):
            return al + bl, (ah + bh) if None not in (ah, bh) else None
        if op == "-" and None not in (al, bh):
            lo = al - bh
            if lo >= 0 or (t.args[3] or "s")[0] == "s":
                return lo, (ah - bl) if None not in (ah, bl) else None
    return None, None


def conjuncts(x):
    if x.op == "and":
        return conjuncts(x.args[0]) + conjuncts(x.args[1])
    return [x]


def solved(f, ctx):
    """Equality fact -> (term, value) after moving constants to one side."""
    a, b = f.args
    if a.op != "int":
        a, b = b, a
    if a.op != "int":
        return None
    k = a.args[0]
    for _ in range(6):
        if b.op == "cast":
            lo, hi = interval(b.args[1], ctx)
            ty = b.args[0]
            if lo is None or hi is None or not ty or ty == "f":
                if k >= 0 and b.args[1].op == "gcount":
                    b = b.args[1]
                    continue
                break
            w = int(ty[1:])
            mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if ty[0] == "s" else (0, (1 << w) - 1)
            if not (mn <= lo and hi <= mx):
                # a wrapped value still determines the argument when the argument's range is narrower
                if hi - lo >= (1 << w):
                    break
                k2 = lo + ((k - lo) % (1 << w))
                if k2 > hi:
                    return b, k
                k = k2
            b = b.args[1]
            continue
        if b.op == "bin" and b.args[0] in ("+", "-"):
            p, q = b.args[1], b.args[2]
            if q.op == "int":
                k = k - q.args[0] if b.args[0] == "+" else k + q.args[0]
                b = p
                continue
            if p.op == "int":
                k = k - p.args[0] if b.args[0] == "+" else p.args[0] - k
                b = q
                continue
        break
    return b, k


def refuted(facts, ctx, depth=0):
    """True when the facts contradict interval knowledge."""
    if depth < 3:
        for f in facts:
            if f.op == "or":
                if all(refuted((facts - {f}) | set(conjuncts(d)), ctx, depth + 1) for d in disjuncts(f)):
                    return True
    rng = {}
    pos = [solved(f, ctx) for f in facts if f.op == "eq"]
    neg = [solved(f.args[0], ctx) for f in facts if f.op == "not" and f.args[0].op == "eq"]
    if any(p is not None and p in neg for p in pos):
        return True

    def get(t):
        if t not in rng:
            rng[t] = list(interval(t, ctx))
        return rng[t]
    for f in facts:
        neg = f.op == "not"
        x = f.args[0] if neg else f
        if x.op == "lt":
            a, b = x.args
            al, ah = get(a)
            bl, bh = get(b)
            if not neg:                 # a < b
                if al is not None and bh is not None and al >= bh:
                    return True
            else:                       # a >= b
                if ah is not None and bl is not None and ah < bl:
                    return True
        if x.op == "eq" and not neg:
            al, ah = get(x.args[0])
            bl, bh = get(x.args[1])
            if (ah is not None and bl is not None and ah < bl) or (al is not None and bh is not None and bh < al):
                return True
        if x.op == "eq" and neg:
            al, ah = get(x.args[0])
            bl, bh = get(x.args[1])
            if None not in (al, ah, bl, bh) and al == ah == bl == bh:
                return True
    return False


def fail_alts(cond):
    """Guards under which the asserted condition is false."""
    out = []
    for g, v in flat_alts(cond):
        if v is TRUE:
            continue
        out.append(g if v is FALSE else g | {mk_not(v)})
    return out


def enum_exhausted(c, r, facts):
    """Facts exclude every enumerator of an enumeration valued model attribute."""
    neg = {}
    for f in facts:
        if f.op == "not" and f.args[0].op == "eq":
            a, b = f.args[0].args
            if a.op == "int":
                a, b = b, a
            if b.op == "int":
                neg.setdefault(a, set()).add(b.args[0])
    for t, vals in neg.items():
        x = t
        while x.op == "cast":
            x = x.args[1]
        ty = None
        if x.op == "fld":
            for rec in c.P.records.values():
                for fd in rec["fields"]:
                    if fd["n"] == x.args[1] and fd["t"].k == "enum" and fd["t"].enums:
                        ty = fd["t"]
                        if {e[1] if isinstance(e, (list, tuple)) else e for e in enum_vals(ty)} <= vals:
                            return True
        if x.op == "par":
            for p in r.f["ps"]:
                pt = p["t"].strip()
                if p["n"] == x.args[0] and pt.k == "enum" and pt.enums and enum_vals(pt) <= vals:
                    return True
    return False


def enum_vals(ty):
    out = set()
    for e in ty.enums or ():
        if isinstance(e, dict):
            out.add(e.get("v"))
        elif isinstance(e, (list, tuple)):
            out.add(e[1])
        else:
            out.add(e)
    return out


def full_copy_loop(r, cond):
    """size(content of a private string stream) == n, where the stream is filled by a loop that runs n times and puts
    exactly one character per iteration."""
    if cond.op != "eq":
        return False
    for a, b in (cond.args, cond.args[::-1]):
        if a.op == "size" and a.args[0].op == "sstr":
            sid = a.args[0].args[0]
            ws = [n for n in r.nodes.values() if n.kind in ("swrite", "sput", "xsave") and n.args[0] is sid]
            cbcs = [n for n in r.nodes.values() if n.kind == "cbc" and n.args[1] is sid]
            if len(ws) == 1 and not cbcs and ws[0].kind == "sput" and ws[0].loops:
                L = r.I.loops.get(ws[0].loops[-1])
                if L is not None and L.kind == "gen" and L.complete and L.cont is not None:
                    n = L.cont
                    while n.op == "cast":
                        n = n.args[1]
                    m = b
                    while m.op == "cast":
                        m = m.args[1]
                    if n is m:
                        return True
    return False


def fixed_array_stream(r, facts):
    """The condition reads from a stream over a fixed-size array whose size is a multiple of the block size."""
    for f in facts:
        for t in subterms(f):
            if t.op == "gcount" and t.args[0].op == "ev":
                n = r.nodes.get(t.args[0].args[0])
                if n is not None and n.kind == "sread":
                    c = n.args[0]
                    if c.op == "sid" and c.args[2].op == "via":
                        return True
    return False


def justified_assert(c, r, n):
    """(discharged, reason)"""
    cd = n.extra.get("cond")
    facts = n.facts
    if enum_exhausted(c, r, facts):
        return True, "all enumerators handled"
    if refuted(facts, r):
        return True, "interval contradiction"
    if cd is None:
        return None, "aborting call"
    cond, base = cd
    fa = fail_alts(cond)
    if not fa:
        return True, "always true"
    if cond is not FALSE and all(refuted(g | base, r) for g in fa):
        return True, "interval contradiction"
    if cond is not FALSE and all(refuted_by_members(c, r, g | base | facts) for g in fa):
        return True, "member value set"
    if full_copy_loop(r, cond):
        return True, "exact copy loop"
    return False, ""


CONTRACT = ("zres", "zo")


def no_abort(c, rep):
    """P12"""
    rep.rule("no-abort", "no assertion or process abort can fail on a condition that depends on file content or on the "
             "database passed in")
    seen = set()
    for f in entry_roots(c):
        r = c.run(f)
        rep.counts["entry_points"] += 1
        for n in r.by("assert"):
            cd = n.extra.get("cond")
            k = (n.file, n.line, f["n"])
            if k in seen:
                continue
            seen.add(k)
            rep.counts["assertion_sites"] += 1
            where = "%s (from %s)" % (at(n), short(f["n"]))
            good, why = justified_assert(c, r, n)
            if good:
                rep.ok("no-abort", where, why)
                continue
            # the condition itself and, for literal assert(false), the branch conditions leading to it
            terms = set()
            if cd is not None and cd[0] is not FALSE:
                for g in fail_alts(cd[0]):
                    terms |= g - n_base(cd)
            else:
                terms = set(n.facts)
            ts = set()
            for x in terms:
                ts.update(subterms(x))
            ops = {t.op for t in ts}
            if ops & set(CONTRACT):
                rep.ok("no-abort", where, "zlib contract")
                continue
            if f["n"].split("::")[-1] == "overflow" and f["c"].virt and all(
                    contract_char(x) for x in terms):
                rep.ok("no-abort", where, "streambuf contract: the argument is EOF or a character")
                continue
            if f["n"].split("::")[-1] in ("seekoff", "seekpos") and f["c"].virt:
                rep.ok("no-abort", where, "streambuf contract: direction and mode are valid")
                continue
            if fixed_array_stream(r, terms):
                rep.ok("no-abort", where, "fixed-size array stream")
                continue
            if ops & set(TAINT):
                key = "%s:%s" % (n.stack[-1][0].split("::")[-1], show(cd[0], 4) if cd and cd[0] is not FALSE else "abort")
                rep.bad("no-abort", stable(key), where,
                        "the process aborts when the input violates the asserted condition %s" %
                        (show(cd[0], 5) if cd else n.name))
            else:
                rep.ok("no-abort", where, "independent of inputs")


def n_base(cd):
    return cd[1]


def contract_char(x):
    ts = {t.op for t in subterms(x)}
    return ts <= {"not", "lt", "eq", "int", "par", "cast", "size", "vec", "fld", "self", "lv", "deref"}


def stable(s):
    import re
    return re.sub(r"ev\(\d+\)|i\(\d+\)|lphi\(\d+", lambda m: m.group(0).split("(")[0] + "(", s).replace(" ", "")[:120]


# ---------------------------------------------------------------------------
def exceptions(c, rep):
    """P11"""
    rep.rule("exception-type", "every exception leaving an operation is one of the library's documented types")
    rep.rule("missing-file", "opening a file that does not exist ends in FileNotFoundError, before anything is read")
    ops = list(IMPORTS + EXPORTS) + ["keepass::Key::SetKeyFile", "keepass::Key::SetPassword", "keepass::Key::Transform",
                                     "keepass::base64_decode", "keepass::decrypt_cbc", "keepass::encrypt_cbc"]
    for q in ops:
        fs = c.find(q)
        if not fs:
            if q in IMPORTS + EXPORTS:
                raise AnalysisError("entry point not found: " + q)
            continue
        for f in fs:
            r = c.run(f)
            rep.counts["operations"] += 1
            seen = set()
            for s, name, v in r.thrown:
                locs = [r.nodes[p] for p in s.preds if p in r.nodes]
                loc = locs[0] if locs else None
                k = (name, at(loc) if loc else "")
                if k in seen:
                    continue
                seen.add(k)
                if name == "...":
                    rep.und("exception-type", at(loc) if loc else q, "rethrow of an unknown exception")
                    continue
                if q.endswith("base64_decode") and name == "std::out_of_range":
                    # raised by the caller's own bounds checked destination
                    rep.ok("exception-type", at(loc), "destination bounds, decided in the callers")
                    continue
                if name == "std::out_of_range" and name not in LIB_EXC and loc is not None:
                    # checked element access: cannot fail, or the bound is carried around a loop
                    if refuted(loc.facts, r):
                        rep.ok("exception-type", at(loc), "element access cannot fail")
                        continue
                    cd = loc.extra.get("cond")
                    cds = loc.facts if cd is None else [cd]
                    if any(x.op == "lphi" for y in cds if y.op == "not" and y.args[0].op == "lt" for x in subterms(y)):
                        rep.und("exception-type", at(loc), "bound of a checked element access not decided")
                        continue
                rep.judge("exception-type", name in LIB_EXC, "%s:%s@%s" % (short(q), name, loc.stack[-1][0].split("::")[-1]
                                                                          if loc else ""),
                          at(loc) if loc else q, "%s escapes from %s" % (name, short(q)), name)
    for q in list(IMPORTS) + ["keepass::Key::SetKeyFile"]:
        r = c.root(q)
        opens = [n for n in r.by("open") if n.name == "ifstream"]
        if not opens:
            rep.und("missing-file", q, "no file is opened")
        for o in opens:
            sid = T("sid", T("ev", o.id), o.name, T("file", o.args[0]))
            no = mk_not(T("isopen", sid))
            thr = [n for n in r.by("throw") if no in n.facts or ver_fact(n.facts, T("ev", o.id), False)]
            if not thr:
                rep.bad("missing-file", short(q) + ":unchecked", at(o), "a missing file is not reported")
                continue
            for n in thr:
                rep.judge("missing-file", n.name == "keepass::FileNotFoundError", short(q) + ":type", at(n),
                          "a missing file is reported as " + n.name, q)
            for n in r.nodes.values():
                if n.kind in ("sread", "sget", "srest", "xload", "cbc", "sseek") and any(a is sid for a in n.args):
                    ok = T("isopen", sid) in n.facts or ver_fact(n.facts, T("ev", o.id), True)
                    rep.judge("missing-file", ok, short(q) + ":use", at(n), "the file is read although opening it may have "
                              "failed", at(n))


# ---------------------------------------------------------------------------
def null_safe(c, rep):
    """P13"""
    rep.rule("null-checked", "every pointer that may legitimately be empty in the data model, or that a lookup may fail to "
             "produce, is tested on every path before it is dereferenced")
    seen = set()
    for f in entry_roots(c):
        if not f["n"].startswith("keepass::"):
            continue
        r = c.run(f)
        n_d = 0
        for d in r.I.derefs.values():
            p = d["p"]
            k = (d["loc"], p, f["n"])
            if k in seen:
                continue
            seen.add(k)
            why = nonnull(r, p, d["facts"])
            where = "%s:%s" % d["loc"]
            if why is True:
                n_d += 1
                rep.ok("null-checked", where, show(p, 3))
            elif why is None:
                rep.counts["assumed_nonnull"] += 1
            else:
                rep.bad("null-checked", "%s:%s" % (short(d["stack"][-1][0]).split("::")[-1], stable(show(p, 4))),
                        "%s (from %s)" % (where, short(f["n"])),
                        "%s may be empty here: no test of it holds on every path" % show(p, 5))


# pointers the model allows to be empty
def nonnull(r, p, facts, depth=0):
    """True: tested or non-null by construction; None: outside the rule; False: may be empty."""
    if truthy(p) in facts or truthy(p) is TRUE:
        return True
    if p.op == "lock":
        # locking a live pool object: non-empty when the weak pointer was tested
        q = p.args[0]
        return True if truthy(q) in facts else False
    if p.op == "null":
        return False
    if p.op in ("fld",):
        return False if p.args[1] not in INTERNAL_PTR and ptr_field(r, p) else None
    if p.op == "mapval":
        m, k = p.args
        x = m
        if T("has", m, k) in facts:
            return True
        # the container may have been re-read through the same key after the test
        for f in facts:
            if f.op == "has" and f.args[1] is k:
                return True
        return False
    if p.op in ("localtime", "phi", "many"):
        bad = None
        for g, v in alts(p):
            x = nonnull(r, v, facts | g, depth + 1)
            if x is False:
                return False
        return None
    return None


INTERNAL_PTR = ("$gptr", "$egptr", "$eback", "next_in", "next_out", "container_")


def ptr_field(r, p):
    """Is p a smart pointer data member of a model class."""
    for rec in r.ctx.P.records.values():
        for fd in rec["fields"]:
            if fd["n"] == p.args[1]:
                s = fd["t"].s
                if "shared_ptr" in s or "weak_ptr" in s or "unique_ptr" in s:
                    return True
    return False


# ---------------------------------------------------------------------------
def initialised(c, rep):
    """P19"""
    rep.rule("no-uninitialised", "no branch, written byte, hashed byte or formatted value depends on storage that was never "
             "given a value")
    rep.rule("model-initialised", "every data member of a scalar or array type in the object model has a value after "
             "construction")
    seen = set()
    for f in entry_roots(c):
        r = c.run(f)
        rep.counts["entry_points"] += 1
        k0 = sum(1 for n in r.nodes.values() if n.kind in ("swrite", "sput", "time"))
        rep.oks["no-uninitialised"] += k0
        for d in r.I.conds.get("undef", {}).values():
            k = (d["loc"], d["why"])
            if k in seen:
                continue
            seen.add(k)
            rep.bad("no-uninitialised", "%s:%s" % (short(d["fn"]).split("::")[-1], d["why"]), "%s:%s" % d["loc"],
                    "uninitialised storage is used (%s): %s" % (d["why"], show(d["v"], 4)))
    # constructors of model classes
    P = c.P
    model = model_classes(P)
    rep.counts["model_classes"] = len(model)
    for rec in P.records.values():
        n = rec["n"]
        if n not in model or rec.get("lambda") or not rec["fields"]:
            continue
        ctors = [m["c"] for m in rec["methods"] if m["c"].ctor and not m["c"].copy and not m["c"].move
                 and m["c"].id in P.funcs]
        if not ctors:
            continue
        for mc in ctors:
            r = c.run(P.funcs[mc.id])
            if r.S is None:
                continue
            v = r.I.S
            from .terms import LV
            obj = LV(T("self", P.funcs[mc.id]["rec"]))
            r.I.S = r.S
            for fd in rec["fields"]:
                t = fd["t"]
                if t.k in ("int", "bool", "enum", "float", "ptr") or is_std_array(t):
                    x = r.I.read(sub(obj, fd["n"]))
                    un = x.op == "undef" or (x.op == "fld" and x.args[0].op == "self")
                    if un and is_std_array(t) and n in BUFFER_CLASSES:
                        continue
                    rep.judge("model-initialised", not un, "%s::%s" % (short(n), fd["n"]), "%s" % short(n),
                              "member %s has no value after construction" % fd["n"], "%s::%s" % (n, fd["n"]))


def model_classes(P):
    """Classes reachable from the database object through data members."""
    out = set()
    todo = ["keepass::Database", "keepass::Key"]

    def names(t, acc, depth=0):
        if t is None or depth > 6 or not hasattr(t, "s"):
            return
        for x in (t.n, t.r):
            if isinstance(x, str):
                acc.add(x)
        if t.p is not None:
            names(t.p, acc, depth + 1)
        for a in t.args or ():
            names(a, acc, depth + 1)
    while todo:
        n = todo.pop()
        if n in out:
            continue
        rec = P.record(n)
        if rec is None or rec["n"] in out:
            continue
        out.add(rec["n"])
        acc = set()
        for fd in rec["fields"]:
            names(fd["t"], acc)
        for b in rec["bases"]:
            names(b, acc)
        todo += [x for x in acc if x.startswith("keepass::")]
    return out


def is_std_array(t):
    return t.s.startswith(("std::array", "array<")) or str(t.n or "").startswith("std::array")


# pure I/O scratch buffers: contents are only read up to the count just produced
BUFFER_CLASSES = ("keepass::gzip_istreambuf", "keepass::gzip_ostreambuf", "keepass::hashed_basic_streambuf",
                  "keepass::AesCipher", "keepass::TwofishCipher", "keepass::Salsa20Cipher")

# ---------------------------------------------------------------------------
NONREENTRANT = ("localtime", "gmtime", "ctime", "asctime", "strtok", "rand", "srand", "setlocale", "setenv", "putenv",
                "unsetenv", "tmpnam", "strerror", "tzset", "random", "srandom")


def written_global(P, g):
    """Is some use of the variable other than reading (an element of) it."""
    hit = []

    def walk(x, reading):
        if isinstance(x, list):
            for y in x:
                walk(y, False)
        elif isinstance(x, dict):
            k = x.get("k")
            if k == "glob" and x.get("g") == g:
                if not reading:
                    hit.append(x)
                return
            a = x.get("a")
            if k == "load" and a:
                walk(a[0], True)
                return
            if reading and k in ("sub", "decay", "bcast", "cast") and a:
                walk(a[0], True)
                for y in a[1:]:
                    walk(y, False)
                return
            if k in ("call",) and isinstance(x.get("o"), dict) and getattr(x.get("c"), "cm", False):
                walk(x["o"], True)
                walk(a, False)
                return
            for v in x.values():
                if isinstance(v, (dict, list)):
                    walk(v, False)
    for f in P.funcs.values():
        walk(f.get("body"), False)
        walk(f.get("inits"), False)
    return bool(hit)


def no_shared_state(c, rep):
    """P16"""
    rep.rule("no-mutable-static", "no variable with static storage duration is modifiable")
    rep.rule("reentrant-libc", "no library function with hidden process-wide state is called")
    P = c.P
    for g, G in sorted(P.globals.items()):
        f = G.get("file", "")
        t = G["t"]
        const = bool(t.const or G.get("constexpr") or (t.k == "arr" and (t.const or "const " in t.s)) or t.s.startswith("const "))
        if g.startswith("std::") or not G.get("repo", True):
            continue
        if not const and not written_global(P, g):
            rep.ok("no-mutable-static", g, "only ever read")
            continue
        rep.judge("no-mutable-static", const, g, "%s:%s" % (f, G.get("line", "")),
                  "%s is shared mutable state" % g, g)
    bad = set(NONREENTRANT)
    n = 0

    def walk(x, f):
        nonlocal n
        if isinstance(x, list):
            for y in x:
                walk(y, f)
        elif isinstance(x, dict):
            cc = x.get("c")
            if cc is not None and hasattr(cc, "q") and x.get("k") in ("call", "fn"):
                n += 1
                nm = cc.q[5:] if cc.q.startswith("std::") else cc.q
                if nm in bad:
                    rep.bad("reentrant-libc", "%s:%s" % (short(f["n"]).split("::")[-1], nm),
                            "%s:%s" % (f["file"].split("/")[-1], x.get("l", f["line"])),
                            "%s keeps its result in process-wide storage" % nm)
            for v in x.values():
                if isinstance(v, (dict, list)):
                    walk(v, f)
    for f in P.funcs.values():
        walk(f.get("body"), f)
        walk(f.get("inits"), f)
    rep.oks["reentrant-libc"] += n
