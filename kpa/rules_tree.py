"""KDB group tree (P24) and stored counts and sizes (P23)."""
import collections
import re

from . import rules_crypto as C
from . import rules_kdb as K
from . import rules_stream as S
from . import wire
from .canon import *
from .core import Report, at
from .decide import evalnum, numleaves
from .rules_flow import flat_alts, interval, short
from .rules_zip import methods, possible, stream_classes, value_of
from .terms import *

EXPORT, IMPORT = K.EXPORT, K.IMPORT
GROUP, ENTRY = "keepass::Group", "keepass::Entry"


class Undef(Exception):
    pass


class Tags(dict):
    """Term -> (class, tag), a join having the tag all its alternatives have."""

    def get(self, t, default=None):
        k = dict.get(self, t)
        if k is None and isinstance(t, Term) and t.op == "phi":
            ks = {self.get(K.strip(v)) for _, v in flat_alts(t)}
            k = ks.pop() if len(ks) == 1 else None
        return default if k is None else k


def local_tags(kd):
    """Loop-carried locals of the import that hold a field which is no attribute: lphi -> (class, tag)."""
    out = Tags()
    r = kd.Rd.r
    for l, (e, b) in r.I.lphi.items():
        if b is None:
            continue
        for g, x in flatten(r.I, b):
            x = K.strip(x)
            if x.op != "rd":
                continue
            ev = wire.ev_of(x)
            tg = kd.Rd.tags.get(ev.args[0]) if ev is not None else None
            if tg is not None and tg[0] in kd.Rd.tagev and l.args[1].op == "lv" and l.args[1].args[0].op == "var":
                out[l] = out[x] = (kd.Rd.tagev[tg[0]], tg[1])
    return out


def components_of(I, t):
    """Values a component of a list element can have: at(list, i).k from what is appended to the list."""
    t = strip_casts(t)
    path = []
    while t.op == "fld":
        path.append(t.args[1])
        t = t.args[0]
    if t.op != "at":
        return [t] if not path else []
    out = []
    for v in appended(I, t.args[0]):
        for k in reversed(path):
            v = fld_of(v, k)
        if v is not None:
            out.append(strip_casts(v))
    return out


def fld_of(v, k):
    if v is None:
        return None
    if v.op == "struct":
        return dict(v.args[2]).get(k)
    return T("fld", v, k)


def appended(I, t):
    """Elements appended to a loop-carried list."""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "lphi":
            todo += [y for y in I.lphi.get(x, ()) if y is not None]
        elif x.op == "vec":
            todo.append(x.args[0])
            out.append(x.args[1])
        elif x.op in ("phi", "many"):
            todo += [y for g, y in alts(x)]
    return out


def comps(v):
    return [x for k, x in v.args[2]] if v.op == "struct" else [v]


def resolve(I, t):
    """Definitions of a value through loop-carried lists."""
    t = strip_casts(t)
    if t.op in ("fld", "at"):
        c = components_of(I, t)
        if c:
            return c
    return [t]


# ---------------------------------------------------------------------------
# evaluation of the level loop on abstract tables
def ev(t, env):
    """Integer, list or object value of a term."""
    if t in env:
        return env[t]
    o = t.op
    if o == "int":
        return t.args[0]
    if o == "vec":
        return ev(t.args[0], env) + [ev(t.args[1], env)]
    if o == "empty":
        return []
    if o == "resized":
        l, n = ev(t.args[0], env), ev(t.args[1], env)
        return l[:n] + ["null"] * (n - len(l))
    if o == "slice":
        l = ev(t.args[0], env)
        a = [ev(x, env) for x in t.args[1:] if isinstance(x, Term)]
        if len(a) == 2:
            return l[a[0]:a[1]]
        raise Undef("slice")
    if o == "popped":
        return ev(t.args[0], env)[:-1]
    if o == "upd":
        l, k, v = ev(t.args[0], env), t.args[1], ev(t.args[2], env)
        i = ev(k.args[0], env) if isinstance(k, Term) and k.op == "idx" else None
        if not isinstance(i, int):
            raise Undef("index")
        if not 0 <= i < len(l):
            return ["outside"]
        return l[:i] + [v] + l[i + 1:]
    if o == "at":
        l, i = ev(t.args[0], env), ev(t.args[1], env)
        if not isinstance(l, list) or not isinstance(i, int):
            raise Undef(show(t, 3))
        return l[i] if 0 <= i < len(l) else "outside"
    if o == "size":
        return len(ev(t.args[0], env))
    if o == "bin":
        r = mk_bin(t.args[0], INT(ev(t.args[1], env)), INT(ev(t.args[2], env)), t.args[3] if len(t.args) > 3 else None)
        if r.op != "int":
            raise Undef(show(t, 3))
        return r.args[0]
    if o == "cast":
        return wrap(ev(t.args[1], env), t.args[0])
    if o == "eq":
        return int(ev(t.args[0], env) == ev(t.args[1], env))
    if o == "lt":
        return int(ev(t.args[0], env) < ev(t.args[1], env))
    if o == "not":
        return int(not ev(t.args[0], env))
    if o == "and":
        return int(bool(ev(t.args[0], env)) and bool(ev(t.args[1], env)))
    if o == "or":
        return int(bool(ev(t.args[0], env)) or bool(ev(t.args[1], env)))
    if o == "truthy":
        v = ev(t.args[0], env)
        return int(v not in (0, "null"))
    if o == "phi":
        for g, v in t.args[0]:
            if all(holds(x, env) is not False for x in g):
                return ev(v, env)
        raise Undef("no alternative")
    if o == "deref":
        return ev(t.args[0], env)
    raise Undef(show(t, 3))


def holds(f, env):
    """Truth of a fact, None when it is about something else."""
    try:
        return bool(ev(f, env))
    except (Undef, TypeError, KeyError):
        return None


class Level:
    """The loop that hangs the groups read into the tree."""

    def __init__(self, r, pos):
        self.r, self.I = r, r.I
        self.pushes = []
        for n in r.by("push"):
            lv = n.args[0]
            if lv.op != "lv" or lv.args[1][-1:] != ("groups_",) or not n.loops:
                continue
            if lv.args[0].op != "obj":
                continue
            vals = resolve(self.I, n.args[1])
            if not any(v.op == "new" and v.args[1] == GROUP for v in vals):
                continue
            if lv.args[0].args[0].op == "new" and n.args[1].op == "new":
                continue
            self.pushes.append((n, lv.args[0].args[0]))
        self.loops = {n.loops[-1] for n, p in self.pushes}
        self.pos = pos


def level_rule(c, rep, kd, pos, level_key):
    r = kd.Rd.r
    L = Level(r, pos)
    for n in r.by("edit"):
        if n.name.split("::")[-1] == "insert" and len(n.args) == 3 and any(
                y.op == "new" and y.args[1] == GROUP for x in comps(n.args[2]) for y in resolve(r.I, x)):
            rep.bad("tree", "order", at(n), "the groups read are not kept in the order of the file")
    if not L.pushes:
        rep.und("tree", "src/kdb.cc", "no loop found that adds the groups read to other groups")
        return
    if len(L.loops) != 1:
        rep.und("tree", at(L.pushes[0][0]), "groups are added to the tree in several loops")
        return
    loop = list(L.loops)[0]
    lp = r.I.loops.get(loop)
    where = at(L.pushes[0][0])
    # the level of the group being placed
    level = set()
    terms = [p for n, p in L.pushes] + [f for n, p in L.pushes for f in n.facts]
    state = {l: e for l, e in r.I.lphi.items() if l.args[0] == loop and l.args[1].op == "lv" and l.args[1].args[0].op == "var"}
    terms += [e[1] for e in state.values() if e[1] is not None]
    for t in terms:
        for x in subterms(t):
            if x.op in ("fld", "at") and any(pos.get(v) == level_key for v in resolve(r.I, x)):
                level.add(x)
    if len(level) != 1:
        if not level:
            rep.bad("tree", "level-unused", where, "the level read from a group record does not decide where the group is placed")
        else:
            rep.und("tree", where, "several levels per iteration")
        return
    lev = list(level)[0]
    obj = None
    for n, p in L.pushes:
        obj = n.args[1]
    # the group placed and its level come from the same record
    base = lev
    while base.op == "fld":
        base = base.args[0]
    ob = obj
    while ob.op == "fld":
        ob = ob.args[0]
    rep.judge("tree", base is ob, "same-record", where, "the level used (%s) is not the level of the group placed (%s)" %
              (show(lev, 4), show(obj, 4)), "level and group of one record")
    el = base.args[0] if base.op == "at" else None
    if el is not None and lp is not None:
        rep.judge("tree", bool(lp.complete) and not lp.exits, "all-groups", "%s:%s" % (lp.file, lp.line),
                  "the loop that places the groups can stop before all are placed", "all groups are placed, in file order")
    used = {x for t in terms for x in subterms(t) if x in state}
    used |= {x for l in list(used) for x in subterms(state[l][1] or l) if x in state}
    # position in the list of groups
    if base.op == "at":
        used -= {x for x in used if x is strip_casts(base.args[1]) and inc_of(state[x][1], x) == 1 and not outside(
            [p for n, p in L.pushes] + [f for n, p in L.pushes for f in n.facts] +
            [e[1] for l, e in state.items() if l is not x and e[1] is not None], x, base)}
    ints, lists = [], []
    for l in sorted(used, key=lambda x: x.id):
        e = state[l][0]
        (lists if e is not None and e.op in ("vec", "empty", "resized", "repeat") else ints).append(l)
    if len(lists) != 1 or len(ints) > 1 or any(state[l][1] is None for l in lists + ints):
        rep.und("tree", where, "the table of open groups has an unknown form (%s)" % ", ".join(show(l, 3) for l in used))
        return
    tab, last = lists[0], (ints[0] if ints else None)
    throws = [n for n in r.by("throw") if loop in n.loops]
    # initial state
    e0 = state[tab][0]
    try:
        t0 = ev(e0, {x: "root" for x in subterms(e0) if x.op == "new" and x.args[1] == GROUP})
        l0 = ev(state[last][0], {}) if last is not None else 0
    except (Undef, TypeError):
        rep.und("tree", where, "the initial table is not understood")
        return
    rootnew = [x for x in subterms(e0) if x.op == "new" and x.args[1] == GROUP]
    sets = [s for s in r.I.stores.values() if s["lv"].args[1][-1:] == ("root_",) and s["v"].op != "null"]
    if sets and rootnew:
        rep.judge("tree", any(s["v"] in rootnew for s in sets), "root", at(sets[-1]["loc"]),
                  "the root of the database is not the group that holds the top level groups", "root holds the top level")
    fails, why, done = None, None, 0
    for name, extra in (("with stale entries above the current level", (0, 1, 2)), ("of exactly the open groups", (0,))):
        if last is None and extra != (0,):
            continue
        off = 1 if last is None else l0 + len(t0) - 2 * l0      # entries beyond the last level: len = level + off
        off = len(t0) - l0
        bad, und, n = [], None, 0
        ok0 = t0 == ["root"] and off in (1,)
        for deep in range(0, 4):
            for ex in extra:
                for lv_ in list(range(0, deep + 3)) + [65535]:
                    table = ["root"] + ["open%d" % k for k in range(1, deep + 1)] + ["stale%d" % k for k in range(ex)]
                    env = {tab: list(table), lev: lv_, obj: "new"}
                    if last is not None:
                        env[last] = deep
                    n += 1
                    res = step(L, env, throws, state, tab, last, loop)
                    if res is None:
                        und = "level %d after level %d" % (lv_ + 1, deep)
                        continue
                    kind, parent, ntab, nlast = res
                    legal = lv_ <= deep
                    if not legal:
                        if kind != "throw":
                            bad.append(("jump", "a group of level %d after one of level %d is accepted (placed under %s)" %
                                        (lv_, deep - 1, parent)))
                        continue
                    if kind == "throw":
                        bad.append(("refused", "a group of level %d after one of level %d is refused" % (lv_, deep - 1)))
                        continue
                    if parent != table[lv_]:
                        bad.append(("parent", "a group of level %d after one of level %d is placed under %s" % (
                            lv_, deep - 1, {"outside": "an element outside the table"}.get(parent, parent))))
                        continue
                    want = table[:lv_ + 1] + ["new"]
                    nl = nlast if last is not None else len(ntab) - 1
                    if ntab[:lv_ + 2] != want or nl != lv_ + 1 or (extra == (0,) and len(ntab) != lv_ + 2):
                        bad.append(("table", "after a group of level %d (after level %d) the table of open groups is %s, last level %s" %
                                    (lv_, deep - 1, ntab, nl)))
        done = n
        if und and not bad:
            why = und
            continue
        if not bad and ok0:
            fails = []
            break
        if not ok0:
            bad.append(("initial", "the table does not start with the root alone"))
        fails = bad if fails is None or extra != (0,) else fails
        if not bad:
            break
    if fails is None:
        rep.und("tree", where, "placement not evaluated: %s" % why)
        return
    if not fails:
        rep.ok("tree", where, "placement invariant is inductive (%d abstract steps)" % done)
    for k, msg in fails[:3]:
        rep.bad("tree", k, where, msg)


def outside(terms, x, el):
    """x occurs in the terms other than as the index of the element and in comparisons with a size."""
    for t in terms:
        todo = [t]
        while todo:
            y = todo.pop()
            if y is x:
                return True
            if y is el or y.op == "size" or not any(z is x for z in subterms(y)):
                continue
            if y.op in ("lt", "eq", "not") and any(z.op == "size" for z in subterms(y)):
                continue
            todo += [z for z in kids(y)]
    return False


def kids(t):
    out = []
    for a in t.args:
        if isinstance(a, Term):
            out.append(a)
        elif isinstance(a, (tuple, list, frozenset)):
            for b in a:
                if isinstance(b, Term):
                    out.append(b)
                elif isinstance(b, (tuple, list, frozenset)):
                    for d in b:
                        if isinstance(d, Term):
                            out.append(d)
                        elif isinstance(d, frozenset):
                            out += list(d)
    return out


def step(L, env, throws, state, tab, last, loop):
    """One iteration on an abstract table: (kind, parent, table, level)."""
    def applies(n):
        known = [holds(f, env) for f in n.facts]
        return False not in known, [f for f, k in zip(n.facts, known) if k is None]
    try:
        mine = {x for l in (tab, last) if l is not None for x in (l,)}
        for n in throws:
            if not any(x in env for f in n.facts for x in subterms(f)):
                continue
            if applies(n)[0]:
                return "throw", None, None, None
        parents = []
        for n, p in L.pushes:
            if applies(n)[0]:
                for q in value_alts(p, env):
                    parents.append(q)
        if len(parents) != 1:
            return ("none", "nothing" if not parents else " and ".join(map(str, parents)), [], None)
        return "ok", parents[0], ev(state[tab][1], env), ev(state[last][1], env) if last is not None else None
    except (Undef, TypeError, KeyError):
        return None


def value_alts(p, env):
    return [ev(p, env)]


# ---------------------------------------------------------------------------
def kdb_tree(c, rep):
    """P24"""
    rep.rule("registered", "every group read is registered under the number stored in its record; a number used twice is refused")
    rep.rule("attached", "every entry read is added to the group registered under the number stored in the entry; an unknown number "
             "is refused")
    rep.rule("tree", "inductive invariant of the placing loop: the table holds the open groups by level, a group of level n goes "
             "under the last group of level n-1, a jump by more than one level is refused")
    rep.rule("walk", "the export visits every group before its subgroups, once, the level growing by one per step down")
    rep.rule("numbered", "group records carry consecutive numbers from 0, and an entry record carries the number of its group")
    rep.rule("level-written", "the level field of a group record holds the depth the walk reports")
    kd = K.Kdb(c, Report("sub"))
    pos = local_tags(kd)
    r = kd.Rd.r
    keys = place_fields(rep, kd, pos)
    if keys is None:
        return
    idk, lvk, refk = keys
    level_rule(c, rep, kd, pos, lvk)
    walks(c, rep, kd, idk, lvk, refk)


def place_fields(rep, kd, pos):
    """Registration and attachment; returns the fields used as group number, level and group reference."""
    r = kd.Rd.r
    I = r.I
    # registration
    regs = []
    for n in r.by("mapput"):
        vs = [x for v in resolve(I, n.args[2]) for x in [v] if v.op == "new" and v.args[1] == GROUP] if len(n.args) > 2 else []
        if vs:
            regs.append(n)
    terms = []
    for l, (e, b) in I.lphi.items():
        for x in subterms(b) if b is not None else ():
            if x.op == "mapput" and any(v.op == "new" and v.args[1] == GROUP for v in resolve(I, x.args[2])):
                terms.append((l, x))
    if not terms:
        rep.und("registered", "src/kdb.cc", "no table of the groups read")
        return None
    idk = None
    for l, x in terms:
        ks = [pos.get(k) for k in resolve(I, x.args[1])]
        loop = l.args[0]
        lp = I.loops.get(loop)
        where = "%s:%s" % (lp.file, lp.line) if lp else "src/kdb.cc"
        if not ks or None in ks:
            rep.bad("registered", "key", where, "a group is registered under %s, which is not a field of its record" % show(x.args[1], 4))
            continue
        idk = ks[0]
        rep.judge("registered", idk[0] == GROUP, "key", where, "a group is registered under a field of a %s record" % short(idk[0]),
                  "registered under field %d of the group record" % idk[1])
        b = I.lphi[l][1]
        always = all(any(y.op == "mapput" for y in subterms(v)) or any(z.op == "has" for y in g for z in subterms(y))
                     for g, v in flat_alts(b))
        rep.judge("registered", always, "always", where, "a group read is not always registered", "every group registered")
        dup = [t for t in r.by("throw") if loop in t.loops and any(
            f.op == "has" and f.args[1] is x.args[1] or (f.op == "not" and f.args[0].op == "eq" and any(
                y.op in ("has", "count", "find") for y in subterms(f))) for f in t.facts)]
        rep.judge("registered", bool(dup), "duplicate", where, "two groups with the same number are accepted, and the entries of one "
                  "are given to the other", "a repeated number is refused")
        # every group read, and only those
        if lp is not None:
            rep.judge("registered", bool(lp.complete) or lp.kind == "for", "all", where, "not every group is read")
    if idk is None:
        return None
    # attachment
    refk = None
    hits = []
    for n in r.by("push"):
        lv = n.args[0]
        if lv.op == "lv" and lv.args[1][-1:] == ("entries_",) and n.loops:
            if any(v.op == "new" and v.args[1] == ENTRY for v in resolve(I, n.args[1])):
                hits.append(n)
    if not hits:
        rep.bad("attached", "none", "src/kdb.cc", "entries read are not added to any group")
    for n in hits:
        root = n.args[0].args[0]
        o = root.args[0] if root.op == "obj" else root
        mv = [x for x in subterms(o) if x.op == "mapval"]
        if not mv and not any(pos.get(v) for x in subterms(o) for v in (resolve(I, x) if x.op in ("fld", "at", "lphi") else ())):
            rep.bad("attached", "key", at(n), "entries are added to %s, whatever the number stored in the entry" % show(o, 5))
            continue
        if not mv:
            rep.und("attached", at(n), "entries are added to %s" % show(o, 5))
            continue
        m = mv[0]
        own = [x for x in resolve(I, m.args[0])]
        ks = [pos.get(k) for k in resolve(I, m.args[1])]
        if not ks or None in ks:
            rep.bad("attached", "key", at(n), "the group of an entry is looked up by %s, which is not a field of its record" %
                    show(m.args[1], 4))
            continue
        refk = ks[0]
        rep.judge("attached", refk[0] == ENTRY, "key", at(n), "the group of an entry is looked up by a field of another record",
                  "looked up by field %d of the entry record" % refk[1])
        a, b = n.args[1], m.args[1]
        ba, bb = base(a), base(b)
        rep.judge("attached", ba is bb, "same-record", at(n), "the number used to find the group (%s) belongs to another entry than the "
                  "one added (%s)" % (show(b, 4), show(a, 4)), "number and entry of one record")
        loop = n.loops[-1]
        extra = [f for f in n.facts if any(x.op == "i" and x.args[0] == loop for x in subterms(f)) and
                 not any(x.op in ("has", "find") for x in subterms(f))]
        rep.judge("attached", not extra, "always", at(n), "an entry is added only if %s" % " and ".join(show(f, 5) for f in extra),
                  "every entry added")
        orphan = [t for t in r.by("throw") if loop in t.loops and any(
            f.op == "not" and f.args[0].op == "has" and f.args[0].args[1] is m.args[1] for f in t.facts)]
        rep.judge("attached", bool(orphan), "orphan", at(n), "an entry whose group does not exist is accepted",
                  "an unknown group is refused")
        lp = I.loops.get(loop)
        if lp is not None:
            rep.judge("attached", bool(lp.complete) and not lp.exits, "all", "%s:%s" % (lp.file, lp.line),
                      "the loop that attaches the entries can stop early", "all entries attached")
    rest = {k for k in pos.values() if k[0] == GROUP and k != idk}
    pf = {k for k in rest if any(f.tag == k[1] and f.parts and kd.source(f.parts[0].args[1]) is None for f in kd.split_().get(GROUP, ()))}
    lvk = sorted(pf or rest)[0] if (pf or rest) else None
    if lvk is None:
        rep.und("tree", "src/kdb.cc", "no level field")
        return None
    return idk, lvk, refk


def base(t):
    t = strip_casts(t)
    while t.op == "fld":
        t = t.args[0]
    return t


# ---------------------------------------------------------------------------
class Walk:
    """A recursive walk over the groups inside the export: the loop over the children and the recursive call in it."""

    def __init__(self, r, rec):
        self.r, self.rec, self.loop = r, rec, rec.loops[-1]
        self.lp = r.I.loops.get(self.loop)
        self.caps = dict(rec.extra.get("caps") or ())

    def counter(self, lv):
        return T("lphi", self.loop, lv)

    def after(self, lv):
        """Value of a local after visiting one group, before its subgroups."""
        return self.caps.get(lv)


def walks_of(r):
    return [Walk(r, n) for n in r.by("rec") if n.loops]


def walks(c, rep, kd, idk, lvk, refk):
    r = kd.W.r
    ws = walks_of(r)
    recs = kd.split_()
    gid = [f for f in recs.get(GROUP, ()) if f.tag == idk[1] and f.parts]
    ref = [f for f in recs.get(ENTRY, ()) if refk and f.tag == refk[1] and f.parts]
    glv = [f for f in recs.get(GROUP, ()) if f.tag == lvk[1] and f.parts]
    got = {}
    for what, fs in (("group", gid), ("entry", ref)):
        if not fs and recs.get(GROUP if what == "group" else ENTRY):
            rep.bad("numbered", what + "/none", "src/kdb.cc", "no number is written in the %s records" % what)
        elif not fs:
            rep.bad("numbered", what + "/none", "src/kdb.cc", "no %s records are written for the groups below the root" % what)
        for w in {id(x): x for f in fs for x in ws if x.loop in f.parts[0].loops}.values():
            mine = [f.parts[0] for f in fs if w.loop in f.parts[0].loops]
            sk = r.skips(w.loop, record_nodes(r, w.loop, mine))
            rep.judge("numbered", not sk if sk is not None else None, what + "/every", at(mine[0]),
                      "a group can be passed over without its %s being written" % ("record" if what == "group" else "entries"),
                      "every group" + ("" if what == "group" else "'s entries"))
        for f in fs:
            p = f.parts[0]
            v = strip_casts(p.args[1])
            w = [x for x in ws if x.loop in p.loops]
            if not w:
                rep.und("numbered", at(p), "the %s records are not written inside a recursive walk" % what)
                continue
            w = w[-1]
            got[what] = w
            if v.op == "bin" and v.args[0] == "+" and any(strip_casts(x).op == "lphi" for x in v.args[1:3]):
                rep.bad("numbered", what, at(p), "the %s record carries %s instead of the number of the group" % (what, show(v, 4)))
                continue
            if v.op != "lphi":
                if v.op == "int" or any(x.op == "size" for x in subterms(v)) or kd.source(v):
                    rep.bad("numbered", what, at(p), "the %s record carries %s instead of the number of the group" % (what, show(v, 4)))
                else:
                    rep.und("numbered", at(p), "the number in the %s record (%s) is not recognised" % (what, show(v, 4)))
                continue
            lv = v.args[1]
            if v.args[0] != w.loop:
                rep.bad("numbered", what, at(p), "the number in the %s record changes inside one group" % what)
                continue
            e = r.I.lphi[v][0]
            rep.judge("numbered", e is INT(0) if e is not None and e.op == "int" else None, what + "/start", at(p),
                      "the numbers in the %s records start at %s" % (what, show(e, 3)), "numbers start at 0")
            a = w.after(lv)
            n = inc_of(a, v)
            rep.judge("numbered", n == 1 if n is not None else None, what + "/step", at(w.rec),
                      "while writing the %s records the group number grows by %s per group" % (what, n), "one number per group")
    if "group" in got and "entry" in got and got["group"] is not got["entry"]:
        a, b = got["group"], got["entry"]
        same = a.rec.name == b.rec.name and a.lp is not None and b.lp is not None and erase(a.lp.cont) == erase(b.lp.cont) and \
            erase_t(a.rec.extra.get("vals") or ()) == erase_t(b.rec.extra.get("vals") or ())
        rep.judge("numbered", same or None, "same-order", at(b.rec), "groups and entries are written in different orders",
                  "both passes walk the groups in the same order")
    for w in {id(x): x for x in got.values()}.values():
        walker(c, rep, w)
    visits(c, rep, idk, refk)
    depth(c, rep, kd, got.get("group"), glv, lvk)


def record_nodes(r, loop, parts):
    """Nodes an iteration of the walk has to pass: the writes, or the loops around them."""
    out = set()
    for p in parts:
        ls = p.loops[p.loops.index(loop) + 1:] if loop in p.loops else p.loops
        h = r.head(ls[0]) if ls else None
        out.add(h.id if h is not None else p.id)
    return out


def inc_of(a, v):
    """By how much a differs from v: a number, or the different ones of several paths."""
    if a is None:
        return None
    out = set()
    for g, x in flat_alts(a):
        if strip_casts(x) is v:
            out.add(0)
            continue
        n = evalnum(x, {v: 1000})
        if n is None:
            return None
        out.add(n - 1000)
    return out.pop() if len(out) == 1 else tuple(sorted(out))


def erase(t):
    return re.sub(r"\((\d+)", "(", show(t, 8)) if t is not None else None


def erase_t(ts):
    return [None if x is None else re.sub(r"closure\([^)]*\)|\((\d+)|\d{3,}", "", show(x, 4)) for x in ts if not (
        isinstance(x, Term) and x.op == "closure")]


def walker(c, rep, w):
    """The recursive function on its own."""
    fs = c.find(w.rec.name)
    for f in fs[:1]:
        r = c.run(f)
        where = "%s:%s" % (f["file"], f["line"])
        name = short(f["n"])
        recs = r.by("rec")
        if not recs:
            continue
        for q in recs:
            L = r.I.loops.get(q.loops[-1]) if q.loops else None
            if L is None:
                rep.und("walk", where, name + ": the recursion is not inside a loop over the children")
                continue
            rep.judge("walk", bool(L.complete) and not L.exits, name + "/all", "%s:%s" % (L.file, L.line),
                      "%s: the walk can stop before all subgroups are visited" % name, "all subgroups visited")
            extra = [x for x in q.facts if any(y.op == "i" for y in subterms(x))]
            rep.judge("walk", not extra, name + "/always", at(q), "%s: a subgroup's own subgroups are visited only if %s" %
                      (name, " and ".join(show(x, 4) for x in extra)), "every subgroup descended into")
            cbs = [n for n in r.by("callback") if n.loops and n.loops[-1] == q.loops[-1]]
            vals = q.extra.get("vals") or ()
            names = q.extra.get("valtypes") or ()
            if not cbs:
                rep.und("walk", where, name + ": no visit in the loop over the children")
                continue
            for b in cbs:
                loopn = {n.id for n in r.by("loop") if n.id == q.loops[-1] + 1}
                pre = q.id in r.reach(b.id, loopn) and b.id not in r.reach(q.id, loopn)
                rep.judge("walk", pre, name + "/order", at(b), "%s: a group is visited after its subgroups" % name,
                          "groups visited before their subgroups")
                child = vals[0] if vals else None
                rep.judge("walk", child is b.args[1] if child is not None else None, name + "/child", at(q),
                          "%s: the walk descends into %s after visiting %s" % (name, show(child, 4), show(b.args[1], 4)),
                          "the group visited is the one descended into")
                for x in b.args[2:]:
                    y = strip_casts(x)
                    ps = [z for z in subterms(y) if z.op == "par"]
                    if len(ps) != 1:
                        continue
                    par = ps[0]
                    if par.args[0] not in names:
                        continue
                    nv = vals[names.index(par.args[0])]
                    d = inc_of(nv, par)
                    rep.judge("walk", d == 1 if d is not None else None, name + "/level", at(q),
                              "%s: the level grows by %s per step down" % (name, d), "level grows by one")
                    d0 = inc_of(x, par)
                    rep.judge("walk", d0 == 0 if d0 is not None else None, name + "/level-given", at(b),
                              "%s: a group is visited with level %s" % (name, show(x, 4)), "visited with its level")
            rep.judge("walk", len(cbs) == 1, name + "/once", at(cbs[-1]), "%s: a group is visited %d times" % (name, len(cbs)))


def depth(c, rep, kd, w, glv, lvk):
    """The level field."""
    for f in glv:
        v = strip_casts(f.parts[0].args[1])
        if v.op == "int":
            rep.judge("level-written", v is INT(0), "top", at(f.parts[0]), "groups directly below the root are written with level %s" %
                      show(v, 3), "top level groups have level 0")
        elif v.op == "lphi" or kd.source(v):
            rep.bad("level-written", "top", at(f.parts[0]), "the level field of a group holds %s" % show(v, 4))
        else:
            rep.und("level-written", at(f.parts[0]), "level %s of top level groups" % show(v, 4))
    found = False
    for fn in c.P.funcs.values():
        if fn["n"].startswith(EXPORT) and fn["n"].endswith("operator()"):
            r = c.run(fn)
            pars = [str(p.get("n")) for p in fn["ps"]]
            for n in r.by("swrite"):
                if n.args[1] is not INT(lvk[1]) or n.args[2] is not INT(2):
                    continue
                sz = [m for m in nexts(r, n)]
                for s in sz:
                    for p in nexts(r, s):
                        ps = {x for x in subterms(p.args[1]) if x.op == "par"}
                        if s.args[2] is not INT(4) or strip_casts(s.args[1]).op != "int":
                            continue
                        v = strip_casts(p.args[1])
                        found = True
                        if v.op == "par" and evalnum(p.args[1], {v: 65535}) != 65535:
                            rep.bad("level-written", "depth", at(p), "the level of a group is reduced: %s" % show(p.args[1], 4))
                            continue
                        rep.judge("level-written", True if v.op == "par" and v.args[0] in pars[1:] else
                                  (False if v.op in ("int", "undef", "par", "bin") or kd.N.attr(v) else None), "depth", at(p),
                                  "the level field of a group holds %s, not the depth of the group" % show(p.args[1], 4),
                                  "level field = depth given by the walk")
    if not found:
        rep.und("level-written", "src/kdb.cc", "the function writing the level field was not found")


def visits(c, rep, idk, refk):
    """The visitors given to the walk, for a group at any depth and any number."""
    for fn in c.P.funcs.values():
        if not (fn["n"].startswith(EXPORT) and fn["n"].endswith("operator()")):
            continue
        r = c.run(fn)
        hits = []
        for n in r.by("swrite"):
            for what, k in (("group", idk), ("entry", refk)):
                if k is None or n.args[1] is not INT(k[1]) or n.args[2] is not INT(2):
                    continue
                for s in nexts(r, n):
                    if s.args[2] is INT(4) and s.args[1] is INT(4):
                        for p in nexts(r, s):
                            v = strip_casts(p.args[1])
                            if v.op == "undef":
                                hits.append((p, v))
        if not hits:
            continue
        vs = {v for p, v in hits}
        where = at(hits[0][0])
        if len(vs) > 1 or any(p.args[2] is not INT(4) for p, v in hits):
            rep.und("numbered", where, "numbers written by a visitor not recognised")
            continue
        v = vs.pop()
        need = record_nodes(r, None, [p for p, _ in hits])
        e = r.ret()
        if e is not None:
            sk = e.id in r.reach(r.start().id, need)
            rep.judge("numbered", not sk, "visit/every", where, "a group can be visited without its records being written",
                      "records written for every group visited")
        name = v.args[0]
        fin = [x for k, x in r.S.env.items() if str(k.args[-1]) == name] if r.S is not None else []
        n = inc_of(fin[0], v) if len(fin) == 1 else (0 if not fin else None)
        rep.judge("numbered", n == 1 if n is not None else None, "visit/step", where,
                  "the number changes by %s per group visited" % (n if not isinstance(n, tuple) else " or ".join(map(str, n))),
                  "one number per group visited")


def nexts(r, n):
    """Writes that directly follow a write."""
    out, seen, todo = [], set(), list(r.succ[n.id])
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        m = r.nodes[x]
        if m.kind == "swrite":
            out.append(m)
            continue
        if m.kind == "throw":
            continue
        todo += list(r.succ[x])
    return out


# ---------------------------------------------------------------------------
def width(ty):
    return int(ty[1:]) if ty and ty[1:].isdigit() else None


def limits(ty):
    w = width(ty)
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if ty[0] == "s" else (0, (1 << w) - 1)


def narrowings(t):
    """Conversions to a smaller integer type inside a term, and sums computed in a type of at most 32 bits."""
    for x in subterms(t):
        if x.op == "cast" and x.args[0] == "s8":
            continue                                        # characters
        if x.op == "cast" and len(x.args) > 2 and width(x.args[0]) and width(x.args[2]) and width(x.args[0]) < width(x.args[2]):
            yield x
        elif x.op == "bin" and x.args[0] in ("+", "*", "-") and len(x.args) > 3 and width(x.args[3]) and width(x.args[3]) <= 32 and \
                any(y.op == "size" for y in subterms(x)) and \
                not any(y.op in ("lphi", "i", "local", "gm", "strf") for y in subterms(x)):
            yield x


BITS = ("&", "|", "<<", ">>", "^", "%")


def leaves(t):
    """Symbolic leaves of an integer expression."""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if x.op in ("bin", "cast"):
            todo += [y for y in x.args if isinstance(y, Term)]
        elif x.op == "phi":
            todo += [v for g, v in x.args[0]]
        elif x.op != "int" and x not in out:
            out.append(x)
    return out


def fits(r, x, facts, extra=None):
    """(verdict, value): does the source of a conversion always fit under the facts."""
    if x.op == "cast":
        src, ty, fw = x.args[1], x.args[0], x.args[2]
        exact = lambda env: evalnum(src, env)
    else:
        ty = fw = x.args[3]
        src = x
        op = x.args[0]

        def exact(env):
            a, b = evalnum(x.args[1], env), evalnum(x.args[2], env)
            if a is None or b is None:
                return None
            return a + b if op == "+" else a - b if op == "-" else a * b
    lo, hi = limits(ty)
    if x.op == "cast":
        a, b = interval(src, r)
        if a is not None and b is not None and lo <= a and b <= hi:
            return True, None
        if strip_casts(src).op == "bin" and strip_casts(src).args[0] in BITS:
            return None, "bits"
    ls = leaves(src)
    if extra is not None and ls and all(extra(y) is not None and extra(y) <= hi for y in ls) and src in ls:
        return True, None
    if len(ls) != 1:
        return None, "several"
    v = ls[0]
    w = width(ty)
    flo, fhi = limits(fw) if x.op == "cast" else (0, (1 << 64) - 1)
    cand = set()
    for b in (w - 1, w, w + 1, w + 8, 31, 32, 33, 40, 63):
        for d in (-2, -1, 0, 1, 2):
            cand |= {(1 << b) + d, -(1 << b) + d}
    cand |= {-1, -2, fhi, flo, 3 << w, (5 << w) + 7}
    leaftop = (1 << 64) - 1
    for k in sorted(cand, key=abs):
        if k < 0 and not (fw[0] == "s" and v.op not in ("size",)):
            continue
        if k > min(leaftop, fhi) or k < flo:
            continue
        e = exact({v: k})
        if e is None:
            return None, "value"
        if lo <= e <= hi or (x.op == "cast" and not flo <= e <= fhi):
            continue
        if x.op == "cast" and v.op == "size" and e < k:
            continue                                    # the sum before the conversion has wrapped: not a possible size
        if v.op != "size" and k in () :
            continue
        if possible(facts, {v: k}) is not False:
            return False, k
    return True, None


def bounded(c, cls, n):
    """Upper bound of the size of a buffer of a stream class that grows by single elements up to a limit held in a member."""
    rec = c.P.record(cls)
    if rec is None:
        return None
    types = {f["n"]: str(f["t"]) for f in rec["fields"]}
    init = T("fld", T("self", cls), n)
    lim, used, failed = None, [], []
    for f in methods(c, cls):
        r = c.run(f)
        if r.S is None:
            continue
        for g, x in flat_alts(value_of(r, cls, n)):
            if x is init or x is EMPTY or x.op == "zeros":
                continue
            if not (x.op == "vec" and x.args[0] is init):
                return None
            sz = mk_size(x)
            other = [z for y in g for q in [y.args[0] if y.op == "not" else y] if q.op == "eq" and sz in q.args
                     for z in q.args if z is not sz]
            other += [z for y in g if y.op == "lt" and y.args[0] is sz for z in [y.args[1]]]
            # emptying it failed although the limit was reached: the stream is at its end
            full = [strip_casts(y.args[0].args[1]) for y in g if y.op == "not" and y.args[0].op == "lt" and y.args[0].args[0] is sz]
            if not other and full:
                failed += full
                continue
            b = None
            for z in other:
                z = strip_casts(z)
                used.append(z)
                if z.op == "fld" and z.args[0].op == "self":
                    b = TYPES.get(re.sub(r"\bconst\b", "", types.get(z.args[1], "")).strip(), b)
                elif z.op == "int":
                    b = z.args[0]
            if b is None:
                return None
            lim = max(lim or 0, b)
    return lim if all(z in used for z in failed) else None


TYPES = {"uint8_t": 255, "uint16_t": 65535, "uint32_t": (1 << 32) - 1, "unsigned int": (1 << 32) - 1, "int": (1 << 31) - 1,
         "unsigned short": 65535, "unsigned char": 255}


def stored_sizes(c, rep):
    """P23"""
    rep.rule("fits", "at every conversion to a smaller integer type on the way into an exported file the value provably fits: every "
             "value that does not is excluded by the conditions in force")
    rep.rule("counts", "the record counts stored in the KDB header grow by one for each record written, and the import reads exactly that "
             "many records")
    rep.rule("count-limit", "before a count held in 32 bits would pass its maximum the export is refused")
    rep.rule("sizes", "the size stored in front of a field or block equals the number of bytes written after it")
    narrow(c, rep)
    kd = counts(c, rep)
    sub = Report("sub")
    if kd is not None:
        copy_rules(kd.rep, rep, ("framing",), "sizes")
    C.header_faithful(c, sub)
    copy_rules(sub, rep, ("record-size",), "sizes")
    sub = Report("sub")
    S.checksummed_blocks(c, sub)
    copy_rules(sub, rep, ("writer-size",), "sizes")


def copy_rules(sub, rep, names, to):
    """Results of rules decided for another property that this one rests on."""
    for rule in names:
        for k in range(sub.oks.get(rule, 0)):
            w = sub.samples.get(rule, [])
            rep.ok(to, None, w[k] if k < len(w) else None)
        for b in sub.bads.values():
            if b["rule"] == rule:
                rep.bad(to, b["key"], b["where"], b["msg"])
        for b in sub.unds.values():
            if b["rule"] == rule:
                rep.und(to, b["where"], b["msg"])


XEXPORT = "keepass::KdbxFile::Export"


def narrow(c, rep):
    roots = [(short(q), c.root(q)) for q in (EXPORT, XEXPORT)]
    for fn in c.P.funcs.values():
        if fn["n"].endswith("operator()") and fn["n"].startswith((EXPORT, XEXPORT)):
            roots.append(("visitor in %s:%s" % (fn["file"], fn["line"]), c.run(fn)))
    bounds = {}
    for cls, fs in stream_classes(c).items():
        for f in methods(c, cls):
            if c.P.record(cls) is not None:
                roots.append((short(f["n"]), c.run(f)))

    def extra(y):
        if y.op == "size":
            z = strip_casts(y.args[0])
            if z.op == "vec" and z.args[0].op == "fld":
                z = z.args[0]
            if z.op == "fld" and z.args[0].op == "self":
                k = (z.args[0].args[0], z.args[1])
                if k not in bounds:
                    bounds[k] = bounded(c, *k)
                return bounds[k]
        return None
    seen = set()
    for name, r in roots:
        rep.counts["roots"] += 1
        for n in r.nodes.values():
            if n.kind not in ("swrite", "sput", "xset", "xattr"):
                continue
            rep.counts["writes"] += 1
            for t in n.args:
                if not isinstance(t, Term) or t.op in ("sid",):
                    continue
                for x in narrowings(t):
                    k = (name, x, n.facts)
                    if k in seen:
                        continue
                    seen.add(k)
                    ok, v = fits(r, x, n.facts, extra)
                    if ok is None and v in ("bits",):
                        continue
                    if ok is None and any(y.op in CAL for y in subterms(x)):
                        continue
                    src = x.args[1] if x.op == "cast" else x
                    key = K_(name) + ":" + K_(show(src, 4))
                    if ok is None:
                        rep.und("fits", where_(n), "%s: conversion of %s not decided (%s)" % (name, show(src, 4), v))
                    else:
                        rep.judge("fits", ok, key, where_(n), "%s: %s is stored in %d bits although it can be %s (leaf value); the value "
                                  "written is truncated" % (name, show(src, 5), width(x.args[0] if x.op == "cast" else x.args[3]), v),
                                  "%s: %s" % (name, show(src, 4)))


CAL = ("local", "gm", "mktime", "timegm", "strp")


def K_(s):
    return re.sub(r"\d{3,}", "", s).replace(" ", "")[:80]


def where_(n):
    """Innermost location in a source file."""
    for q, f, l in reversed(n.stack):
        if str(f).endswith(".cc"):
            return "%s:%s" % (f, l)
    return at(n)


def counts(c, rep):
    kd = K.Kdb(c, Report("sub"))
    kd.run()
    Rd, W = kd.Rd.r, kd.W.r
    recs = kd.split_()
    # which header members bound the loops of the import
    fields = {}
    for cls in (GROUP, ENTRY):
        loops = set()
        for l, (e, b) in Rd.I.lphi.items():
            if b is None:
                continue
            for x in subterms(b):
                if x.op == "vec":
                    for y in [x.args[1]] + comps(x.args[1]):
                        if any(z.op == "new" and z.args[1] == cls for z in flat_vals(y)) and x.args[0] is l:
                            loops.add(l.args[0])
        # loops that build records from the content, not those that walk lists already read
        loops = {k for k in loops if any(n.kind == "new" and n.args and k in n.loops and cls in [str(a) for a in n.args] or
                                         n.kind == "sread" and k in n.loops for n in Rd.nodes.values())}
        loops = {k for k in loops if not any(o != k and o in (Rd.I.loops[k].parent or ()) for o in loops)}
        for k in loops:
            L = Rd.I.loops[k]
            where = "%s:%s" % (L.file, L.line)
            bound = trip(Rd, k)
            if bound is None:
                rep.und("counts", where, "number of %s records read not recognised" % short(cls))
                continue
            f = header_field(bound)
            if f is not None and any(True for x in narrowings(bound)):
                rep.bad("counts", "read/" + short(cls), where, "only %s %s records are read" % (show(bound, 4), short(cls)))
                fields[cls] = f
                continue
            if f is None:
                ls = [header_field(x) for x in subterms(bound) if header_field(x)]
                rep.judge("counts", False if ls else None, "read/" + short(cls), where, "%s %s records are read" % (show(bound, 4), short(cls)))
                continue
            rep.judge("counts", not L.exits, "read-all/" + short(cls), where, "the import can stop before all %s records are read" % short(cls),
                      "import reads %s %s records" % (f, short(cls)))
            fields[cls] = f
    hs = [n for n in W.by("swrite") if n.args[1].op == "struct" and fields and
          all(f in dict(n.args[1].args[2]) for f in fields.values())]
    if not hs or len(fields) < 2:
        rep.und("counts", "src/kdb.cc", "header of the export or counts of the import not found")
        return kd
    ws = walks_of(W)
    h = hs[0]
    for cls, f in fields.items():
        v = strip_casts(dict(h.args[1].args[2])[f])
        fs = recs.get(cls, [])
        where = where_(h)
        heads = [W.nodes[x] for x in kd.heads(fs, kd.end_tags())]
        if v.op == "int" or v.op == "undef" or (v.op in ("fld", "size", "par") and decidable_other(v)):
            rep.bad("counts", "stored/" + short(cls), where, "the header stores %s as number of %s records" % (show(v, 4), short(cls)))
            continue
        if v.op != "lphi":
            xs = [x for x in leaves(v) if x.op == "lphi"]
            d = inc_of(v, xs[0]) if len(xs) == 1 else None
            rep.judge("counts", False if d not in (None, 0) else None, "stored/" + short(cls), where,
                      "the header stores %s as number of %s records" % (show(v, 5), short(cls)))
            continue
        lv = v.args[1]
        while True:
            # passes that leave the counter alone
            w = [x for x in ws if x.loop == v.args[0]]
            e = W.I.lphi[v][0]
            if w and w[0].after(lv) is v and e is not None and strip_casts(e).op == "lphi" and strip_casts(e).args[1] is lv:
                v = strip_casts(e)
                continue
            break
        if not w:
            rep.und("counts", where, "the number of %s records stored is not counted in a walk over the groups" % short(cls))
            continue
        w = w[0]
        e = W.I.lphi[v][0]
        rep.judge("counts", e is INT(0) if e is not None and e.op == "int" else None, "start/" + short(cls), where,
                  "the number of %s records starts at %s" % (short(cls), show(e, 3) if e is not None else "?"), "starts at 0")
        a = w.after(lv)
        mine = [n for n in heads if w.loop in n.loops]
        if cls == GROUP:
            n = inc_of(a, v)
            other = None
            if not mine:
                # counted in another pass over the same groups
                other = [x for x in ws if any(x.loop in n.loops for n in heads)]
                same = other and other[0].lp is not None and w.lp is not None and erase(other[0].lp.cont) == erase(w.lp.cont)
                rep.judge("counts", True if same else None, "pass/" + short(cls), where, "groups are counted in a pass over other groups",
                          "counted in a pass over the same groups")
            rep.judge("counts", n == 1 if n is not None else None, "step/" + short(cls), at(w.rec), "the number of groups grows by %s for each "
                      "group" % (n,), "grows by one per group")
            steps = visitor_steps(c, lv)
            rep.judge("counts", all(x in (0, 1) for x in steps), "visit/" + short(cls), at(w.rec),
                      "visiting a group changes the number of groups by %s" % (steps,), "each visit counts at most once")
            limit(rep, W, c, lv, a, w, cls)
            continue
        # entries: an inner loop
        a = strip_casts(a) if a is not None else None
        if a is v:
            rep.bad("counts", "step/" + short(cls), at(w.rec), "entries written are not counted")
            continue
        if a is None or a.op != "lphi":
            n = inc_of(a, v) if a is not None else None
            rep.judge("counts", False if n is not None else None, "step/" + short(cls), at(w.rec),
                      "the number of entries is not counted where they are written (%s per group)" % (n,))
            continue
        e2, b2 = W.I.lphi[a]
        rep.judge("counts", e2 is v, "carried/" + short(cls), at(w.rec), "the number of entries does not continue from one group to the next",
                  "continues from group to group")
        n = inc_of(b2, a)
        inside = [x for x in mine if a.args[0] in x.loops]
        rep.judge("counts", (n == 1 and len(inside) == len(mine) > 0) if n is not None else None, "step/" + short(cls), at(w.rec),
                  "the number of entries grows by %s for each entry" % (n,), "grows by one per entry written")
        limit(rep, W, c, lv, b2, w, cls)
    return kd


def visitor_steps(c, lv):
    """Change of a captured counter by each visitor, for any value it has before."""
    out = []
    name = lv.args[0].args[-1]
    for fn in c.P.funcs.values():
        if fn["n"].startswith(EXPORT) and fn["n"].endswith("operator()"):
            r = c.run(fn)
            if r.S is None:
                continue
            for k, x in r.S.env.items():
                if str(k.args[-1]) == str(name):
                    out.append(inc_of(x, T("undef", str(name))))
    return [x for x in out if x is not None]


def decidable_other(v):
    return v.op in ("size", "fld") and not any(x.op == "lphi" for x in subterms(v))


def flat_vals(v):
    out, todo = [], [v]
    while todo:
        x = todo.pop()
        if x.op in ("phi", "many"):
            todo += [y for _, y in alts(x)]
        else:
            out.append(strip_casts(x))
    return out


def header_field(t):
    """Member of the header read from the file."""
    t = strip_casts(t)
    return t.args[1] if t.op == "fld" and strip_casts(t.args[0]).op == "rd" else None


def trip(r, k):
    """Number of iterations of a counting loop."""
    for l, (e, b) in r.I.lphi.items():
        if l.args[0] != k or e is None or b is None or l.args[1].op != "lv" or l.args[1].args[0].op != "var":
            continue
        ns = [n for n in r.nodes.values() if k in n.loops]
        common = frozenset.intersection(*[n.facts for n in ns]) if ns else frozenset()
        d = inc_of(b, l)
        for f in common:
            if d == 1 and e.op == "int" and f.op == "lt" and strip_casts(f.args[0]) is l:
                return mk_bin("-", f.args[1], e, "u32") if e.args[0] else f.args[1]
            if d == 1 and e.op == "int" and f.op == "not" and f.args[0].op == "lt" and strip_casts(f.args[0].args[1]) is l:
                return mk_bin("+", f.args[0].args[0], INT(1 - e.args[0]), "u32")
            if d == 1 and e is INT(0) and f.op == "not" and f.args[0].op == "eq" and l in [strip_casts(x) for x in f.args[0].args]:
                o = [x for x in f.args[0].args if strip_casts(x) is not l]
                if o:
                    return o[0]
            if d == -1 and (f.op == "truthy" and strip_casts(f.args[0]) is l or f.op == "lt" and f.args[0] is INT(0) and
                            strip_casts(f.args[1]) is l or f.op == "not" and f.args[0].op == "eq" and INT(0) in f.args[0].args and
                            l in f.args[0].args):
                return e
            # post-decrement in the condition
    return None


def limit(rep, W, c, lv, a, w, cls):
    """A counter of 32 bits is tested before it wraps."""
    ty = [x.args[3] for x in subterms(a) if x.op == "bin" and x.args[0] == "+" and len(x.args) > 3] if a is not None else []
    if not ty or width(ty[0]) is None:
        rep.und("count-limit", at(w.rec), "type of the %s counter not known" % short(cls))
        return
    if width(ty[0]) > 32:
        rep.ok("count-limit", at(w.rec), "counted in %d bits" % width(ty[0]))
        return
    top = limits(ty[0])[1]
    name = lv.args[0].args[-1]
    for t in W.by("throw"):
        for f in t.facts:
            for x in subterms(f):
                if x.op == "lphi" and x.args[1] is lv and evalnum(f, {x: top}) == 1 and evalnum(f, {x: 5}) == 0:
                    ok = all(evalnum(g, {x: top}) != 0 for g in t.facts)
                    if ok:
                        rep.ok("count-limit", where_(t), "%s refused at %d" % (name, top))
                        return
    rep.bad("count-limit", short(cls), at(w.rec), "the number of %s records is counted in %d bits and can wrap unnoticed" %
            (short(cls), width(ty[0])))
