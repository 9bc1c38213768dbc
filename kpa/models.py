"""Models of the external functions (standard library, OpenSSL, zlib, pugixml, libc)."""
from .terms import *
from .facts import Callee

LAZY = {}
PRIM = {}
MODEL = {}
CTOR = {}


def model(*names):
    def deco(f):
        for n in names:
            MODEL[n] = f
        return f
    return deco


def prim(*names):
    def deco(f):
        for n in names:
            PRIM[n] = f
        return f
    return deco


def ctor(*names):
    def deco(f):
        for n in names:
            CTOR[n] = f
        return f
    return deco


# -- small helpers --------------------------------------------------------
def asval(I, x):
    return I.val(x)


def self_and_args(obj, args):
    """Operators may be member or free functions."""
    if obj is not None:
        return obj, args
    return args[0], args[1:]


def cstr(I, p):
    """String designated by a char pointer value."""
    if p.op == "lv":
        p = I.read(p)
    if p.op == "cdata":
        return I.read(p.args[0])
    if p.op == "addr":
        return I.read(p.args[0])
    if p.op == "phi":
        return mk_phi([(g, cstr(I, v)) for g, v in alts(p)])
    if p.op == "cstr":
        return p.args[0]
    return p


def ctext(I, p):
    """The text up to the first zero byte of what a char pointer designates."""
    v = cstr(I, p)
    if p.op in ("cdata", "phi", "lv", "cstr") and v.op in ("fld", "sstr", "lphi", "rd", "rest", "b64d", "par", "bytes", "upd", "at",
                                                           "i", "deref", "gunzip", "slice"):
        return T("ctext", v)
    return v


def bytes_at(I, p, n):
    """(value of the bytes p points to, location or None)."""
    if p.op == "lv":
        p = I.read(p)
    if p.op == "cdata":
        return I.read(p.args[0]), p.args[0]
    if p.op == "addr":
        return I.read(p.args[0]), p.args[0]
    if p.op == "str":
        return p, None
    if p.op == "cstr":
        return p.args[0], None
    if p.op == "padd":
        v, lv = bytes_at(I, p.args[0], n)
        return T("from", v, p.args[1]), None
    if p.op == "phi":
        return mk_phi([(g, bytes_at(I, v, n)[0]) for g, v in alts(p)]), None
    return T("pbytes", p), None


def store_bytes(I, p, v, e, partial=False):
    if p.op == "lv":
        p = I.read(p)
    if p.op in ("cdata", "addr"):
        I.write(p.args[0], v, e)
        return p.args[0]
    if p.op == "padd" and p.args[0].op in ("cdata", "addr"):
        lv = p.args[0].args[0]
        I.write(lv, T("upd", I.read(lv), T("idx", p.args[1]), v), e)
        return lv
    if p.op == "phi":
        for g, x in alts(p):
            if x.op in ("cdata", "addr"):
                store_bytes(I, x, v, e)
        return None
    I.note_deref(p, e, "store")
    return None


def rangeval(I, a, b):
    """Value of the sequence [a, b)."""
    a, b = I.val(a), I.val(b)
    if a.op == "sbit":
        return T("rest", a.args[0], a.args[1])
    if a.op == "iter" and b.op == "iter" and a.args[0] is b.args[0]:
        v = I.read(a.args[0])
        if isint(a.args[1], 0) and b.args[1] is END:
            return v
        return T("slice", v, a.args[1], b.args[1])
    if a.op in ("cdata", "addr", "str", "padd"):
        v, lv = bytes_at(I, a, None)
        n = mk_bin("-", b, a, None) if b.op != "padd" else None
        if b.op == "padd" and b.args[0] is a:
            if b.args[1] is mk_size(v):
                return v
            return T("slice", v, INT(0), b.args[1])
        return T("slice", v, a, b)
    return T("rangeof", a, b)


def strip_lv(I, x):
    return x if I.islv(x) else None


def repo_const_method(c):
    return c.cm


# -- unknown externals ----------------------------------------------------
def opaque(I, c, obj, args, e):
    q = c.q
    vals = []
    if obj is not None:
        vals.append(I.val(obj))
    for a in args:
        vals.append(I.val(a))
    ev = I.emit("ext", q, vals, e)
    I.note_unknown(q, e)
    if obj is not None and not c.cm and not c.static and I.islv(obj):
        I.write(obj, T("out", ev, q, -1, tuple(vals)), e)
    for i, (p, x) in enumerate(zip(c.ps, args)):
        if p.k == "ref" and p.p is not None and not p.p.const and I.islv(x):
            I.write(x, T("out", ev, q, i, tuple(vals)), e)
        elif p.k == "ptr" and p.p is not None and not p.p.const:
            v = I.val(x)
            if v.op in ("addr", "cdata"):
                I.write(v.args[0], T("out", ev, q, i, tuple(vals)), e)
    if c.noreturn:
        I.S = None
        return T("void")
    if c.ret.k == "void":
        return T("void")
    if c.ret.isref and obj is not None and I.islv(obj) and c.ret.p is not None and c.cls is not None and c.ret.p.s == c.cls.s:
        return obj
    r = T("opq", q, tuple(vals), ev)
    if c.ret.k == "ref":
        return LV(T("obj", r))
    return r


def call(I, c, obj, args, e):
    f = MODEL.get(c.q)
    if f is None:
        # inherited members are qualified with the defining class
        f = MODEL.get("*::" + c.q.split("::")[-1]) if c.q.startswith("std::") else None
    if f is not None:
        r = f(I, c, obj, args, e)
        if r is not None:
            return r
    return opaque(I, c, obj, args, e)


def construct(I, e):
    c = e["c"]
    args = []
    for a in e.get("a", []):
        x = I.ev(a)
        if I.S is None:
            return T("void")
        args.append(x)
    if c.q in I.prims or c.id in I.prims:
        h = PRIM.get(c.q)
        vals = [I.val(x) for x in args]
        if h is not None:
            return h(I, c, None, args, e, vals)
        ids = tuple(stream_id(I, x) if is_stream(I, x, p) else v for x, v, p in zip(args, vals, c.ps))
        ev = I.emit("prim", c.q, ids, e, vals=ids, callee=c)
        return T("made", c.cls.n or c.cls.s, ids, ev)
    f = CTOR.get(c.q)
    if f is not None:
        r = f(I, c, args, e)
        if r is not None:
            return r
    if (c.copy or c.move) and args:
        return I.val(args[0])
    vals = tuple(I.val(x) for x in args)
    if not vals:
        rec = I.P.record(c.cls.n or c.cls.s) if c.cls is not None else None
        if c.cls is not None and rec is None and not (c.cls.n or "").startswith("std::"):
            return T("undef", c.cls.n or c.cls.s)
        return T("made", c.cls.n or c.cls.s, ())
    return T("made", c.cls.n or c.cls.s, vals)


def construct_inplace(I, i, lv):
    return None


def functor(I, cl, args, n):
    return T("apply", cl, tuple(I.val(a) for a in args))


# -- streams --------------------------------------------------------------
STREAMS = ("std::basic_istream", "std::basic_ostream", "std::basic_iostream", "std::basic_ifstream",
           "std::basic_ofstream", "std::basic_fstream", "std::basic_stringstream", "std::basic_ostringstream",
           "std::basic_istringstream", "std::basic_ios")


def is_stream(I, x, p):
    t = p.strip() if p is not None else None
    return t is not None and (t.n or t.s or "").split("<")[0].startswith(STREAMS)


def stream_id(I, s):
    v = I.val(s)
    return project(v, "$id")


def stream_ver(I, s):
    v = I.val(s)
    return project(v, "$ver")


def new_stream(I, kind, content, ev):
    return mk_struct("std::" + kind, None, {"$id": T("sid", ev, kind, content), "$ver": ev})


def bump(I, s, ev):
    for g, x in I.lv_alts(s):
        I._write1(sub(x, "$ver"), ev)


def sev(I, kind, s, args, e, **kw):
    """Emit a stream event on stream s and bump its version."""
    sid = stream_id(I, s)
    ev = I.emit(kind, show_kind(sid), [sid] + list(args), e, **kw)
    bump(I, s, ev)
    return sid, ev


def show_kind(sid):
    return sid.args[1] if sid.op == "sid" else "stream"


@ctor("std::basic_ifstream::basic_ifstream", "std::basic_ofstream::basic_ofstream",
      "std::basic_fstream::basic_fstream")
def _(I, c, args, e):
    kind = c.q.split("::")[1]
    if args:
        path = cstr(I, I.val(args[0]))
        ev = I.emit("open", kind[6:], [path] + [I.val(a) for a in args[1:]], e)
        return new_stream(I, kind[6:], T("file", path), ev)
    ev = I.emit("stream", kind[6:], [], e)
    return new_stream(I, kind[6:], T("file", T("unopened")), ev)


@model("std::basic_ifstream::open", "std::basic_ofstream::open", "std::basic_fstream::open")
def _(I, c, obj, args, e):
    kind = c.q.split("::")[1]
    path = cstr(I, I.val(args[0]))
    ev = I.emit("open", kind[6:], [path], e)
    I.write(obj, new_stream(I, kind[6:], T("file", path), ev), e)
    return T("void")


@model("std::basic_ifstream::is_open", "std::basic_ofstream::is_open", "std::basic_fstream::is_open")
def _(I, c, obj, args, e):
    return T("isopen", stream_id(I, obj))


@ctor("std::basic_stringstream::basic_stringstream", "std::basic_ostringstream::basic_ostringstream",
      "std::basic_istringstream::basic_istringstream")
def _(I, c, args, e):
    kind = c.q.split("::")[1][6:]
    content = EMPTY
    if args:
        p = c.ps[0].strip()
        if p.k not in ("enum", "int"):
            content = I.val(args[0])
    ev = I.emit("stream", kind, [content], e)
    return new_stream(I, kind, content, ev)


@ctor("std::basic_istream::basic_istream", "std::basic_ostream::basic_ostream", "std::basic_iostream::basic_iostream")
def _(I, c, args, e):
    kind = c.q.split("::")[1][6:]
    if not args:
        return None
    p = I.val(args[0])
    if p.op == "addr":
        buf = I.read(p.args[0])
    elif p.op in ("new",):
        buf = I.read(LV(T("obj", p)))
    else:
        buf = p
    ev = I.emit("stream", kind, [buf], e)
    return new_stream(I, kind, T("via", buf), ev)


@model("std::basic_istream::read")
def _(I, c, obj, args, e):
    n = I.val(args[1])
    p = I.val(args[0])
    sid, ev = sev(I, "sread", obj, [n, p], e)
    I.note_access(p, n, e, "read")
    store_bytes(I, p, T("rd", ev, sid, n), e)
    return obj


@model("std::basic_istream::get")
def _(I, c, obj, args, e):
    sid, ev = sev(I, "sget", obj, [], e)
    if args:
        if I.islv(args[0]):
            I.write(args[0], T("get", ev, sid), e)
        return obj
    return T("get", ev, sid)


@model("std::basic_istream::peek")
def _(I, c, obj, args, e):
    sid, ev = sev(I, "speek", obj, [], e)
    return T("peek", ev, sid)


@model("std::basic_istream::ignore")
def _(I, c, obj, args, e):
    sev(I, "signore", obj, [I.val(a) for a in args], e)
    return obj


@model("std::basic_istream::gcount")
def _(I, c, obj, args, e):
    return T("gcount", stream_ver(I, obj))


@model("std::basic_istream::tellg", "std::basic_ostream::tellp")
def _(I, c, obj, args, e):
    return T("tell", stream_ver(I, obj), stream_id(I, obj))


@model("std::basic_istream::seekg", "std::basic_ostream::seekp")
def _(I, c, obj, args, e):
    sev(I, "sseek", obj, [I.val(a) for a in args], e)
    return obj


@model("std::basic_ostream::write")
def _(I, c, obj, args, e):
    n = I.val(args[1])
    v, lv = bytes_at(I, I.val(args[0]), n)
    I.note_access(I.val(args[0]), n, e, "write")
    if has_undef(v):
        I.use_undef(v, e, "written")
    sev(I, "swrite", obj, [v, n], e, src=lv)
    return obj


def has_undef(v):
    from .interp import has_undef as h
    return h(v)


@model("std::basic_ostream::put")
def _(I, c, obj, args, e):
    sev(I, "sput", obj, [I.val(args[0])], e, pt=c.ps[0].strip())
    return obj


@model("std::basic_ostream::flush")
def _(I, c, obj, args, e):
    sev(I, "sflush", obj, [], e)
    return obj


@model("std::basic_ifstream::close", "std::basic_ofstream::close", "std::basic_fstream::close")
def _(I, c, obj, args, e):
    sev(I, "sclose", obj, [], e)
    return T("void")


@model("std::basic_ios::clear", "std::basic_ios::setstate")
def _(I, c, obj, args, e):
    sev(I, "sclear", obj, [I.val(a) for a in args], e)
    return T("void")


@model("std::basic_ios::good", "std::basic_ios::operator bool", "std::basic_ios::operator!", "std::basic_ios::fail",
       "std::basic_ios::eof", "std::basic_ios::bad", "std::basic_ios::rdstate")
def _(I, c, obj, args, e):
    ver = stream_ver(I, obj)
    op = c.q.split("::")[-1]
    if op == "good":
        return T("good", ver)
    if op == "eof":
        return T("eof", ver)
    if op == "bad":
        return T("bad", ver)
    if op == "rdstate":
        return T("rdstate", ver)
    f = T("fail", ver)
    return mk_not(f) if op == "operator bool" else f


@model("std::basic_stringstream::str", "std::basic_ostringstream::str", "std::basic_istringstream::str")
def _(I, c, obj, args, e):
    if args:
        sid, ev = sev(I, "sreset", obj, [I.val(args[0])], e)
        return T("void")
    return T("sstr", stream_id(I, obj), stream_ver(I, obj))


@model("std::basic_ostream::operator<<")
def _(I, c, obj, args, e):
    a = I.val(args[0]) if args else T("void")
    if a.op == "fn":
        nm = a.args[0]
        callee = I.P.callees.get(nm)
        if callee is not None and "flush" in callee.n:
            sev(I, "sflush", obj, [], e)
            return obj
    sev(I, "sput", obj, [a], e, pt=c.ps[0].strip() if c.ps else None)
    return obj


@model("std::operator<<")
def _(I, c, obj, args, e):
    if not is_stream(I, args[0], c.ps[0]):
        return None
    p = c.ps[1].strip()
    v = I.val(args[1])
    if p.k == "ptr":
        v = cstr(I, v)
    sev(I, "sput", args[0], [v], e, pt=p)
    return args[0]


@model("std::operator>>", "std::basic_istream::operator>>")
def _(I, c, obj, args, e):
    s, a = self_and_args(obj, args)
    sid, ev = sev(I, "sread", s, [T("fmt"), T("fmt")], e)
    if a and I.islv(a[0]):
        I.write(a[0], T("rdfmt", ev, sid), e)
    return s


@model("std::getline")
def _(I, c, obj, args, e):
    sid, ev = sev(I, "sread", args[0], [T("line"), T("line")], e)
    if I.islv(args[1]):
        I.write(args[1], T("rdline", ev, sid), e)
    return args[0]


@ctor("std::istreambuf_iterator::istreambuf_iterator", "std::istream_iterator::istream_iterator")
def _(I, c, args, e):
    if not args:
        return T("sbitend")
    if c.copy or c.move:
        return I.val(args[0])
    return T("sbit", stream_id(I, args[0]), stream_ver(I, args[0]))


@ctor("std::ostreambuf_iterator::ostreambuf_iterator", "std::ostream_iterator::ostream_iterator")
def _(I, c, args, e):
    if c.copy or c.move:
        return I.val(args[0])
    return T("sbot", args[0] if I.islv(args[0]) else I.val(args[0]))


def read_rest(I, src, e):
    """A 'rest' value consumes the stream."""
    if src.op == "rest":
        sid = src.args[0]
        ev = I.emit("srest", show_kind(sid), [sid], e)
        return T("rest", sid, ev)
    return src


# -- output iterators -----------------------------------------------------
@model("std::back_inserter")
def _(I, c, obj, args, e):
    return T("bi", args[0])


@ctor("std::back_insert_iterator::back_insert_iterator")
def _(I, c, args, e):
    v = I.val(args[0])
    if v.op == "bi":
        return v
    return T("bi", args[0])


def out_put(I, it, v, e):
    """Store one element through an output iterator value."""
    if it.op == "bi":
        lv = it.args[0]
        I.write(lv, T("vec", I.read(lv), v), e)
        return True
    if it.op == "sbot":
        sev(I, "sput", it.args[0], [v], e)
        return True
    if it.op == "iter":
        I.write(I.iter_deref(it, e), v, e)
        return True
    return False


def out_range(I, it, src, e, n=None):
    """Store a whole sequence through an output iterator."""
    src = read_rest(I, src, e)
    if it.op == "bi":
        lv = it.args[0]
        old = I.read(lv)
        I.write(lv, src if old is EMPTY else T("cat", old, src), e)
        return it
    if it.op == "sbot":
        sev(I, "swrite", it.args[0], [src, n if n is not None else mk_size(src)], e, src=None)
        return it
    if it.op == "iter":
        C = it.args[0]
        old = I.read(C)
        I.emit("copyinto", "copy", [C, it.args[1], src, old], e)
        if isint(it.args[1], 0):
            I.write(C, src if not (old.op in ("resized",) and False) else src, e)
        else:
            I.write(C, T("overlay", old, it.args[1], src), e)
        return T("iter", C, T("adv", it.args[1], src))
    if it.op in ("cdata", "addr"):
        lv = it.args[0]
        I.emit("copyinto", "copy", [lv, INT(0), src, I.read(lv)], e)
        I.write(lv, src, e)
        return it
    if it.op == "struct" or it.op == "phi":
        f = project(it, "first_")
        if f.op == "iter":
            out_range(I, f, src, e)
            return it
    I.note_unknown("output iterator " + it.op, e)
    return it


@model("std::copy", "std::move_backward", "std::copy_backward")
def _(I, c, obj, args, e):
    src = rangeval(I, args[0], args[1])
    if c.q == "std::copy":
        note_out(I, args[0], args[1], args[2], e)
    return out_range(I, I.val(args[2]), src, e)


def note_out(I, a, b, out, e, why="dest"):
    """As many elements as [a, b) has are accessed from out on."""
    a, b, out = I.val(a), I.val(b), I.val(out)
    if out.op in ("iter", "cdata", "addr", "padd"):
        n = I.span(a, b)
        I.note_access(out, n if n is not None else T("opq", "span", e["u"]), e, why, "e")
    if b.op in ("iter", "padd") and not (b.op == "iter" and b.args[1] is END):
        I.note_access(a, I.span(a, b), e, "source", "e")


@model("std::copy_n")
def _(I, c, obj, args, e):
    a = I.val(args[0])
    n = I.val(args[1])
    if a.op != "sbit":
        I.note_access(a, n, e, "source", "e")
    if I.val(args[2]).op in ("iter", "cdata", "addr", "padd"):
        I.note_access(I.val(args[2]), n, e, "dest", "e")
    if a.op == "iter":
        src = T("slice", I.read(a.args[0]), a.args[1], n)
    elif a.op == "sbit":
        sid = a.args[0]
        ev = I.emit("srest", show_kind(sid), [sid, n], e)
        src = T("rd", ev, sid, n)
    else:
        v, lv = bytes_at(I, a, n)
        src = T("slice", v, INT(0), n)
    return out_range(I, I.val(args[2]), src, e, n)


@model("std::copy_if", "std::remove_copy_if")
def _(I, c, obj, args, e):
    src = rangeval(I, args[0], args[1])
    return out_range(I, I.val(args[2]), T("filter", src, I.val(args[3])), e)


@model("std::fill", "std::fill_n")
def _(I, c, obj, args, e):
    it = I.val(args[0])
    v = I.val(args[2])
    if it.op in ("iter", "cdata", "addr", "padd"):
        I.note_access(it, I.val(args[1]) if c.q.endswith("_n") else I.span(it, I.val(args[1])), e, "dest", "e")
    if it.op == "iter":
        C = it.args[0]
        if isint(it.args[1], 0) and I.val(args[1]).op == "iter" and I.val(args[1]).args[1] is END:
            I.write(C, T("filled", v), e)
        else:
            I.write(C, T("overlay", I.read(C), it.args[1], T("filled", v)), e)
        return T("void")
    if it.op in ("bi", "sbot"):
        return out_range(I, it, T("repeat", v, I.val(args[1])), e)
    return None


@model("std::generate_n")
def _(I, c, obj, args, e):
    n = I.val(args[1])
    it = I.val(args[0])
    cl = I.val(args[2])
    if it.op in ("iter", "cdata", "addr", "padd"):
        I.note_access(it, n, e, "dest", "e")

    def run(I2, key):
        v = I2.val(I2.call_closure(cl, [], e))
        if I2.S is not None:
            if not out_put(I2, it, v, e):
                I2.note_unknown("generate_n output", e)
    # loop body runs n times
    I.loop(e, "gen", runner=run, meta=n)
    return it


@model("std::generate", "std::for_each")
def _(I, c, obj, args, e):
    a, b = I.val(args[0]), I.val(args[1])
    cl = I.val(args[2])
    foreach = c.q.endswith("for_each")
    if a.op == "iter":
        C = a.args[0]

        def run(I2, key):
            el = sub(C, T("idx", T("i", key)))
            if foreach:
                I2.call_closure(cl, [el], e)
            else:
                v = I2.val(I2.call_closure(cl, [], e))
                if I2.S is not None:
                    I2.write(el, v, e)
        I.loop(e, "range", runner=run, meta=C)
        return cl if foreach else T("void")
    return None


@model("std::transform")
def _(I, c, obj, args, e):
    a, b = I.val(args[0]), I.val(args[1])
    binary = len(args) == 5
    cl = I.val(args[-1])
    out = I.val(args[-2])
    src = rangeval(I, args[0], args[1])
    note_out(I, args[0], args[1], args[-2], e)
    src2 = None
    if binary:
        note_out(I, args[0], args[1], args[2], e, "second")
        a2 = I.val(args[2])
        src2 = I.read(a2.args[0]) if a2.op == "iter" else T("pbytes", a2)
    if cl.op in ("closure", "fn") and a.op == "iter":
        box = {}

        def run(I2, key):
            el = [sub(a.args[0], T("idx", T("i", key)))]
            if binary:
                a2 = I2.val(args[2])
                el.append(sub(a2.args[0], T("idx", T("i", key))) if a2.op == "iter" else T("at", src2, T("i", key)))
            v = I2.val(I2.call_closure(cl, el, e))
            box["v"] = v
            box["k"] = key
        I.loop(e, "range", runner=run, meta=a.args[0])
        if I.S is None:
            return T("void")
        if "v" in box:
            res = T("map", box["v"], src) if src2 is None else T("map", box["v"], src, src2)
        else:
            res = T("opq", "transform", e["u"])
    else:
        res = T("mapf", cl, src) if src2 is None else T("mapf", cl, src, src2)
    return out_range(I, out, res, e)


@model("std::find_if", "std::find", "std::find_if_not")
def _(I, c, obj, args, e):
    a = I.val(args[0])
    p = I.val(args[2])
    if a.op == "iter":
        C = a.args[0]
        box = {}
        if p.op == "closure":
            def run(I2, key):
                box["k"] = key
                box["v"] = truthy(I2.val(I2.call_closure(p, [sub(C, T("idx", T("i", key)))], e)))
            I.loop(e, "range", runner=run, meta=C)
        ev = I.emit("find", c.q, [I.read(C), p], e)
        return T("iter", C, T("findif", ev, box.get("v", p), box.get("k", 0)))
    return None


@model("std::any_of", "std::all_of", "std::none_of", "std::count_if")
def _(I, c, obj, args, e):
    a = I.val(args[0])
    p = I.val(args[2])
    if a.op == "iter":
        C = a.args[0]
        box = {}

        def run(I2, key):
            box["k"] = key
            box["v"] = truthy(I2.val(I2.call_closure(p, [sub(C, T("idx", T("i", key)))], e)))
        I.loop(e, "range", runner=run, meta=C)
        if I.S is None:
            return T("void")
        return T("quant", c.q, I.read(C), box.get("v", p), box.get("k", 0))
    return None


@model("std::equal")
def _(I, c, obj, args, e):
    a = I.val(args[0])
    b = I.val(args[2])
    full = rangeval(I, args[0], args[1])
    pi = None
    blen = None
    if len(args) == 4:
        p = c.ps[3].strip()
        v3 = I.val(args[3])
        if v3.op in ("closure", "fn", "functor", "struct"):
            pi = v3
        else:
            blen = v3
    elif len(args) == 5:
        blen = I.val(args[3])
        pi = I.val(args[4])
    if a.op != "iter" or b.op != "iter":
        return T("equal", full, b)
    A, B = a.args[0], b.args[0]
    if blen is None:
        note_out(I, args[0], args[1], args[2], e, "second")
    I.emit("equal", "std::equal", [A, B, I.read(A), I.read(B), a.args[1], b.args[1],
                                   blen if blen is not None else NULL], e, same_len=blen is not None, full=full)
    if pi is None:
        va, vb = I.read(A), I.read(B)
        pt = c.ps[0].strip()
        if full is va and isint(b.args[1], 0) and pt.k == "ptr" and pt.p is not None and pt.p.k in ("int", "bool", "enum"):
            return mk_eq(va, vb)        # whole arrays
        return T("equal", full, I.read(B), INT(1 if blen is not None else 0), T("dflt"))
    box = {}

    def run(I2, key):
        el = [sub(A, T("idx", T("i", key))), sub(B, T("idx", T("i", key)))]
        box["v"] = truthy(I2.val(I2.call_closure(pi, el, e)))
        box["k"] = key
    I.loop(e, "range", runner=run, meta=A)
    if I.S is None:
        return T("void")
    return T("equal", full, I.read(B), INT(1 if blen is not None else 0), box.get("v", T("opq", "pred", e["u"])),
             box.get("k", 0))


@model("std::min", "std::max")
def _(I, c, obj, args, e):
    a, b = I.val(args[0]), I.val(args[1])
    if a.op == "int" and b.op == "int":
        return INT((min if c.q.endswith("min") else max)(a.args[0], b.args[0]))
    return T("bin", c.q[5:], a, b, None)


@model("std::move", "std::forward", "std::addressof", "std::ref", "std::cref", "std::as_const", "std::__addressof")
def _(I, c, obj, args, e):
    if c.q == "std::move" and len(args) == 3:
        note_out(I, args[0], args[1], args[2], e)
        src = rangeval(I, args[0], args[1])
        return out_range(I, I.val(args[2]), src, e)
    if "addressof" in c.q:
        return I.addr_of(I.tolv(args[0], e))
    return args[0]


@model("std::swap")
def _(I, c, obj, args, e):
    if len(args) == 2:
        a, b = I.tolv(args[0], e), I.tolv(args[1], e)
        va, vb = I.read(a), I.read(b)
        I.write(a, vb, e)
        I.write(b, va, e)
        return T("void")
    return None


@model("std::distance")
def _(I, c, obj, args, e):
    return mk_size(rangeval(I, args[0], args[1]))


@model("std::get")
def _(I, c, obj, args, e):
    k = next((t for t in c.targs if isinstance(t, int)), None)
    if k is None:
        return None
    name = str(k)
    x = args[0]
    t = (c.ps[0].strip().n or "")
    if t.startswith("std::array"):
        pe = T("idx", INT(k))
    elif t.startswith("std::pair"):
        pe = "first" if k == 0 else "second"
    else:
        pe = name
    if I.islv(x):
        return I.sub_all(x, pe)
    return project(I.val(x), pe)


@model("std::make_tuple", "std::forward_as_tuple", "std::tie")
def _(I, c, obj, args, e):
    return mk_struct("std::tuple", None, {str(i): I.val(a) for i, a in enumerate(args)})


@ctor("std::tuple::tuple")
def _(I, c, args, e):
    if c.copy or c.move:
        return I.val(args[0])
    return mk_struct("std::tuple", None, {str(i): I.val(a) for i, a in enumerate(args)})


@model("std::make_pair")
def _(I, c, obj, args, e):
    return mk_struct("std::pair", None, {"first": pv(I, args[0]), "second": pv(I, args[1])})


def pv(I, x):
    v = I.val(x)
    return cstr(I, v) if v.op in ("cdata",) else v


@ctor("std::pair::pair")
def _(I, c, args, e):
    if c.copy or c.move or (len(args) == 1):
        return I.val(args[0])
    if len(args) == 2:
        return mk_struct("std::pair", None, {"first": pv(I, args[0]), "second": pv(I, args[1])})
    return None


# -- strings, vectors, arrays --------------------------------------------
SEQ = ("std::basic_string", "std::vector", "std::array", "std::deque", "std::list", "std::initializer_list",
       "std::unordered_map", "std::map", "std::set", "std::unordered_set")


def seqs(*names):
    return [s + "::" + n for s in SEQ for n in names]


def arr_n(c):
    t = c.cls
    if t is not None and (t.n or t.s or "").startswith("std::array"):
        from .interp import arr_len
        return arr_len(t)
    return None


@ctor("std::basic_string::basic_string")
def _(I, c, args, e):
    if not args:
        return EMPTY
    a = I.val(args[0])
    if c.copy or c.move:
        return a
    ps = [p.strip() for p in c.ps]
    if len(args) >= 2 and ps[0].k == "ptr" and ps[1].k == "int":
        v, lv = bytes_at(I, a, I.val(args[1]))
        I.note_access(a, I.val(args[1]), e, "source", "e")
        return T("bytes", v, I.val(args[1]))
    if ps and ps[0].k == "ptr":
        if a.op == "str":
            return a if a.args[0] else EMPTY
        return ctext(I, a)
    if ps and ps[0].k == "int" and len(args) >= 2:
        return T("repeat", I.val(args[1]), a)
    if len(args) >= 2 and not (ps[0].n or "").startswith("std::basic_string"):
        return read_rest(I, rangeval(I, args[0], args[1]), e)
    if len(args) >= 2 and len(c.ps) >= 2 and ps[1].k == "int":
        return T("substr", a, tuple(I.val(x) for x in args[1:]))
    return a


@ctor("std::vector::vector", "std::deque::deque", "std::list::list")
def _(I, c, args, e):
    if not args:
        return EMPTY
    a = I.val(args[0])
    if c.copy or c.move:
        return a
    ps = [p.strip() for p in c.ps]
    if ps[0].k == "int":
        if len(args) >= 2 and ps[1].k != "rec":
            return T("repeat", I.val(args[1]), a)
        return T("resized", EMPTY, a)
    if (ps[0].n or ps[0].s or "").startswith("std::initializer_list"):
        if a.op == "arr":
            v = EMPTY
            for x in a.args[0]:
                v = T("vec", v, x)
            return v
        return a
    if len(args) >= 2:
        return read_rest(I, rangeval(I, args[0], args[1]), e)
    return a


@ctor("std::array::array")
def _(I, c, args, e):
    if not args:
        return T("undef", "std::array")
    return I.val(args[0])


@model(*seqs("operator="))
def _(I, c, obj, args, e):
    v = I.val(args[0])
    p = c.ps[0].strip()
    if p.k == "ptr":
        v = cstr(I, v)
        if v is STR(""):
            v = EMPTY
    if (p.n or p.s or "").startswith("std::initializer_list") and v.op == "arr":
        x = EMPTY
        for y in v.args[0]:
            x = T("vec", x, y)
        v = x
    I.write(obj, v, e)
    return obj


@model(*seqs("size", "length"))
def _(I, c, obj, args, e):
    n = arr_n(c)
    if n is not None:
        return INT(n)
    return mk_size(I.val(obj))


@model(*seqs("max_size", "capacity"))
def _(I, c, obj, args, e):
    return T("opq", c.q, (), e["u"])


@model(*seqs("empty"))
def _(I, c, obj, args, e):
    return mk_eq(mk_size(I.val(obj)), INT(0))


@model(*seqs("begin", "cbegin"))
def _(I, c, obj, args, e):
    I.note_cap(I.tolv(obj, e), c.cls)
    return T("iter", I.tolv(obj, e), INT(0))


@model(*seqs("end", "cend"))
def _(I, c, obj, args, e):
    I.note_cap(I.tolv(obj, e), c.cls)
    return T("iter", I.tolv(obj, e), END)


@model("std::begin", "std::cbegin", "std::end", "std::cend")
def _(I, c, obj, args, e):
    return T("iter", I.tolv(args[0], e), END if c.q.endswith("end") else INT(0))


@model(*seqs("data", "c_str"))
def _(I, c, obj, args, e):
    I.note_cap(I.tolv(obj, e), c.cls)
    return T("cdata", I.tolv(obj, e))


def is_map(c):
    return (c.cls.n or c.cls.s or "").startswith(("std::unordered_map", "std::map"))


def bounds(I, ok, e):
    """Checked element access: throws std::out_of_range unless the condition holds."""
    if ok is TRUE or (I.S is not None and ok in I.S.facts):
        return
    I.throw_state("std::out_of_range", T("opq", "at"), e, implicit=True, cond=mk_not(ok))
    if I.S is not None:
        I.S.facts = I.S.facts | frozenset([ok])


@model(*seqs("operator[]", "at"))
def _(I, c, obj, args, e):
    o = I.tolv(obj, e)
    i = I.val(args[0])
    if is_map(c):
        k = cstr(I, i) if c.ps[0].strip().k == "ptr" else i
        if c.q.endswith("::at"):
            bounds(I, T("has", I.read(o), k), e)
        return I.sub_all(o, T("key", k))
    if c.q.endswith("::at"):
        n = arr_n(c)
        if not (n is not None and i.op == "int" and i.args[0] < n):
            bounds(I, mk_lt(i, INT(n) if n is not None else mk_size(I.read(o))), e)
    else:
        I.note_cap(o, c.cls)
        I.note_index(o, i, e, "[]")
    return I.sub_all(o, T("idx", i))


@model(*seqs("front"))
def _(I, c, obj, args, e):
    o = I.tolv(obj, e)
    I.note_index(o, INT(0), e, "front")
    return I.sub_all(o, T("idx", INT(0)))


@model(*seqs("back"))
def _(I, c, obj, args, e):
    o = I.tolv(obj, e)
    I.note_index(o, T("last"), e, "back")
    v = I.read(o)
    if v.op == "vec":
        return v.args[1]
    return I.sub_all(o, T("idx", T("last")))


@model(*seqs("push_back", "emplace_back"))
def _(I, c, obj, args, e):
    v = I.val(args[0]) if args else T("made", "elem", ())
    el = c.cls.args[0] if c.cls is not None and c.cls.args and hasattr(c.cls.args[0], "s") else None
    name = (el.n or el.r or el.s) if el is not None else None
    if c.q.endswith("emplace_back") and name is not None and I.P.record(name) is not None:
        lv = I.tolv(T("int", 0), e, "emplaced")
        make_object(I, el, name, args, lv, e)
        v = I.read(lv)
    elif len(args) > 1 and (name or "").startswith("std::tuple"):
        v = mk_struct("std::tuple", None, {str(i): I.val(a) for i, a in enumerate(args)})
    elif len(args) == 2 and (name or "").startswith("std::pair"):
        v = mk_struct("std::pair", None, {"first": pv(I, args[0]), "second": pv(I, args[1])})
    elif len(args) > 1:
        v = T("made", "elem", tuple(I.val(a) for a in args))
    o = I.tolv(obj, e)
    I.emit("push", c.q, [o, v], e)
    I.write(o, T("vec", I.read(o), v), e)
    return T("void") if c.ret.k == "void" else I.sub_all(o, T("idx", T("last")))


@model(*seqs("pop_back"))
def _(I, c, obj, args, e):
    o = I.tolv(obj, e)
    v = I.read(o)
    I.note_index(o, T("last"), e, "pop")
    I.write(o, v.args[0] if v.op == "vec" else T("popped", v), e)
    return T("void")


@model(*seqs("clear"))
def _(I, c, obj, args, e):
    I.write(obj, EMPTY, e)
    return T("void")


@model(*seqs("reserve", "shrink_to_fit"))
def _(I, c, obj, args, e):
    return T("void")


@model(*seqs("resize"))
def _(I, c, obj, args, e):
    o = I.tolv(obj, e)
    n = I.val(args[0])
    I.write(o, T("empty") if n is INT(0) else T("resized", I.read(o), n), e)
    return T("void")


@model(*seqs("assign"))
def _(I, c, obj, args, e):
    if len(args) == 2 and c.ps[0].strip().k != "int":
        if c.ps[0].strip().k == "ptr" and c.ps[1].strip().k == "int":
            v, lv = bytes_at(I, I.val(args[0]), I.val(args[1]))
            I.note_access(I.val(args[0]), I.val(args[1]), e, "source", "e")
            v = T("bytes", v, I.val(args[1]))
        else:
            v = read_rest(I, rangeval(I, args[0], args[1]), e)
    elif len(args) == 1:
        v = pv(I, args[0])
    else:
        v = T("repeat", I.val(args[1]), I.val(args[0]))
    I.write(obj, v, e)
    return obj if c.ret.k != "void" else T("void")


@model("std::array::fill")
def _(I, c, obj, args, e):
    v = I.val(args[0])
    I.write(obj, T("zeros", arr_n(c) or 0) if v is INT(0) else T("filled", v), e)
    return T("void")


def strarg(I, c, i, x):
    v = I.val(x)
    return cstr(I, v) if c.ps[i].strip().k == "ptr" else v


@model("std::basic_string::append", "std::basic_string::operator+=")
def _(I, c, obj, args, e):
    if len(args) == 1:
        v = strarg(I, c, 0, args[0])
        if c.ps[0].strip().k == "int":
            v = T("vec", EMPTY, v)
    elif c.ps[0].strip().k == "ptr" and c.ps[1].strip().k == "int":
        I.note_access(I.val(args[0]), I.val(args[1]), e, "source", "e")
        v = T("bytes", bytes_at(I, I.val(args[0]), None)[0], I.val(args[1]))
    elif c.ps[0].strip().k == "int":
        v = T("repeat", I.val(args[1]), I.val(args[0]))
    else:
        v = rangeval(I, args[0], args[1])
    o = I.tolv(obj, e)
    old = I.read(o)
    I.write(o, v if old is EMPTY else T("cat", old, v), e)
    return o


@model("std::operator+")
def _(I, c, obj, args, e):
    a = [strarg(I, c, i, x) for i, x in enumerate(args)]
    if a[0].op == "iter" or a[1].op == "iter":
        return mk_bin("+", a[0], a[1], None)
    return T("cat", a[0], a[1])


@model("std::basic_string::substr")
def _(I, c, obj, args, e):
    return T("substr", I.val(obj), tuple(I.val(x) for x in args))


@model("std::basic_string::find", "std::basic_string::find_first_not_of", "std::basic_string::find_first_of",
       "std::basic_string::rfind", "std::basic_string::find_last_of", "std::basic_string::find_last_not_of",
       "std::basic_string::compare")
def _(I, c, obj, args, e):
    v = [I.val(obj)] + [strarg(I, c, i, x) for i, x in enumerate(args)]
    if c.q.endswith("compare") and len(args) == 1:
        return T("strcmp", v[0], v[1])
    return T("sfind", c.q.split("::")[-1], tuple(v))


@model(*seqs("erase", "insert", "emplace", "insert_or_assign", "try_emplace"))
def _(I, c, obj, args, e):
    o = I.tolv(obj, e)
    old = I.read(o)
    m = c.q.split("::")[-1]
    if is_map(c) and m in ("insert", "emplace", "insert_or_assign", "try_emplace"):
        p = I.val(args[0])
        if len(args) == 2 and m != "insert":
            k, v = pv(I, args[0]), I.val(args[1])
        else:
            k, v = project(p, "first"), project(p, "second")
        I.emit("mapput", c.q, [o, k, v], e, how=m)
        I.write(o, T("mapput", old, k, v), e)
        return mk_struct("std::pair", None, {"first": T("iter", o, T("find", I.read(o), k)), "second": mk_not(T("has", old, k))})
    if m == "insert" and len(args) == 3:
        at = I.val(args[0])
        if at.op == "iter" and at.args[1] is END:
            src = read_rest(I, rangeval(I, args[1], args[2]), e)
            I.write(o, src if old is EMPTY else T("cat", old, src), e)
            return T("iter", o, T("opq", "ins", e["u"]))
    if m == "insert" and len(args) == 2:
        at = I.val(args[0])
        if at.op == "iter" and at.args[1] is END:
            v = I.val(args[1])
            I.emit("push", c.q, [o, v], e)
            I.write(o, T("vec", old, v), e)
            return T("iter", o, T("opq", "ins", e["u"]))
    ev = I.emit("edit", c.q, [o] + [I.val(a) for a in args], e)
    I.write(o, T("edited", old, ev), e)
    return T("iter", o, T("opq", m, e["u"])) if c.ret.k == "rec" else T("opq", m, e["u"])


@model(*seqs("swap"))
def _(I, c, obj, args, e):
    a, b = I.tolv(obj, e), I.tolv(args[0], e)
    va, vb = I.read(a), I.read(b)
    I.write(a, vb, e)
    I.write(b, va, e)
    return T("void")


@model("std::unordered_map::find", "std::map::find", "std::set::find", "std::unordered_set::find")
def _(I, c, obj, args, e):
    o = I.tolv(obj, e)
    return T("iter", o, T("find", I.read(o), strarg(I, c, 0, args[0])))


@model("std::unordered_map::count", "std::map::count", "std::set::count", "std::unordered_set::count")
def _(I, c, obj, args, e):
    return T("has", I.val(obj), strarg(I, c, 0, args[0]))


@ctor("std::unordered_map::unordered_map", "std::map::map", "std::set::set", "std::unordered_set::unordered_set")
def _(I, c, args, e):
    if c.copy or c.move:
        return I.val(args[0])
    if not args:
        return EMPTY
    return None


# -- iterators ------------------------------------------------------------
ITERCLS = ("__gnu_cxx::__normal_iterator", "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator",
           "std::__detail::_Node_iterator_base", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator",
           "std::move_iterator", "std::reverse_iterator")


def pass_ctor(I, c, args, e):
    if args:
        return I.val(args[0])
    return T("undef", "iterator")


for _n in ITERCLS:
    CTOR[_n + "::" + _n.split("::")[-1]] = pass_ctor


@ctor("std::fpos::fpos", "std::bit_xor::bit_xor", "std::allocator::allocator", "std::iterator::iterator")
def _(I, c, args, e):
    if args:
        return I.val(args[0])
    return T("made", c.cls.n or c.cls.s, ())


@model("std::fpos::operator long")
def _(I, c, obj, args, e):
    return I.val(obj)


@model("std::fpos::operator-", "std::fpos::operator+")
def _(I, c, obj, args, e):
    return mk_bin(c.q[-1], I.val(obj), I.val(args[0]), None)


@model(*[n + "::operator*" for n in ITERCLS])
def _(I, c, obj, args, e):
    v = I.val(obj)
    return deref_iter(I, v, e)


def deref_iter(I, v, e):
    if v.op == "phi":
        return mk_phi([(g, deref_iter(I, x, e)) for g, x in alts(v)])
    if v.op == "iter":
        return I.iter_deref(v, e)
    return LV(T("obj", v))


@model(*[n + "::operator->" for n in ITERCLS])
def _(I, c, obj, args, e):
    x = deref_iter(I, I.val(obj), e)
    return I.addr_of(x)


@model(*[n + "::operator[]" for n in ITERCLS])
def _(I, c, obj, args, e):
    v = I.val(obj)
    if v.op == "iter":
        return I.iter_deref(T("iter", v.args[0], mk_bin("+", v.args[1], I.val(args[0]), None)), e)
    return None


@model(*[n + "::operator++" for n in ITERCLS])
def _(I, c, obj, args, e):
    return step(I, obj, args, e, 1)


@model(*[n + "::operator--" for n in ITERCLS])
def _(I, c, obj, args, e):
    return step(I, obj, args, e, -1)


def step(I, obj, args, e, d):
    v = I.val(obj)
    if v.op == "iter":
        nv = T("iter", v.args[0], mk_bin("+", v.args[1], INT(d), None) if d > 0 else mk_bin("-", v.args[1], INT(1), None))
    elif v.op in ("bi", "sbot"):
        nv = v
    else:
        nv = T("next", v)
    I.write(I.tolv(obj, e), nv, e)
    return v if args else obj


@model(*[n + "::operator" + o for n in ITERCLS for o in ("+", "-")])
def _(I, c, obj, args, e):
    return mk_bin(c.q[-1], I.val(obj), I.val(args[0]), None)


@model(*[n + "::operator" + o for n in ITERCLS for o in ("+=", "-=")])
def _(I, c, obj, args, e):
    v = mk_bin(c.q[-2], I.val(obj), I.val(args[0]), None)
    I.write(obj, v, e)
    return obj


@model(*[n + "::operator=" for n in ITERCLS])
def _(I, c, obj, args, e):
    I.write(obj, I.val(args[0]), e)
    return obj


@model(*[n + "::base" for n in ITERCLS])
def _(I, c, obj, args, e):
    return I.val(obj)


@model("std::next", "std::prev")
def _(I, c, obj, args, e):
    n = I.val(args[1]) if len(args) > 1 else INT(1)
    return mk_bin("+" if c.q.endswith("next") else "-", I.val(args[0]), n, None)


@model("std::advance")
def _(I, c, obj, args, e):
    I.write(args[0], mk_bin("+", I.val(args[0]), I.val(args[1]), None), e)
    return T("void")


@model("std::istreambuf_iterator::operator*")
def _(I, c, obj, args, e):
    v = I.val(obj)
    if v.op == "sbit":
        return T("peekit", v.args[0], v.args[1])
    return T("peekit", v, v)


@model("std::istreambuf_iterator::operator++")
def _(I, c, obj, args, e):
    v = I.val(obj)
    sid = v.args[0] if v.op == "sbit" else v
    ev = I.emit("sget", show_kind(sid), [sid], e)
    I.write(obj, T("sbit", sid, ev), e)
    return v if args else obj


@model("std::back_insert_iterator::operator*", "std::back_insert_iterator::operator++",
       "std::ostreambuf_iterator::operator*", "std::ostreambuf_iterator::operator++")
def _(I, c, obj, args, e):
    return obj


@model("std::back_insert_iterator::operator=", "std::ostreambuf_iterator::operator=")
def _(I, c, obj, args, e):
    if c.casg or c.masg:
        I.write(obj, I.val(args[0]), e)
        return obj
    out_put(I, I.val(obj), I.val(args[0]), e)
    return obj


def cmp_vals(I, c, obj, args):
    s, a = self_and_args(obj, args)
    x, y = I.val(s), I.val(a[0])
    ps = list(c.ps) if obj is None else [None] + list(c.ps)
    # string against char pointer
    out = []
    for v, p in ((x, ps[0] if ps else None), (y, ps[1] if len(ps) > 1 else None)):
        if p is not None and p.strip().k == "ptr" and v.op in ("cdata", "cstr"):
            v = cstr(I, v)
        out.append(v)
    return out


def generic_eq(I, x, y):
    if x.op == "iter" and y.op == "iter":
        if x.args[0] is y.args[0]:
            p, r = x.args[1], y.args[1]
            for a, b in ((p, r), (r, p)):
                if b is END and a.op == "find":
                    return mk_not(T("has", a.args[0], a.args[1]))
                if b is END and a.op == "findif":
                    return mk_not(T("truthy", a))
            return mk_eq(p, r)
        return T("eq", x, y)
    if x.op == "phi" and any(v.op == "iter" for g, v in alts(x)):
        return mk_phi([(g, generic_eq(I, v, y)) for g, v in alts(x)])
    if x.op == "empty" or y.op == "empty":
        if x is y:
            return TRUE
        o = y if x.op == "empty" else x
        return mk_eq(mk_size(o), INT(0))
    return mk_eq(x, y)


@model("std::operator==", "__gnu_cxx::operator==", "std::__detail::operator==", "std::rel_ops::operator==")
def _(I, c, obj, args, e):
    x, y = cmp_vals(I, c, obj, args)
    return generic_eq(I, x, y)


@model("std::operator!=", "__gnu_cxx::operator!=", "std::__detail::operator!=", "std::rel_ops::operator!=")
def _(I, c, obj, args, e):
    x, y = cmp_vals(I, c, obj, args)
    return mk_not(generic_eq(I, x, y))


@model("std::istreambuf_iterator::equal")
def _(I, c, obj, args, e):
    return mk_eq(I.val(obj), I.val(args[0]))


@model("std::operator<", "std::operator>", "std::operator<=", "std::operator>=", "__gnu_cxx::operator<",
       "__gnu_cxx::operator>", "__gnu_cxx::operator-")
def _(I, c, obj, args, e):
    x, y = cmp_vals(I, c, obj, args)
    return mk_bin(c.q.split("operator")[-1], x, y, None)


@model("std::operator&", "std::operator|", "std::operator^")
def _(I, c, obj, args, e):
    return mk_bin(c.q[-1], I.val(args[0]), I.val(args[1]), "s32")


# -- smart pointers -------------------------------------------------------
SP = ("std::shared_ptr", "std::weak_ptr", "std::unique_ptr", "std::__shared_ptr", "std::__weak_ptr",
      "std::__shared_ptr_access", "std::function")


@ctor("std::shared_ptr::shared_ptr", "std::weak_ptr::weak_ptr", "std::unique_ptr::unique_ptr",
      "std::__shared_ptr::__shared_ptr", "std::__weak_ptr::__weak_ptr")
def _(I, c, args, e):
    if not args:
        return NULL
    return I.val(args[0])


@ctor("std::function::function")
def _(I, c, args, e):
    if not args:
        return NULL
    return I.val(args[0])


@model(*[s + "::operator=" for s in SP])
def _(I, c, obj, args, e):
    I.write(obj, I.val(args[0]), e)
    return obj


@model(*[s + "::operator->" for s in SP])
def _(I, c, obj, args, e):
    return I.val(obj)


@model(*[s + "::get" for s in SP])
def _(I, c, obj, args, e):
    return I.val(obj)


@model(*[s + "::operator*" for s in SP])
def _(I, c, obj, args, e):
    return I.deref(I.val(obj), e, "*")


@model(*[s + "::operator bool" for s in SP])
def _(I, c, obj, args, e):
    return truthy(I.val(obj))


@model(*[s + "::reset" for s in SP])
def _(I, c, obj, args, e):
    I.write(obj, I.val(args[0]) if args else NULL, e)
    return T("void")


@model("std::unique_ptr::release")
def _(I, c, obj, args, e):
    v = I.val(obj)
    I.write(obj, NULL, e)
    return v


@model("std::weak_ptr::lock")
def _(I, c, obj, args, e):
    v = I.val(obj)
    return lock(v)


def lock(v):
    if v.op == "null":
        return NULL
    if v.op == "phi":
        return mk_phi([(g, lock(x)) for g, x in alts(v)])
    return T("lock", v)


@model("std::weak_ptr::expired", "std::__weak_ptr::expired")
def _(I, c, obj, args, e):
    return mk_not(truthy(lock(I.val(obj))))


@model("std::__shared_ptr::use_count", "std::__weak_ptr::use_count")
def _(I, c, obj, args, e):
    return T("opq", "use_count", e["u"])


@model("std::make_shared", "std::make_unique", "std::allocate_shared")
def _(I, c, obj, args, e):
    cls = c.targs[0] if c.targs else None
    name = cls.n or cls.r or cls.s
    ev = I.emit("new", name, [], e)
    p = T("new", ev, name)
    root = T("obj", p)
    make_object(I, cls, name, args, LV(root), e)
    return p


def make_object(I, cls, name, args, lv, e):
    rec = I.P.record(name)
    ct = None
    if rec is not None:
        cand = []
        for m in rec["methods"]:
            mc = m["c"]
            if mc.ctor and len(mc.ps) == len(args) and mc.id in I.P.funcs:
                cand.append(mc)
        if len(args) == 1:
            noncopy = [x for x in cand if not x.copy and not x.move]
            cp = [x for x in cand if x.copy or x.move]
            # class type of the argument decides
            targ = e["c"].ps[0].strip() if e["c"].ps else None
            if targ is not None and (targ.n == name or targ.s == cls.s):
                cand = cp
                if not cand or I.trivial_copy(cand[0], I.P.funcs[cand[0].id]):
                    I.write_raw(lv, I.val(args[0]))
                    return
            else:
                cand = noncopy
        if cand:
            ct = pick(cand, e["c"].ps)
    if ct is not None:
        f = I.P.funcs[ct.id]
        I.write_raw(lv, mk_struct(name, None, {}))
        I.call_function(f, I.addr_of(lv), args, e)
        return
    if name.startswith("std::basic_string") or name.startswith("std::vector"):
        c2 = Callee()
        c2.copy = c2.move = False
        c2.ps = list(e["c"].ps)
        c2.cls = cls
        h = CTOR["std::basic_string::basic_string" if "basic_string" in name else "std::vector::vector"]
        I.write_raw(lv, h(I, c2, args, e))
        return
    I.write_raw(lv, T("made", name, tuple(I.val(a) for a in args)))


def pick(cand, ps):
    if len(cand) == 1:
        return cand[0]
    best, bs = cand[0], -1
    for m in cand:
        s = 0
        for a, b in zip(m.ps, ps):
            x, y = a.strip(), b.strip()
            if x.s.replace("const ", "") == y.s.replace("const ", ""):
                s += 2
            elif x.k == y.k:
                s += 1
        if s > bs:
            best, bs = m, s
    return best


@model("std::function::operator()")
def _(I, c, obj, args, e):
    return I.call_closure(I.val(obj), args, e)


@model("std::static_pointer_cast", "std::dynamic_pointer_cast", "std::const_pointer_cast")
def _(I, c, obj, args, e):
    return I.val(args[0])


# -- hashing --------------------------------------------------------------
@model("SHA256_Init")
def _(I, c, obj, args, e):
    lv = I.deref(I.val(args[0]), e)
    I.write(lv, T("sha0"), e)
    return INT(1)


@model("SHA256_Update")
def _(I, c, obj, args, e):
    lv = I.deref(I.val(args[0]), e)
    n = I.val(args[2])
    v, src = bytes_at(I, I.val(args[1]), n)
    I.note_access(I.val(args[1]), n, e, "hash")
    if has_undef(v):
        I.use_undef(v, e, "hashed")
    I.write(lv, T("shaU", I.read(lv), v, n), e)
    return INT(1)


@model("SHA256_Final")
def _(I, c, obj, args, e):
    lv = I.deref(I.val(args[1]), e)
    ctx = I.read(lv)
    I.note_access(I.val(args[0]), INT(32), e, "digest")
    store_bytes(I, I.val(args[0]), T("sha", ctx), e)
    return INT(1)


@model("SHA256")
def _(I, c, obj, args, e):
    n = I.val(args[1])
    v, src = bytes_at(I, I.val(args[0]), n)
    I.note_access(I.val(args[0]), n, e, "hash")
    r = T("sha", T("shaU", T("sha0"), v, n))
    d = I.val(args[2])
    if d.op != "null":
        I.note_access(d, INT(32), e, "digest")
        store_bytes(I, d, r, e)
    return d


@model("AES_set_encrypt_key", "AES_set_decrypt_key")
def _(I, c, obj, args, e):
    v, src = bytes_at(I, I.val(args[0]), None)
    bits = I.val(args[1])
    I.note_access(I.val(args[0]), INT(bits.args[0] // 8) if bits.op == "int" else mk_bin("/", bits, INT(8), "s32"), e, "key")
    lv = I.deref(I.val(args[2]), e)
    ev = I.emit("aeskey", c.q, [v, I.val(args[1])], e)
    I.write(lv, T("aeskey", c.q[8:15], v, I.val(args[1])), e)
    return INT(0)


@model("AES_encrypt", "AES_decrypt")
def _(I, c, obj, args, e):
    v, src = bytes_at(I, I.val(args[0]), None)
    I.note_access(I.val(args[0]), INT(16), e, "block")
    I.note_access(I.val(args[1]), INT(16), e, "result")
    k = I.read(I.deref(I.val(args[2]), e))
    I.emit("aes", c.q, [v, k], e)
    store_bytes(I, I.val(args[1]), T("aes", c.q[4:], v, k), e)
    return T("void")


# -- memory and C library -------------------------------------------------
@model("memcpy", "std::memcpy", "memmove", "std::memmove", "__builtin_memcpy")
def _(I, c, obj, args, e):
    n = I.val(args[2])
    v, src = bytes_at(I, I.val(args[1]), n)
    d = I.val(args[0])
    I.note_access(I.val(args[1]), n, e, "source")
    I.note_access(d, n, e, "dest")
    if d.op in ("cdata", "addr"):
        I.emit("copyinto", "memcpy", [d.args[0], INT(0), v, I.read(d.args[0])], e)
    store_bytes(I, d, v, e)
    return d


@model("memset", "std::memset", "bzero")
def _(I, c, obj, args, e):
    v = I.val(args[1])
    d = I.val(args[0])
    I.note_access(d, I.val(args[2] if len(args) > 2 else args[1]), e, "dest")
    store_bytes(I, d, T("zeros", 0) if v is INT(0) else T("filled", v), e)
    return d


@model("memcmp", "std::memcmp", "strncmp")
def _(I, c, obj, args, e):
    a, _x = bytes_at(I, I.val(args[0]), None)
    b, _y = bytes_at(I, I.val(args[1]), None)
    if c.q.endswith("memcmp"):
        I.note_access(I.val(args[0]), I.val(args[2]), e, "left")
        I.note_access(I.val(args[1]), I.val(args[2]), e, "right")
    return T("strcmp", a, b)


@model("strcmp", "std::strcmp")
def _(I, c, obj, args, e):
    return T("strcmp", cstr(I, I.val(args[0])), cstr(I, I.val(args[1])))


@model("strlen", "std::strlen")
def _(I, c, obj, args, e):
    return mk_size(ctext(I, I.val(args[0])))


@model("__assert_fail")
def _(I, c, obj, args, e):
    I.emit("assert", "assert", [I.val(args[0])], e, cond=I.assertcond)
    I.S = None
    return T("void")


@model("abort", "std::abort", "exit", "std::exit", "std::terminate", "_exit", "quick_exit", "std::quick_exit",
       "__builtin_trap", "__builtin_unreachable")
def _(I, c, obj, args, e):
    I.emit("assert", c.q, [], e)
    I.S = None
    return T("void")


def tm_conv(nm):
    def f(I, c, obj, args, e):
        lv = I.deref(I.val(args[0]), e)
        t = I.read(lv)
        out = I.deref(I.val(args[1]), e)
        ev = I.emit("time", nm, [t], e)
        ok = T("truthy", T("okt", ev))
        I.write(out, join2(ok, T(nm, t), T("undef", "tm")), e)
        return mk_phi([(frozenset([ok]), I.addr_of(out)), (frozenset([mk_not(ok)]), NULL)])
    return f


def join2(ok, a, b):
    return mk_phi([(frozenset([ok]), a), (frozenset([mk_not(ok)]), b)])


MODEL["localtime_r"] = tm_conv("local")
MODEL["gmtime_r"] = tm_conv("gm")


@model("localtime", "std::localtime", "gmtime", "std::gmtime")
def _(I, c, obj, args, e):
    nm = "local" if "local" in c.q else "gm"
    t = I.read(I.deref(I.val(args[0]), e))
    ev = I.emit("time", c.q, [t], e)
    ok = T("truthy", T("okt", ev))
    root = T("obj", T("static", c.q))
    I.S.env[root] = T(nm, t)
    return mk_phi([(frozenset([ok]), T("addr", LV(root))), (frozenset([mk_not(ok)]), NULL)])


@model("mktime", "std::mktime", "timegm", "_mkgmtime")
def _(I, c, obj, args, e):
    lv = I.deref(I.val(args[0]), e)
    v = I.read(lv)
    nm = "mktime" if "mktime" in c.q else "timegm"
    ev = I.emit("time", nm, [v], e)
    return T(nm, v)


@model("strptime")
def _(I, c, obj, args, e):
    lv = I.deref(I.val(args[2]), e)
    txt = cstr(I, I.val(args[0]))
    fmt = cstr(I, I.val(args[1]))
    ev = I.emit("time", "strptime", [txt, fmt], e)
    old = I.read(lv)
    I.write(lv, T("strp", txt, fmt), e)
    ok = T("truthy", T("strpok", txt, fmt))
    return mk_phi([(frozenset([ok]), T("strpend", txt, fmt)), (frozenset([mk_not(ok)]), NULL)])


@model("strftime", "std::strftime")
def _(I, c, obj, args, e):
    v = I.read(I.deref(I.val(args[3]), e))
    fmt = cstr(I, I.val(args[2]))
    I.emit("time", "strftime", [v, fmt], e)
    if has_undef(v):
        I.use_undef(v, e, "formatted")
    store_bytes(I, I.val(args[0]), T("strf", v, fmt), e)
    return T("opq", "strftime", e["u"])


@model("isxdigit", "std::isxdigit", "isdigit", "std::isdigit", "isspace", "std::isspace", "isalnum", "std::isalnum",
       "isprint", "std::isprint", "isalpha", "std::isalpha")
def _(I, c, obj, args, e):
    v = I.val(args[0])
    if v.op == "cast":
        v = v.args[1]
    return T("truthy", T("ctype", c.q.split("::")[-1], v))


@model("std::stoi", "std::stol", "std::stoul", "std::stoll", "std::stoull")
def _(I, c, obj, args, e):
    s = I.val(args[0])
    base = I.val(args[2]) if len(args) > 2 else INT(10)
    el = None
    if s.op == "bytes" and s.args[0].op == "arr":
        el = list(s.args[0].args[0])
    elif s.op == "vec":
        from .interp import vec_elems
        el = vec_elems(s)
    safe = False
    if el:
        want = "isxdigit" if isint(base, 16) else "isdigit"
        safe = len(el) <= 7 and all(T("truthy", T("ctype", want, x)) in I.S.facts for x in el)
    if not safe:
        I.throw_state("std::invalid_argument", T("opq", "stoi"), e, implicit=True)
        I.throw_state("std::out_of_range", T("opq", "stoi"), e, implicit=True)
    I.emit("parse", c.q, [s, base], e, safe=safe)
    return T("stoi", s, base)


@model("std::to_string")
def _(I, c, obj, args, e):
    return T("tostr", I.val(args[0]))


@model("std::char_traits::to_int_type")
def _(I, c, obj, args, e):
    return T("toint", I.val(args[0]))


@model("std::char_traits::to_char_type")
def _(I, c, obj, args, e):
    v = I.val(args[0])
    return v.args[0] if v.op == "toint" else T("cast", "s8", v, "s32")


@model("std::char_traits::not_eof")
def _(I, c, obj, args, e):
    v = I.val(args[0])
    eof = mk_eq(v, INT(-1))
    return mk_phi([(frozenset((eof,)), INT(0)), (frozenset((mk_not(eof),)), v)])


@model("std::char_traits::eq_int_type")
def _(I, c, obj, args, e):
    return mk_eq(I.val(args[0]), I.val(args[1]))


@model("std::char_traits::eof")
def _(I, c, obj, args, e):
    return INT(-1)


@model("std::numeric_limits::max", "std::numeric_limits::min")
def _(I, c, obj, args, e):
    t = c.ret
    if t.w:
        sg = t.sg
        if c.q.endswith("max"):
            return INT((1 << (t.w - 1)) - 1 if sg else (1 << t.w) - 1)
        return INT(-(1 << (t.w - 1)) if sg else 0)
    return None


@model("std::locale::classic", "std::basic_ios::rdbuf", "std::basic_ios::exceptions", "std::exception::what",
       "std::basic_ios::imbue", "std::ios_base::setf", "std::ios_base::width", "std::ios_base::precision")
def _(I, c, obj, args, e):
    if c.ret.k == "void":
        return T("void")
    return T("opq", c.q, e["u"])


@ctor("std::random_device::random_device", "std::mersenne_twister_engine::mersenne_twister_engine",
      "std::uniform_int_distribution::uniform_int_distribution")
def _(I, c, args, e):
    return T("rng", c.cls.n or c.cls.s, tuple(I.val(a) for a in args))


@model("std::random_device::operator()", "std::uniform_int_distribution::operator()",
       "std::mersenne_twister_engine::operator()")
def _(I, c, obj, args, e):
    ev = I.emit("random", c.q, [I.val(obj)] + [I.val(a) for a in args], e)
    return T("random", ev)


# -- stream buffers (roots working on a derived std::streambuf) ----------
@model("std::basic_streambuf::setg")
def _(I, c, obj, args, e):
    a = [I.val(x) for x in args]
    I.emit("setg", "setg", a, e)
    I.note_access(a[0], I.span(a[0], a[2]), e, "window", "e")
    I.note_access(a[0], I.span(a[0], a[1]), e, "position", "e")
    for n, v in zip(("$eback", "$gptr", "$egptr"), a):
        for g, x in I.lv_alts(obj):
            I._write1(sub(x, n), v)
    return T("void")


@model("std::basic_streambuf::setp")
def _(I, c, obj, args, e):
    I.emit("setp", "setp", [I.val(x) for x in args], e)
    a = [I.val(x) for x in args]
    I.note_access(a[0], I.span(a[0], a[1]), e, "window", "e")
    return T("void")


@model("std::basic_streambuf::gptr", "std::basic_streambuf::egptr", "std::basic_streambuf::eback")
def _(I, c, obj, args, e):
    return I.read(I.sub_all(obj, "$" + c.q.split("::")[-1]))


@model("std::basic_streambuf::gbump")
def _(I, c, obj, args, e):
    lv = I.sub_all(obj, "$gptr")
    I.write_raw(lv, mk_padd(I.read(lv), I.val(args[0])))
    return T("void")


@ctor("std::basic_streambuf::basic_streambuf")
def _(I, c, args, e):
    return T("streambuf")


# -- zlib -----------------------------------------------------------------
ZF = ("avail_in", "next_in", "avail_out", "next_out")


@model("inflate", "deflate")
def _(I, c, obj, args, e):
    lv = I.deref(I.val(args[0]), e)
    before = {f: I.read(I.sub_all(lv, f)) for f in ZF}
    ev = I.emit("zlib", c.q, [before[f] for f in ZF] + [I.val(args[1])], e, z=lv)
    for f in ZF:
        I.write_raw(I.sub_all(lv, f), T("zo", ev, f))
    I.note_access(before["next_in"], before["avail_in"], e, "input")
    I.note_access(before["next_out"], before["avail_out"], e, "output")
    no = before["next_out"]
    if no.op in ("cdata", "addr"):
        I.write(no.args[0], T("zout", ev), e)
    return T("zres", ev, c.q)


@model("inflateInit2_", "deflateInit2_", "inflateInit_", "deflateInit_", "inflateEnd", "deflateEnd", "inflateReset",
       "deflateReset")
def _(I, c, obj, args, e):
    lv = I.deref(I.val(args[0]), e)
    ev = I.emit("zlib", c.q, [I.val(a) for a in args[1:]], e, z=lv)
    return T("zres", ev, c.q)


# -- pugixml --------------------------------------------------------------
@ctor("pugi::xml_document::xml_document")
def _(I, c, args, e):
    ev = I.emit("xdoc", "doc", [], e)
    return T("xdoc", ev)


@ctor("pugi::xml_node::xml_node", "pugi::xml_attribute::xml_attribute", "pugi::xml_text::xml_text")
def _(I, c, args, e):
    if not args:
        return T("xnull")
    return I.val(args[0])


@model("pugi::xml_node::operator=", "pugi::xml_attribute::operator=")
def _(I, c, obj, args, e):
    if c.casg or c.masg:
        I.write(obj, I.val(args[0]), e)
        return obj
    return xset(I, I.val(obj), I.val(args[0]), c, e, obj)


@model("pugi::xml_document::load", "pugi::xml_document::load_string", "pugi::xml_document::load_buffer")
def _(I, c, obj, args, e):
    if is_stream(I, args[0], c.ps[0]):
        sid, ev = sev(I, "xload", args[0], [I.val(a) for a in args[1:]], e)
    else:
        sid = cstr(I, I.val(args[0]))
        ev = I.emit("xload", "str", [sid] + [I.val(a) for a in args[1:]], e)
    I.write(obj, T("xroot", ev, sid), e)
    return T("xres", ev)


@model("pugi::xml_parse_result::operator bool")
def _(I, c, obj, args, e):
    return truthy(I.val(obj))


@model("pugi::xml_document::save")
def _(I, c, obj, args, e):
    doc = I.val(obj)
    sev(I, "xsave", args[0], [doc] + [I.val(a) for a in args[1:]], e)
    return T("void")


def nodephi(v, f):
    if v.op == "phi":
        return mk_phi([(g, f(x)) for g, x in alts(v)])
    return f(v)


@model("pugi::xml_node::child")
def _(I, c, obj, args, e):
    n = cstr(I, I.val(args[0]))
    return nodephi(I.val(obj), lambda v: T("xc", v, n))


@model("pugi::xml_node::children")
def _(I, c, obj, args, e):
    n = cstr(I, I.val(args[0])) if args else STR("*")
    return T("xrange", I.val(obj), n)


@model("pugi::xml_node::next_sibling", "pugi::xml_node::previous_sibling")
def _(I, c, obj, args, e):
    n = cstr(I, I.val(args[0])) if args else STR("*")
    op = "xsib" if c.q.endswith("next_sibling") else "xsibp"
    return nodephi(I.val(obj), lambda v: T(op, v, n))


@model("pugi::xml_node::last_child")
def _(I, c, obj, args, e):
    return nodephi(I.val(obj), lambda v: T("xlast", v, STR("*")))


@model("pugi::xml_node::first_child")
def _(I, c, obj, args, e):
    return nodephi(I.val(obj), lambda v: T("xc", v, STR("*")))


@model("pugi::xml_node::child_value", "pugi::xml_node::value", "pugi::xml_attribute::value", "pugi::xml_text::get",
       "pugi::xml_text::as_string", "pugi::xml_attribute::as_string")
def _(I, c, obj, args, e):
    v = I.val(obj)
    if v.op == "xtext":
        v = v.args[0]
    if c.q.endswith("child_value") and args:
        v = T("xc", v, cstr(I, I.val(args[0])))
    d = None
    if c.q.endswith("as_string") and args:
        d = cstr(I, I.val(args[0]))
        if d.op == "str" and d.args[0] == "":
            d = None
    return T("xval", v) if d is None else T("xvald", v, d)


@model("pugi::xml_node::name", "pugi::xml_attribute::name")
def _(I, c, obj, args, e):
    return T("xname", I.val(obj))


@model("pugi::xml_node::text")
def _(I, c, obj, args, e):
    return T("xtext", I.val(obj))


@model("pugi::xml_node::attribute")
def _(I, c, obj, args, e):
    return T("xa", I.val(obj), cstr(I, I.val(args[0])))


def xas(kind):
    def f(I, c, obj, args, e):
        v = I.val(obj)
        if v.op == "xtext":
            v = v.args[0]
        d = I.val(args[0]) if args else INT(0)
        return T("xas", kind, v, d)
    return f


for _k in ("bool", "int", "uint", "llong", "ullong", "double", "float"):
    for _c in ("xml_text", "xml_attribute"):
        MODEL["pugi::%s::as_%s" % (_c, _k)] = xas(_k)


@model("pugi::xml_node::operator!", "pugi::xml_attribute::operator!", "pugi::xml_text::operator!")
def _(I, c, obj, args, e):
    return mk_not(T("exists", I.val(obj)))


@model("pugi::xml_node::empty", "pugi::xml_attribute::empty")
def _(I, c, obj, args, e):
    return mk_not(T("exists", I.val(obj)))


def xbool(I, c, obj, args, e):
    return T("exists", I.val(obj))


@model("pugi::xml_node::append_child", "pugi::xml_node::prepend_child")
def _(I, c, obj, args, e):
    p = I.val(obj)
    n = I.val(args[0]) if args else STR("")
    n = cstr(I, n)
    ev = I.emit("xappend", n.args[0] if n.op == "str" else "?", [p, n], e)
    return T("xn", ev, p, n)


@model("pugi::xml_node::append_attribute", "pugi::xml_node::prepend_attribute")
def _(I, c, obj, args, e):
    p = I.val(obj)
    n = cstr(I, I.val(args[0]))
    ev = I.emit("xattr", n.args[0] if n.op == "str" else "?", [p, n], e)
    return T("xna", ev, p, n)


def xset(I, target, v, c, e, obj=None):
    if target.op == "xtext":
        target = target.args[0]
    if v.op in ("cdata", "addr", "cstr"):
        v = cstr(I, v)
    I.emit("xset", "set", [target, v], e, ptype=c.ps[0].strip().s if c.ps else "?",
           pk=c.ps[0].strip() if c.ps else None)
    return TRUE if c.ret.k == "bool" else obj


@model("pugi::xml_text::set", "pugi::xml_attribute::set_value", "pugi::xml_node::set_value")
def _(I, c, obj, args, e):
    return xset(I, I.val(obj), I.val(args[0]), c, e, obj)


@model("pugi::xml_text::operator=")
def _(I, c, obj, args, e):
    return xset(I, I.val(obj), I.val(args[0]), c, e, obj)


for _c in ("xml_node", "xml_attribute", "xml_text"):
    MODEL["pugi::%s::operator void (*)(pugi::%s ***)" % (_c, _c)] = xbool


@model("pugi::xml_node::traverse", "pugi::xml_node::type")
def _(I, c, obj, args, e):
    return T("opq", c.q, e["u"])


# -- primitives of the repository -----------------------------------------
def outcome_throws(I, c, e, names):
    for n in names:
        I.throw_state(n, T("opq", "thrown"), e, implicit=True)


@prim("keepass::base64_decode")
def _(I, c, obj, args, e, vals):
    v = cstr(I, vals[0]) if vals[0].op == "cdata" else vals[0]
    I.throw_state("keepass::FormatError", T("opq", "b64"), e, implicit=True)
    if len(args) == 1 or c.ret.k != "void":
        return T("b64d", v)
    it = vals[1]
    r = T("b64d", v)
    if it.op == "struct":
        f = next((x for k, x in it.args[2] if x.op == "iter" and isint(x.args[1], 0)), None)
        if f is not None:
            # bounds checked destination
            I.throw_state("std::out_of_range", T("opq", "bounds"), e, implicit=True)
            old = I.read(f.args[0])
            I.write(f.args[0], r if old.op in ("zeros", "arr") else T("b64do", v, old), e)
            return T("void")
    if any(x.op in ("iter", "cdata", "addr", "padd") for _, x in alts(it)):
        I.note_access(it, mk_size(r), e, "decoded", "e")
    out_range(I, it, r, e)
    return T("void")


@prim("keepass::base64_encode")
def _(I, c, obj, args, e, vals):
    if len(args) == 1:
        return T("b64e", vals[0])
    return T("b64e", read_rest(I, rangeval(I, args[0], args[1]), e))


@prim("keepass::encrypt_cbc", "keepass::decrypt_cbc")
def _(I, c, obj, args, e, vals):
    ids = [stream_id(I, args[0]), stream_id(I, args[1])]
    ciph = I.val(args[2])
    vers = [stream_ver(I, args[0]), stream_ver(I, args[1])]
    ev = I.emit("cbc", c.q.split("::")[-1], ids + [ciph], e, vers=tuple(vers))
    bump(I, args[0], ev)
    bump(I, args[1], ev)
    for n in throws_of(I, c):
        I.throw_state(n, T("opq", "cbc"), e, implicit=True)
    return T("void")


@prim("keepass::encrypt_ecb")
def _(I, c, obj, args, e, vals):
    return T("ecb", vals[0], vals[1])


def throws_of(I, c):
    cache = I.P.__dict__.setdefault("_throws", {})
    if c.id in cache:
        return cache[c.id]
    cache[c.id] = ()
    f = I.P.funcs.get(c.id)
    if f is None:
        return ()
    from .interp import Interp
    J = Interp(I.P, I.prims - {c.q, c.id})
    s, v, thrown = J.run_root(f)
    cache[c.id] = tuple(sorted({t[1] for t in thrown}))
    return cache[c.id]


@prim("keepass::Key::Transform")
def _(I, c, obj, args, e, vals):
    ev = I.emit("xform", "Transform", list(vals), e)
    return T("xform", vals[0], vals[1], vals[2], vals[3] if len(vals) > 3 else NULL)


def cipher_ctor(I, c, obj, args, e, vals):
    ev = I.emit("cipher", c.q.split("::")[-1], list(vals), e)
    return T("cipher", c.q.split("::")[-1], tuple(vals))


for _k in ("AesCipher", "TwofishCipher", "Salsa20Cipher"):
    PRIM["keepass::%s::%s" % (_k, _k)] = cipher_ctor


@prim("keepass::RandomObfuscator::RandomObfuscator")
def _(I, c, obj, args, e, vals):
    ev = I.emit("obfinit", "RandomObfuscator", list(vals), e)
    return T("obfuscator", tuple(vals), ev)


@prim("keepass::RandomObfuscator::Process")
def _(I, c, obj, args, e, vals):
    ev = I.emit("obf", "Process", list(vals), e, obj=obj)
    return T("obf", ev, vals[0], vals[1])


@prim("keepass::generate_uuid", "keepass::random_array")
def _(I, c, obj, args, e, vals):
    ev = I.emit("random", c.q, [], e)
    return T("randombytes", ev)


@prim("keepass::time_to_str", "keepass::json_escape")
def _(I, c, obj, args, e, vals):
    return T(c.q.split("::")[-1], vals[0])


def sbuf_ctor(I, c, obj, args, e, vals):
    ids = []
    for x, v, p in zip(args, vals, c.ps):
        ids.append(stream_id(I, x) if is_stream(I, x, p) else v)
    ev = I.emit("sbuf", c.cls.n or c.cls.s, ids, e)
    return T("sbuf", c.cls.n or c.cls.s, tuple(ids), ev)


STREAMBUFS = ("hashed_istreambuf", "hashed_ostreambuf", "gzip_istreambuf", "gzip_ostreambuf")
for _k in STREAMBUFS:
    PRIM["keepass::%s::%s" % (_k, _k)] = sbuf_ctor

PRIMITIVES = set(PRIM)
