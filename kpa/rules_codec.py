"""Encodings and ciphers, compared with their published definitions as bit-level value graphs (P20, P28, P29)."""
import hashlib
import itertools

from . import refs
from .bits import *
from .unroll import *

LIMIT_CONST = 5000


# -- helpers ------------------------------------------------------------------
def where(f):
    return "%s:%s" % (f["file"], f["line"])


def funcs(P, q, n=None):
    return [f for f in P.funcs.values() if f["n"] == q and f.get("body") is not None and (n is None or len(f["ps"]) == n)]


def symbols(p, n, dom=None):
    return [sym("%s%d" % (p, i), 8, dom) for i in range(n)]


def sample(seed, force=None):
    def f(name, w, dom):
        if force and name in force:
            return force[name] & (1 << w) - 1
        if seed in (0, 1):
            if dom is None:
                return ((1 << w) - 1) * seed
            return dom[-seed]
        d = int.from_bytes(hashlib.sha256(("%s %s" % (seed, name)).encode()).digest()[:8], "little")
        return dom[d % len(dom)] if dom is not None else d & (1 << w) - 1
    return f


SAMPLES = [sample(i) for i in range(6)]


def compare(got, want, given=SAMPLES):
    """True, (False, position) or (None, position) for two lists of bytes."""
    if len(got) != len(want):
        return (False, "%d bytes instead of %d" % (len(got), len(want)))
    und = None
    tries = 4
    for i, (x, y) in enumerate(zip(got, want)):
        if x == y:
            continue
        if x is None or y is None:
            return (False, "byte %d has no value" % i)
        r = same(x, y, 8, given)
        if r is True:
            continue
        if r is None and tries:
            tries -= 1
            xs = deep(bits(x, 8), ("isz",))
            extra = [g for k in xs[:40] for f in given[2:4] for g in [steer(k, f)] if g is not None]
            r = same(x, y, 8, extra)
        if r is None:
            und = und or (None, "byte %d" % i)
        else:
            v = r[1]
            return (False, "byte %d is 0x%02x instead of 0x%02x for %s" % (
                i, v.num(x), v.num(y), ", ".join("%s=0x%x" % (ATOMS[k][1][0], n) for k, n in sorted(v.env.items())
                                                 if ATOMS[k][0] == "sym")[:160]))
    return und or True


def verdict(rep, rule, key, f, what, run):
    """run() -> (bytes computed, bytes by the definition[, samples])."""
    try:
        got = run()
    except Throw as t:
        rep.bad(rule, key, where(f), "%s: throws %s" % (what, t.name))
        return False
    except Unknown as u:
        rep.und(rule, where(f), "%s: not modelled: %s" % (what, u))
        return None
    r = compare(*got)
    if r is True:
        rep.ok(rule, where(f), what)
        return True
    if r[0] is None:
        rep.und(rule, where(f), "%s: %s: equality not established" % (what, r[1]))
        return None
    rep.bad(rule, key, where(f), "%s: %s" % (what, r[1]))
    return False


def constants(P, roots, depth=4):
    """Integer constants of the functions reachable from the roots."""
    out, seen, work = set(), set(), [(f, 0) for f in roots]
    while work:
        f, d = work.pop()
        if f["fid"] in seen:
            continue
        seen.add(f["fid"])
        stack = [f.get("body"), f.get("inits")]
        while stack:
            x = stack.pop()
            if isinstance(x, dict):
                if x.get("k") == "int":
                    try:
                        out.add(int(x["v"]))
                    except (TypeError, ValueError):
                        pass
                c = x.get("c")
                if hasattr(c, "id") and c.id in P.funcs and d < depth and P.funcs[c.id]["n"].startswith("keepass"):
                    work.append((P.funcs[c.id], d + 1))
                stack += list(x.values())
            elif isinstance(x, (list, tuple)):
                stack += list(x)
    return out, len(seen)


def lengths(P, roots, basic):
    cs, n = constants(P, roots)
    out = set(basic)
    for c in cs:
        if 0 < c <= LIMIT_CONST:
            out |= {c - 1, c, c + 1}
    return sorted(out), n


# -- base64 -------------------------------------------------------------------
ALPHABET = tuple(refs.BASE64)
SPACES = tuple(b" \t\n\v\f\r")
OTHER = tuple(x for x in range(256) if x not in ALPHABET and x not in SPACES and x != 61)


def is_string(t):
    return isdyn(t) and elem(t) is not None and (ctype(elem(t)) or (0,))[0] == 8


def codec_fn(P, q):
    """The overload from a string to a string."""
    fs = [f for f in funcs(P, q, 1) if f["c"].ret is not None and is_string(f["c"].ret) and is_string(f["ps"][0]["t"])]
    return fs[0] if fs else None


def base64_codec(c, rep):
    P = c.P
    rep.rule("encode", "the encoder's output is the RFC 4648 encoding: standard alphabet, most significant bits first, padded "
                       "with '='")
    rep.rule("inverse", "decoding the encoder's output gives back every bit of the input")
    rep.rule("refuse", "text with a length that is no multiple of four, with characters outside of the alphabet or with padding "
                       "anywhere but in place of the last one or two characters raises a library exception")
    rep.rule("space", "white space between the characters changes nothing")
    enc, dec = codec_fn(P, "keepass::base64_encode"), codec_fn(P, "keepass::base64_decode")
    for n, f in (("base64_encode", enc), ("base64_decode", dec)):
        if f is None:
            rep.und("encode", "src/base64.hh", "no function %s from a string to a string" % n)
    basic = list(range(14)) + [47, 48, 49, 56, 57, 58, 75, 76, 77, 96, 127, 128, 129, 255, 256, 257]
    if enc:
        ns, nf = lengths(P, [enc], basic)
        rep.counts["functions evaluated (encoder)"] = nf
        rep.counts["input lengths"] = len(ns)
        for n in ns:
            data = symbols("b", n)
            verdict(rep, "encode", "encode/%d" % n if n < 4 else "encode/long", enc, "%d bytes" % n,
                    lambda: (Ev(P).call_fn(enc, None, [Mem(list(data))]).b, refs.base64_encode(data)))
    if not dec:
        return
    ns, nf = lengths(P, [dec], basic)
    rep.counts["functions evaluated (decoder)"] = nf
    for n in ns:
        data = symbols("b", n)
        text = refs.base64_encode(data)
        verdict(rep, "inverse", "inverse/%d" % n if n < 4 else "inverse/long", dec, "%d bytes" % n,
                lambda: (Ev(P).call_fn(dec, None, [Mem(list(text))]).b, data))

    # white space
    for n in (1, 2, 3, 4, 6):
        data = symbols("b", n)
        text = refs.base64_encode(data)
        for i in range(len(text) + 1):
            for k in (1, 2):
                t = text[:i] + symbols("w", k, SPACES) + text[i:]

                def run(sp=None):
                    return Ev(P).call_fn(dec, None, [Mem(t if sp is None else text[:i] + [sp] * k + text[i:])]).b, data
                what = "%d bytes, white space at %d" % (n, i)
                try:
                    run()
                except (Unknown, Throw):
                    # every character by itself
                    for sp in SPACES:
                        verdict(rep, "space", "space/%d" % n, dec, what + ", character 0x%02x" % sp, lambda: run(sp))
                    continue
                verdict(rep, "space", "space/%d" % n, dec, what, run)

    # malformed text
    def chars(pat):
        out = []
        for i, ch in enumerate(pat):
            out.append(61 if ch == "=" else sym("c%d" % i, 8, {"a": ALPHABET, "x": OTHER, "s": SPACES}[ch]))
        return out

    def legal(pat):
        pat = pat.replace("s", "")
        body = pat.rstrip("=")
        return len(pat) % 4 == 0 and set(body) <= {"a"} and len(pat) - len(body) <= 2 and (len(body) or not pat)
    pats = ["".join(p) for n in range(1, 6) for p in itertools.product("a=x", repeat=n)]
    more = ["aaaa" + p for p in pats if len(p) <= 4]
    more += [p + "aaaa" for p in pats if len(p) <= 4 and "=" in p]
    more += ["aaaa" * 3 + p for p in ("=", "==", "===", "a", "aa", "aaa", "====", "a===", "aaax", "xaaa", "aa=a")]
    more += [p for n in (2, 3, 4) for q in itertools.product("a=x", repeat=n) for i in range(n + 1)
             for p in ["".join(q)[:i] + "s" + "".join(q)[i:]]]
    runs = [list(g) for g in (range(0, 9), range(14, 32), range(33, 43), range(44, 47), range(58, 61), range(62, 65),
                              range(91, 97), range(123, 128), range(128, 256))]

    def accepted(pat):
        """For a decoder that distinguishes characters of one class: a text of this form that is accepted."""
        i = pat.replace("s", "x").find("x")
        vals = SPACES if pat[i] == "s" else [v for r in runs for v in r]
        base = chars(pat)
        for v in vals:
            try:
                Ev(P).call_fn(dec, None, [Mem(base[:i] + [v] + base[i + 1:])])
                return v
            except Throw:
                continue
            except Unknown:
                return None
    for pat in pats + more:
        if legal(pat):
            continue
        try:
            r = Ev(P).call_fn(dec, None, [Mem(chars(pat))])
        except Throw as t:
            if t.name.startswith("keepass::"):
                rep.ok("refuse", where(dec), pat)
            else:
                rep.bad("refuse", "exception", where(dec), "text of the form %s raises %s" % (show(pat), t.name))
            continue
        except Unknown as u:
            if len(pat) <= 5 and pat.count("x") + pat.count("s") == 1:
                v = accepted(pat)
                if v is not None:
                    rep.bad("refuse", "length" if "s" in pat else "character", where(dec),
                            "text of the form %s with character 0x%02x is accepted" % (show(pat), v))
                    continue
            rep.und("refuse", where(dec), "text of the form %s: not modelled: %s" % (show(pat), u))
            continue
        rep.bad("refuse", "length" if len(pat.replace("s", "")) % 4 else ("character" if "x" in pat else "padding"), where(dec),
                "text of the form %s is accepted (%d bytes)" % (show(pat), len(r.b)))
    rep.counts["forms of malformed text"] = len(rep.oks) and rep.oks["refuse"]


def show(pat):
    n = {"a": "letter", "x": "foreign", "s": "space", "=": "'='"}
    return " ".join(n[x] for x in pat)


# -- ciphers ------------------------------------------------------------------
def ctor(P, cls, n):
    s = cls.split("::")[-1]
    fs = funcs(P, cls + "::" + s, n)
    fs = [f for f in fs if not (f["c"].copy or f["c"].move)]
    return fs[0] if fs else None


def method(P, cls, name, n=None):
    fs = funcs(P, cls + "::" + name, n)
    return fs[0] if fs else None


def aes_opaque():
    """AES of the cryptographic library: key schedules and blocks are uninterpreted."""
    keys = {}

    def target(I, v):
        v = I.rd(v)
        if isinstance(v, RPtr):
            return v.r
        if isinstance(v, Ptr):
            return v.m
        raise Unknown("key schedule")

    def data(I, v, n):
        v = I.rd(v)
        if isinstance(v, Ptr):
            return [norm(bits(I.load(v.m, v.off + i, 1), 8)) for i in range(n)]
        raise Unknown("key data")

    def setkey(kind):
        def h(I, o, a, e):
            n = I.rd(a[1])
            if n not in (128, 192, 256):
                return (1 << 32) - 2
            keys[id(target(I, a[2]))] = (kind, n, data(I, a[0], n // 8), target(I, a[2]))
            return 0
        return h

    def block(kind):
        def h(I, o, a, e):
            k = keys.get(id(target(I, a[2])))
            if k is None:
                raise Unknown("key schedule")
            src, dst = data(I, a[0], 16), I.rd(a[1])
            out = aes_block(kind, k[0], k[1], k[2], src)
            for i, x in enumerate(out):
                I.store(dst.m, dst.off + i, x, 1)
            return None
        return h

    def ecb(I, o, a, e):
        return block("enc" if I.rd(a[3]) else "dec")(I, o, a, e)
    return {"AES_set_encrypt_key": setkey("enc"), "AES_set_decrypt_key": setkey("dec"), "AES_encrypt": block("enc"),
            "AES_decrypt": block("dec"), "AES_ecb_encrypt": ecb}


def aes_block(kind, sched, n, key, src):
    name = "AES-%d %s with the %s schedule" % (n, kind, sched)
    return [fn("%s %d" % (name, i), tuple(bits(x, 8) for x in key + src), 8) for i in range(16)]


def block_cipher(P, rep, cls, short, encrypt, decrypt, inverse, opaque):
    full, one = ctor(P, cls, 2), ctor(P, cls, 1)
    E, D, V = method(P, cls, "Encrypt"), method(P, cls, "Decrypt"), method(P, cls, "InitializationVector")
    if not (full and E and D) or P.records.get(cls) is None:
        rep.und("block", "src/cipher.cc", "no class %s with Encrypt and Decrypt" % short)
        return
    key, iv, p, q = symbols("k", 32), symbols("v", 16), symbols("p", 16), symbols("q", 16)
    for c, args, ivs in ((full, [key, iv], iv), (one, [key], [0] * 16)):
        if c is None:
            continue
        tag = "%d-argument constructor" % len(args)
        try:
            I = Ev(P, opaque())
            I.limit = 4000000
            o = I.new(cls, c, [Mem(list(a)) for a in args])
        except Throw as t:
            rep.bad("block", short + "/ctor", where(c), "%s: construction throws %s" % (short, t.name))
            continue
        except Unknown as u:
            rep.und("block", where(c), "%s: construction not modelled: %s" % (short, u))
            continue

        def run(f, src):
            d = Mem([None] * 16)
            I.call_fn(f, RPtr(o), [Mem(list(src)), d])
            return d.b
        if c is full:
            ct = None
            for i, src in enumerate((p, q, p)):
                what = "%s::Encrypt, %s" % (short, ("first block", "second block", "first block again")[i])
                verdict(rep, "block", short + "/encrypt", E, what, lambda: (run(E, src), encrypt(key, src)))
            for i, src in enumerate((p, q)):
                what = "%s::Decrypt, %s" % (short, ("first block", "second block")[i])
                verdict(rep, "block", short + "/decrypt", D, what,
                        lambda: (run(D, src), decrypt(key, src)))
            if inverse:
                verdict(rep, "block", short + "/inverse", D, "%s::Decrypt of the published encryption" % short,
                        lambda: (run(D, encrypt(key, p)), p))
        else:
            verdict(rep, "block", short + "/encrypt", E, "%s::Encrypt, %s" % (short, tag), lambda: (run(E, p), encrypt(key, p)))
        if V is not None:
            def vec():
                r = I.call_fn(V, RPtr(o), [])
                if isinstance(r, L):
                    return r.m.b[r.off:r.off + 16], ivs
                if isinstance(r, Mem):
                    return r.b, ivs
                raise Unknown("initialisation vector")
            verdict(rep, "block", short + "/iv", V, "%s::InitializationVector, %s" % (short, tag), vec)


def state(o):
    """All bytes of a record, in the order of its fields."""
    out = []
    for k in sorted(o.f):
        x = o.f[k]
        if isinstance(x, Mem):
            out += x.b
        elif isinstance(x, Rec):
            out += state(x)
        elif isinstance(x, Box) and x.v is not None:
            raise Unknown("pointer in the state")
    return out


def salsa(P, rep):
    cls = "keepass::Salsa20Cipher"
    full, one, f = ctor(P, cls, 2), ctor(P, cls, 1), method(P, cls, "Process", 2)
    if not (full and f) or P.records.get(cls) is None:
        rep.und("stream", "src/cipher.cc", "no class Salsa20Cipher with Process")
        return
    key, iv, z = symbols("k", 32), symbols("v", 8), symbols("z", 64)
    for c, args, ivs in ((full, [key, iv], iv), (one, [key], [0] * 8)):
        if c is None:
            continue
        try:
            I = Ev(P)
            o = I.new(cls, c, [Mem(list(a)) for a in args])
        except (Throw, Unknown) as u:
            rep.und("stream", where(c), "Salsa20: construction not modelled: %s" % u)
            continue

        def run(src, low, high):
            d = Mem([None] * 64)
            I.call_fn(f, RPtr(o), [Mem(list(src)), d])
            ref = refs.salsa20_block(refs.salsa20_state(key, ivs, low, high))
            return d.b, [xor(x, y, 8) for x, y in zip(src, ref)]
        for i in range(3 if c is full else 1):
            verdict(rep, "stream", "block", f, "block %d, %d-argument constructor" % (i, len(args)), lambda: run(z, i, 0))
        if c is not full:
            continue
        # in place
        o = I.new(cls, c, [Mem(list(a)) for a in args])

        def alias():
            d = Mem(list(z))
            I.call_fn(f, RPtr(o), [d, d])
            ref = refs.salsa20_block(refs.salsa20_state(key, ivs, 0, 0))
            return d.b, [xor(x, y, 8) for x, y in zip(z, ref)]
        verdict(rep, "stream", "in-place", f, "block in place", alias)
        # the block number: 64 bits with carry
        low, high = sym("low", 32), sym("high", 32)
        words = [m for m in o.f.values() if isinstance(m, Mem) and len(m.b) == 64]
        if len(words) != 1 or len(o.f) != 1:
            rep.und("stream", where(full), "state of the cipher not recognised")
            continue
        given = [sample(i, fo) for i in (2, 3) for fo in (
            {}, {"low": 0}, {"low": 0xff}, {"low": 0xffff}, {"low": 0xffffff}, {"low": 0x7fffffff},
            {"low": 0xffffffff, "high": 0}, {"low": 0xffffffff}, {"low": 0xffffffff, "high": 0xffffffff})]
        st = refs.salsa20_state(key, ivs, low, high)
        words[0].b[:] = sum((refs.bytes32(w) for w in st), [])
        n = add([(low, 1), (1, 1)], 32)
        st[8] = n
        st[9] = select(eq(n, 0, 32), add([(high, 1), (1, 1)], 32), high, 32)

        def after():
            I.call_fn(f, RPtr(o), [Mem(list(z)), Mem([None] * 64)])
            return words[0].b, sum((refs.bytes32(w) for w in st), []), given
        verdict(rep, "stream", "counter", f, "block number after a block", after)


def ciphers(c, rep):
    P = c.P
    rep.rule("block", "block encryption and decryption and the vector handed out are those of the published cipher for every "
                      "key, vector and block, and do not change the object")
    rep.rule("stream", "the key stream is that of the published cipher for every key and nonce; its block number has 64 bits")
    tf = {}

    def twofish(key):
        k = tuple(key)
        if k not in tf:
            tf[k] = refs.Twofish(key)
        return tf[k]
    block_cipher(P, rep, "keepass::TwofishCipher", "TwofishCipher", lambda k, p: twofish(k).encrypt(p),
                 lambda k, p: twofish(k).decrypt(p), True, dict)
    block_cipher(P, rep, "keepass::AesCipher", "AesCipher", lambda k, p: aes_block("enc", "enc", 256, k, p),
                 lambda k, p: aes_block("dec", "dec", 256, k, p), False, aes_opaque)
    salsa(P, rep)
    rep.counts["value graph nodes"] = len(ATOMS)


# -- the obfuscation stream ---------------------------------------------------
def keystream(c, rep):
    """RandomObfuscator hands out consecutive bytes of one key stream."""
    P = c.P
    cls, sub = "keepass::RandomObfuscator", "keepass::Salsa20Cipher"
    rep.rule("stream-bytes", "byte n of all text put through an obfuscator is combined with byte n of the cipher's key stream, "
                          "whatever the lengths of the pieces")
    full = ctor(P, cls, 2)
    ps = funcs(P, cls + "::Process", 1)
    if not full or not ps or P.records.get(cls) is None:
        rep.und("stream-bytes", "src/random.cc", "no class RandomObfuscator with Process")
        return
    key, iv = symbols("k", 32), symbols("v", 8)
    sproc, sctor = method(P, sub, "Process", 2), ctor(P, sub, 2)

    def setup():
        """An evaluation with the cipher's block operation uninterpreted, and the key stream it should produce."""
        used = {}
        base = None
        if sproc is not None and sctor is not None:
            I0 = Ev(P)
            try:
                base = state(I0.new(sub, sctor, [Mem(list(key)), Mem(list(iv))]))
            except (Throw, Unknown):
                base = None
        op = {}
        if base is not None:
            def h(I, o, a, e):
                o = o.r if isinstance(o, RPtr) else o
                st, n = used.get(id(o), (None, 0))
                if st is None:
                    st = state(o)
                used[id(o)] = (st, n + 1)
                src, dst = I.rd(a[0]), I.rd(a[1])
                if not isinstance(dst, (L, Mem)) or not isinstance(src, (L, Mem)):
                    raise Unknown("block")
                sm, so = (src.m, src.off) if isinstance(src, L) else (src, 0)
                dm, do = (dst.m, dst.off) if isinstance(dst, L) else (dst, 0)
                for i in range(64):
                    I.store(dm, do + i, xor(I.load(sm, so + i, 1), ks(st, n, i), 8), 1)
                return None
            op[sproc["n"]] = h

        def want(n):
            if used or base is not None and not n:
                return [ks(base, i // 64, i % 64) for i in range(n)]
            out = []
            for b in range((n + 63) // 64):
                out += refs.salsa20_block(refs.salsa20_state(key, iv, b, 0))
            return out[:n]
        I = Ev(P, op)
        I.limit = 4000000
        return I, I.new(cls, full, [Mem(list(key)), Mem(list(iv))]), want

    memo = {}

    def ks(st, n, i):
        k = (n, i)
        if k not in memo or memo[k][0] != st:
            memo[k] = (st, fn("key stream %d %d" % (n, i), tuple(bits(x, 8) for x in st), 8))
        return memo[k][1]

    ls, nf = lengths(P, ps + [full], [])
    ls = [n for n in ls if n > 66]
    rep.counts["functions evaluated (obfuscation)"] = nf
    # every position in a block with every length up to a block and one, then long pieces
    plans = [("pieces of 65 bytes", [65] * 65), ("pieces of one byte", [1] * 130), ("growing pieces", list(range(0, 67))),
             ("long pieces", [3, 127, 1, 128, 129, 0, 191, 192, 193, 5, 255, 256, 257, 1000]),
             ("lengths compared with in the code", sum(([n, 1] for n in ls), [1]))]
    by = [("%s" % f["ps"][0]["t"].strip().r, f) for f in ps]
    for name, plan in plans:
        for tag, fs in [(t, [f]) for t, f in by] + ([("both overloads in turn", ps)] if len(ps) > 1 else []):
            total = sum(plan)
            if not total:
                continue
            try:
                I, o, want = setup()
            except (Throw, Unknown) as u:
                rep.und("stream-bytes", where(full), "construction not modelled: %s" % u)
                return

            def run():
                data = symbols("m", total)
                out, at = [], 0
                for i, n in enumerate(plan):
                    f = fs[i % len(fs)]
                    r = I.call_fn(f, RPtr(o), [Mem(data[at:at + n])])
                    if len(r.b) != n:
                        return r.b, data[at:at + n]
                    out += r.b
                    at += n
                return out, [xor(x, y, 8) for x, y in zip(data, want(total))]
            verdict(rep, "stream-bytes", "%s/%s" % (tag, name), fs[0], "%s, %s" % (name, tag), run)
