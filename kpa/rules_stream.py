"""Block chaining, checksummed blocks and compressed streams."""
from .canon import *
from .core import at
from .decide import evalnum
from .rules_crypto import affine, find_digest, hashed_data
from .rules_flow import (disjuncts, conjuncts, escapes, flat_alts, interval, refuted, short, stable, ver_fact)
from .terms import *
from .facts import AnalysisError


def expand_stop(I, v, stop):
    """Alternatives of v, resolving joins and loop-carried variables except those in stop."""
    out, seen, todo = [], set(), [(frozenset(), v)]
    while todo:
        g, x = todo.pop()
        if x in stop:
            out.append((g, x))
            continue
        if x.op in ("phi", "many"):
            todo += [(g | g2, y) for g2, y in alts(x)]
            continue
        if x.op == "lphi":
            if x in seen:
                continue
            seen.add(x)
            e = I.lphi.get(x)
            if e is None:
                out.append((g, x))
            else:
                todo += [(g, y) for y in e if y is not None]
            continue
        out.append((g, x))
    return out


def is_xor(v):
    """(a, b) when v is the bytewise exclusive or of two values."""
    if v.op == "mapf" and v.args[0].op == "made" and "bit_xor" in str(v.args[0].args[0]):
        return v.args[1], v.args[2]
    if v.op == "mapf" and v.args[0].op == "made":
        return None
    if v.op == "bin" and v.args[0] == "^":
        return v.args[1], v.args[2]
    return None


def cipher_events(r, name):
    return [n for n in r.by("prim") if n.name.split("::")[-1] == name]


def outs_of(v, name):
    return [x for x in subterms(v) if x.op == "out" and str(x.args[1]).split("::")[-1] == name]


def chain_vars(r):
    out = []
    for l, e in r.I.lphi.items():
        if e[0] is not None and e[0].op == "prim" and str(e[0].args[0]).endswith("InitializationVector"):
            out.append(l)
    return out


def out_input(x):
    """Input block of a cipher output term."""
    a = x.args[3]
    return a[1] if isinstance(a, tuple) and len(a) > 1 else None


def block_chaining(c, rep):
    """P07"""
    rep.rule("iv-start", "the chaining value starts as the cipher's initialisation vector")
    rep.rule("encrypt-chain", "every block given to the cipher is the exclusive or of the plaintext block and the chaining "
             "value")
    rep.rule("encrypt-carry", "the chaining value of the next block is the ciphertext just produced")
    rep.rule("decrypt-chain", "every plaintext block is the exclusive or of the deciphered block and the chaining value")
    rep.rule("decrypt-carry", "the chaining value of the next block is the ciphertext just read")
    rep.rule("pad-added", "a content whose length is a multiple of the block size is followed by a block of padding")
    rep.rule("pad-value", "the bytes after the content are all equal to the number of padding bytes")
    rep.rule("pad-range", "padding of length 0 or above the block size is rejected, every other length accepted")
    rep.rule("pad-bytes", "every padding byte is compared with the padding length")
    rep.rule("pad-removed", "exactly the padding is removed from the last block and nothing from any other")
    rep.rule("partial-block", "ciphertext whose length is not a multiple of the block size is rejected")
    rep.rule("whole-block", "whole blocks are written, and the cipher result is what is written")
    rep.rule("ecb", "each block of the key transformation is replaced by its own encryption")
    encrypt_side(c, rep)
    decrypt_side(c, rep)
    for q, op in (("keepass::encrypt_ecb", "Encrypt"), ("keepass::decrypt_ecb", "Decrypt")):
        if not c.has(q):
            continue
        r = c.root(q)
        ws = r.by("swrite")
        for w in ws:
            v = w.args[1]
            o = outs_of(v, op)
            ok = None
            if v.op == "out" and o and o[0] is v:
                i = out_input(v)
                ok = i is not None and i.op == "rd"
            elif not any(x.op in ("lphi", "undef") for x in subterms(v)) and not o:
                ok = False
            rep.judge("ecb", ok, short(q), at(w), "writes %s" % show(v, 4), short(q))
            rep.judge("ecb", isint(w.args[2], 16) or None, short(q) + ":len", at(w), "writes %s bytes" % show(w.args[2], 3), q)


def encrypt_side(c, rep):
    r = c.root("keepass::encrypt_cbc")
    I = r.I
    P = chain_vars(r)
    if not P:
        ini = [x for n in r.nodes.values() for a in n.args if isinstance(a, Term) for x in subterms(a) if x.op == "prim"]
        rep.judge("iv-start", None if cipher_events(r, "InitializationVector") else False, "encrypt", "cipher.cc",
                  "the initialisation vector is not used", "encrypt")
        return
    rep.ok("iv-start", "cipher.cc", "encrypt")
    P = P[0]
    enc = [T("ev", n.id) for n in cipher_events(r, "Encrypt")]
    # carry
    e, b = I.lphi[P]
    for g, v in expand_stop(I, b, {P}):
        ok = v.op == "out" and v.args[0] in enc
        if not ok:
            kn = v is P or v.op in ("rd", "prim", "mapf", "filled", "arr", "zeros", "int")
            rep.judge("encrypt-carry", False if kn else None, "carry", "cipher.cc", "next chaining value is %s" % show(v, 4))
        else:
            rep.ok("encrypt-carry", "cipher.cc", show(v, 2))
    # writes
    ws = r.by("swrite")
    looped = [w for w in ws if w.loops]
    after = [w for w in ws if not w.loops]
    if not looped:
        rep.und("encrypt-chain", "cipher.cc", "no block loop found")
        return
    for w in ws:
        v = w.args[1]
        if v.op != "out" or v.args[0] not in enc:
            rep.judge("whole-block", None if v.op in ("lphi", "phi", "undef", "many") else False, "value", at(w),
                      "writes %s instead of the cipher result" % show(v, 4))
            continue
        rep.judge("whole-block", True if isint(w.args[2], 16) else (False if w.args[2].op == "int" or
                  any(x.op == "gcount" for x in subterms(w.args[2])) else None), "length", at(w),
                  "writes %s bytes of a block" % show(w.args[2], 3), at(w))
        inp = out_input(v)
        if inp is None:
            rep.und("encrypt-chain", at(w), "input of the cipher unknown")
            continue
        for g, x in expand_stop(I, inp, {P}):
            if x.op == "upd":
                # a byte of the block replaced: the padding
                pad_byte(r, P, x, rep, w)
                continue
            ab = is_xor(x)
            if ab is None:
                kn = x.op in ("rd", "filled", "mapf", "arr", "zeros") or x is P
                rep.judge("encrypt-chain", False if kn else None, "block", at(w), "cipher input is %s" % show(x, 4))
                continue
            has = any(y is P for y in ab)
            if not has and any(expands_to(I, y, P) for y in ab):
                has = None
            rep.judge("encrypt-chain", has, "block", at(w), "cipher input %s does not include the chaining value" % show(x, 4),
                      show(x, 4))
            o = [y for y in ab if y is not P]
            if has and o and not w.loops:
                p = o[0]
                rep.judge("pad-value", True if p.op == "filled" and isint(p.args[0], 16) else
                          (False if p.op in ("filled", "zeros", "rd") else None), "full", at(w),
                          "the padding block holds %s" % show(p, 3), "full padding block")
    if not after:
        rep.bad("pad-added", "none", "cipher.cc", "no padding block is written after whole-block content")
    for w in after:
        le = [n for n in r.by("loopend") if n.id in r.back(w.id)]
        new = [x for x in w.facts if any(y.op == "lphi" for y in subterms(x)) and not any(y.op == "good" for y in subterms(x))]
        ok = None
        if not new:
            ok = False      # unconditional: also after partial blocks
            msg = "a padding block is written even when the last block was padded"
        else:
            msg = "condition of the final padding block: %s" % [show(x, 3) for x in new]
            for x in new:
                # true when the last block was whole: evaluate with the variable at its initial value and after a partial block
                lp = [y for y in subterms(x) if y.op == "lphi"]
                if len(lp) != 1 or len(new) != 1:
                    ok = None
                    break
                e, b = I.lphi[lp[0]]
                if b is None:
                    continue
                vals = []
                for g, v in flat_alts(b):
                    if v is lp[0]:
                        continue
                    gc = [y for y in subterms(v) if y.op == "gcount"]
                    for k in range(1, 17):
                        cond = [rebuild(f, lambda t: INT(k) if t in gc or t.op == "gcount" else None) for f in g]
                        if any(f is FALSE for f in cond):
                            continue
                        vals.append((k, rebuild(rebuild(v, lambda t: INT(k) if t.op == "gcount" else None),
                                                lambda t: None)))
                res = []
                t0 = rebuild(x, lambda t: e if t is lp[0] else None)
                res.append((16, t0))
                for k, v in vals:
                    res.append((k, rebuild(x, lambda t: v if t is lp[0] else None)))
                good = True
                for k, z in res:
                    if z.op != "int":
                        good = None
                        break
                    if (z is TRUE) != (k == 16):
                        good = False
                        msg = "after a last block of %d bytes the padding block is %s" % (k, "written" if z is TRUE else
                                                                                          "missing")
                        break
                ok = good
        rep.judge("pad-added", ok, "condition", at(w), msg, at(w))


def expands_to(I, v, P):
    return any(x is P for x in subterms(v))


def pad_byte(r, P, x, rep, w):
    I = r.I
    idx = x.args[1].args[0] if x.args[1].op == "idx" else x.args[1]
    val = strip_casts(x.args[2])
    ab = is_xor(val)
    if ab is None:
        rep.judge("encrypt-chain", None, "padding", at(w), "padding byte is %s" % show(val, 4))
        return
    prv = [y for y in ab if y.op == "at" and y.args[0] is P]
    oth = [y for y in ab if y not in prv]
    if not prv or not oth:
        rep.judge("encrypt-chain", False if not expands_to(I, val, P) else None, "padding", at(w),
                  "padding byte %s is not chained" % show(val, 4))
        return
    rep.judge("encrypt-chain", prv[0].args[1] is idx or None, "padding:index", at(w),
              "padding byte i is chained with byte %s" % show(prv[0].args[1], 3), "padding byte")
    gc = [y for y in subterms(oth[0]) if y.op == "gcount"]
    if idx.op != "lphi" or not gc:
        rep.und("pad-value", at(w), "padding value %s" % show(oth[0], 4))
        return
    a = affine(strip_casts(oth[0]), gc[0])
    rep.judge("pad-value", None if a is None else a == (-1, 16), "value", at(w), "padding bytes hold %s" % show(oth[0], 4),
              "padding bytes hold 16 - length")
    e, b = I.lphi[idx]
    s = affine(strip_casts(e), gc[0])
    st = affine(strip_casts(b), idx) if b is not None else None
    rep.judge("pad-value", None if s is None or st is None else (s == (1, 0) and st == (1, 1)), "start", at(w),
              "padding starts at %s" % show(e, 4), "padding starts after the content")
    bound = None
    for n in r.by("loopend") + r.by("prim"):
        for f in n.facts:
            if f.op == "not" and f.args[0].op == "lt" and f.args[0].args[0] is idx:
                bound = f.args[0].args[1]
    for n in r.nodes.values():
        for f in n.facts:
            if f.op == "lt" and f.args[0] is idx:
                bound = f.args[1]
    if bound is not None:
        rep.judge("pad-value", isint(bound, 16) if bound.op == "int" else None, "end", at(w),
                  "padding ends at %s" % show(bound, 3), "padding ends at the block end")
    # phi guards carry the loop bound
    

def decrypt_side(c, rep):
    r = c.root("keepass::decrypt_cbc")
    I = r.I
    Ps = chain_vars(r)
    if not Ps:
        rep.judge("iv-start", None if cipher_events(r, "InitializationVector") else False, "decrypt", "cipher.cc",
                  "the initialisation vector is not used", "decrypt")
        return
    rep.ok("iv-start", "cipher.cc", "decrypt")
    P = Ps[0]
    e, b = I.lphi[P]
    reads = [x for x in subterms_all(r) if x.op == "rd"]
    al = [(g, v) for g, v in expand_stop(I, b, {P})]
    ok = any(v.op == "rd" for g, v in al)
    for g, v in al:
        if v.op == "rd":
            rep.ok("decrypt-carry", "cipher.cc", show(v, 3))
        elif v is P:
            # only when the block was the last one
            last = any(y.op == "lphi" for x in g for y in subterms(x) if y is not P)
            rep.judge("decrypt-carry", True if last or not ok else None, "kept", "cipher.cc",
                      "the chaining value is kept", "kept for the last block")
        else:
            rep.judge("decrypt-carry", False if v.op in ("out", "prim", "mapf", "arr") else None, "carry", "cipher.cc",
                      "next chaining value is %s" % show(v, 4))
    if not ok:
        rep.bad("decrypt-carry", "none", "cipher.cc", "the chaining value is never replaced by the ciphertext")
    dec = [T("ev", n.id) for n in cipher_events(r, "Decrypt")]
    plains = set()
    for w in r.by("swrite"):
        for g, v in expand_stop(I, w.args[1], {P}):
            ab = is_xor(v)
            if ab is None:
                rep.judge("decrypt-chain", False if v.op in ("out", "rd") else None, "block", at(w),
                          "writes %s" % show(v, 4))
                continue
            o = [y for y in ab if y.op == "out" and y.args[0] in dec]
            pr = [y for y in ab if y is P]
            rep.judge("decrypt-chain", True if o and pr else (False if not any(expands_to(I, y, P) for y in ab) or not
                      any(outs_of(y, "Decrypt") for y in ab) else None), "block", at(w), "plaintext is %s" % show(v, 4),
                      show(v, 4))
            if o:
                i = out_input(o[0])
                rep.judge("decrypt-chain", True if i is not None and i.op == "rd" else None, "input", at(w),
                          "deciphers %s" % show(i, 3) if i is not None else "?", "input")
            plains.add(v)
        # length
        for g, n in flat_alts(w.args[2]):
            nn = strip_casts(n)
            if isint(nn, 16):
                rep.ok("pad-removed", at(w), "other blocks are written whole")
                continue
            pv = [y for y in subterms(nn) if y.op == "at" and y.args[0] in plains]
            if not pv:
                rep.judge("pad-removed", False if nn.op == "int" else None, "length", at(w), "writes %s bytes" % show(nn, 4))
                continue
            a = affine(nn, pv[0])
            rep.judge("pad-removed", None if a is None else a == (-1, 16), "length", at(w), "writes %s bytes of the last "
                      "block" % show(nn, 4), "last block without its padding")
            rep.judge("pad-removed", isint(pv[0].args[1], 15) if pv[0].args[1].op == "int" else None, "position", at(w),
                      "padding length is taken from byte %s" % show(pv[0].args[1], 2), "byte 15")
            pad_reject(r, pv[0], w, rep)
    partial(r, rep)


def subterms_all(r):
    seen = set()
    for n in r.nodes.values():
        for a in n.args:
            if isinstance(a, Term):
                for x in subterms(a):
                    if x not in seen:
                        seen.add(x)
                        yield x


def pad_reject(r, p, w, rep):
    """Evaluate the rejecting throws for every padding length."""
    rejected = {}
    thr = [t for t in r.by("throw") if t.id in r.back(w.id) or w.id in r.reach(t.id) or t.loops]
    for k in range(0, 256):
        st = False
        for t in thr:
            fs = [x for x in t.facts if any(y is p for y in subterms(x))]
            if not fs or any(y.op == "lphi" and y is not None and y in r.I.lphi and
                             any(z is p for z in subterms(r.I.lphi[y][0])) for x in t.facts for y in subterms(x)):
                continue
            res = [rebuild(x, lambda q: INT(k) if q is p else None) for x in fs]
            if all(x is TRUE for x in res):
                st = True
            elif any(x is FALSE for x in res):
                pass
            else:
                st = st or None
        rejected[k] = st
    bad = [k for k in rejected if (rejected[k] is True) != (k < 1 or k > 16) and rejected[k] is not None]
    und = [k for k in rejected if rejected[k] is None]
    rep.judge("pad-range", None if und and not bad else not bad, "range", at(w),
              "padding length %s is %s" % (bad[:3], "accepted" if bad and (bad[0] < 1 or bad[0] > 16) else "rejected"),
              "256 values")
    # every padding byte
    found = None
    for t in r.by("throw"):
        for x in [d for f in t.facts for d in disjuncts(f)]:
            if x.op == "not" and x.args[0].op == "eq":
                a, b = x.args[0].args
                a, b = strip_casts(a), strip_casts(b)
                for u, v in ((a, b), (b, a)):
                    if u is p and v.op == "at" and v.args[0] is p.args[0]:
                        i = v.args[1]
                        if i.op == "lphi":
                            e, bk = r.I.lphi[i]
                            s = affine(strip_casts(e), p)
                            stp = affine(strip_casts(bk), i) if bk is not None else None
                            bd = [f.args[1] for f in t.facts if f.op == "lt" and f.args[0] is i] + [
                                y for f in t.facts if f.op == "not" and f.args[0].op == "eq" and i in f.args[0].args
                                for y in f.args[0].args if y.op == "int"]
                            good = s == (-1, 16) and stp == (1, 1) and bool(bd) and isint(bd[0], 16)
                            if s is None or stp is None or not bd:
                                good = None
                            elif not good:
                                # a different direction or bounds that cover at least the padding
                                good = True if (s[0] == 0 and s[1] <= 0) else False
                            if good is None:
                                found = found or "und"
                            else:
                                found = good if found is None else (found or good)
                        elif v.args[0] is p.args[0]:
                            found = found or "und"
    if found is None:
        al = [n for n in r.nodes.values() if n.kind == "throw"]
        rep.bad("pad-bytes", "none", at(w), "padding bytes other than the last are not verified")
    else:
        rep.judge("pad-bytes", None if found == "und" else found, "bytes", at(w), "not every padding byte is verified", at(w))


def partial(r, rep):
    gcs = [x for t in r.by("throw") for f in t.facts for x in subterms(f) if x.op == "gcount"]
    if not gcs:
        rep.bad("partial-block", "none", "cipher.cc", "a partial block is not rejected")
        return
    res = {}
    for k in range(1, 17):
        st = False
        for t in r.by("throw"):
            fs = [x for x in t.facts if any(y.op == "gcount" for y in subterms(x))
                  and not any(y.op in ("eof", "good", "fail") for y in subterms(x))
                  and not any(y.op == "tell" or (y.op == "lphi") for y in subterms(x))]
            oth = [x for x in t.facts if any(y.op == "lphi" and not any(z.op == "good" for z in subterms(x))
                                             for y in subterms(x))]
            if not fs or oth:
                continue
            z = [rebuild(x, lambda q: INT(k) if q.op == "gcount" else None) for x in fs]
            if all(y is TRUE for y in z):
                st = True
        res[k] = st
    miss = [k for k in range(1, 16) if not res[k]]
    rep.judge("partial-block", not miss and not res[16], "range", "cipher.cc",
              "a final block of %s bytes is accepted" % miss if miss else "whole blocks are rejected", "15 lengths")


# ---------------------------------------------------------------------------
def buf_roots(c, names):
    out = []
    for fid, f in c.P.funcs.items():
        k = f["c"]
        if k.cls is None or not k.cls.repo or f.get("body") is None:
            continue
        if f["n"].split("::")[-1] in names and k.virt:
            out.append(f)
    return sorted(out, key=lambda f: f["n"])


def hash_facts(r, facts):
    """(stored value, digest) for every equality between a digest and something read."""
    out = []
    for x in facts:
        if x.op == "eq":
            for p, q in (x.args, x.args[::-1]):
                d = find_digest(r, p)
                if d is not None:
                    out.append((q, d))
    return out


def checksummed_blocks(c, rep):
    """P06"""
    rep.rule("verified", "bytes are handed out only when the digest over exactly those bytes equals the stored one")
    rep.rule("sequence", "blocks are handed out only in the order of their indices, counted from zero by both sides")
    rep.rule("end-mark", "the end of the stream is reported only for the terminating block, whose stored digest is zero")
    rep.rule("header-read", "a block header that could not be read in full is an error")
    rep.rule("writer-hash", "the digest written with a block is that of the bytes written after it, and zero for the "
             "terminating block")
    rep.rule("writer-size", "the size written with a block is the number of bytes written after it")
    rep.rule("writer-index", "each written block has the next index")
    rep.rule("writer-clear", "bytes of a written block are not written again")
    rep.rule("writer-all", "every byte put into the stream becomes part of a block")
    rep.rule("writer-end", "finishing the stream writes the terminating block last")
    rep.rule("same-layout", "writer and reader use the same block header layout")
    rep.rule("finished-once", "an export finishes each block or compressed stream exactly once, after all data")
    readers, writers = [], []
    for f in buf_roots(c, ("underflow", "uflow", "xsgetn")):
        r = c.run(f)
        if any(x.op in ("sha",) for n in r.nodes.values() for fa in n.facts for x in subterms(fa)) or \
                "hashed" in f["n"]:
            readers.append(r)
    for f in buf_roots(c, ("sync", "overflow", "xsputn")):
        r = c.run(f)
        if any(x.op == "sha" for n in r.by("swrite") for x in subterms(n.args[1])) or "hashed" in f["n"]:
            writers.append(r)
    rhdr, whdr = {}, {}
    if not readers:
        rep.bad("verified", "no-reader", "stream.cc", "no stream verifies block digests")
    for r in readers:
        q = short(r.f["n"])
        sets = r.by("setg")
        for n in sets:
            b, e = n.args[-2], n.args[-1]
            size = e.args[1] if e.op == "padd" else None
            hf = hash_facts(r, n.facts)
            if not hf:
                rep.bad("verified", q + ":unchecked", at(n), "bytes are handed out without comparing their digest")
                continue
            for q2, d in hf:
                base, path = rd_of(q2)
                if base is None:
                    rep.und("verified", at(n), "digest compared with %s" % show(q2, 3))
                    continue
                rhdr.setdefault("hash", path)
                data = hashed_data(r.I, d)
                ok = len(data) == 1 and data[0][0] is not None
                if not ok:
                    rep.und("verified", at(n), "digest of several values")
                    continue
                D, N, u = data[0]
                good = N is mk_size(D) and size is not None and size is mk_size(D)
                kn = size is not None and N is not None
                rep.judge("verified", True if good else (False if kn and all(x.op in ("size", "int", "lphi", "fld", "rd", "self",
                          "cast", "bin") or True for x in subterms(N)) and N.op in ("size", "int", "fld") and
                          size.op in ("size", "int", "fld") else None), q, at(n),
                          "digest over %s bytes, %s bytes handed out" % (show(N, 4), show(size, 4) if size else "?"), q)
                # data comes from the source
                src = [x for _, x in flatten(r.I, D)]
                rep.judge("verified", True if any(y.op in ("get", "rd") for x in src for y in subterms(x)) else None,
                          q + ":data", at(n), "hashed data is not what was read", "data read")
            # index
            idx = []
            for x in n.facts:
                if x.op == "eq":
                    for p, o in (x.args, x.args[::-1]):
                        base, path = rd_of(p)
                        if base is not None and o.op == "fld" and o.args[0].op == "self":
                            idx.append((path, o))
            if not idx:
                rep.bad("sequence", q + ":unchecked", at(n), "blocks are accepted in any order")
            for path, o in idx:
                rhdr.setdefault("index", path)
                st = [s for s in r.I.stores.values() if s["lv"].args[0].op == "self" and s["lv"].args[1] and
                      s["lv"].args[1][-1] == o.args[1]]
                if not st:
                    rep.bad("sequence", q + ":stuck", at(n), "the expected index never advances")
                for s in st:
                    a = affine(strip_casts(s["v"]), o)
                    rep.judge("sequence", None if a is None else a == (1, 1), q + ":step", "%s:%s" % tuple(s["loc"]),
                              "the expected index becomes %s" % show(s["v"], 3), q)
                initial_zero(c, rep, r, o.args[1], q)
            rd = [x for x in n.facts if x.op == "good"]
            evs = {y for x in n.facts for z in subterms(x) if z.op == "rd" for y in [z.args[0]]}
            for ev in evs:
                if ev.op == "ev":
                    rep.judge("header-read", ver_fact(n.facts, ev, True), q, at(n), "the block header may be incomplete", q)
        if not sets:
            rep.und("verified", q, "no block is handed out")
        # end of stream
        for g, v in flat_alts(r.v):
            for g2, x in flatten(r.I, v, g=g):
                if not isint(x, -1):
                    continue
                if any(y.op in ("cdata", "padd") for f in g2 for y in subterms(f)):
                    continue
                size0 = [f for f in g2 if f.op == "eq" and any(isint(y, 0) for y in f.args) and
                         any(rd_of(y)[0] is not None for y in f.args)]
                zero = [f for f in g2 if f.op == "eq" and any(is_zero(r, y) for y in f.args) and
                        any(rd_of(y)[0] is not None for y in f.args)]
                if size0:
                    for f in size0:
                        for y in f.args:
                            if rd_of(y)[0] is not None:
                                rhdr.setdefault("size", rd_of(y)[1])
                rep.judge("end-mark", bool(size0) and bool(zero), q + ":" + ("size" if not size0 else "digest"), q,
                          "end of stream is reported although %s: %s" %
                          ("the block is not empty" if not size0 else "the terminating digest was not checked",
                           [show(f, 3) for f in list(g2)[:5]]), q)
    for r in writers:
        q = short(r.f["n"])
        ws = r.by("swrite")
        ret = r.ret()
        hdrs = [n for n in ws if n.args[1].op == "struct"]
        datas = [n for n in ws if n.args[1].op != "struct"]
        for h in hdrs:
            fs = dict(h.args[1].args[2])
            nx = [d for d in datas if d.id in r.reach(h.id, avoid={m.id for m in ws if m is not d})]
            if len(nx) != 1:
                rep.und("writer-size", at(h), "data of the block not found")
                continue
            d = nx[0]
            D, N = d.args[1], strip_casts(d.args[2])
            for fn, v in fs.items():
                v0 = strip_casts(v)
                if any(x.op == "sha" for x in subterms(v0)):
                    whdr.setdefault("hash", (fn,))
                    for g, x in flat_alts(v0):
                        if x.op == "sha":
                            data = hashed_data(r.I, x)
                            if len(data) == 1 and data[0][0] is not None:
                                hD, hN, u = data[0]
                                good = same(hD, D) and same(strip_casts(hN), mk_size_phi(hD))
                                rep.judge("writer-hash", True if good else (False if not any(y.op == "lphi" for y in
                                          subterms(hD)) else None), q, at(h), "digest of %s written for %s" %
                                          (show(hD, 4), show(D, 4)), q)
                            else:
                                rep.und("writer-hash", at(h), "digest of several values")
                        elif is_zero(r, x):
                            # only for an empty block
                            vals = [(gg, y) for gg, y in flat_alts(D)]
                            ok = only_empty(g, h.facts, D)
                            if ok is None:
                                ok = any(f.op == "eq" and any(isint(a, 0) for a in f.args) for f in g) or \
                                    any(y.op == "empty" for gg, y in vals) or None
                            rep.judge("writer-hash", ok, q + ":zero", at(h),
                                      "zero digest for a block that is not empty", q + " zero digest")
                        else:
                            rep.und("writer-hash", at(h), "digest is %s" % show(x, 3))
                elif same(v0, N) or v0 is N:
                    whdr.setdefault("size", (fn,))
                    rep.ok("writer-size", at(h), q)
                elif any(x.op == "size" for _, y in flat_alts(v0) for x in subterms(y)):
                    whdr.setdefault("size", (fn,))
                    rep.judge("writer-size", None if any(x.op in ("lphi",) for x in subterms(v0)) else False, q, at(h),
                              "size %s for %s bytes" % (show(v0, 4), show(N, 4)))
                elif any(x.op == "fld" and x.args[0].op == "self" for x in subterms(v0)):
                    whdr.setdefault("index", (fn,))
                    f0 = [x for x in subterms(v0) if x.op == "fld" and x.args[0].op == "self"][0]
                    for g, x in flat_alts(v0):
                        a = affine(x, f0)
                        rep.judge("writer-index", None if a is None else (a[0] == 1), q, at(h), "index is %s" % show(x, 3), q)
                    st = [s for s in r.I.stores.values() if s["lv"].args[0].op == "self" and s["lv"].args[1] and
                          s["lv"].args[1][-1] == f0.args[1]]
                    if not st:
                        rep.bad("writer-index", q + ":stuck", at(h), "the block index never advances")
                    for s in st:
                        # one more than what was written
                        ok = None
                        vs = {affine(strip_casts(y), f0) for _, y in flat_alts(strip_casts(s["v"]))}
                        if None not in vs:
                            ok = all(a[0] == 1 and a[1] >= 1 for a in vs)
                        else:
                            b = s["v"]
                            b = strip_casts(b)
                            if b.op == "bin" and b.args[0] == "+" and isint(b.args[2], 1):
                                ok = True
                        rep.judge("writer-index", ok, q + ":step", "%s:%s" % tuple(s["loc"]), "index becomes %s" %
                                  show(s["v"], 3), q)
                    initial_zero(c, rep, r, f0.args[1], q)
            # the data buffer is emptied after a successful write
            src = {x for x in subterms(D) if x.op == "fld" and x.args[0].op == "self"}
            for f0 in src:
                r.I.S = r.S
                cur = r.I.read(sub(LV(f0.args[0]), f0.args[1]))
                left = []
                for g, y in flat_alts(cur):
                    if y.op == "empty":
                        continue
                    if any(fa.op == "not" and fa.args[0].op == "good" for fa in g):
                        continue        # the write failed
                    left.append((g, y))
                emptied = any(y.op == "empty" for _, y in flat_alts(cur))
                rep.judge("writer-clear", emptied, q, at(d), "the block buffer is not emptied after it was written", q)
        if r.f["n"].endswith("overflow"):
            app = [s for s in r.I.stores.values() if s["v"].op == "vec" and any(x.op == "par" for x in
                                                                                   subterms(s["v"].args[1]))]
            al = flat_alts(r.v)
            rep.judge("writer-all", bool(app), q, q, "a byte put into the stream is dropped", q)
            for s in app:
                v = s["v"].args[1]
                # unconditional apart from end-of-file handling
                extra = [f for f in s["facts"] if not any(y.op == "par" for y in subterms(f))]
                rep.judge("writer-all", True if not extra else None, q + ":cond", "%s:%s" % tuple(s["loc"]),
                          "byte stored only when %s" % [show(f, 3) for f in extra], q)
        if r.f["n"].endswith("sync"):
            last = [d for d in datas if ret is not None and ret.id in r.reach(d.id, avoid={m.id for m in ws if m is not d})]
            succ_alts = [g for g, v in flat_alts(r.v) if isint(v, 0)]
            for d in last:
                ev = T("ev", d.id)
                # is this the final write of a successful path?
                later = {T("ev", m.id) for m in datas if m is not d and m.id in r.reach(d.id)}
                if not any(compatible_good(g, ev) and not any(f.op == "good" and f.args[0] in later for f in g)
                           for g in succ_alts):
                    continue
                bad = []
                for g, v in flat_alts(d.args[1]):
                    if v.op == "empty":
                        continue
                    if any(f.op == "eq" and any(isint(a, 0) for a in f.args) and any(a.op == "size" for a in f.args) for f in g):
                        continue
                    if any(f.op == "not" and f.args[0].op == "good" for f in g):
                        continue
                    if any(fa.op == "eq" and any(isint(a, 0) for a in fa.args) and any(a is mk_size(v) for a in fa.args)
                           for fa in d.facts):
                        continue
                    bad.append(v)
                rep.judge("writer-end", not bad, q, at(d), "the last block written is %s, not the terminating one" %
                          (show(bad[0], 3) if bad else ""), q)
            if not datas:
                rep.bad("writer-end", q, q, "finishing the stream writes no terminating block")
    for k in ("hash", "index", "size"):
        if k in rhdr and k in whdr:
            rep.judge("same-layout", rhdr[k] == whdr[k], k, "stream.cc", "%s is written as %s and read as %s" %
                      (k, whdr[k], rhdr[k]), "%s %s" % (k, rhdr[k]))
    # exactly once
    for q in ("keepass::KdbxFile::Export", "keepass::KdbFile::Export"):
        r = c.root(q)
        ret = r.ret()
        fl = {}
        for n in r.nodes.values():
            if n.kind in ("sflush", "swrite", "sput", "xsave"):
                s = n.args[0]
                if s.op == "sid" and s.args[2].op == "via":
                    fl.setdefault(s, []).append(n)
        for s, ns in fl.items():
            fin = [n for n in ns if n.kind == "sflush"]
            for n in fin:
                nxt = [m for m in ns if m.id in r.reach(n.id) and not (set(m.loops) & set(n.loops))]
                # only paths that return
                nxt = [m for m in nxt if ret is not None and ret.id in r.reach(m.id)]
                rep.judge("finished-once", not nxt, "%s:%s" % (short(q), layer_name(s)), at(n),
                          "the stream is used again at %s after it was finished" % (at(nxt[0]) if nxt else ""), at(n))


def only_empty(g, facts, D):
    """The guard holds for no size of D but zero: True; for some other size: False; not evaluable: None."""
    if D.op == "phi":
        return None
    n = mk_size(D)
    if n.op == "int":
        return n.args[0] == 0
    unknown = False
    for k in (1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 255, 256, 1000, 65535, 65536, (1 << 20) - 1, 1 << 20):
        env = {n: k}
        vs = [evalnum(x, env) for x in g]
        if 0 in vs or any(evalnum(x, env) == 0 for x in facts):
            continue
        if None in vs or not g:
            unknown = True
        else:
            return False
    return None if unknown else True


def layer_name(s):
    b = s.args[2].args[0]
    return b.args[0].split("::")[-1] if b.op == "sbuf" else "?"


def compatible_good(g, ev):
    return not any(f.op == "not" and f.args[0].op == "good" and f.args[0].args[0] is ev for f in g)


def is_zero(r, y):
    if y.op == "zeros":
        return True
    if y.op == "arr" and all(isinstance(x, int) and x == 0 for x in y.args[0]):
        return True
    if y.op == "filled" and isint(y.args[0], 0):
        return True
    return False


def same(a, b):
    if a is b:
        return True
    return {deep_strip(v) for _, v in flat_alts(a)} == {deep_strip(v) for _, v in flat_alts(b)}


def deep_strip(v):
    return rebuild(v, lambda t: deep_strip(strip_casts(t)) if t.op == "cast" else None)


def mk_size_phi(v):
    return mk_size(v)


def initial_zero(c, rep, r, field, q):
    """The counter starts at zero after construction."""
    P = c.P
    cls = r.f["c"].cls.n or r.f["c"].cls.s
    for fid, f in P.funcs.items():
        k = f["c"]
        if k.ctor and not k.copy and not k.move and k.cls is not None and (k.cls.n or k.cls.s) == cls and \
                f.get("body") is not None:
            rr = c.run(f)
            if rr.S is None:
                continue
            rr.I.S = rr.S
            v = rr.I.read(sub(LV(T("self", f["rec"])), field))
            rep.judge("sequence", True if isint(v, 0) else (False if v.op == "int" else None), q + ":start", f["n"],
                      "the first expected index is %s" % show(v, 3), "starts at 0")
