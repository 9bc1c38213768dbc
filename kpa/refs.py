"""Published definitions of the ciphers and encodings, written over the values of bits.py."""
from .bits import add, xor, shl, shr, or_, table, bits, norm, fn, eq, select, resize, ZERO, ONE, bxor

BASE64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def rotl(v, n, w=32):
    n %= w
    if isinstance(v, int):
        return (v << n | v >> (w - n)) & (1 << w) - 1
    b = bits(v, w)
    return norm(b[w - n:] + b[:w - n])


def word32(bs):
    """Little endian word of four bytes."""
    out = ()
    for x in bs:
        out += bits(x, 8)
    return norm(out)


def bytes32(v):
    b = bits(v, 32)
    return [norm(b[8 * i:8 * i + 8]) for i in range(4)]


def sum32(*xs):
    return add([(x, 1) for x in xs], 32)


# -- base64 (RFC 4648)
def base64_encode(data):
    out = []
    for i in range(0, len(data), 3):
        g = data[i:i + 3]
        b = ()
        for x in reversed(g + [0] * (3 - len(g))):
            b += bits(x, 8)
        for j in range(4):
            if j > len(g):
                out.append(ord("="))
            else:
                out.append(table(BASE64, norm(b[18 - 6 * j:24 - 6 * j])))
    return out


# -- Salsa20 (Bernstein)
def salsa20_state(key, iv, low, high):
    k = [word32(key[4 * i:4 * i + 4]) for i in range(8)]
    c = [word32(list(b"expand 32-byte k"[4 * i:4 * i + 4])) for i in range(4)]
    n = [word32(iv[0:4]), word32(iv[4:8])]
    return [c[0]] + k[:4] + [c[1]] + n + [low, high] + [c[2]] + k[4:] + [c[3]]


def quarter(y, a, b, c, d):
    y[b] = xor(y[b], rotl(sum32(y[a], y[d]), 7), 32)
    y[c] = xor(y[c], rotl(sum32(y[b], y[a]), 9), 32)
    y[d] = xor(y[d], rotl(sum32(y[c], y[b]), 13), 32)
    y[a] = xor(y[a], rotl(sum32(y[d], y[c]), 18), 32)


def salsa20_block(x):
    y = list(x)
    for _ in range(10):
        for i in range(4):
            quarter(y, *[(5 * i + 4 * j) % 16 for j in range(4)])
        for i in range(4):
            quarter(y, *[4 * i + (i + j) % 4 for j in range(4)])
    out = []
    for a, b in zip(x, y):
        out += bytes32(sum32(a, b))
    return out


# -- Twofish (Schneier et al.), 256 bit keys
def _q(ts):
    r4 = lambda v: v >> 1 | (v & 1) << 3
    out = []
    for x in range(256):
        a, b = x >> 4, x & 15
        a, b = a ^ b, (a ^ r4(b) ^ 8 * a) & 15
        a, b = ts[0][a], ts[1][b]
        a, b = a ^ b, (a ^ r4(b) ^ 8 * a) & 15
        a, b = ts[2][a], ts[3][b]
        out.append(b << 4 | a)
    return out


_h = lambda s: [int(c, 16) for c in s]
Q = [_q([_h("817D6F320B59ECA4"), _h("ECB81235F4A6709D"), _h("BA5E6D90C8F32471"), _h("D7F4126E9B3085CA")]),
     _q([_h("28BDF76E31940AC5"), _h("1E2B4C376DA5F908"), _h("4C75169A0ED82B3F"), _h("B951C3DE647F208A")])]
MDS = [[0x01, 0xEF, 0x5B, 0x5B], [0x5B, 0xEF, 0xEF, 0x01], [0xEF, 0x5B, 0x01, 0xEF], [0xEF, 0x01, 0xEF, 0x5B]]
RS = [[0x01, 0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E], [0xA4, 0x56, 0x82, 0xF3, 0x1E, 0xC6, 0x68, 0xE5],
      [0x02, 0xA1, 0xFC, 0xC1, 0x47, 0xAE, 0x3D, 0x19], [0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E, 0x03]]


def gf(c, v, poly):
    """Product of the constant c and the byte v in GF(2^8)."""
    b = list(bits(v, 8))
    acc = [ZERO] * 8
    while c:
        if c & 1:
            acc = [bxor(x, y) for x, y in zip(acc, b)]
        c >>= 1
        top = b[7]
        b = [ZERO] + b[:7]
        b = [bxor(x, top) if poly >> i & 1 else x for i, x in enumerate(b)]
    return norm(acc)


def matrix(m, v, poly):
    out = []
    for row in m:
        acc = 0
        for c, x in zip(row, v):
            acc = xor(acc, gf(c, x, poly), 8)
        out.append(acc)
    return out


def h(x, l):
    """x: four bytes, l: four words of four bytes."""
    order = [(1, 0, 0, 1), (1, 1, 0, 0), (0, 1, 0, 1), (0, 0, 1, 1), (1, 0, 1, 0)]
    y = list(x)
    for st, k in zip(order, [3, 2, 1, 0, None]):
        y = [table(Q[st[j]], y[j]) for j in range(4)]
        if k is not None:
            y = [xor(y[j], l[k][j], 8) for j in range(4)]
    return word32(matrix(MDS, y, 0x169))


class Twofish:
    def __init__(self, key):
        m = [key[4 * i:4 * i + 4] for i in range(8)]
        s = [matrix(RS, key[8 * i:8 * i + 8], 0x14D) for i in range(4)]
        self.s = s[::-1]
        self.k = []
        for i in range(20):
            a = h([2 * i] * 4, m[0::2])
            b = rotl(h([2 * i + 1] * 4, m[1::2]), 8)
            self.k += [sum32(a, b), rotl(add([(a, 1), (b, 2)], 32), 9)]

    def encrypt(self, p):
        r = [xor(word32(p[4 * i:4 * i + 4]), self.k[i], 32) for i in range(4)]
        for i in range(16):
            t0 = h(bytes32(r[0]), self.s)
            t1 = h(bytes32(rotl(r[1], 8)), self.s)
            f0 = sum32(t0, t1, self.k[2 * i + 8])
            f1 = add([(t0, 1), (t1, 2), (self.k[2 * i + 9], 1)], 32)
            r = [rotl(xor(r[2], f0, 32), 31), xor(rotl(r[3], 1), f1, 32), r[0], r[1]]
        out = []
        for i in range(4):
            out += bytes32(xor(r[(i + 2) % 4], self.k[i + 4], 32))
        return out

    def decrypt(self, c):
        r = [0] * 4
        for i in range(4):
            r[(i + 2) % 4] = xor(word32(c[4 * i:4 * i + 4]), self.k[i + 4], 32)
        for i in reversed(range(16)):
            r = [r[2], r[3], r[0], r[1]]
            t0 = h(bytes32(r[0]), self.s)
            t1 = h(bytes32(rotl(r[1], 8)), self.s)
            f0 = sum32(t0, t1, self.k[2 * i + 8])
            f1 = add([(t0, 1), (t1, 2), (self.k[2 * i + 9], 1)], 32)
            r = r[:2] + [xor(rotl(r[2], 1), f0, 32), rotl(xor(r[3], f1, 32), 31)]
        out = []
        for i in range(4):
            out += bytes32(xor(r[i], self.k[i], 32))
        return out
