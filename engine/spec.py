"""Specifications, written from the published standards, as value graphs in the same domain as the analysed code.
Bytes are Dom words of 8 bits, words 32-bit Dom words.  With Python ints the same functions compute concretely, which is
how selftest.py validates them against published vectors (the repository is not involved)."""
import math
import aesmath as am
import simd
import summ


def le32(d, b):
    return d.concat([(b[i], 8) for i in range(4)])


def be32(d, b):
    return d.concat([(b[3 - i], 8) for i in range(4)])


def un_le(d, w, n=4):
    return [d.slice(w, 8 * i, 8) for i in range(n)]


def un_be(d, w, n=4):
    return [d.slice(w, 8 * (n - 1 - i), 8) for i in range(n)]


def xors(d, a, b):
    return [d.xor(x, y, 8) for x, y in zip(a, b)]


def const32(v, n=4):
    return [(v >> (8 * (n - 1 - i))) & 255 for i in range(n)]


# ---------------------------------------------------------------- AES-128
def aes_keys(d, key, rounds=10):
    """round keys; with fewer than ten rounds the first key and the last ones of the full schedule are used (ROUND_REDUCED)"""
    w = [key[4 * i:4 * i + 4] for i in range(4)]
    for i in range(4, 44):
        t = w[i - 1]
        if i % 4 == 0:
            t = simd.sub_bytes(d, t[1:] + t[:1])
            t[0] = d.xor(t[0], am.RCON[i // 4], 8)
        w.append(xors(d, w[i - 4], t))
    return [sum(w[4 * r:4 * r + 4], []) for r in [0] + list(range(11 - rounds, 11))]


def aes_enc(d, rk, b, rounds=10):
    s = xors(d, b, rk[0])
    for r in range(1, rounds):
        s = xors(d, simd.mix_columns(d, simd.shift_rows(simd.sub_bytes(d, s))), rk[r])
    return xors(d, simd.shift_rows(simd.sub_bytes(d, s)), rk[rounds])


def aes_ctr(d, key, nonce, data, first=1, rk=None):
    """RFC 3686 style: counter block = nonce || be32(counter), counter starts at 1; returns output and next counter"""
    rk = rk or aes_keys(d, key)
    out = []
    n = first
    while data:
        ctr = const32(n & 0xffffffff) if type(n) is int else un_be(d, n)
        ks = aes_enc(d, rk, nonce + ctr)
        out += xors(d, data[:16], ks)
        data = data[16:]
        n = (n + 1) & 0xffffffff if type(n) is int else d.add(n, 1, 32)
    return out, n


def aes_cfb(d, key, reg, data, decrypt, rounds=10, rk=None):
    """SP 800-38A CFB128; a final segment of n<16 bytes is an 8n-bit CFB segment (register shifted by n bytes)"""
    rk = rk or aes_keys(d, key, rounds)
    out = []
    while data:
        seg = data[:16]
        o = xors(d, seg, aes_enc(d, rk, reg, rounds))
        out += o
        c = seg if decrypt else o
        reg = (reg + c)[-16:]
        data = data[16:]
    return out, reg


# ---------------------------------------------------------------- AEGIS-128
C0 = bytes.fromhex('000101020305080d1522375990e97962')
C1 = bytes.fromhex('db3d18556dc22ff12011314273b528dd')


def aes_round(d, s, k):
    return xors(d, simd.mix_columns(d, simd.shift_rows(simd.sub_bytes(d, s))), k)


def aegis_update(d, s, m):
    return [xors(d, aes_round(d, s[4], s[0]), m)] + [aes_round(d, s[i - 1], s[i]) for i in range(1, 5)]


def aegis_init(d, key, iv, ad):
    c0, c1 = list(C0), list(C1)
    kv = xors(d, key, iv)
    s = [kv, c1, c0, xors(d, key, c0), xors(d, key, c1)]
    for i in range(5):
        s = aegis_update(d, s, key)
        s = aegis_update(d, s, kv)
    for i in range(0, len(ad), 16):
        b = ad[i:i + 16]
        s = aegis_update(d, s, b + [0] * (16 - len(b)))
    return s


def aegis_ks(d, s):
    a = [d.and_(x, y, 8) for x, y in zip(s[2], s[3])]
    return xors(d, xors(d, s[1], s[4]), a)


def aegis_final(d, s, adlen, msglen):
    t = list((adlen * 8).to_bytes(8, 'little')) + list((msglen * 8).to_bytes(8, 'little'))
    t = xors(d, t, s[3])
    for i in range(7):
        s = aegis_update(d, s, t)
    r = s[0]
    for i in range(1, 5):
        r = xors(d, r, s[i])
    return r


def aegis_encrypt(d, key, iv, ad, pt):
    s = aegis_init(d, key, iv, ad)
    ct = []
    for i in range(0, len(pt), 16):
        b = pt[i:i + 16]
        ct += xors(d, b, aegis_ks(d, s))[:len(b)]
        s = aegis_update(d, s, b + [0] * (16 - len(b)))
    return ct, aegis_final(d, s, len(ad), len(pt))


def aegis_decrypt(d, key, iv, ad, ct):
    s = aegis_init(d, key, iv, ad)
    pt = []
    for i in range(0, len(ct), 16):
        b = ct[i:i + 16]
        p = xors(d, b, aegis_ks(d, s))[:len(b)]
        pt += p
        s = aegis_update(d, s, p + [0] * (16 - len(p)))
    return pt, aegis_final(d, s, len(ad), len(ct))


# ---------------------------------------------------------------- ChaCha
def chacha_qr(d, x, a, b, c, e):
    x[a] = d.add(x[a], x[b], 32); x[e] = d.rotl(d.xor(x[e], x[a], 32), 16, 32)
    x[c] = d.add(x[c], x[e], 32); x[b] = d.rotl(d.xor(x[b], x[c], 32), 12, 32)
    x[a] = d.add(x[a], x[b], 32); x[e] = d.rotl(d.xor(x[e], x[a], 32), 8, 32)
    x[c] = d.add(x[c], x[e], 32); x[b] = d.rotl(d.xor(x[b], x[c], 32), 7, 32)


def chacha_block(d, key, nonce, counter, rounds=20):
    s = [int.from_bytes(b'expand 32-byte k'[4 * i:4 * i + 4], 'little') for i in range(4)]
    s += [le32(d, key[4 * i:4 * i + 4]) for i in range(8)] + [counter] + [le32(d, nonce[4 * i:4 * i + 4]) for i in range(3)]
    x = list(s)
    for r in range(rounds // 2):
        for q in ((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)):
            chacha_qr(d, x, *q)
    out = []
    for a, b in zip(x, s):
        out += un_le(d, d.add(a, b, 32))
    return out


def chacha(d, key, nonce, data, first=1, rounds=20):
    out = []
    n = first
    for i in range(0, len(data), 64):
        out += xors(d, data[i:i + 64], chacha_block(d, key, nonce, n & 0xffffffff, rounds))
        n += 1
    return out


# ---------------------------------------------------------------- HC-128
class HC128:
    def __init__(self, d, key, iv):
        self.d = d
        k = [le32(d, key[4 * i:4 * i + 4]) for i in range(4)]
        v = [le32(d, iv[4 * i:4 * i + 4]) for i in range(4)]
        W = k + k + v + v
        for i in range(16, 1280):
            W.append(d.sumall([self.f2(W[i - 2]), W[i - 7], self.f1(W[i - 15]), W[i - 16], i], 32))
        self.P = W[256:768]
        self.Q = W[768:1280]
        self.n = 0
        for i in range(512):
            self.P[i] = d.xor(self.stepP(i), self.h(self.Q, self.P[(i - 12) % 512]), 32)
        for i in range(512):
            self.Q[i] = d.xor(self.stepQ(i), self.h(self.P, self.Q[(i - 12) % 512]), 32)

    def copy(self):
        o = HC128.__new__(HC128)
        o.d = self.d
        o.P = list(self.P)
        o.Q = list(self.Q)
        o.n = self.n
        return o

    def rr(self, x, n):
        return self.d.rotl(x, 32 - n, 32)

    def x3(self, a, b, c):
        return self.d.xor(self.d.xor(a, b, 32), c, 32)

    def f1(self, x):
        return self.x3(self.rr(x, 7), self.rr(x, 18), self.d.lshr(x, 3, 32))

    def f2(self, x):
        return self.x3(self.rr(x, 17), self.rr(x, 19), self.d.lshr(x, 10, 32))

    def stepP(self, j):
        d, P = self.d, self.P
        x, y, z = P[(j - 3) % 512], P[(j - 10) % 512], P[(j - 511) % 512]
        return d.sumall([P[j], d.xor(self.rr(x, 10), self.rr(z, 23), 32), self.rr(y, 8)], 32)

    def stepQ(self, j):
        d, Q = self.d, self.Q
        x, y, z = Q[(j - 3) % 512], Q[(j - 10) % 512], Q[(j - 511) % 512]
        return d.sumall([Q[j], d.xor(self.d.rotl(x, 10, 32), self.d.rotl(z, 23, 32), 32), self.d.rotl(y, 8, 32)], 32)

    def h(self, T, x):
        d = self.d
        a = d.slice(x, 0, 8)
        c = d.slice(x, 16, 8)
        u = d.select(T[0:256], d.bits(a, 8), 32)
        v = d.select(T[256:512], d.bits(c, 8), 32)
        return d.add(u, v, 32)

    def word(self):
        i = self.n
        self.n += 1
        j = i % 512
        if i % 1024 < 512:
            self.P[j] = self.stepP(j)
            return self.d.xor(self.h(self.Q, self.P[(j - 12) % 512]), self.P[j], 32)
        self.Q[j] = self.stepQ(j)
        return self.d.xor(self.h(self.P, self.Q[(j - 12) % 512]), self.Q[j], 32)

    def keystream(self, n):
        out = []
        while len(out) < n:
            out += un_le(self.d, self.word())
        return out[:n]


# ---------------------------------------------------------------- Rabbit (RFC 4503)
RA = [0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3]


class Rabbit:
    def __init__(self, d, key):
        self.d = d
        k = [d.concat([(key[2 * i], 8), (key[2 * i + 1], 8)]) for i in range(8)]

        def cat(hi, lo):
            return d.concat([(lo, 16), (hi, 16)])
        self.X = []
        self.C = []
        for j in range(8):
            if j % 2 == 0:
                self.X.append(cat(k[(j + 1) % 8], k[j]))
                self.C.append(cat(k[(j + 4) % 8], k[(j + 5) % 8]))
            else:
                self.X.append(cat(k[(j + 5) % 8], k[(j + 4) % 8]))
                self.C.append(cat(k[j], k[(j + 1) % 8]))
        self.b = 0
        for i in range(4):
            self.next()
        for j in range(8):
            self.C[j] = d.xor(self.C[j], self.X[(j + 4) % 8], 32)
        self.master = (list(self.X), list(self.C), self.b)

    def load_iv(self, iv):
        d = self.d
        self.X, self.C, self.b = list(self.master[0]), list(self.master[1]), self.master[2]
        lo = le32(d, iv[0:4])
        hi = le32(d, iv[4:8])
        h = lambda w, i: d.slice(w, 16 * i, 16)
        i1 = d.concat([(h(lo, 1), 16), (h(hi, 1), 16)])
        i3 = d.concat([(h(lo, 0), 16), (h(hi, 0), 16)])
        for j, w in enumerate((lo, i1, hi, i3, lo, i1, hi, i3)):
            self.C[j] = d.xor(self.C[j], w, 32)
        for i in range(4):
            self.next()

    def next(self):
        d = self.d
        b = self.b
        for j in range(8):
            # 33-bit sum of 32-bit words
            s = d.sumall([d.zext(self.C[j], 64) if type(self.C[j]) is tuple else self.C[j], RA[j],
                          b if b < 2 else d.zext((b,), 64)], 64)
            s = d.bits(s, 64)
            self.C[j] = d.norm(s[:32])
            # re-normalise as a 32-bit sum
            self.C[j] = d.trunc(s, 32)
            b = s[32]
        self.b = b
        G = []
        for j in range(8):
            u = d.add(self.X[j], self.C[j], 32)
            u = d.zext(u, 64) if type(u) is tuple else u
            sq = d.mul(u, u, 64)
            G.append(d.xor(d.slice(sq, 0, 32), d.slice(sq, 32, 32), 32))
        r = lambda x, n: d.rotl(x, n, 32)
        X = self.X
        self.X = [None] * 8
        for j in range(8):
            if j % 2 == 0:
                self.X[j] = d.sumall([G[j], r(G[(j + 7) % 8], 16), r(G[(j + 6) % 8], 16)], 32)
            else:
                self.X[j] = d.sumall([G[j], r(G[(j + 7) % 8], 8), G[(j + 6) % 8]], 32)

    def block(self):
        d = self.d
        self.next()
        X = self.X
        h = lambda w, i: d.slice(w, 16 * i, 16)
        x = lambda a, b: d.xor(a, b, 16)
        s = [x(h(X[0], 0), h(X[5], 1)), x(h(X[0], 1), h(X[3], 0)),
             x(h(X[2], 0), h(X[7], 1)), x(h(X[2], 1), h(X[5], 0)),
             x(h(X[4], 0), h(X[1], 1)), x(h(X[4], 1), h(X[7], 0)),
             x(h(X[6], 0), h(X[3], 1)), x(h(X[6], 1), h(X[1], 0))]
        out = []
        for v in s:
            out += [d.slice(v, 0, 8), d.slice(v, 8, 8)]
        return out


# ---------------------------------------------------------------- Serpent / Sosemanuk
SERPENT_S = [[3, 8, 15, 1, 10, 6, 5, 11, 14, 13, 4, 2, 7, 0, 9, 12], [15, 12, 2, 7, 9, 0, 5, 10, 1, 11, 14, 8, 6, 13, 3, 4],
             [8, 6, 7, 9, 3, 12, 10, 15, 13, 1, 14, 4, 0, 11, 5, 2], [0, 15, 11, 8, 12, 9, 6, 3, 13, 1, 2, 4, 10, 7, 5, 14],
             [1, 15, 8, 3, 12, 0, 11, 6, 2, 5, 4, 10, 9, 14, 7, 13], [15, 5, 2, 11, 4, 10, 9, 12, 0, 3, 14, 8, 13, 6, 7, 1],
             [7, 2, 12, 5, 8, 4, 6, 11, 14, 9, 1, 15, 13, 3, 10, 0], [1, 13, 15, 0, 14, 8, 2, 11, 7, 4, 12, 10, 9, 3, 5, 6]]


def serpent_sbox(d, n, w):
    t = SERPENT_S[n]
    cols = [sum(((t[v] >> k) & 1) << v for v in range(16)) for k in range(4)]
    out = [[None] * 32 for _ in range(4)]
    bs = [d.bits(x, 32) for x in w]
    for i in range(32):
        idx = tuple(b[i] for b in bs)
        for k in range(4):
            out[k][i] = summ.apply1(d, cols[k], idx)
    return [d.norm(tuple(o)) for o in out]


def serpent_lt(d, x):
    a, b, c, e = x
    X = lambda p, q: d.xor(p, q, 32)
    a = d.rotl(a, 13, 32)
    c = d.rotl(c, 3, 32)
    b = X(b, X(a, c))
    e = X(e, X(c, d.shl(a, 3, 32)))
    b = d.rotl(b, 1, 32)
    e = d.rotl(e, 7, 32)
    a = X(a, X(b, e))
    c = X(c, X(e, d.shl(b, 7, 32)))
    a = d.rotl(a, 5, 32)
    c = d.rotl(c, 22, 32)
    return [a, b, c, e]


def serpent_keys(d, key, n):
    k = key + ([0x01] + [0] * (31 - len(key)) if len(key) < 32 else [])
    w = [le32(d, k[4 * i:4 * i + 4]) for i in range(8)]
    for i in range(4 * n):
        t = 0x9e3779b9 ^ i
        for q in (0, 3, 5, 7):
            t = d.xor(t, w[i + q], 32)
        w.append(d.rotl(t, 11, 32))
    w = w[8:]
    return [serpent_sbox(d, (3 - i) % 8, w[4 * i:4 * i + 4]) for i in range(n)]


def serpent24(d, rk, s):
    """the 24-round variant of Sosemanuk: words after rounds 12, 18 and 24"""
    out = []
    for r in range(24):
        s = serpent_lt(d, serpent_sbox(d, r % 8, [d.xor(a, b, 32) for a, b in zip(s, rk[r])]))
        if r == 23:
            s = [d.xor(a, b, 32) for a, b in zip(s, rk[24])]
        if r in (11, 17, 23):
            out.append(s)
    return out


def _sose_tab(e3, e2, e1, e0):
    p = [1]
    for i in range(254):
        a = p[-1] << 1
        p.append(a ^ 0x1a9 if a & 0x100 else a)
    lg = {v: i for i, v in enumerate(p)}
    m = lambda a, e: 0 if a == 0 else p[(lg[a] + e) % 255]
    return [m(x, e3) << 24 | m(x, e2) << 16 | m(x, e1) << 8 | m(x, e0) for x in range(256)]


AL = _sose_tab(23, 245, 48, 239)
IA = _sose_tab(16, 39, 6, 64)


class Sosemanuk:
    def __init__(self, d, key):
        self.d = d
        self.rk = serpent_keys(d, key, 25)

    def load_iv(self, iv):
        d = self.d
        Y = serpent24(d, self.rk, [le32(d, iv[4 * i:4 * i + 4]) for i in range(4)])
        s = [None] * 10
        s[9], s[8], s[7], s[6] = Y[0]
        self.R1, s[4], self.R2, s[5] = Y[1]
        s[3], s[2], s[1], s[0] = Y[2]
        self.s = s

    def block(self):
        d = self.d
        X = lambda a, b: d.xor(a, b, 32)
        f = []
        ss = []
        for t in range(4):
            s = self.s
            o = self.R1
            lsb = d.bits(o, 32)[0]
            self.R1 = d.add(self.R2, d.ite(lsb, X(s[1], s[8]), s[1], 32), 32)
            self.R2 = d.rotl(d.mul(o, 0x54655307, 32), 7, 32)
            f.append(X(d.add(s[9], self.R1, 32), self.R2))
            ss.append(s[0])
            inv = X(d.lshr(s[3], 8, 32), d.lookup(IA, d.bits(d.slice(s[3], 0, 8), 8), 32))
            al = X(d.shl(s[0], 8, 32), d.lookup(AL, d.bits(d.slice(s[0], 24, 8), 8), 32))
            self.s = s[1:] + [X(s[9], X(inv, al))]
        z = [X(a, b) for a, b in zip(serpent_sbox(d, 2, f), ss)]
        out = []
        for w in z:
            out += un_le(d, w)
        return out


# ---------------------------------------------------------------- SHA-256
def _primes(n):
    r = []
    x = 2
    while len(r) < n:
        if all(x % p for p in r):
            r.append(x)
        x += 1
    return r


def _iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n:
            lo = m
        else:
            hi = m - 1
    return lo


SHA_K = [_iroot(p << 96, 3) & 0xffffffff for p in _primes(64)]
SHA_H = [_iroot(p << 64, 2) & 0xffffffff for p in _primes(8)]


def sha_compress(d, H, blk):
    rr = lambda x, n: d.rotl(x, 32 - n, 32)
    x3 = lambda a, b, c: d.xor(d.xor(a, b, 32), c, 32)
    w = [be32(d, blk[4 * i:4 * i + 4]) for i in range(16)]
    for t in range(16, 64):
        s1 = x3(rr(w[t - 2], 17), rr(w[t - 2], 19), d.lshr(w[t - 2], 10, 32))
        s0 = x3(rr(w[t - 15], 7), rr(w[t - 15], 18), d.lshr(w[t - 15], 3, 32))
        w.append(d.sumall([s1, w[t - 7], s0, w[t - 16]], 32))
    a, b, c, e, f, g, h, i = H
    for t in range(64):
        S1 = x3(rr(f, 6), rr(f, 11), rr(f, 25))
        ch = d.xor(d.and_(f, g, 32), d.and_(d.not_(f, 32), h, 32), 32)
        t1 = [i, S1, ch, SHA_K[t], w[t]]
        S0 = x3(rr(a, 2), rr(a, 13), rr(a, 22))
        mj = x3(d.and_(a, b, 32), d.and_(a, c, 32), d.and_(b, c, 32))
        i, h, g, f, e, c, b, a = h, g, f, d.sumall([e] + t1, 32), c, b, a, d.sumall(t1 + [S0, mj], 32)
    return [d.add(x, y, 32) for x, y in zip(H, (a, b, c, e, f, g, h, i))]


def sha256(d, msg):
    n = len(msg)
    m = list(msg) + [0x80] + [0] * ((55 - n) % 64) + list((8 * n).to_bytes(8, 'big'))
    H = SHA_H
    for i in range(0, len(m), 64):
        H = sha_compress(d, H, m[i:i + 64])
    out = []
    for h in H:
        out += un_be(d, h)
    return out


def hmac(d, key, msg, n=32):
    if len(key) > 64:
        key = sha256(d, key)
    key = list(key) + [0] * (64 - len(key))
    inner = sha256(d, [d.xor(k, 0x36, 8) for k in key] + list(msg))
    return sha256(d, [d.xor(k, 0x5c, 8) for k in key] + inner)[:n]


# ---------------------------------------------------------------- MD5 (RFC 1321)
MD5_T = [int(abs(math.sin(i + 1)) * 4294967296) & 0xffffffff for i in range(64)]
MD5_R = [7, 12, 17, 22] * 4 + [5, 9, 14, 20] * 4 + [4, 11, 16, 23] * 4 + [6, 10, 15, 21] * 4


def md5_compress(d, H, blk):
    X = [le32(d, blk[4 * i:4 * i + 4]) for i in range(16)]
    a, b, c, e = H
    nt = lambda x: d.not_(x, 32)
    for i in range(64):
        if i < 16:
            f, g = d.xor(d.and_(b, c, 32), d.and_(nt(b), e, 32), 32), i
        elif i < 32:
            f, g = d.xor(d.and_(b, e, 32), d.and_(c, nt(e), 32), 32), (5 * i + 1) % 16
        elif i < 48:
            f, g = d.xor(d.xor(b, c, 32), e, 32), (3 * i + 5) % 16
        else:
            f, g = d.xor(c, d.or_(b, nt(e), 32), 32), (7 * i) % 16
        t = d.sumall([a, f, MD5_T[i], X[g]], 32)
        a, e, c, b = e, c, b, d.add(b, d.rotl(t, MD5_R[i], 32), 32)
    return [d.add(x, y, 32) for x, y in zip(H, (a, b, c, e))]


def md5(d, msg):
    n = len(msg)
    m = list(msg) + [0x80] + [0] * ((55 - n) % 64) + list((8 * n).to_bytes(8, 'little'))
    H = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]
    for i in range(0, len(m), 64):
        H = md5_compress(d, H, m[i:i + 64])
    out = []
    for h in H:
        out += un_le(d, h)
    return out


# ---------------------------------------------------------------- DES (FIPS 46-3)
IP = [58, 50, 42, 34, 26, 18, 10, 2, 60, 52, 44, 36, 28, 20, 12, 4, 62, 54, 46, 38, 30, 22, 14, 6, 64, 56, 48, 40, 32, 24, 16, 8,
      57, 49, 41, 33, 25, 17, 9, 1, 59, 51, 43, 35, 27, 19, 11, 3, 61, 53, 45, 37, 29, 21, 13, 5, 63, 55, 47, 39, 31, 23, 15, 7]
FP = [40, 8, 48, 16, 56, 24, 64, 32, 39, 7, 47, 15, 55, 23, 63, 31, 38, 6, 46, 14, 54, 22, 62, 30, 37, 5, 45, 13, 53, 21, 61, 29,
      36, 4, 44, 12, 52, 20, 60, 28, 35, 3, 43, 11, 51, 19, 59, 27, 34, 2, 42, 10, 50, 18, 58, 26, 33, 1, 41, 9, 49, 17, 57, 25]
EX = [32, 1, 2, 3, 4, 5, 4, 5, 6, 7, 8, 9, 8, 9, 10, 11, 12, 13, 12, 13, 14, 15, 16, 17, 16, 17, 18, 19, 20, 21, 20, 21, 22, 23, 24, 25,
      24, 25, 26, 27, 28, 29, 28, 29, 30, 31, 32, 1]
PP = [16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25]
PC1 = [57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36,
       63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4]
PC2 = [14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2,
       41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32]
DES_S = [
    [14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7, 0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8,
     4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0, 15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13],
    [15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10, 3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5,
     0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15, 13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9],
    [10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8, 13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1,
     13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7, 1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12],
    [7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15, 13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9,
     10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4, 3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14],
    [2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9, 14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6,
     4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14, 11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3],
    [12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11, 10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8,
     9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6, 4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13],
    [4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1, 13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6,
     1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2, 6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12],
    [13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7, 1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2,
     7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8, 2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11]]
DES_SHIFT = [1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1]


def des_bits(d, by):
    """FIPS numbering: bit 1 is the most significant bit of the first byte"""
    out = []
    for b in by:
        x = d.bits(b, 8)
        out += [x[7 - i] for i in range(8)]
    return out


def des_keys(d, key):
    k = des_bits(d, key)
    cd = [k[i - 1] for i in PC1]
    c, e = cd[:28], cd[28:]
    r = []
    for s in DES_SHIFT:
        c = c[s:] + c[:s]
        e = e[s:] + e[:s]
        x = c + e
        r.append([x[i - 1] for i in PC2])
    return r


def des_block(d, keys, blk):
    x = des_bits(d, blk)
    x = [x[i - 1] for i in IP]
    L, R = x[:32], x[32:]
    for k in keys:
        e = [d.xor1(R[i - 1], q) for i, q in zip(EX, k)]
        o = []
        for s in range(8):
            b = e[6 * s:6 * s + 6]
            # row = b0 b5, column = b1..b4 ; index tuple least significant first
            idx = (b[4], b[3], b[2], b[1], b[5], b[0])
            tab = [DES_S[s][((j >> 5 & 1) << 1 | (j >> 4 & 1)) * 16 + (j & 15)] for j in range(64)]
            v = d.bits(d.lookup(tab, idx, 4), 4)
            o += [v[3], v[2], v[1], v[0]]
        f = [o[i - 1] for i in PP]
        L, R = R, [d.xor1(a, b) for a, b in zip(L, f)]
    x = R + L
    x = [x[i - 1] for i in FP]
    return [d.norm(tuple(x[8 * i + 7 - j] for j in range(8))) for i in range(8)]


# ---------------------------------------------------------------- Hex
def hex_encode(d, data):
    out = []
    tab = list(b'0123456789ABCDEF')
    for b in data:
        for sh in (4, 0):
            n = d.slice(b, sh, 4)
            out.append(d.lookup(tab, d.bits(n, 4), 8) if type(n) is tuple else tab[n])
    return out
