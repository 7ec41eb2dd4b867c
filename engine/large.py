"""Very long messages: calls whose size argument lies beyond 2^16, 2^29, 2^31 bytes, decided by exact loop extrapolation (accel.py).
Every message byte is unknown; the first and the last bytes of every output, tags and digests are compared with the specification."""
import spec as S
import accel
from absint import Unsupported
from scen import Sc

WIN = 150


def lazy(b, k):
    return b.init(k) if callable(b.init) else b.init[k]


class Blocks(accel.Provider):
    """a chain state s_{b+1} = step(s_b, block b)"""

    def __init__(self, d, st, step):
        accel.Provider.__init__(self, d)
        self._step = step
        self.begin(st)

    def step(self, st, k):
        return self._step(st, k)


def words(d, W):
    out = []
    for w in W:
        out += S.un_le(d, w)
    return out


def unwords(d, l):
    return [S.le32(d, l[4 * i:4 * i + 4]) for i in range(len(l) // 4)]


class WordBlocks(Blocks):
    def flat(self, st):
        return words(self.d, st)

    def unflat(self, l):
        return unwords(self.d, l)


def final(P, b):
    st = P.state(b)
    if st is None:
        raise Unsupported('the state after block %d of the specification is out of reach' % b)
    return st


def padded(msg, n, order):
    """byte k of the padded message"""
    z = (55 - n) % 64
    tail = [0x80] + [0] * z + list((8 * n & (2 ** 64 - 1)).to_bytes(8, order))

    def at(k):
        return msg(k) if k < n else tail[k - n]
    return at, (n + len(tail)) // 64


# ------------------------------------------------------------------------------------------------ hashes
def sha_provider(d, at):
    return WordBlocks(d, list(S.SHA_H), lambda H, k: S.sha_compress(d, H, [at(64 * k + i) for i in range(64)]))


def digest_be(d, H):
    out = []
    for h in H:
        out += S.un_be(d, h)
    return out


def sha_large(n, tag='C12'):
    def fn(x):
        d = x.d
        m = x.huge('m', n)
        o = x.undef('digest', 32)
        at, nb = padded(m.init, n, 'big')
        P = sha_provider(d, at)
        accel.Accel(x, P)
        x.call('d_sha', o, m, n)
        x.expect(tag, 'SHA-256 of a %d-byte message' % n, o, digest_be(d, final(P, nb)))
    return fn


def hmac_large(n, tag='C13', val=False):
    def fn(x):
        d = x.d
        st = x.state('sz')
        k = x.sym('key', 20)
        x.call('d_key', st, k, 20)
        key = list(k.init) + [0] * 44
        m = x.huge('m', n)
        at, nb = padded(lambda q: d.xor(key[q], 0x36, 8) if q < 64 else m.init(q - 64), n + 64, 'big')
        P = sha_provider(d, at)
        accel.Accel(x, P)
        if val:
            t = x.sym('tag', 32)
            r = x.call('d_val', st, t, m, n, 32)
        else:
            o = x.undef('tag', 32)
            x.call('d_tag', st, o, m, n, 32)
        inner = digest_be(d, final(P, nb))
        w = S.sha256(d, [d.xor(b, 0x5c, 8) for b in key] + inner)
        if val:
            good = d.eq(d.concat([(b, 8) for b in w]), d.concat([(b, 8) for b in t.init]), 256)
            x.expect_val('C14', 'hmac_tag_validation is 1 exactly for the right tag (message of %d bytes)' % n, r, d.norm((good,) + (0,) * 31), 32, 'hmac_tag_validation')
        else:
            x.expect(tag, 'HMAC-SHA-256 tag of a %d-byte message' % n, o, w)
    return fn


def md5_large(parts, one=False, tag='C15'):
    def fn(x):
        d = x.d
        n = sum(parts)
        bufs = [x.huge('m%d' % j, p) if p > 4096 else x.sym('m%d' % j, p) for j, p in enumerate(parts)]

        def msg(k):
            for b, p in zip(bufs, parts):
                if k < p:
                    return lazy(b, k)
                k -= p
        at, nb = padded(msg, n, 'little')
        P = WordBlocks(d, [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476], lambda H, k: S.md5_compress(d, H, [at(64 * k + i) for i in range(64)]))
        accel.Accel(x, P)
        st = x.state('sz')
        o = x.undef('digest', 16)
        if one:
            x.call('d_all', st, o, bufs[0], n)
        else:
            x.call('d_init', st)
            for b, p in zip(bufs, parts):
                x.call('d_upd', st, b, p)
            x.call('d_fin', o, st)
        x.expect(tag, 'MD5 of %s bytes (%s)' % ('+'.join(map(str, parts)), 'one call' if one else 'updates'), o, words(d, final(P, nb)))
    return fn


# ------------------------------------------------------------------------------------------------ ciphers
def windows(n, w=WIN):
    return [(0, min(n, 70)), (max(0, n - w), n)]


def chacha_large(n, rounds, tag='C07'):
    def fn(x):
        st = x.state('sz')
        k = x.sym('key', 32)
        nn = x.sym('nonce', 12)
        x.call('d_init', st, k, nn)
        accel.Accel(x)
        i = x.huge('in', n)
        o = x.hugeout('out', n)
        x.call('d_proc', st, o, i, n)
        ks = {}
        for lo, hi in windows(n):
            want = []
            for q in range(lo, hi):
                b = q // 64
                if b not in ks:
                    ks[b] = S.chacha_block(x.d, k.init, nn.init, (1 + b) & 0xffffffff, rounds)
                want.append(x.d.xor(i.init(q), ks[b][q % 64], 8))
            x.expect(tag, 'ChaCha output of a %d-byte packet, bytes %d..%d' % (n, lo, hi - 1), o, want, lo)
    return fn


class AegisP(Blocks):
    def flat(self, st):
        return [b for w in st for b in w]

    def unflat(self, l):
        return [l[16 * i:16 * i + 16] for i in range(5)]


def aegis_large(al, ml, dec=False):
    def fn(x):
        d = x.d
        st = x.state('sz')
        k = x.sym('key', 16)
        iv = x.sym('iv', 16)
        ad = x.huge('ad', al) if al > 4096 else x.sym('ad', al)
        src = x.huge('in', ml) if ml > 4096 else x.sym('in', ml)
        o = x.hugeout('out', ml) if ml > 4096 else x.undef('out', ml)
        na = -(-al // 16)
        nm = -(-ml // 16)
        outs = {}

        def blk(b, n, i):
            return [lazy(b, 16 * i + j) if 16 * i + j < n else 0 for j in range(16)]

        def step(s, i):
            if i < na:
                return S.aegis_update(d, s, blk(ad, al, i))
            i -= na
            n = min(16, ml - 16 * i)
            b = blk(src, ml, i)
            r = S.xors(d, b, S.aegis_ks(d, s))[:n]
            outs[i] = r
            return S.aegis_update(d, s, (r if dec else b[:n]) + [0] * (16 - n))
        P = AegisP(d, S.aegis_init(d, k.init, iv.init, []), step)
        accel.Accel(x, P)
        x.call('d_key', st, k)
        if dec:
            t = x.sym('tag', 16)
            r = x.call('d_dec', st, o, src, ad, iv, t, al, ml)
        else:
            t = x.undef('tag', 16)
            x.call('d_enc', st, o, t, src, ad, iv, al, ml)
        s = final(P, na + nm)
        w = S.aegis_final(d, s, al, ml)
        what = '(AD of %d bytes, message of %d bytes)' % (al, ml)
        if dec:
            good = d.eq(d.concat([(b, 8) for b in w]), d.concat([(b, 8) for b in t.init]), 128)
        for lo, hi in windows(ml):
            want = []
            for q in range(lo, hi):
                if q // 16 not in outs:
                    s2 = final(P, na + q // 16)
                    step(s2, na + q // 16)
                b = outs[q // 16][q % 16]
                want.append(d.ite(good, b, 0, 8) if dec else b)
            x.expect('C06' if dec else 'C05', 'AEGIS-128 %s, bytes %d..%d %s' % ('plaintext' if dec else 'ciphertext', lo, hi - 1, what), o, want, lo)
        if dec:
            x.expect_val('C06', 'AEGIS decryption returns 1 exactly when the tag matches ' + what, r, d.norm((good,) + (0,) * 31), 32)
        else:
            x.expect('C05', 'AEGIS-128 tag %s' % what, t, w)
    return fn


class CfbP(Blocks):
    dec = None

    def resume(self, b):
        l = accel.Provider.resume(self, b)
        if self.dec is not None:
            l = [lazy(self.dec, 16 * (b - 1) + j) for j in range(16)]
            self.put(b, l)
        return l


def cfb_large(n, dec, tag):
    def fn(x):
        rounds = x.info.get('rounds', 10)
        d = x.d
        st = x.state('sz')
        k = x.sym('key', 16)
        iv = x.sym('iv', 16)
        x.call('d_init', st, k, iv)
        i = x.huge('in', n)
        o = x.hugeout('out', n)
        rk = S.aes_keys(d, k.init, rounds)

        def step(reg, b):
            c = [i.init(16 * b + j) for j in range(16)]
            return c if dec else S.xors(d, c, S.aes_enc(d, rk, reg, rounds))
        P = CfbP(d, list(iv.init), step)
        if dec:
            P.dec = i
        accel.Accel(x, P)
        x.call('d_dec' if dec else 'd_enc', st, o, i, n)
        for lo, hi in windows(n, 80):
            want = []
            for q in range(lo, hi):
                if q == lo or q % 16 == 0:
                    ks = S.aes_enc(d, rk, final(P, q // 16), rounds)
                want.append(d.xor(i.init(q), ks[q % 16], 8))
            x.expect(tag, 'AES-CFB %s of %d bytes, bytes %d..%d' % ('decryption' if dec else 'encryption', n, lo, hi - 1), o, want, lo)
    return fn


def clone(o):
    c = object.__new__(type(o))
    c.__dict__.update({k: list(v) if type(v) is list else v for k, v in o.__dict__.items()})
    return c


class StreamP(accel.Provider):
    """states of a synchronous stream cipher object with block()"""

    def __init__(self, d, obj, get, put):
        accel.Provider.__init__(self, d)
        self.get = get
        self.margin = 3
        self.set = put
        self.out = {}
        self.begin(obj)

    def step(self, st, k):
        c = clone(st)
        self.out[k] = c.block()
        return c

    def flat(self, st):
        return self.get(st)

    def unflat(self, l):
        c = clone(next(iter(self.states.values())))
        self.set(c, l)
        return c

    def block(self, b):
        if b not in self.out:
            self.step(final(self, b), b)
        return self.out[b]


def rabbit_large(n, tag='C09'):
    def fn(x):
        d = x.d
        st = x.state('sz')
        k = x.sym('key', 16)
        iv = x.sym('iv', 8)
        x.call('d_key', st, k)
        x.call('d_iv', st, iv)
        R = S.Rabbit(d, k.init)
        R.load_iv(iv.init)

        def get(o):
            return words(d, o.X + o.C) + [d.norm((o.b,) + (0,) * 7)]

        def put(o, l):
            w = unwords(d, l[:64])
            o.X, o.C = w[:8], w[8:]
            o.b = d.bits(l[64], 8)[0]

        class RP(StreamP):
            def resume(self, b):
                l = accel.Provider.resume(self, b)
                l[64] = d.norm((d.bits(l[64], 8)[0],) + (0,) * 7)
                self.put(b, self.unflat(l))
                return l
        P = RP(d, R, get, put)
        stream(x, P, st, n, tag, 'Rabbit', 16)
    return fn


def stream(x, P, st, n, tag, name, bs):
    accel.Accel(x, P)
    i = x.huge('in', n)
    o = x.hugeout('out', n)
    x.call('d_proc', st, o, i, n)
    for lo, hi in windows(n, 80):
        want = [x.d.xor(i.init(q), P.block(q // bs)[q % bs], 8) for q in range(lo, hi)]
        x.expect(tag, '%s output of a %d-byte packet, bytes %d..%d' % (name, n, lo, hi - 1), o, want, lo)


def hc_large(n, tag='C08'):
    def fn(x):
        d = x.d
        st = x.state('sz')
        k = x.sym('key', 16)
        iv = x.sym('iv', 16)
        x.call('d_init', st, k, iv)
        x.periods = (1, 1024)

        class H(S.HC128):
            """one block is a pass over both tables"""
            def block(self):
                return self.keystream(4096)

        h = S.HC128(d, k.init, iv.init)
        h.__class__ = H

        def get(o):
            return words(d, o.P + o.Q)

        def put(o, l):
            w = unwords(d, l)
            o.P, o.Q, o.n = w[:512], w[512:], 0
        P = StreamP(d, h, get, put)
        P.margin = 0
        stream(x, P, st, n, tag, 'HC-128', 4096)
    return fn


def sose_large(n, tag='C11'):
    def fn(x):
        d = x.d
        st = x.state('sz')
        k = x.sym('key', 16)
        iv = x.sym('iv', 16)
        x.call('d_key', st, k, 16)
        x.call('d_iv', st, iv)
        Z = S.Sosemanuk(d, k.init)
        Z.load_iv(iv.init)

        def get(o):
            return words(d, o.s + [o.R1, o.R2])

        def put(o, l):
            w = unwords(d, l)
            o.s, o.R1, o.R2 = w[:10], w[10], w[11]
        stream(x, StreamP(d, Z, get, put), st, n, tag, 'Sosemanuk', 16)
    return fn


def hex_large(n, dec):
    def fn(x):
        d = x.d
        accel.Accel(x)
        if not dec:
            i = x.huge('in', n)
            o = x.hugeout('out', 2 * n + 1)
            x.call('d_enc', o, i, n)
            for lo, hi in windows(n, 40):
                x.expect('C17', 'hex_encode of %d bytes, digits %d..%d' % (n, 2 * lo, 2 * hi - 1), o, S.hex_encode(d, [i.init(q) for q in range(lo, hi)]), 2 * lo)
            x.expect('C17', 'hex_encode of %d bytes, final NUL' % n, o, [0], 2 * n)
        else:
            raw = lambda q: d.var('x[%d]' % q, 8)
            i = x.huge('hex', 2 * n, lambda k: S.hex_encode(d, [raw(k // 2)])[k % 2])
            o = x.hugeout('out', n)
            x.call('d_dec', o, i, 2 * n)
            for lo, hi in windows(n, 40):
                x.expect('C17', 'hex_decode of every upper-case encoding of %d bytes, bytes %d..%d' % (n, lo, hi - 1), o, [raw(q) for q in range(lo, hi)], lo)
    return fn


def gen(im, tier):
    q = tier == 'quick'
    M, G = (1 << 22) + 77, (1 << 29) + 3
    big = [] if q else [(1 << 31) + 70, (1 << 32) + 129, (1 << 33) + 5]
    out = []
    fam = im.family
    more = [M] if not q or im.variant == 'plain' else []

    def add(name, props, fn, cost, **kw):
        out.append(Sc('large: ' + name, props, fn, cost=cost, soft=True, **kw))
    if fam == 'chacha':
        r = {'rounds8': 8, 'rounds12': 12}.get(im.variant, 20)
        for n in more + [G] + (big or [(1 << 31) + 70] if more else []):
            add('%d bytes' % n, ['C07'], chacha_large(n, r), 14)
    elif fam == 'sha256':
        for n in more + [G] + big:
            add('%d bytes' % n, ['C12'], sha_large(n), 20)
    elif fam == 'hmac':
        for n in more + [G] + big:
            add('tag of %d bytes' % n, ['C13'], hmac_large(n), 20)
        add('validation of %d bytes' % G, ['C14'], hmac_large(G, val=True), 20)
    elif fam == 'md5':
        add('one call %d' % M, ['C15'], md5_large([M], True), 14)
        add('one call %d' % G, ['C15'], md5_large([G], True), 14)
        add('updates', ['C15'], md5_large([(1 << 28) + 5, (1 << 28) + 1, 7]), 20)
        add('updates 2', ['C15'], md5_large([(1 << 29) - 1, 1, (1 << 28) + 64, 1 << 28]), 20)
        if not q:
            add('one call 2^31', ['C15'], md5_large([(1 << 31) + 70], True), 14)
            add('one call 2^32-100', ['C15'], md5_large([(1 << 32) - 100], True), 14)
            add('updates 2^33', ['C15'], md5_large([(1 << 31) + 1, (1 << 31) + 70, (1 << 31) - 3, (1 << 31) + 9]), 30)
    elif fam == 'aegis':
        for a, m in ([(M, 5), (20, M), ((1 << 33) + 5, 7)] if more else []) + [(G, 0), (3, G)] + [(n, 7) for n in big[:2]] + [(7, n) for n in big]:
            add('encrypt %d+%d' % (a, m), ['C05'], aegis_large(a, m), 14)
            add('decrypt %d+%d' % (a, m), ['C06'], aegis_large(a, m, True), 14)
    elif fam == 'aes-cfb':
        for n in more + [G]:
            add('encrypt %d' % n, ['C03'], cfb_large(n, False, 'C03'), 10)
            add('decrypt %d' % n, ['C04'], cfb_large(n, True, 'C04'), 10)
    elif fam == 'rabbit':
        for n in more + [G] + big:
            add('%d bytes' % n, ['C09'], rabbit_large(n), 20)
    elif fam == 'hc128':
        for n in [G] if q else [M, G] + big:
            add('%d bytes' % n, ['C08'], hc_large(n), 200)
    elif fam == 'sosemanuk':
        for n in more + [G] + big:
            add('%d bytes' % n, ['C11'], sose_large(n), 20)
    elif fam == 'hex':
        from smalldom import SmallDom
        add('encode %d bytes' % M, ['C17'], hex_large(M, False), 5, d=SmallDom)
        add('decode %d bytes' % M, ['C17'], hex_large(M, True), 5, d=SmallDom)
    return out
