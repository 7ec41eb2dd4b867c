"""Call shapes for the cross-cutting properties (memory bounds, definedness, preserved inputs, released heap, silence).
Every buffer has exactly the documented size, so that any access beyond it is outside its object."""
import scen as C
from scen import Sc, sizes


def lens(limit, block, consts, tier, cap):
    return [x for x in sizes(limit, block, consts, 'thorough' if tier != 'quick' else 'quick', cap)]


def chunk(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def nm(g):
    return '%s..%s' % (g[0], g[-1]) if g else ''


def ctr(tier, consts):
    q = tier == 'quick'

    def one(Ls):
        def fn(x):
            for L in Ls:
                st, k, n = C.ctr_setup(x)
                i = x.sym('in', L)
                o = x.undef('out', L)
                x.call('d_proc', st, o, i, L)
                x.defined('AES-CTR output of a %d-byte packet' % L, o)
        return fn

    def seq(ls):
        def fn(x):
            st, k, n = C.ctr_setup(x)
            for L in ls:
                i = x.sym('in', L)
                o = x.undef('out', L)
                x.call('d_proc', st, o, i, L)
                x.defined('AES-CTR output of a %d-byte packet of %s' % (L, ls), o)
        return fn
    out = [Sc('lengths %s' % nm(g), [], one(g), cost=sum(g) / 100 + 1) for g in chunk(lens(100 if q else 300, 16, consts, tier, 2100), 20)]
    out += [Sc('packets %s' % s, [], seq(s)) for s in ([5, 16, 0, 3], [1] * 20, [17, 31, 48])]
    return out


def cfb(tier, consts):
    q = tier == 'quick'

    def run(seqs):
        def fn(x):
            for seq in seqs:
                st = x.state('sz')
                k = x.sym('key', 16)
                v = x.sym('iv', 16)
                x.call('d_init', st, k, v)
                for m, L in seq:
                    i = x.sym('in', L)
                    o = x.undef('out', L)
                    x.call('d_enc' if m == 'e' else 'd_dec', st, o, i, L)
                    x.defined('AES-CFB %s output of %d bytes (%s)' % (m, L, seq), o)
        return fn
    ls = lens(100 if q else 300, 16, consts, tier, 2100)
    out = []
    for m in 'ed':
        out += [Sc('%s lengths %s' % (m, nm(g)), [], run([[(m, L)] for L in g]), cost=sum(g) / 100 + 1) for g in chunk(ls, 20)]
    out.append(Sc('packet sequences', [], run([[('e', 5), ('e', 16), ('e', 0), ('d', 3)], [('d', 17), ('d', 1), ('d', 31)], [('e', 1)] * 20, [('d', 1)] * 20])))
    return out


def aegis(tier, consts):
    q = tier == 'quick'

    def run(pairs):
        def fn(x):
            for al, ml in pairs:
                st = x.state('sz')
                k = x.sym('key', 16)
                x.call('d_key', st, k)
                v = x.sym('iv', 16)
                ad = x.sym('ad', al)
                p = x.sym('pt', ml)
                c = x.undef('ct', ml)
                t = x.undef('tag', 16)
                x.call('d_enc', st, c, t, p, ad, v, al, ml)
                w = '(adlen=%d msglen=%d)' % (al, ml)
                x.defined('AEGIS ciphertext ' + w, c)
                x.defined('AEGIS tag ' + w, t)
                t2 = x.sym('tag2', 16, role='inout')
                c2 = x.sym('ct2', ml)
                r2 = x.undef('rec', ml)
                r = x.call('d_dec', st, r2, c2, ad, v, t2, al, ml)
                x.defined('AEGIS decryption output ' + w, r2)
                x.defval('AEGIS decryption result ' + w, r, 'aegis_decrypt_packet')
        return fn
    n = 34 if q else 67
    pairs = [(a, m) for a in (0, 1, 5, 15, 16, 17, 32, 33) for m in range(n)] + [(a, m) for a in range(n) for m in (0, 1, 16, 17)]
    for c in lens(0, 16, consts, tier, 2100):
        if c > n:
            pairs += [(c, 3), (3, c)]
    pairs = sorted(set(pairs), key=lambda p: (p[0] + p[1], p))
    return [Sc('ad/msg lengths %s' % nm(g), [], run(g), cost=5 + sum(a + b for a, b in g) / 100) for g in chunk(pairs, 20)]


def chacha(tier, consts):
    q = tier == 'quick'

    def run(Ls):
        def fn(x):
            for L in Ls:
                st = x.state('sz')
                k = x.sym('key', 32)
                n = x.sym('nonce', 12)
                x.call('d_init', st, k, n)
                i = x.sym('in', L)
                o = x.undef('out', L)
                x.call('d_proc', st, o, i, L)
                x.defined('ChaCha output of %d bytes' % L, o)
        return fn

    def aux(x):
        st = x.state('sz')
        k = x.sym('key', 32)
        n = x.sym('nonce', 12)
        x.call('d_init', st, k, n)
        o = x.undef('ks', 64)
        x.call('d_block', st, x.d.var('c', 32), o)
        x.defined('ChaCha block', o)
        for L in range(0, 68, 4):
            i = x.sym('sw', L)
            o = x.undef('swo', L)
            x.call('d_swap', o, i, L)
            x.defined('byte_swap of %d bytes' % L, o)
    return [Sc('lengths %s' % nm(g), [], run(g), cost=1 + sum(g) / 100) for g in chunk(lens(200 if q else 400, 64, consts, tier, 4200), 16)] + [Sc('block, byte_swap', [], aux)]


def hc(tier, consts):
    q = tier == 'quick'

    def run(seq):
        def fn(x):
            st = x.state('sz')
            k = x.sym('key', 16)
            v = x.sym('iv', 16)
            x.call('d_init', st, k, v)
            for m, L in seq:
                if m == 'p':
                    i = x.sym('in', L)
                    o = x.undef('out', L)
                    x.call('d_proc', st, o, i, L)
                    x.defined('HC-128 output of %d bytes' % L, o)
                else:
                    n = (L + 3) // 4 * 4
                    o = x.undef('ks', n)
                    x.call('d_ks', st, o, L)
                    x.defined('HC-128 keystream words for %d bytes' % L, o)
        return fn
    ls = lens(140 if q else 300, 4, consts, tier, 4200 if q else 9000)
    return [Sc('packets %s' % nm(g), [], run([('p', L) for L in g]), cost=20 + sum(g) / 30) for g in chunk(ls, 40)] + \
           [Sc('keystream requests', [], run([('k', L) for L in range(1, 40)]), cost=20)]


def rabbit(tier, consts):
    q = tier == 'quick'

    def run(seq, iv):
        def fn(x):
            st = x.state('sz')
            k = x.sym('key', 16)
            x.call('d_key', st, k)
            if iv:
                v = x.sym('iv', 8)
                x.call('d_iv', st, v)
            for L in seq:
                i = x.sym('in', L)
                o = x.undef('out', L)
                x.call('d_proc', st, o, i, L)
                x.defined('Rabbit output of %d bytes' % L, o)
            o = x.undef('ks', 16)
            x.call('d_ks', st, o)
            x.defined('Rabbit keystream block', o)
        return fn
    ls = lens(140 if q else 300, 16, consts, tier, 2100)
    return [Sc('packets %s' % nm(g), [], run(g, True), cost=2 + sum(g) / 100) for g in chunk(ls, 30)] + [Sc('no IV', [], run([0, 1, 16, 17], False))]


def serpent(tier, consts):
    def run(x):
        for L in range(33):
            st = x.state('sz')
            k = x.sym('key', L)
            x.call('d_key', st, k, L)
            i = x.sym('in', 16)
            o = x.undef('out', 48)
            x.call('d_proc', st, o, i)
            x.defined('Serpent states, %d-byte key' % L, o)
        for nb in (0, 2, 3, 4, 5, 17):
            i = x.sym('in', 16 * nb)
            o = x.undef('out', 48 * nb)
            x.call('d_procn', st, o, i, 16 * nb)
            x.defined('Serpent states, %d blocks' % nb, o)
    return [Sc('key lengths 0..32', [], run, cost=8)]


def sose(tier, consts):
    q = tier == 'quick'

    def keys(x):
        for L in range(33):
            st = x.state('sz')
            k = x.sym('key', L)
            x.call('d_key', st, k, L)
            v = x.sym('iv', 16)
            x.call('d_iv', st, v)
            i = x.sym('in', 20)
            o = x.undef('out', 20)
            x.call('d_proc', st, o, i, 20)
            x.defined('Sosemanuk output, %d-byte key' % L, o)

    def run(seq):
        def fn(x):
            st = x.state('sz')
            k = x.sym('key', 16)
            x.call('d_key', st, k, 16)
            v = x.sym('iv', 16)
            x.call('d_iv', st, v)
            for L in seq:
                i = x.sym('in', L)
                o = x.undef('out', L)
                x.call('d_proc', st, o, i, L)
                x.defined('Sosemanuk output of %d bytes' % L, o)
        return fn
    ls = lens(140 if q else 300, 16, consts, tier, 2100)
    return [Sc('key lengths 0..32', [], keys, cost=9)] + [Sc('packets %s' % nm(g), [], run(g), cost=3 + sum(g) / 60) for g in chunk(ls, 30)]


def sha(tier, consts):
    q = tier == 'quick'

    def run(Ls):
        def fn(x):
            for L in Ls:
                m = x.sym('m', L)
                o = x.undef('digest', 32)
                x.call('d_sha', o, m, L)
                x.defined('SHA-256 digest of %d bytes' % L, o)
        return fn
    return [Sc('lengths %s' % nm(g), [], run(g), cost=4 + sum(g) / 60) for g in chunk(lens(200 if q else 600, 64, consts, tier, 2100 if q else 9000), 16)]


def hmac(tier, consts):
    q = tier == 'quick'

    def run(cases):
        def fn(x):
            for kl, ml, tl in cases:
                st = x.state('sz')
                k = x.sym('key', kl)
                x.call('d_key', st, k, kl)
                m = x.sym('msg', ml)
                o = x.undef('tag', tl)
                x.call('d_tag', st, o, m, ml, tl)
                w = '(key %d, message %d, tag %d bytes)' % (kl, ml, tl)
                x.defined('HMAC tag ' + w, o)
                t = x.sym('cand', tl)
                r = x.call('d_val', st, t, m, ml, tl)
                x.defval('HMAC validation result ' + w, r, 'hmac_tag_validation')
        return fn
    kls = lens(70 if q else 140, 64, consts, tier, 600)
    mls = lens(130 if q else 300, 64, consts, tier, 2100)
    cases = [(k, k * 7 % 60, 32) for k in kls] + [(m * 3 % 80, m, 32) for m in mls] + [(16, 9, t) for t in range(1, 33)]
    cases.sort(key=lambda c: c[0] + c[1])
    return [Sc('key/message/tag lengths %s' % nm(g), [], run(g), cost=10 + sum(a + b for a, b, _ in g) / 40) for g in chunk(cases, 10)]


def md5(tier, consts):
    q = tier == 'quick'

    def run(Ls):
        def fn(x):
            for L in Ls:
                st = x.state('sz')
                m = x.sym('m', L)
                o = x.undef('digest', 16)
                x.call('d_all', st, o, m, L)
                x.defined('MD5 digest of %d bytes' % L, o)
        return fn

    def inc(sp):
        def fn(x):
            for s in sp:
                st = x.state('sz')
                x.call('d_init', st)
                for L in s:
                    m = x.sym('m', L)
                    x.call('d_upd', st, m, L)
                o = x.undef('digest', 16)
                x.call('d_fin', o, st)
                x.defined('MD5 digest of updates %s' % (s,), o)
        return fn
    st = 9 if q else 3
    sp = [[a, b] for a in range(0, 130, st) for b in (0, 1, 7, 8, 55, 56, 63, 64, 65)] + [[1] * 70]
    return [Sc('lengths %s' % nm(g), [], run(g), cost=3 + sum(g) / 60) for g in chunk(lens(200 if q else 600, 64, consts, tier, 2100 if q else 9000), 20)] + \
           [Sc('updates %s' % nm(g), [], inc(g), cost=5) for g in chunk(sp, 20)]


def des(tier, consts):
    def run(x):
        for n in list(range(0, 12)) + [33]:
            for d in (0, 1):
                st = x.state('sz')
                k = x.sym('key', 8)
                x.call('d_kd' if d else 'd_ke', st, k)
                i = x.sym('in', 8 * n)
                o = x.undef('out', 8 * n)
                x.call('d_ecb', st, o, i, 8 * n)
                x.defined('DES-ECB of %d blocks' % n, o)
            st = x.state('sz')
            k = x.sym('key', 8)
            x.call('d_ke', st, k)
            v = x.sym('nonce', 12)
            i = x.sym('in', 8 * n)
            o = x.undef('out', 8 * n)
            x.call('d_ctr', st, o, i, v, 8 * n)
            x.defined('DES-CTR of %d blocks' % n, o)
    return [Sc('blocks 0..33', [], run, cost=5)]


def hexa(tier, consts):
    def run(x):
        for L in lens(70, 16, consts, tier, 700):
            i = x.sym('in', L)
            h = x.undef('hex', 2 * L + 1)
            x.call('d_enc', h, i, L)
            x.defined('hex_encode of %d bytes' % L, h)
            o = x.undef('out', L)
            x.call('d_dec', o, h, 2 * L)
            x.defined('hex_decode of %d digits' % (2 * L), o)
    return [Sc('lengths 0..70', [], run, cost=5)]


DRIVES = {'aes-ctr': ctr, 'aes-cfb': cfb, 'aegis': aegis, 'chacha': chacha, 'hc128': hc, 'rabbit': rabbit, 'serpent': serpent, 'sosemanuk': sose,
          'sha256': sha, 'hmac': hmac, 'md5': md5, 'des': des, 'hex': hexa}
