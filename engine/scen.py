"""What is analysed: implementations, variants, call shapes.  Every scenario names the property ids it serves."""
import dom
import re
import spec as S
from vg import Ctx
from smalldom import SmallDom

AESD = 'BlockCiphers/AES/'
AEG = 'StreamCiphers/AEGIS/'


class Impl:
    def __init__(self, family, name, sources, incdirs, variant, driver, gen, extra=()):
        self.family = family
        self.name = name
        self.sources = sources
        self.incdirs = incdirs
        self.variant = variant
        # the alignment of each type whose size the driver tells
        self.driver = driver and re.sub(r'(unsigned long )(\w+)(\(\) \{ return )sizeof(\([^;]*; \})', r'\1\2\3sizeof\4 \1\2_al\3alignof\4', driver)
        self.gen = gen
        self.extra = list(extra)

    @property
    def key(self):
        return '%s:%s' % (self.name, self.variant)


class Sc:
    def __init__(self, name, props, fn, cost=1, quick=True, optional=False, soft=False, **ctx):
        self.name = name
        self.props = props
        self.fn = fn
        self.cost = cost
        self.quick = quick
        self.optional = optional
        self.soft = soft        # not decided is reported in the evidence, not as a missing answer
        self.ctx = ctx


HDR = '#include <cstdint>\n#include <cstddef>\n#include <cstring>\n'


def sizes(limit, block, consts, tier, cap):
    """message lengths to analyse: every length up to `limit`, neighbourhoods of multiples of the block, and of every
    integer constant the analysed code compares a value with"""
    out = set(range(limit + 1))
    for k in (2, 3, 4, 5, 8):
        for e in (-1, 0, 1):
            out.add(k * block + e)
    for c in consts:
        for m in (1, block):
            for e in (-1, 0, 1):
                if 0 <= c * m + e <= cap:
                    out.add(c * m + e)
    return sorted(x for x in out if 0 <= x <= cap)


# ------------------------------------------------------------------------------------------------ AES-CTR
CTR_DRV = HDR + '''#include "aes_ctr.h"
extern "C" {
unsigned long sz() { return sizeof(aes_state); }
void d_key(aes_state *s, uint8_t *k) { aes_load_key(s, k); }
void d_iv(aes_state *s, uint8_t *n) { aes_load_iv(s, n); }
void d_proc(aes_state *s, uint8_t *o, uint8_t *i, int n) { aes_ctr_process_packet(s, o, i, n); }
}
'''


def ctr_setup(x):
    st = x.state('sz')
    k = x.sym('key', 16)
    n = x.sym('nonce', 12)
    x.call('d_key', st, k)
    x.call('d_iv', st, n)
    return st, k, n


def ctr_packets(lens, tag='C02', reinit=False):
    def fn(x):
        st, k, n = ctr_setup(x)
        c = 1
        rk = S.aes_keys(x.d, k.init)
        for j, L in enumerate(lens):
            i = x.sym('in%d' % j, L)
            o = x.undef('out%d' % j, L)
            x.call('d_proc', st, o, i, L)
            want, c = S.aes_ctr(x.d, None, n.init, i.init, c, rk)
            x.expect(tag, 'AES-CTR output of packet %d of %d bytes (packets %s)' % (j, L, lens), o, want)
    return fn


def ctr_reinit(x):
    st, k, n = ctr_setup(x)
    i = x.sym('in0', 21)
    o = x.undef('out0', 21)
    x.call('d_proc', st, o, i, 21)
    k2 = x.sym('key2', 16)
    n2 = x.sym('nonce2', 12)
    x.call('d_key', st, k2)
    x.call('d_iv', st, n2)
    i = x.sym('in1', 33)
    o = x.undef('out1', 33)
    x.call('d_proc', st, o, i, 33)
    x.expect('C23+C02', 'AES-CTR output after loading a second key and nonce', o, S.aes_ctr(x.d, k2.init, n2.init, i.init)[0])
    n3 = x.sym('nonce3', 12)
    x.call('d_iv', st, n3)
    i = x.sym('in2', 17)
    o = x.undef('out2', 17)
    x.call('d_proc', st, o, i, 17)
    x.expect('C23+C02', 'AES-CTR output after loading a third nonce under the same key', o, S.aes_ctr(x.d, k2.init, n3.init, i.init)[0])


def ctr_two_states(x):
    """two independent contexts, interleaved"""
    a, ka, na = ctr_setup(x)
    b = x.undef('stateB', a.n, 'state')
    kb = x.sym('keyB', 16)
    nb = x.sym('nonceB', 12)
    x.call('d_key', b, kb)
    ia = x.sym('inA', 20)
    oa = x.undef('outA', 20)
    x.call('d_proc', a, oa, ia, 20)
    x.call('d_iv', b, nb)
    ib = x.sym('inB', 20)
    ob = x.undef('outB', 20)
    x.call('d_proc', b, ob, ib, 20)
    ia2 = x.sym('inA2', 5)
    oa2 = x.undef('outA2', 5)
    x.call('d_proc', a, oa2, ia2, 5)
    w, c = S.aes_ctr(x.d, ka.init, na.init, ia.init)
    x.expect('C23+C02', 'context A', oa, w)
    x.expect('C23+C02', 'context A, second packet', oa2, S.aes_ctr(x.d, ka.init, na.init, ia2.init, c)[0])
    x.expect('C23+C02', 'context B', ob, S.aes_ctr(x.d, kb.init, nb.init, ib.init)[0])


CTR_POKE = HDR + '''#include "aes_ctr.h"
extern "C" {
unsigned long sz() { return sizeof(aes_state); }
unsigned long ctroff() { return offsetof(aes_state, reg4); }
void d_key(aes_state *s, uint8_t *k) { aes_load_key(s, k); }
void d_iv(aes_state *s, uint8_t *n) { aes_load_iv(s, n); }
void d_proc(aes_state *s, uint8_t *o, uint8_t *i, int n) { aes_ctr_process_packet(s, o, i, n); }
}
'''


def ctr_poke(start):
    def fn(x):
        st, k, n = ctr_setup(x)
        off = x.call('ctroff')
        if x.read(st, off, 4) != [0, 0, 0, 1]:
            x.notes.append('counter representation differs; scenario skipped')
            return
        for i, b in enumerate(S.const32(start)):
            x.it.store(x.it.addp(st.ptr, off + i), b, 1)
        i = x.sym('in', 40)
        o = x.undef('out', 40)
        x.call('d_proc', st, o, i, 40)
        x.expect('C02', 'AES-CTR output when the block counter starts at %#x' % start, o, S.aes_ctr(x.d, k.init, n.init, i.init, start)[0])
    return fn


def gen_ctr(tier, consts):
    q = tier == 'quick'
    out = []
    for b in range(0, 52, 13) if q else range(0, 260, 10):
        rng = range(b, b + (13 if q else 10))
        out.append(Sc('len %d..%d' % (rng[0], rng[-1]), ['C02'] + (['C01'] if b == 0 else []), ctr_many(rng), cost=4))
    big = [64, 65, 79, 80, 81, 96, 112, 128, 129] if q else [511, 512, 513, 1000, 1024, 2048]
    for L in sorted(set(big) | set(s for s in sizes(0, 16, consts, tier, 2100 if q else 20000) if s > 52)):
        out.append(Sc('len %d' % L, ['C02'], ctr_packets([L]), cost=L / 50))
    for seq in ([5, 16], [16, 5], [16, 16], [1, 1, 1, 1], [31, 1, 33], [0, 7, 0, 20], [17, 2, 48], [15, 17]):
        out.append(Sc('packets %s' % seq, ['C02'], ctr_packets(seq), cost=2))
    out.append(Sc('257 blocks (counter carry)', ['C02'], ctr_packets([4112]), cost=60))
    out.append(Sc('block cipher', ['C01'], ctr_block, cost=2))
    out.append(Sc('reinit', ['C23', 'C02'], ctr_reinit, cost=2))
    out.append(Sc('two contexts', ['C23', 'C02'], ctr_two_states, cost=2))
    return out


def ctr_many(rng):
    def fn(x):
        for L in rng:
            st, k, n = ctr_setup(x)
            i = x.sym('in', L)
            o = x.undef('out', L)
            x.call('d_proc', st, o, i, L)
            want, c = S.aes_ctr(x.d, k.init, n.init, i.init)
            x.expect('C02', 'AES-CTR output for a %d-byte packet' % L, o, want)
    return fn


def ctr_block(x):
    st, k, n = ctr_setup(x)
    rk = S.aes_keys(x.d, k.init)
    for c in (1, 2, 3):
        i = x.const('zeros%d' % c, [0] * 16)
        o = x.undef('out%d' % c, 16)
        x.call('d_proc', st, o, i, 16)
        x.expect('C01', 'AES-128(nonce || %d)' % c, o, S.aes_enc(x.d, rk, n.init + [0, 0, 0, c]))


# ------------------------------------------------------------------------------------------------ AES-CFB
CFB_DRV = HDR + '''#include "aes_cfb.h"
extern "C" {
unsigned long sz() { return sizeof(aes_state); }
void d_init(aes_state *s, uint8_t *k, uint8_t *n) { aes_cfb_initialize(s, k, n); }
void d_enc(aes_state *s, uint8_t *o, uint8_t *i, int n) { aes_cfb_process_packet(s, o, i, n, ENCRYPT); }
void d_dec(aes_state *s, uint8_t *o, uint8_t *i, int n) { aes_cfb_process_packet(s, o, i, n, DECRYPT); }
}
'''


def cfb_seq(seq, rounds=10, tag=None):
    """seq: list of ('e'|'d', length)"""
    def fn(x):
        st = x.state('sz')
        k = x.sym('key', 16)
        v = x.sym('iv', 16)
        x.call('d_init', st, k, v)
        rk = S.aes_keys(x.d, k.init, rounds)
        reg = v.init
        for j, (m, L) in enumerate(seq):
            i = x.sym('in%d' % j, L)
            o = x.undef('out%d' % j, L)
            x.call('d_enc' if m == 'e' else 'd_dec', st, o, i, L)
            want, reg = S.aes_cfb(x.d, None, reg, i.init, m == 'd', rounds, rk)
            x.expect(tag or ('C03' if m == 'e' else 'C04'), 'AES-CFB %s of packet %d of %s' % ('encryption' if m == 'e' else 'decryption', j, seq), o, want)
    return fn


def cfb_many(rng, mode, rounds=10):
    def fn(x):
        for L in rng:
            st = x.state('sz')
            k = x.sym('key', 16)
            v = x.sym('iv', 16)
            x.call('d_init', st, k, v)
            i = x.sym('in', L)
            o = x.undef('out', L)
            x.call('d_enc' if mode == 'e' else 'd_dec', st, o, i, L)
            want, reg = S.aes_cfb(x.d, k.init, v.init, i.init, mode == 'd', rounds)
            x.expect('C03' if mode == 'e' else 'C04', 'AES-CFB %s of %d bytes' % (mode, L), o, want)
            # the register that the next packet uses
            i2 = x.sym('next', 16)
            o2 = x.undef('outnext', 16)
            x.call('d_enc' if mode == 'e' else 'd_dec', st, o2, i2, 16)
            want, reg = S.aes_cfb(x.d, k.init, reg, i2.init, mode == 'd', rounds)
            x.expect('C03' if mode == 'e' else 'C04', 'AES-CFB feedback after a packet of %d bytes' % L, o2, want)
    return fn


def cfb_roundtrip(lens):
    def fn(x):
        a = x.state('sz')
        b = x.undef('stateB', a.n, 'state')
        k = x.sym('key', 16)
        v = x.sym('iv', 16)
        x.call('d_init', a, k, v)
        x.call('d_init', b, k, v)
        for j, L in enumerate(lens):
            p = x.sym('pt%d' % j, L)
            c = x.undef('ct%d' % j, L)
            x.call('d_enc', a, c, p, L)
            r = x.undef('rec%d' % j, L)
            x.call('d_dec', b, r, c, L)
            x.expect('C29', 'AES-CFB decrypt(encrypt(packet %d of %s))' % (j, lens), r, p.init)
    return fn


def cfb_reinit(x):
    st = x.state('sz')
    for j in range(2):
        k = x.sym('key%d' % j, 16)
        v = x.sym('iv%d' % j, 16)
        x.call('d_init', st, k, v)
        i = x.sym('in%d' % j, 21)
        o = x.undef('out%d' % j, 21)
        x.call('d_enc', st, o, i, 21)
        x.expect('C23+C03', 'AES-CFB output after initialisation number %d' % (j + 1), o, S.aes_cfb(x.d, k.init, v.init, i.init, False, x.info.get('rounds', 10))[0])


def cfb_sync(x):
    """self-synchronisation: with 16-byte segments, plaintext block n depends only on ciphertext blocks n-1 and n"""
    st = x.state('sz')
    k = x.sym('key', 16)
    v = x.sym('iv', 16)
    x.call('d_init', st, k, v)
    i = x.sym('ct', 64)
    o = x.undef('pt', 64)
    x.call('d_dec', st, o, i, 64)
    rounds = x.info.get('rounds', 10)
    rk = S.aes_keys(x.d, k.init, rounds)
    for b in range(1, 4):
        x.expect('C04', 'plaintext block %d depends only on the key and ciphertext blocks %d and %d' % (b, b - 1, b), o,
                 S.xors(x.d, S.aes_enc(x.d, rk, i.init[16 * b - 16:16 * b], rounds), i.init[16 * b:16 * b + 16]), 16 * b)


def cfb_block(x):
    rounds = x.info.get('rounds', 10)
    st = x.state('sz')
    k = x.sym('key', 16)
    v = x.sym('iv', 16)
    x.call('d_init', st, k, v)
    i = x.const('zeros', [0] * 16)
    o = x.undef('out', 16)
    x.call('d_enc', st, o, i, 16)
    x.expect('C01', 'AES-128 of an arbitrary block under an arbitrary key', o, S.aes_enc(x.d, S.aes_keys(x.d, k.init, rounds), v.init, rounds))


def gen_cfb(rounds):
    def gen(tier, consts):
        q = tier == 'quick'
        out = []
        step, top = (9, 36) if q else (8, 136)
        for b in range(0, top, step):
            out.append(Sc('enc len %d..%d' % (b, b + step - 1), ['C03'], cfb_many(range(b, b + step), 'e', rounds), cost=5))
            out.append(Sc('dec len %d..%d' % (b, b + step - 1), ['C04'], cfb_many(range(b, b + step), 'd', rounds), cost=5))
        for L in sorted(set([47, 48, 49, 63, 64, 65, 80, 129] if q else [255, 256, 257, 1000]) | set(s for s in sizes(0, 16, consts, tier, 2100 if q else 20000) if s > 35)):
            out.append(Sc('enc len %d' % L, ['C03'], cfb_seq([('e', L)], rounds), cost=L / 40))
            out.append(Sc('dec len %d' % L, ['C04'], cfb_seq([('d', L)], rounds), cost=L / 40))
        for ls in ([5, 16, 7], [16, 16], [1, 1, 1, 1, 1], [31, 2, 33], [0, 20, 0, 3], [15, 1, 16], [17, 17]):
            out.append(Sc('enc packets %s' % ls, ['C03'], cfb_seq([('e', l) for l in ls], rounds), cost=2))
            out.append(Sc('dec packets %s' % ls, ['C04'], cfb_seq([('d', l) for l in ls], rounds), cost=2))
            out.append(Sc('round trip %s' % ls, ['C29'], cfb_roundtrip(ls), cost=3))
        for ls in ([('e', 20), ('d', 20)], [('d', 17), ('e', 33)]):
            out.append(Sc('mixed %s' % ls, ['C03', 'C04'], cfb_seq(ls, rounds), cost=2))
        out.append(Sc('round trip 64,15', ['C29'], cfb_roundtrip([64, 15]), cost=3))
        out.append(Sc('self-synchronisation', ['C04'], cfb_sync, cost=2))
        out.append(Sc('block cipher', ['C01'], cfb_block, cost=1))
        out.append(Sc('reinit', ['C23', 'C03'], cfb_reinit, cost=2))
        return out
    return gen


# ------------------------------------------------------------------------------------------------ AEGIS-128
AEGIS_DRV = HDR + '''#include "aegis_128.h"
extern "C" {
unsigned long sz() { return sizeof(aegis_state); }
void d_key(aegis_state *s, uint8_t *k) { aegis_load_key(s, k); }
void d_enc(aegis_state *s, uint8_t *ct, uint8_t *tag, uint8_t *pt, uint8_t *ad, uint8_t *iv, uint64_t adlen, uint64_t msglen) { aegis_encrypt_packet(s, ct, tag, pt, ad, iv, adlen, msglen); }
int d_dec(aegis_state *s, uint8_t *pt, uint8_t *ct, uint8_t *ad, uint8_t *iv, uint8_t *tag, uint64_t adlen, uint64_t msglen) { return aegis_decrypt_packet(s, pt, ct, ad, iv, tag, adlen, msglen); }
}
'''


def aegis_enc(pairs, tag='C05'):
    def fn(x):
        for j, (al, ml) in enumerate(pairs):
            st = x.state('sz')
            k = x.sym('key', 16)
            x.call('d_key', st, k)
            v = x.sym('iv', 16)
            ad = x.sym('ad', al)
            p = x.sym('pt', ml)
            c = x.undef('ct', ml)
            t = x.undef('tag', 16)
            x.call('d_enc', st, c, t, p, ad, v, al, ml)
            wc, wt = S.aegis_encrypt(x.d, k.init, v.init, ad.init, p.init)
            x.expect(tag, 'AEGIS ciphertext (adlen=%d msglen=%d)' % (al, ml), c, wc)
            x.expect(tag, 'AEGIS tag (adlen=%d msglen=%d)' % (al, ml), t, wt)
    return fn


def aegis_dec(pairs):
    """arbitrary ciphertext and arbitrary tag: returns 1 and the plaintext iff the tag is right, else 0 and wiped output"""
    def fn(x):
        d = x.d
        for j, (al, ml) in enumerate(pairs):
            st = x.state('sz')
            k = x.sym('key', 16)
            x.call('d_key', st, k)
            v = x.sym('iv', 16)
            ad = x.sym('ad', al)
            c = x.sym('ct', ml)
            p = x.undef('pt', ml)
            t = x.sym('tag', 16, role='inout')
            r = x.call('d_dec', st, p, c, ad, v, t, al, ml)
            wp, wt = S.aegis_decrypt(d, k.init, v.init, ad.init, c.init)
            good = d.eq(d.concat([(b, 8) for b in wt]), d.concat([(b, 8) for b in t.init]), 128)
            what = '(adlen=%d msglen=%d)' % (al, ml)
            x.expect_val('C06', 'AEGIS decryption returns 1 exactly when the tag matches ' + what, r, d.norm((good,) + (0,) * 31), 32)
            x.expect('C06', 'AEGIS plaintext released only when the tag matches, zero otherwise ' + what, p, [d.ite(good, b, 0, 8) for b in wp])
            x.expect('C32', 'AEGIS output of a refused decryption is wiped ' + what, p, [d.ite(good, b, 0, 8) for b in wp])
            x.expect('C32', 'AEGIS tag is wiped when it is refused, kept otherwise ' + what, t, [d.ite(good, b, 0, 8) for b in t.init])
    return fn


def aegis_genuine(pairs):
    def fn(x):
        d = x.d
        for j, (al, ml) in enumerate(pairs):
            st = x.state('sz')
            k = x.sym('key', 16)
            x.call('d_key', st, k)
            v = x.sym('iv', 16)
            ad = x.sym('ad', al)
            p = x.sym('pt', ml)
            c = x.undef('ct', ml)
            t = x.undef('tag', 16)
            x.call('d_enc', st, c, t, p, ad, v, al, ml)
            st2 = x.state('sz')
            x.call('d_key', st2, k)
            r2 = x.undef('rec', ml)
            r = x.call('d_dec', st2, r2, c, ad, v, t, al, ml)
            what = '(adlen=%d msglen=%d)' % (al, ml)
            x.expect_val('C29', 'AEGIS decryption accepts a genuine packet ' + what, r, 1, 32)
            x.expect('C29', 'AEGIS decrypt(encrypt(p)) ' + what, r2, p.init)
    return fn


def aegis_reuse(x):
    """one context, several packets, encryption and decryption interleaved"""
    d = x.d
    st = x.state('sz')
    k = x.sym('key', 16)
    x.call('d_key', st, k)
    for j, (al, ml) in enumerate(((3, 18), (0, 5), (16, 16))):
        v = x.sym('iv%d' % j, 16)
        ad = x.sym('ad%d' % j, al)
        p = x.sym('pt%d' % j, ml)
        c = x.undef('ct%d' % j, ml)
        t = x.undef('tag%d' % j, 16)
        x.call('d_enc', st, c, t, p, ad, v, al, ml)
        wc, wt = S.aegis_encrypt(d, k.init, v.init, ad.init, p.init)
        x.expect('C23+C05', 'AEGIS packet %d with the same context' % j, c, wc)
        x.expect('C23+C05', 'AEGIS tag %d with the same context' % j, t, wt)
        if j == 1:
            t2 = x.sym('badtag', 16, role='inout')
            r2 = x.undef('rec', ml)
            x.call('d_dec', st, r2, c, ad, v, t2, al, ml)
    k2 = x.sym('key2', 16)
    x.call('d_key', st, k2)
    v = x.sym('ivx', 16)
    p = x.sym('ptx', 9)
    c = x.undef('ctx', 9)
    t = x.undef('tagx', 16)
    ad = x.sym('adx', 4)
    x.call('d_enc', st, c, t, p, ad, v, 4, 9)
    wc, wt = S.aegis_encrypt(d, k2.init, v.init, ad.init, p.init)
    x.expect('C23+C05', 'AEGIS ciphertext after a second key', c, wc)
    x.expect('C23+C05', 'AEGIS tag after a second key', t, wt)


def gen_aegis(tier, consts):
    q = tier == 'quick'
    out = []
    ml = list(range(0, 36)) + [47, 48, 49, 64, 65] if q else list(range(0, 100)) + [128, 129, 255, 256, 300]
    al = [0, 1, 3, 4, 7, 12, 15, 16, 17, 20, 31, 32, 33] if q else list(range(0, 70)) + [128, 129]
    for c in sizes(0, 16, consts, tier, 1100 if q else 9000):
        if c > 65:
            ml.append(c)
            al.append(c)
    pairs = [(m * 5 % 19, m) for m in ml] + [(a, a * 7 % 23) for a in al] + [(0, 0), (16, 0), (0, 16), (5, 0), (0, 1)]
    pairs = sorted(set(pairs), key=lambda p: p[0] + p[1])
    small = [p for p in pairs if sum(p) <= 130]
    n = 5
    for i in range(0, len(small), n):
        g = small[i:i + n]
        out.append(Sc('encrypt %s' % g, ['C05'], aegis_enc(g), cost=6))
        out.append(Sc('decrypt %s' % g, ['C06', 'C32'], aegis_dec(g), cost=7))
    for p in pairs:
        if sum(p) > 130:
            out.append(Sc('encrypt %s' % (p,), ['C05'], aegis_enc([p]), cost=sum(p) / 30))
            out.append(Sc('decrypt %s' % (p,), ['C06', 'C32'], aegis_dec([p]), cost=sum(p) / 30))
    for p in ((0, 0), (5, 1), (16, 15), (17, 16), (0, 17), (3, 33)):
        out.append(Sc('genuine %s' % (p,), ['C29', 'C06'], aegis_genuine([p]), cost=3))
    out.append(Sc('context reuse', ['C23', 'C05'], aegis_reuse, cost=5))
    return out


# ------------------------------------------------------------------------------------------------ ChaCha
CHACHA_DRV = HDR + '''#include "chacha.h"
extern "C" {
unsigned long sz() { return sizeof(chacha_state); }
void d_init(chacha_state *s, uint8_t *k, uint8_t *n) { chacha_initialize(s, k, n); }
void d_block(chacha_state *s, uint32_t c, uint32_t *o) { chacha_block(s, c, o); }
void d_proc(chacha_state *s, uint8_t *o, uint8_t *i, uint64_t n) { chacha_process_packet(s, o, i, n); }
void d_q(uint32_t *i, uint32_t *o) { test_q(i, o); }
void d_swap(uint8_t *o, uint8_t *i, int n) { byte_swap(o, i, n); }
}
'''


def gen_chacha(rounds):
    def block(x):
        st = x.state('sz')
        k = x.sym('key', 32)
        n = x.sym('nonce', 12)
        x.call('d_init', st, k, n)
        c = x.d.var('counter', 32)
        o = x.undef('keystream', 64)
        x.call('d_block', st, c, o)
        x.expect('C07', 'ChaCha block for an arbitrary key, nonce and counter', o, S.chacha_block(x.d, k.init, n.init, c, rounds))
        o = x.undef('keystream2', 64)
        x.call('d_block', st, 7, o)
        x.expect('C07', 'ChaCha block 7 after another block', o, S.chacha_block(x.d, k.init, n.init, 7, rounds))

    def quarter(x):
        i = x.sym('in', 64)
        o = x.undef('out', 64)
        x.call('d_q', i, o)
        w = [S.le32(x.d, i.init[4 * j:4 * j + 4]) for j in range(16)]
        S.chacha_qr(x.d, w, 2, 7, 8, 13)
        x.expect('C07', 'quarter round on words 2,7,8,13', o, sum((S.un_le(x.d, y) for y in w), []))
        for L in (0, 4, 64):
            i = x.sym('sw', L)
            o = x.undef('swo', L)
            x.call('d_swap', o, i, L)
            x.expect('C07', 'byte_swap of %d bytes' % L, o, sum((i.init[j:j + 4][::-1] for j in range(0, L, 4)), []))

    def packets(lens, tag='C07'):
        def fn(x):
            st = x.state('sz')
            k = x.sym('key', 32)
            n = x.sym('nonce', 12)
            x.call('d_init', st, k, n)
            for j, L in enumerate(lens):
                i = x.sym('in%d' % j, L)
                o = x.undef('out%d' % j, L)
                x.call('d_proc', st, o, i, L)
                x.expect(tag, 'ChaCha output of packet %d of %d bytes' % (j, L), o, S.chacha(x.d, k.init, n.init, i.init, 1, rounds))
        return fn

    def many(rng):
        def fn(x):
            for L in rng:
                packets([L])(x)
        return fn

    def reinit(x):
        st = x.state('sz')
        for j in range(2):
            k = x.sym('key%d' % j, 32)
            n = x.sym('nonce%d' % j, 12)
            x.call('d_init', st, k, n)
            i = x.sym('in%d' % j, 70)
            o = x.undef('out%d' % j, 70)
            x.call('d_proc', st, o, i, 70)
            x.expect('C23+C07', 'ChaCha output after initialisation number %d' % (j + 1), o, S.chacha(x.d, k.init, n.init, i.init, 1, rounds))

    def gen(tier, consts):
        q = tier == 'quick'
        out = [Sc('block', ['C07'], block), Sc('quarter round', ['C07'], quarter), Sc('reinit', ['C23', 'C07'], reinit)]
        step, top = (12, 72) if q else (12, 264)
        for b in range(0, top, step):
            out.append(Sc('len %d..%d' % (b, b + step - 1), ['C07'], many(range(b, b + step)), cost=4))
        for L in sorted(set([127, 128, 129, 191, 192, 193, 256, 257] if q else [511, 512, 513, 1023, 1025, 4096]) | set(s for s in sizes(0, 64, consts, tier, 4200 if q else 40000) if s > 72)):
            out.append(Sc('len %d' % L, ['C07'], packets([L]), cost=L / 60))
        out.append(Sc('257 blocks', ['C07'], packets([64 * 256 + 5]), cost=60))
        for ls in ([64, 3], [3, 64, 65]):
            out.append(Sc('packets %s' % ls, ['C07'], packets(ls), cost=3))
        return out
    return gen


# ------------------------------------------------------------------------------------------------ HC-128
HC_DRV = HDR + '''#include "hc128.h"
extern "C" {
unsigned long sz() { return sizeof(hc128_state); }
void d_init(hc128_state *s, uint8_t *k, uint8_t *n) { hc128_initialize(s, k, n); }
void d_ks(hc128_state *s, uint32_t *o, uint64_t n) { hc128_generate_keystream(s, o, n); }
void d_proc(hc128_state *s, uint8_t *o, uint8_t *i, uint64_t n) { hc128_process_packet(s, o, i, n); }
}
'''


def hc_run(ops, tag='C08'):
    """ops: list of ('p', len) packets or ('k', bytes) keystream requests; leftover bytes of a word are discarded"""
    def fn(x):
        st = x.state('sz')
        k = x.sym('key', 16)
        v = x.sym('iv', 16)
        x.call('d_init', st, k, v)
        h = S.HC128(x.d, k.init, v.init)
        for j, (m, L) in enumerate(ops):
            if m == 'p':
                i = x.sym('in%d' % j, L)
                o = x.undef('out%d' % j, L)
                x.call('d_proc', st, o, i, L)
                x.expect(tag, 'HC-128 output of packet %d of %d bytes (after %s)' % (j, L, ops[:j]), o, S.xors(x.d, i.init, h.keystream(L)))
            else:
                n = (L + 3) // 4 * 4
                o = x.undef('ks%d' % j, n)
                x.call('d_ks', st, o, L)
                x.expect(tag, 'HC-128 keystream words for a request of %d bytes (after %s)' % (L, ops[:j]), o, h.keystream(n))
    return fn


def hc_reinit(x):
    st = x.state('sz')
    for j in range(2):
        k = x.sym('key%d' % j, 16)
        v = x.sym('iv%d' % j, 16)
        x.call('d_init', st, k, v)
        i = x.sym('in%d' % j, 9)
        o = x.undef('out%d' % j, 9)
        x.call('d_proc', st, o, i, 9)
        x.expect('C23+C08', 'HC-128 output after initialisation number %d' % (j + 1), o, S.xors(x.d, i.init, S.HC128(x.d, k.init, v.init).keystream(9)))


def hc_multi(seqs, tag='C08'):
    """several packet sequences from the same initialised context (the state object is restored between them)"""
    def fn(x):
        st = x.state('sz')
        k = x.sym('key', 16)
        v = x.sym('iv', 16)
        x.call('d_init', st, k, v)
        h0 = S.HC128(x.d, k.init, v.init)
        saved = x.it.mem.o[st.ptr.obj].copy()
        for n, ops in enumerate(seqs):
            if n:
                x.it.mem.o[st.ptr.obj] = saved.copy()
                x.it.mem.own.add(st.ptr.obj)
            h = h0.copy()
            for j, (m, L) in enumerate(ops):
                if m == 'p':
                    i = x.sym('in%d' % j, L)
                    o = x.undef('out%d' % j, L)
                    x.call('d_proc', st, o, i, L)
                    x.expect(tag, 'HC-128 output of packet %d of %d bytes (after %s)' % (j, L, ops[:j][-6:]), o, S.xors(x.d, i.init, h.keystream(L)))
                else:
                    w = (L + 3) // 4 * 4
                    o = x.undef('ks%d' % j, w)
                    x.call('d_ks', st, o, L)
                    x.expect(tag, 'HC-128 keystream words for a request of %d bytes (after %s)' % (L, ops[:j][-6:]), o, h.keystream(w))
    return fn


def gen_hc(tier, consts):
    q = tier == 'quick'
    out = []
    ls = [s for s in sizes(0, 4, consts, tier, 5200 if q else 9000) if s > 40]
    small = sorted(set([L for L in ls if L <= 600]))
    big = sorted(set([L for L in ls if L > 600] + ([2044, 2052, 4100] if q else [2044, 2048, 2052, 4092, 4096, 4100, 6000, 8200])))
    out.append(Sc('lengths 0..40', ['C08'], hc_multi([[('p', L) for L in range(41)], [('k', 4), ('k', 16), ('k', 1), ('k', 64), ('p', 5), ('k', 8)]]), cost=60))
    n = 12 if q else 40
    for i in range(0, len(small), n):
        out.append(Sc('lengths %s' % small[i:i + n], ['C08'], hc_multi([[('p', L)] for L in small[i:i + n]]), cost=60))
    n = 4
    for i in range(0, len(big), n):
        out.append(Sc('lengths %s' % big[i:i + n], ['C08'], hc_multi([[('p', L)] for L in big[i:i + n]]), cost=60 + sum(big[i:i + n]) / 200))
    out.append(Sc('packets across the table wrap', ['C08'], hc_multi([[('p', 2000), ('p', 60), ('p', 2040), ('p', 30), ('k', 40)]]), cost=90))
    out.append(Sc('reinit', ['C23', 'C08'], hc_reinit, cost=100))
    return out


# ------------------------------------------------------------------------------------------------ Rabbit
RABBIT_DRV = HDR + '''#include "rabbit.h"
extern "C" {
unsigned long sz() { return sizeof(rabbit_state); }
void d_key(rabbit_state *s, uint8_t *k) { rabbit_load_key(s, k); }
void d_iv(rabbit_state *s, uint8_t *n) { rabbit_load_iv(s, n); }
void d_ks(rabbit_state *s, uint32_t *o) { rabbit_extract_keystream(s, o); }
void d_proc(rabbit_state *s, uint8_t *o, uint8_t *i, uint64_t n) { rabbit_process_packet(s, o, i, n); }
}
'''


def rabbit_run(ops, tag='C09', iv=True):
    def fn(x):
        st = x.state('sz')
        k = x.sym('key', 16)
        x.call('d_key', st, k)
        R = S.Rabbit(x.d, k.init)
        if iv:
            v = x.sym('iv', 8)
            x.call('d_iv', st, v)
            R.load_iv(v.init)
        for j, op in enumerate(ops):
            if op == 'iv':
                v = x.sym('iv%d' % j, 8)
                x.call('d_iv', st, v)
                R.load_iv(v.init)
            elif op == 'ks':
                o = x.undef('ks%d' % j, 16)
                x.call('d_ks', st, o)
                x.expect(tag, 'Rabbit keystream block (after %s)' % ops[:j], o, R.block())
            else:
                i = x.sym('in%d' % j, op)
                o = x.undef('out%d' % j, op)
                x.call('d_proc', st, o, i, op)
                want = []
                for q in range(0, op, 16):
                    want += S.xors(x.d, i.init[q:q + 16], R.block())
                x.expect(tag, 'Rabbit output of packet %d of %d bytes (after %s)' % (j, op, ops[:j]), o, want)
    return fn


def gen_rabbit(tier, consts):
    q = tier == 'quick'
    out = []
    if q:
        out.append(Sc('lengths 0..36', ['C09'], rabbit_run(list(range(37))), cost=10))
    else:
        for b in range(0, 130, 26):
            out.append(Sc('lengths %d..%d' % (b, b + 25), ['C09'], rabbit_run(list(range(b, b + 26))), cost=20))
    out.append(Sc('no IV', ['C09'], rabbit_run(['ks', 'ks', 21], iv=False), cost=3))
    out.append(Sc('IV changes', ['C09', 'C23'], rabbit_run([20, 'iv', 20, 'iv', 'ks', 33], tag='C23+C09'), cost=5))
    for L in sorted(set([47, 48, 49, 64, 65, 128, 200] if q else [255, 256, 257, 512, 1024]) | set(s for s in sizes(0, 16, consts, tier, 2100 if q else 20000) if s > 36)):
        out.append(Sc('len %d' % L, ['C09'], rabbit_run([L]), cost=L / 20))

    def reinit(x):
        st = x.state('sz')
        for j in range(2):
            k = x.sym('key%d' % j, 16)
            v = x.sym('iv%d' % j, 8)
            x.call('d_key', st, k)
            x.call('d_iv', st, v)
            i = x.sym('in%d' % j, 20)
            o = x.undef('out%d' % j, 20)
            x.call('d_proc', st, o, i, 20)
            R = S.Rabbit(x.d, k.init)
            R.load_iv(v.init)
            x.expect('C23+C09', 'Rabbit output after key number %d' % (j + 1), o, S.xors(x.d, i.init, R.block() + R.block()))
    out.append(Sc('reinit', ['C23', 'C09'], reinit, cost=4))
    return out


# ------------------------------------------------------------------------------------------------ Serpent / Sosemanuk
SERP_DRV = HDR + '''#include "serpent.h"
extern "C" {
unsigned long sz() { return sizeof(serpent_state); }
void d_key(serpent_state *s, uint8_t *k, int n) { serpent_key_schedule(s, k, n); }
void d_proc(serpent_state *s, uint32_t *o, uint32_t *i) { serpent_process_packet(s, o, i, 16); }
void d_procn(serpent_state *s, uint32_t *o, uint32_t *i, unsigned long n) { serpent_process_packet(s, o, i, n); }
}
'''
SERP1_DRV = HDR + '''#include "serpent.h"
void serpent1(uint32_t *r0, uint32_t *r1, uint32_t *r2, uint32_t *r3);
extern "C" void d_s1(uint32_t *a) { serpent1(a, a + 1, a + 2, a + 3); }
'''


def gen_serpent(tier, consts):
    q = tier == 'quick'
    out = []

    def keyed(L):
        def fn(x):
            st = x.state('sz')
            k = x.sym('key', L)
            x.call('d_key', st, k, L)
            rk = S.serpent_keys(x.d, k.init, 25)
            for j in range(2):
                i = x.sym('in%d' % j, 16)
                o = x.undef('out%d' % j, 48)
                x.call('d_proc', st, o, i)
                want = []
                for Y in S.serpent24(x.d, rk, [S.le32(x.d, i.init[4 * q:4 * q + 4]) for q in range(4)]):
                    for w in Y:
                        want += S.un_le(x.d, w)
                x.expect('C10', 'Serpent states after rounds 12, 18 and 24, %d-byte key, block %d' % (L, j), o, want)
        return fn
    for L in range(0, 33):
        out.append(Sc('key length %d' % L, ['C10'], keyed(L), cost=5, quick=L in (0, 1, 5, 15, 16, 17, 24, 31, 32) or not q))

    def toolong(x):
        st = x.state('sz')
        k = x.sym('key', 40)
        n0 = len(x.noreturn)
        x.call('d_key', st, k, 33)
        if len(x.noreturn) == n0:
            x.fail('C10', 'a key longer than 32 bytes is refused', 'serpent_key_schedule', 'returns', 'does not return')
        else:
            x.noreturn.pop()
            x.it.effects[:] = [e for e in x.it.effects if e[0] != 'exit']
            x.ok('C10')
    out.append(Sc('key length 33', ['C10'], toolong))

    def packet(nb):
        def fn(x):
            st = x.state('sz')
            k = x.sym('key', 32)
            x.call('d_key', st, k, 32)
            rk = S.serpent_keys(x.d, k.init, 25)
            i = x.sym('in', 16 * nb)
            o = x.undef('out', 48 * nb)
            x.call('d_procn', st, o, i, 16 * nb)
            want = []
            for b in range(nb):
                for Y in S.serpent24(x.d, rk, [S.le32(x.d, i.init[16 * b + 4 * q:16 * b + 4 * q + 4]) for q in range(4)]):
                    for w in Y:
                        want += S.un_le(x.d, w)
            x.expect('C10', 'Serpent states after rounds 12, 18 and 24 of each block of a %d-block packet' % nb, o, want)
        return fn
    for nb in (0, 2, 3, 5):
        out.append(Sc('packet of %d blocks' % nb, ['C10'], packet(nb), cost=5, quick=nb in (0, 2, 3) or not q))
    return out


def gen_s1(tier, consts):
    def s1(x):
        w = x.sym('w', 16, role='inout')
        x.call('d_s1', w)
        want = S.serpent_sbox(x.d, 2, [S.le32(x.d, w.init[4 * q:4 * q + 4]) for q in range(4)])
        x.expect('C10', 'serpent1 is Serpent S-box 2', w, sum((S.un_le(x.d, y) for y in want), []))
    return [Sc('serpent1', ['C10'], s1)]


SOSE_DRV = HDR + '''#include "sosemanuk.h"
extern "C" {
unsigned long sz() { return sizeof(sosemanuk_state); }
void d_key(sosemanuk_state *s, uint8_t *k, int n) { sosemanuk_load_key(s, k, n); }
void d_iv(sosemanuk_state *s, uint8_t *n) { sosemanuk_load_iv(s, n); }
void d_proc(sosemanuk_state *s, uint8_t *o, uint8_t *i, uint64_t n) { sosemanuk_process_packet(s, o, i, n); }
}
'''


def sose_run(ops, kl=16, tag='C11'):
    def fn(x):
        st = x.state('sz')
        k = x.sym('key', kl)
        x.call('d_key', st, k, kl)
        z = S.Sosemanuk(x.d, k.init)
        v = x.sym('iv', 16)
        x.call('d_iv', st, v)
        z.load_iv(v.init)
        for j, op in enumerate(ops):
            if op == 'iv':
                v = x.sym('iv%d' % j, 16)
                x.call('d_iv', st, v)
                z.load_iv(v.init)
                continue
            if op == 'key':
                k = x.sym('key%d' % j, 20)
                x.call('d_key', st, k, 20)
                z = S.Sosemanuk(x.d, k.init)
                v = x.sym('ivk%d' % j, 16)
                x.call('d_iv', st, v)
                z.load_iv(v.init)
                continue
            i = x.sym('in%d' % j, op)
            o = x.undef('out%d' % j, op)
            x.call('d_proc', st, o, i, op)
            want = []
            for q in range(0, op, 16):
                want += S.xors(x.d, i.init[q:q + 16], z.block())
            x.expect(tag, 'Sosemanuk output of packet %d of %d bytes (after %s, %d-byte key)' % (j, op, ops[:j], kl), o, want)
    return fn


def gen_sose(tier, consts):
    q = tier == 'quick'
    out = []
    for kl in ((0, 1, 5, 16, 31, 32) if q else range(33)):
        out.append(Sc('key length %d' % kl, ['C11'], sose_run([37], kl), cost=6))
    out.append(Sc('lengths 0..36', ['C11'], sose_run(list(range(37))), cost=15))
    for L in sorted(set([47, 48, 49, 64, 65, 79, 80, 81, 160, 161] if q else [255, 256, 257, 512, 1024]) | set(s for s in sizes(0, 16, consts, tier, 2100 if q else 9000) if s > 36)):
        out.append(Sc('len %d' % L, ['C11'], sose_run([L]), cost=6 + L / 20))
    out.append(Sc('IV changes', ['C11', 'C23'], sose_run([20, 'iv', 33, 'iv', 16, 16], tag='C23+C11'), cost=10))
    out.append(Sc('reinit', ['C23', 'C11'], sose_run([20, 'key', 20], tag='C23+C11'), cost=10))
    return out


# ------------------------------------------------------------------------------------------------ SHA-256 / HMAC / MD5
SHA_DRV = HDR + '''#include "sha-256.h"
extern "C" void d_sha(uint8_t *o, uint8_t *m, uint64_t n) { sha256_process_message(o, m, n); }
'''


def sha_many(lens, tag='C12'):
    def fn(x):
        for L in lens:
            m = x.sym('m', L)
            o = x.undef('digest', 32)
            x.call('d_sha', o, m, L)
            x.expect(tag, 'SHA-256 of a %d-byte message' % L, o, S.sha256(x.d, m.init))
    return fn


def gen_sha(tier, consts):
    q = tier == 'quick'
    out = []
    ls = sorted(set(range(0, 136) if q else range(0, 400)) | set([183, 184, 191, 192, 193, 247, 248, 256]) | set(sizes(0, 64, consts, tier, 2100 if q else 8300)))
    g = []
    c = 0
    for L in ls:
        g.append(L)
        c += 1 + L // 64
        if c > 12:
            out.append(Sc('len %d..%d' % (g[0], g[-1]), ['C12'], sha_many(g), cost=c))
            g = []
            c = 0
    if g:
        out.append(Sc('len %d..%d' % (g[0], g[-1]), ['C12'], sha_many(g), cost=c))
    return out


HMAC_DRV = HDR + '''#include "hmac.h"
extern "C" {
unsigned long sz() { return sizeof(hmac_state); }
void d_key(hmac_state *s, uint8_t *k, int n) { hmac_load_key(s, k, n); }
void d_tag(hmac_state *s, uint8_t *t, uint8_t *m, uint64_t n, int tl) { hmac_tag_generation(s, t, m, n, tl); }
int d_val(hmac_state *s, uint8_t *t, uint8_t *m, uint64_t n, int tl) { return hmac_tag_validation(s, t, m, n, tl); }
}
'''


def hmac_run(cases, tag='C13'):
    def fn(x):
        for kl, ml, tl in cases:
            st = x.state('sz')
            k = x.sym('key', kl)
            x.call('d_key', st, k, kl)
            m = x.sym('msg', ml)
            o = x.undef('tag', tl)
            x.call('d_tag', st, o, m, ml, tl)
            x.expect(tag, 'HMAC-SHA-256 tag (key %d, message %d, tag %d bytes)' % (kl, ml, tl), o, S.hmac(x.d, k.init, m.init, tl))
    return fn


def hmac_val(cases):
    def fn(x):
        d = x.d
        for kl, ml, tl in cases:
            st = x.state('sz')
            k = x.sym('key', kl)
            x.call('d_key', st, k, kl)
            m = x.sym('msg', ml)
            t = x.sym('tag', tl)
            r = x.call('d_val', st, t, m, ml, tl)
            w = S.hmac(d, k.init, m.init, tl)
            good = d.eq(d.concat([(b, 8) for b in w]), d.concat([(b, 8) for b in t.init]), 8 * tl)
            x.expect_val('C14', 'hmac_tag_validation is 1 exactly for the right tag (key %d, message %d, tag %d bytes)' % (kl, ml, tl), r, d.norm((good,) + (0,) * 31), 32,
                         'hmac_tag_validation')
            # a tag that was generated is accepted
            g = x.undef('gen', tl)
            x.call('d_tag', st, g, m, ml, tl)
            r = x.call('d_val', st, g, m, ml, tl)
            x.expect_val('C14', 'a generated tag is accepted (key %d, message %d, tag %d bytes)' % (kl, ml, tl), r, 1, 32, 'hmac_tag_validation')
    return fn


def hmac_reuse(x):
    st = x.state('sz')
    k = x.sym('key', 20)
    x.call('d_key', st, k, 20)
    for j, L in enumerate((5, 0, 70)):
        m = x.sym('msg%d' % j, L)
        o = x.undef('tag%d' % j, 32)
        x.call('d_tag', st, o, m, L, 32)
        x.expect('C23+C13', 'HMAC of message %d with the same context' % j, o, S.hmac(x.d, k.init, m.init))
    k = x.sym('key2', 7)
    x.call('d_key', st, k, 7)
    m = x.sym('msgx', 9)
    o = x.undef('tagx', 32)
    x.call('d_tag', st, o, m, 9, 32)
    x.expect('C23+C13', 'HMAC after loading a second key', o, S.hmac(x.d, k.init, m.init))


def gen_hmac(tier, consts):
    q = tier == 'quick'
    kls = [0, 1, 16, 32, 63, 64, 65, 66, 100, 128, 200] if q else list(range(0, 140)) + [200, 256, 300]
    mls = [0, 1, 3, 8, 31, 54, 55, 56, 62, 63, 64, 65, 118, 119, 120, 128] if q else list(range(0, 200))
    tls = [1, 2, 4, 10, 16, 20, 31, 32] if q else list(range(1, 33))
    for c in sizes(0, 64, consts, tier, 600 if q else 3000):
        if c > 64:
            mls.append(c)
            kls.append(c)
        elif c not in kls:
            kls.append(c)
    for c in consts:
        if 1 <= c <= 32 and c not in tls:
            tls.append(c)
    cases = [(k, (k * 7) % 40, 32) for k in kls] + [((m * 3) % 80, m, 32) for m in mls] + [(16, 9, t) for t in tls]
    out = []
    n = 3
    cases.sort(key=lambda c: c[0] + c[1])
    for i in range(0, len(cases), n):
        g = cases[i:i + n]
        out.append(Sc('tag %s' % g, ['C13'], hmac_run(g), cost=4 + sum(a + b for a, b, _ in g) / 40))
    vc = [(20, 5, t) for t in tls] + [(0, 0, 32), (64, 64, 32), (65, 1, 16), (100, 70, 20)] + [(16, m, 32) for m in (1, 54, 55, 56, 64)]
    if not q:
        vc += [(16, m, 32) for m in mls]
    for i in range(0, len(vc), 2):
        out.append(Sc('validate %s' % vc[i:i + 2], ['C14'], hmac_val(vc[i:i + 2]), cost=6))
    out.append(Sc('context reuse', ['C23', 'C13'], hmac_reuse, cost=6))
    return out


MD5_DRV = HDR + '''#include "md5.h"
extern "C" {
unsigned long sz() { return sizeof(MD5_CTX); }
void d_init(MD5_CTX *c) { MD5Init(c); }
void d_upd(MD5_CTX *c, u8 *m, u32 n) { MD5Update(c, m, n); }
void d_fin(u8 *o, MD5_CTX *c) { MD5Final(o, c); }
void d_all(MD5_CTX *c, u8 *o, u8 *m, u32 n) { MD5_process_packet(c, o, m, n); }
}
'''


def md5_many(lens):
    def fn(x):
        for L in lens:
            st = x.state('sz')
            m = x.sym('m', L)
            o = x.undef('digest', 16)
            x.call('d_all', st, o, m, L)
            x.expect('C15', 'MD5 of a %d-byte message (one call)' % L, o, S.md5(x.d, m.init))
            x.expect('C32', 'MD5 context after the digest of %d bytes: nothing of the message remains' % L, st, [0] * st.n)
    return fn


def md5_inc(splits):
    def fn(x):
        for sp in splits:
            st = x.state('sz')
            x.call('d_init', st)
            m = []
            for j, L in enumerate(sp):
                b = x.sym('m%d' % j, L)
                x.call('d_upd', st, b, L)
                m += b.init
            o = x.undef('digest', 16)
            x.call('d_fin', o, st)
            x.expect('C15', 'MD5 of a message fed as %s' % (sp,), o, S.md5(x.d, m))
            x.expect('C32', 'MD5 context after the digest of %s: nothing of the message remains' % (sp,), st, [0] * st.n)
    return fn


def md5_reuse(x):
    st = x.state('sz')
    for j, L in enumerate((70, 3, 64)):
        m = x.sym('m%d' % j, L)
        o = x.undef('digest%d' % j, 16)
        x.call('d_all', st, o, m, L)
        x.expect('C23+C15', 'MD5 with a used context, message %d' % j, o, S.md5(x.d, m.init))


def gen_md5(tier, consts):
    q = tier == 'quick'
    out = []
    ls = sorted(set(range(0, 136) if q else range(0, 400)) | set([183, 184, 191, 192, 193, 247, 248, 256]) | set(sizes(0, 64, consts, tier, 2100 if q else 8300)))
    for i in range(0, len(ls), 12):
        g = ls[i:i + 12]
        out.append(Sc('len %d..%d' % (g[0], g[-1]), ['C15', 'C32'], md5_many(g), cost=5 + g[-1] / 20))
    sp = [[], [0], [1, 1, 1], [63, 1], [64, 1], [1, 64], [32, 32], [60, 8, 60], [0, 64, 0], [55, 1], [100, 100], [1, 63, 64, 65], [130], [7, 120, 1], [64, 64], [56, 8], [65, 62, 1]]
    if not q:
        sp += [[a, b] for a in range(0, 130, 7) for b in (0, 1, 55, 63, 64, 65)]
    for i in range(0, len(sp), 4):
        out.append(Sc('updates %s' % sp[i:i + 4], ['C15', 'C32'], md5_inc(sp[i:i + 4]), cost=5))
    out.append(Sc('context reuse', ['C23', 'C15'], md5_reuse, cost=3))
    return out


# ------------------------------------------------------------------------------------------------ DES
DES_DRV = HDR + '''#include "des.h"
extern "C" {
unsigned long sz() { return sizeof(des_state); }
void d_ke(des_state *s, u8 *k) { des_key_schedule_encrypt(s, k); }
void d_kd(des_state *s, u8 *k) { des_key_schedule_decrypt(s, k); }
void d_blk(des_state *s, u32 *o, u32 *i) { des_ecb_block(s, o, i); }
void d_ecb(des_state *s, u32 *o, u32 *i, u64 n) { des_process_packet_ecb(s, o, i, n); }
void d_ctr(des_state *s, u32 *o, u32 *i, u32 *n, u64 z) { des_process_packet_ctr(s, o, i, n, z); }
}
'''


def gen_des(tier, consts):
    q = tier == 'quick'

    def ecb(n, dec):
        def fn(x):
            st = x.state('sz')
            k = x.sym('key', 8)
            x.call('d_kd' if dec else 'd_ke', st, k)
            ks = S.des_keys(x.d, k.init)
            if dec:
                ks = ks[::-1]
            i = x.sym('in', 8 * n)
            o = x.undef('out', 8 * n)
            x.call('d_ecb', st, o, i, 8 * n)
            want = []
            for b in range(n):
                want += S.des_block(x.d, ks, i.init[8 * b:8 * b + 8])
            x.expect('C16', 'DES-ECB %s of %d blocks' % ('decryption' if dec else 'encryption', n), o, want)
        return fn

    def blk(x):
        st = x.state('sz')
        k = x.sym('key', 8)
        x.call('d_ke', st, k)
        ks = S.des_keys(x.d, k.init)
        i = x.sym('in', 8)
        o = x.undef('out', 8)
        x.call('d_blk', st, o, i)
        x.expect('C16', 'DES block encryption', o, S.des_block(x.d, ks, i.init))
        x.call('d_kd', st, k)
        o = x.undef('out2', 8)
        x.call('d_blk', st, o, i)
        x.expect('C16', 'DES block decryption with the same context', o, S.des_block(x.d, ks[::-1], i.init))

    def rt(x):
        st = x.state('sz')
        k = x.sym('key', 8)
        x.call('d_ke', st, k)
        i = x.sym('in', 8)
        o = x.undef('out', 8)
        x.call('d_ecb', st, o, i, 8)
        x.call('d_kd', st, k)
        r = x.undef('rec', 8)
        x.call('d_ecb', st, r, o, 8)
        # decrypt(encrypt) through the spec: both directions equal FIPS 46-3, whose inverse is structural
        ks = S.des_keys(x.d, k.init)
        x.expect('C16', 'DES decrypt(encrypt(block)) applies the reversed key schedule to the ciphertext', r, S.des_block(x.d, ks[::-1], S.des_block(x.d, ks, i.init)))

    def ctr(n):
        def fn(x):
            d = x.d
            st = x.state('sz')
            k = x.sym('key', 8)
            x.call('d_ke', st, k)
            ks = S.des_keys(d, k.init)
            v = x.sym('nonce', 12)
            i = x.sym('in', 8 * n)
            o = x.undef('out', 8 * n)
            x.call('d_ctr', st, o, i, v, 8 * n)
            got = x.read(o)
            first = S.des_block(d, ks, v.init[:8])
            # block 0 is pinned; the blocks after it must use other keystream (counter mode never repeats a block)
            x.expect('C16', 'DES-CTR first block', o, S.xors(d, i.init[:8], first))
            for b in range(1, n):
                kb = S.xors(d, got[8 * b:8 * b + 8], i.init[8 * b:8 * b + 8])
                if all(x.same(p, q) for p, q in zip(kb, first)):
                    x.known.append(dict(id='DES-CTR-KEYSTREAM-REUSE', prop='C16', what='des_process_packet_ctr (Legacy/DES/des.cpp): block %d of %d is XORed with the keystream of block 0: the counter never enters the cipher block' % (b, n)))
                    x.ok('C16')
                else:
                    # a repaired counter must be part of the cipher input: E_k(f(nonce, b)) for the 8 bytes nonce[4..11]||ctr or nonce[0..3]||ctr
                    cands = []
                    for lo in (v.init[:4], v.init[4:8], v.init[8:12]):
                        for c in (b,):
                            for e in ('big', 'little'):
                                cands.append(S.des_block(d, ks, lo + list(c.to_bytes(4, e))))
                    if not any(all(x.same(p, q) for p, q in zip(kb, c)) for c in cands):
                        x.fail('C16', 'DES-CTR block %d of %d' % (b, n), x.writer(o, 8 * b), x.show(kb[0]), 'E_k(nonce part || counter)')
        return fn
    out = [Sc('block', ['C16'], blk, cost=3), Sc('inverse', ['C16'], rt, cost=3)]
    for n in ((0, 1, 2, 3, 5) if q else range(0, 20)):
        out.append(Sc('ecb encrypt %d' % n, ['C16'], ecb(n, 0), cost=1 + n))
        out.append(Sc('ecb decrypt %d' % n, ['C16'], ecb(n, 1), cost=1 + n))
    for c in sizes(0, 8, consts, tier, 2100):
        if c > 40 and c % 8 == 0:
            out.append(Sc('ecb encrypt %d' % (c // 8), ['C16'], ecb(c // 8, 0), cost=c / 8))
    out.append(Sc('ctr 3 blocks', ['C16'], ctr(3), cost=2))
    return out


# ------------------------------------------------------------------------------------------------ Hex
HEX_DRV = HDR + '''#include "encoder.h"
extern "C" {
void d_enc(char *o, const uint8_t *i, int n) { hex_encode(o, i, n); }
void d_dec(uint8_t *o, const char *i, int n) { hex_decode(o, i, n); }
}
'''


def gen_hex(tier, consts):
    q = tier == 'quick'

    def enc(x):
        for L in list(range(0, 20)) + [31, 32, 33, 64] + [s for s in sizes(0, 16, consts, tier, 700) if s > 64]:
            i = x.sym('in', L)
            o = x.undef('out', 2 * L + 1)
            x.call('d_enc', o, i, L)
            x.expect('C17', 'hex_encode of %d bytes' % L, o, S.hex_encode(x.d, i.init) + [0])

    def dec(x):
        d = x.d
        for L in list(range(0, 20)) + [31, 32, 33, 64] + [s for s in sizes(0, 16, consts, tier, 700) if s > 64]:
            raw = [d.var('x%d[%d]' % (L, i), 8) for i in range(L)]
            i = x.vals('hex', S.hex_encode(d, raw))
            o = x.undef('out', L)
            x.call('d_dec', o, i, 2 * L)
            x.expect('C17', 'hex_decode of every upper-case encoding of %d bytes' % L, o, raw)

    def both(x):
        d = x.d
        for L in (0, 1, 2, 7, 16, 33):
            i = x.sym('in', L)
            h = x.undef('hex', 2 * L + 1)
            x.call('d_enc', h, i, L)
            o = x.undef('out', L)
            x.call('d_dec', o, h, 2 * L)
            x.expect('C17', 'hex_decode(hex_encode(x)) for %d bytes' % L, o, i.init)
    mk = dict(d=SmallDom)
    return [Sc('encode', ['C17'], enc, cost=2, **mk), Sc('decode', ['C17'], dec, cost=5, **mk), Sc('round trip', ['C17'], both, cost=3, **mk)]


# ------------------------------------------------------------------------------------------------ the registry
def impls():
    out = []
    for d, vs in (('AES', ('plain',)), ('AES_x86', ('plain', 'x86')), ('AES_ARM', ('plain', 'arm'))):
        for v in vs:
            p = AESD + d + '/AES_CTR'
            out.append(Impl('aes-ctr', p, [p + '/aes_ctr.cpp'], [p], v, CTR_DRV, gen_ctr))
            out.append(Impl('aes-ctr-carry', p, [p + '/aes_ctr.cpp'], [p], v, CTR_POKE, gen_poke))
    for d, vs in (('AES/AES_CFB', ('plain', 'rounds6')), ('AES_x86/AES_CFB_Carry-Over', ('plain', 'x86')), ('AES_ARM/AES_CFB_Carry-Over', ('plain', 'arm'))):
        for v in vs:
            p = AESD + d
            out.append(Impl('aes-cfb', p, [p + '/aes_cfb.cpp'], [p], v, CFB_DRV, gen_cfb(6 if v == 'rounds6' else 10)))
    for d, vs in (('AEGIS', ('plain',)), ('AEGIS_x86', ('plain', 'x86')), ('AEGIS_ARM', ('plain', 'arm'))):
        for v in vs:
            p = AEG + d
            out.append(Impl('aegis', p, [p + '/aegis_128.cpp'], [p], v, AEGIS_DRV, gen_aegis))
    for v, r in (('plain', 20), ('rounds8', 8), ('rounds12', 12)):
        p = 'StreamCiphers/ChaCha'
        out.append(Impl('chacha', p, [p + '/chacha.cpp'], [p], v, CHACHA_DRV, gen_chacha(r)))
    p = 'StreamCiphers/HC-128'
    out.append(Impl('hc128', p, [p + '/hc128.cpp'], [p], 'plain', HC_DRV, gen_hc))
    p = 'StreamCiphers/Rabbit'
    out.append(Impl('rabbit', p, [p + '/rabbit.cpp'], [p], 'plain', RABBIT_DRV, gen_rabbit))
    for p in ('BlockCiphers/Serpent', 'StreamCiphers/Sosemanuk'):
        out.append(Impl('serpent', p, [p + '/serpent.cpp'], [p], 'plain', SERP_DRV, gen_serpent))
        out.append(Impl('serpent1', p, [p + '/serpent.cpp'], [p], 'plain', SERP1_DRV, gen_s1))
    p = 'StreamCiphers/Sosemanuk'
    out.append(Impl('sosemanuk', p, [p + '/sosemanuk.cpp', p + '/serpent.cpp'], [p], 'plain', SOSE_DRV, gen_sose))
    for p in ('Hash/SHA/SHA-2/SHA-256', 'Authentication/HMAC-SHA-256'):
        out.append(Impl('sha256', p, [p + '/sha-256.cpp'], [p], 'plain', SHA_DRV, gen_sha))
    p = 'Authentication/HMAC-SHA-256'
    out.append(Impl('hmac', p, [p + '/hmac.cpp', p + '/sha-256.cpp'], [p], 'plain', HMAC_DRV, gen_hmac))
    p = 'Legacy/MD5'
    out.append(Impl('md5', p, [p + '/md5.cpp'], [p], 'plain', MD5_DRV, gen_md5))
    p = 'Legacy/DES'
    out.append(Impl('des', p, [p + '/des.cpp'], [p], 'plain', DES_DRV, gen_des))
    p = 'Encoders/Hex'
    out.append(Impl('hex', p, [p + '/encoder.cpp'], [p], 'plain', HEX_DRV, gen_hex))
    import bn
    out.append(Impl('jl', bn.JLD, [bn.JLD + '/joye_libert.cpp'], [bn.JLD], 'plain', bn.JL_DRV, bn.gen_jl))
    out.append(Impl('lhe', bn.LHD, [bn.LHD + '/labeled_he.cpp', bn.JLD + '/joye_libert.cpp', 'StreamCiphers/HC-128/hc128.cpp'], [bn.LHD], 'plain', bn.LH_DRV, bn.gen_lhe))
    import example
    out.append(Impl('example', 'Example_AuthenticatedEncryption', [example.SRC], ['Example_AuthenticatedEncryption'], 'plain', None, example.gen))
    return out


def gen_poke(tier, consts):
    return [Sc('counter from %#x' % s, ['C02'], ctr_poke(s), cost=2, optional=True) for s in (0xff, 0xfffe, 0xffff, 0xfffffe, 0xffffff, 0x7fffffff, 0xfffffffe)]
