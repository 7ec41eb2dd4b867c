"""Scenarios for the GMP-based modules (Joye-Libert, LabeledHE)."""
import itertools
import mpz
import spec as S
from mpz import MV, I, const, sym, padd, pmul, key

JLD = 'AsymmetricCryptography/Joye_libert'
LHD = 'AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE'

JL_DRV = '''#include <cstdint>
#include <gmp.h>
#include "joye_libert.h"
extern "C" {
void d_keygen(mpz_ptr N, mpz_ptr y, mpz_ptr p, unsigned k, unsigned n) { joye_libert_keygen(N, y, p, k, n); }
void d_enc(mpz_ptr c, __gmp_randstate_struct *st, mpz_srcptr m, mpz_srcptr y, mpz_srcptr N, unsigned k) { joye_libert_encrypt(c, st, m, y, N, k); }
void d_dec(mpz_ptr m, mpz_srcptr c, mpz_srcptr p, mpz_srcptr y, unsigned k) { joye_libert_decrypt(m, c, p, y, k); }
}
'''
LH_DRV = '''#include <cstdint>
#include <new>
#include <gmp.h>
#include "labeled_he.h"
extern "C" {
unsigned long sz() { return sizeof(hc128_state); }
unsigned long sz_ct() { return sizeof(he_ct); }
void d_init(hc128_state *s, uint8_t *k, uint8_t *v) { hc128_initialize(s, k, v); }
void d_ct(he_ct *c) { new (c) he_ct; }
mpz_ptr d_a(he_ct *c) { return c->a; }
mpz_ptr d_beta(he_ct *c) { return c->beta; }
void d_keygen(mpz_ptr N, mpz_ptr y, mpz_ptr p, unsigned k, unsigned n) { he_keygen(N, y, p, k, n); }
void d_enc(he_ct *c, __gmp_randstate_struct *st, hc128_state *hc, mpz_ptr b, mpz_srcptr m, mpz_srcptr y, mpz_srcptr N, mpz_srcptr label, unsigned k)
{ he_encrypt(c, st, hc, b, m, y, N, label, k); }
void d_mult(mpz_ptr al, __gmp_randstate_struct *st, he_ct *c1, he_ct *c2, mpz_srcptr y, mpz_srcptr N, unsigned k) { he_eval_mult(al, st, c1, c2, y, N, k); }
void d_mult3(mpz_ptr al, __gmp_randstate_struct *st, he_ct *c1, he_ct *c2, he_ct *c3, mpz_srcptr b12, mpz_srcptr b13, mpz_srcptr b23, mpz_srcptr y, mpz_srcptr N, unsigned k)
{ he_eval_mult_3(al, st, c1, c2, c3, b12, b13, b23, y, N, k); }
void d_add(he_ct *c, he_ct *c1, he_ct *c2, mpz_srcptr N, unsigned k) { he_eval_add(c, c1, c2, N, k); }
void d_add2(mpz_ptr c, mpz_srcptr c1, mpz_srcptr c2, mpz_srcptr N) { he_eval_add(c, c1, c2, N); }
void d_sub(he_ct *c, he_ct *c1, he_ct *c2, mpz_srcptr N, unsigned k) { he_eval_sub(c, c1, c2, N, k); }
void d_sub2(mpz_ptr c, mpz_srcptr c1, mpz_srcptr c2, mpz_srcptr N) { he_eval_sub(c, c1, c2, N); }
void d_cmult(he_ct *c, he_ct *c1, mpz_srcptr a, mpz_srcptr N, unsigned k) { he_eval_cmult(c, c1, a, N, k); }
void d_cmult2(mpz_ptr al, mpz_srcptr c, mpz_srcptr a, mpz_srcptr N) { he_eval_cmult(al, c, a, N); }
void d_dec(mpz_ptr m, he_ct *c, mpz_srcptr p, mpz_srcptr y, unsigned k) { he_decrypt(m, c, p, y, k); }
void d_dec2(mpz_ptr m, mpz_srcptr c, mpz_srcptr b, mpz_srcptr p, mpz_srcptr y, unsigned k) { he_decrypt(m, c, b, p, y, k); }
}
'''


class World:
    """keys and symbols of one instance of the scheme"""

    def __init__(self, x, k, secret=False):
        self.x = x
        self.k = k
        self.A = mpz.install(x)
        A = self.A
        A.sized = {}
        self.N = I(sym(('N', 'N')))
        A.ranges[('N', 'N')] = (1 << 16, None)
        self.Nk = key(self.N.p)
        self.y = I(sym(('y', 'y')))
        A.ranges[('y', 'y')] = (1, None)
        self.bN = mpz.var(x, 'N', self.N)
        self.by = mpz.var(x, 'y', self.y)
        self.st = mpz.var(x, 'state', MV('R', tag=(True, 'caller')), 32)
        if secret:
            L = ('L', 'L')
            A.ranges[L] = (1, None)
            p = padd(pmul(const(1 << k), sym(L)), const(1))
            self.p = I(p)
            A.fermat[key(p)] = (L, k)
            A.order[key(p)] = {('y', 'y')}
            A.divides.add((key(p), self.Nk))
            self.bp = mpz.var(x, 'p', self.p)

    def bits(self, name, n):
        """an unknown n-bit number"""
        v = self.x.d.var(name, n) if n else 0
        return self.A.wordpoly(v)

    def number(self, name, hi):
        s = ('num', name)
        self.A.ranges[s] = (0, hi - 1)
        return sym(s)

    def ct(self, name, a=None, beta=None):
        b = self.x.undef(name, self.x.size('sz_ct'), 'mpz')
        self.x.call('d_ct', b)
        if a is not None:
            self.A.put(self.pa(b), a)
            self.A.put(self.pb(b), beta)
        return b

    def pa(self, b):
        return self.x.it.call('d_a', [b.ptr])

    def pb(self, b):
        return self.x.it.call('d_beta', [b.ptr])

    def val(self, p):
        return self.A.rd(p)

    def loc(self, p):
        c = self.x.it.mem.o[p.obj].cells.get(p.off)
        return c[3] if c is not None else '?'

    def unchanged(self, bufs):
        for b in bufs:
            n0 = b.init[0] if b.init else None
            if n0 is None:
                continue
            v = mpz.get(self.x, b)
            self.x.obl['C22'] = self.x.obl.get('C22', 0) + 1
            if v != n0:
                self.x.inputmods.append(dict(buf=b.name, cell=0, loc=mpz.where(self.x, b)))

    def done(self, bufs=()):
        self.unchanged([self.bN, self.by] + ([self.bp] if hasattr(self, 'bp') else []) + list(bufs))

    def D(self, v):
        """decryption of an element of Z_N*: the exponent of y modulo 2^k, None if it is not a ciphertext"""
        A = self.A
        M = 1 << self.k
        if v.k == 'I' and v.p == const(1):
            return {}
        if v.k != 'G' and v.k != 'I':
            return None
        if v.k == 'G' and v.m not in (self.Nk, None):
            return None
        r = {}
        for b, e in A.asex(v).items():
            q = A.unmod(e, M)
            if b == ('y', 'y'):
                r = padd(r, q)
            elif b[0] == 'beta':
                r = padd(r, pmul(q, self.logs[b]))
            elif q:
                return None
        return A.unmod(r, M)

    def congruent(self, tag, what, got, want, loc):
        M = 1 << self.k
        self.x.obl[tag] = self.x.obl.get(tag, 0) + 1
        g = None if got is None else self.A.unmod(got, M)
        w = self.A.unmod(want, M)
        if g != w:
            self.x.mism.append(dict(tag=tag, what=what, buf='number', cell=0, loc=loc, got='no ciphertext' if g is None else mpz.pshow(g), want=mpz.pshow(w)))
            return False
        if len(self.x.samples) < 2:
            self.x.samples.append('%s: %s (mod 2^%d)' % (what, mpz.pshow(w)[:200], self.k))
        return True

    def same(self, tag, what, got, want, loc):
        self.x.obl[tag] = self.x.obl.get(tag, 0) + 1
        if got != want:
            self.x.mism.append(dict(tag=tag, what=what, buf='number', cell=0, loc=loc, got=repr(got), want=repr(want)))
            return False
        if len(self.x.samples) < 2:
            self.x.samples.append('%s: %r' % (what, want))
        return True

    def fresh_x(self):
        """random numbers below N drawn so far"""
        return [s for k, s, m in self.A.draws if k == 'below' and m == self.N.key()]

    def is_encryption(self, tag, what, v, m, loc, ndraw):
        """v = y^m x^(2^k) mod N for a fresh x drawn below N"""
        xs = self.fresh_x()[ndraw:]
        for s in xs:
            e = {('y', 'y'): m, s: const(1 << self.k)} if m else {s: const(1 << self.k)}
            if v == MV('G', m=self.Nk, ex=e):
                return self.same(tag, what, v, v, loc)
        return self.same(tag, what, v, MV('G', m=self.Nk, ex={('y', 'y'): m, ('fresh', 'fresh random x below N'): const(1 << self.k)}), loc)


GARBAGE = I(sym(('garbage', 'previous content')))


def jl_scenarios(q):
    from scen import Sc
    ks = [1, 2, 3, 5, 8, 16, 31, 32, 33, 64] + ([] if q else [7, 24, 63, 65, 96, 128, 192, 256])

    def enc(k, alias):
        def fn(x):
            w = World(x, k)
            m = I(w.bits('m', k))
            bm = mpz.var(x, 'm', m)
            c = bm if alias else mpz.var(x, 'c', GARBAGE)
            n = len(w.fresh_x())
            x.call('d_enc', c, w.st, bm, w.by, w.bN, k)
            w.is_encryption('C18', 'encryption of a %d-bit message' % k, mpz.get(x, c), m.p, mpz.where(x, c), n)
            # a second message with the same state
            m2 = I(w.bits('m2', k))
            bm2 = mpz.var(x, 'm2', m2)
            c2 = mpz.var(x, 'c2', GARBAGE)
            n = len(w.fresh_x())
            x.call('d_enc', c2, w.st, bm2, w.by, w.bN, k)
            w.is_encryption('C18', 'encryption of a second %d-bit message' % k, mpz.get(x, c2), m2.p, mpz.where(x, c2), n)
            w.done([bm2] + ([] if alias else [bm]))
        return fn

    def dec(k):
        def fn(x):
            w = World(x, k, secret=True)
            m = I(w.bits('m', k))
            bm = mpz.var(x, 'm', m)
            c = mpz.var(x, 'c', GARBAGE)
            x.call('d_enc', c, w.st, bm, w.by, w.bN, k)
            c.init = [mpz.get(x, c)]
            r = mpz.var(x, 'recovered', GARBAGE)
            x.call('d_dec', r, c, w.bp, w.by, k)
            w.same('C18', 'decryption of an encrypted %d-bit message' % k, mpz.get(x, r), m, mpz.where(x, r))
            # any element with the same residue class of exponents: y^M x^(2^k) for an unknown unit x
            M = I(w.bits('M', k))
            c2 = mpz.var(x, 'c2', MV('G', m=w.Nk, ex={('y', 'y'): M.p, ('unit', 'u'): const(1 << k)}))
            c2.init = [mpz.get(x, c2)]
            r2 = mpz.var(x, 'recovered2', GARBAGE)
            x.call('d_dec', r2, c2, w.bp, w.by, k)
            w.same('C18', 'decryption of an arbitrary %d-bit ciphertext' % k, mpz.get(x, r2), M, mpz.where(x, r2))
            w.done([bm, c, c2])
        return fn
    out = []
    for k in ks:
        out.append(Sc('encrypt k=%d' % k, ['C18'], enc(k, False)))
        out.append(Sc('encrypt in place k=%d' % k, ['C18'], enc(k, True)))
        out.append(Sc('decrypt k=%d' % k, ['C18'], dec(k), cost=1 + k / 16))
    return out


def keygen_scenarios(q, fn='d_keygen'):
    from scen import Sc

    def run(k, n, scripts):
        def f(x):
            w = World(x, k)
            A = w.A
            for script in scripts:
                A.script = list(script)
                A.scripting = True
                A.decided = 0
                A.facts = {}
                A.draws = []
                A.unseeded.clear()
                A.reps.clear()
                bN, by, bp = mpz.var(x, 'N', I({})), mpz.var(x, 'y', I({})), mpz.var(x, 'p', I({}))
                if x.call(fn, bN, by, bp, k, n) == 0 and x.noreturn:
                    return
                A.scripting = False
                judge(x, w, k, n, mpz.get(x, bN), mpz.get(x, by), mpz.get(x, bp), [mpz.where(x, b) for b in (bN, by, bp)], script)
        return f

    def judge(x, w, k, n, N, y, p, locs, script):
        A = w.A
        tag = 'C27'

        def need(ok, what, loc, got=''):
            x.obl[tag] = x.obl.get(tag, 0) + 1
            if not ok:
                x.mism.append(dict(tag=tag, what=what + ' (outcomes of the tests so far: %s)' % ''.join('ny'[b] for b in script), buf='key', cell=0, loc=loc, got=repr(got), want='tested'))
        M = 1 << k
        ip = A.toint(p)
        need(A.unmod(padd(ip, const(1), -1), M) == {}, 'p is congruent to 1 modulo 2^k', locs[2], p)
        need(A.facts.get(('prime', p.key())) is True and A.reps.get(p.key(), 0) >= 15, 'p passed the primality test', locs[2], p)
        h = A.divexact(I(padd(ip, const(1), -1)), I(const(M)))
        need(A.facts.get(('prime', h.key())) is True and A.reps.get(h.key(), 0) >= 15, '(p-1)/2^k passed the primality test', locs[2], h)
        iN = A.toint(N)
        qs = []
        for f, v in A.facts.items():
            if f[0] == 'prime' and v is True:
                c = I(dict(f[1][1])) if f[1][0] == 'I' else None
                if c is not None and pmul(c.p, ip) == iN:
                    qs.append(c)
        need(bool(qs) and iN != pmul(ip, ip), 'N is p times a number that passed the primality test', locs[0], N)
        if qs:
            qq = qs[0]
            three = A.facts.get(('eq', A.mod(qq, const(4)).key(), I(const(3)).key()))
            need(three is True, 'q is congruent to 3 modulo 4', locs[0], qq)
            need(A.reps.get(qq.key(), 0) >= 15, 'q passed the primality test', locs[0], qq)
            need(A.facts.get(('legendre', y.key(), p.key())) is True, 'y is a non-residue modulo p', locs[1], y)
            need(A.facts.get(('legendre', y.key(), qq.key())) is True, 'y is a non-residue modulo q', locs[1], y)
        # sources
        dr = {s: (kind, m) for kind, s, m in A.draws}
        ys = [s for m in A.toint(y) for s, e in m]
        need(len(ys) == 1 and dr.get(ys[0], ('', 0))[0] == 'below' and dr[ys[0]][1] == N.key(), 'y is drawn from the residues modulo N', locs[1], y)
        need(any(dr.get(s, ('', 0))[0] == 'bits' and dr[s][1] == n // 2 for m in ip for s, e in m), 'p is found from a random number of half the key size', locs[2], p)
        for src, loc, f in A.unseeded:
            x.known.append(dict(prop='C27', id='UNSEEDED:' + src, what='%s: random numbers are drawn from a state initialised in %s that was never seeded' % (loc, src)))
        if len(x.samples) < 2:
            x.samples.append('key found after outcomes %s: p=%r, N=%r, %d facts' % (''.join('ny'[b] for b in script), p, N, len(A.facts)))
    depth = 7 if q else 11
    scripts = [s for n in range(depth + 1) for s in itertools.product((True, False), repeat=n) if not s or not s[-1]]
    out = []
    sizes = [(32, 2048)] if q else [(32, 2048), (16, 1024), (64, 3072)]
    for k, n in sizes:
        for i in range(0, len(scripts), 64):
            out.append(Sc('key generation k=%d n=%d, outcome sequences %d..%d' % (k, n, i, min(i + 63, len(scripts) - 1)), ['C27'], run(k, n, scripts[i:i + 64]), cost=2))
    return out


def gen_jl(tier, consts):
    q = tier == 'quick'
    return jl_scenarios(q) + keygen_scenarios(q)


def gen_lhe(tier, consts):
    from scen import Sc
    q = tier == 'quick'
    out = []
    ks = [32, 64] if q else [32, 64, 96, 128]

    def enc(k, labels):
        def fn(x):
            w = World(x, k)
            A = w.A
            kb = bytes(range(16, 32))
            ks_ = x.const('key', kb)
            v = x.const('iv', bytes(16))
            hc = x.state('sz', 'hc')
            x.call('d_init', hc, ks_, v)
            stream = S.HC128(x.d, list(kb), [0] * 16)
            for n, top in labels:
                bs = [x.d.var('label%d.%d[%d]' % (n, top, i), 8) for i in range(n)]
                if n:
                    low = bs[0][:8 - top]
                    bs[0] = x.d.norm(low[:-1] + (1,) + (0,) * top) if top < 8 else bs[0]
                lv = {}
                for i, b in enumerate(bs):
                    lv = padd(lv, A.wordpoly(b, 1 << (8 * (n - 1 - i))))
                lab = I(lv)
                A.sizes[lab.key()] = 8 * n - top if n else 1
                A.bytes[lab.key()] = bs
                bl = mpz.var(x, 'label', lab)
                m = I(w.number('m', 1 << k))
                bm = mpz.var(x, 'm', m)
                bb = mpz.var(x, 'b', GARBAGE)
                c = w.ct('ct')
                nd = len(w.fresh_x())
                x.call('d_enc', c, w.st, hc, bb, bm, w.by, w.bN, bl, k)
                blk = [0] * (k // 8 - n) + bs
                kst = []
                while len(kst) < len(blk):
                    kst += S.un_le(x.d, stream.word())
                mask = [x.d.xor(a, b, 8) for a, b in zip(blk, kst)]
                want = {}
                nw = k // 32
                for j in range(nw):
                    for i in range(4):
                        want = padd(want, A.wordpoly(mask[4 * j + i], 1 << (32 * (nw - 1 - j) + 8 * i)))
                got = mpz.get(x, bb)
                w.same('C19', 'mask b of a %d-byte label' % n, got, I(want), mpz.where(x, bb))
                pa, pb = w.pa(c), w.pb(c)
                va, vb = w.val(pa), w.val(pb)
                w.congruent('C19', 'first component is m - b', A.toint(va), padd(m.p, want, -1), w.loc(pa))
                w.is_encryption('C19', 'second component encrypts b', vb, want, w.loc(pb), nd)
                w.unchanged([bl, bm])
            w.done()
        return fn
    for k in ks:
        nb = k // 8
        labs = [(n, t) for n in range(1, nb + 1) for t in ((0, 7) if n in (1, 2, nb - 1, nb) or not q else (3,))]
        out.append(Sc('encrypt, all label sizes, k=%d' % k, ['C19'], enc(k, labs + [(0, 0)]), cost=9))

    def evals(k):
        def fn(x):
            w = World(x, k)
            A = w.A
            M = 1 << k
            w.logs = {}
            a, b, cts = [], [], []
            for i in range(3):
                s = ('beta', 'beta%d' % (i + 1))
                w.logs[s] = w.number('b%d' % (i + 1), M)
                a.append(w.number('a%d' % (i + 1), M))
                b.append(w.logs[s])
                cts.append(w.ct('c%d' % (i + 1), I(a[-1]), MV('G', m=w.Nk, ex={s: const(1)})))

            def dec_ct(c):
                pa, pb = w.pa(c), w.pb(c)
                d = w.D(w.val(pb))
                return (None if d is None else padd(A.toint(w.val(pa)), d)), w.loc(pb)
            m = [padd(a[i], b[i]) for i in range(3)]
            r = w.ct('sum', GARBAGE, GARBAGE)
            x.call('d_add', r, cts[0], cts[1], w.bN, k)
            g, l = dec_ct(r)
            w.congruent('C19', 'decryption of a sum', g, padd(m[0], m[1]), l)
            r2 = w.ct('sum2', GARBAGE, GARBAGE)
            x.call('d_add', r2, r, cts[2], w.bN, k)
            g, l = dec_ct(r2)
            w.congruent('C19', 'decryption of a sum of sums', g, padd(padd(m[0], m[1]), m[2]), l)
            r = w.ct('difference', GARBAGE, GARBAGE)
            x.call('d_sub', r, cts[0], cts[1], w.bN, k)
            g, l = dec_ct(r)
            w.congruent('C19', 'decryption of a difference', g, padd(m[0], m[1], -1), l)
            cst = w.number('constant', M)
            bc = mpz.var(x, 'constant', I(cst))
            r = w.ct('scaled', GARBAGE, GARBAGE)
            x.call('d_cmult', r, cts[0], bc, w.bN, k)
            g, l = dec_ct(r)
            w.congruent('C19', 'decryption of a constant multiple', g, pmul(cst, m[0]), l)
            # multiplicative ciphertexts
            al = mpz.var(x, 'alpha', GARBAGE)
            nd = len(w.fresh_x())
            x.call('d_mult', al, w.st, cts[0], cts[1], w.by, w.bN, k)
            v = mpz.get(x, al)
            w.congruent('C19', 'decryption of a product', plus(w.D(v), pmul(b[0], b[1])), pmul(m[0], m[1]), mpz.where(x, al))
            rerand(x, w, 'product', v, mpz.where(x, al), nd)
            al.init = [v]
            bij = {}
            for i, j in ((0, 1), (0, 2), (1, 2)):
                s = ('beta', 'beta%d%d' % (i + 1, j + 1))
                w.logs[s] = pmul(b[i], b[j])
                bij[i, j] = mpz.var(x, 'beta%d%d' % (i + 1, j + 1), MV('G', m=w.Nk, ex={s: const(1)}))
            a3 = mpz.var(x, 'alpha3', GARBAGE)
            nd = len(w.fresh_x())
            x.call('d_mult3', a3, w.st, cts[0], cts[1], cts[2], bij[0, 1], bij[0, 2], bij[1, 2], w.by, w.bN, k)
            v = mpz.get(x, a3)
            w.congruent('C19', 'decryption of a triple product', plus(w.D(v), pmul(pmul(b[0], b[1]), b[2])), pmul(pmul(m[0], m[1]), m[2]), mpz.where(x, a3))
            rerand(x, w, 'triple product', v, mpz.where(x, a3), nd)
            # alpha ciphertexts: elements with unknown plaintext
            e = []
            for i in range(2):
                s = ('beta', 'e%d' % i)
                w.logs[s] = w.number('pt%d' % i, M)
                e.append(mpz.var(x, 'e%d' % i, MV('G', m=w.Nk, ex={s: const(1)})))
            P = [w.logs[('beta', 'e%d' % i)] for i in range(2)]
            for nm, want, args in (('d_add2', padd(P[0], P[1]), (e[0], e[1], w.bN)), ('d_sub2', padd(P[0], P[1], -1), (e[0], e[1], w.bN)), ('d_cmult2', pmul(P[0], cst), (e[0], bc, w.bN))):
                r = mpz.var(x, 'r', GARBAGE)
                x.call(nm, r, *args)
                w.congruent('C19', {'d_add2': 'sum', 'd_sub2': 'difference', 'd_cmult2': 'constant multiple'}[nm] + ' of evaluated ciphertexts', w.D(mpz.get(x, r)), want, mpz.where(x, r))
            w.done(e + [bc, al] + list(bij.values()))
            for i in range(3):
                x.obl['C22'] = x.obl.get('C22', 0) + 2
                if w.val(w.pa(cts[i])) != I(a[i]) or w.val(w.pb(cts[i])) != MV('G', m=w.Nk, ex={('beta', 'beta%d' % (i + 1)): const(1)}):
                    x.inputmods.append(dict(buf='ciphertext %d' % (i + 1), cell=0, loc=w.loc(w.pa(cts[i]))))
        return fn

    def plus(g, p):
        return None if g is None else padd(g, p)

    def rerand(x, w, what, v, loc, nd):
        xs = w.fresh_x()[nd:]
        x.obl['C19'] = x.obl.get('C19', 0) + 1
        if not (v.k == 'G' and any(v.ex.get(s) == const(1 << w.k) for s in xs)):
            x.mism.append(dict(tag='C19', what='the %s is re-randomised with a fresh x^(2^k)' % what, buf='number', cell=0, loc=loc, got=repr(v), want='x^(2^k) factor'))
    for k in [8, 32, 64] + ([] if q else [1, 16, 128, 512]):
        out.append(Sc('evaluation k=%d' % k, ['C19'], evals(k)))

    def dec(k):
        def fn(x):
            w = World(x, k, secret=True)
            A = w.A
            a = w.number('a', 1 << k)
            B = w.bits('B', k)
            c = w.ct('c', I(a), MV('G', m=w.Nk, ex={('y', 'y'): B, ('unit', 'u'): const(1 << k)}))
            r = mpz.var(x, 'm', GARBAGE)
            x.call('d_dec', r, c, w.bp, w.by, k)
            want = A.mod(I(padd(a, B)), const(1 << k))
            w.same('C19', 'decryption of (a, beta)', mpz.get(x, r), want, mpz.where(x, r))
            b = w.number('b', 1 << k)
            bb = mpz.var(x, 'b', I(b))
            e = mpz.var(x, 'alpha', MV('G', m=w.Nk, ex={('y', 'y'): B, ('unit', 'u'): const(1 << k)}))
            e.init = [mpz.get(x, e)]
            r2 = mpz.var(x, 'm2', GARBAGE)
            x.call('d_dec2', r2, e, bb, w.bp, w.by, k)
            w.same('C19', 'decryption of alpha with mask b', mpz.get(x, r2), A.mod(I(padd(b, B)), const(1 << k)), mpz.where(x, r2))
            w.done([bb, e])
        return fn
    for k in [8, 32, 64] + ([] if q else [1, 2, 128]):
        out.append(Sc('decryption k=%d' % k, ['C19'], dec(k)))
    out += keygen_scenarios(q)
    return out
