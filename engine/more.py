"""Scenarios shared by all cipher families: independent contexts used in turn (C23), and processing in place (C30)."""
import spec as S
from scen import Sc
from absint import Ptr, Unsupported, TooMany


class Ctr:
    prop = 'C02'

    def __init__(self, x, tag, s):
        self.x, self.tag, self.s, self.n = x, tag, s, 0
        self.st = x.undef('state' + s, x.size('sz'), 'state')
        self.init()

    def role(self):
        return self.x.sym('buf%s%d' % (self.s, self.n), self.L, role='inout')

    def init(self):
        x = self.x
        self.k = x.sym('key%s%d' % (self.s, self.n), self.kl)
        self.v = x.sym('iv%s%d' % (self.s, self.n), self.vl)
        self.load()

    kl, vl = 16, 12

    def load(self):
        x = self.x
        x.call('d_key', self.st, self.k)
        x.call('d_iv', self.st, self.v)
        self.c = 1

    def want(self, data):
        w, self.c = S.aes_ctr(self.x.d, self.k.init, self.v.init, data, self.c)
        return w

    def run(self, i, o, L):
        self.x.call('d_proc', self.st, o, i, L)

    def proc(self, L, inplace=False):
        x = self.x
        self.n += 1
        if inplace:
            i = o = x.sym('buf%s%d' % (self.s, self.n), L, role='inout')
        else:
            i = x.sym('in%s%d' % (self.s, self.n), L)
            o = x.undef('out%s%d' % (self.s, self.n), L)
        self.run(i, o, L)
        x.expect(self.tag, '%s: %s bytes %s' % (type(self).__name__, L, 'processed in place' if inplace else 'of context ' + self.s), o, self.want(i.init))


class Cfb(Ctr):
    kl, vl = 16, 16
    dec = False
    prop = 'C03'

    def load(self):
        self.x.call('d_init', self.st, self.k, self.v)
        self.c = self.v.init

    def run(self, i, o, L):
        self.x.call('d_dec' if self.dec else 'd_enc', self.st, o, i, L)

    def want(self, data):
        w, self.c = S.aes_cfb(self.x.d, self.k.init, self.c, data, self.dec, self.x.info.get('rounds', 10))
        return w


class CfbDec(Cfb):
    dec = True
    prop = 'C04'


class ChaCha(Ctr):
    kl, vl = 32, 12
    prop = 'C07'

    def load(self):
        self.x.call('d_init', self.st, self.k, self.v)

    def want(self, data):
        r = {'rounds8': 8, 'rounds12': 12}.get(self.x.info.get('variant'), 20)
        return S.chacha(self.x.d, self.k.init, self.v.init, data, 1, r)


class HC128(Ctr):
    kl, vl = 16, 16
    prop = 'C08'

    def load(self):
        self.x.call('d_init', self.st, self.k, self.v)
        self.c = S.HC128(self.x.d, self.k.init, self.v.init)

    def want(self, data):
        return S.xors(self.x.d, data, self.c.keystream(len(data)))


class Rabbit(Ctr):
    kl, vl = 16, 8
    prop = 'C09'

    def load(self):
        self.x.call('d_key', self.st, self.k)
        self.x.call('d_iv', self.st, self.v)
        self.c = S.Rabbit(self.x.d, self.k.init)
        self.c.load_iv(self.v.init)

    def want(self, data):
        w = []
        for q in range(0, len(data), 16):
            w += S.xors(self.x.d, data[q:q + 16], self.c.block())
        return w


class Sosemanuk(Rabbit):
    kl, vl = 16, 16
    prop = 'C11'

    def load(self):
        self.x.call('d_key', self.st, self.k, self.kl)
        self.x.call('d_iv', self.st, self.v)
        self.c = S.Sosemanuk(self.x.d, self.k.init)
        self.c.load_iv(self.v.init)


class AegisEnc(Ctr):
    kl, vl = 16, 0
    prop = 'C05'

    def load(self):
        self.x.call('d_key', self.st, self.k)

    def run(self, i, o, L):
        x = self.x
        s = '%s%d' % (self.s, self.n)
        self.iv, self.ad = x.sym('nonce' + s, 16), x.sym('ad' + s, 5)
        self.t = x.undef('tag' + s, 16)
        x.call('d_enc', self.st, o, self.t, i, self.ad, self.iv, 5, L)

    def want(self, data):
        w, t = S.aegis_encrypt(self.x.d, self.k.init, self.iv.init, self.ad.init, data)
        self.x.expect(self.tag, 'AEGIS tag (context %s)' % self.s, self.t, t)
        return w


class AegisDec(AegisEnc):
    prop = 'C06'

    def run(self, i, o, L):
        x = self.x
        s = '%s%d' % (self.s, self.n)
        self.iv, self.ad = x.sym('nonce' + s, 16), x.sym('ad' + s, 5)
        self.t = x.sym('tag' + s, 16, role='inout')
        self.r = x.call('d_dec', self.st, o, i, self.ad, self.iv, self.t, 5, L)

    def want(self, data):
        d = self.x.d
        w, t = S.aegis_decrypt(d, self.k.init, self.iv.init, self.ad.init, data)
        good = d.eq(d.concat([(b, 8) for b in t]), d.concat([(b, 8) for b in self.t.init]), 128)
        self.x.expect_val(self.tag, 'AEGIS decryption result (context %s)' % self.s, self.r, d.norm((good,) + (0,) * 31), 32)
        return [d.ite(good, b, 0, 8) for b in w]


class Des(Ctr):
    kl, vl = 8, 0
    prop = 'C16'
    dec = False

    def load(self):
        self.x.call('d_kd' if self.dec else 'd_ke', self.st, self.k)
        self.c = S.des_keys(self.x.d, self.k.init)
        if self.dec:
            self.c = self.c[::-1]

    def run(self, i, o, L):
        self.x.call('d_ecb', self.st, o, i, L)

    def want(self, data):
        w = []
        for q in range(0, len(data), 8):
            w += S.des_block(self.x.d, self.c, data[q:q + 8])
        return w


class DesDec(Des):
    dec = True


class Serpent(Ctr):
    kl, vl = 24, 0
    prop = 'C10'

    def load(self):
        self.x.call('d_key', self.st, self.k, self.kl)
        self.c = S.serpent_keys(self.x.d, self.k.init, 25)

    def proc(self, L):
        x = self.x
        self.n += 1
        i = x.sym('in%s%d' % (self.s, self.n), L)
        o = x.undef('out%s%d' % (self.s, self.n), 3 * L)
        x.call('d_procn', self.st, o, i, L)
        w = []
        for b in range(0, L, 16):
            for Y in S.serpent24(x.d, self.c, [S.le32(x.d, i.init[b + 4 * q:b + 4 * q + 4]) for q in range(4)]):
                for y in Y:
                    w += S.un_le(x.d, y)
        x.expect(self.tag, 'Serpent (context %s)' % self.s, o, w)


class Hmac(Ctr):
    kl, vl = 20, 0
    prop = 'C13'

    def load(self):
        self.x.call('d_key', self.st, self.k, self.kl)

    def proc(self, L):
        x = self.x
        self.n += 1
        i = x.sym('in%s%d' % (self.s, self.n), L)
        o = x.undef('tag%s%d' % (self.s, self.n), 32)
        x.call('d_tag', self.st, o, i, L, 32)
        w = S.hmac(x.d, self.k.init, i.init)
        x.expect(self.tag, 'HMAC tag (context %s)' % self.s, o, w)
        t = x.sym('cand%s%d' % (self.s, self.n), 8)
        r = x.call('d_val', self.st, t, i, L, 8)
        d = x.d
        good = d.eq(d.concat([(b, 8) for b in w[:8]]), d.concat([(b, 8) for b in t.init]), 64)
        x.expect_val('C23+C14', 'HMAC validation (context %s)' % self.s, r, d.norm((good,) + (0,) * 31), 32, 'hmac_tag_validation')


class Md5:
    prop = 'C15'

    def __init__(self, x, tag, s):
        self.x, self.tag, self.s, self.n = x, tag, s, 0
        self.st = x.undef('state' + s, x.size('sz'), 'state')
        self.init()

    def init(self):
        self.x.call('d_init', self.st)
        self.m = []

    def proc(self, L):
        self.n += 1
        b = self.x.sym('in%s%d' % (self.s, self.n), L)
        self.x.call('d_upd', self.st, b, L)
        self.m += b.init
        if L == 7:
            o = self.x.undef('dig%s%d' % (self.s, self.n), 16)
            self.x.call('d_fin', o, self.st)
            self.x.expect(self.tag, 'MD5 (context %s)' % self.s, o, S.md5(self.x.d, self.m))


FAM = {'aes-ctr': [Ctr], 'aes-cfb': [Cfb, CfbDec], 'chacha': [ChaCha], 'hc128': [HC128], 'rabbit': [Rabbit], 'sosemanuk': [Sosemanuk], 'aegis': [AegisEnc, AegisDec],
       'des': [Des, DesDec], 'serpent': [Serpent], 'hmac': [Hmac], 'md5': [Md5]}
IP = ('aes-ctr', 'chacha', 'hc128', 'rabbit', 'sosemanuk')     # CFB decryption and AEGIS encryption are not in-place operations


def interleaved(A, B, unit):
    tag = 'C23+' + A.prop if A.prop == B.prop else 'C23+%s+%s' % (A.prop, B.prop)
    u = (lambda n: n * 8) if unit == 8 else (lambda n: n * 16) if unit == 16 else (lambda n: (n * 7) or 4)

    def fn(x):
        a = A(x, tag, 'A')
        a.proc(u(3) + (unit == 1) * 1)
        b = B(x, tag, 'B')
        b.proc(u(2))
        a.proc(u(5))
        b.proc(u(1))
        a.proc(u(1))
        b.init()
        b.proc(u(1))
    return fn


def interleaved_hc(x):
    """two contexts; the second one is loaded after the first was used"""
    a = HC128(x, 'C23+C08', 'A')
    a.proc(8)
    b = HC128(x, 'C23+C08', 'B')
    a.proc(12)
    b.proc(16)
    a.proc(7)


def inplace(A, lens):
    def fn(x):
        a = A(x, 'C30', 'A')
        for L in lens:
            a.proc(L, True)
    return fn


def _globals(x):
    r = {}
    for i, o in x.it.mem.o.items():
        if o.kind in ('global', 'tls') and not o.const and o.fn is None:
            for k, c in o.cells.items():
                r[i, k] = (c[0], c[2])
    return r


def hidden(run, tag):
    """No hidden state: the same calls are analysed twice.  Static memory that the second time still changed (a counter,
    say, but not a table filled on first use) is then given arbitrary content, which covers every later call."""
    def fn(x):
        run(x)
        g0 = _globals(x)
        run(x)
        g1 = _globals(x)
        x.ok(tag, 1)
        hav = [k for k, c in g1.items() if g0.get(k) != c and type(c[0]) is not Ptr]
        if not hav:
            return
        it = x.it
        for i, k in hav:
            o = it.mem.o[i]
            it.store(Ptr(i, k), x.d.var('%s[%d] after any number of calls' % (o.name, k), 8), 1)
        nf = len(it.findings)
        nm = len(x.mism)
        try:
            run(x)
        except (Unsupported, TooMany):
            x.notes.append('hidden state: arbitrary static content could not be followed')
        del it.findings[nf:]
        for m in x.mism[nm:]:
            if 'C23' not in m['tag'].split('+'):
                m['tag'] += '+C23'
    return fn


HID = {'sha256': ('C12', 'len 0'), 'hex': ('C17', ''), 'jl': ('C18', ''), 'lhe': ('C19', '')}


def gen(im, tier):
    q = tier == 'quick'
    out = []
    fam = im.family
    if fam in HID:
        p, nm = HID[fam]
        sc = [c for c in im.gen(tier, []) if p in c.props and nm in c.name and not c.optional and not c.soft]
        for c in sorted(sc, key=lambda c: c.cost)[:2] if fam in ('sha256', 'hex') else sc:
            out.append(Sc('no hidden state: ' + c.name, ['C23', p], hidden(c.fn, 'C23'), cost=3 * c.cost, **c.ctx))
    if fam not in FAM:
        return out
    cl = FAM[fam]
    unit = {'des': 8, 'serpent': 16}.get(fam, 1)
    if fam == 'hc128':
        out.append(Sc('two contexts in turn', ['C23', 'C08'], interleaved_hc, cost=110))
    else:
        for A in cl:
            for B in cl:
                ps = sorted(set(['C23', A.prop, B.prop] + (['C14'] if fam == 'hmac' else [])))
                out.append(Sc('two contexts in turn (%s, %s)' % (A.__name__, B.__name__), ps, interleaved(A, B, unit), cost=6))
    for A in cl:
        def twice(x, A=A):
            a = A(x, 'C23+' + A.prop, 'A')
            for n in (2, 1):
                a.proc(n * (16 if unit > 1 else 9))
        out.append(Sc('no hidden state: ' + A.__name__, ['C23', A.prop] + (['C14'] if fam == 'hmac' else []), hidden(twice, 'C23'), cost=6 if fam != 'hc128' else 150))
    if fam in IP:
        for A in cl:
            if unit == 8:
                sets = [[8, 16, 40], [0, 24]]
            elif fam == 'hc128':
                sets = [[4, 1], [16, 33], [60, 128, 7]]
            else:
                sets = [[1], [5], [15], [16], [17], [32, 16, 3], [31], [0, 33], [64], [65], [80], [100], [130]] + ([] if q else [[L] for L in range(2, 60)] + [[255], [256], [257], [512, 33]])
            for i in range(0, len(sets), 3 if fam != 'hc128' else 1):
                g = sets[i:i + (3 if fam != 'hc128' else 1)]

                def many(x, A=A, g=g):
                    for s in g:
                        inplace(A, s)(x)
                out.append(Sc('in place %s %s' % (A.__name__, g), ['C30'], many, cost=4 if fam != 'hc128' else 110))
    return out
