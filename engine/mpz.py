"""Big-number terms and typestate: GMP calls as transfer functions on an algebraic domain.

A GMP variable holds one of
  I(poly)                an integer, a polynomial over symbols with integer coefficients
  G(modulus, exponents)  an element of the group of units modulo `modulus`: product of base^exponent, exponents polynomials
  R(seeded)              a random state
  C                      cleared
Message bits are idempotent symbols tied to the bits of the value-graph domain, so the joins the interpreter performs at
data-dependent branches become polynomials in these bits."""
from absint import Ptr, PIte, Unsupported

UNIT = ()


# ------------------------------------------------------------------------------------------------ polynomials
def const(c):
    return {UNIT: c} if c else {}


def sym(s):
    return {((s, 1),): 1}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(x, y):
    if not x:
        return y
    if not y:
        return x
    d = dict(x)
    for s, e in y:
        d[s] = 1 if s[0] == 'bit' else d.get(s, 0) + e
    return tuple(sorted(d.items(), key=repr))


def pmul(a, b):
    r = {}
    for x, c in a.items():
        for y, e in b.items():
            m = mmul(x, y)
            v = r.get(m, 0) + c * e
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def key(p):
    return tuple(sorted(p.items(), key=repr))


def isconst(p):
    return not p or (len(p) == 1 and UNIT in p)


def cval(p):
    return p.get(UNIT, 0)


def ppow2(p):
    """p is the constant 2^n"""
    if not isconst(p):
        return None
    c = cval(p)
    return c.bit_length() - 1 if c > 0 and c & (c - 1) == 0 else None


def pshow(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=repr)[:12]:
        t = '*'.join(sname(s) + ('^%d' % e if e > 1 else '') for s, e in m)
        out.append('%d' % c if not t else t if c == 1 else '%s*%s' % (('2^%d' % (c.bit_length() - 1)) if c > 2 and c & (c - 1) == 0 else c, t))
    return ' + '.join(out) + (' + ...' if len(p) > 12 else '')


def sname(s):
    try:
        return sname1(s)
    except (ValueError, TypeError, IndexError):
        return str(s)[:60]


def sname1(s):
    if s[0] == 'mod':
        return '(%s mod %s)' % (pshow(dict(s[1])), pshow(dict(s[2])))
    if s[0] == 'quo':
        return '(%s)/(%s)' % (pshow(dict(s[1])), pshow(dict(s[2])))
    if s[0] == 'int':
        return 'int(%s)' % pshow(dict(s[1]))
    return str(s[1]) if len(s) > 1 else s[0]


# ------------------------------------------------------------------------------------------------ values
class MV:
    __slots__ = ('k', 'p', 'm', 'ex', 'tag')

    def __init__(self, k, p=None, m=None, ex=None, tag=None):
        self.k = k          # I G R C
        self.p = p          # I: poly
        self.m = m          # G: key of the modulus
        self.ex = ex        # G: base symbol -> poly
        self.tag = tag

    def key(self):
        if self.k == 'I':
            return ('I', key(self.p))
        if self.k == 'G':
            return ('G', self.m, tuple(sorted(((b, key(e)) for b, e in self.ex.items()), key=repr)))
        return (self.k, self.tag)

    def __eq__(self, o):
        return isinstance(o, MV) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.k == 'I':
            return pshow(self.p)
        if self.k == 'G':
            return ' * '.join('%s^(%s)' % (sname(b), pshow(e)) for b, e in sorted(self.ex.items(), key=repr)) + ' mod %s' % pshow(dict(self.m))[:40]
        return {'R': 'random state', 'C': 'cleared'}[self.k]


def I(p):
    return MV('I', p)


class Algebra:
    """the facts about the symbols of one scenario"""

    def __init__(self, d):
        self.d = d
        self.ranges = {}        # symbol -> (lo, hi) inclusive
        self.divides = set()    # (key p, key N): p divides N
        self.fermat = {}        # modulus key -> (symbol L, k): modulus - 1 = 2^k L
        self.order = {}         # modulus key -> {base symbol}: base^L has order exactly 2^k modulo it
        self.n = 0
        self.log = []
        self.script = []        # outcomes of the tests of key generation
        self.facts = {}
        self.draws = []
        self.known_units = set()
        self.cmpsign = {}       # bit node -> (p, q): it is set exactly when p < q

    def fresh(self, kind, lo=None, hi=None):
        self.n += 1
        s = (kind, '%s%d' % (kind, self.n))
        if lo is not None:
            self.ranges[s] = (lo, hi)
        return s

    # ---- bits
    def bitpoly(self, b):
        if b < 2:
            return const(b)
        s = sym(('bit', b & ~1))
        return s if not b & 1 else padd(const(1), s, -1)

    def wordpoly(self, v, scale=1):
        if type(v) is int:
            return const(v * scale)
        r = {}
        for i, b in enumerate(v):
            r = padd(r, self.bitpoly(b), scale << i)
        return r

    # ---- ranges
    def rng(self, s):
        if s[0] == 'bit':
            return (0, 1)
        return self.ranges.get(s, (None, None))

    def prange(self, p):
        lo = hi = 0
        for m, c in p.items():
            a = b = 1
            for s, e in m:
                l, h = self.rng(s)
                if l is None or l < 0:
                    return None, None
                a *= l ** e
                b = None if b is None or h is None else b * h ** e
            if c > 0:
                lo = None if lo is None else lo + c * a
                hi = None if hi is None or b is None else hi + c * b
            else:
                lo = None if lo is None or b is None else lo + c * b
                hi = None if hi is None else hi + c * a
        return lo, hi

    # ---- reductions
    def unmod(self, p, M):
        """a polynomial congruent to p modulo the constant M without (x mod M') symbols where M | M'"""
        r = {}
        for m, c in p.items():
            t = const(c)
            for s, e in m:
                q = sym(s)
                if s[0] == 'mod' and isconst(dict(s[2])) and cval(dict(s[2])) % M == 0:
                    q = self.unmod(dict(s[1]), M)
                for _ in range(e):
                    t = pmul(t, q)
            r = padd(r, t)
        return {m: c % M for m, c in r.items() if c % M}

    def mod(self, v, M):
        if v.k == 'G':
            mk = key(M)
            if v.m == mk or v.m is None:
                return self.norm(MV('G', m=mk, ex=v.ex))
            if (mk, v.m) in self.divides:
                return self.norm(MV('G', m=mk, ex=v.ex))
            s = ('int', (('other-modulus', v.key()),))
            return MV('G', m=mk, ex={s: const(1)})
        if isconst(M):
            c = cval(M)
            if c == 0:
                return I(sym(self.fresh('divzero')))
            q = self.unmod(v.p, abs(c))
            lo, hi = self.prange(v.p)
            if lo is not None and hi is not None and 0 <= lo and hi < abs(c):
                return I(v.p)
            lo, hi = self.prange(q)
            if lo is not None and hi is not None and 0 <= lo and hi < abs(c):
                return I(q)
            s = ('mod', key(q), key(const(abs(c))))
            self.ranges[s] = (0, abs(c) - 1)
            return I(sym(s))
        if isconst(v.p) and 0 <= cval(v.p) < 1 << 16:
            return v
        return self.norm(MV('G', m=key(M), ex=self.asex(v)))

    def asex(self, v):
        if v.k == 'G':
            return v.ex
        if v.p == const(1):
            return {}
        if len(v.p) == 1:
            (m, c), = v.p.items()
            if c == 1 and m:
                return {s: const(e) for s, e in m}
            if m:
                # the coefficient is a factor of its own
                return {**{s: const(e) for s, e in m}, ('int', key(const(c))): const(1)}
        return {('int', key(v.p)): const(1)}

    def norm(self, g):
        """reduce exponents: b^(2^k L) = 1 modulo a prime 2^k L + 1"""
        ex = {}
        f = self.fermat.get(g.m)
        for b, e in g.ex.items():
            if f:
                L, k = f
                r = {}
                for m, c in e.items():
                    if any(s == L for s, _ in m):
                        q = self.unmod({m: c}, 1 << k)
                        r = padd(r, q)
                    else:
                        r = padd(r, {m: c})
                e = {m: (c % (1 << k) if any(s == L for s, _ in m) else c) for m, c in r.items()}
                e = {m: c for m, c in e.items() if c}
            if e:
                ex[b] = e
        return MV('G', m=g.m, ex=ex)

    def meet(self, a, b):
        ma = a.m if a.k == 'G' else None
        mb = b.m if b.k == 'G' else None
        if ma is None or mb is None or ma == mb:
            return ma or mb
        if (ma, mb) in self.divides:
            return ma
        if (mb, ma) in self.divides:
            return mb
        return 'clash'

    def mul(self, a, b):
        if a.k == 'I' and b.k == 'I':
            return I(self.unquo(pmul(a.p, b.p)))
        if (a.k == 'I' and not a.p) or (b.k == 'I' and not b.p):
            return I({})
        m = self.meet(a, b)
        if m == 'clash':
            return I(sym(('int', (('product of residues of different moduli', a.key(), b.key()),))))
        ex = dict(self.asex(a))
        for s, e in self.asex(b).items():
            ex[s] = padd(ex.get(s, {}), e)
        return self.norm(MV('G', m=m, ex=ex))

    def powm(self, b, e, M):
        if e.k != 'I':
            e = I(self.toint(e))
        b = self.mod(b, M)
        mk = key(M)
        if isconst(e.p) and cval(e.p) == 0:
            return I(const(1))
        ex = {s: pmul(x, e.p) for s, x in self.asex(b).items()}
        return self.norm(MV('G', m=mk, ex=ex))

    def toint(self, v):
        if v.k == 'I':
            return v.p
        s = ('int', v.key())
        self.ranges.setdefault(s, (0, None))
        return sym(s)

    def arith(self, op, a, b):
        if op == '*':
            return self.mul(a, b)
        pa, pb = self.toint(a), self.toint(b)
        return I(padd(pa, pb, 1 if op == '+' else -1))

    def unquo(self, p):
        """c * (a / c) is a when the quotient is exact"""
        r = {}
        for m, c in p.items():
            t = {m: c}
            for i, (s, e) in enumerate(m):
                if s[0] == 'quo' and e == 1 and isconst(dict(s[2])) and cval(dict(s[2])) and c % cval(dict(s[2])) == 0:
                    t = pmul(dict(s[1]), {m[:i] + m[i + 1:]: c // cval(dict(s[2]))})
                    break
            r = padd(r, t)
        return r

    def divexact(self, a, b):
        pa, pb = self.toint(a), self.toint(b)
        if isconst(pb):
            c = cval(pb)
            if c and all(x % c == 0 for x in pa.values()):
                return I({m: x // c for m, x in pa.items()})
            ok = c and not self.unmod(pa, abs(c))
            s = ('quo', key(pa), key(pb)) if ok else ('inexact', key(pa), key(pb))
        else:
            s = ('quo', key(pa), key(pb))
        lo, hi = self.prange(pa)
        if lo is not None and lo >= 0:
            self.ranges[s] = (0, hi)
        return I(sym(s))

    # ---- comparisons: -> (kind, payload): ('const', sign) or ('bit', b): value is 1 if b else 0 or None
    def compare(self, a, b):
        if a.k == 'I' and b.k == 'I':
            df = padd(a.p, b.p, -1)
            lo, hi = self.prange(df)
            if not df:
                return ('const', 0)
            if lo is not None and lo > 0:
                return ('const', 1)
            if hi is not None and hi < 0:
                return ('const', -1)
            if b.p == {} and len(a.p) == 1:
                (m, c), = a.p.items()
                if len(m) == 1 and m[0][0][0] in ('rnd', 'x') and c > 0:
                    return ('nonzero', 1)
                if len(m) == 1 and m[0][0][0] == 'bit' and c > 0:
                    return ('bit', m[0][0][1])
            return (None, None)
        if a.k == 'G' and b.k == 'I' and a.m in self.fermat:
            L, k = self.fermat[a.m]
            if not a.ex:
                return self.compare(I(const(1)), b)
            if len(a.ex) == 1:
                (s, e), = a.ex.items()
                if s in self.order.get(a.m, ()) and all(sum(1 for t, n in m if t == L and n == 1) == 1 for m in e):
                    # base^(L * P), P modulo 2^k
                    P = {tuple((t, n) for t, n in m if t != L): c for m, c in e.items()}
                    if isconst(P):
                        if b.p == const(1):
                            return ('const', 1)
                        if b.p == padd(dict(a.m), const(-1)) and cval(P) == 1 << (k - 1):
                            return ('const', 0)
                    if len(P) == 1:
                        (m, c), = P.items()
                        if c == 1 << (k - 1) and len(m) == 1 and m[0][0][0] == 'bit':
                            bit = m[0][0][1]
                            if b.p == const(1):
                                return ('bit', bit)            # 1 or -1
                            if b.p == padd(dict(a.m), const(-1)):
                                return ('nbit', bit)           # p - 1, or 1 which is smaller
                    if len(P) == 2 and b.p == const(1) and all(c % (1 << (k - 1)) == 0 for c in P.values()) and UNIT in P:
                        m = [x for x in P if x != UNIT][0]
                        if len(m) == 1 and m[0][0][0] == 'bit':
                            return ('bit', m[0][0][1] ^ 1)
            if b.p == {}:
                return ('nonzero', 1)
        if a.k == 'G' and b.k == 'I' and b.p == {}:
            return ('nonzero', 1)
        return (None, None)

    # ---- reductions done only where they are needed
    def condmod(self, c, a, b):
        """c ? a : b where c says whether a number is below another"""
        f = self.cmpsign.get(c & ~1)
        if f is None:
            return None
        pa, pb = f
        less, other = (b, a) if c & 1 else (a, b)
        lo, hi = self.prange(pa)
        if lo is None:
            return None
        M = cval(pb) if isconst(pb) else None
        if M is not None and M > 0 and less == I(pa) and lo >= 0:
            r = self.mod(less, pb)
            if other == r or (hi is not None and hi < 2 * M and other == I(padd(pa, pb, -1))):
                return r
        if pb == {} and other == I(pa) and less.k == 'I' and hi is not None:
            df = padd(less.p, pa, -1)
            if isconst(df) and cval(df) > 0 and lo >= -cval(df) and hi < cval(df):
                return self.mod(other, df)
        return None

    # ---- joins
    def merge(self, c, a, b):
        if a == b:
            return a
        bit = self.bitpoly(c)
        if a.k == 'I' and b.k == 'I':
            r = self.condmod(c, a, b)
            if r is not None:
                return r
            return I(padd(b.p, pmul(bit, padd(a.p, b.p, -1))))
        if {a.k, b.k} <= {'I', 'G'} and (a.k == 'G' or a.p == const(1)) and (b.k == 'G' or b.p == const(1)):
            m = self.meet(a, b)
            if m == 'clash':
                return None
            ea, eb = self.asex(a), self.asex(b)
            ex = {}
            for s in set(ea) | set(eb):
                x, y = ea.get(s, {}), eb.get(s, {})
                ex[s] = padd(y, pmul(bit, padd(x, y, -1)))
            return self.norm(MV('G', m=m, ex=ex))
        if a.k in 'IG' and b.k in 'IG':
            s = ('int', (('join', c, a.key(), b.key()),))
            return I(sym(s))
        return None


def plain(f):
    """source name of a mangled function"""
    import re
    m = re.match(r'_ZN?(\d+)', f)
    if m:
        i = m.end()
        return f[i:i + int(m.group(1))]
    return f


# ------------------------------------------------------------------------------------------------ transfer functions
def install(x):
    """x: vg.Ctx.  Registers the GMP models."""
    it = x.it
    A = Algebra(x.d)
    x.alg = A
    it.extra['mpz'] = A
    it.extra['leaked'] = []
    it.track_mpz = True

    def merge(self, c, a, b):
        if isinstance(a, MV) and isinstance(b, MV):
            r = A.merge(c, a, b)
            if r is None and (a.k == 'C') != (b.k == 'C'):
                it.extra['leaked'].append('a GMP variable that is cleared on one path only at %s' % it.loc)
                return a if a.k != 'C' else b
            return r
        return None
    it.extra['merge'] = merge

    def on_dead(self, o):
        seen = set()
        for off, c in o.cells.items():
            if isinstance(c[0], MV) and c[2] == 0 and c[0].k in 'IGR' and off not in seen:
                it.extra['leaked'].append('GMP variable %s (last written at %s)' % (o.name.split('#')[0], c[3]))
    it.extra['on_dead'] = on_dead

    def rd(p, what='mpz'):
        if type(p) is PIte:
            a, b = rd(p.a), rd(p.b)
            r = merge(it, p.c, a, b)
            if r is None:
                raise Unsupported('join of GMP variables')
            return r
        if type(p) is not Ptr or p.sym is not None:
            raise Unsupported('GMP variable at %r' % (p,))
        if p.obj == 'null':
            it.report('null-deref', 'GMP call with a null pointer')
            return I(sym(A.fresh('undef')))
        o = it.mem.o.get(p.obj)
        if o is None:
            it.report('use-after-return', 'GMP call on a dead variable')
            return I(sym(A.fresh('undef')))
        if not o.alive:
            it.report('use-after-free', 'GMP call on %s after it was released' % o.name)
            return I(sym(A.fresh('undef')))
        c = o.cells.get(p.off)
        if c is None or not isinstance(c[0], MV) or c[2] != 0:
            it.report('uninit-mpz', 'GMP variable %s is used before it is initialised' % o.name.split('#')[0])
            return I(sym(A.fresh('undef')))
        v = c[0]
        if v.k == 'C':
            it.report('use-after-free', 'GMP variable %s is used after it was cleared' % o.name.split('#')[0])
            return I(sym(A.fresh('undef')))
        return v

    def isnull(p):
        return p == 0 or (type(p) is Ptr and p.obj == 'null')

    def num(p):
        v = rd(p)
        if v.k == 'R':
            raise Unsupported('random state used as a number')
        return v

    def put(p, v):
        if type(p) is PIte:
            raise Unsupported('GMP result through a conditional pointer')
        it.store(p, v, 16)

    def wr(p, v):
        rd(p)
        put(p, v)

    def init(p, v, n=16):
        o = it.mem.o.get(p.obj) if type(p) is Ptr else None
        if o is not None:
            c = o.cells.get(p.off)
            if c is not None and isinstance(c[0], MV) and c[0].k in 'IGR':
                it.extra['leaked'].append('GMP variable %s is initialised twice (%s)' % (o.name.split('#')[0], it.loc))
        it.store(p, v, n)

    def clear(p, n=16):
        o = it.mem.o.get(p.obj) if type(p) is Ptr else None
        c = o.cells.get(p.off) if o is not None else None
        if c is not None and isinstance(c[0], MV) and c[0].k == 'C':
            it.report('double-free', 'GMP variable %s is cleared twice' % o.name.split('#')[0])
            return
        if c is None or not isinstance(c[0], MV):
            it.report('bad-free', 'GMP variable is cleared without being initialised')
            return
        it.store(p, MV('C'), n)

    def ui(v, w=64):
        if type(v) is int:
            return const(v)
        return A.wordpoly(v)

    def si(v):
        if type(v) is int:
            return const(v - (1 << 64) if v >> 63 else v)
        raise Unsupported('symbolic signed GMP argument')

    M = it.models

    def reg(names, fn):
        for n in names.split():
            M['__gmpz_' + n] = fn

    def h(fn):
        return lambda self, name, v, tys, rty, mod: fn(*v)
    reg('init init2', h(lambda p, *a: init(p, I({}))))
    reg('inits', h(lambda *ps: [init(p, I({})) for p in ps if not isnull(p)] and None))
    reg('clears', h(lambda *ps: [clear(p) for p in ps if not isnull(p)] and None))
    reg('clear', h(clear))
    reg('init_set_ui', h(lambda p, u: init(p, I(ui(u)))))
    reg('init_set_si', h(lambda p, u: init(p, I(si(u)))))
    reg('init_set', h(lambda p, q: init(p, num(q))))
    reg('set', h(lambda p, q: wr(p, num(q))))
    reg('set_ui', h(lambda p, u: wr(p, I(ui(u)))))
    reg('set_si', h(lambda p, u: wr(p, I(si(u)))))
    reg('swap', h(lambda p, q: (lambda a, b: (put(p, b), put(q, a)) and None)(num(p), num(q))))
    reg('add', h(lambda r, a, b: wr(r, A.arith('+', num(a), num(b)))))
    reg('add_ui', h(lambda r, a, u: wr(r, A.arith('+', num(a), I(ui(u))))))
    reg('sub', h(lambda r, a, b: wr(r, A.arith('-', num(a), num(b)))))
    reg('sub_ui', h(lambda r, a, u: wr(r, A.arith('-', num(a), I(ui(u))))))
    reg('ui_sub', h(lambda r, u, a: wr(r, A.arith('-', I(ui(u)), num(a)))))
    reg('mul', h(lambda r, a, b: wr(r, A.mul(num(a), num(b)))))
    reg('mul_ui', h(lambda r, a, u: wr(r, A.mul(num(a), I(ui(u))))))
    reg('mul_si', h(lambda r, a, u: wr(r, A.mul(num(a), I(si(u))))))
    reg('mul_2exp', h(lambda r, a, n: wr(r, A.mul(num(a), I(const(1 << cn(n)))))))
    reg('addmul', h(lambda r, a, b: wr(r, A.arith('+', num(r), A.mul(num(a), num(b))))))
    reg('submul', h(lambda r, a, b: wr(r, A.arith('-', num(r), A.mul(num(a), num(b))))))
    reg('addmul_ui', h(lambda r, a, b: wr(r, A.arith('+', num(r), A.mul(num(a), I(ui(b)))))))
    reg('neg', h(lambda r, a: wr(r, A.arith('-', I({}), num(a)))))

    def cn(n):
        if type(n) is not int or n > 1 << 16:
            raise Unsupported('symbolic or huge bit count')
        return n

    def absv(r, a):
        v = num(a)
        lo, hi = A.prange(A.toint(v))
        if lo is not None and lo >= 0:
            wr(r, v)
        elif hi is not None and hi <= 0:
            wr(r, A.arith('-', I({}), v))
        else:
            wr(r, I(sym(('abs', v.key()))))
    reg('abs', h(absv))
    reg('mod fdiv_r', h(lambda r, a, m: wr(r, A.mod(num(a), A.toint(num(m))))))

    def tdiv_r(r, a, m):
        v, mm = num(a), num(m)
        if v.k == 'I':
            lo, hi = A.prange(v.p)
            if lo is None or lo < 0:
                wr(r, I(sym(('int', (('truncated remainder', v.key(), mm.key()),)))))
                return
        wr(r, A.mod(v, A.toint(mm)))
    reg('tdiv_r', h(tdiv_r))

    def fdiv_r_ui(r, a, u):
        v = A.mod(num(a), ui(u))
        wr(r, v)
        return word(v)

    def word(v):
        """machine word of a value"""
        if isconst(A.toint(v)):
            return cval(A.toint(v)) & ((1 << 64) - 1)
        return x.d.opaque('mpzword:%r' % (v.key(),), (), 64)
    reg('fdiv_r_ui tdiv_r_ui', h(fdiv_r_ui))
    reg('fdiv_ui tdiv_ui', h(lambda a, u: scripted_word(A.mod(num(a), ui(u)))))
    reg('fdiv_r_2exp', h(lambda r, a, n: wr(r, A.mod(num(a), const(1 << cn(n))))))
    reg('tdiv_r_2exp', h(lambda r, a, n: tdiv_r_c(r, a, 1 << cn(n))))

    def tdiv_r_c(r, a, c):
        v = num(a)
        lo, hi = A.prange(A.toint(v))
        if lo is None or lo < 0:
            wr(r, I(sym(('int', (('truncated remainder', v.key(), c),)))))
        else:
            wr(r, A.mod(v, const(c)))

    def quo(r, a, c):
        v = num(a)
        p = A.toint(v)
        if c > 0:
            # a = c * (a div c) + (a mod c)
            rem = A.mod(I(p), const(c))
            wr(r, A.divexact(A.arith('-', I(p), rem), I(const(c))))
        else:
            s = ('floor', key(p), c)
            A.ranges[s] = (0, None)
            wr(r, I(sym(s)))
    reg('fdiv_q_2exp tdiv_q_2exp', h(lambda r, a, n: quo(r, a, 1 << cn(n))))
    reg('fdiv_q tdiv_q', h(lambda r, a, b: quo(r, a, cval(A.toint(num(b)))) if isconst(A.toint(num(b))) else wr(r, I(sym(('floor', num(a).key(), num(b).key()))))))
    reg('divexact', h(lambda r, a, b: wr(r, A.divexact(num(a), num(b)))))
    reg('divexact_ui', h(lambda r, a, u: wr(r, A.divexact(num(a), I(ui(u))))))
    reg('ui_pow_ui', h(lambda r, b, e: wr(r, I(const(b ** cn(e))))))

    def pow_ui(r, a, e):
        v = num(a)
        t = I(const(1))
        for _ in range(cn(e)):
            t = A.mul(t, v)
        wr(r, t)
    reg('pow_ui', h(pow_ui))
    reg('powm powm_sec', h(lambda r, b, e, m: wr(r, A.powm(num(b), num(e), A.toint(num(m))))))
    reg('powm_ui', h(lambda r, b, e, m: wr(r, A.powm(num(b), I(ui(e)), A.toint(num(m))))))

    def invert(r, a, m):
        wr(r, A.powm(num(a), I(const(-1)), A.toint(num(m))))
        return 1
    reg('invert', h(invert))
    reg('setbit', h(lambda r, n: setbit(r, n)))

    def setbit(r, n):
        v = num(r)
        n = cn(n)
        lo, hi = A.prange(A.toint(v))
        if hi is not None and lo is not None and lo >= 0 and hi < 1 << n:
            wr(r, A.arith('+', v, I(const(1 << n))))
        else:
            raise Unsupported('mpz_setbit on a value that may have the bit')

    def result(a, b, name):
        """value of a three-way comparison"""
        k, pl = A.compare(a, b)
        if k == 'const':
            return pl & 0xffffffff
        if k == 'nonzero':
            x.notes.append('a random or unit residue is taken to be nonzero')
            return 1
        if k == 'bit':
            return x.d.norm((pl,) + (0,) * 31) if pl > 1 else pl
        if k == 'nbit':
            # 0 when the bit is set, negative otherwise
            return x.d.norm((pl ^ 1,) * 32)
        if A.scripting and isconst(A.toint(b)) and not isconst(A.toint(a)) and A.prange(A.toint(a)) == (0, 3):
            # a residue modulo 4 of something odd: 3 or 1
            v = 3 if scripted(('eq', a.key(), I(const(3)).key())) else 1
            c = cval(A.toint(b))
            return ((v > c) - (v < c)) & 0xffffffff
        s = scripted(('eq', a.key(), b.key()))
        if s is not None:
            return 0 if s else 1
        w = x.d.opaque('mpzcmp:%r:%r' % (a.key(), b.key()), (), 32)
        if type(w) is tuple and a.k == 'I' and b.k == 'I':
            A.cmpsign[w[31] & ~1] = (a.p, b.p)
        return w

    def scripted(fact):
        """during key generation the outcomes of tests follow a script; every outcome is remembered as a fact"""
        if A.script is None or not A.scripting:
            return None
        if fact in A.facts:
            return A.facts[fact]
        v = A.script.pop(0) if A.script else True
        A.decided += 1
        A.facts[fact] = v
        return v
    A.scripting = False
    A.decided = 0

    def scripted_word(v):
        if isconst(A.toint(v)):
            return cval(A.toint(v))
        p = A.toint(v)
        lo, hi = A.prange(p)
        if A.scripting and hi == 3:
            return 3 if scripted(('eq', v.key(), I(const(3)).key())) else 1
        return word(v)

    def congruent(a, c, m):
        v = A.mod(num(a), const(m))
        t = I(const(c % m))
        if A.scripting and m == 4 and not isconst(A.toint(v)):
            return 1 if result(v, t, 'congruent') == 0 else 0
        w = result(v, t, 'congruent')
        if type(w) is int:
            return 1 if w == 0 else 0
        return x.d.opaque('congruent:%r:%r' % (v.key(), t.key()), (), 32)
    reg('congruent_ui_p', h(lambda a, c, m: congruent(a, cn(c), cn(m))))
    reg('congruent_2exp_p', h(lambda a, c, n: congruent(a, cval(A.toint(num(c))), 1 << cn(n)) if isconst(A.toint(num(c))) else x.d.opaque('congruent:%r:%r:%d' % (num(a).key(), num(c).key(), n), (), 32)))
    reg('cmp', h(lambda a, b: result(num(a), num(b), 'cmp')))
    reg('cmp_ui cmpabs_ui', h(lambda a, u: result(num(a), I(ui(u)), 'cmp')))
    reg('cmp_si', h(lambda a, u: result(num(a), I(si(u)), 'cmp')))
    reg('cmpabs', h(lambda a, b: result(num(a), num(b), 'cmp')))

    def sgn(v):
        return result(v, I({}), 'sgn')
    it.extra['mpz_sign'] = sgn

    def prime(p, reps):
        v = num(p)
        if isconst(A.toint(v)):
            raise Unsupported('primality of a constant')
        if type(reps) is not int:
            raise Unsupported('symbolic number of primality rounds')
        f = ('prime', v.key())
        r = scripted(f)
        if r is None:
            return x.d.opaque('prime:%r' % (v.key(),), (), 32)
        A.reps[v.key()] = max(A.reps.get(v.key(), 0), reps)
        return 1 if r else 0
    A.reps = {}
    reg('probab_prime_p', h(prime))

    def nextprime(r, a):
        v = num(a)
        s = A.fresh('rnd')
        A.ranges[s] = (2, None)
        A.draws.append(('nextprime', s, v.key()))
        A.facts[('prime', I(sym(s)).key())] = True
        A.reps[I(sym(s)).key()] = 25
        wr(r, I(sym(s)))
    reg('nextprime', h(nextprime))

    def jacobi(a, b):
        v, m = num(a), num(b)
        if v.k == 'I' and isconst(v.p) and cval(v.p) == 0:
            return 0
        r = scripted(('legendre', v.key(), m.key()))
        if r is None:
            return x.d.opaque('jacobi:%r:%r' % (v.key(), m.key()), (), 32)
        return 0xffffffff if r else (1 if A.decided % 2 else 0)
    reg('jacobi legendre kronecker', h(jacobi))

    # random numbers
    def rstate(p):
        v = rd(p)
        if v.k != 'R':
            raise Unsupported('not a random state')
        if not v.tag[0]:
            A.unseeded.append((v.tag[1], it.loc, it.stack[-1] if it.stack else '?'))
        return v
    A.unseeded = []

    def urandomm(r, st, n):
        rstate(st)
        m = num(n)
        s = A.fresh('rnd')
        lo, hi = A.prange(A.toint(m))
        A.ranges[s] = (0, hi - 1 if hi is not None else None)
        A.draws.append(('below', s, m.key()))
        wr(r, I(sym(s)))
    reg('urandomm', h(urandomm))

    def urandomb(r, st, n):
        rstate(st)
        s = A.fresh('rnd')
        A.ranges[s] = (0, (1 << n) - 1 if type(n) is int and n < 1 << 16 else None)
        A.draws.append(('bits', s, n))
        wr(r, I(sym(s)))
    reg('urandomb rrandomb', h(urandomb))
    for n in ('mt', 'default', 'lc_2exp', 'lc_2exp_size'):
        M['__gmp_randinit_' + n] = lambda self, name, v, tys, rty, mod: init(v[0], MV('R', tag=(False, plain(it.stack[-1]) if it.stack else '?')), 32)
    for n in ('', '_ui'):
        M['__gmp_randseed' + n] = lambda self, name, v, tys, rty, mod: seed(v)

    def seed(v):
        r = rd(v[0])
        if type(v[1]) is Ptr:
            num(v[1])
        it.store(v[0], MV('R', tag=(True, r.tag[1])), 32)
    M['__gmp_randclear'] = lambda self, name, v, tys, rty, mod: clear(v[0], 32)

    # import / export
    def sizeinbase(p, base):
        v = num(p)
        n = A.bitsize(v) if base == 2 else None
        if n is None:
            raise Unsupported('mpz_sizeinbase of a value of unknown size')
        return n

    def bitsize(v):
        if v.k == 'I' and isconst(v.p):
            return max(1, abs(cval(v.p)).bit_length())
        return A.sizes.get(v.key())
    A.bitsize = bitsize
    A.sizes = {}
    A.bytes = {}
    reg('sizeinbase', h(sizeinbase))

    def bytesof(v):
        """big-endian bytes without leading zero bytes"""
        if v.k == 'I' and isconst(v.p):
            c = cval(v.p)
            return list(c.to_bytes((c.bit_length() + 7) // 8, 'big'))
        b = A.bytes.get(v.key())
        if b is None:
            raise Unsupported('mpz_export of a value of unknown size')
        return b

    def export(dst, cnt, order, size, endian, nails, p):
        b = bytesof(num(p))
        if nails or type(order) is not int or type(size) is not int:
            raise Unsupported('mpz_export mode')
        order -= 0
        n = (len(b) + size - 1) // size
        b = [0] * (n * size - len(b)) + b
        words = [b[i * size:(i + 1) * size] for i in range(n)]
        if order in (0xffffffff, -1):
            words.reverse()
        little = endian in (0, 0xffffffff, -1)
        if little:
            words = [w[::-1] for w in words]
        for i, c in enumerate([c for w in words for c in w]):
            it.store(it.addp(dst, i), c, 1)
        if not isnull(cnt):
            it.store(cnt, n, 8)
        return dst
    reg('export', h(export))

    def imp(p, n, order, size, endian, nails, src):
        if nails or type(n) is not int:
            raise Unsupported('mpz_import mode')
        b = it.rd_bytes(src, n * size)
        words = [b[i * size:(i + 1) * size] for i in range(n)]
        if order in (0xffffffff, -1):
            words.reverse()
        if endian in (0, 0xffffffff, -1):
            words = [w[::-1] for w in words]
        r = {}
        bb = [c for w in words for c in w]
        for i, c in enumerate(bb):
            if type(c) is tuple and x.undef_leaf(c):
                it.report('uninit-mpz', 'mpz_import reads memory that was never written')
            r = padd(r, A.wordpoly(c, 1 << (8 * (len(bb) - 1 - i))))
        wr(p, I(r))
    reg('import', h(imp))

    def tstbit(p, n):
        v = num(p)
        pl = A.toint(v)
        lo, hi = A.prange(pl)
        if type(n) is not int:
            raise Unsupported('symbolic bit index')
        if all(len(m) == 1 and m[0][0][0] == 'bit' and c > 0 and c & (c - 1) == 0 for m, c in pl.items()) and len(set(pl.values())) == len(pl):
            for m, c in pl.items():
                if c == 1 << n:
                    return x.d.norm((m[0][0][1],) + (0,) * 31)
            return 0
        if isconst(pl):
            return cval(pl) >> n & 1
        if A.scripting and n < 2 and lo is not None and lo >= 0:
            w = A.mod(v, const(4))
            if A.prange(A.toint(w)) == (0, 3):
                return 1 if n == 0 else scripted_word(w) >> 1
        raise Unsupported('mpz_tstbit')
    reg('tstbit', h(tstbit))
    reg('get_ui', h(lambda p: getui(num(p))))

    def getui(v):
        pl = A.toint(v)
        if isconst(pl):
            return abs(cval(pl)) & ((1 << 64) - 1)
        out = [0] * 64
        for m, c in pl.items():
            if not (len(m) == 1 and m[0][0][0] == 'bit' and c > 0 and c & (c - 1) == 0):
                return word(v)
            i = c.bit_length() - 1
            if i < 64:
                if out[i]:
                    return word(v)
                out[i] = m[0][0][1]
        return x.d.norm(tuple(out))
    A.rd = rd
    A.put = put
    return A


# ------------------------------------------------------------------------------------------------ helpers for scenarios
def var(x, name, v, n=16):
    """a GMP variable of the caller holding v (None: initialised to 0)"""
    b = x.undef(name, n, 'mpz')
    x.it.store(b.ptr, v if v is not None else I({}), n)
    b.init = [v]
    return b


def get(x, b):
    o = x.it.mem.o[b.ptr.obj]
    c = o.cells.get(b.ptr.off)
    return c[0] if c is not None else None


def where(x, b):
    c = x.it.mem.o[b.ptr.obj].cells.get(b.ptr.off)
    return c[3] if c is not None else '?'
