"""Value-graph domain: a canonical normal form for bit-vector values.

A bit is an integer id 2*k+neg; k indexes an interned XOR-form (frozenset of atoms, i.e. an element of the
GF(2) vector space over the atoms), neg adds the constant 1.  Bit 0 is FALSE, 1 is TRUE.
A word is a Python int when constant, otherwise a tuple of bit ids, least significant first.

Atoms:
  ('v', name, i)            input variable bit
  ('m', frozenset)          product of prime atoms (ANF monomial)
  ('c', frozenset of bits)  opaque conjunction of bit forms
  ('s', T, c, i)            bit i of the integer linear combination T of words plus the constant c mod 2^(i+1)
                            (bit i of a sum depends on the constant only modulo 2^(i+1), so sums of different widths agree)
  ('p', P, i)               bit i of a product of two words
  ('t', col, idx)           Boolean function (column) of an index tuple: a lookup table column, reduced
                            modulo the linear span of all columns seen (so T-tables, S-boxes, xtime agree)
  ('x', content, idx, i)    bit i of a selection from a sequence of non-constant words
  ('o', name, args, i)      opaque operation
  ('u', ...)                undefined (uninitialised) bit
"""


class Dom:
    def __init__(self, max_support=3):
        self.forms = [frozenset()]
        self.form_id = {frozenset(): 0}
        self.atoms = []
        self.atom_id = {}
        self.primes = []          # atom -> frozenset of prime atoms
        self.xmemo = {}
        self.amemo = {}
        self.fmemo = {}
        self.words = {}
        self.wordlist = []
        self.wlen = []
        self.low = []
        self.S = {}
        self.Tlist = []
        self.Smax = []
        self.Sbits = {}
        self.cmemo = {}
        self.stable = set()
        self.active = set()
        self.origin = {}          # word -> (T, const): sums whose bits were given a simpler form
        self.Pid = {}
        self.Plist = []
        self.cols = {}            # arity -> ColBasis
        self.contents = {}
        self.clist = []
        self.max_support = max_support
        self.nops = 0

    # ---------- atoms and forms
    def atom(self, desc, primes=None):
        a = self.atom_id.get(desc)
        if a is None:
            a = len(self.atoms)
            self.atom_id[desc] = a
            self.atoms.append(desc)
            self.primes.append(primes if primes is not None else frozenset((a,)))
        return a

    def form(self, fs):
        k = self.form_id.get(fs)
        if k is None:
            k = len(self.forms)
            self.form_id[fs] = k
            self.forms.append(fs)
        return k

    def abit(self, desc):
        a = self.atom_id.get(desc)
        if a is None:
            a = self.atom(desc)
        return 2 * self.form(frozenset((a,)))

    def var(self, name, w, base=0):
        return tuple(self.abit(('v', name, base + i)) for i in range(w))

    def undef(self, tag, w):
        return tuple(self.abit(('u', tag, i)) for i in range(w))

    def xor1(self, x, y):
        kx = x >> 1
        ky = y >> 1
        n = (x ^ y) & 1
        if kx == ky:
            return n
        if kx == 0:
            return ky << 1 | n
        if ky == 0:
            return kx << 1 | n
        if kx > ky:
            kx, ky = ky, kx
        r = self.xmemo.get((kx, ky))
        if r is None:
            fs = self.forms[kx] ^ self.forms[ky]
            r = self.form_id.get(fs)
            if r is None:
                r = len(self.forms)
                self.form_id[fs] = r
                self.forms.append(fs)
            self.xmemo[(kx, ky)] = r
        return r << 1 | n

    def xorset(self, atoms, neg):
        return 2 * self.form(frozenset(atoms)) | neg

    def and1(self, x, y):
        if x < 2:
            return y if x else 0
        if y < 2:
            return x if y else 0
        if x == y:
            return x
        if x == y ^ 1:
            return 0
        if x > y:
            x, y = y, x
        r = self.amemo.get((x, y))
        if r is None:
            r = self._and(x, y)
            self.amemo[(x, y)] = r
        return r

    def support(self, k):
        s = frozenset()
        for a in self.forms[k]:
            s |= self.primes[a]
        return s

    def _long(self, x):
        """a single conjunction of many factors: multiplied as a whole, never distributed over a sum"""
        if x & 1:
            return False
        f = self.forms[x >> 1]
        if len(f) != 1:
            return False
        d = self.atoms[next(iter(f))]
        return d[0] == 'c' and len(d[1]) > 12

    def _and(self, x, y):
        fx = self.forms[x >> 1]
        fy = self.forms[y >> 1]
        if self._long(x) or self._long(y):
            return self.conj((x, y))
        if len(fx) <= 15 and len(fy) <= 15:
            sup = self.support(x >> 1) | self.support(y >> 1)
            if len(sup) <= self.max_support:
                acc = set()
                neg = 0
                tx = [self.primes[a] for a in fx] + ([frozenset()] if x & 1 else [])
                ty = [self.primes[a] for a in fy] + ([frozenset()] if y & 1 else [])
                for p in tx:
                    for q in ty:
                        u = p | q
                        if not u:
                            neg ^= 1
                        elif u in acc:
                            acc.remove(u)
                        else:
                            acc.add(u)
                at = []
                rest = neg
                for u in acc:
                    if len(u) == 1:
                        at.append(next(iter(u)))
                    elif any(self.atoms[p][0] == 'c' for p in u):
                        rest = self.xor1(rest, self.conj([2 * self.form(frozenset((p,))) for p in u]))
                    else:
                        at.append(self.atom(('m', u), u))
                return self.xor1(self.xorset(at, 0), rest)
        return self.conj((x, y))

    def factors(self, x):
        f = self.forms[x >> 1]
        if len(f) == 1 and not x & 1:
            d = self.atoms[next(iter(f))]
            if d[0] == 'c':
                return d[1]
            if d[0] == 'm':
                return frozenset(2 * self.form(frozenset((p,))) for p in d[1])
            return frozenset((x,))
        if len(f) > 15:
            return frozenset((x,))
        r = self.fmemo.get(x)
        if r is None:
            self.fmemo[x] = frozenset((x,))
            r = self._factorise(x)
            self.fmemo[x] = r
        return r

    def same1(self, x, y):
        """equal up to multiplying out products"""
        if x == y:
            return True
        if x < 2 or y < 2:
            return False
        for n in (0, 1):
            f = self.factors(x ^ n)
            if len(f) > 1 and f == self.factors(y ^ n):
                return True
        return False

    def _factorise(self, x):
        """Factors of a form that was multiplied out: the common factors of its terms, then the affine factors of
        the quotient (a Boolean function of at most four variables).  1^a^b^ab is (1^a)(1^b); ct^cs^c is c(t^s^1)."""
        one = frozenset((x,))
        if not any(self.atoms[a][0] in 'mc' for a in self.forms[x >> 1]):
            return one
        terms = [frozenset()] if x & 1 else []
        for a in self.forms[x >> 1]:
            d = self.atoms[a]
            if d[0] == 'c':
                terms.append(d[1])
            elif d[0] == 'm':
                terms.append(frozenset(2 * self.form(frozenset((p,))) for p in d[1]))
            else:
                terms.append(frozenset((2 * self.form(frozenset((a,))),)))
        g = terms[0]
        for t in terms:
            g &= t
        terms = [t - g for t in terms]
        vs = sorted({b >> 1 for t in terms for b in t})
        n = len(vs)
        if n > 4:
            if not g:
                return one
            q = 0
            for t in terms:
                q = self.xor1(q, self.conj(t))
            return g | frozenset((q,))
        at = {k: i for i, k in enumerate(vs)}
        on = []
        for p in range(1 << n):
            v = 0
            for t in terms:
                v ^= all((p >> at[b >> 1] ^ b) & 1 for b in t)
            if v:
                on.append(p)
        if not on:
            return frozenset((0,))
        imp = []
        for m in sorted(range(1, 1 << n), key=lambda m: (bin(m).count('1'), m)):
            c = {bin(m & p).count('1') & 1 for p in on}
            if len(c) == 1:
                imp.append((m, c.pop()))
        basis = []
        red = []              # echelon form, used for independence and for the pivots
        for m, c in imp:
            rm, rc = m, c
            for pm, pc, pv in red:
                if rm >> pv & 1:
                    rm ^= pm
                    rc ^= pc
            if rm:
                pv = rm.bit_length() - 1
                red = [(a ^ rm, b ^ rc, e) if a >> pv & 1 else (a, b, e) for a, b, e in red] + [(rm, rc, pv)]
                basis.append((m, c))
        if not basis and not g:
            return one
        out = set(g)
        for m, c in basis:
            b = c ^ 1
            for i in range(n):
                if m >> i & 1:
                    b = self.xor1(b, 2 * vs[i])
            out.add(b)
        if len(on) != 1 << (n - len(basis)):
            ons = set(on)
            piv = {pv for _, _, pv in red}
            free = [i for i in range(n) if i not in piv]
            q = 0
            val = []
            for z in range(1 << len(free)):
                p = sum(1 << i for j, i in enumerate(free) if z >> j & 1)
                for pm, pc, pv in red:
                    if (bin(pm & p & ~(1 << pv)).count('1') & 1) ^ pc:
                        p |= 1 << pv
                val.append(int(p in ons))
            for j in range(len(free)):
                for z in range(1 << len(free)):
                    if z >> j & 1:
                        val[z] ^= val[z ^ (1 << j)]
            for z, v in enumerate(val):
                if v:
                    q = self.xor1(q, self.conj([2 * vs[i] for j, i in enumerate(free) if z >> j & 1]))
            out.add(q)
        res = frozenset()
        for b in out:
            if b > 1:
                res |= frozenset((b,)) if b == x else self.factors(b)
            elif b == 0:
                return frozenset((0,))
        return res

    def conj(self, bits):
        """opaque canonical conjunction of a collection of bits"""
        s = frozenset()
        for b in bits:
            if b < 2:
                if b == 0:
                    return 0
                continue
            s |= self.factors(b)
        if not s:
            return 1
        if 0 in s:
            return 0
        for b in s:
            if b ^ 1 in s:
                return 0
        if len(s) == 1:
            return next(iter(s))
        for _ in range(8):
            t = self._complete(s)
            if t is None:
                return 0
            if t == s:
                break
            s = t
        s = self._sums(s)
        if s is None:
            return 0
        if len(s) < 2:
            return next(iter(s)) if s else 1
        sup = set()
        small = True
        for b in s:
            if len(self.forms[b >> 1]) > 7:
                small = False
                break
            sup |= self.support(b >> 1)
            if len(sup) > self.max_support:
                small = False
                break
        if small and s not in self.active:
            self.active.add(s)
            it = iter(s)
            r = next(it)
            for b in it:
                r = self.and1(r, b)
            self.active.discard(s)
            return r
        return self.abit(('c', s))

    def _complete(self, s):
        """unit propagation: a factor that equals NOT(conj(T)) with T minus other factors a single literal.
        Used to keep nested decisions canonical: drop a negated conjunction already implied by the others."""
        out = set(s)
        for b in s:
            if b & 1:
                f = self.forms[b >> 1]
                if len(f) == 1:
                    d = self.atoms[next(iter(f))]
                    if d[0] == 'c':
                        rest = d[1] - s
                        if not rest:
                            return None
                        if any((q ^ 1) in s or q & 1 and self.factors(q ^ 1) <= s for q in d[1]):
                            out.discard(b)
                        elif len(rest) < len(d[1]):
                            out.discard(b)
                            out.add(self.conj(rest) ^ 1)
                    continue
            f = self.forms[b >> 1]
            if 1 < len(f) <= 4:
                # a sum with conjunctions: take their factors that are known to hold as 1
                r = b & 1
                hit = False
                for k in f:
                    d = self.atoms[k]
                    if d[0] == 'c':
                        rest = d[1] - s
                        if any((q ^ 1) in s for q in rest):
                            hit = True
                            continue
                        if len(rest) < len(d[1]):
                            hit = True
                            r = self.xor1(r, self.conj(rest) if rest else 1)
                            continue
                    r = self.xor1(r, 2 * self.form(frozenset((k,))))
                if hit:
                    if r == 0:
                        return None
                    out.discard(b)
                    if r > 1:
                        out.add(r)
        if out != s:
            s2 = frozenset()
            for b in out:
                s2 |= self.factors(b)
            if 0 in s2:
                return None
            for b in s2:
                if b ^ 1 in s2:
                    return None
            return s2
        return s

    def _sums(self, s):
        """conjunctions over the bits of one sum: a sum of non-negative terms is zero when all of them are, a difference
        is zero when its two words agree; bits of a sum whose words are all known are known"""
        g = None
        for b in s:
            f = self.forms[b >> 1]
            if len(f) == 1:
                for a in f:
                    e = self.atoms[a]
                    if e[0] == 's' and len(self.Tlist[e[1]]) <= 64:
                        if g is None:
                            g = {}
                        g.setdefault(e[1], []).append((e[3], e[2], b))
        if g is None:
            return s
        out = None
        for T, l in g.items():
            items = self.Tlist[T]
            base = s if out is None else out
            # all words known?
            val = 0
            nb = 0
            for wd, c in items:
                for i, b in enumerate(self.wordlist[wd]):
                    if b < 2:
                        val += b * (c << i)
                        continue
                    fb = self.factors(b)
                    if fb <= base:
                        val += c << i
                    elif not self.factors(b ^ 1) <= base and not any(q ^ 1 in base for q in fb):
                        val = None
                        break
                if val is None:
                    break
            if val is not None:
                for i, c, b in l:
                    if (val + c) >> i & 1 ^ b & 1:
                        if out is None:
                            out = set(s)
                        out.discard(b)
                    else:
                        return None
                continue
            m, c, b = max(l)
            c |= ((b & 1) ^ 1) << m
            m += 1
            diff = len(items) == 2 and sorted(co for _, co in items) == [-1, 1]
            mx = self.smax(T)
            if diff:
                X, Y = (self.wordlist[wd] for wd, _ in items)
                q = [self.xor1(x, y) ^ 1 for x, y in zip(X + (0,) * (len(Y) - len(X)), Y + (0,) * (len(X) - len(Y)))]
                if all(b in base or b == 1 for b in q):
                    for i, c, b in l:
                        if not b & 1:       # c < 2^i: the bit is 0
                            return None
                        if out is None:
                            out = set(s)
                        out.discard(b)
                    continue
                if max(len(X), len(Y)) > m or c:
                    continue
            elif mx is None:
                continue
            else:
                m = max(m, (mx + c).bit_length())
            t = self.sumbits(T, c, m)
            if any(b and (b == 1 or not self.factors(b ^ 1) <= base) for b in t):
                continue
            if not diff:
                if c:
                    return None
                q = [b ^ 1 for wd, _ in items for b in self.wordlist[wd] if b]
            if out is None:
                out = set(s)
            for b in t:
                if b:
                    out -= self.factors(b ^ 1)
            out.update(b for b in q if b != 1)
            if 0 in out:
                return None
        if out is None:
            return s
        s2 = frozenset()
        for b in out:
            s2 |= self.factors(b)
        if 0 in s2:
            return None
        for b in s2:
            if b ^ 1 in s2:
                return None
        return self._complete(s2)

    def or1(self, x, y):
        return self.and1(x ^ 1, y ^ 1) ^ 1

    def ite1(self, c, a, b):
        if c < 2:
            return a if c else b
        if a == b:
            return a
        if c & 1:
            c ^= 1
            a, b = b, a
        if b < 2:
            if a < 2:
                return c ^ b if a != b else a
            return self.and1(c, a) if b == 0 else self.or1(c ^ 1, a)
        if a < 2:
            return self.and1(c ^ 1, b) if a == 0 else self.or1(c, b)
        return self.xor1(b, self.and1(c, self.xor1(a, b)))

    # ---------- words
    def norm(self, t):
        if max(t) < 2:
            r = 0
            for i, b in enumerate(t):
                if b:
                    r |= 1 << i
            return r
        return t

    def bits(self, v, w):
        if type(v) is tuple:
            return v
        return tuple((v >> i) & 1 for i in range(w))

    def xor(self, a, b, w):
        ta = type(a) is tuple
        tb = type(b) is tuple
        if not ta and not tb:
            return a ^ b
        if not ta:
            a, b = b, a
            tb = False
        if not tb and type(b) is not tuple:
            return tuple([x ^ ((b >> i) & 1) for i, x in enumerate(a)])
        x1 = self.xor1
        r = tuple([x1(x, y) for x, y in zip(a, b)])
        if max(r) < 2:
            return self.norm(r)
        return r

    def and_(self, a, b, w):
        ta = type(a) is tuple
        tb = type(b) is tuple
        if not ta and not tb:
            return a & b
        if not ta:
            a, b = b, a
            tb = False
        if type(b) is not tuple:
            if b == 0:
                return 0
            return self.norm(tuple([x if (b >> i) & 1 else 0 for i, x in enumerate(a)]))
        f = self.and1
        return self.norm(tuple([f(x, y) for x, y in zip(a, b)]))

    def or_(self, a, b, w):
        ta = type(a) is tuple
        tb = type(b) is tuple
        if not ta and not tb:
            return a | b
        if not ta:
            a, b = b, a
        if type(b) is not tuple:
            return self.norm(tuple([1 if (b >> i) & 1 else x for i, x in enumerate(a)]))
        f = self.or1
        return self.norm(tuple([y if x == 0 else x if y == 0 else f(x, y) for x, y in zip(a, b)]))

    def not_(self, a, w):
        return self.xor(a, (1 << w) - 1, w)

    def shl(self, a, n, w):
        if n >= w:
            return 0
        if type(a) is not tuple:
            return (a << n) & ((1 << w) - 1)
        return self.norm((0,) * n + a[:w - n])

    def lshr(self, a, n, w):
        if n >= w:
            return 0
        if type(a) is not tuple:
            return a >> n
        return self.norm(a[n:] + (0,) * n)

    def ashr(self, a, n, w):
        if n >= w:
            n = w - 1
        if type(a) is not tuple:
            s = a >> (w - 1)
            r = a >> n
            if s:
                r |= ((1 << n) - 1) << (w - n)
            return r
        return self.norm(a[n:] + (a[-1],) * n)

    def rotl(self, a, n, w):
        n %= w
        if n == 0:
            return a
        return self.or_(self.shl(a, n, w), self.lshr(a, w - n, w), w)

    def trunc(self, a, w):
        if type(a) is not tuple:
            return a & ((1 << w) - 1)
        if len(a) == w:
            return a
        return self.norm(a[:w])

    def zext(self, a, w):
        if type(a) is not tuple:
            return a
        return a + (0,) * (w - len(a))

    def sext(self, a, w0, w):
        if type(a) is not tuple:
            if a >> (w0 - 1):
                return a | (((1 << (w - w0)) - 1) << w0)
            return a
        return a + (a[-1],) * (w - len(a))

    def slice(self, a, lo, n):
        if type(a) is not tuple:
            return (a >> lo) & ((1 << n) - 1)
        return self.norm(a[lo:lo + n])

    def concat(self, parts):
        """parts: [(value,width)] least significant first"""
        if all(type(v) is not tuple for v, w in parts):
            r = 0
            o = 0
            for v, w in parts:
                r |= v << o
                o += w
            return r
        out = ()
        for v, w in parts:
            out += self.bits(v, w)
        return out

    def ite(self, c, a, b, w):
        """c: bit id or int 0/1"""
        if c < 2:
            return a if c else b
        if a == b:
            return a
        if w > 1 and (type(a) is tuple or type(b) is tuple):
            pa = self._sp(a) if type(a) is tuple else None
            pb = self._sp(b) if type(b) is tuple else None
            if pa is not None or pb is not None:
                # b + (a-b)*c when the difference is constant
                terms = {}
                k = self.lin(a, w, terms, 0, 1)
                k = self.lin(b, w, terms, k, -1)
                if all(not v & ((1 << w) - 1) for v in terms.values()):
                    terms = {}
                    k = self.lin((c,), w, terms, 0, k & ((1 << w) - 1))
                    return self._build(terms, self.lin(b, w, terms, k, 1), w)
        a = self.bits(a, w)
        b = self.bits(b, w)
        f = self.ite1
        return self.norm(tuple([f(c, x, y) for x, y in zip(a, b)]))

    def wid(self, t):
        k = self.words.get(t)
        if k is None:
            k = len(self.wordlist)
            self.words[t] = k
            self.wordlist.append(t)
            self.wlen.append(len(t))
            self.low.append(t[0] if t else 0)
        return k

    # ---------- modular sums
    def sumbits(self, T, const, n):
        const &= (1 << n) - 1
        r = self.Sbits.get((T, const, n))
        if r is None:
            mx = self.smax(T)
            lst = []
            wl = self.wlen
            items = self.Tlist[T]
            if len(items) <= 3:
                fs = self.few(items)
                if fs is not None:
                    r = self.tabulate(items, fs, const, n)
                    self.Sbits[(T, const, n)] = r
                    self.remember(r, T, const)
                    return r
            # a term that is itself a sum modulo 2^L stays closed above bit L but is expanded below it
            # (and bits 0..31 of any wider sum are those of the 32-bit sum)
            L = 32 if n > 32 else 0
            for wd, co in items:
                k = wl[wd]
                if k >= n:
                    continue
                v = self.wordlist[wd]
                k += (co & -co).bit_length() - 1
                if L < k < n and self._sp(v) is not None:
                    L = k
            if L:
                t2 = {}
                k = const
                for wd, co in items:
                    k = self._lin(self.wordlist[wd], L, t2, k, co)
                lst.extend(self.bits(self._build(t2, k, L), L))
            single = None
            if len(items) == 1:
                (wd, co), = items
                if co == 1:
                    single = wd
            closed = False
            for i in range(L, n):
                c = const & ((2 << i) - 1)
                if mx is not None and not (mx + c) >> i:
                    lst.append(0)
                elif mx is not None and mx + c == 1 << i and len(items) <= 64:
                    # only the largest value of the sum reaches this bit
                    lst.append(self.conj([b for wd, co in items for b in self.wordlist[wd]]))
                    closed = True
                elif single is not None and i >= wl[single]:
                    lst.append(self.carry(T, single, c, i))
                    closed = True
                else:
                    # the constant's bit i only toggles
                    lst.append(self.abit(('s', T, c & ((1 << i) - 1), i)) ^ (c >> i & 1))
            r = self.Sbits[(T, const, n)] = tuple(lst)
            if closed:
                self.remember(r, T, const)
        return r

    def remember(self, r, T, const):
        if max(r) < 2:
            return
        n = len(r)
        while r[n - 1] == 0:
            n -= 1
        if n < 2:
            return
        # no cycles: a word is never expanded into terms that lead back to it or to its complement
        todo = [wd for wd, _ in self.Tlist[T]]
        seen = set()
        while todo:
            wd = todo.pop()
            if wd in seen:
                continue
            seen.add(wd)
            v = self.wordlist[wd]
            if v[:n] == r[:n] or len(v) <= len(r) and all(x == y ^ 1 for x, y in zip(v, r)):
                return
            for v in (v, tuple([x ^ 1 for x in v])):
                o = self.origin.get(v)
                if o is not None:
                    todo += [wd for wd, _ in self.Tlist[o[0]]]
        self.origin.setdefault(r, (T, const))
        if n < len(r):
            self.origin.setdefault(r[:n], (T, const & ((1 << n) - 1)))

    def carry(self, T, wd, c, i):
        """bit i of X + c for a word X of at most i bits"""
        X = self.wordlist[wd]
        n = len(X)
        lo = c & ((1 << n) - 1)
        hi = c >> n
        if lo == 0:
            return hi >> (i - n) & 1
        b0 = hi >> (i - n) & 1
        b1 = (hi + 1) >> (i - n) & 1
        if b0 == b1:
            return b0
        # X + lo >= 2^n  <=>  X >= K
        K = (1 << n) - lo
        if K & (K - 1) == 0:
            r = self.conj([b ^ 1 for b in X[K.bit_length() - 1:]]) ^ 1
        elif lo & (lo - 1) == 0:
            r = self.conj(X[lo.bit_length() - 1:])
        else:
            tz = (lo & -lo).bit_length() - 1
            if tz:
                Y = X[tz:]
                l2 = 0
                while Y[l2] == 0:
                    l2 += 1
                if l2:
                    # the low bits of Y are zero: round the addend up
                    r = self.bits(self._build({self.wid(Y[l2:]): 1}, (lo >> tz) >> l2, n - tz - l2 + 1), n - tz - l2 + 1)[n - tz - l2]
                else:
                    r = self.bits(self._build({self.wid(Y): 1}, lo >> tz, n - tz + 1), n - tz + 1)[n - tz]
            else:
                r = self.abit(('s', T, lo, n))          # lo < 2^n
        return r ^ b0

    def few(self, items):
        """the distinct bit forms of all terms when there are at most max_support (3) of them"""
        fs = set()
        lim = min(3, self.max_support)
        for wd, c in items:
            v = self.wordlist[wd]
            if len(v) > 8 and len(fs) < lim and v[0] >> 1 != v[1] >> 1 and v[1] >> 1 != v[2] >> 1 and v[2] >> 1 != v[3] >> 1 and 0 not in v[:4]:
                return None
            for b in v:
                if b > 1:
                    fs.add(b >> 1)
                    if len(fs) > lim:
                        return None
        return sorted(fs)

    def tabulate(self, items, fs, const, n):
        """the bits of a sum that depends on few bit forms, as polynomials over them"""
        at = {k: i for i, k in enumerate(fs)}
        m = len(fs)
        val = []
        for p in range(1 << m):
            t = const
            for wd, c in items:
                x = 0
                for i, b in enumerate(self.wordlist[wd]):
                    if b == 1 or b > 1 and (p >> at[b >> 1] ^ b) & 1:
                        x |= 1 << i
                t += c * x
            val.append(t & ((1 << n) - 1))
        # Moebius transform: coefficient words of the monomials
        for j in range(m):
            for p in range(1 << m):
                if p >> j & 1:
                    val[p] ^= val[p ^ (1 << j)]
        mono = [1] * (1 << m)
        for p in range(1, 1 << m):
            j = p.bit_length() - 1
            mono[p] = self.and1(mono[p ^ (1 << j)], 2 * fs[j]) if p != 1 << j else 2 * fs[j]
        out = []
        for i in range(n):
            b = 0
            for p in range(1 << m):
                if val[p] >> i & 1:
                    b = self.xor1(b, mono[p])
            out.append(b)
        return tuple(out)

    def _sp(self, t):
        """(negated, T, const) when t, or its complement, is exactly the low bits of a linear combination"""
        o = self.origin.get(t)
        if o is not None:
            return (0,) + o
        n = len(t)
        k = n - 1
        b = t[k]
        opts = (0, 1)
        if b < 2:
            opts = (b,)
            z = b
            while k >= 0 and t[k] == z:
                k -= 1
            if k < 0:
                return None
            b = t[k]
        if b > 1:
            f = self.forms[b >> 1]
            if len(f) == 1:
                e = self.atoms[next(iter(f))]
                if e[0] == 's' and e[3] == k:
                    for neg in opts:
                        c = e[2] | ((b & 1) ^ neg) << k
                        q = self.sumbits(e[1], c, n)
                        if neg:
                            q = tuple([x ^ 1 for x in q])
                        if q == t:
                            return neg, e[1], c
                    return None
        if self.origin:
            t = tuple([x ^ 1 for x in t])
            o = self.origin.get(t)
            if o is not None:
                return (1,) + o
        return None

    def sum_prefix(self, t):
        """(terms, const mod 2^len(t)) when t is exactly the low bits of a linear combination"""
        s = self._sp(t)
        if s is None:
            return None
        neg, T, c = s
        if not neg:
            return self.Tlist[T], c
        return [(wd, -co) for wd, co in self.Tlist[T]], (-1 - c) & ((1 << len(t)) - 1)

    def common(self, a, b):
        """number of low bits two words share"""
        r = self.cmemo.get((a, b))
        if r is None:
            x, y = self.wordlist[a], self.wordlist[b]
            n = max(len(x), len(y))
            r = 0
            while r < n and (x[r] if r < len(x) else 0) == (y[r] if r < len(y) else 0):
                r += 1
            self.cmemo[(a, b)] = r
        return r

    def mkT(self, terms):
        key = frozenset(terms.items())
        s = self.S.get(key)
        if s is None:
            s = len(self.Tlist)
            self.S[key] = s
            self.Tlist.append(key)
            self.Smax.append(0)
        return s

    def smax(self, T):
        mx = self.Smax[T]
        if mx == 0:
            for wd, c in self.Tlist[T]:
                if c < 0:
                    mx = None
                    break
                mx += c * ((1 << self.wlen[wd]) - 1)
            self.Smax[T] = mx
        return mx

    def lin(self, v, w, terms, const, coef):
        """accumulate coef*v (mod 2^w) into terms; returns const"""
        if type(v) is not tuple:
            return const + coef * v
        # trim high zeros and low zeros
        hi = len(v)
        while v[hi - 1] == 0:
            hi -= 1
        lo = 0
        while v[lo] == 0:
            lo += 1
        coef <<= lo
        v = v[lo:hi]
        return self._lin(v, w, terms, const, coef)

    def _lin(self, v, w, terms, const, coef):
        tz = (coef & -coef).bit_length() - 1
        if tz >= w:
            return const
        n = w - tz
        if len(v) > n:
            v = v[:n]
            hi = n
            while hi and v[hi - 1] == 0:
                hi -= 1
            v = v[:hi]
            if not v:
                return const
        v = tuple(v)
        if max(v) < 2:
            return const + coef * self.norm(v)
        s = self._sp(v) if len(v) > 1 else None
        if s is not None:
            neg, T, c = s
            mx = self.smax(T)
            if len(v) == n or (mx is not None and not (mx + c) >> len(v)):
                st = self.stable
                tt = self.Tlist[T]
                if neg:
                    const += coef * ((1 << len(v)) - 1)
                    coef = -coef
                for wd, cc in tt:
                    cc *= coef
                    tz = (cc & -cc).bit_length() - 1
                    if (wd, w - tz) in st:
                        terms[wd] = terms.get(wd, 0) + cc
                    else:
                        const = self._lin(self.wordlist[wd], w, terms, const, cc)
                return const + coef * c
        if 1 in v:
            # constant one bits go to the constant
            for i, b in enumerate(v):
                if b == 1:
                    const += coef << i
            v = tuple([0 if b == 1 else b for b in v])
            hi = len(v)
            while v[hi - 1] == 0:
                hi -= 1
            lo = 0
            while v[lo] == 0:
                lo += 1
            v = v[lo:hi]
            coef <<= lo
        if len(v) > 3 or len(v) > 1 and v[0] >> 1 == v[1] >> 1:
            m = len(set([b >> 1 for b in v if b]))
            if m <= 3 and m < len(v) - v.count(0):
                # few distinct bits: each becomes a term of its own
                co = {}
                for i, b in enumerate(v):
                    if b:
                        if b & 1:
                            const += coef << i
                            co[b >> 1] = co.get(b >> 1, 0) - (coef << i)
                        else:
                            co[b >> 1] = co.get(b >> 1, 0) + (coef << i)
                for f, c in co.items():
                    if c:
                        const = self._lin((2 * f,), w, terms, const, c)
                return const
        if v[0] & 1 and len(v) >= w - ((coef & -coef).bit_length() - 1):
            # ~x = -x - 1
            return self._lin(tuple([b ^ 1 for b in v]), w, terms, const + coef * ((1 << len(v)) - 1), -coef)
        k = self.wid(v)
        terms[k] = terms.get(k, 0) + coef
        self.stable.add((k, w - ((coef & -coef).bit_length() - 1)))
        return const

    def _build(self, terms, const, w):
        # re-linearise (coefficients may need retrimming)
        t2 = {}
        st = self.stable
        low = self.low
        wl = self.wlen
        M = 1 << w
        H = M >> 1
        for wd, c in terms.items():
            if c & 1:
                if low[wd] & 1 and wl[wd] >= w:
                    const = self._lin(self.wordlist[wd], w, t2, const, c)
                else:
                    t2[wd] = t2[wd] + c if wd in t2 else c
            elif c == 0:
                continue
            elif (wd, w - ((c & -c).bit_length() - 1)) in st:
                t2[wd] = t2.get(wd, 0) + c
            else:
                const = self._lin(self.wordlist[wd], w, t2, const, c)
        # words u, v that agree on their low n bits satisfy 2^(w-n)*u = 2^(w-n)*v modulo 2^w: the coefficient of the
        # lower ranked word is reduced modulo 2^(w-n) in favour of the highest ranked word sharing those bits
        shared = len(set([low[wd] for wd in t2])) != len(t2)
        if shared:
            first = {}
            for wd, c in t2.items():
                if c:
                    b = low[wd]
                    if b in first:
                        first[b].append(wd)
                    else:
                        first[b] = [wd]
            merged = False
            for b, l in first.items():
                if len(l) == 1:
                    continue
                l.sort(key=lambda k: (-wl[k], k))
                for i in range(len(l) - 1, 0, -1):
                    wd = l[i]
                    c = t2[wd]
                    best = 0
                    for j in range(i):
                        n = self.common(wd, l[j])
                        if n > best:
                            best = n
                            u = l[j]
                    if best >= w:
                        q = c
                    else:
                        q = c - (c & ((1 << (w - best)) - 1))
                    if q:
                        t2[u] += q
                        t2[wd] -= q
                        merged = True
            if merged:
                return self._build(t2, const, w)
        # signed, relative to the modulus
        terms = {}
        for wd, c in t2.items():
            if -H < c <= H:
                if c:
                    terms[wd] = c
            else:
                c %= M
                if c:
                    terms[wd] = c - M if c > H else c
        const %= M
        if const > H:
            const -= M
        if not terms:
            return const % M
        # one sign: a sum and its negation are complements of each other
        lead = None
        for wd, c in terms.items() if not shared else ():
            if c != H and (lead is None or wd < lead):
                lead = wd
        if lead is not None and terms[lead] < 0:
            r = self._build({wd: -c if c != H else H for wd, c in terms.items()}, -1 - const, w)
            if type(r) is not tuple:
                return r ^ (M - 1)
            return tuple([b ^ 1 for b in r])
        # disjoint union of shifted words?
        if len(terms) <= 16 and all(c > 0 and c & (c - 1) == 0 for c in terms.values()):
            out = [0] * w
            ok = True
            cu = const % M
            for i in range(w):
                out[i] = (cu >> i) & 1
            for wd, c in terms.items():
                sh = c.bit_length() - 1
                for j, b in enumerate(self.wordlist[wd]):
                    if b and sh + j < w:
                        o = out[sh + j]
                        if o:
                            if not self.exclusive(o, b):
                                ok = False
                                break
                            b = self.xor1(o, b)
                        out[sh + j] = b
                if not ok:
                    break
            if ok:
                return self.norm(tuple(out))
        # factor common power of two
        tz = w
        for c in terms.values():
            if c & 1:
                tz = 0
                break
            tz = min(tz, (c & -c).bit_length() - 1)
        if tz and const % (1 << tz) == 0:
            r = self._build({k: c >> tz for k, c in terms.items()}, const >> tz, w - tz)
            return self.norm((0,) * tz + self.bits(r, w - tz))
        return self.norm(self.sumbits(self.mkT(terms), const, w))

    def exclusive(self, x, y):
        """the two bits are never set together (small forms only)"""
        if x < 2 or y < 2:
            return x == 0 or y == 0
        if x == y ^ 1:
            return True
        fx = self.forms[x >> 1]
        fy = self.forms[y >> 1]
        if len(fx) > 4 or len(fy) > 4 or len(fx) + len(fy) < 3 and not (x | y) & 1:
            if not (len(fx) == len(fy) == 1 and all(self.atoms[next(iter(f))][0] in 'mc' for f in (fx, fy))):
                return False
        sx = self.support(x >> 1)
        if not any(self.atoms[p][0] == 'c' for p in sx) and not sx & self.support(y >> 1):
            return False
        return self.and1(x, y) == 0

    def add(self, a, b, w):
        if type(a) is not tuple and type(b) is not tuple:
            return (a + b) & ((1 << w) - 1)
        if type(b) is not tuple and b == 0:
            return a
        if type(a) is not tuple and a == 0:
            return b
        terms = {}
        c = self.lin(a, w, terms, 0, 1)
        c = self.lin(b, w, terms, c, 1)
        return self._build(terms, c, w)

    def sub(self, a, b, w):
        if type(a) is not tuple and type(b) is not tuple:
            return (a - b) & ((1 << w) - 1)
        if type(b) is not tuple and b == 0:
            return a
        terms = {}
        c = self.lin(a, w, terms, 0, 1)
        c = self.lin(b, w, terms, c, -1)
        return self._build(terms, c, w)

    def mul(self, a, b, w):
        ta = type(a) is tuple
        tb = type(b) is tuple
        if not ta and not tb:
            return (a * b) & ((1 << w) - 1)
        if not ta:
            a, b = b, a
            ta, tb = True, False
        if not tb:
            if b == 0:
                return 0
            if b >> (w - 1):
                b -= 1 << w
            terms = {}
            c = self.lin(a, w, terms, 0, b)
            return self._build(terms, c, w)

        def trim(v):
            hi = len(v)
            while v[hi - 1] == 0:
                hi -= 1
            lo = 0
            while v[lo] == 0:
                lo += 1
            return v[lo:hi], lo
        a, la = trim(a)
        b, lb = trim(b)
        sh = la + lb
        if sh >= w:
            return 0
        n = w - sh
        a = a[:n]
        b = b[:n]
        if len(a) == 1:
            return self.shl(self.norm(self.zext(tuple(self.and1(a[0], x) for x in b), w)), sh, w)
        if len(b) == 1:
            return self.shl(self.norm(self.zext(tuple(self.and1(b[0], x) for x in a), w)), sh, w)
        k = tuple(sorted((self.wid(a), self.wid(b))))
        if k not in self.Pid:
            self.Pid[k] = len(self.Plist)
            self.Plist.append(k)
        p = self.Pid[k]
        m = min(n, len(a) + len(b))
        # bits i depend only on low i+1 bits of operands, but id is by full operands
        bits = tuple(self.abit(('p', p, i)) for i in range(m)) + (0,) * (n - m)
        return self.norm((0,) * sh + bits)

    def sumall(self, vs, w):
        terms = {}
        c = 0
        for v in vs:
            c = self.lin(v, w, terms, c, 1)
        return self._build(terms, c, w)

    # ---------- opaque
    def opaque(self, name, args, w):
        key = tuple((self.wid(a) if type(a) is tuple else ('k', a)) for a in args)
        return tuple(self.abit(('o', name, key, i)) for i in range(w))

    # ---------- predicates
    def eq(self, a, b, w):
        if type(a) is not tuple and type(b) is not tuple:
            return int(a == b)
        if a == b:
            return 1
        a = self.bits(a, w)
        b = self.bits(b, w)
        fs = []
        for x, y in zip(a, b):
            d = self.xor1(x, y)
            if d == 1:
                return 0
            if d:
                fs.append(d ^ 1)
        if not fs:
            return 1
        return self.conj(fs)

    def umax(self, a, w):
        if type(a) is not tuple:
            return a
        r = 0
        for i, b in enumerate(a):
            if b:
                r |= 1 << i
        return r

    def umin(self, a, w):
        if type(a) is not tuple:
            return a
        r = 0
        for i, b in enumerate(a):
            if b == 1:
                r |= 1 << i
        return r

    def ult(self, a, b, w):
        if type(a) is not tuple and type(b) is not tuple:
            return int(a < b)
        if a == b:
            return 0
        if self.umax(a, w) < self.umin(b, w):
            return 1
        if self.umin(a, w) >= self.umax(b, w):
            return 0
        if type(b) is not tuple:
            if b & (b - 1) == 0:     # a < 2^k
                k = b.bit_length() - 1
                return self.conj([x ^ 1 for x in a[k:]])
        if type(a) is not tuple:
            # a < b  <=> !(b < a+1)
            if (a + 1) & a == 0:
                k = (a + 1).bit_length() - 1
                return self.conj([x ^ 1 for x in b[k:]]) ^ 1
        # carry idiom: (x+y mod 2^w) < y   <=>  bit w of the integer sum
        if type(a) is tuple:
            s = self.sum_prefix(a)
            if s is not None and len(a) == w:
                terms, const = s
                d = dict(terms)
                c0 = const
                cu = c0 % (1 << w)
                if all(c > 0 for c in d.values()):
                    t2 = {}
                    cc = self.lin(b, w, t2, 0, -1)
                    r = dict(d)
                    for k, v in t2.items():
                        r[k] = r.get(k, 0) + v
                    rc = cu + cc
                    # b must equal its linear form as an integer, not only modulo 2^w
                    exact = cc <= 0 and all(v < 0 for v in t2.values()) and \
                        sum(-v * ((1 << len(self.wordlist[k])) - 1) for k, v in t2.items()) - cc < 1 << w
                    if exact and all(v >= 0 for v in r.values()) and rc >= 0:
                        rest = sum(v * ((1 << len(self.wordlist[k])) - 1) for k, v in r.items()) + rc
                        if rest < (1 << w) and self.umax(b, w) < (1 << w):
                            s2 = self._build(d, cu, w + 2)
                            return self.bits(s2, w + 2)[w]
        # a < b  <=>  bit w of the (w+1)-bit difference a - b
        w = max(len(x) if type(x) is tuple else x.bit_length() for x in (a, b))
        terms = {}
        const = 0
        for x, co in ((a, 1), (b, -1)):
            if type(x) is tuple:
                n = len(x)
                while x[n - 1] == 0:
                    n -= 1
                x = x[:n]
                if x[0] & 1 and n == w:
                    const += co * ((1 << n) - 1)
                    co = -co
                    x = tuple([y ^ 1 for y in x])
            const = self.lin(x, w + 1, terms, const, co) if type(x) is not tuple or max(x) > 1 else const + co * self.norm(x)
        return self.bits(self._build(terms, const, w + 1), w + 1)[w]

    def _w(self, a):
        if type(a) is tuple:
            hi = len(a)
            while hi and a[hi - 1] == 0:
                hi -= 1
            return self.wid(a[:hi])
        return ('k', a)

    def slt(self, a, b, w):
        if type(a) is not tuple and type(b) is not tuple:
            H = 1 << (w - 1)
            return int((a ^ H) < (b ^ H))
        sa = a[-1] if type(a) is tuple else a >> (w - 1)
        sb = b[-1] if type(b) is tuple else b >> (w - 1)
        if sa == sb:
            return self.ult(a, b, w)
        if sb == 0 and b == 0:
            return sa
        if sa < 2 and sb < 2:
            return 1 if sa else 0
        if sa == 0 or sb == 0 or sa == 1 or sb == 1:
            pass
        H = 1 << (w - 1)
        return self.ult(self.xor(a, H, w), self.xor(b, H, w), w)

    # ---------- table lookups
    def lookup(self, table, idx, w):
        """table: list of 2^len(idx) ints (w bits); idx: tuple of bits, LSB first"""
        # specialise constant index bits
        sym = []
        consts = 0
        for i, b in enumerate(idx):
            if b < 2:
                consts |= b << i
            else:
                sym.append(i)
        if not sym:
            return table[consts]
        if len(sym) < len(idx):
            nt = []
            for j in range(1 << len(sym)):
                k = consts
                for p, i in enumerate(sym):
                    if (j >> p) & 1:
                        k |= 1 << i
                nt.append(table[k])
            table = nt
            idx = tuple(idx[i] for i in sym)
        cols = columns(tuple(table), w)
        return self.apply_cols(cols, idx)

    def apply_cols(self, cols, idx):
        n = len(idx)
        if n >= 7:
            B = self.cols.get(n)
            if B is None:
                B = self.cols[n] = ColBasis(n)
            return self._cols_sorted(cols, idx, B)
        # canonicalise negations away: index bit i negated -> permute the column
        neg = 0
        for i, b in enumerate(idx):
            if b & 1:
                neg |= 1 << i
        if neg:
            idx = tuple(b & ~1 for b in idx)
            cols = tuple(perm_neg(c, n, neg) for c in cols)
        # canonical order
        order = sorted(range(n), key=lambda i: idx[i])
        srt = tuple(idx[i] for i in order)
        if any(srt[i] == srt[i + 1] for i in range(n - 1)):
            return self._dup_idx(cols, idx)
        if order != list(range(n)):
            to = tuple(order)
            cols = tuple(perm_order(c, n, to) for c in cols)
            idx = srt
        B = self.cols.get(n)
        if B is None:
            B = self.cols[n] = ColBasis(n)
        return self._cols_sorted(cols, idx, B)

    def _cols_sorted(self, cols, idx, B):
        out = []
        n = len(idx)
        small = n <= self.max_support
        for c in cols:
            if small:
                out.append(self._anf(c, idx))
                continue
            aff, basis = B.reduce(c)
            bit = aff >> n & 1
            acc = bit
            for i in range(n):
                if (aff >> i) & 1:
                    acc = self.xor1(acc, idx[i])
            if basis:
                ats = frozenset(self.atom(('t', n, b, idx)) for b in basis)
                acc = self.xor1(acc, 2 * self.form(ats))
            out.append(acc)
        return self.norm(tuple(out))

    def _anf(self, col, idx):
        n = len(idx)
        a = [(col >> i) & 1 for i in range(1 << n)]
        for i in range(n):
            for j in range(1 << n):
                if (j >> i) & 1:
                    a[j] ^= a[j ^ (1 << i)]
        acc = 0
        for j in range(1 << n):
            if a[j]:
                t = 1
                for i in range(n):
                    if (j >> i) & 1:
                        t = self.and1(t, idx[i])
                acc = self.xor1(acc, t)
        return acc

    def _dup_idx(self, cols, idx):
        # merge equal index bits
        uniq = []
        pos = []
        for b in idx:
            if b not in uniq:
                uniq.append(b)
            pos.append(uniq.index(b))
        nc = []
        for c in cols:
            r = 0
            for j in range(1 << len(uniq)):
                k = 0
                for i, p in enumerate(pos):
                    if (j >> p) & 1:
                        k |= 1 << i
                if (c >> k) & 1:
                    r |= 1 << j
            nc.append(r)
        return self.apply_cols(tuple(nc), tuple(uniq))

    def content(self, vals, w):
        key = (w,) + tuple(self.wid(v) if type(v) is tuple else ('k', v) for v in vals)
        k = self.contents.get(key)
        if k is None:
            k = len(self.clist)
            self.contents[key] = k
            self.clist.append(key)
        return k

    def select(self, vals, idx, w):
        """vals: 2^len(idx) words; idx bits"""
        sym = [i for i, b in enumerate(idx) if b >= 2]
        if len(sym) < len(idx):
            base = 0
            for i, b in enumerate(idx):
                if b == 1:
                    base |= 1 << i
            nv = []
            for j in range(1 << len(sym)):
                k = base
                for p, i in enumerate(sym):
                    if (j >> p) & 1:
                        k |= 1 << i
                nv.append(vals[k])
            vals = nv
            idx = tuple(idx[i] for i in sym)
        if not idx:
            return vals[0]
        if all(type(v) is not tuple for v in vals):
            return self.lookup(vals, idx, w)
        if all(v == vals[0] for v in vals):
            return vals[0]
        if len(idx) <= 4:
            # small: explicit multiplexer
            cur = list(vals)
            for b in idx:
                cur = [self.ite(b, cur[2 * j + 1], cur[2 * j], w) for j in range(len(cur) // 2)]
            return cur[0]
        c = self.content(vals, w)
        return tuple(self.abit(('x', c, idx, i)) for i in range(w))

    # ---------- inspection
    def atoms_of(self, v, seen=None, limit=None):
        """all atoms a word transitively depends on"""
        seen = set() if seen is None else seen
        stack = []
        if type(v) is tuple:
            stack.extend(v)
        fseen = set()
        while stack:
            b = stack.pop()
            k = b >> 1
            if k in fseen or k == 0:
                continue
            fseen.add(k)
            for a in self.forms[k]:
                if a in seen:
                    continue
                seen.add(a)
                stack.extend(self.children(a))
        return seen

    def children(self, a):
        d = self.atoms[a]
        k = d[0]
        if k == 'm':
            return [2 * self.form(frozenset((p,))) for p in d[1]]
        if k == 'c':
            return list(d[1])
        if k == 's':
            out = []
            for wd, c in self.Tlist[d[1]]:
                out.extend(self.wordlist[wd])
            return out
        if k == 'p':
            a1, b1 = self.Plist[d[1]]
            return list(self.wordlist[a1]) + list(self.wordlist[b1])
        if k == 't':
            return list(d[3])
        if k == 'x':
            out = list(d[2])
            for x in self.clist[d[1]][1:]:
                if type(x) is int:
                    out.extend(self.wordlist[x])
            return out
        if k == 'o':
            out = []
            for x in d[2]:
                if type(x) is int:
                    out.extend(self.wordlist[x])
            return out
        return []

    def leaves(self, v):
        """names of variables / undefs a value depends on"""
        r = set()
        for a in self.atoms_of(v):
            d = self.atoms[a]
            if d[0] == 'v':
                r.add(d)
            elif d[0] == 'u':
                r.add(d)
        return r

    def show(self, b, depth=2):
        if b < 2:
            return str(b)
        f = self.forms[b >> 1]
        parts = []
        for a in sorted(f)[:6]:
            parts.append(self.show_atom(a, depth))
        if len(f) > 6:
            parts.append('...(%d terms)' % len(f))
        if b & 1:
            parts.append('1')
        return ' ^ '.join(parts)

    def show_atom(self, a, depth=2):
        d = self.atoms[a]
        k = d[0]
        if k == 'v':
            return '%s.%d' % (d[1], d[2])
        if k == 'u':
            return 'uninit(%s).%d' % (d[1], d[2])
        if depth == 0:
            return k + '#' + str(a)
        if k == 'm':
            return '&'.join(self.show_atom(p, depth - 1) for p in d[1])
        if k == 'c':
            return '(' + ' & '.join('(' + self.show(b, depth - 1) + ')' for b in sorted(d[1])[:3]) + ('&..%d' % len(d[1]) if len(d[1]) > 3 else '') + ')'
        if k == 's':
            t, c = self.Tlist[d[1]], d[2]
            return 'sum[%s%+d].%d' % ('+'.join(('%d*' % cc if cc != 1 else '') + 'w%d(%s)' % (wd, self.show(self.wordlist[wd][0], depth - 1)) for wd, cc in sorted(t)[:6]) + ('+..%d' % len(t) if len(t) > 6 else ''), c, d[3])
        if k == 't':
            return 'T%d(%s)' % (d[2], ','.join(self.show(b, depth - 1) for b in d[3][:2]) + ',..')
        if k == 'o':
            return '%s(%s).%d' % (d[1], ','.join('w%s' % (x,) for x in d[2]), d[3])
        return k + '#' + str(a)


_colmemo = {}


def columns(table, w):
    key = (table, w)
    r = _colmemo.get(key)
    if r is None:
        cs = []
        for b in range(w):
            c = 0
            for i, v in enumerate(table):
                if (v >> b) & 1:
                    c |= 1 << i
            cs.append(c)
        r = _colmemo[key] = tuple(cs)
    return r


_pn = {}


def perm_neg(c, n, neg):
    key = (c, n, neg)
    r = _pn.get(key)
    if r is None:
        r = 0
        for j in range(1 << n):
            if (c >> (j ^ neg)) & 1:
                r |= 1 << j
        _pn[key] = r
    return r


_po = {}


def perm_order(c, n, order):
    # new index bit p = old index bit order[p]
    key = (c, n, order)
    r = _po.get(key)
    if r is None:
        r = 0
        for j in range(1 << n):
            k = 0
            for p, i in enumerate(order):
                if (j >> p) & 1:
                    k |= 1 << i
            if (c >> k) & 1:
                r |= 1 << j
        if len(_po) > 2000000:
            _po.clear()
        _po[key] = r
    return r


class ColBasis:
    """GF(2) span of truth-table columns modulo affine functions (modulo constants only for narrow functions, whose
    index bits are typically long XOR forms: Serpent)"""

    def __init__(self, n):
        self.n = n
        self.rows = []     # (pivot, vec, comb) comb: bitmask: bits 0..n-1 linear coords, n const, n+1+j: basis j
        self.nb = 0
        self.memo = {}
        N = 1 << n
        self.vecs = []
        for i in range(n):
            v = 0
            for j in range(N):
                if (j >> i) & 1:
                    v |= 1 << j
            if n > 4:
                self._insert(v, 1 << i)
            else:
                self.memo[v] = (1 << i, ())
                self.memo[v ^ ((1 << N) - 1)] = (1 << i | 1 << n, ())
        self._insert((1 << N) - 1, 1 << n)

    def col(self, j):
        return self.vecs[j]

    def _red(self, v, comb):
        for p, rv, rc in self.rows:
            if (v >> p) & 1:
                v ^= rv
                comb ^= rc
        return v, comb

    def _insert(self, v, comb):
        v, comb = self._red(v, comb)
        if v == 0:
            return comb
        p = v.bit_length() - 1
        self.rows.append((p, v, comb))
        self.rows.sort(reverse=True)
        return None

    def reduce(self, c):
        r = self.memo.get(c)
        if r is None:
            v, comb = self._red(c, 0)
            if v:
                j = self.nb
                self.nb += 1
                self.vecs.append(c)
                self._insert(c, 1 << (self.n + 1 + j))
                v, comb = self._red(c, 0)
                assert v == 0
            basis = []
            k = comb >> (self.n + 1)
            i = 0
            while k:
                if k & 1:
                    basis.append(i)
                k >>= 1
                i += 1
            r = self.memo[c] = (comb & ((1 << (self.n + 1)) - 1), tuple(basis))
        return r
