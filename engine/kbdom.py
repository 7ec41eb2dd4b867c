"""Known-bits + definedness domain: every bit is 0, 1, unknown (2, 3) or possibly never initialised (4, 5).

The coarse companion of dom.Dom: same interface, no relations between values, so that whole entry points can be analysed
for many message lengths.  Joins are bitwise.  What it reports is an over-approximation; scenarios that look wrong here
are decided again with the value graph."""


class KBDom:
    coarse = True

    def __init__(self, max_support=0):
        self.atoms = []
        self.forms = []
        self.T = {}
        self.lk = {}

    def top(self, w):
        t = self.T.get(w)
        if t is None:
            t = self.T[w] = (2,) * w
        return t

    def bad(self, w):
        t = self.T.get(-w)
        if t is None:
            t = self.T[-w] = (4,) * w
        return t

    def res(self, w, *ops):
        """unknown result computed from ops"""
        for o in ops:
            if type(o) is tuple and max(o) >= 4:
                return self.bad(w)
        return self.top(w)

    def var(self, name, w, base=0):
        return self.top(w)

    def undef(self, tag, w):
        return self.bad(w)

    def abit(self, desc):
        return 2

    def xor1(self, x, y):
        if x < 2 and y < 2:
            return x ^ y
        return 4 if x >= 4 or y >= 4 else 2

    def and1(self, x, y):
        if x == 0 or y == 0:
            return 0
        if x == 1:
            return y & ~1 if y > 1 else y
        if y == 1:
            return x & ~1
        return 4 if x >= 4 or y >= 4 else 2

    def or1(self, x, y):
        if x == 1 or y == 1:
            return 1
        if x == 0:
            return y & ~1 if y > 1 else y
        if y == 0:
            return x & ~1
        return 4 if x >= 4 or y >= 4 else 2

    def ite1(self, c, a, b):
        if c < 2:
            return a if c else b
        if a == b and a < 2:
            return a
        return 4 if a >= 4 or b >= 4 or c >= 4 else 2

    def conj(self, bits):
        r = 1
        for b in bits:
            r = self.and1(r, b)
        return r

    def norm(self, t):
        m = max(t)
        if m < 2:
            r = 0
            for i, b in enumerate(t):
                if b:
                    r |= 1 << i
            return r
        return t

    def bits(self, v, w):
        if type(v) is tuple:
            return v
        return tuple((v >> i) & 1 for i in range(w))

    def canon(self, t):
        if min(t) >= 2:
            if max(t) < 4:
                return self.top(len(t))
        return self.norm(t)

    def _map2(self, f, a, b, w):
        a = self.bits(a, w)
        b = self.bits(b, w)
        return self.canon(tuple([f(x, y) for x, y in zip(a, b)]))

    def xor(self, a, b, w):
        if type(a) is not tuple and type(b) is not tuple:
            return a ^ b
        t = self.top(w)
        if a is t and type(b) is not tuple or b is t and type(a) is not tuple or a is t and b is t:
            return t
        return self._map2(self.xor1, a, b, w)

    def and_(self, a, b, w):
        if type(a) is not tuple and type(b) is not tuple:
            return a & b
        if a is b:
            return a
        return self._map2(self.and1, a, b, w)

    def or_(self, a, b, w):
        if type(a) is not tuple and type(b) is not tuple:
            return a | b
        if a is b:
            return a
        return self._map2(self.or1, a, b, w)

    def not_(self, a, w):
        return self.xor(a, (1 << w) - 1, w)

    def shl(self, a, n, w):
        if n >= w:
            return 0
        if type(a) is not tuple:
            return (a << n) & ((1 << w) - 1)
        return self.norm((0,) * n + a[:w - n])

    def lshr(self, a, n, w):
        if n >= w:
            return 0
        if type(a) is not tuple:
            return a >> n
        return self.norm(a[n:] + (0,) * n)

    def ashr(self, a, n, w):
        if n >= w:
            n = w - 1
        if type(a) is not tuple:
            s = a >> (w - 1)
            r = a >> n
            if s:
                r |= ((1 << n) - 1) << (w - n)
            return r
        return self.norm(a[n:] + (a[-1],) * n)

    def rotl(self, a, n, w):
        n %= w
        if n == 0:
            return a
        return self.or_(self.shl(a, n, w), self.lshr(a, w - n, w), w)

    def trunc(self, a, w):
        if type(a) is not tuple:
            return a & ((1 << w) - 1)
        if len(a) == w:
            return a
        return self.canon(a[:w])

    def zext(self, a, w):
        if type(a) is not tuple:
            return a
        return a + (0,) * (w - len(a))

    def sext(self, a, w0, w):
        if type(a) is not tuple:
            if a >> (w0 - 1):
                return a | (((1 << (w - w0)) - 1) << w0)
            return a
        return a + (a[-1],) * (w - len(a))

    def slice(self, a, lo, n):
        if type(a) is not tuple:
            return (a >> lo) & ((1 << n) - 1)
        return self.canon(a[lo:lo + n])

    def concat(self, parts):
        if all(type(v) is not tuple for v, w in parts):
            r = 0
            o = 0
            for v, w in parts:
                r |= v << o
                o += w
            return r
        out = ()
        for v, w in parts:
            out += self.bits(v, w)
        if min(out) >= 2 and max(out) < 4:
            return self.top(len(out))
        return out

    def ite(self, c, a, b, w):
        if c < 2:
            return a if c else b
        if type(a) is not tuple and a == b:
            return a
        t = self.top(w)
        if c < 4 and a is t and b is t:
            return t
        a = self.bits(a, w)
        b = self.bits(b, w)
        return self.canon(tuple([self.ite1(c, x, y) for x, y in zip(a, b)]))

    def wid(self, t):
        return 0

    def sum_prefix(self, t):
        return None

    def add(self, a, b, w, c=0):
        if type(a) is not tuple and type(b) is not tuple:
            return (a + b + c) & ((1 << w) - 1)
        t = self.top(w)
        if a is t and (b is t or type(b) is not tuple) or b is t and type(a) is not tuple:
            return t
        a = self.bits(a, w)
        b = self.bits(b, w)
        if max(a) < 4 and max(b) < 4 and min(a) >= 2 and min(b) >= 2:
            return t
        out = []
        for x, y in zip(a, b):
            if x < 2 and y < 2 and c < 2:
                s = x + y + c
                out.append(s & 1)
                c = s >> 1
                continue
            u = x >= 4 or y >= 4 or c >= 4
            out.append(4 if u else 2)
            k = [z for z in (x, y, c) if z < 2]
            if len(k) == 2 and k[0] == k[1]:
                c = k[0]
            else:
                c = 4 if u else 2
        return self.canon(tuple(out))

    def sub(self, a, b, w):
        if type(a) is not tuple and type(b) is not tuple:
            return (a - b) & ((1 << w) - 1)
        return self.add(a, self.not_(b, w), w, 1)

    def mul(self, a, b, w):
        if type(a) is not tuple and type(b) is not tuple:
            return (a * b) & ((1 << w) - 1)
        if type(a) is not tuple:
            a, b = b, a
        if type(b) is not tuple:
            if b == 0:
                return 0
            if b & (b - 1) == 0:
                return self.shl(a, b.bit_length() - 1, w)
        r = self.bits(self.res(w, a, b), w)
        # trailing zeros and magnitude
        tz = self._tz(a, w) + self._tz(b, w)
        mx = self.umax(a, w) * self.umax(b, w)
        top = mx.bit_length()
        return self.canon(tuple([0 if i < tz or i >= top else x for i, x in enumerate(r)]))

    def _tz(self, a, w):
        n = 0
        for x in self.bits(a, w):
            if x != 0:
                break
            n += 1
        return n

    def sumall(self, vs, w):
        r = 0
        for v in vs:
            r = self.add(r, v, w)
        return r

    def opaque(self, name, args, w):
        return self.res(w, *[a for a in args if type(a) is tuple])

    def eq(self, a, b, w):
        if type(a) is not tuple and type(b) is not tuple:
            return int(a == b)
        a = self.bits(a, w)
        b = self.bits(b, w)
        u = 2
        for x, y in zip(a, b):
            if x < 2 and y < 2:
                if x != y:
                    return 0
            elif x >= 4 or y >= 4:
                u = 4
        return u

    def umax(self, a, w):
        if type(a) is not tuple:
            return a
        r = 0
        for i, b in enumerate(a):
            if b:
                r |= 1 << i
        return r

    def umin(self, a, w):
        if type(a) is not tuple:
            return a
        r = 0
        for i, b in enumerate(a):
            if b == 1:
                r |= 1 << i
        return r

    def ult(self, a, b, w):
        if type(a) is not tuple and type(b) is not tuple:
            return int(a < b)
        if self.umax(a, w) < self.umin(b, w):
            return 1
        if self.umin(a, w) >= self.umax(b, w):
            return 0
        return self.res(1, a, b)[0]

    def slt(self, a, b, w):
        H = 1 << (w - 1)
        return self.ult(self._flip(a, H, w), self._flip(b, H, w), w)

    def _flip(self, a, H, w):
        if type(a) is not tuple:
            return a ^ H
        t = a[-1]
        return self.norm(a[:-1] + (t ^ 1 if t < 2 else t,))

    def lookup(self, table, idx, w):
        k = (id(table), idx)
        r = self.lk.get(k)
        if r is not None:
            return r[0]
        v = self.select(list(table), idx, w)
        self.lk[k] = (v, table)          # keeps the table alive: ids stay unique
        return v

    def apply_cols(self, cols, idx):
        return self.res(len(cols), tuple(idx) + (2,))

    def select(self, vals, idx, w):
        sym = [i for i, b in enumerate(idx) if b >= 2]
        base = 0
        for i, b in enumerate(idx):
            if b == 1:
                base |= 1 << i
        if not sym:
            return vals[base]
        u = any(idx[i] >= 4 for i in sym)
        ones = (1 << w) - 1
        zeros = ones
        unk = 0
        bad = 0
        for j in range(1 << len(sym)):
            k = base
            for p, i in enumerate(sym):
                if (j >> p) & 1:
                    k |= 1 << i
            v = vals[k]
            if type(v) is not tuple:
                ones &= v
                zeros &= ~v
            else:
                for i, x in enumerate(v):
                    if x >= 4:
                        bad |= 1 << i
                        unk |= 1 << i
                    elif x >= 2:
                        unk |= 1 << i
                    elif x:
                        zeros &= ~(1 << i)
                    else:
                        ones &= ~(1 << i)
        out = []
        for i in range(w):
            m = 1 << i
            if bad & m:
                out.append(4)
            elif unk & m:
                out.append(4 if u else 2)
            elif ones & m:
                out.append(1)
            elif zeros & m:
                out.append(0)
            else:
                out.append(4 if u else 2)
        return self.canon(tuple(out))

    def leaves(self, v):
        return []

    def show(self, b, depth=2):
        return 'possibly uninitialised' if b >= 4 else 'unknown' if b >= 2 else str(b)
