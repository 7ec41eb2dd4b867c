"""Value graph with exact arithmetic for words that depend on few input bits (finite-domain tables, ANF normal form)."""
from dom import Dom


class SmallDom(Dom):
    LIMIT = 10

    def __init__(self):
        Dom.__init__(self, max_support=10)

    def sup(self, *ws):
        s = set()
        for w in ws:
            if type(w) is tuple:
                for b in w:
                    if b >= 2:
                        for a in self.forms[b >> 1]:
                            if self.atoms[a][0] not in ('v', 'm'):
                                return None
                            s |= self.primes[a]
                        if len(s) > self.LIMIT:
                            return None
        return sorted(s)

    def table(self, w, sup):
        """values of w for every assignment of the support"""
        n = len(sup)
        if type(w) is not tuple:
            return [w] * (1 << n)
        pos = {a: i for i, a in enumerate(sup)}
        out = [0] * (1 << n)
        for i, b in enumerate(w):
            if b < 2:
                if b:
                    for j in range(1 << n):
                        out[j] |= 1 << i
                continue
            masks = []
            for a in self.forms[b >> 1]:
                m = 0
                for p in self.primes[a]:
                    m |= 1 << pos[p]
                masks.append(m)
            neg = b & 1
            for j in range(1 << n):
                x = neg
                for m in masks:
                    x ^= (j & m) == m
                if x:
                    out[j] |= 1 << i
        return out

    def exact(self, f, w, *ops):
        sup = self.sup(*ops)
        if sup is None or not sup:
            return None
        tabs = [self.table(o, sup) for o in ops]
        tab = [f(*v) & ((1 << w) - 1) for v in zip(*tabs)]
        idx = tuple(2 * self.form(frozenset((a,))) for a in sup)
        return self.lookup(tab, idx, w)

    def _bin(self, name, f, a, b, w):
        if type(a) is tuple or type(b) is tuple:
            r = self.exact(f, w, a, b)
            if r is not None:
                return r
        return getattr(Dom, name)(self, a, b, w)

    def add(self, a, b, w):
        return self._bin('add', lambda x, y: x + y, a, b, w)

    def sub(self, a, b, w):
        return self._bin('sub', lambda x, y: x - y, a, b, w)

    def mul(self, a, b, w):
        return self._bin('mul', lambda x, y: x * y, a, b, w)

    def _pred(self, name, f, a, b, w):
        if type(a) is tuple or type(b) is tuple:
            r = self.exact(lambda x, y: int(f(x, y)), 1, a, b)
            if r is not None:
                return r[0] if type(r) is tuple else r
        return getattr(Dom, name)(self, a, b, w)

    def eq(self, a, b, w):
        return self._pred('eq', lambda x, y: x == y, a, b, w)

    def ult(self, a, b, w):
        return self._pred('ult', lambda x, y: x < y, a, b, w)

    def slt(self, a, b, w):
        H = 1 << (w - 1)
        return self._pred('slt', lambda x, y: (x ^ H) < (y ^ H), a, b, w)

    def opaque(self, name, args, w):
        if name in ('udiv', 'urem', 'sdiv', 'srem') and len(args) == 2:
            M = 1 << w

            def sg(x):
                return x - M if x >> (w - 1) else x

            def f(x, y):
                if y == 0:
                    return 0
                if name == 'udiv':
                    return x // y
                if name == 'urem':
                    return x % y
                a, b = sg(x), sg(y)
                q = abs(a) // abs(b)
                q = -q if (a < 0) != (b < 0) else q
                return q if name == 'sdiv' else a - q * b
            r = self.exact(f, w, *args)
            if r is not None:
                return r if type(r) is tuple else tuple((r >> i) & 1 for i in range(w))
        return Dom.opaque(self, name, args, w)
