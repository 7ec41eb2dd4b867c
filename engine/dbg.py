"""developer aid: locate the first structural difference between two values of the domain"""


def atomsof(d, v):
    out = set()
    for b in (v if type(v) is tuple else (v,)):
        out |= set(d.forms[b >> 1])
    return out


def desc(d, v1, v2, n=0, maxd=40):
    if v1 == v2 or n > maxd:
        return
    sh = lambda v: d.show(v[0] if type(v) is tuple else v, 2)[:200]
    for i, (x, y) in enumerate(zip(v1, v2)):
        if x != y:
            break
    a1, a2 = d.forms[x >> 1] - d.forms[y >> 1], d.forms[y >> 1] - d.forms[x >> 1]
    a1, a2 = sorted(a1), sorted(a2)
    print(' ' * n, 'bit', i, '/', len(v1), len(v2), 'neg', x & 1, y & 1, 'only1', len(a1), 'only2', len(a2))
    if not a1 or not a2:
        for a in (a1 + a2)[:4]:
            print(' ' * n, '  ', d.show_atom(a, 2)[:300])
        return
    x, y = d.atoms[a1[0]], d.atoms[a2[0]]
    if x[0] == y[0] == 's':
        t1, c1 = d.Tlist[x[1]], x[2]
        t2, c2 = d.Tlist[y[1]], y[2]
        print(' ' * n, 'sum', sorted(t1), c1, '|', sorted(t2), c2, 'bits', x[3], y[3])
        A = sorted(set(t1) - set(t2))
        B = sorted(set(t2) - set(t1))
        print(' ' * n, 'A', A[:10], 'B', B[:10])
        if len(A) != len(B) or not A:
            for k, c in A + ['--'] + B:
                if (k, c) == ('-', '-'):
                    print('-----')
                    continue
                print(' ' * n, '   w%d*%d len %d' % (k, c, len(d.wordlist[k])), sh(d.wordlist[k]))
            return
        desc(d, d.wordlist[A[0][0]], d.wordlist[B[0][0]], n + 1)
    elif x[0] == y[0] == 'p':
        print(' ' * n, 'prod', d.Plist[x[1]], d.Plist[y[1]])
        for u, v in zip(d.Plist[x[1]], d.Plist[y[1]]):
            if u != v:
                desc(d, d.wordlist[u], d.wordlist[v], n + 1)
                return
    elif x[0] == y[0] == 't' and x[1] == y[1]:
        print(' ' * n, 'tab', x[1], x[2], y[2])
        desc(d, x[3], y[3], n + 1)
    elif x[0] == y[0] == 'c':
        A, B = sorted(x[1] - y[1]), sorted(y[1] - x[1])
        print(' ' * n, 'conj', len(x[1]), len(y[1]), len(A), len(B))
        for b in A[:3]:
            print(' ' * n, ' A', sh(b))
        for b in B[:3]:
            print(' ' * n, ' B', sh(b))
        if A and B:
            desc(d, (A[0],), (B[0],), n + 1)
    else:
        print(' ' * n, 'differ', d.show_atom(a1[0], 2)[:300], '|||', d.show_atom(a2[0], 2)[:300])


class Ev:
    """developer aid: value of a bit under an assignment of the variables (self-test of the domain)"""

    def __init__(self, d, rnd):
        self.d, self.rnd, self.am, self.vars = d, rnd, {}, {}
        import sys
        sys.setrecursionlimit(100000)

    def word(self, w):
        return sum(self.bit(b) << i for i, b in enumerate(w))

    def bit(self, b):
        r = b & 1
        for a in self.d.forms[b >> 1]:
            r ^= self.atom(a)
        return r

    def atom(self, a):
        r = self.am.get(a)
        if r is not None:
            return r
        d = self.d
        x = d.atoms[a]
        k = x[0]
        if k in 'vu':
            r = self.rnd.getrandbits(1)
        elif k == 'm':
            r = int(all(self.atom(p) for p in x[1]))
        elif k == 'c':
            r = int(all(self.bit(b) for b in x[1]))
        elif k == 's':
            s = x[2] + sum(c * self.word(d.wordlist[w]) for w, c in d.Tlist[x[1]])
            r = (s >> x[3]) & 1
        elif k == 'p':
            p = d.Plist[x[1]]
            r = (self.word(d.wordlist[p[0]]) * self.word(d.wordlist[p[1]]) >> x[2]) & 1
        elif k == 't':
            j = self.word(x[3])
            r = d.cols[x[1]].col(x[2]) >> j & 1
        elif k == 'o' and x[1] == 'ult':
            f = lambda q: q[1] if type(q) is tuple else self.word(d.wordlist[q])
            r = int(f(x[2][0]) < f(x[2][1]))
        elif k == 'x':
            c = d.clist[x[1]]
            v = c[1 + self.word(x[2])]
            v = v[1] if type(v) is tuple else self.word(d.wordlist[v])
            r = v >> x[3] & 1
        else:
            raise Exception('eval ' + k + ' ' + str(x[:2]))
        self.am[a] = r
        return r
