"""Loop acceleration: exact extrapolation of the loop-carried state over a symbolic-data loop with a huge constant trip count.

Three consecutive iterations of a natural loop are analysed.  If (a) they take the same instructions and decisions, (b) every
instruction whose concrete operands vary from one iteration to the next is linear modulo 2^w (or is a comparison, extension
or mask, for which the last iteration with the same outcome is computed in closed form) and (c) the concrete loop-carried
state changes by one constant vector, then, by induction over the linear transfer function, the same holds for all iterations
up to the first one at which a comparison, extension or mask changes its outcome.  The analysis then continues shortly before that
iteration with the extrapolated state.  Symbolic loop-carried values become fresh unknowns: those that equalled a state
byte of the specification at three consecutive blocks become the corresponding fresh state byte of the specification, the others
junk on which no conclusion may depend."""
from absint import Ptr, Flt, Fn, Opq, PIte, Obj, Unsupported, NULL

MINJUMP = 600
BINS = ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor')


class Refuse(Exception):
    pass


def sgn(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x


def lim_range(x, d, lo, hi):
    """largest j with lo <= x + d*i <= hi for all 1 <= i <= j (None: unbounded)"""
    if d == 0:
        return None
    if d > 0:
        return (hi - x) // d if x <= hi else 0
    return (x - lo) // -d if x >= lo else 0


def lim_u(x, d, w):
    return lim_range(x & ((1 << w) - 1), sgn(d, w), 0, (1 << w) - 1)


def lim_s(x, d, w):
    return lim_range(sgn(x, w), sgn(d, w), -(1 << (w - 1)), (1 << (w - 1)) - 1)


def solve(D, dD, w):
    """smallest j >= 1 with D + dD*j = 0 mod 2^w, or None"""
    M = 1 << w
    D %= M
    dD %= M
    if dD == 0:
        return None
    g = (dD & -dD)
    if D % g:
        return None
    m = M // g
    j = (-(D // g) * pow(dD // g, -1, m)) % m
    return j if j else m


def mins(*l):
    l = [x for x in l if x is not None]
    return min(l) if l else None


def headers(f):
    """targets of natural back edges"""
    h = getattr(f, '_hdrs', None)
    if h is not None:
        return h
    succ = {}
    for n, b in f.blocks.items():
        s = []
        t = b.ins[-1]
        if t.op == 'br':
            s = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        elif t.op == 'switch':
            s = [t.a[1]] + [l for _, l in t.a[2]]
        elif t.op == 'invoke':
            s = [t.a[4]]
        succ[n] = s
    order = []
    seen = set()
    st = [(f.entry, iter(succ[f.entry]))]
    seen.add(f.entry)
    while st:
        n, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            st.pop()
            order.append(n)
    order.reverse()
    idx = {n: i for i, n in enumerate(order)}
    pred = {n: [] for n in order}
    for n in order:
        for s in succ[n]:
            pred[s].append(n)
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for n in order[1:]:
            ps = [p for p in pred[n] if p in idom]
            if not ps:
                continue
            x = ps[0]
            for p in ps[1:]:
                y = p
                while x != y:
                    while idx[x] > idx[y]:
                        x = idom[x]
                    while idx[y] > idx[x]:
                        y = idom[y]
            if idom.get(n) != x:
                idom[n] = x
                ch = True
    h = set()
    for n in order:
        for s in succ[n]:
            x = n
            while True:
                if x == s:
                    h.add(s)
                    break
                if x == f.entry:
                    break
                x = idom[x]
    f._hdrs = h
    return h


class Loop:
    __slots__ = ('n', 'real', 'next', 'snaps', 'marks', 'live', 'per', 'tries')

    def __init__(self):
        self.n = 0
        self.real = 0
        self.next = 3
        self.snaps = []
        self.live = False
        self.per = 1            # iterations per observed step
        self.tries = 0


class Accel:
    def __init__(self, x, provider=None, W0=None, periods=None):
        self.periods = periods or getattr(x, 'periods', (1, 2, 4))
        self.W0 = W0 or getattr(x, 'W0', 1280)
        self.x = x
        self.it = x.it
        self.provider = provider
        self.small = {}
        self.stages = {}
        self.jumps = []
        self.total = 0
        self.junk = 0
        self.why = {}
        x.it.accel = self
        x.it.tr = None
        self.active = 0

    # ------------------------------------------------------------------ recording
    def rec(self, ins, env, v, mod):
        op = ins.op
        it = self.it
        tv = type(v)
        if op in BINS:
            t = ins.ty
            a = it.val(ins.a[0], t, env, mod)
            b = it.val(ins.a[1], t, env, mod)
            ca = type(a) is not tuple
            cb = type(b) is not tuple
            if not ca and not cb and tv is tuple:
                return
            it.tr.append(('b', ins, (a if ca else None, b if cb else None), None if tv is tuple else v, mod.bits(t) if t[0] == 'i' else 0))
        elif op == 'icmp' or op == 'fcmp':
            t = ins.ty
            a = it.val(ins.a[1], t, env, mod)
            b = it.val(ins.a[2], t, env, mod)
            if tv is tuple:
                return
            it.tr.append(('c', ins, (a if type(a) is not tuple else None, b if type(b) is not tuple else None), v, mod.bits(t) if t[0] in 'ip' else 0))
        elif op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'bitcast'):
            a = it.val(ins.a[1], ins.a[0], env, mod)
            if type(a) is tuple:
                return
            it.tr.append(('x', ins, (a,), v if tv is not tuple else None, mod.bits(ins.a[0]) if ins.a[0][0] == 'i' else 0))
        elif op == 'getelementptr':
            t, ops = ins.a
            l = tuple((None if type(y) is tuple else y, mod.bits(et)) for et, y in ((et, it.val(y, et, env, mod)) for et, y in ops[1:]))
            it.tr.append(('g', ins, tuple(y for y, w in l), v, tuple(w for y, w in l)))
        elif op in ('load', 'store', 'call', 'alloca', 'select', 'freeze', 'invoke'):
            if op == 'load' and tv is not tuple:
                it.tr.append(('l', ins, (), v, mod.bits(ins.ty)))
            elif op == 'alloca':
                it.tr.append(('a', ins, (), None, 0))
            return
        else:
            if tv is not tuple:
                it.tr.append(('o', ins, (), v if type(v) is not list else None, 0))

    # ------------------------------------------------------------------ loop headers
    def visit(self, acts, f, mod, bname, phivals, env):
        key = (f.name, bname)
        L = acts.get(bname)
        if L is None:
            L = acts[bname] = Loop()
        L.n += 1
        L.real += 1
        if L.n < L.next:
            if L.real > 60000:
                raise Unsupported('loop of %s was not accelerated: %s' % (f.name, self.why.get(key)))
            return phivals
        if L.n == L.next:
            s = self.small.get(key, 0)
            if s >= 2 and L.n < 64 and L.tries == 0:
                L.next = 64
                return phivals
            L.per = self.periods[L.tries % len(self.periods)]
            self.active += 1
            L.live = True
            if self.it.tr is None:
                self.it.tr = []
            L.snaps = []
        if (L.n - L.next) % L.per:
            return phivals
        L.snaps.append((dict(phivals or {}), self.it.mem, self.it.mem.fork(), self.it.nobj, len(self.it.tr), len(self.it.tr)))
        # continue on the fork, so that the snapshot stays as it is
        self.it.mem = L.snaps[-1][2]
        if len(L.snaps) < 4:
            return phivals
        try:
            return self.decide(key, L, f, mod, phivals)
        except Refuse as e:
            self.why[key] = str(e)
            self.small[key] = self.small.get(key, 0) + 1
            L.tries += 1
            p = self.periods[L.tries % len(self.periods)]
            L.next = -(-L.n // p) * p + 1 if L.tries < len(self.periods) and (p > 16 or str(e) != 'short') else 64 if L.n < 64 else L.n * 8 if L.n < 4096 else L.n + 30000
            return phivals
        finally:
            self.stop(L)

    def stop(self, L):
        L.live = False
        L.snaps = []
        self.active -= 1
        if self.active == 0:
            self.it.tr = None

    def leave(self, acts):
        """the activation ends while a loop is being traced"""
        for L in acts.values():
            if L.live:
                self.stop(L)

    # ------------------------------------------------------------------ decision
    def norm(self, p, n0):
        o = p.obj
        if '#' in o and o[0] != '@':
            k = int(o.rsplit('#', 1)[1])
            if k > n0:
                return ('new', k - n0)
        return o

    def delta(self, vals, n0s, w):
        """None if the value is the same in the three iterations, else its constant change"""
        a, b, c = vals
        if type(c) is Ptr:
            if type(a) is not Ptr or type(b) is not Ptr or a.sym is not None or b.sym is not None or c.sym is not None:
                if a == b == c:
                    return None
                raise Refuse('pointer')
            na, nb, nc = (self.norm(p, n) for p, n in zip(vals, n0s))
            if na != nb or nb != nc:
                raise Refuse('different objects %s %s' % (nb, nc))
            if b.off - a.off != c.off - b.off:
                raise Refuse('address not affine')
            return (c.off - b.off) or None
        if type(c) is int and type(b) is int and type(a) is int:
            if a == b == c:
                return None
            m = (1 << w) - 1 if w else 0
            if not w or (b - a) & m != (c - b) & m:
                raise Refuse('value not affine')
            return (c - b) & m
        if a == b and b == c:
            return None
        if type(a) is Flt and type(b) is Flt and type(c) is Flt:
            if all(f.v == int(f.v) and abs(f.v) < 2.0 ** 53 for f in (a, b, c) if f.v == f.v and abs(f.v) != float('inf')) and b.v - a.v == c.v - b.v:
                return Flt(c.v - b.v)
            raise Refuse('floating-point value not affine')
        raise Refuse('%s varies' % type(c).__name__)

    def decide(self, key, L, f, mod, phivals):
        it = self.it
        tr = it.tr
        cut = [s[5] for s in L.snaps]
        ts = [tr[cut[i]:cut[i + 1]] for i in range(3)]
        n0s = [s[3] for s in L.snaps[:3]]
        if not (len(ts[0]) == len(ts[1]) == len(ts[2])):
            raise Refuse('the iterations differ (%s)' % [len(t) for t in ts])
        lim = []
        depth = []
        writes = []         # (object, offset, length, delta)
        fixed = {}
        stride = 0
        for e0, e1, e2 in zip(*ts):
            k = e2[0]
            if e0[0] != k or e1[0] != k or e0[1] != e2[1] or e1[1] != e2[1]:
                raise Refuse('the iterations differ')
            if k == 'jump':
                raise Refuse('a jump inside the loop body')
            if k in ('fork', 'arm', 'endfork'):
                # a decision on data: every arm was followed up to the join
                if k == 'fork':
                    depth.append(e2[3])
                elif not depth:
                    raise Refuse('a decision reaches across iterations')
                elif k == 'endfork':
                    if depth.pop() != e2[3] or e0[3] != e2[3] or e1[3] != e2[3]:
                        raise Refuse('an arm ends the program')
                continue
            w = e2[4]
            if k in ('L', 'S'):
                if e0[2][1] != e2[2][1] or e1[2][1] != e2[2][1]:
                    raise Refuse('different access sizes')
                dp = self.delta((e0[2][0], e1[2][0], e2[2][0]), n0s, 64)
                p, n = e2[2]
                if dp is not None:
                    stride = max(stride, abs(dp))
                    if k == 'L' and e2[3]:
                        raise Refuse('concrete data read at a moving address')
                if k == 'S':
                    if dp is not None:
                        writes.append((p.obj, p.off, n, dp))
                    elif type(self.norm(p, n0s[2])) is not tuple:
                        s = fixed.setdefault(p.obj, set())
                        s.update(range(p.off, p.off + n))
                if k == 'L' and dp is None and e2[3] == 'part' and e0[4:] != e2[4:]:
                    raise Refuse('part of a varying value is read')
                continue
            if k == 'm':
                # library model or summary: concrete arguments fixed (addresses may move)
                if len(e0[2]) != len(e2[2]):
                    raise Refuse('arguments')
                for vals in zip(e0[2], e1[2], e2[2]):
                    if vals[2] is None:
                        continue
                    if self.delta(vals, n0s, 64) is not None and type(vals[2]) is int:
                        raise Refuse('varying argument of %s' % (e2[1],))
                continue
            if k == 'a':
                continue
            ops = list(zip(e0[2], e1[2], e2[2]))
            ds = []
            for q, vals in enumerate(ops):
                if vals[2] is None:
                    if vals[0] is not None or vals[1] is not None:
                        raise Refuse('operand kinds differ')
                    ds.append(None)
                else:
                    ds.append(self.delta(vals, n0s, w[q] if k == 'g' else w))
            op = e2[1].op
            r = e2[3]
            if k == 'l':
                if type(r) in (int, Ptr):
                    self.delta((e0[3], e1[3], r), n0s, w)
                elif not (e0[3] == e1[3] == r):
                    raise Refuse('varying data')
                continue
            if all(d is None for d in ds):
                if r is not None and type(r) is not Ptr and not (e0[3] == e1[3] == r):
                    raise Refuse('%s result varies' % op)
                continue
            sym = any(v[2] is None for v in ops)
            if sym and r is None:
                continue            # data
            if sym and k != 'g':
                raise Refuse('%s of symbolic and varying operands is concrete' % op)
            x = e2[2]
            if k == 'b':
                fl = e2[1].a[2]
                if type(x[0]) is Ptr or type(x[1]) is Ptr:
                    if op in ('add', 'sub'):
                        continue
                    raise Refuse('pointer arithmetic')
                if not w:
                    raise Refuse('vector arithmetic')
                da, db = ds[0] or 0, ds[1] or 0
                if op in ('add', 'sub', 'mul'):
                    if op == 'mul' and ds[0] is not None and ds[1] is not None:
                        raise Refuse('product of two varying values')
                    if fl and 'nsw' in fl:
                        dr = self.delta((e0[3], e1[3], r), n0s, w) or 0
                        lim.append(lim_s(x[0], da, w))
                        lim.append(lim_s(x[1], db, w))
                        lim.append(lim_s(r, dr, w))
                elif op == 'shl' and ds[1] is None:
                    pass
                elif op in ('and', 'urem', 'lshr', 'udiv') and ds[1] is None:
                    m = x[1]
                    if op == 'and':
                        if m & (m + 1):
                            raise Refuse('mask')
                        m += 1
                    elif op == 'lshr':
                        m = 1 << m
                    if m == 0:
                        raise Refuse('division by zero')
                    lim.append(lim_u(x[0], da, w))
                    sd = sgn(da, w)
                    if op in ('and', 'urem'):
                        if sd % m:
                            # linear until the remainder wraps
                            lim.append(lim_range(x[0] % m, sd, 0, m - 1))
                    elif sd % m:
                        # the quotient stays the same until the remainder wraps
                        if not (e0[3] == e1[3] == r):
                            raise Refuse('quotient of a varying value')
                        lim.append(lim_range(x[0] % m, sd, 0, m - 1))
                elif op in ('srem', 'sdiv') and ds[1] is None and 0 < sgn(x[1], w) and sgn(x[0], w) >= 0:
                    m = x[1]
                    sd = sgn(da, w)
                    lim.append(lim_range(x[0], sd, 0, (1 << (w - 1)) - 1))
                    if sd % m:
                        if op == 'sdiv' and not (e0[3] == e1[3] == r):
                            raise Refuse('quotient of a varying value')
                        lim.append(lim_range(x[0] % m, sd, 0, m - 1))
                else:
                    raise Refuse('%s of a varying value' % op)
                if r is not None:
                    self.delta((e0[3], e1[3], r), n0s, w)
            elif k == 'x':
                if op == 'zext':
                    lim.append(lim_u(x[0], ds[0], w))
                elif op == 'sext':
                    lim.append(lim_s(x[0], ds[0], w))
                elif op in ('trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
                    pass
                elif op == 'uitofp':
                    lim.append(lim_range(x[0], sgn(ds[0], w), 0, min(1 << 53, (1 << w) - 1)))
                elif op == 'sitofp':
                    lim.append(lim_s(x[0], ds[0], w))
                    lim.append(lim_range(sgn(x[0], w), sgn(ds[0], w), -(1 << 53), 1 << 53))
                else:
                    raise Refuse('%s of a varying value' % op)
            elif k == 'g':
                for y, d, wi in zip(x, ds, w):
                    if d is not None and wi < 64:
                        lim.append(lim_s(y, d, wi))
            elif k == 'c':
                if not (e0[3] == e1[3] == r):
                    raise Refuse('decision changes')
                pred = e2[1].a[0]
                da, db = ds[0] or 0, ds[1] or 0
                a, b = x
                if op == 'fcmp':
                    if type(a) is not Flt or type(b) is not Flt:
                        raise Refuse('floating-point comparison')
                    v = [q.v if type(q) is Flt else q for q in (a, b, da, db)]
                    if not all(q == q and abs(q) < 2.0 ** 53 and q == int(q) for q in v) or pred[1:] not in ('lt', 'le', 'gt', 'ge'):
                        raise Refuse('floating-point comparison of a varying value')
                    a, b, da, db = (int(q) for q in v)
                    for q, dq in ((a, da), (b, db)):
                        lim.append(lim_range(q, dq, -(1 << 53), 1 << 53))
                    lim.append(self.cmplim(pred[1:], a - b, da - db))
                    continue
                if type(a) is Ptr and type(b) is Ptr:
                    if a.obj != b.obj:
                        continue
                    a, b, w = a.off, b.off, 64
                    da &= (1 << 64) - 1
                    db &= (1 << 64) - 1
                elif type(a) is not int or type(b) is not int:
                    continue        # pointer against null
                if pred in ('eq', 'ne'):
                    if a == b:
                        raise Refuse('equality of varying values')
                    j = solve(a - b, da - db, w)
                    lim.append(None if j is None else j - 1)
                    continue
                s = pred[0] == 's'
                lim.append((lim_s if s else lim_u)(a, da, w))
                lim.append((lim_s if s else lim_u)(b, db, w))
                if s:
                    a, b = sgn(a, w), sgn(b, w)
                D = a - b
                dD = sgn(da, w) - sgn(db, w)
                lim.append(self.cmplim(pred[1:], D, dD))
            else:
                raise Refuse('%s of a varying value' % op)
        if depth:
            raise Refuse('a decision reaches across iterations')
        total = mins(*lim)
        if total is None:
            raise Refuse('no exit')
        if total < MINJUMP:
            raise Refuse('short')
        # windows that stay explicit before and after the skipped iterations
        st = self.stages.get(key)
        if st is None:
            st = self.stages[key] = len(self.stages)
        W = max(192, self.W0 - 224 * st)
        tail = max(4 if L.per < 16 else 1, -(-W // max(stride, 1)))
        if stride and (L.n // L.per + 3) * stride < W:
            L.next = (-(-W // stride) + 1) * L.per
            return phivals
        K = total - tail
        if K < MINJUMP // 2:
            raise Refuse('short')
        return self.jump(key, L, K, phivals, n0s, writes, fixed, mod, f, tail)

    def cmplim(self, c, D, dD):
        """iterations for which D <c> 0 keeps its outcome"""
        B = 1 << 80
        if c == 'lt':
            return lim_range(D, dD, -B, -1) if D < 0 else lim_range(D, dD, 0, B)
        if c == 'le':
            return lim_range(D, dD, -B, 0) if D <= 0 else lim_range(D, dD, 1, B)
        if c == 'gt':
            return lim_range(D, dD, 1, B) if D > 0 else lim_range(D, dD, -B, 0)
        return lim_range(D, dD, 0, B) if D >= 0 else lim_range(D, dD, -B, -1)

    # ------------------------------------------------------------------ the jump
    def ext(self, vals, n0s, w, K):
        """extrapolated concrete value, or None if the value is symbolic"""
        a, b, c = vals
        if type(c) is tuple or type(b) is tuple or type(a) is tuple:
            return None
        if type(c) is list:
            if a == b == c:
                return c
            raise Refuse('aggregate')
        d = self.delta(vals, n0s, w)
        if d is None:
            return c
        if type(c) is Flt:
            return Flt(c.v + d.v * K)
        if type(c) is Ptr:
            if type(self.norm(c, n0s[2])) is tuple:
                raise Refuse('carried pointer to a temporary')
            return Ptr(c.obj, c.off + d * K, c.sym)
        return (c + d * K) & ((1 << w) - 1)

    def jump(self, key, L, K, phivals, n0s, writes, fixed, mod, f, tail):
        it = self.it
        d = it.d
        hs = L.snaps[1:]            # three consecutive header states
        n1 = [s[3] for s in hs]
        phi = {}
        symphi = {}
        for k, v in (phivals or {}).items():
            vals = tuple(s[0][k] for s in hs)
            w = len(v) if type(v) is tuple else 0
            ty = [p.ty for p in f.blocks[key[1]].phis if p.res == k][0]
            w = mod.bits(ty) if ty[0] in 'ixp' else 0
            if vals[0] == vals[1] == vals[2]:
                phi[k] = v
                continue
            r = self.ext(vals, n0s, w, K)
            if r is None:
                symphi[k] = (vals, w)
            else:
                phi[k] = r
        mems = [s[1] for s in hs]
        newcells = {}
        symcells = {}
        for on, o2 in mems[2].o.items():
            o1 = mems[1].o.get(on)
            if o1 is o2:
                continue
            if o1 is None:
                if o2.kind == 'heap' and o2.alive:
                    raise Refuse('allocation survives the iteration')
                continue
            o0 = mems[0].o.get(on)
            if o0 is None:
                continue
            if o1.alive != o2.alive:
                raise Refuse('release inside the loop')
            fx = fixed.get(on, ())
            for k in fx:
                c2 = o2.cells.get(k)
                c1 = o1.cells.get(k)
                c0 = o0.cells.get(k)
                if c2 is None:
                    continue
                if c1 is None or c0 is None:
                    raise Refuse('cell appears')
                if c0[0] == c1[0] == c2[0] and c0[1:3] == c1[1:3] == c2[1:3]:
                    continue
                if type(c2[0]) is tuple or type(c1[0]) is tuple or type(c0[0]) is tuple:
                    symcells[(on, k)] = (c0, c1, c2)
                    continue
                if not c0[1:3] == c1[1:3] == c2[1:3]:
                    raise Refuse('cell shapes differ')
                newcells[(on, k)] = (self.ext((c0[0], c1[0], c2[0]), n0s, 8 * c2[1], K), c2[1], c2[2], c2[3])
        # symbolic loop-carried bytes
        carried = {}

        def byte(v, i):
            if type(v) is int:
                return (v >> (8 * i)) & 255
            return d.slice(v, 8 * i, 8)
        same = {}
        for k, (vals, w) in symphi.items():
            for i in range((w + 7) // 8):
                carried[('phi', k, i)] = tuple(byte(v, i) for v in vals)
        for (on, k), cs in symcells.items():
            if all(type(c[0]) in (int, tuple) for c in cs):
                carried[('mem', on, k)] = tuple(byte(c[0], c[2]) for c in cs)
        for k, t in list(carried.items()):
            if t[0] == t[1] == t[2]:
                same[k] = t[2]
                del carried[k]
        fresh = {}
        info = None
        if carried and self.provider is not None:
            fresh, info = self.match(carried, K)
        fresh.update(same)
        # apply
        for k, (vals, w) in symphi.items():
            parts = []
            for i in range((w + 7) // 8):
                v = fresh.get(('phi', k, i))
                parts.append((v if v is not None else self.newjunk(8), 8))
            v = d.concat(parts)
            phi[k] = d.trunc(v, w) if w % 8 else v
        for (on, k), c in newcells.items():
            it.mem.wr(on).cells[k] = c
        done = set()
        for (on, k), cs in symcells.items():
            if (on, k) in done:
                continue
            c2 = cs[2]
            base = k - c2[2]
            full = all((on, base + i) in symcells and symcells[(on, base + i)][2][1:3] == (c2[1], i) for i in range(c2[1]))
            o = it.mem.wr(on)
            if full:
                parts = []
                for i in range(c2[1]):
                    v = fresh.get(('mem', on, base + i))
                    parts.append((v if v is not None else self.newjunk(8), 8))
                v = d.concat(parts)
                for i in range(c2[1]):
                    o.cells[base + i] = (v, c2[1], i, c2[3])
                    done.add((on, base + i))
            else:
                v = fresh.get(('mem', on, k))
                o.cells[k] = (v if v is not None else self.newjunk(8), 1, 0, c2[3])
                done.add((on, k))
        for on, off, n, dp in writes:
            if on not in it.mem.o:
                continue
            lo = min(off + dp, off + dp * K)
            hi = max(off + dp, off + dp * K) + n
            o = it.mem.wr(on)
            for k in [k for k in o.cells if lo <= k < hi]:
                del o.cells[k]
            o.skip = merge_range(o.skip, lo, hi)
        self.total += 1
        if self.total > 4000:
            raise Unsupported('too many loop extrapolations')
        it.tr.append(('jump', None, (), None, 0))
        self.jumps.append((key[0], it.loc, K * L.per, info))
        L.n += K * L.per
        L.next = L.n + (tail + 2) * L.per
        return phi

    def newjunk(self, w):
        self.junk += 1
        return self.it.d.var('junk%d' % self.junk, w)

    def match(self, carried, K):
        P = self.provider
        P.reach([c for a, b, c in carried.values() if type(c) is tuple])
        votes = {}
        for k, (a, b, c) in carried.items():
            if type(c) is not tuple:
                continue
            for blk, pos in P.find(c):
                votes[blk] = votes.get(blk, 0) + 1
        best = None
        for blk in sorted(votes, key=lambda q: (-votes[q], q)):
            for r in range(1, 9):
                n = 0
                for k, (a, b, c) in carried.items():
                    for bb, pos in P.find(c):
                        if bb == blk and P.at(blk - r, pos) == b and P.at(blk - 2 * r, pos) == a:
                            n += 1
                            break
                if n and (best is None or n > best[0]):
                    best = (n, blk, r)
            if best is not None:
                break
        if best is None:
            return {}, None
        n, blk, r = best
        new = P.resume(blk + K * r)
        out = {}
        for k, (a, b, c) in carried.items():
            for bb, pos in P.find(c):
                if bb == blk and P.at(blk - r, pos) == b and P.at(blk - 2 * r, pos) == a:
                    out[k] = new[pos]
                    break
        return out, (blk, r, n)


def merge_range(l, lo, hi):
    out = []
    for a, b in l:
        if b < lo or a > hi:
            out.append((a, b))
        else:
            lo = min(lo, a)
            hi = max(hi, b)
    out.append((lo, hi))
    return sorted(out)


class Provider:
    """specification state after b blocks, as a list of bytes; subclasses give start() and step(state, block number)"""

    def __init__(self, d):
        self.d = d
        self.states = {}
        self.index = {}
        self.nres = 0
        self.resumes = []
        self.limit = 400
        self.margin = 0         # states computed beyond the last match

    def begin(self, st):
        self.put(0, st)

    def put(self, b, st):
        self.states[b] = st
        for pos, v in enumerate(self.flat(st)):
            if type(v) is tuple:
                self.index.setdefault(v, []).append((b, pos))

    def flat(self, st):
        return st

    def unflat(self, l):
        return l

    def state(self, b):
        if b < 0:
            return None
        if b in self.states:
            return self.states[b]
        base = max(k for k in self.states if k <= b)
        if b - base > self.limit:
            return None
        for k in range(base, b):
            if k + 1 not in self.states:
                self.put(k + 1, self.step(self.states[k], k))
        return self.states[b]

    def at(self, b, pos):
        s = self.state(b)
        return self.flat(s)[pos] if s is not None else None

    def reach(self, vals):
        """extend the computed states from the last known one until one of the values occurs in them"""
        lo = self.resumes[-1] if self.resumes else 0
        hit = max([b for v in vals for b, pos in self.find(v)] or [-1])
        vs = set(vals)
        b = lo
        while b < lo + self.limit and (hit < lo or b < hit + self.margin):
            b += 1
            new = b not in self.states
            if self.state(b) is None:
                return
            if new and any(v in vs for v in self.flat(self.states[b]) if type(v) is tuple):
                hit = b

    def find(self, v):
        if type(v) is not tuple:
            return []
        return self.index.get(v, [])

    def resume(self, b):
        self.nres += 1
        n = len(self.flat(next(iter(self.states.values()))))
        l = [self.d.var('state%d.%d' % (self.nres, i), 8) for i in range(n)]
        self.put(b, self.unflat(l))
        self.resumes.append(b)
        return l
