"""Function summaries for bitwise (bit-sliced) code.

A callee is analysed once in isolation, every cell it can read replaced by a fresh variable.  If every cell it writes is,
bit by bit, a Boolean function of at most 8 input bits, the summary is the truth-table column of each written bit, and the
call is replaced by applying these columns (dom.apply_cols, which is canonical).  The summary is computed from the current
source on every run; nothing about the callee is assumed."""
import dom
import absint
from absint import Ptr, Unsupported, Dead

MAXSUP = 6


def candidate(f, cache={}):
    k = id(f)
    if k not in cache:
        n = 0
        logic = 0
        bad = False
        for b in f.blocks.values():
            for i in b.ins:
                n += 1
                if i.op in ('and', 'or', 'select'):
                    logic += 1
                if i.op in ('add', 'sub', 'mul', 'udiv', 'urem', 'switch', 'invoke', 'alloca', 'call', 'sdiv', 'srem'):
                    if i.op == 'call' and i.a[0][0] == 'g' and i.a[0][1].startswith('llvm.dbg'):
                        continue
                    bad = True
        cache[k] = (not bad and logic >= 4 and n <= 600 and len(f.blocks) == 1)
    return cache[k]


class Summ:
    __slots__ = ('writes', 'ret')


def build_summary(it, f, mod, shape, sizes):
    """shape: list of ('p', objindex, off) | ('i', width); sizes: object sizes"""
    d = dom.Dom(max_support=MAXSUP)
    s = absint.Interp([mod], d, max_steps=200000)
    s.write_log = []
    objs = []
    for k, n in enumerate(sizes):
        p = s.new_obj('arg%d' % k, n, 'param')
        for i in range(n):
            s.mem.o[p.obj].cells[i] = (d.var('o%d.%d' % (k, i), 8), 1, 0, 'in')
        objs.append(p)
    args = []
    for x in shape:
        if x[0] == 'p':
            args.append(Ptr(objs[x[1]].obj, x[2]))
        else:
            args.append(d.var('i%d' % x[1], x[2]))
    s.write_log = []
    try:
        ret = s.call(f.name, args, mod)
    except (Unsupported, Dead):
        return None
    if s.findings or s.effects or s.global_writes or s.global_reads:
        return None
    r = Summ()
    r.writes = []
    names = {p.obj: k for k, p in enumerate(objs)}
    done = set()

    def cols_of(v, w):
        out = []
        for b in d.bits(v, w):
            if b < 2:
                out.append(((b,), ()))
                continue
            sup = set()
            for a in d.forms[b >> 1]:
                sup |= d.primes[a]
            for a in sup:
                if d.atoms[a][0] != 'v':
                    return None
            if len(sup) > MAXSUP:
                return None
            for a in d.forms[b >> 1]:
                if d.atoms[a][0] not in ('v', 'm'):
                    return None
            sup = sorted(sup)
            pos = {a: i for i, a in enumerate(sup)}
            col = 0
            n = len(sup)
            for j in range(1 << n):
                x = b & 1
                for a in d.forms[b >> 1]:
                    x ^= int(all((j >> pos[q]) & 1 for q in d.primes[a]))
                col |= x << j
            out.append(((col, n), tuple((d.atoms[a][1], d.atoms[a][2]) for a in sup)))
        return out
    for on, off, n, loc, fn in s.write_log:
        if on not in names:
            continue
        if (on, off, n) in done:
            continue
        done.add((on, off, n))
        v = s.load_at(on, s.mem.o[on], off, n, n * 8)
        if type(v) not in (int, tuple):
            return None
        c = cols_of(v, n * 8)
        if c is None:
            return None
        r.writes.append((names[on], off, n, c, loc))
    r.ret = None
    if ret is not None:
        if type(ret) is not tuple and type(ret) is not int:
            return None
        w = f.ret_bits if hasattr(f, 'ret_bits') else (len(ret) if type(ret) is tuple else 64)
        c = cols_of(ret, w)
        if c is None:
            return None
        r.ret = c
    # only worth it when some column is non-linear
    return r


def install(it):
    cache = {}

    def hook(name, f, mod, vals):
        if not candidate(f):
            return NotImplemented
        objs = []
        shape = []
        for (t, nm, bv), v in zip(f.params, vals):
            if bv is not None:
                return NotImplemented
            if type(v) is Ptr:
                if v.obj == 'null' or v.sym is not None:
                    return NotImplemented
                o = it.mem.o.get(v.obj)
                if o is None or not o.alive or o.const or o.kind in ('global', 'tls') or o.size is None or o.size > 4096:
                    return NotImplemented
                if v.obj not in objs:
                    objs.append(v.obj)
                shape.append(('p', objs.index(v.obj), v.off))
            elif type(v) in (int, tuple):
                w = mod.bits(t)
                if t[0] != 'i':
                    return NotImplemented
                shape.append(('i', len(shape), w))
            else:
                return NotImplemented
        sizes = tuple(it.mem.o[o].size for o in objs)
        # pointers stored in the argument objects would be lost
        for o in objs:
            for c in it.mem.o[o].cells.values():
                if type(c[0]) not in (int, tuple):
                    return NotImplemented
        key = (name, id(mod), tuple(shape), sizes)
        s = cache.get(key, 0)
        if s == 0:
            s = cache[key] = build_summary(it, f, mod, shape, sizes)
        if s is None:
            return NotImplemented
        d = it.d
        memo = {}

        def src(nm, bit):
            if nm[0] == 'i':
                return d.bits(vals[int(nm[1:])], 64)[bit] if type(vals[int(nm[1:])]) is not tuple else vals[int(nm[1:])][bit]
            k, off = nm[1:].split('.')
            q = (k, off)
            b = memo.get(q)
            if b is None:
                b = memo[q] = d.bits(it.load_at(objs[int(k)], it.mem.o[objs[int(k)]], int(off), 1, 8), 8)
            return b[bit]

        def ev(cols):
            # group bits that share their support so that the columns share one basis call
            out = []
            for (c, sup) in cols:
                if not sup:
                    out.append(c[0])
                    continue
                idx = tuple(src(nm, bit) for nm, bit in sup)
                out.append(apply1(d, c[0], idx))
            return d.norm(tuple(out))
        news = []
        for k, off, n, cols, loc in s.writes:
            news.append((k, off, n, ev(cols), loc))
        ret = ev(s.ret) if s.ret is not None else None
        it.funcs_seen[name] = it.funcs_seen.get(name, 0) + 1
        it.calls_seen += 1
        l0 = it.loc
        for k, off, n, v, loc in news:
            it.loc = loc
            it.store(Ptr(objs[k], off), v, n)
        it.loc = l0
        return ret
    it.hook = hook


def apply1(d, col, idx):
    """value of the Boolean function with truth table col at the index bits"""
    n = len(idx)
    sym = [i for i, b in enumerate(idx) if b >= 2]
    if len(sym) < n:
        base = 0
        for i, b in enumerate(idx):
            if b == 1:
                base |= 1 << i
        nc = 0
        for j in range(1 << len(sym)):
            k = base
            for p, i in enumerate(sym):
                if (j >> p) & 1:
                    k |= 1 << i
            nc |= ((col >> k) & 1) << j
        col = nc
        idx = tuple(idx[i] for i in sym)
        n = len(idx)
    if n == 0:
        return col & 1
    # drop inputs the function does not depend on
    i = 0
    while i < n:
        dep = False
        for j in range(1 << n):
            if not (j >> i) & 1 and ((col >> j) ^ (col >> (j | 1 << i))) & 1:
                dep = True
                break
        if dep:
            i += 1
            continue
        nc = 0
        m = 0
        for j in range(1 << n):
            if not (j >> i) & 1:
                nc |= ((col >> j) & 1) << m
                m += 1
        col = nc
        idx = idx[:i] + idx[i + 1:]
        n -= 1
        if n == 0:
            return col & 1
    r = d.apply_cols((col,), idx)
    return r[0] if type(r) is tuple else r
