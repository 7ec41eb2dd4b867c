"""Harness: analyse an entry point of the library for one call shape, compare the value graphs of everything it writes
with an independently written specification in the same domain, and collect the memory / effect facts."""
import hashlib
import os
import time
import build
import dom
import absint
from absint import Ptr, Dead, Unsupported, TooMany


class Buf:
    __slots__ = ('ptr', 'n', 'name', 'init', 'role')

    def __init__(self, ptr, n, name, init, role):
        self.ptr = ptr
        self.n = n
        self.name = name
        self.init = init
        self.role = role


class Ctx:
    def __init__(self, mods, info, max_support=3, max_steps=60_000_000, d=None, summaries=True):
        self.d = d or dom.Dom(max_support)
        self.coarse = getattr(self.d, 'coarse', False)
        self.it = absint.Interp(mods, self.d, max_steps=max_steps)
        self.mods = mods
        self.info = info              # dict: family impl variant scenario
        self.bufs = []
        self.obl = {}                 # tag -> number of cells compared
        self.mism = []                # dicts
        self.uninit = []
        self.inputmods = []
        self.noreturn = []
        self.incomplete = None
        self.samples = []
        self.calls = []
        self.notes = []
        self.known = []
        self._init_globals()
        if summaries and not self.coarse:
            import summ
            summ.install(self.it)
        self.it.undef_check = self.undef_leaf

    def _init_globals(self):
        it = self.it
        for m in self.mods:
            for f in list(m.funcs):
                if f.startswith('_GLOBAL__sub_I') or f.startswith('__cxx_global_var_init'):
                    if f.startswith('__cxx_global_var_init'):
                        continue
                    try:
                        it.call(f, [], m)
                    except (Dead, Unsupported):
                        pass
        it.effects.clear()
        it.findings.clear()
        it._fkeys.clear()
        it.global_writes.clear()
        it.global_reads.clear()
        for k in it.counts:
            it.counts[k] = 0
        it.steps = 0

    # ---- objects
    def _buf(self, name, n, vals, role):
        self.it.loc = '?'
        p = self.it.new_obj(name, n, 'param')
        self.it.mem.o[p.obj].name = name
        self.it.mem.o[p.obj].align = None if role in ('state', 'mpz') else 1   # callers' byte buffers may lie anywhere
        for i, v in enumerate(vals):
            if v is not None:
                self.it.store(Ptr(p.obj, i), v, 1)
        if self.it.write_log:
            self.it.write_log.clear()
        b = Buf(p, n, name, list(vals), role)
        self.bufs.append(b)
        return b

    def sym(self, name, n, role='in'):
        """n bytes of unknown content (an input)"""
        return self._buf(name, n, [self.d.var('%s[%d]' % (name, i), 8) for i in range(n)], role)

    def vals(self, name, vals, role='in'):
        return self._buf(name, len(vals), list(vals), role)

    def const(self, name, data, role='in'):
        return self._buf(name, len(data), list(data), role)

    def huge(self, name, n, fn=None, role='in'):
        """n bytes of unknown content, created when read"""
        b = self._buf(name, n, [], role)
        d = self.d
        fn = fn or (lambda k: d.var('%s[%d]' % (name, k), 8))
        self.it.mem.wr(b.ptr.obj).lazy = fn
        b.init = fn
        return b

    def hugeout(self, name, n):
        b = self._buf(name, n, [], 'huge')
        return b

    def undef(self, name, n, role='out'):
        """n bytes of indeterminate content (output buffer or fresh state object)"""
        return self._buf(name, n, [None] * n, role)

    def state(self, szfn, name='state'):
        b = self.undef(name, self.size(szfn), 'state')
        self.it.mem.o[b.ptr.obj].align = self.size(szfn + '_al')
        return b

    def size(self, fn):
        r = self.it.call(fn, [])
        if type(r) is not int:
            raise Unsupported('size function %s' % fn)
        return r

    # ---- calls
    def call(self, fn, *args):
        vals = []
        for a in args:
            if isinstance(a, Buf):
                vals.append(a.ptr)
            else:
                vals.append(a)
        self.calls.append(fn)
        try:
            return self.it.call(fn, vals)
        except Dead:
            self.noreturn.append(fn)
            del self.it.stack[:]
            return 0

    def has(self, fn):
        return self.it.find_func(fn)[0] is not None

    def read(self, b, off=0, n=None):
        n = b.n - off if n is None else n
        it = self.it
        o = it.mem.o[b.ptr.obj]
        return [it.load_at(b.ptr.obj, o, b.ptr.off + off + i, 1, 8) for i in range(n)]

    def writer(self, b, i):
        c = self.it.mem.o[b.ptr.obj].cells.get(b.ptr.off + i)
        return c[3] if c is not None and c[3] else 'never written'

    # ---- obligations
    def count(self, tag, n):
        for t in tag.split('+'):
            self.obl[t] = self.obl.get(t, 0) + n

    def expect(self, tag, what, b, want, off=0):
        got = self.read(b, off, len(want))
        self.count(tag, len(want))
        bad = 0
        for i, (g, w) in enumerate(zip(got, want)):
            if type(g) is tuple:
                u = self.undef_leaf(g)
                if u:
                    self.uninit.append(dict(what=what, cell=off + i, loc=self.writer(b, off + i), leaf=u))
            if not self.same(g, w):
                if self.it.accel is not None and type(g) is tuple and any(str(l[1]).startswith('junk') for l in self.d.leaves(g)):
                    raise Unsupported('the result depends on a loop-carried value without counterpart in the specification')
                bad += 1
                if bad <= 4:
                    self.mism.append(dict(tag=tag, what=what, buf=b.name, cell=off + i, loc=self.writer(b, off + i),
                                          got=self.show(g), want=self.show(w)))
        if bad > 4:
            self.mism[-1]['more'] = bad - 4
        if len(self.samples) < 2 and want and not bad:
            self.samples.append('%s: %d byte graphs equal; byte %d = %s' % (what, len(want) - bad, off, self.show(want[0])[:160]))
        return bad == 0

    def expect_val(self, tag, what, got, want, w=8, loc='return value'):
        self.count(tag, 1)
        if type(got) is tuple:
            u = self.undef_leaf(got)
            if u:
                self.uninit.append(dict(what=what, cell=0, loc=loc, leaf=u))
        if not self.same(got, want):
            if self.it.accel is not None and type(got) is tuple and any(str(l[1]).startswith('junk') for l in self.d.leaves(got)):
                raise Unsupported('the result depends on a loop-carried value without counterpart in the specification')
            self.mism.append(dict(tag=tag, what=what, buf='value', cell=0, loc=loc, got=self.show(got), want=self.show(want)))
            return False
        return True

    def fail(self, tag, what, loc, got='', want=''):
        self.count(tag, 1)
        self.mism.append(dict(tag=tag, what=what, buf='', cell=0, loc=loc, got=got, want=want))

    def ok(self, tag, n=1):
        self.count(tag, n)

    def same(self, g, w):
        if type(g) is not tuple and type(w) is not tuple:
            return g == w
        if type(g) is not tuple or type(w) is not tuple:
            return False
        n = max(len(g), len(w))
        g += (0,) * (n - len(g))
        w += (0,) * (n - len(w))
        return g == w or not self.coarse and all(map(self.d.same1, g, w))

    def undef_leaf(self, v):
        if self.coarse:
            return 'uninitialised' if max(v) >= 4 else None
        if not hasattr(self, '_uclean'):
            self._uclean = set()
            self._unodes = set()
            self._uwords = set()
        d = self.d
        seen = set()
        nodes = self._unodes
        words = self._uwords
        stack = [b >> 1 for b in v if b > 1]
        while stack:
            k = stack.pop()
            if k in seen or k in self._uclean:
                continue
            seen.add(k)
            for a in d.forms[k]:
                x = d.atoms[a]
                t = x[0]
                if t == 'v':
                    continue
                if t == 'u':
                    self._unodes = set()      # this walk was not finished
                    self._uclean = set()
                    self._uwords = set()
                    return '%s.%d' % (x[1], x[2])
                # the bits of one sum, product, lookup or selection share their operands
                key = (t, x[1]) if t in 'sp' else (t, x[3]) if t == 't' else (t, x[1], x[2]) if t in 'xo' else None
                if key is not None:
                    if key in nodes:
                        continue
                    nodes.add(key)
                if t == 's':
                    for wd, _ in d.Tlist[x[1]]:
                        if wd not in words:
                            words.add(wd)
                            stack.extend([b >> 1 for b in d.wordlist[wd] if b > 1])
                    continue
                stack.extend([b >> 1 for b in d.children(a) if b > 1])
        self._uclean |= seen
        return None

    def show(self, v):
        if type(v) is not tuple:
            return hex(v) if isinstance(v, int) else repr(v)
        return 'bit0 = ' + self.d.show(v[0], 2)[:300]

    # ---- end of scenario
    def finish(self):
        it = self.it
        for b in self.bufs:
            if callable(b.init):
                o = it.mem.o[b.ptr.obj]
                bad = sorted(k for k, c in o.cells.items() if c[3] != '?')
                if bad or o.skip:
                    k = bad[0] if bad else o.skip[0][0]
                    self.inputmods.append(dict(buf=b.name, cell=k, loc=self.writer(b, k)))
            elif b.role == 'in' and self.coarse:
                o = it.mem.o[b.ptr.obj]
                for i in range(b.n):
                    c = o.cells.get(b.ptr.off + i)
                    if c is None or c[3] != '?':
                        self.inputmods.append(dict(buf=b.name, cell=i, loc=self.writer(b, i)))
                        break
            elif b.role == 'in':
                now = self.read(b)
                for i, (x, y) in enumerate(zip(now, b.init)):
                    if not self.same(x, y):
                        self.inputmods.append(dict(buf=b.name, cell=i, loc=self.writer(b, i)))
                        break
        leaks = []
        for n, o in it.mem.o.items():
            if o.kind == 'heap' and o.alive:
                leaks.append(o.name)
        leaks += it.extra.get('leaked', [])
        mf = [it.mem.o[n].name for n, c in it.extra.get('maybe_freed', []) if n in it.mem.o]
        outs = [(loc, fn, repr(det[0])[:80], [self.secret_args(det)]) for k, loc, fn, det, c in it.effects if k == 'output']
        exits = [(loc, fn, str(det[0])) for k, loc, fn, det, c in it.effects if k == 'exit']
        asm = [(loc, fn) for k, loc, fn, det, c in it.effects if k == 'asm']
        gw = sorted(set((n, loc, fn) for n, loc, fn in it.global_writes if fn != '' and not n.lstrip('@').startswith('_ZGV') and n in it.global_reads))
        return dict(info=self.info, obl=self.obl, mism=self.mism, uninit=self.uninit[:20], inputmods=self.inputmods,
                    noreturn=self.noreturn, incomplete=self.incomplete, samples=self.samples,
                    findings=[dict(kind=f.kind, loc=f.loc, func=f.func, msg=f.msg) for f in it.findings],
                    leaks=sorted(set(leaks)), maybe_leaks=sorted(set(mf)), outputs=outs, exits=exits, asm=asm, gwrites=gw, counts=dict(it.counts),
                    funcs=dict(it.funcs_seen), calls=it.calls_seen, steps=it.steps, joins=it.branches_sym,
                    atoms=len(self.d.atoms), forms=len(self.d.forms), buffers=len(self.bufs), entries=list(self.calls),
                    nin=sum(b.role == 'in' for b in self.bufs), nheap=sum(1 for o in it.mem.o.values() if o.kind == 'heap'),
                    notes=self.notes, known=self.known)

    def secret_args(self, det):
        name, v, tys = det
        names = set()
        for x in v:
            if type(x) is tuple:
                for l in list(self.d.leaves(x))[:50]:
                    names.add(str(l[1]).split('[')[0])
        return sorted(names)


def _defined(self, what, b, off=0, n=None):
    """every byte of the buffer was written with data that does not come from uninitialised memory"""
    n = b.n - off if n is None else n
    self.obl['defined'] = self.obl.get('defined', 0) + n
    for i, g in enumerate(self.read(b, off, n)):
        if type(g) is tuple:
            u = self.undef_leaf(g)
            if u:
                self.uninit.append(dict(what=what, cell=off + i, loc=self.writer(b, off + i), leaf=u))


def _defval(self, what, v, loc):
    self.obl['defined'] = self.obl.get('defined', 0) + 1
    if type(v) is tuple:
        u = self.undef_leaf(v)
        if u:
            self.uninit.append(dict(what=what, cell=0, loc=loc, leaf=u))


Ctx.defined = _defined
Ctx.defval = _defval
