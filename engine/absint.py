"""Abstract interpreter over LLVM IR in the value-graph domain (dom.Dom).

Forward dataflow over the control-flow graph: branches decided by constant propagation are followed, branches on
symbolic predicates analyse both arms and JOIN at the immediate post-dominator (gated phi).  No path enumeration, no
solver, no concrete input.  Memory is a set of objects with byte-offset cells (strong updates)."""
import math
import re
import sys
from irparse import Module, parse_global

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class TooMany(Unsupported):
    pass


class Ptr:
    __slots__ = ('obj', 'off', 'sym')

    def __init__(self, obj, off, sym=None):
        self.obj = obj
        self.off = off
        self.sym = sym      # None or (64-bit word) symbolic byte offset added

    def __eq__(self, o):
        return type(o) is Ptr and self.obj == o.obj and self.off == o.off and self.sym == o.sym

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.obj, self.off, self.sym))

    def __repr__(self):
        return '&%s+%s%s' % (self.obj, self.off, '+sym' if self.sym is not None else '')


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return type(o) is Fn and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'fn:' + self.name


class PIte:
    """gated pointer: cond ? a : b"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __eq__(self, o):
        return type(o) is PIte and (self.c, self.a, self.b) == (o.c, o.a, o.b)

    def __hash__(self):
        return hash((self.c, self.a, self.b))


class Opq:
    """opaque external object (stream, string...)"""
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, o):
        return type(o) is Opq and o.tag == self.tag

    def __hash__(self):
        return hash(self.tag)

    def __repr__(self):
        return 'opq:' + str(self.tag)


NULL = Ptr('null', 0)
BULK = 1 << 16           # longer copies keep only WINDOW bytes at both ends
WINDOW = 4096


def HEADERS(f):
    import accel
    return accel.headers(f)


class Flt:
    """constant floating-point value"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return type(o) is Flt and o.v == self.v

    def __hash__(self):
        return hash(('flt', self.v))

    def __repr__(self):
        return 'flt:%r' % self.v


def parse_float(t):
    if t.startswith('0x'):
        import struct
        return struct.unpack('<d', struct.pack('<Q', int(t[2:], 16)))[0]
    return float(t)


class Obj:
    __slots__ = ('name', 'size', 'cells', 'kind', 'const', 'alive', 'elems', 'alloc_loc', 'fn', 'skip', 'lazy', 'align')

    def __init__(self, name, size, kind, const=False):
        self.name = name
        self.size = size
        self.cells = {}       # byte -> (value, nbytes, index, loc)
        self.kind = kind      # 'stack' 'heap' 'global' 'param'
        self.align = 16 if kind in ('heap', 'stack') else None   # guaranteed alignment (None: not known here)
        self.const = const
        self.alive = True
        self.elems = {}       # element width -> cached list (const tables)
        self.alloc_loc = None
        self.fn = None
        self.skip = ()        # byte ranges written by extrapolated loop iterations (content not represented)
        self.lazy = None      # content of bytes without a cell, as a function of the offset (huge inputs)

    def skipped(self, k):
        for a, b in self.skip:
            if a <= k < b:
                return True
        return False

    def cell(self, k):
        c = self.cells.get(k)
        if c is None:
            if self.skip and self.skipped(k):
                raise Unsupported('read of %s+%d, which an extrapolated iteration wrote' % (self.name, k))
            if self.lazy is not None:
                c = (self.lazy(k), 1, 0, '?')
        return c

    def copy(self):
        o = Obj.__new__(Obj)
        o.name = self.name
        o.size = self.size
        o.cells = dict(self.cells)
        o.kind = self.kind
        o.const = self.const
        o.alive = self.alive
        o.elems = {}
        o.alloc_loc = self.alloc_loc
        o.align = self.align
        o.fn = self.fn
        o.skip = self.skip
        o.lazy = self.lazy
        return o


class Finding:
    def __init__(self, kind, loc, func, msg, cond=None):
        self.kind = kind
        self.loc = loc
        self.func = func
        self.msg = msg
        self.cond = cond

    def __repr__(self):
        return '%s at %s in %s: %s' % (self.kind, self.loc, self.func, self.msg)


class Dead(Exception):
    """the analysed path ends (exit/abort/unreachable)"""


class Mem:
    """copy-on-write map of objects"""

    def __init__(self):
        self.o = {}
        self.own = set()

    def fork(self):
        m = Mem()
        m.o = dict(self.o)
        m.own = set()
        self.own = set()
        return m

    def get(self, n):
        return self.o[n]

    def wr(self, n):
        x = self.o[n]
        if n not in self.own:
            x = x.copy()
            self.o[n] = x
            self.own.add(n)
        return x


class Interp:
    def __init__(self, mods, dom, models=None, max_steps=40_000_000):
        self.mods = mods if isinstance(mods, list) else [mods]
        self.d = dom
        self.mem = Mem()
        self.findings = []
        self._fkeys = set()
        self.nobj = 0
        self.ginit = {}
        self.gmemo = {}
        self.models = dict(DEFAULT_MODELS)
        if models:
            self.models.update(models)
        self.effects = []        # (kind, loc, func, detail, cond)
        self.stack = []
        self.conds = []          # enclosing symbolic decisions (bit ids)
        self.assumed = []        # decisions whose other outcome ended the program
        self.steps = 0
        self.max_steps = max_steps
        self.max_findings = 60
        self.funcs_seen = {}
        self.calls_seen = 0
        self.branches_sym = 0
        self.loc = '?'
        self.hook = None
        self.max_fork = 400
        self.undef_check = None
        self.global_writes = []  # static memory: (object, loc, function)
        self.global_reads = set()
        self.guarded = 0         # inside the initialisation of a function-local static
        self.counts = dict(loads=0, stores=0, copies=0, externals=0)
        self.counts['vector accesses'] = 0
        self.write_log = None
        self.read_log = None
        self.instr_by_func = {}
        self.extra = {}
        self.accel = None        # accel.Accel: extrapolation of long loops
        self.tr = None           # instruction trace while a loop is being observed

    # ---------- reporting
    def report(self, kind, msg, loc=None):
        f = self.stack[-1] if self.stack else '?'
        loc = loc or self.loc
        key = (kind, loc, f, msg.split(' [')[0])
        if key in self._fkeys:
            return
        self._fkeys.add(key)
        self.findings.append(Finding(kind, loc, f, msg, self.conds[-1] if self.conds else None))
        if len(self.findings) > self.max_findings:
            raise TooMany('more than %d findings' % self.max_findings)

    # ---------- objects
    def new_obj(self, name, size, kind, const=False):
        self.nobj += 1
        n = '%s#%d' % (name, self.nobj)
        o = Obj(name, size, kind, const)
        o.alloc_loc = self.loc
        o.fn = self.stack[-1] if self.stack else None
        self.mem.o[n] = o
        self.mem.own.add(n)
        return Ptr(n, 0)

    def find_func(self, name, mod=None):
        if mod is not None:
            f = mod.func(name)
            if f is not None:
                return f, mod
        for m in self.mods:
            f = m.func(name)
            if f is not None:
                return f, m
        return None, None

    def global_ptr(self, name, mod):
        k = (id(mod), name)
        p = self.gmemo.get(k)
        if p is None:
            p = self.gmemo[k] = self.global_ptr1(name, mod)
        return p

    def global_ptr1(self, name, mod):
        name = mod.aliases.get(name, name)
        if name in mod.funcs or name in mod.decls:
            return Fn(name)
        key = None
        m0 = mod
        if name not in mod.globals:
            raise Unsupported('global ' + name)
        t, const, init, ext = parse_global_c(mod, name)
        if ext:
            for m in self.mods:
                if name in m.globals:
                    t2, c2, i2, e2 = parse_global_c(m, name)
                    if not e2:
                        t, const, init, ext, m0 = t2, c2, i2, e2, m
                        break
        internal = 'internal' in mod.globals[name].split(' ')[:3] or 'private' in mod.globals[name].split(' ')[:3]
        key = ('g', id(m0) if internal else 0, name)
        if key in self.ginit:
            return Ptr(self.ginit[key], 0)
        if ext:
            o = Opq('global:' + name)
            return o
        oname = '@' + name
        if oname in self.mem.o:
            oname = '@%s#%d' % (name, len(self.ginit))
        o = Obj(name, m0.size(t), 'tls' if 'thread_local' in m0.globals[name].split(' ')[:4] else 'global', const)
        self.mem.o[oname] = o
        al = re.search(r', align (\d+)', re.sub(r'c"[^"]*"', '', m0.globals[name]))
        o.align = int(al.group(1)) if al else m0.align(t)
        self.ginit[key] = oname
        self.init_cells(o, 0, t, init, m0)
        return Ptr(oname, 0)

    def init_cells(self, o, off, t, init, mod):
        t = mod.resolve(t)
        if init is None or init[0] == 'undef':
            return
        k = init[0]
        if k == 'zero':
            for i in range(mod.size(t)):
                o.cells[off + i] = (0, 1, 0, 'init')
            return
        if k == 'str':
            for i, b in enumerate(init[1]):
                o.cells[off + i] = (b, 1, 0, 'init')
            return
        if k == 'agg':
            if t[0] == 's':
                for i, (et, v) in enumerate(init[1]):
                    fo, ft = mod.field(t, i)
                    self.init_cells(o, off + fo, ft, v, mod)
            else:
                es = mod.size(t[2])
                for i, (et, v) in enumerate(init[1]):
                    self.init_cells(o, off + i * es, t[2], v, mod)
            return
        v = self.const_val(init, t, mod)
        n = mod.size(t)
        for i in range(n):
            o.cells[off + i] = (v, n, i, 'init')

    def const_val(self, v, t, mod):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(v[1], mod)
        if k == 'zero':
            rt = mod.resolve(t)
            if rt[0] == 'p':
                return NULL
            if rt[0] in ('s', 'a'):
                if rt[0] == 's':
                    return [self.const_val(('zero',), ft, mod) for ft in rt[1]]
                return [self.const_val(('zero',), rt[2], mod) for _ in range(rt[1])]
            return 0
        if k == 'undef':
            rt = mod.resolve(t)
            if rt[0] == 'p':
                return Opq('undef')
            if rt[0] == 's':
                return [self.const_val(('undef',), ft, mod) for ft in rt[1]]
            if rt[0] == 'a':
                return [self.const_val(('undef',), rt[2], mod) for _ in range(rt[1])]
            self.nobj += 1
            return self.d.undef('poison%d' % self.nobj, mod.bits(t))
        if k == 'gep':
            base = self.const_val(v[2][0][1], v[2][0][0], mod)
            return self.gep(base, v[1], [(et, self.const_val(x, et, mod)) for et, x in v[2][1:]], mod)
        if k == 'cast':
            x = self.const_val(v[3], v[2], mod)
            return x
        if k == 'agg':
            rt = mod.resolve(t)
            if rt[0] == 'x':
                parts = []
                ew = mod.bits(rt[2])
                for et, x in v[1]:
                    parts.append((self.const_val(x, et, mod), ew))
                return self.d.concat(parts)
            return [self.const_val(x, et, mod) for et, x in v[1]]
        if k == 'cbin':
            a = self.const_val(v[3], v[2], mod)
            b = self.const_val(v[4], v[2], mod)
            return self.binop(v[1], a, b, mod.bits(v[2]))
        if k == 'flt':
            return Flt(parse_float(v[1]))
        if k == 'asm':
            return ('asm', v[1], v[2])
        raise Unsupported('const %r' % (v,))

    # ---------- pointers
    def addp(self, p, off):
        """p + off, off int (signed ok) or 64-bit word"""
        if type(p) is PIte:
            return PIte(p.c, self.addp(p.a, off), self.addp(p.b, off))
        if type(p) is not Ptr:
            if off == 0:
                return p
            if type(p) is Opq:
                return Opq((p.tag, 'off'))
            raise Unsupported('pointer arithmetic on %r' % (p,))
        if type(off) is not tuple:
            if off >> 63:
                off -= 1 << 64
            return Ptr(p.obj, p.off + off, p.sym)
        # split constant part
        d = self.d
        s = p.sym
        if s is None:
            s = off
        else:
            s = d.add(s, off, 64)
        if type(s) is not tuple:
            if s >> 63:
                s -= 1 << 64
            return Ptr(p.obj, p.off + s, None)
        # pull the constant addend of a sum out
        k = d.sum_prefix(s)
        if k is not None:
            terms, c = k
            if c >> 63:
                c -= 1 << 64
            if c:
                s2 = d._build(dict(terms), 0, 64)
                return Ptr(p.obj, p.off + c, s2)
        mn = d.umin(s, 64)
        if mn and not (mn >> 63):
            s2 = tuple(0 if b == 1 else b for b in s)
            return Ptr(p.obj, p.off + mn, s2)
        return Ptr(p.obj, p.off, s)

    def gep(self, p, t, idx, mod):
        first = True
        for et, v in idx:
            if first:
                sz = mod.size(t)
                first = False
            else:
                t = mod.resolve(t)
                if t[0] == 's':
                    off, t = mod.field(t, v)
                    p = self.addp(p, off)
                    continue
                t = t[2]
                sz = mod.size(t)
            w = mod.bits(et)
            if type(v) is tuple:
                v = self.d.sext(v, w, 64)
                off = self.d.mul(v, sz, 64)
            else:
                if not isinstance(v, int):
                    raise Unsupported('gep index %r' % (v,))
                if w < 64 and v >> (w - 1):
                    v |= ((1 << (64 - w)) - 1) << w
                off = (v * sz) & ((1 << 64) - 1)
            p = self.addp(p, off)
        return p

    # ---------- memory access
    def load(self, p, n, w, isptr=False, tag='load'):
        d = self.d
        if type(p) is PIte:
            a = self.load(p.a, n, w, isptr)
            b = self.load(p.b, n, w, isptr)
            return self.merge_val(p.c, a, b, w)
        if type(p) is not Ptr:
            if type(p) is Opq:
                if isptr:
                    return Opq(('deref', p.tag))
                return d.opaque('deref:%s' % (p.tag,), (), w)
            raise Unsupported('load from %r' % (p,))
        if p.obj == 'null':
            self.report('null-deref', 'read through a null pointer')
            return d.undef('null', w)
        o = self.mem.o.get(p.obj)
        if o is None:
            self.report('use-after-return', 'read of the dead stack object %s' % p.obj.split('#')[0])
            return d.undef('dead', w)
        if not o.alive:
            self.report('use-after-free', 'read of %s after it was released' % o.name)
            return d.undef('freed', w)
        if o.kind == 'global' and not o.const:
            self.global_reads.add(o.name)
        self.counts['loads'] += 1
        if p.sym is not None:
            return self.load_sym(o, p, n, w)
        if p.off < 0 or (o.size is not None and p.off + n > o.size):
            self.report('oob-read', 'read of %d byte(s) at offset %d of %s (size %s)' % (n, p.off, o.name, o.size))
            return d.undef('oob:%s:%d' % (o.name, p.off), w)
        if self.read_log is not None:
            self.read_log.append((p.obj, p.off, n, self.loc, self.stack[-1] if self.stack else '?'))
        if self.tr is not None:
            v = self.load_at(p.obj, o, p.off, n, w)
            if type(v) is int:
                c = o.cells.get(p.off)
                part = c is None or c[2] != 0 or c[1] != n or any(o.cells.get(p.off + i, (0, 0))[0] is not c[0] for i in range(1, n))
                self.tr.append(('L', 'L', (p, n), 'part' if part else True, v))
            else:
                self.tr.append(('L', 'L', (p, n), False, None))
            return v
        return self.load_at(p.obj, o, p.off, n, w)

    def load_at(self, on, o, off, n, w):
        d = self.d
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[1] == n and c[2] == 0:
            v = c[0]
            ok = True
            for i in range(1, n):
                x = cells.get(off + i)
                if x is None or x[0] is not v or x[2] != i or x[1] != n:
                    ok = False
                    break
            if ok:
                if type(v) is int and w < n * 8:
                    return v & ((1 << w) - 1)
                if type(v) is tuple and len(v) != w:
                    return d.norm(v[:w]) if len(v) > w else d.norm(v + (0,) * (w - len(v)))
                return v
        parts = []
        i = 0
        while i < n:
            c = cells.get(off + i)
            if c is None and (o.skip or o.lazy is not None):
                c = o.cell(off + i)
            if c is None:
                parts.append((d.undef('%s+%d' % (on, off + i), 8), 8))
                i += 1
                continue
            v, cn, ci, _ = c
            if type(v) is not int and type(v) is not tuple:
                if type(v) in (Ptr, Opq, Fn, PIte, list):
                    if ci == 0 and cn == n:
                        return v
                    if type(v) is Ptr and v == NULL:
                        parts.append((0, 8))
                        i += 1
                        continue
                    parts.append((d.opaque('ptrbyte:%r' % (v,), (ci,), 8), 8))
                    i += 1
                    continue
                h = self.extra.get('mpz_sign')
                if h is not None and cn == 16 and ci == 4 and n == 4:
                    return h(v)
                raise Unsupported('partial load of %r' % (v,))
            if type(v) is int:
                parts.append(((v >> (8 * ci)) & 255, 8))
            else:
                seg = v[8 * ci:8 * ci + 8]
                if len(seg) < 8:
                    seg = seg + (0,) * (8 - len(seg))
                parts.append((d.norm(seg), 8))
            i += 1
        r = d.concat(parts)
        if type(r) is tuple:
            r = d.norm(r[:w])
        else:
            r &= (1 << w) - 1
        return r

    def sym_offsets(self, p):
        d = self.d
        s = p.sym
        pos = [i for i, b in enumerate(s) if b >= 2]
        base = d.umin(s, 64)
        if len(pos) > 12:
            return None, None, None
        return pos, base, tuple(s[i] for i in pos)

    def load_sym(self, o, p, n, w):
        d = self.d
        if getattr(d, 'coarse', False) and not o.const:
            return self.load_coarse(o, p, n, w)
        pos, base, idx = self.sym_offsets(p)
        if pos is None:
            s = p.sym
            hi = d.umax(s, 64)
            # unresolvable index: describe and give up on the value
            self.report('oob-read', 'index of %s not provably inside the object' % o.name)
            return d.opaque('badindex:%s' % o.name, (s,), w)
        vals = []
        if o.const and pos == list(range(pos[0], pos[0] + len(pos))):
            key = ('sym', p.off + base, n, w, pos[0], len(pos))
            t = o.elems.get(key)
        else:
            key = None
            t = None
        if t is None:
            for j in range(1 << len(pos)):
                off = p.off + base
                for q, i in enumerate(pos):
                    if (j >> q) & 1:
                        off += 1 << i
                if off < 0 or (o.size is not None and off + n > o.size):
                    self.report('oob-read', 'index can reach offset %d of %s (size %s)' % (off, o.name, o.size))
                    vals.append(d.undef('oob:%s:%d' % (o.name, off), w))
                else:
                    vals.append(self.load_at(p.obj, o, off, n, w))
            if any(type(v) not in (int, tuple) for v in vals):
                raise Unsupported('symbolic index into pointers')
            if key:
                t = o.elems[key] = vals
        else:
            vals = t
        if key and getattr(d, 'coarse', False):
            return d.lookup(vals, idx, w)
        return d.select(vals, idx, w)

    def load_coarse(self, o, p, n, w):
        d = self.d
        lo = p.off + d.umin(p.sym, 64)
        hi = p.off + d.umax(p.sym, 64)
        if lo < 0 or (o.size is not None and hi + n > o.size):
            self.report('oob-read', 'index can reach offset %d of %s (size %s)' % (hi if hi < 1 << 40 else -1, o.name, o.size))
            return d.undef('oob', w)
        cells = o.cells
        seen = set()
        bad = max(p.sym) >= 4
        for k in range(lo, hi + n):
            c = cells.get(k)
            if c is None:
                bad = True
                break
            v = c[0]
            if id(v) not in seen:
                seen.add(id(v))
                if type(v) is tuple:
                    if max(v) >= 4:
                        bad = True
                        break
                elif type(v) is not int:
                    raise Unsupported('symbolic index into pointers')
        return d.bad(w) if bad else d.top(w)

    def store(self, p, v, n):
        d = self.d
        if type(p) is PIte:
            old = self.load(p.a, n, n * 8)
            self.store(p.a, self.merge_val(p.c, v, old, n * 8), n)
            old = self.load(p.b, n, n * 8)
            self.store(p.b, self.merge_val(p.c, old, v, n * 8), n)
            return
        if type(p) is not Ptr:
            if type(p) is Opq:
                self.effects.append(('store-opaque', self.loc, self.stack[-1] if self.stack else '?', (p.tag, v), tuple(self.conds)))
                return
            raise Unsupported('store to %r' % (p,))
        if p.obj == 'null':
            self.report('null-deref', 'write through a null pointer')
            return
        o = self.mem.o.get(p.obj)
        if o is None:
            self.report('use-after-return', 'write of the dead stack object %s' % p.obj.split('#')[0])
            return
        if not o.alive:
            self.report('use-after-free', 'write of %s after it was released' % o.name)
            return
        if o.const:
            self.report('const-write', 'write to constant %s' % o.name)
            return
        self.counts['stores'] += 1
        if p.sym is not None:
            return self.store_sym(o, p, v, n)
        if p.off < 0 or (o.size is not None and p.off + n > o.size):
            self.report('oob-write', 'write of %d byte(s) at offset %d of %s (size %s)' % (n, p.off, o.name, o.size))
            return
        if o.kind == 'global':
            self.global_writes.append((o.name, self.loc, '' if self.guarded else self.stack[-1] if self.stack else '?'))
        if self.write_log is not None:
            self.write_log.append((p.obj, p.off, n, self.loc, self.stack[-1] if self.stack else '?'))
        if self.tr is not None:
            self.tr.append(('S', 'S', (p, n), None, None))
        o = self.mem.wr(p.obj)
        off = p.off
        cells = o.cells
        loc = self.loc
        for i in range(n):
            cells[off + i] = (v, n, i, loc)

    def store_sym(self, o, p, v, n):
        d = self.d
        pos, base, idx = self.sym_offsets(p)
        if pos is None:
            self.report('oob-write', 'index of %s not provably inside the object' % o.name)
            return
        if o.kind == 'global':
            self.global_writes.append((o.name, self.loc, '' if self.guarded else self.stack[-1] if self.stack else '?'))
        for j in range(1 << len(pos)):
            off = p.off + base
            c = []
            for q, i in enumerate(pos):
                if (j >> q) & 1:
                    off += 1 << i
                    c.append(idx[q])
                else:
                    c.append(idx[q] ^ 1)
            if off < 0 or (o.size is not None and off + n > o.size):
                self.report('oob-write', 'index can reach offset %d of %s (size %s)' % (off, o.name, o.size))
                continue
            old = self.load_at(p.obj, self.mem.o[p.obj], off, n, n * 8)
            self.store(Ptr(p.obj, off), self.merge_val(d.conj(c), v, old, n * 8), n)

    # bulk helpers
    def rd_bytes(self, p, n):
        out = []
        for i in range(n):
            out.append(self.load(self.addp(p, i), 1, 8))
        return out

    def memcpy(self, dst, src, n):
        if n == 0:
            return
        if type(dst) is PIte or type(src) is PIte:
            vals = self.rd_bytes(src, n)
            for i, v in enumerate(vals):
                self.store(self.addp(dst, i), v, 1)
            return
        if type(dst) is not Ptr or type(src) is not Ptr or dst.sym is not None or src.sym is not None:
            raise Unsupported('memcpy %r %r' % (dst, src))
        for p, kind in ((src, 'oob-read'), (dst, 'oob-write')):
            if p.obj == 'null':
                self.report('null-deref', 'memcpy with a null pointer')
                return
            o = self.mem.o.get(p.obj)
            if o is None:
                self.report('use-after-return', 'memcpy with the dead stack object %s' % p.obj.split('#')[0])
                return
            if not o.alive:
                self.report('use-after-free', 'memcpy with released %s' % o.name)
                return
            if p.off < 0 or (o.size is not None and p.off + n > o.size):
                self.report(kind, 'copy of %d byte(s) at offset %d of %s (size %s)' % (n, p.off, o.name, o.size))
                n = max(0, min(n, o.size - p.off)) if o.size is not None else n
        so = self.mem.o[src.obj]
        self.counts['copies'] += 1
        if so.kind == 'global' and not so.const:
            self.global_reads.add(so.name)
        if self.read_log is not None:
            self.read_log.append((src.obj, src.off, n, self.loc, self.stack[-1] if self.stack else '?'))
        do = self.mem.o[dst.obj]
        if do.const:
            self.report('const-write', 'copy into constant %s' % do.name)
            return
        if do.kind == 'global':
            self.global_writes.append((do.name, self.loc, '' if self.guarded else self.stack[-1] if self.stack else '?'))
        if self.write_log is not None:
            self.write_log.append((dst.obj, dst.off, n, self.loc, self.stack[-1] if self.stack else '?'))
        if self.tr is not None:
            self.tr.append(('S', 'mc', (dst, n), None, None))
            self.tr.append(('L', 'mc', (src, n), n <= BULK and any(type(so.cells.get(src.off + i, (None,))[0]) is int for i in range(n)), None))
        if n > BULK:
            # both ends are copied byte by byte; what lies between is not represented
            if src.obj == dst.obj:
                raise Unsupported('huge overlapping copy')
            heads = [(i, so.cell(src.off + i)) for i in list(range(WINDOW)) + list(range(n - WINDOW, n))]
            do = self.mem.wr(dst.obj)
            self.skip_range(do, dst.off, dst.off + n)
            for i, c in heads:
                do.cells[dst.off + i] = (c or (self.d.undef('%s+%d' % (src.obj, src.off + i), 8), 1, 0))[:3] + (self.loc,)
            return
        tmp = []
        for i in range(n):
            c = so.cells.get(src.off + i)
            if c is None and (so.skip or so.lazy is not None):
                c = so.cell(src.off + i)
            if c is None:
                c = (self.d.undef('%s+%d' % (src.obj, src.off + i), 8), 1, 0, None)
            tmp.append(c)
        do = self.mem.wr(dst.obj)
        loc = self.loc
        for i, c in enumerate(tmp):
            do.cells[dst.off + i] = (c[0], c[1], c[2], loc)

    def skip_range(self, o, lo, hi):
        for k in [k for k in o.cells if lo <= k < hi]:
            del o.cells[k]
        import accel
        o.skip = accel.merge_range(o.skip, lo, hi)

    def memset(self, dst, v, n):
        if n > BULK and type(dst) is Ptr and dst.sym is None:
            for i in list(range(WINDOW)) + list(range(n - WINDOW, n)):
                self.store(self.addp(dst, i), v, 1)
            if dst.obj in self.mem.o and self.mem.o[dst.obj].alive:
                o = self.mem.wr(dst.obj)
                self.skip_range(o, dst.off + WINDOW, dst.off + n - WINDOW)
            if self.tr is not None:
                self.tr.append(('S', 'ms', (dst, n), None, None))
            return
        for i in range(n):
            self.store(self.addp(dst, i), v, 1)

    def cstr(self, p):
        out = bytearray()
        if type(p) is not Ptr:
            return None
        i = 0
        while True:
            o = self.mem.o.get(p.obj)
            if o is None:
                return None
            c = o.cell(p.off + i)
            if c is None or type(c[0]) is not int:
                return None
            b = (c[0] >> (8 * c[2])) & 255
            if b == 0:
                return out.decode('latin1')
            out.append(b)
            i += 1

    # ---------- merging
    def merge_val(self, c, a, b, w):
        if a is b:
            return a
        ta = type(a)
        tb = type(b)
        if ta in (int, tuple) and tb in (int, tuple):
            if a == b:
                return a
            if w is None:
                w = len(a) if ta is tuple else len(b) if tb is tuple else max(a.bit_length(), b.bit_length(), 1)
            return self.d.ite(c, a, b, w)
        if a == b:
            return a
        if ta is list and tb is list:
            return [self.merge_val(c, x, y, None) for x, y in zip(a, b)]
        if c < 2:
            return a if c else b
        if ta in (Ptr, PIte, Opq, Fn) and tb in (Ptr, PIte, Opq, Fn):
            return PIte(c, a, b)
        m = self.extra.get('merge')
        if m:
            r = m(self, c, a, b)
            if r is not None:
                return r
        raise Unsupported('merge %r %r' % (a, b))

    def merge_mem(self, c, ma, mb):
        out = Mem()
        for n in set(ma.o) | set(mb.o):
            a = ma.o.get(n)
            b = mb.o.get(n)
            if a is None or b is None:
                out.o[n] = a or b
                continue
            if a is b:
                out.o[n] = a
                continue
            o = a.copy()
            ks = [k for k in set(a.cells) | set(b.cells) if a.cells.get(k) != b.cells.get(k)]
            done = set()
            for k in sorted(ks):
                if k in done:
                    continue
                x = a.cells.get(k)
                y = b.cells.get(k)
                if (x is None and a.skip and a.skipped(k)) or (y is None and b.skip and b.skipped(k)):
                    o.cells.pop(k, None)
                    continue
                # whole value merge if aligned alike
                if x is not None and y is not None and x[2] == 0 and y[2] == 0 and x[1] == y[1] and \
                        all(a.cells.get(k + i, (None,) * 4)[:3] == (x[0], x[1], i) and b.cells.get(k + i, (None,) * 4)[:3] == (y[0], y[1], i) for i in range(x[1])):
                    nb = x[1]
                    if x[0] == y[0]:
                        v = x[0]
                    else:
                        v = self.merge_val(c, x[0], y[0], nb * 8)
                    for i in range(nb):
                        o.cells[k + i] = (v, nb, i, x[3] if x[0] != y[0] else x[3])
                        done.add(k + i)
                    continue
                va = self.load_at(n, a, k, 1, 8)
                vb = self.load_at(n, b, k, 1, 8)
                o.cells[k] = (self.merge_val(c, va, vb, 8), 1, 0, (x or y)[3])
            if a.skip or b.skip:
                import accel
                o.skip = a.skip
                for lo, hi in b.skip:
                    o.skip = accel.merge_range(o.skip, lo, hi)
            o.alive = a.alive and b.alive
            if a.alive != b.alive:
                o.alive = True
                self.extra.setdefault('maybe_freed', []).append((n, c))
            out.o[n] = o
            out.own.add(n)
        return out

    # ---------- operators
    def binop(self, op, a, b, w):
        d = self.d
        if op == 'add':
            return d.add(a, b, w)
        if op == 'sub':
            return d.sub(a, b, w)
        if op == 'xor':
            return d.xor(a, b, w)
        if op == 'and':
            return d.and_(a, b, w)
        if op == 'or':
            return d.or_(a, b, w)
        if op == 'mul':
            return d.mul(a, b, w)
        ca = type(a) is not tuple
        cb = type(b) is not tuple
        M = (1 << w) - 1
        if op in ('shl', 'lshr', 'ashr'):
            if cb:
                if b >= w:
                    self.report('shift-ub', '%s by %d of a %d-bit value' % (op, b if b < 1 << (w - 1) else b - (1 << w), w))
                    # what x86/ARM would do is not defined by the language
                    return d.undef('shift:%s' % self.loc, w)
                return getattr(d, op)(a, b, w)
            # symbolic amount: multiplexer over the feasible amounts
            k = max(1, (w - 1).bit_length())
            hi = [x for x in d.bits(b, w)[k:] if x != 0]
            if hi:
                self.report('shift-ub', '%s amount of a %d-bit value not provably below the width' % (op, w))
            cur = a
            for i in range(k):
                bit = d.bits(b, w)[i]
                if bit == 0:
                    continue
                sh = getattr(d, op)(cur, 1 << i, w)
                cur = d.ite(bit, sh, cur, w)
            return cur
        if op in ('udiv', 'urem', 'sdiv', 'srem') and cb and b == 0:
            self.report('div-zero', 'division by zero')
            return d.undef('div0', w)
        if ca and cb:
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            H = 1 << (w - 1)
            sa = a - (1 << w) if a & H else a
            sb = b - (1 << w) if b & H else b
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == 'sdiv':
                return q & M
            return (sa - q * sb) & M
        if op in ('sdiv', 'srem'):
            sa0 = (a[-1] if not ca else a >> (w - 1)) == 0
            sb0 = (b[-1] if not cb else b >> (w - 1)) == 0
            if sa0 and sb0:
                op = 'u' + op[1:]
        if cb and op == 'udiv' and b & (b - 1) == 0:
            return d.lshr(a, b.bit_length() - 1, w)
        if cb and op == 'urem' and b & (b - 1) == 0:
            return d.and_(a, b - 1, w)
        if cb and op == 'urem' and d.umax(a, w) < b:
            return a
        if cb and op == 'udiv' and d.umax(a, w) < b:
            return 0
        pos = [] if ca else [i for i, x in enumerate(a) if x >= 2]
        if cb and not ca and len(pos) <= 10:
            base = d.umin(a, w)
            tab = []
            for j in range(1 << len(pos)):
                x = base
                for q, i in enumerate(pos):
                    if (j >> q) & 1:
                        x |= 1 << i
                tab.append(self.binop(op, x, b, w))
            return d.lookup(tab, tuple(a[i] for i in pos), w)
        return d.opaque(op, (a, b), w)

    def icmp(self, pred, a, b, w):
        d = self.d
        ta, tb = type(a), type(b)
        if ta not in (int, tuple) or tb not in (int, tuple):
            return self.pcmp(pred, a, b)
        if pred == 'eq':
            return d.eq(a, b, w)
        if pred == 'ne':
            return d.eq(a, b, w) ^ 1
        if pred == 'ult':
            return d.ult(a, b, w)
        if pred == 'ugt':
            return d.ult(b, a, w)
        if pred == 'uge':
            return d.ult(a, b, w) ^ 1
        if pred == 'ule':
            return d.ult(b, a, w) ^ 1
        if pred == 'slt':
            return d.slt(a, b, w)
        if pred == 'sgt':
            return d.slt(b, a, w)
        if pred == 'sge':
            return d.slt(a, b, w) ^ 1
        if pred == 'sle':
            return d.slt(b, a, w) ^ 1
        raise Unsupported(pred)

    def pcmp(self, pred, a, b):
        d = self.d
        if type(a) is int and a == 0:
            a = NULL
        if type(b) is int and b == 0:
            b = NULL
        if type(a) is PIte:
            return d.ite1(a.c, self.pcmp(pred, a.a, b), self.pcmp(pred, a.b, b))
        if type(b) is PIte:
            return d.ite1(b.c, self.pcmp(pred, a, b.a), self.pcmp(pred, a, b.b))
        if a == b:
            return 1 if pred in ('eq', 'ule', 'uge', 'sle', 'sge') else 0
        if type(a) is Ptr and type(b) is Ptr:
            if a.obj != b.obj:
                if pred == 'eq':
                    return 0
                if pred == 'ne':
                    return 1
                return d.abit(('o', 'pcmp:%s' % pred, (repr(a), repr(b)), 0))
            if a.sym is None and b.sym is None:
                x, y = a.off, b.off
                return int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ugt': x > y, 'ule': x <= y, 'uge': x >= y,
                            'slt': x < y, 'sgt': x > y, 'sle': x <= y, 'sge': x >= y}[pred])
            if pred in ('eq', 'ne'):
                return d.eq(ptr_off(d, a), ptr_off(d, b), 64) ^ (pred == 'ne')
            if pred[0] == 'u':
                # inside one object the order is that of the offsets
                return self.icmp(pred, ptr_off(d, a), ptr_off(d, b), 64)
        if pred in ('eq', 'ne'):
            if Fn in (type(a), type(b)):
                return int(pred == 'ne')
            if (type(a) is Ptr and a.obj == 'null' and type(b) is Opq) or (type(b) is Ptr and b.obj == 'null' and type(a) is Opq):
                return int(pred == 'ne')
        return d.abit(('o', 'pcmp:%s' % pred, (repr(a), repr(b)), 0))

    # ---------- functions
    def call(self, name, args, mod=None):
        f, m = self.find_func(name, mod)
        if f is None:
            raise Unsupported('undefined function ' + name)
        if len(self.stack) > 200:
            raise Unsupported('recursion ' + name)
        self.funcs_seen[name] = self.funcs_seen.get(name, 0) + 1
        self.calls_seen += 1
        env = {}
        for (t, nm, bv), a in zip(f.params, args):
            if bv is not None:
                n = m.size(bv)
                c = self.new_obj('byval', n, 'stack')
                self.memcpy(c, a, n)
                a = c
            env[nm] = a
        caller_loc = self.loc
        self.stack.append(name)
        allocs = []
        env['\0allocs'] = allocs
        try:
            kind, vals, env, _ = self.run(f, m, f.entry, None, env, 'EXIT')
        finally:
            self.stack.pop()
        self.loc = caller_loc
        for a in allocs:
            o = self.mem.o.get(a)
            if o is not None:
                if self.extra.get('keep_stack'):
                    continue
                h = self.extra.get('on_dead')
                if h is not None:
                    h(self, o)
                self.extra.setdefault('dead_stack', []).append((a, o)) if self.extra.get('track_dead') else None
                del self.mem.o[a]
                self.mem.own.discard(a)
        return vals

    def run(self, f, mod, bname, prev, env, stop, phivals=None):
        """analyse from block bname until control reaches `stop` (a block name, or 'EXIT').
        returns ('stop', phi values of stop or return value, env, prev)"""
        if self.accel is None:
            return self.run1(f, mod, bname, prev, env, stop, phivals, None)
        acts = {}
        try:
            return self.run1(f, mod, bname, prev, env, stop, phivals, acts)
        finally:
            self.accel.leave(acts)

    def run1(self, f, mod, bname, prev, env, stop, phivals, acts):
        blocks = f.blocks
        hdrs = HEADERS(f) if acts is not None else ()
        while True:
            if bname == stop:
                if phivals is None:
                    phivals = self.phis(blocks[bname], prev, env, mod)
                return ('stop', phivals, env, prev)
            blk = blocks[bname]
            if phivals is None and blk.phis:
                phivals = self.phis(blk, prev, env, mod)
            if bname in hdrs:
                phivals = self.accel.visit(acts, f, mod, bname, phivals, env)
            if phivals:
                env.update(phivals)
            phivals = None
            nxt = None
            for ins in blk.ins:
                op = ins.op
                h = DISPATCH.get(op)
                if h is not None:
                    self.steps += 1
                    if ins.dbg is not None:
                        if ins.loc is None:
                            ins.loc = mod.where(ins.dbg)
                        self.loc = ins.loc
                    v = h(self, ins, env, mod)
                    if self.tr is not None:
                        self.accel.rec(ins, env, v, mod)
                    if ins.res is not None:
                        env[ins.res] = v
                    continue
                if op == 'br':
                    if ins.dbg is not None:
                        if ins.loc is None:
                            ins.loc = mod.where(ins.dbg)
                        self.loc = ins.loc
                    if self.steps > self.max_steps:
                        raise Unsupported('analysis budget exceeded in %s' % f.name)
                    a = ins.a
                    self.steps += 1
                    if len(a) == 1:
                        nxt = a[0]
                        break
                    c = self.val(a[0], ('i', 1), env, mod)
                    if type(c) is tuple:
                        c = c[0]
                    if c < 2:
                        nxt = a[1] if c else a[2]
                        break
                    r = self.fork(f, mod, bname, [(c, a[1]), (c ^ 1, a[2])], env, stop, ins)
                    if r[0] == 'ret':
                        return ('stop', r[1], r[2], None)
                    _, bn, phivals, env, prevb = r
                    nxt = ('joined', bn)
                    break
                if op == 'switch':
                    v = self.val(ins.a[0], ins.ty, env, mod)
                    w = mod.bits(ins.ty)
                    if self.tr is not None and type(v) is not tuple:
                        self.tr.append(('w', ins, (), v, 0))
                    if type(v) is not tuple:
                        nxt = ins.a[1]
                        for cv, l in ins.a[2]:
                            if cv == v:
                                nxt = l
                                break
                        break
                    arms = []
                    rest = 1
                    for cv, l in ins.a[2]:
                        e = self.d.eq(v, cv, w)
                        arms.append((self.d.and1(rest, e), l))
                        rest = self.d.and1(rest, e ^ 1)
                    arms.append((rest, ins.a[1]))
                    arms = [x for x in arms if x[0] != 0]
                    r = self.fork(f, mod, bname, arms, env, stop, ins)
                    if r[0] == 'ret':
                        return ('stop', r[1], r[2], None)
                    _, bn, phivals, env, prevb = r
                    nxt = ('joined', bn)
                    break
                if op == 'ret':
                    v = self.val(ins.a[0], ins.ty, env, mod) if ins.a[0] is not None else None
                    return ('stop', v, env, bname)
                if op == 'unreachable':
                    raise Dead()
                if op == 'invoke':
                    if ins.dbg is not None:
                        if ins.loc is None:
                            ins.loc = mod.where(ins.dbg)
                        self.loc = ins.loc
                    v = self.do_call(ins, env, mod)
                    if ins.res is not None:
                        env[ins.res] = v
                    nxt = ins.a[4]
                    break
                raise Unsupported('op %s in %s' % (op, f.name))
            if type(nxt) is tuple:
                prev = None
                bname = nxt[1]
                continue
            prev = bname
            bname = nxt

    def phis(self, blk, prev, env, mod):
        out = {}
        for p in blk.phis:
            out[p.res] = self.val(p.a[prev], p.ty, env, mod)
        return out

    def fork(self, f, mod, bname, arms, env, stop, ins):
        """analyse every arm up to the post-dominator and join."""
        self.branches_sym += 1
        if self.tr is not None:
            self.tr.append(('fork', ins, (), len(arms), 0))
        if len(self.conds) > self.max_fork:
            raise Unsupported('symbolic decisions nested more than %d deep at %s (%s)' % (self.max_fork, self.loc, f.name))
        if self.undef_check is not None:
            for c, l in arms:
                if c > 1:
                    u = self.undef_check((c,))
                    if u:
                        self.report('uninit-branch', 'the branch depends on memory that was never written (%s)' % u)
                    break
        j = f.ipdom.get(bname)
        jn = 'EXIT' if j is None else j
        mem0 = self.mem
        res = []
        loc0 = self.loc
        depth = len(self.stack)
        na = len(self.assumed)
        kept = []
        for c, l in arms:
            self.mem = mem0.fork()
            if self.tr is not None:
                self.tr.append(('arm', ins, (), None, 0))
            e = dict(env)
            self.conds.append(c)
            self.loc = loc0
            try:
                k, vals, e2, pv = self.run(f, mod, l, bname, e, jn)
                res.append((c, vals, e2, self.mem))
                kept.append([c] + self.assumed[na:])
            except Dead:
                del self.stack[depth:]
            finally:
                self.conds.pop()
                del self.assumed[na:]
        if len(kept) == 1 and len(arms) > 1:
            # the other arms end the program: what follows runs under this condition
            self.assumed += kept[0]
        if not res:
            self.mem = mem0
            raise Dead()
        # fold: last is the default
        c, vals, e, mem = res[-1]
        for c2, v2, e2, m2 in reversed(res[:-1]):
            if jn == 'EXIT':
                if v2 is None and vals is None:
                    vals = None
                else:
                    vals = self.merge_val(c2, v2, vals, None)
            else:
                nv = {}
                for k in vals:
                    nv[k] = self.merge_val(c2, v2[k], vals[k], None)
                vals = nv
            if jn != 'EXIT':
                ne = {}
                for k, x in e2.items():
                    if k in e:
                        y = e[k]
                        if x is y or x == y:
                            ne[k] = x
                        elif k == '\0allocs':
                            ne[k] = x
                        else:
                            ne[k] = Lazy(c2, x, y)
                e = ne
            mem = self.merge_mem(c2, m2, mem)
        self.mem = mem
        if self.tr is not None:
            self.tr.append(('endfork', ins, (), len(res), 0))
        if jn == 'EXIT':
            return ('ret', vals, e)
        return ('join', jn, vals, e, None)

    # ---------- operands
    def val(self, v, t, env, mod):
        k = v[0]
        if k == 'l':
            x = env[v[1]]
            if type(x) is Lazy:
                x = self.force(x)
                env[v[1]] = x
            return x
        if k == 'c':
            return v[1]
        return self.const_val(v, t, mod)

    def force(self, x):
        a = self.force(x.a) if type(x.a) is Lazy else x.a
        b = self.force(x.b) if type(x.b) is Lazy else x.b
        return self.merge_val(x.c, a, b, None)

    # ---------- calls
    def do_call(self, ins, env, mod):
        callee = ins.a[0]
        args = ins.a[1]
        if callee[0] == 'asm':
            self.effects.append(('asm', self.loc, self.stack[-1], callee[1], tuple(self.conds)))
            return None
        if callee[0] == 'g':
            name = callee[1]
        else:
            fp = self.val(callee, ('p',), env, mod)
            if type(fp) is Fn:
                name = fp.name
            else:
                raise Unsupported('indirect call through %r' % (fp,))
        vals = []
        for at, av, bv in args:
            vals.append(self.val(av, at, env, mod))
        return self.call_named(name, vals, [a[0] for a in args], ins.ty, mod)

    def call_named(self, name, vals, tys, rty, mod):
        name = mod.aliases.get(name, name)
        h = self.models.get(name)
        if h is not None:
            self.counts['externals'] += 1
            if self.tr is not None:
                self.tr.append(('m', name, tuple(None if type(v) is tuple else v for v in vals), None, 0))
            return h(self, name, vals, tys, rty, mod)
        if name.startswith('llvm.'):
            self.counts['externals'] += 1
            return self.intrinsic(name, vals, tys, rty, mod)
        f, m = self.find_func(name, mod)
        if name.startswith('_ZSt') and '__throw_' in name:
            return m_throw(self, name, vals, tys, rty, mod)
        if f is not None and not is_stream(name):
            if self.hook is not None:
                r = self.hook(name, f, m, vals)
                if r is not NotImplemented:
                    if self.tr is not None:
                        self.tr.append(('m', name, tuple(None if type(v) is tuple else v for v in vals), None, 0))
                    return r
            return self.call(name, vals, m if name in m.funcs else mod)
        return self.external(name, vals, tys, rty, mod)

    def external(self, name, vals, tys, rty, mod):
        self.counts['externals'] += 1
        if f_model := stream_model(name):
            return f_model(self, name, vals, tys, rty, mod)
        raise Unsupported('call to unknown external %s at %s' % (name, self.loc))

    def intrinsic(self, name, v, tys, rty, mod):
        d = self.d
        base = name.split('.')
        b1 = base[1]
        if b1 in ('memcpy', 'memmove'):
            if type(v[2]) is tuple:
                raise Unsupported('memcpy with symbolic length at %s' % self.loc)
            self.memcpy(v[0], v[1], v[2])
            return None
        if b1 == 'memset':
            if type(v[2]) is tuple:
                raise Unsupported('memset with symbolic length at %s' % self.loc)
            self.memset(v[0], v[1], v[2])
            return None
        if b1 == 'is':              # llvm.is.constant
            return 0
        if b1 == 'objectsize':
            return (1 << w_of(mod, rty)) - 1
        if b1 in ('expect', 'launder', 'strip', 'annotation', 'ptr', 'threadlocal') and v:
            return v[0]
        if b1 in ('stacksave',):
            return Opq('stack')
        if b1 in ('stackrestore', 'assume', 'donothing', 'prefetch', 'va_start', 'va_end', 'experimental'):
            return None
        if b1 in MATH or b1 in ('ceil', 'floor'):
            return m_math(MATH[b1])(self, name, v, tys, rty, mod)
        w = mod.bits(rty) if rty[0] != 'v' else 0
        if b1 == 'fshl':
            if type(v[2]) is int:
                n = v[2] % w
                return d.or_(d.shl(v[0], n, w), d.lshr(v[1], w - n, w), w) if n else v[0]
        if b1 == 'fshr':
            if type(v[2]) is int:
                n = v[2] % w
                return d.or_(d.shl(v[0], w - n, w), d.lshr(v[1], n, w), w) if n else v[1]
        if b1 == 'bswap':
            return d.concat([(d.slice(v[0], w - 8 - 8 * i, 8), 8) for i in range(w // 8)])
        if b1 == 'bitreverse':
            return d.norm(tuple(reversed(d.bits(v[0], w))))
        if b1 in ('uadd', 'usub') and base[2] == 'sat':
            if b1 == 'uadd':
                s = d.add(d.zext(v[0], w + 1), d.zext(v[1], w + 1), w + 1)
                s = d.bits(s, w + 1)
                return d.ite(s[w], (1 << w) - 1, d.norm(s[:w]), w)
            return d.ite(d.ult(v[0], v[1], w), 0, d.sub(v[0], v[1], w), w)
        if b1 == 'vector' and base[2] == 'reduce':
            n, ew = tys[-1][1], w
            xs = [d.slice(v[-1], i * ew, ew) for i in range(n)]
            f = {'or': d.or_, 'and': d.and_, 'xor': d.xor, 'add': d.add}.get(base[3])
            if f is not None:
                r = xs[0]
                for x in xs[1:]:
                    r = f(r, x, ew)
                return r
        if b1 in ('umin', 'umax', 'smin', 'smax'):
            c = self.icmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[b1], v[0], v[1], w)
            return d.ite(c, v[0], v[1], w)
        if b1 == 'abs':
            c = d.slt(v[0], 0, w)
            return d.ite(c, d.sub(0, v[0], w), v[0], w)
        if b1 == 'ctpop' and type(v[0]) is tuple:
            return d.sumall([b if b < 2 else (b,) + (0,) * (w - 1) for b in v[0]], w)
        if b1 in ('ctpop', 'ctlz', 'cttz') and type(v[0]) is int:
            x = v[0]
            if b1 == 'ctpop':
                return bin(x).count('1')
            if b1 == 'ctlz':
                return w - x.bit_length()
            return (x & -x).bit_length() - 1 if x else w
        if b1 in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and base[2] == 'with' and rty[0] == 's':
            w0 = rty[1][0][1]
            if type(v[0]) is int and type(v[1]) is int:
                a, b = v[0], v[1]
                if b1[0] == 's':
                    a = a - (1 << w0) if a >> (w0 - 1) else a
                    b = b - (1 << w0) if b >> (w0 - 1) else b
                r = {'add': a + b, 'sub': a - b, 'mul': a * b}[b1[1:]]
                m = r & ((1 << w0) - 1)
                ms = m - (1 << w0) if b1[0] == 's' and m >> (w0 - 1) else m
                return [m, int(ms != r)]
            if b1 == 'uadd':
                s = d.add(d.zext(v[0], w0 + 1), d.zext(v[1], w0 + 1), w0 + 1)
                s = d.bits(s, w0 + 1)
                return [d.norm(s[:w0]), d.norm(s[w0:])]
            if b1 == 'usub':
                c = d.ult(v[0], v[1], w0)
                return [d.sub(v[0], v[1], w0), c if c < 2 else (c,)]
            return [self.binop(b1[1:], v[0], v[1], w0), d.opaque(b1 + '.ov', (v[0], v[1]), 1)]
        import simd
        r = simd.model(self, name, v, tys, rty, mod)
        if r is not NotImplemented:
            return r
        raise Unsupported('intrinsic %s at %s' % (name, self.loc))


class Lazy:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


_pg = {}


def parse_global_c(mod, name):
    k = (id(mod), name)
    r = mod.__dict__.setdefault('_pg', {}).get(name)
    if r is None:
        r = mod._pg[name] = parse_global(mod, name)
    return r


def w_of(mod, rty):
    return mod.bits(rty)


def is_stream(name):
    """iostream machinery: opaque sinks that keep their arguments; every other library template is analysed"""
    return 'ostream' in name or 'istream' in name or 'ios_base' in name or name.startswith('_ZNSo') or name.startswith('_ZNSi') or \
        'basic_string' in name or name.startswith('_ZNSs') or name.startswith('_ZStls') or '4endlI' in name or '5flushI' in name or \
        'fstream' in name or 'stringstream' in name or name.startswith('_ZNSaI')


# ---------- instruction handlers
def h_bin(op):
    def h(self, ins, env, mod):
        a, b, fl = ins.a
        t = ins.ty
        x = self.val(a, t, env, mod)
        y = self.val(b, t, env, mod)
        if t[0] == 'x':
            ew = mod.bits(t[2])
            W = ew * t[1]
            if op == 'xor':
                return self.d.xor(x, y, W)
            if op == 'and':
                return self.d.and_(x, y, W)
            if op == 'or':
                return self.d.or_(x, y, W)
            d = self.d
            return d.concat([(self.binop(op, d.slice(x, i * ew, ew), d.slice(y, i * ew, ew), ew), ew) for i in range(t[1])])
        if type(x) not in (int, tuple) or type(y) not in (int, tuple):
            return self.ptr_arith(op, x, y, mod.bits(t))
        w = t[1]
        if type(x) is int and type(y) is int and fl:
            if 'nsw' in fl and op in ('add', 'sub', 'mul'):
                H = 1 << (w - 1)
                sx = x - (1 << w) if x & H else x
                sy = y - (1 << w) if y & H else y
                r = sx + sy if op == 'add' else sx - sy if op == 'sub' else sx * sy
                if r >= H or r < -H:
                    self.report('signed-overflow', '%s of constants overflows %d bits' % (op, w))
            elif 'nsw' in fl and op == 'shl':
                pass
        return self.binop(op, x, y, w)
    return h


def ptr_arith(self, op, x, y, w):
    if op == 'sub' and type(x) is Ptr and type(y) is Ptr and x.obj == y.obj and x.sym is None and y.sym is None:
        return (x.off - y.off) & ((1 << w) - 1)
    if op == 'add' and type(x) is Ptr and type(y) is int:
        return self.addp(x, y)
    if op == 'sub' and type(x) is Ptr and type(y) is int:
        return self.addp(x, (-y) & ((1 << 64) - 1))
    if op == 'and' and type(x) is Ptr and type(y) is int and y < 16:
        return 0 if (x.off & y) == 0 else x.off & y
    for z, k in ((x, 0), (y, 1)):
        if type(z) is PIte:
            # the invalid combination with a null branch has no defined value
            r = []
            for q in (z.a, z.b):
                if type(q) is Ptr and q.obj == 'null' and type((x, y)[1 - k]) is Ptr and (x, y)[1 - k].obj != 'null':
                    r.append(self.d.opaque('null-difference:' + self.loc, (), w))
                else:
                    r.append(ptr_arith(self, op, *((q, y) if k == 0 else (x, q)), w))
            return self.merge_val(z.c, r[0], r[1], w)
    if op == 'sub' and type(x) is Ptr and type(y) is Ptr and x.obj == y.obj:
        d = self.d
        return d.trunc(d.sub(ptr_off(d, x), ptr_off(d, y), 64), w)
    if op == 'add' and type(y) is Ptr and type(x) in (int, tuple):
        x, y = y, x
    if op == 'add' and type(x) is Ptr and type(y) is tuple:
        return self.addp(x, y)
    if op == 'sub' and type(x) is Ptr and type(y) is tuple:
        return self.addp(x, self.d.sub(0, y, 64))
    raise Unsupported('pointer arithmetic %s %r %r' % (op, x, y))


def ptr_off(d, p):
    o = p.off & ((1 << 64) - 1)
    return o if p.sym is None else d.add(p.sym, o, 64)


Interp.ptr_arith = ptr_arith


def h_load(self, ins, env, mod):
    p = self.val(ins.a[0], ('p',), env, mod)
    t = ins.ty
    rt = mod.resolve(t)
    if rt[0] in ('s', 'a'):
        return self.load_agg(p, rt, mod)
    n = mod.size(t)
    if n >= 16:
        self.check_align(p, n, ins.al, 'read')
    v = self.load(p, n, mod.bits(t), rt[0] == 'p')
    if rt[0] == 'p' and type(v) is int and v == 0:
        return NULL
    return v


def load_agg(self, p, t, mod):
    out = []
    if t[0] == 's':
        for i in range(len(t[1])):
            o, ft = mod.field(t, i)
            out.append((o, ft))
    else:
        es = mod.size(t[2])
        out = [(i * es, t[2]) for i in range(t[1])]
    r = []
    for o, ft in out:
        q = self.addp(p, o)
        rft = mod.resolve(ft)
        if rft[0] in ('s', 'a'):
            r.append(self.load_agg(q, rft, mod))
        else:
            r.append(self.load(q, mod.size(ft), mod.bits(ft), rft[0] == 'p'))
    return r


Interp.load_agg = load_agg


def store_agg(self, p, t, v, mod):
    t = mod.resolve(t)
    if t[0] == 's':
        for i in range(len(t[1])):
            o, ft = mod.field(t, i)
            self.store_agg(self.addp(p, o), ft, v[i], mod)
    elif t[0] == 'a':
        es = mod.size(t[2])
        for i in range(t[1]):
            self.store_agg(self.addp(p, i * es), t[2], v[i], mod)
    else:
        self.store(p, v, mod.size(t))


Interp.store_agg = store_agg


def h_store(self, ins, env, mod):
    p = self.val(ins.a[1], ('p',), env, mod)
    v = self.val(ins.a[0], ins.ty, env, mod)
    if type(v) is list:
        self.store_agg(p, ins.ty, v, mod)
        return None
    n = mod.size(ins.ty)
    if n >= 16:
        self.check_align(p, n, ins.al, 'write')
    if type(v) is tuple and len(v) < n * 8:
        v = v + (0,) * (n * 8 - len(v))
    self.store(p, v, n)
    return None


def check_align(self, p, n, al, what):
    """A vector access with an alignment traps on the machine when the address does not have it."""
    if type(p) is PIte:
        self.check_align(p.a, n, al, what)
        self.check_align(p.b, n, al, what)
        return
    if type(p) is not Ptr:
        return
    o = self.mem.o.get(p.obj)
    if o is None or o.align is None:
        return
    self.counts['vector accesses'] += 1
    if al <= 8:
        return
    low = p.off & (al - 1)
    if p.sym is not None:
        k = al.bit_length() - 1
        low |= any(b != 0 for b in p.sym[:k]) if type(p.sym) is tuple else 1
    if o.align < al:
        self.report('misaligned', '%s of %d bytes needs an address that is a multiple of %d, but %s only has alignment %d' % (what, n, al, o.name, o.align))
    elif low:
        self.report('misaligned', '%s of %d bytes needs an address that is a multiple of %d, but is at offset %d of %s' % (what, n, al, p.off, o.name))


Interp.check_align = check_align


def h_gep(self, ins, env, mod):
    t, ops = ins.a
    p = self.val(ops[0][1], ops[0][0], env, mod)
    return self.gep(p, t, [(et, self.val(x, et, env, mod)) for et, x in ops[1:]], mod)


STACKMAX = 32 << 20     # four times the usual limit


def h_alloca(self, ins, env, mod):
    t, cnt = ins.a
    n = mod.size(t)
    if cnt is not None:
        c = self.val(cnt[1], cnt[0], env, mod)
        if type(c) is tuple:
            raise Unsupported('alloca with symbolic size')
        w = mod.bits(cnt[0])
        if c >> (w - 1) or c * n > 1 << 31:
            self.report('bad-alloc', 'stack array with an absurd size %d' % c)
            c = 0
        n *= c
    if n > STACKMAX:
        self.report('stack-exhaustion', 'a local array of %d bytes does not fit on the stack' % n)
    p = self.new_obj('%s.%s' % (self.stack[-1] if self.stack else '', ins.res), n, 'stack')
    env['\0allocs'].append(p.obj)
    self.mem.o[p.obj].align = ins.al or 16
    return p


def h_icmp(self, ins, env, mod):
    pred, a, b = ins.a
    t = ins.ty
    x = self.val(a, t, env, mod)
    y = self.val(b, t, env, mod)
    if t[0] == 'x':
        ew = mod.bits(t[2])
        d = self.d
        out = []
        for i in range(t[1]):
            c = self.icmp(pred, d.slice(x, i * ew, ew), d.slice(y, i * ew, ew), ew)
            out.append(c)
        return d.norm(tuple(out))
    c = self.icmp(pred, x, y, mod.bits(t))
    return c if c < 2 else (c,)


def h_select(self, ins, env, mod):
    ct, c, a, b = ins.a
    x = self.val(a, ins.ty, env, mod)
    y = self.val(b, ins.ty, env, mod)
    cv = self.val(c, ct, env, mod)
    if ct[0] == 'x':
        d = self.d
        ew = mod.bits(ins.ty[2])
        n = ct[1]
        cb = d.bits(cv, n)
        return d.concat([(d.ite(cb[i], d.slice(x, i * ew, ew), d.slice(y, i * ew, ew), ew), ew) for i in range(n)])
    if type(cv) is tuple:
        cv = cv[0]
    if cv < 2:
        return x if cv else y
    w = mod.bits(ins.ty) if mod.resolve(ins.ty)[0] in ('i', 'x') else None
    return self.merge_val(cv, x, y, w)


def h_cast(op):
    def h(self, ins, env, mod):
        t, a = ins.a
        v = self.val(a, t, env, mod)
        d = self.d
        t2 = ins.ty
        if op in ('uitofp', 'sitofp'):
            if type(v) is not int:
                raise Unsupported('floating point of a symbolic integer at %s' % self.loc)
            w0 = mod.bits(t)
            if op == 'sitofp' and v >> (w0 - 1):
                v -= 1 << w0
            return Flt(fround(float(v), t2))
        if op in ('fptoui', 'fptosi'):
            if type(v) is not Flt:
                raise Unsupported('conversion of a symbolic float at %s' % self.loc)
            return int(v.v) & ((1 << mod.bits(t2)) - 1)
        if op in ('fpext', 'fptrunc'):
            if type(v) is not Flt:
                raise Unsupported('conversion of a symbolic float at %s' % self.loc)
            return Flt(fround(v.v, t2))
        if type(v) not in (int, tuple):
            return v
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            if op == 'inttoptr' and v == 0:
                return NULL
            return v
        if t[0] == 'x':
            n = t[1]
            w0 = mod.bits(t[2])
            w1 = mod.bits(t2[2])
            parts = []
            for i in range(n):
                x = d.slice(v, i * w0, w0)
                if op == 'zext':
                    x = d.zext(x, w1)
                elif op == 'sext':
                    x = d.sext(x, w0, w1)
                else:
                    x = d.trunc(x, w1)
                parts.append((x, w1))
            return d.concat(parts)
        w0 = t[1] if t[0] == 'i' else 0
        w1 = t2[1] if t2[0] == 'i' else 0
        if op == 'zext':
            return d.zext(v, w1)
        if op == 'sext':
            return d.sext(v, w0, w1)
        if op == 'trunc':
            return d.trunc(v, w1)
        return Opq('float')
    return h


def fround(v, t):
    if t[1] == 'float':
        import struct
        return struct.unpack('<f', struct.pack('<f', v))[0]
    return v


def h_fbin(op):
    def h(self, ins, env, mod):
        x = self.val(ins.a[0], ins.ty, env, mod)
        y = self.val(ins.a[1], ins.ty, env, mod)
        if type(x) is not Flt or type(y) is not Flt:
            raise Unsupported('symbolic floating point at %s' % self.loc)
        x, y = x.v, y.v
        if op == 'fdiv' and y == 0:
            raise Unsupported('floating division by zero at %s' % self.loc)
        import math
        r = x + y if op == 'fadd' else x - y if op == 'fsub' else x * y if op == 'fmul' else x / y if op == 'fdiv' else math.fmod(x, y)
        return Flt(fround(r, ins.ty))
    return h


def h_fneg(self, ins, env, mod):
    return Flt(-self.val(ins.a[0], ins.ty, env, mod).v)


def h_fcmp(self, ins, env, mod):
    pred, a, b = ins.a
    x = self.val(a, ins.ty, env, mod)
    y = self.val(b, ins.ty, env, mod)
    if type(x) is not Flt or type(y) is not Flt:
        raise Unsupported('symbolic floating point at %s' % self.loc)
    x, y = x.v, y.v
    return int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[pred[1:]])


def h_call(self, ins, env, mod):
    return self.do_call(ins, env, mod)


def h_extractelement(self, ins, env, mod):
    t = ins.ty
    v = self.val(ins.a[0], t, env, mod)
    i = self.val(ins.a[1], ('i', 64), env, mod)
    ew = mod.bits(t[2])
    return self.d.slice(v, i * ew, ew)


def h_insertelement(self, ins, env, mod):
    t = ins.ty
    ew = mod.bits(t[2])
    n = t[1]
    v = self.val(ins.a[0], t, env, mod)
    e = self.val(ins.a[1], t[2], env, mod)
    i = self.val(ins.a[2], ('i', 64), env, mod)
    d = self.d
    return d.concat([(e if j == i else d.slice(v, j * ew, ew), ew) for j in range(n)])


def h_shuffle(self, ins, env, mod):
    t = ins.ty
    v, v2, mt, mk = ins.a
    a = self.val(v, t, env, mod)
    b = self.val(v2, t, env, mod)
    ew = mod.bits(t[2])
    n = t[1]
    d = self.d
    if mk[0] == 'zero':
        idx = [0] * mt[1]
    elif mk[0] == 'undef':
        idx = [None] * mt[1]
    else:
        idx = [x[1] if x[0] == 'c' else None for _, x in mk[1]]
    parts = []
    for i in idx:
        if i is None:
            parts.append((0, ew))
        elif i < n:
            parts.append((d.slice(a, i * ew, ew), ew))
        else:
            parts.append((d.slice(b, (i - n) * ew, ew), ew))
    return d.concat(parts)


def h_freeze(self, ins, env, mod):
    return self.val(ins.a[0], ins.ty, env, mod)


def h_extractvalue(self, ins, env, mod):
    v = self.val(ins.a[0], ins.ty, env, mod)
    for i in ins.a[1]:
        v = v[i]
    return v


def h_insertvalue(self, ins, env, mod):
    v = self.val(ins.a[0], ins.ty, env, mod)
    e = self.val(ins.a[2], ins.a[1], env, mod)

    def put(x, path):
        x = list(x)
        x[path[0]] = e if len(path) == 1 else put(x[path[0]], path[1:])
        return x
    return put(v, ins.a[3])


DISPATCH = {
    'load': h_load, 'store': h_store, 'getelementptr': h_gep, 'alloca': h_alloca, 'icmp': h_icmp, 'select': h_select,
    'call': h_call, 'extractelement': h_extractelement, 'insertelement': h_insertelement, 'shufflevector': h_shuffle,
    'freeze': h_freeze, 'extractvalue': h_extractvalue, 'insertvalue': h_insertvalue,
}
for _o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
    DISPATCH[_o] = h_bin(_o)
for _o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
    DISPATCH[_o] = h_fbin(_o)
DISPATCH['fneg'] = h_fneg
DISPATCH['fcmp'] = h_fcmp
for _o in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'addrspacecast'):
    DISPATCH[_o] = h_cast(_o)


# ---------- library models
def m_memcpy(self, name, v, tys, rty, mod):
    if type(v[2]) is tuple:
        raise Unsupported('memcpy with symbolic length')
    self.memcpy(v[0], v[1], v[2])
    return v[0]


def m_memset(self, name, v, tys, rty, mod):
    if type(v[2]) is tuple:
        raise Unsupported('memset with symbolic length')
    x = self.d.trunc(v[1], 8)
    self.memset(v[0], x, v[2])
    return v[0]


def m_memcmp(self, name, v, tys, rty, mod):
    n = v[2]
    if type(n) is tuple:
        raise Unsupported('memcmp with symbolic length')
    a = self.rd_bytes(v[0], n)
    b = self.rd_bytes(v[1], n)
    d = self.d
    A = d.concat([(x, 8) for x in a]) if n else 0
    B = d.concat([(x, 8) for x in b]) if n else 0
    e = d.eq(A, B, 8 * n) if n else 1
    if e == 1:
        return 0
    # sign is opaque, but zero iff equal
    r = d.opaque('memcmp.sign', (A, B), 31)
    return d.norm((e ^ 1,) + tuple(d.and1(e ^ 1, x) for x in r))


def m_memchr(self, name, v, tys, rty, mod):
    d = self.d
    p, c = v[0], d.trunc(v[1], 8)
    if name == 'memchr':
        n = v[2]
    else:
        s = self.cstr(p)
        if s is None:
            raise Unsupported('strchr in a non-constant string')
        n = len(s) + 1
    if type(n) is tuple or n > 4096:
        raise Unsupported('search of symbolic length')
    b = self.rd_bytes(p, n)
    hits = []
    rest = 1
    for i in range(n):
        e = d.eq(b[i], c, 8)
        if e:
            hits.append((e, i))
            rest = d.and1(rest, e ^ 1)
            if rest == 0:
                break
    r = NULL
    if rest == 0:
        r = self.addp(p, hits.pop()[1])
    for e, i in reversed(hits):
        r = PIte(e, self.addp(p, i), r)
    return r


def m_strcmp(self, name, v, tys, rty, mod):
    a, b = self.cstr(v[0]), self.cstr(v[1])
    if a is None or b is None or name == 'strncmp' and type(v[2]) is not int:
        raise Unsupported('comparison of non-constant strings')
    if name == 'strncmp':
        a, b = a[:v[2]], b[:v[2]]
    return 0 if a == b else 1 if a > b else 0xffffffff


def m_strcpy(self, name, v, tys, rty, mod):
    a = self.cstr(v[1])
    if a is None:
        raise Unsupported('copy of a non-constant string')
    self.memcpy(v[0], v[1], len(a) + 1)
    return v[0]


def m_bzero(self, name, v, tys, rty, mod):
    if type(v[1]) is tuple:
        raise Unsupported('bzero with symbolic length')
    self.memset(v[0], 0, v[1])
    return None


def m_realloc(self, name, v, tys, rty, mod):
    p, n = v[0], v[1]
    if type(p) is PIte:
        raise Unsupported('realloc of a conditional pointer')
    q = m_new(self, 'malloc', [n], tys, rty, mod)
    if type(p) is Ptr and p.obj != 'null':
        old = self.mem.o[p.obj].size
        for i in range(min(old, n)):
            c = self.mem.o[p.obj].cell(i)
            if c is not None:
                self.mem.wr(q.obj).cells[i] = c
        m_free(self, 'free', [p], tys, rty, mod)
    return q


CTYPE = {'isdigit': '0123456789', 'isxdigit': '0123456789abcdefABCDEF', 'isupper': 'ABCDEFGHIJKLMNOPQRSTUVWXYZ',
         'islower': 'abcdefghijklmnopqrstuvwxyz'}
CTYPE['isalpha'] = CTYPE['isupper'] + CTYPE['islower']
CTYPE['isalnum'] = CTYPE['isalpha'] + CTYPE['isdigit']
CTYPE['isspace'] = ' \t\n\v\f\r'


def m_ctype(self, name, v, tys, rty, mod):
    d = self.d
    x = v[0]
    if name in CTYPE:
        tab = [int(chr(i) in CTYPE[name]) for i in range(256)]
    else:
        tab = [ord(getattr(chr(i), name[2:])()) if i < 128 else i for i in range(256)]
    if type(x) is int:
        return tab[x] if x < 256 else 0 if name in CTYPE else x
    if any(x[8:]):
        raise Unsupported('%s of a value outside the range of unsigned char' % name)
    r = d.lookup(tab, d.bits(x, 32)[:8], 8)
    return d.zext(r, 32)


def m_new(self, name, v, tys, rty, mod):
    n = v[-1] if name != 'calloc' else v[0] * v[1]
    al = 16
    if name == 'aligned_alloc' and type(v[0]) is int or name.startswith('_Zn') and 'align_val_t' in name and type(v[1]) is int:
        al = v[0] if name == 'aligned_alloc' else v[1]
    if name.startswith('_Zn'):
        n = v[0]
        name = name[:5]
    if name == 'malloc':
        n = v[0]
    if name == 'aligned_alloc':
        name = 'malloc'
    if type(n) is tuple:
        raise Unsupported('allocation of symbolic size')
    if n > 1 << 40:
        self.report('bad-alloc', 'allocation with absurd size %d' % n)
        n = 0
    p = self.new_obj('heap', n, 'heap')
    o = self.mem.o[p.obj]
    if al > 16:
        o.align = al
    o.name = '%s()@%s' % ({'_Znam': 'new[]', '_Znwm': 'new'}.get(name, name), self.loc)
    if name == 'calloc' and n > BULK:
        self.memset(p, 0, n)
    elif name == 'calloc':
        for i in range(n):
            o.cells[i] = (0, 1, 0, 'calloc')
    return p


def m_free(self, name, v, tys, rty, mod):
    p = v[0]
    if type(p) is PIte:
        # release under a gate
        for q in (p.a, p.b):
            if not (type(q) is Ptr and q.obj == 'null'):
                m_free(self, name, [q] + v[1:], tys, rty, mod)
        return None
    if type(p) is Ptr and p.obj == 'null':
        return None
    if type(p) is not Ptr:
        return None
    o = self.mem.o[p.obj]
    if o.kind != 'heap' or p.off != 0 or p.sym is not None:
        self.report('bad-free', 'release of %s+%d, which is not a heap block start' % (o.name, p.off))
        return None
    if not o.alive:
        self.report('double-free', 'second release of %s' % o.name)
        return None
    alloc = o.name.split('(')[0]
    how = {'_Zda': 'new[]', '_Zdl': 'new', 'free': 'malloc'}.get(name[:4])
    if how and alloc != how and not (how == 'malloc' and alloc in ('calloc', 'realloc')):
        self.report('mismatched-free', '%s released with %s' % (o.name, name))
    self.mem.wr(p.obj).alive = False
    return None


def m_exit(self, name, v, tys, rty, mod):
    self.effects.append(('exit', self.loc, self.stack[-1] if self.stack else '?', (name, v), tuple(self.conds)))
    raise Dead()


def m_strlen(self, name, v, tys, rty, mod):
    s = self.cstr(v[0])
    if s is None:
        raise Unsupported('strlen of a non-constant string')
    return len(s)


def m_print(self, name, v, tys, rty, mod):
    self.effects.append(('output', self.loc, self.stack[-1] if self.stack else '?', (name, v, tys), tuple(self.conds)))
    if rty[0] == 'v':
        return None
    if rty[0] == 'p':
        return v[0] if v else Opq('io')
    return self.d.opaque('io:%s:%d' % (name, len(self.effects)), (), mod.bits(rty))


def stream_model(name):
    # iostream output, stream objects, std::string: opaque effects that keep their arguments
    if name.startswith('_ZStls') or name.startswith('_ZNSo') or name.startswith('_ZNSt') or name.startswith('_ZSt') or name.startswith('_ZNKSt'):
        return m_print
    return None


def m_math(fn):
    def h(self, name, v, tys, rty, mod):
        if type(v[0]) is not Flt or any(type(x) is not Flt for x in v):
            raise Unsupported('symbolic floating point at %s' % self.loc)
        return Flt(fround(float(fn(*[x.v for x in v])), rty))
    return h


def m_throw(self, name, v, tys, rty, mod):
    self.effects.append(('exit', self.loc, self.stack[-1] if self.stack else '?', (name, v), tuple(self.conds)))
    raise Dead()


MATH = {'ceil': math.ceil, 'floor': math.floor, 'trunc': math.trunc, 'fabs': abs, 'round': lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1),
        'rint': round, 'nearbyint': round, 'fmod': math.fmod, 'sqrt': math.sqrt, 'log2': math.log2, 'pow': math.pow}


def m_sprintf(self, name, v, tys, rty, mod):
    sn = 'snprintf' in name
    dst = v[0]
    fmt = self.cstr(v[2] if sn else v[1])
    args = v[3:] if sn else v[2:]
    lim = v[1] if sn else None
    m = None if fmt is None else re.fullmatch(r'((?:[^%]|%(?:hh|h|l|ll)?[dux]|%0?2?(?:hh|h)?[xX])*)', fmt)
    mm = None if fmt is None else re.fullmatch(r'%(0?)2(?:hh|h|l)?([xX])', fmt)
    if mm is None or len(args) != 1 or (lim is not None and type(lim) is not int):
        raise Unsupported('sprintf format %r at %s' % (fmt, self.loc))
    d = self.d
    x = args[0]
    w = 64 if tys[-1][1] == 64 else 32
    if 'hh' in fmt:
        x = d.trunc(x, 8)
    hi = d.umax(x, w)
    digs = (b'0123456789ABCDEF' if mm.group(2) == 'X' else b'0123456789abcdef')
    if hi > 255:
        # more than two digits are possible: width depends on the data
        self.report('oob-write', 'sprintf %s of a value that may exceed two digits writes past the expected width' % fmt)
    a = d.slice(x if type(x) is tuple else x, 4, 4)
    b = d.slice(x, 0, 4)
    out = []
    for k, nib in enumerate((a, b)):
        tab = list(digs)
        if k == 0 and mm.group(1) == '':
            tab[0] = 0x20
        out.append(d.lookup(tab, d.bits(nib, 4), 8) if type(nib) is tuple else tab[nib])
    out.append(0)
    for i, c in enumerate(out):
        if lim is not None:
            if i >= lim:
                break
            if i == lim - 1:
                c = 0
        self.store(self.addp(dst, i), c, 1)
    return 2


def m_guard_acquire(self, name, v, tys, rty, mod):
    g = self.load(v[0], 1, 8)
    if g == 0:
        self.guarded += 1
        return 1
    if type(g) is int:
        return 0
    raise Unsupported('initialisation guard of unknown state')


def m_guard_release(self, name, v, tys, rty, mod):
    self.store(v[0], 1, 1)
    self.guarded -= 1
    return None


def m_hidden(self, name, v, tys, rty, mod):
    """a value the environment or hidden state of the C library determines"""
    self.nhid = getattr(self, 'nhid', 0) + 1
    if name in ('rand', 'random', 'srand', 'srandom', 'lrand48', 'drand48'):
        o = '@state of ' + name
        self.global_writes.append((o, self.loc, self.stack[-1] if self.stack else '?'))
        self.global_reads.add(o)
    w = mod.bits(rty) if rty[0] == 'i' else 0
    return self.d.var('%s#%d' % (name, self.nhid), w) if w else None


DEFAULT_MODELS = {
    '__cxa_guard_acquire': m_guard_acquire, '__cxa_guard_release': m_guard_release, '__cxa_guard_abort': m_guard_release,
    '__cxa_atexit': lambda *a: 0,
    'sprintf': m_sprintf, 'snprintf': m_sprintf,
    'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, 'memcmp': m_memcmp, 'bcmp': m_memcmp,
    '_Znam': m_new, '_Znwm': m_new, 'malloc': m_new, 'calloc': m_new,
    '_ZdaPv': m_free, '_ZdlPv': m_free, '_ZdaPvm': m_free, '_ZdlPvm': m_free, 'free': m_free,
    'exit': m_exit, 'abort': m_exit, '_exit': m_exit,
    'strlen': m_strlen, 'memchr': m_memchr, 'strchr': m_memchr, 'strcmp': m_strcmp, 'strncmp': m_strcmp, 'strcpy': m_strcpy,
    'explicit_bzero': m_bzero, 'bzero': m_bzero, 'realloc': m_realloc, 'aligned_alloc': m_new,
    'printf': m_print, 'puts': m_print, 'putchar': m_print, 'fprintf': m_print, 'fputs': m_print, 'fwrite': m_print, '__gmp_printf': m_print,
    '__assert_fail': m_exit, '_ZSt9terminatev': m_throw,
}
for _n in ('RKSt9nothrow_t', 'St11align_val_t', 'St11align_val_tRKSt9nothrow_t'):
    DEFAULT_MODELS['_Znwm' + _n] = DEFAULT_MODELS['_Znam' + _n] = m_new
    DEFAULT_MODELS['_ZdlPv' + _n] = DEFAULT_MODELS['_ZdaPv' + _n] = m_free
    DEFAULT_MODELS['_ZdlPvm' + _n] = DEFAULT_MODELS['_ZdaPvm' + _n] = m_free
for _n in ('rand', 'random', 'srand', 'srandom', 'lrand48', 'clock', 'time', 'getpid', 'sched_getcpu', '_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv'):
    DEFAULT_MODELS[_n] = m_hidden
for _n in list(CTYPE) + ['toupper', 'tolower']:
    DEFAULT_MODELS[_n] = m_ctype
for _n, _f in MATH.items():
    DEFAULT_MODELS[_n] = m_math(_f)
    DEFAULT_MODELS[_n + 'f'] = m_math(_f)

