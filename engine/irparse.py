"""Parser for the subset of LLVM 18 textual IR that clang -O0 + sroa emits for /repo."""
import re

TOK = re.compile(r'''\s*(?:
  (?P<lid>%"(?:[^"])*"|%[\w.$\-]+)
 |(?P<gid>@"(?:[^"])*"|@[\w.$\-]+)
 |(?P<cstr>c"(?:[^"])*")
 |(?P<str>"(?:[^"])*")
 |(?P<attr>\#\d+)
 |(?P<meta>![\w.]*(?:\{)?)
 |(?P<flt>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-FKLMHRa-f]+)
 |(?P<num>-?\d+)
 |(?P<word>[A-Za-z_$][\w.$\-]*)
 |(?P<dots>\.\.\.)
 |(?P<punct>[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                break
            raise SyntaxError('ir token: ' + s[pos:pos + 60] + ' in ' + s[:200])
        pos = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


# ---- types: ('i',w) ('p',) ('v',) ('a',n,t) ('x',n,t) ('s',[t..],packed) ('n',name) ('f',kind)
I1, I8, I16, I32, I64 = ('i', 1), ('i', 8), ('i', 16), ('i', 32), ('i', 64)
PTR = ('p',)
VOID = ('v',)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'loc', 'al')

    def __init__(self, op, res, ty, a, dbg, al=0):
        self.al = al        # alignment the access relies on (load, store) or provides (alloca)
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.dbg = dbg
        self.loc = None


class Block:
    __slots__ = ('name', 'phis', 'ins', 'succ')


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []      # (type, name, byval_type or None)
        self.ret = None
        self.blocks = None    # dict name -> Block
        self.entry = None
        self.lines = []
        self.header = ''
        self.ipdom = None
        self.scope = None


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}     # name -> (type, const?, inittokens or None, line)
        self.funcs = {}       # defined
        self.decls = {}
        self.meta_loc = {}
        self.meta_file = {}
        self.meta_scope = {}
        self.aliases = {}
        self._size = {}
        self._parse(text)

    def _parse(self, text):
        cur = None
        for line in text.split('\n'):
            if cur is not None:
                if line == '}':
                    cur = None
                else:
                    cur.lines.append(line)
                continue
            if not line:
                continue
            c = line[0]
            if c == '!':
                self._meta(line)
            elif c == 'd' and line.startswith('define '):
                name = re.search(r'(@"[^"]*"|@[\w.$\-]+)\(', line).group(1)[1:].strip('"')
                f = Func(name)
                f.header = line
                m = re.search(r'!dbg !(\d+)', line)
                f.scope = int(m.group(1)) if m else None
                self.funcs[name] = f
                cur = f
            elif c == 'd' and line.startswith('declare '):
                m = re.search(r'(@"[^"]*"|@[\w.$\-]+)\(', line)
                self.decls[m.group(1)[1:].strip('"')] = line
            elif c == '@':
                m = re.match(r'(@"[^"]*"|@[\w.$\-]+) = (.*)$', line)
                name = m.group(1)[1:].strip('"')
                rest = m.group(2)
                if re.search(r'\balias\b', rest.split('"')[0]):
                    t = re.findall(r'@[\w.$\-]+', rest)
                    self.aliases[name] = t[-1][1:]
                    continue
                self.globals[name] = rest
            elif c == '%':
                m = re.match(r'(%"[^"]*"|%[\w.$\-]+) = type (.*)$', line)
                nm = m.group(1)[1:].strip('"')
                if m.group(2).strip() == 'opaque':
                    self.types[nm] = ('s', [], False)
                else:
                    self.types[nm] = P(tokenize(m.group(2)), self).type()

    _ml = re.compile(r'^!(\d+) = (?:distinct )?!DI(Location|Subprogram|LexicalBlockFile|LexicalBlock|File)\((.*)\)$')

    def _meta(self, line):
        m = self._ml.match(line)
        if not m:
            return
        n = int(m.group(1))
        k = m.group(2)
        b = m.group(3)
        if k == 'Location':
            l = re.search(r'line: (\d+)', b)
            s = re.search(r'scope: !(\d+)', b)
            self.meta_loc[n] = (int(l.group(1)) if l else 0, int(s.group(1)) if s else -1)
        elif k == 'File':
            f = re.search(r'filename: "([^"]*)"', b)
            self.meta_file[n] = f.group(1)
        else:
            f = re.search(r'file: !(\d+)', b)
            l = re.search(r'line: (\d+)', b)
            self.meta_scope[n] = (int(f.group(1)) if f else -1, int(l.group(1)) if l else 0)

    def where(self, dbg):
        if dbg is None or dbg not in self.meta_loc:
            return '?'
        line, sc = self.meta_loc[dbg]
        f = self.meta_scope.get(sc)
        fn = self.meta_file.get(f[0], '?') if f else '?'
        return '%s:%d' % (fn, line)

    # ---- layout
    def resolve(self, t):
        while t[0] == 'n':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            w = t[1]
            return 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 if w <= 64 else 16
        if k == 'p':
            return 8
        if k == 'a':
            return self.align(t[2])
        if k == 'x':
            return self.size(t)
        if k == 's':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] or [1])
        if k == 'f':
            return {'float': 4, 'double': 8}.get(t[1], 16)
        return 1

    def size(self, t):
        key = repr(t)
        if key in self._size:
            return self._size[key]
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            w = t[1]
            r = 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 if w <= 64 else (w + 7) // 8
        elif k == 'p':
            r = 8
        elif k == 'a':
            r = t[1] * self.size(t[2])
        elif k == 'x':
            e = self.resolve(t[2])
            r = (t[1] * (e[1] if e[0] == 'i' else self.size(e) * 8) + 7) // 8
        elif k == 's':
            r = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    r = (r + a - 1) // a * a
                r += self.size(x)
            if not t[2]:
                a = self.align(t)
                r = (r + a - 1) // a * a
        elif k == 'f':
            r = {'float': 4, 'double': 8}.get(t[1], 16)
        else:
            r = 0
        self._size[key] = r
        return r

    def field(self, t, i):
        t = self.resolve(t)
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x)
                o = (o + a - 1) // a * a
            if j == i:
                return o, x
            o += self.size(x)
        raise IndexError

    def bits(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            return t[1]
        if t[0] == 'x':
            return t[1] * self.bits(t[2])
        if t[0] == 'p':
            return 64
        return self.size(t) * 8

    # ---- functions
    def func(self, name):
        name = self.aliases.get(name, name)
        f = self.funcs.get(name)
        if f is None:
            return None
        if f.blocks is None:
            parse_func(self, f)
        return f


PARAM_ATTRS = {'noundef', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'nonnull', 'returned', 'signext',
               'zeroext', 'immarg', 'inreg', 'allocptr', 'allocalign', 'nofree', 'nest', 'noreturn', 'swiftself'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
           'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized'}


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise SyntaxError('expected %r at %r in %r' % (v, self.t[self.i:self.i + 5], self.t[:12]))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if self.peek()[1] == 'addrspace':
                    self.next(); self.expect('('); self.next(); self.expect(')')
            elif v == 'void':
                t = VOID
            elif v in ('float', 'double', 'half', 'x86_fp80', 'fp128', 'bfloat', 'ppc_fp128'):
                t = ('f', v)
            elif v in ('metadata', 'label', 'token'):
                t = ('m', v)
            else:
                raise SyntaxError('type ' + v)
        elif k == 'lid':
            t = ('n', v[1:].strip('"'))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = ('s', self._types('}'), True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('x', n, e)
        elif v == '{':
            t = ('s', self._types('}'), False)
        else:
            raise SyntaxError('type %r' % (v,))
        # function type "ret (args)": only in calls through a full signature
        if self.peek()[1] == '(':
            self.next()
            while not self.accept(')'):
                if self.accept('...') or self.accept(','):
                    continue
                self.type()
            t = ('fn', t)
        return t

    def _types(self, end):
        r = []
        while not self.accept(end):
            r.append(self.type())
            self.accept(',')
        return r

    def attrs(self):
        byval = None
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
            elif v == 'align':
                self.next()
                if self.peek()[1] == '(':
                    self.next(); self.next(); self.expect(')')
                else:
                    self.next()
            elif v in ('byval', 'sret', 'elementtype', 'dereferenceable', 'dereferenceable_or_null', 'byref', 'range', 'captures'):
                self.next()
                self.expect('(')
                if v in ('byval', 'sret', 'elementtype', 'byref'):
                    t = self.type()
                    if v == 'byval':
                        byval = t
                    self.expect(')')
                else:
                    d = 1
                    while d:
                        x = self.next()[1]
                        d += (x == '(') - (x == ')')
            elif k == 'str' or k == 'attr':
                self.next()
            else:
                return byval

    # constant or local operand; returns ('l',name) ('c',int) ('g',name) ('gep',...) ('null',) ('undef',) ('agg',[(t,v)]) ('str',bytes) ('fn'..)
    def value(self, ty):
        k, v = self.next()
        if k == 'lid':
            return ('l', v[1:].strip('"'))
        if k == 'num':
            w = self.m.bits(ty) if ty[0] in ('i', 'n') else 64
            return ('c', int(v) & ((1 << w) - 1))
        if k == 'gid':
            return ('g', v[1:].strip('"'))
        if k == 'flt':
            return ('flt', v)
        if k == 'cstr':
            return ('str', unescape(v[2:-1]))
        if k == 'word':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v in ('null',):
                return ('null',)
            if v == 'asm':
                while self.peek()[0] != 'str':
                    self.next()
                a = self.next()[1]
                self.expect(',')
                c = self.next()[1]
                return ('asm', a, c)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v in ('zeroinitializer', 'none'):
                return ('zero',)
            if v in ('getelementptr',):
                self.accept('inbounds')
                if self.accept('inrange'):
                    pass
                self.expect('(')
                t = self.type()
                self.expect(',')
                ops = []
                while not self.accept(')'):
                    self.accept('inrange')
                    et = self.type()
                    ops.append((et, self.value(et)))
                    self.accept(',')
                return ('gep', t, ops)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('cast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
                while self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                self.expect('(')
                t = self.type(); x = self.value(t); self.expect(',')
                t2 = self.type(); y = self.value(t2); self.expect(')')
                return ('cbin', v, t, x, y)
        if v in ('{', '[', '<'):
            end = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.next()
                r = self.value_list('}')
                self.expect('>')
                return ('agg', r)
            r = self.value_list(end)
            return ('agg', r)
        if k == 'meta':
            # skip metadata operand
            return ('md',)
        raise SyntaxError('value %r %r' % (k, v))

    def value_list(self, end):
        r = []
        while not self.accept(end):
            t = self.type()
            r.append((t, self.value(t)))
            self.accept(',')
        return r


def unescape(s):
    b = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i + 1] == '\\':
            b.append(92)
            i += 2
        elif s[i] == '\\':
            b.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            b.append(ord(s[i]))
            i += 1
    return bytes(b)


def parse_global(mod, name):
    """-> (type, is_const, init value or None, external?)"""
    rest = mod.globals[name]
    toks = tokenize(re.sub(r', !dbg.*$', '', rest))
    p = P(toks, mod)
    ext = False
    while p.peek()[1] in LINKAGE or p.peek()[1] in ('addrspace',):
        v = p.next()[1]
        if v in ('external', 'extern_weak'):
            ext = True
        if v == 'addrspace':
            p.next(); p.next(); p.next()
        if v == 'thread_local' and p.peek()[1] == '(':
            p.next(); p.next(); p.next()
    kind = p.next()[1]
    t = p.type()
    init = None
    if not ext:
        init = p.value(t)
    return t, kind == 'constant', init, ext


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'volatile', 'nneg', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'contract', 'tail', 'musttail', 'notail'}

_dbg = re.compile(r', !dbg !(\d+)')
_lab = re.compile(r'^("[^"]*"|[\w.$\-]+):')


def parse_func(mod, f):
    h = f.header
    # parameters
    i = h.index('@' + f.name if ('@' + f.name) in h else '@"')
    j = h.index('(', i + len(f.name))
    d = 0
    k = j
    while True:
        if h[k] == '(':
            d += 1
        elif h[k] == ')':
            d -= 1
            if d == 0:
                break
        k += 1
    p = P(tokenize(h[j + 1:k]), mod)
    while p.i < len(p.t):
        if p.accept('...'):
            continue
        t = p.type()
        bv = p.attrs()
        nm = None
        if p.peek()[0] == 'lid':
            nm = p.next()[1][1:].strip('"')
        f.params.append((t, nm, bv))
        p.accept(',')
    # return type
    pr = P(tokenize(re.sub(r'^define ', '', h[:i])), mod)
    while pr.peek()[1] in LINKAGE or pr.peek()[1] in PARAM_ATTRS or pr.peek()[1] in ('fastcc', 'ccc', 'align', 'dereferenceable'):
        v = pr.next()[1]
        if v == 'align':
            pr.next()
        elif v == 'dereferenceable':
            pr.next(); pr.next(); pr.next()
    f.ret = pr.type()
    f.blocks = {}
    cur = None
    nun = len([1 for x in f.params if x[1] is not None and x[1].isdigit()])
    lines = f.lines
    idx = 0
    while idx < len(lines):
        line = lines[idx]
        idx += 1
        s = line.strip()
        if not s or s[0] == ';':
            continue
        if line[0] not in ' \t':
            m = _lab.match(line)
            b = Block()
            b.name = m.group(1).strip('"')
            b.phis = []
            b.ins = []
            b.succ = []
            f.blocks[b.name] = b
            cur = b
            if f.entry is None:
                f.entry = b.name
            continue
        if cur is None:
            b = Block()
            b.name = str(nun)
            b.phis = []
            b.ins = []
            b.succ = []
            f.blocks[b.name] = b
            f.entry = b.name
            cur = b
        if s.startswith('switch '):
            while ']' not in s:
                s += ' ' + lines[idx].strip()
                idx += 1
        elif ' invoke ' in s or s.startswith('invoke '):
            s += ' ' + lines[idx].strip()
            idx += 1
        elif 'landingpad' in s:
            while idx < len(lines) and lines[idx].strip().split(' ')[0] in ('cleanup', 'catch', 'filter'):
                s += ' ' + lines[idx].strip()
                idx += 1
        if 'call void @llvm.dbg.' in s or 'call void @llvm.lifetime' in s:
            continue
        ins = parse_instr(mod, s)
        if ins.op == 'phi':
            cur.phis.append(ins)
        else:
            cur.ins.append(ins)
            if ins.op == 'br':
                cur.succ = [x for x in (ins.a[1:] if len(ins.a) == 3 else ins.a)]
            elif ins.op == 'switch':
                cur.succ = [ins.a[1]] + [x[1] for x in ins.a[2]]
            elif ins.op == 'invoke':
                cur.succ = [ins.a[4]]
    # entry label name may differ if there were unnamed params; only referenced through phis
    _ipdom(f)


def _ipdom(f):
    EXIT = None
    names = list(f.blocks)
    preds = {n: [] for n in names}
    preds[EXIT] = []
    succs = {}
    for n in names:
        s = list(dict.fromkeys(f.blocks[n].succ)) or [EXIT]
        if f.blocks[n].ins and f.blocks[n].ins[-1].op == 'unreachable':
            s = []
        succs[n] = s
        for x in s:
            preds[x].append(n)
    # post-order of reverse graph
    order = []
    seen = set()
    stack = [(EXIT, iter(preds[EXIT]))]
    seen.add(EXIT)
    while stack:
        n, it = stack[-1]
        adv = False
        for x in it:
            if x not in seen:
                seen.add(x)
                stack.append((x, iter(preds[x])))
                adv = True
                break
        if not adv:
            order.append(n)
            stack.pop()
    rpo = order[::-1]
    num = {n: i for i, n in enumerate(rpo)}
    idom = {EXIT: EXIT}
    changed = True
    while changed:
        changed = False
        for n in rpo[1:]:
            new = 'none'
            for s in succs[n]:
                if s in idom:
                    if new == 'none':
                        new = s
                    else:
                        a, b = s, new
                        while a != b:
                            while num[a] > num[b]:
                                a = idom[a]
                            while num[b] > num[a]:
                                b = idom[b]
                        new = a
            if new != 'none' and idom.get(n, 'unset') != new:
                idom[n] = new
                changed = True
    f.ipdom = idom


def parse_instr(mod, s):
    m = _dbg.search(s)
    dbg = int(m.group(1)) if m else None
    # cut trailing metadata
    k = s.find(', !')
    if k >= 0:
        s = s[:k]
    p = P(tokenize(s), mod)
    res = None
    if p.peek()[0] == 'lid' and p.peek(1)[1] == '=':
        res = p.next()[1][1:].strip('"')
        p.next()
    op = p.next()[1]
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]

    def align():
        while p.accept(','):
            if p.peek()[1] == 'align':
                p.next()
                return int(p.next()[1])
            if p.peek()[1] == 'addrspace':
                p.next(); p.next(); p.next(); p.next()
            else:
                break
        return 0

    def flags():
        r = []
        while p.peek()[1] in FLAGS:
            r.append(p.next()[1])
        return r

    if op in BIN:
        fl = flags()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, res, t, (a, b, fl), dbg)
    if op in CAST:
        flags()
        t = p.type()
        a = p.value(t)
        p.expect('to')
        t2 = p.type()
        return Instr(op, res, t2, (t, a), dbg)
    if op == 'load':
        flags()
        p.accept('atomic')
        t = p.type()
        p.expect(',')
        pt = p.type()
        a = p.value(pt)
        return Instr(op, res, t, (a,), dbg, align())
    if op == 'store':
        flags()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt = p.type()
        a = p.value(pt)
        return Instr(op, None, t, (v, a), dbg, align())
    if op == 'getelementptr':
        flags()
        t = p.type()
        p.expect(',')
        ops = []
        while p.i < len(p.t):
            et = p.type()
            ops.append((et, p.value(et)))
            if not p.accept(','):
                break
        return Instr(op, res, PTR, (t, ops), dbg)
    if op == 'alloca':
        t = p.type()
        cnt = None
        al = 0
        while p.accept(','):
            if p.peek()[1] == 'align':
                p.next()
                al = int(p.next()[1])
            elif cnt is None and p.peek()[1] != 'addrspace':
                ct = p.type()
                cnt = (ct, p.value(ct))
            else:
                break
        return Instr(op, res, PTR, (t, cnt), dbg, al)
    if op == 'icmp':
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, res, t, (pred, a, b), dbg)
    if op == 'select':
        flags()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        p.type()
        b = p.value(t)
        return Instr(op, res, t, (ct, c, a, b), dbg)
    if op == 'phi':
        flags()
        t = p.type()
        inc = {}
        while p.accept('['):
            v = p.value(t)
            p.expect(',')
            l = p.next()[1][1:].strip('"')
            p.expect(']')
            inc[l] = v
            p.accept(',')
        return Instr(op, res, t, inc, dbg)
    if op == 'br':
        if p.accept('label'):
            return Instr(op, None, None, (p.next()[1][1:].strip('"'),), dbg)
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = p.next()[1][1:].strip('"')
        p.expect(',')
        p.expect('label')
        b = p.next()[1][1:].strip('"')
        return Instr(op, None, None, (c, a, b), dbg)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1][1:].strip('"')
        p.expect('[')
        cs = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cs.append((cv[1], p.next()[1][1:].strip('"')))
        return Instr(op, None, t, (v, d, cs), dbg)
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return Instr(op, None, VOID, (None,), dbg)
        return Instr(op, None, t, (p.value(t),), dbg)
    if op in ('call', 'invoke'):
        while p.peek()[1] in PARAM_ATTRS or p.peek()[1] in FLAGS or p.peek()[1] in ('fastcc', 'ccc', 'dereferenceable', 'align'):
            v = p.next()[1]
            if v == 'dereferenceable':
                p.next(); p.next(); p.next()
            if v == 'align':
                p.next()
        t = p.type()
        if t[0] == 'fn':
            t = t[1]
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            if p.peek()[1] == 'metadata':
                # metadata argument; skip to , or )
                d = 0
                while True:
                    v = p.peek()[1]
                    if d == 0 and v in (',', ')'):
                        break
                    d += (v == '(') - (v == ')')
                    p.next()
                p.accept(',')
                continue
            at = p.type()
            bv = p.attrs()
            args.append((at, p.value(at), bv))
            p.accept(',')
        if op == 'invoke':
            while p.peek()[0] == 'attr':
                p.next()
            p.expect('to'); p.expect('label')
            nb = p.next()[1][1:].strip('"')
            p.expect('unwind'); p.expect('label')
            ub = p.next()[1][1:].strip('"')
            return Instr('invoke', res, t, (callee, args, None, None, nb, ub), dbg)
        return Instr('call', res, t, (callee, args), dbg)
    if op == 'unreachable':
        return Instr(op, None, None, (), dbg)
    if op == 'extractelement':
        t = p.type(); v = p.value(t); p.expect(',')
        it = p.type(); i = p.value(it)
        return Instr(op, res, t, (v, i), dbg)
    if op == 'insertelement':
        t = p.type(); v = p.value(t); p.expect(',')
        et = p.type(); e = p.value(et); p.expect(',')
        it = p.type(); i = p.value(it)
        return Instr(op, res, t, (v, e, i), dbg)
    if op == 'shufflevector':
        t = p.type(); v = p.value(t); p.expect(',')
        t2 = p.type(); v2 = p.value(t2); p.expect(',')
        mt = p.type(); mk = p.value(mt)
        return Instr(op, res, t, (v, v2, mt, mk), dbg)
    if op == 'freeze':
        t = p.type(); v = p.value(t)
        return Instr(op, res, t, (v,), dbg)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return Instr(op, res, t, (v, idx), dbg)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(',')
        et = p.type(); e = p.value(et)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return Instr(op, res, t, (v, et, e, idx), dbg)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        flags()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, res, t, (a, b), dbg)
    if op == 'fneg':
        flags()
        t = p.type()
        return Instr(op, res, t, (p.value(t),), dbg)
    if op == 'fcmp':
        flags()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, res, t, (pred, a, b), dbg)
    if op in ('landingpad', 'resume', 'va_arg', 'fence', 'atomicrmw', 'cmpxchg'):
        return Instr('unsupported', res, None, (op,), dbg)
    raise SyntaxError('instr ' + op + ' in ' + s)
