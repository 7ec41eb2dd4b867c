"""C28: the authenticated-encryption example, interpreted with the ciphers and the MAC as opaque operations and a received
message of unknown content."""
from absint import Ptr, Unsupported
from mpz import plain

SRC = 'Example_AuthenticatedEncryption/example_ae.cpp'
TAG = 16


def scenario(x):
    it = x.it
    d = x.d
    x.events = []
    n = [0]
    states = {}
    wire = set()
    valid = []          # (condition bit, set of atoms validated, where)

    def fresh(tag, k):
        n[0] += 1
        return [d.var('%s%d[%d]' % (tag, n[0], i), 8) for i in range(k)]

    def atoms(vals):
        out = set()
        for v in vals:
            if type(v) is tuple:
                for l in d.leaves(v):
                    out.add(l)
        return out

    def bytes_at(p, k):
        if type(k) is not int:
            raise Unsupported('message of symbolic length in the example')
        return it.rd_bytes(p, k)

    def put(p, vals):
        for i, v in enumerate(vals):
            it.store(it.addp(p, i), v, 1)

    def sid(p):
        if type(p) is not Ptr:
            raise Unsupported('cipher state at %r' % (p,))
        return (p.obj, p.off)

    def init(st, key, iv):
        states[sid(st)] = atoms(bytes_at(iv, 16)) & wire

    def process(st, out, inp, size, mode=None):
        data = bytes_at(inp, size)
        used = atoms(data) & wire
        if used or mode == 1:
            used |= states.get(sid(st), set())
            conds = set(it.conds) | set(it.assumed)
            def implied(c):
                return any(k == c or d.and1(k, c) == k for k in conds)
            ok = any(used <= a and implied(c) for c, a, w in valid)
            x.obl['C28'] = x.obl.get('C28', 0) + 1
            x.events.append('decrypt')
            if not ok:
                held = [a for c, a, w in valid if implied(c)]
                what = 'decryption of %d received bytes ' % size
                if not valid:
                    what += 'without any verification before it'
                elif not held:
                    what += 'on a path that does not require the verification to have succeeded'
                else:
                    what += 'although the verified data does not cover the IV and the ciphertext'
                x.mism.append(dict(tag='C28', what=what, buf='', cell=0, loc=it.loc, got='', want='verified first'))
            elif len(x.samples) < 3:
                x.samples.append('%s: decryption of %d received bytes happens only where the verification at %s succeeded; %d received bytes used, all verified' % (
                    it.loc, size, [w for c, a, w in valid if used <= a and implied(c)][0], len(used) // 8))
            put(out, fresh('plaintext', size))
        else:
            x.events.append('encrypt')
            put(out, fresh('ciphertext', size))

    def taggen(st, tag, msg, size, tlen):
        bytes_at(msg, size)
        x.events.append('tag')
        put(tag, fresh('tag', tlen))
        # from here on the message is what arrived: any content
        p = msg
        o = it.mem.o[p.obj]
        vals = fresh('wire', o.size)
        for i, v in enumerate(vals):
            it.store(Ptr(p.obj, i), v, 1)
            wire.update(atoms([v]))
        if type(tag) is Ptr and tag.obj != p.obj:
            vals = fresh('wire', tlen)
            for i, v in enumerate(vals):
                it.store(it.addp(tag, i), v, 1)
                wire.update(atoms([v]))

    def validate(st, tag, msg, size, tlen):
        x.events.append('verify')
        r = d.var('valid%d' % len(x.events), 1)
        m = atoms(bytes_at(msg, size)) & wire
        t = bytes_at(tag, tlen) if type(tlen) is int else []
        ta = atoms(t)
        x.obl['C28'] = x.obl.get('C28', 0) + 1
        if len(t) < TAG or not all(type(v) is tuple for v in t) or not ta <= wire or ta & m:
            x.mism.append(dict(tag='C28', what='the verification does not use the 16-byte tag that came with the message', buf='', cell=0, loc=it.loc, got='', want=''))
        valid.append((r[0], m, it.loc))
        return r

    fns = {'hmac_tag_validation': validate, 'hmac_tag_generation': taggen, 'hmac_load_key': lambda *a: None,
           'aes_cfb_initialize': init, 'aes_cfb_process_packet': process, 'hc128_initialize': init,
           'hc128_process_packet': lambda st, out, inp, size: process(st, out, inp, size),
           'hex_encode': lambda dst, src, k: put(dst, fresh('hex', 2 * k + 1)), 'hex_decode': lambda dst, src, k: put(dst, fresh('raw', k // 2))}

    # std::string: the characters live in an object of their own
    strs = {}

    def s_new(this, vals):
        p = it.new_obj('string', len(vals) + 1, 'stack')
        for i, v in enumerate(list(vals) + [0]):
            it.store(Ptr(p.obj, i), v, 1)
        strs[(this.obj, this.off)] = (p, len(vals))

    def s_get(this):
        if type(this) is not Ptr or (this.obj, this.off) not in strs:
            raise Unsupported('std::string of unknown content')
        return strs[(this.obj, this.off)]

    def c_cstr(this, p, *a):
        s = it.cstr(p)
        if s is None:
            raise Unsupported('std::string from unknown text')
        s_new(this, list(s.encode('latin-1') if isinstance(s, str) else s))

    def c_buf(this, p, k, *a):
        s_new(this, it.rd_bytes(p, k))

    def mk(fn):
        return lambda self, name, v, tys, rty, mod: fn(*v)
    SP = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
    SK = '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
    names = set()
    for m in x.mods:
        names |= set(m.funcs) | set(getattr(m, 'decls', ()))
        names |= set(called(m))
    for f in names:
        p = plain(f)
        if p in fns and f.startswith('_Z') and not any(f in m.funcs for m in x.mods):
            it.models[f] = mk(fns[p])
        elif f.startswith(SP + 'C') and 'PKcmRK' in f:
            it.models[f] = mk(c_buf)
        elif f.startswith(SP + 'C') and 'EPKcRK' in f:
            it.models[f] = mk(c_cstr)
        elif f.startswith(SP + 'C') and 'RKS4_' in f:
            it.models[f] = mk(lambda this, o: s_new(this, it.rd_bytes(s_get(o)[0], s_get(o)[1])))
        elif f.startswith(SP + 'D'):
            it.models[f] = mk(lambda this: None)
        elif f.startswith(SK + '4sizeEv') or f.startswith(SK + '6lengthEv'):
            it.models[f] = mk(lambda this: s_get(this)[1])
        elif f.startswith(SK + '4dataEv') or f.startswith(SK + '5c_strEv') or f.startswith(SP + '4dataEv'):
            it.models[f] = mk(lambda this: s_get(this)[0])
        elif f.startswith('_ZNSaIcE') or f.startswith('_ZNSt15__new_allocator') or f.startswith('_ZNSt6vector') is None:
            it.models[f] = mk(lambda *a: None)
    x.call('main')
    if x.noreturn:
        x.noreturn[:] = []
        raise Unsupported('the example never returns normally')
    # refusing a message is allowed to end the program
    it.effects[:] = [e for e in it.effects if e[0] != 'exit']
    if x.events.count('decrypt') < 2 or x.events.count('encrypt') < 2:
        raise Unsupported('anchors of the example not found: %s' % x.events)
    x.notes.append('events: ' + ' '.join(x.events))


def called(m):
    out = set()
    for n in list(m.funcs):
        for b in m.func(n).blocks.values():
            for i in b.ins:
                if i.op == 'call' and i.a[0][0] == 'g':
                    out.add(i.a[0][1])
    return out


def gen(tier, consts):
    from scen import Sc
    return [Sc('the whole example, received messages of unknown content', ['C28'], scenario)]
