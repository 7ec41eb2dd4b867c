"""Direct comparison of the implementations of one algorithm (portable / x86 / ARM, with and without intrinsics, and the
copies kept in two directories): the same call shape is analysed in each, and the value graphs of the outputs are compared
with each other.  No specification is involved."""
import scen as C


def obs_ctr(x, seq):
    st, k, n = C.ctr_setup(x)
    out = []
    for j, L in enumerate(seq):
        i = x.sym('in%d' % j, L)
        o = x.undef('out%d' % j, L)
        x.call('d_proc', st, o, i, L)
        out += [('packet %d byte %d' % (j, b), v, x.writer(o, b)) for b, v in enumerate(x.read(o))]
    return out


def obs_cfb(x, seq):
    st = x.state('sz')
    k = x.sym('key', 16)
    v = x.sym('iv', 16)
    x.call('d_init', st, k, v)
    out = []
    for j, (m, L) in enumerate(seq):
        i = x.sym('in%d' % j, L)
        o = x.undef('out%d' % j, L)
        x.call('d_enc' if m == 'e' else 'd_dec', st, o, i, L)
        out += [('packet %d byte %d' % (j, b), v, x.writer(o, b)) for b, v in enumerate(x.read(o))]
    return out


def obs_aegis(x, p):
    al, ml = p
    st = x.state('sz')
    k = x.sym('key', 16)
    x.call('d_key', st, k)
    v = x.sym('iv', 16)
    ad = x.sym('ad', al)
    m = x.sym('pt', ml)
    c = x.undef('ct', ml)
    t = x.undef('tag', 16)
    x.call('d_enc', st, c, t, m, ad, v, al, ml)
    out = [('ciphertext byte %d' % b, v, x.writer(c, b)) for b, v in enumerate(x.read(c))]
    out += [('tag byte %d' % b, v, x.writer(t, b)) for b, v in enumerate(x.read(t))]
    c2 = x.sym('ct2', ml)
    t2 = x.sym('tag2', 16, role='inout')
    r2 = x.undef('rec', ml)
    v = x.sym('iv', 16)
    r = x.call('d_dec', st, r2, c2, ad, v, t2, al, ml)
    out += [('decrypted byte %d' % b, v, x.writer(r2, b)) for b, v in enumerate(x.read(r2))]
    out.append(('decryption result', r, 'aegis_decrypt_packet'))
    return out


def obs_serpent(x, L):
    st = x.state('sz')
    k = x.sym('key', L)
    x.call('d_key', st, k, L)
    i = x.sym('in', 16)
    o = x.undef('out', 48)
    x.call('d_proc', st, o, i)
    return [('state byte %d' % b, v, x.writer(o, b)) for b, v in enumerate(x.read(o))]


def obs_sha(x, L):
    m = x.sym('m', L)
    o = x.undef('digest', 32)
    x.call('d_sha', o, m, L)
    return [('digest byte %d' % b, v, x.writer(o, b)) for b, v in enumerate(x.read(o))]


def shapes(tier):
    q = tier == 'quick'
    r = range
    return {
        'aes-ctr': (obs_ctr, [[L] for L in (list(r(0, 34)) + [48, 63, 64, 65, 130] if q else r(0, 200))] + [[5, 16, 0, 33], [17, 15]]),
        'aes-cfb': (obs_cfb, [[(m, L)] for m in 'ed' for L in (list(r(0, 34)) + [48, 63, 64, 65] if q else r(0, 150))] + [[('e', 5), ('e', 20)], [('d', 5), ('d', 20)], [('e', 16), ('d', 17)]]),
        'aegis': (obs_aegis, [(m * 5 % 19, m) for m in (list(r(0, 18)) + [31, 32, 33, 48] if q else r(0, 100))] + [(a, 3) for a in (1, 15, 16, 17, 32)]),
        'serpent': (obs_serpent, [0, 5, 16, 24, 31, 32] if q else list(r(33))),
        'sha256': (obs_sha, [0, 1, 54, 55, 56, 63, 64, 119, 120] if q else list(r(0, 200))),
    }


STEP = {'aes-ctr': 10, 'aes-cfb': 10, 'aegis': 3, 'serpent': 3, 'sha256': 3}
# the reduced-round and reduced-feature builds are other algorithms
SKIP = ('rounds6', 'rounds8', 'rounds12')


def run(impls_mods, fam, shape_list, mk):
    """impls_mods: [(impl key, modules)]; mk(mods, key, d) -> Ctx.  Yields (ctx, shape, key, mismatches, compared)"""
    import dom
    fn = shapes('quick')[fam][0]
    base = None
    res = []
    for sh in shape_list:
        d = dom.Dom()
        ref = None
        for key, mods in impls_mods:
            x = mk(mods, key, d)
            got = fn(x, sh)
            if ref is None:
                ref = (key, got)
                res.append((x, sh, key, [], 0))
                continue
            bad = []
            for (n, a, la), (n2, b, lb) in zip(ref[1], got):
                if not x.same(a, b):
                    bad.append(dict(tag='C26', what='%s differs between %s and %s (shape %s)' % (n, ref[0], key, sh), buf='output', cell=n, loc=lb,
                                    got=x.show(b), want=x.show(a)))
            if len(ref[1]) != len(got):
                bad.append(dict(tag='C26', what='different outputs', buf='', cell=0, loc='?', got='', want=''))
            res.append((x, sh, key, bad, len(got)))
    return res
