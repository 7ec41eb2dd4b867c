"""Models of the AES / NEON / SSE intrinsics that survive in the IR (specified by the ISA manuals)."""
import aesmath as am


def sub_bytes(d, s):
    return [d.lookup(am.SBOX, d.bits(x, 8), 8) if type(x) is tuple else am.SBOX[x] for x in s]


def xtime(d, x):
    if type(x) is int:
        return am.xtime(x)
    h = x[7]
    x1 = d.xor1
    return d.norm((h, x1(x[0], h), x[1], x1(x[2], h), x1(x[3], h), x[4], x[5], x[6]))


def mix_columns(d, s):
    out = [None] * 16
    for c in range(4):
        a = s[4 * c:4 * c + 4]
        t = d.xor(d.xor(a[0], a[1], 8), d.xor(a[2], a[3], 8), 8)
        for i in range(4):
            u = xtime(d, d.xor(a[i], a[(i + 1) % 4], 8))
            out[4 * c + i] = d.xor(d.xor(a[i], t, 8), u, 8)
    return out


SHIFT = [0, 5, 10, 15, 4, 9, 14, 3, 8, 13, 2, 7, 12, 1, 6, 11]


def shift_rows(s):
    return [s[SHIFT[i]] for i in range(16)]


def xor16(d, a, b):
    return [d.xor(x, y, 8) for x, y in zip(a, b)]


def by(d, v):
    return [d.slice(v, 8 * i, 8) for i in range(16)]


def wd(d, b):
    return d.concat([(x, 8) for x in b])


def model(it, name, v, tys, rty, mod):
    d = it.d
    if name == 'llvm.x86.aesni.aesenc':
        s = mix_columns(d, sub_bytes(d, shift_rows(by(d, v[0]))))
        return d.xor(wd(d, s), v[1], 128)
    if name == 'llvm.x86.aesni.aesenclast':
        s = sub_bytes(d, shift_rows(by(d, v[0])))
        return d.xor(wd(d, s), v[1], 128)
    if name == 'llvm.x86.aesni.aeskeygenassist':
        b = by(d, v[0])
        imm = v[1]
        x1 = b[4:8]
        x3 = b[12:16]
        s1 = sub_bytes(d, x1)
        s3 = sub_bytes(d, x3)

        def rot(x):
            return x[1:] + x[:1]
        r1 = rot(s1)
        r1[0] = d.xor(r1[0], imm, 8)
        r3 = rot(s3)
        r3[0] = d.xor(r3[0], imm, 8)
        return wd(d, s1 + r1 + s3 + r3)
    if name == 'llvm.aarch64.crypto.aese':
        s = d.xor(v[0], v[1], 128)
        return wd(d, sub_bytes(d, shift_rows(by(d, s))))
    if name == 'llvm.aarch64.crypto.aesmc':
        return wd(d, mix_columns(d, by(d, v[0])))
    if name.startswith('llvm.aarch64.neon.rev') or name.startswith('llvm.bswap.v'):
        return NotImplemented
    if name.startswith('llvm.x86.ssse3.pshuf.b'):
        m = v[1]
        if type(m) is int:
            b = by(d, v[0])
            out = []
            for i in range(16):
                k = (m >> (8 * i)) & 255
                out.append(0 if k & 0x80 else b[k & 15])
            return wd(d, out)
    if name.startswith('llvm.x86.sse41.ptest'):
        x, y = v[0], v[1]
        z = d.eq(d.and_(x, y, 128), 0, 128)
        c = d.eq(d.and_(d.not_(x, 128), y, 128), 0, 128)
        r = z if name.endswith('z') else c if name.endswith('ptestc') else d.and1(z ^ 1, c ^ 1)
        return d.norm((r,) + (0,) * 31)
    if name.startswith('llvm.x86.sse2.pmovmskb'):
        b = d.bits(v[0], 128)
        return d.norm(tuple(b[8 * i + 7] for i in range(16)) + (0,) * 16)
    if name.startswith('llvm.aarch64.neon.') and name.split('.')[3] in ('umaxv', 'uminv', 'uaddv', 'saddv'):
        op = name.split('.')[3]
        t = tys[0]
        n, ew = t[1], mod.bits(t[2])
        xs = [d.slice(v[0], i * ew, ew) for i in range(n)]
        w = mod.bits(rty)
        if op.endswith('addv'):
            return d.zext(d.trunc(d.sumall([d.zext(x, w) for x in xs], w), ew), w)
        # the extreme of n values: decided bit by bit from the top
        alive = [1] * n
        out = [0] * ew
        for j in reversed(range(ew)):
            bit = [d.bits(x, ew)[j] for x in xs]
            if op == 'umaxv':
                r = 0
                for a, b in zip(alive, bit):
                    r = d.or1(r, d.and1(a, b))
                alive = [d.and1(a, d.or1(b, r ^ 1)) for a, b in zip(alive, bit)]
            else:
                r = 1
                for a, b in zip(alive, bit):
                    r = d.and1(r, d.or1(a ^ 1, b))
                alive = [d.and1(a, d.or1(b ^ 1, r)) for a, b in zip(alive, bit)]
            out[j] = r
        return d.zext(d.norm(tuple(out)), w)
    if name.startswith('llvm.aarch64.neon.tbl1'):
        m = v[1]
        n = mod.bits(rty) // 8
        if type(m) is int:
            b = by(d, v[0])
            return d.concat([(b[(m >> (8 * i)) & 255] if ((m >> (8 * i)) & 255) < 16 else 0, 8) for i in range(n)])
    return NotImplemented
