"""AES constants computed from their mathematical definition (FIPS-197)."""


def xtime(a):
    a <<= 1
    return (a ^ 0x11b) & 0xff if a & 0x100 else a


def gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = xtime(a)
        b >>= 1
    return r


def _sbox():
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if gmul(a, b) == 1:
                inv[a] = b
                break
    out = []
    for a in range(256):
        x = inv[a]
        r = 0
        for i in range(8):
            b = (x >> i) ^ (x >> ((i + 4) % 8)) ^ (x >> ((i + 5) % 8)) ^ (x >> ((i + 6) % 8)) ^ (x >> ((i + 7) % 8)) ^ (0x63 >> i)
            r |= (b & 1) << i
        out.append(r)
    return out


SBOX = _sbox()
RCON = [0, 1]
while len(RCON) < 31:
    RCON.append(xtime(RCON[-1]))
# T-tables (little-endian column words as in the repository): T0[x] = (2,1,1,3)·S[x]
T0 = [gmul(s, 2) | s << 8 | s << 16 | gmul(s, 3) << 24 for s in SBOX]
T1 = [((t << 8) | (t >> 24)) & 0xffffffff for t in T0]
T2 = [((t << 16) | (t >> 16)) & 0xffffffff for t in T0]
T3 = [((t << 24) | (t >> 8)) & 0xffffffff for t in T0]
