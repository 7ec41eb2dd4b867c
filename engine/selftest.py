"""The specification is checked against published test vectors (no repository code involved)."""
import hashlib
import hmac as H
import dom
import spec as S


def b(x):
    return list(bytes.fromhex(x))


def run():
    d = dom.Dom()
    n = 0

    def chk(name, got, want):
        nonlocal n
        got = bytes(got).hex()
        assert got == want.lower(), (name, got, want)
        n += 1
    k = b('2b7e151628aed2a6abf7158809cf4f3c')
    chk('aes', S.aes_enc(d, S.aes_keys(d, k), b('6bc1bee22e409f96e93d7e117393172a')), '3ad77bb40d7a3660a89ecaf32466ef97')
    chk('ctr', S.aes_ctr(d, b('AE6852F8121067CC4BF7A5765577F39E'), b('000000300000000000000000'), list(b'Single block msg'))[0], 'E4095D4FB7A7B3792D6175A3261311B8')
    chk('cfb', S.aes_cfb(d, k, b('000102030405060708090a0b0c0d0e0f'), b('6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51'), 0)[0],
        '3b3fd92eb72dad20333449f8e83cfb4ac8a64537a0b3a93fcde3cdad9f1ce58b')
    # SP 800-38A F.3.7 CFB8-AES128: 1-byte segments
    reg = b('000102030405060708090a0b0c0d0e0f')
    out = []
    for x in b('6bc1bee22e409f96e93d7e117393172aae2d'):
        o, reg = S.aes_cfb(d, k, reg, [x], 0)
        out += o
    chk('cfb8', out, '3b79424c9c0dd436bace9e0ed4586a4f32b9')
    z = [0] * 16
    ct, t = S.aegis_encrypt(d, z, z, [], z)
    chk('aegis1', ct + t, '951b050fa72b1a2fc16d2e1f01b07d7ea7d2a99773249542f422217ee888d5f1')
    key = list(range(32))
    chk('chacha', S.chacha_block(d, key, b('000000090000004a00000000'), 1),
        '10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4ed2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e')
    chk('hc128', S.HC128(d, z, z).keystream(32), '82001573A003FD3B7FD72FFB0EAF63AAC62F12DEB629DCA72785A66268EC758B')
    chk('hc128iv', S.HC128(d, z, [1] + [0] * 15).keystream(16), 'D59318C058E9DBB798EC658F04661764')
    r = S.Rabbit(d, z)
    # eSTREAM / RFC 4503 vectors, little-endian octet order
    chk('rabbit', r.block() + r.block(), '02F74A1C26456BF5ECD6A536F05457B1A78AC689476C697B390C9CC515D8E888')
    for iv, o in (('0000000000000000', 'EDB70567375DCD7CD89554F85E27A7C6'), ('597E26C175F573C3', '6D7D012292CCDCE0E2120058B94ECD1F'),
                  ('2717F4D21A56EBA6', '4D1051A123AFB670BF8D8505C8D85A44')):
        r.load_iv(b(iv))
        chk('rabbit-iv', r.block(), o)
    s = S.Sosemanuk(d, b('A7C083FEB7'))
    s.load_iv(b('00112233445566778899AABBCCDDEEFF'))
    chk('sosemanuk', s.block() + s.block(), 'FE81D2162C9A100D04895C454A77515BBE6A431A935CB90E2221EBB7EF502328')
    for m in (0, 1, 3, 55, 56, 63, 64, 65, 119, 120, 200):
        msg = [(7 * i + m) & 255 for i in range(m)]
        chk('sha', S.sha256(d, msg), hashlib.sha256(bytes(msg)).hexdigest())
        chk('md5', S.md5(d, msg), hashlib.md5(bytes(msg)).hexdigest())
        for kl in (0, 1, 63, 64, 65, 100):
            kk = [(5 * i + kl) & 255 for i in range(kl)]
            chk('hmac', S.hmac(d, kk, msg), H.new(bytes(kk), bytes(msg), 'sha256').hexdigest())
    chk('des', S.des_block(d, S.des_keys(d, b('133457799BBCDFF1')), b('0123456789ABCDEF')), '85E813540F0AB405')
    chk('des2', S.des_block(d, S.des_keys(d, b('133457799BBCDFF1'))[::-1], b('85E813540F0AB405')), '0123456789ABCDEF')
    # Rivest's DES test: 16 iterations exercise every S-box entry
    x = b('9474B8E8C73BCA7D')
    for i in range(16):
        ks = S.des_keys(d, x)
        x = S.des_block(d, ks if i % 2 == 0 else ks[::-1], x)
    chk('des-rivest', x, '1B1A2DDB4C642438')
    chk('hex', S.hex_encode(d, b('00ff0a')), b'00FF0A'.hex())
    return n


if __name__ == '__main__':
    print('specification vectors passed:', run())
