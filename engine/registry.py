"""Property id -> how it is decided."""
import driver as D

VG = ('every byte the entry point writes is expressed as a canonical value graph over the bytes of key, nonce, message and '
      'length, and compared with the graph of the published algorithm written in the same normal form; one obligation per output byte')
ASSUME = ['message lengths, packet splits and key lengths are the enumerated ones (all small lengths, neighbourhoods of block multiples and of every '
          'integer constant in the code); byte contents are unconstrained', 'clang 18 -O0 IR of the current sources; little-endian target',
          'distinct pointer arguments do not overlap']


def vgp(rule='', level='translation_validation', assume=()):
    def mk(pid):
        return dict(jobs=lambda tier: D.functional_jobs(pid, tier), level=level, rule=(rule + ' ' if rule else '') + VG, assumptions=ASSUME + list(assume))
    return mk


def cross(rule):
    def mk(pid):
        return dict(jobs=D.safety_jobs, level='other', rule=rule, assumptions=ASSUME[:2])
    return mk


_P = {}
for _i in list(range(1, 18)) + [23, 29, 30, 32]:  # C18, C19, C27 below
    _P['C%02d' % _i] = vgp()
KB = ' Known-bits and definedness abstract interpretation of every public entry point with exactly-sized buffers; anything it cannot exclude is decided again in the value-graph domain.'
_P['C20'] = cross('Every load, store and bulk copy stays inside a live object of known size; no invalid shift, division or release. One obligation per load, store and end of a bulk copy.' + KB)
_P['C21'] = cross('No output byte and no branch decision depends on memory that was never written. One obligation per output byte and per data-dependent branch.' + KB)
_P['C22'] = cross('Input buffers hold the same bytes after the call. One obligation per input buffer.' + KB)
_P['C24'] = cross('Every heap block allocated during the call is released exactly once before it returns. One obligation per heap block.' + KB)
_P['C25'] = cross('No call of an output function is reachable on a path that returns to the caller. One obligation per reached call of a function that is not part of the toolbox.' + KB)
_P['C31'] = cross('No static memory is both changed, outside the guarded initialisation of a function-local static, and read by calls of the library; nor is the hidden state of a C library function used. One obligation per store and bulk copy.' + KB)
_P['C33'] = cross('Every vector load and store that requires an alignment reaches an address that is known to have it, whatever the alignment of the caller\'s byte buffers and with no more than alignof of the context type. One obligation per vector access.' + KB)
_P['C26'] = lambda pid: dict(jobs=D.pair_jobs, level='translation_validation', rule='the portable, x86 and ARM implementations (with and without intrinsics) and the duplicated copies compute identical value graphs for every output byte and result', assumptions=ASSUME)

BN = ('GMP calls are interpreted in an algebraic term domain (products of powers of symbolic units with polynomial exponents over message bits, '
      'modulo 2^k where the order allows it) with a typestate per variable; joins at data-dependent branches become polynomials in the message bits. ')
_BA = ['message sizes k are the enumerated ones; message bits, keys and random numbers are symbolic', 'a random x below N is nonzero and a unit; GMP functions have their documented meaning',
       'p = 2^k L + 1 is prime and y is a quadratic non-residue modulo p (established by C27)', 'clang 18 -O0 IR of the current sources']
for _i, _r in (('C18', 'Encryption equals y^m x^(2^k) mod N for a fresh x below N; decryption of y^M x^(2^k) yields the polynomial sum of the bits of M.'),
               ('C19', 'Each evaluation result, mapped by the decryption homomorphism (exponent of y modulo 2^k), equals the function of the plaintexts; one obligation per result.'),
               ('C27', 'For every outcome sequence of the primality, residue and congruence tests up to the bound, the facts established on the way to the return are those the key needs.')):
    _P[_i] = (lambda r: lambda pid: dict(jobs=lambda tier: D.functional_jobs(pid, tier), level='translation_validation' if pid != 'C27' else 'other', rule=BN + r, assumptions=_BA,
                                        technique='abstract interpretation of compiler IR in a big-number term domain with typestate',
                                        note='Keys, messages and random numbers symbolic; message sizes (and for C27 the number of failing tests) enumerated. GMP itself is trusted.'))(_r)
_P['C28'] = lambda pid: dict(
    jobs=lambda tier: D.functional_jobs(pid, tier), level='other',
    rule='The example program is interpreted with the ciphers and the MAC as opaque operations and, after each tag generation, a received message of unknown content. '
         'Every call that decrypts received bytes must lie only on paths where a verification returned true, and that verification must cover every received byte used (IV and '
         'ciphertext) and the 16-byte tag received with them. One obligation per verification and per decryption call.',
    assumptions=['hmac_tag_validation is true exactly for valid tags (C12, C13)', 'the two messages of the example', 'clang 18 -O0 IR of the current sources'],
    technique='path-sensitive dominance and taint analysis on compiler IR (abstract interpretation with opaque operations)',
    note='Ciphers, MAC, hex coder and std::string are replaced by models; branch conditions are tracked as path facts.')
PROPS = {k: f(k) for k, f in _P.items()}

NOT_APPLICABLE = {}
