"""Writes MANIFEST.json from the registry (run by hand when the registry changes)."""
import json
import os
import registry

TECH = {
    'vg': 'abstract interpretation of compiler IR (value-graph domain), translation validation against the specification',
    'kb': 'abstract interpretation of compiler IR (known bits + definedness, relational value graph on doubt)',
}
NOTE = {
    'vg': 'All byte contents (keys, nonces, messages) are covered symbolically; message lengths, packet splits and key lengths are the enumerated ones (small lengths, block neighbourhoods, '
          'neighbourhoods of integer constants found in the code). Trusts clang\'s front end and the engine.',
    'kb': 'All byte contents are covered; call shapes (lengths, packet sequences) are enumerated as in the functional checks. Trusts clang\'s front end and the engine.',
}


def main():
    checks = []
    for pid in sorted(registry.PROPS):
        s = registry.PROPS[pid]
        kind = s.get('kind', 'vg' if s['level'] == 'translation_validation' else 'kb')
        checks.append(dict(property=pid, quick_cmd='python3 check.py %s quick' % pid, thorough_cmd='python3 check.py %s thorough' % pid,
                           evidence_file='evidence/%s.json' % pid, technique=s.get('technique', TECH.get(kind)), level=s['level'],
                           level_note=s.get('note', NOTE.get(kind))))
    ids = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'))]
    na = [dict(property=i, reason=registry.NOT_APPLICABLE[i]) for i in ids if i not in registry.PROPS]
    m = dict(version=1, setup_cmd='python3 engine/selftest.py', checks=checks, not_applicable=na)
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json')
    with open(p, 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
