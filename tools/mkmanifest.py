#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'P01': 'property-based testing: generated arrays vs brute-force/closed-form prox oracle',
 'P02': 'property-based testing: generated arrays vs membership, optimality and reference projections',
 'P03': 'property-based testing: dense reference solves of generated systems',
 'P04': 'property-based testing: round-trip, Parseval and direct-sum transform oracles',
 'P05': 'property-based testing: naive-indexing reference models and round trips',
 'P06': 'stateful property-based testing: option-tree model over operation histories',
 'P07': 'property-based testing: optimum vs independent dense reference solver',
 'P08': 'property-based testing: optimum vs independent dense reference solver',
 'P09': 'property-based testing: optimum vs independent dense reference solver',
 'P10': 'property-based testing: feasibility invariant and optimum vs reference solver',
 'P11': 'model-based property testing: reference ADMM interpreter over generated problems',
 'P12': 'model-based property testing: reference proximal gradient interpreter',
 'P13': 'property-based testing: independent functional evaluation at recorded iterates',
 'P14': 'stateful property-based testing: split/pickle histories vs one uninterrupted run',
 'P15': 'metamorphic property testing: frozen inputs, repeated and interleaved runs',
 'P16': 'differential property testing between equivalent configurations',
 'P17': 'metamorphic property testing over masks',
 'P18': 'property-based testing: invariants and independent functionals along learning histories',
 'P19': 'property-based testing: textbook definitions and metamorphic relations',
 'P20': 'property-based testing: adjoint, dense-reference and statistical oracles',
 'P21': 'property-based testing: naive reference and linear-programming oracle',
 'P22': 'stateful property-based testing: timer model under a controlled clock',
 'P23': 'property-based testing: exhaustive serial search oracle',
 'P24': 'metamorphic property testing: equivariance relations',
 'P25': 'property-based testing: layout reference model',
 'P26': 'property-based testing and fault injection: tiling model, loopback server with injected failures',
}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(H, 'checks', i.lower() + '.py')):
        checks.append(dict(
            property=i, quick_cmd='python3 run.py ' + i,
            thorough_cmd='VERIF_TIER=thorough python3 run.py ' + i,
            evidence_file='evidence/%s.json' % i, technique=TECH[i], level='exploration',
            level_note='Seeded random search with Hypothesis over generated inputs and histories; '
                       'no violation on the explored cases, not a proof. Trusts numpy/scipy, the reference '
                       'oracles in the check, and the tolerances and domain restrictions listed in DESIGN.md '
                       'and in the evidence file.'))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='python3 run.py --selftest', checks=checks, not_applicable=na,
         notes='No hooks in /repo: all observation is through the public API. See DESIGN.md.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not yet')
