#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from claims import CLAIMS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p not in CLAIMS: continue
    c = CLAIMS[p]
    checks.append({'property': p, 'quick_cmd': f'python3 tools/check.py {p} quick', 'thorough_cmd': f'python3 tools/check.py {p} thorough', 'evidence_file': f'evidence/{p}.json',
        'technique': c.get('technique', 'contract-based deductive verification (Verus) of the functions extracted from the sources on every run'),
        'level': c.get('level', 'proof'),
        'level_note': c['note'] + ' Floats are exact reals plus infinity; library contracts in contracts/prelude.rs and the extraction rewrites are trusted (listed in the evidence).',
        'theorems': c.get('theorems', [])})
na = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'contracts for this property are not finished; see DESIGN.md')} for p in props if p not in CLAIMS]
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: private functions are extracted from the sources, public ones are called by the harness. fix: commits are listed in known_findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
