#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json, properties.jsonl and tools/na.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(V + '/checks.json'))
na = json.load(open(V + '/tools/na.json'))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
out = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    c = checks.get(p)
    if not c:
        out['not_applicable'].append({'property': p, 'reason': na[p]})
        continue
    out['checks'].append({
        'property': p, 'quick_cmd': 'python3 check.py ' + p,
        'thorough_cmd': 'env VERIF_TIER=thorough python3 check.py ' + p,
        'technique': 'contract-based deductive verification of the Go code (gover: go/ssa to SMT), with a bounded stand-in where stated',
        'level': c.get('level', 'proof'),
        'level_note': c.get('note') or ('All obligations of the contracts in ' + ', '.join(['contracts/' + f for f in c.get('files', [])] + c.get('units', [])) + ' are discharged by SMT from the current source. ' + ('Not proved, bounded only: ' if c.get('not_proved') else '') + '; '.join(c.get('not_proved', [])))})
json.dump(out, open(V + '/MANIFEST.json', 'w'), indent=1)
