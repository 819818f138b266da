"""MANIFEST.json from the contract modules present (contracts/cNN.py) and the reasons below."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTES = json.load(open(V + '/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(V + '/contracts/%s.py' % i.lower()) and i not in NOTES['not_applicable']:
        n = NOTES['checks'].get(i, {})
        checks.append(dict(property=i, quick_cmd='bash check.sh %s' % i, thorough_cmd='bash check.sh %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=n.get('technique', 'contracts on the real functions, discharged by PyVC (path-wise strongest postcondition; ring normaliser, z3, cvc5)'),
                           level=n.get('level', 'proof'),
                           level_note=n.get('level_note', 'Every obligation generated from the current source is discharged for all real-valued inputs; structural choices (element family, options, boundary data kinds) are enumerated. Floats are treated as reals; UFL lowering and CPython are trusted.')))
    else:
        na.append(dict(property=i, reason=NOTES['not_applicable'].get(i, 'contracts for this property are not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
