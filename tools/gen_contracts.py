"""CONTRACTS.md: every contract, its functions, whether it is a proof or bounded, and the assumptions of its property"""
import importlib, inspect, json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from pyvc import loops, specs
loops.TRANSFORM.update(specs.TRANSFORM)
loops.install()
from pyvc.contract import REGISTRY
props = {p['id']: p for p in map(json.loads, open(os.path.join(HERE, 'properties.jsonl')))}
out = ['# Contracts per property', '',
       'Generated by tools/gen_contracts.py from the registry. "proof": all obligations on all paths, for all values of the symbolic inputs and for the',
       'configurations enumerated by the contract; "bounded": the bound is stated, obligations are not counted as proved; "real": the real code with',
       'ordinary values only (cross-check).', '']
for p in sorted(props):
    m = importlib.import_module('contracts.' + p.lower())
    out += ['## %s %s' % (p, props[p]['title']), '']
    for a in getattr(m, 'ASSUMPTIONS', []):
        out.append('* assumed: ' + a)
    out += ['', '| contract | kind | functions | states |', '|---|---|---|---|']
    for c in sorted(REGISTRY[p], key=lambda c: c.name):
        kind = 'real' if c.kind == 'concrete' else 'bounded: ' + str(c.bounded) if c.bounded else 'proof'
        doc = ' '.join((inspect.getdoc(c.fn) or c.note or '').split())
        t = {}
        for x in c.targets:
            mod, _, q = x.partition(':')
            t.setdefault(mod.replace('thetis.', ''), []).append(q)
        fs = '; '.join('%s: %s' % (k, ', '.join(q)) for k, q in t.items())
        out.append('| %s | %s | %s | %s |' % (c.name, kind.replace('|', '/'), fs, doc.replace('|', '\\|')))
    out.append('')
open(os.path.join(HERE, 'CONTRACTS.md'), 'w').write('\n'.join(out))
