"""Regenerates MANIFEST.json from the check modules present in sim/checks (python3, no phasor needed)."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i not in NA and os.path.exists(os.path.join(HERE, 'sim', 'checks', i.lower() + '.py')):
        m = importlib.import_module('sim.checks.' + i.lower())
        checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=getattr(m, 'TECHNIQUE', 'deterministic simulation: seeded schedule search against a reference model'),
                           level=m.LEVEL, level_note=m.NOTE if hasattr(m, 'NOTE') else
                           'Seeded search, not exhaustive. Explored: ' + m.RULE + '. Trusted: ' + '; '.join(m.ASSUMPTIONS) + '.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check under construction; not claimed yet')))
man = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
           notes='No hooks in /repo: the seam is an import hook in /verif/sim/seam.py that loads /repo/phasor from the working tree. '
                 'Replay a reported violation with ./check replay <file>.')
open(os.path.join(HERE, 'MANIFEST.json'), 'w').write(json.dumps(man, indent=1) + '\n')
print(len(checks), 'checks,', len(na), 'not claimed')
