"""Append 'fixed' entries to known_findings.json: addfix.py Cxx commit-sha 'what failed'"""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
pid, sha, what = sys.argv[1:4]
d['findings'].append(dict(property=pid, status='fixed', commit=sha, what='fixed: property=%s %s %s' % (pid, sha, what)))
with open(p, 'w') as f:
    f.write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(x, ensure_ascii=False) for x in d['findings']) + '\n]}\n')
