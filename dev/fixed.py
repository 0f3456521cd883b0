"""dev aid: fixed.py PROP COMMIT TEXT"""
import json, sys
f = '/verif/known_findings.json'
d = json.load(open(f))
p, c, t = sys.argv[1:4]
d['findings'].append({'property': p, 'key': 'fixed:' + c, 'status': 'fixed', 'commit': c, 'entry': f'fixed: property={p} {c} {t}'})
json.dump(d, open(f, 'w'), indent=1)
