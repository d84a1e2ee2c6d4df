"""Writes MANIFEST.json from the checks present in mc/checks and the list of properties."""
import json, os, sys, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
META = json.load(open(V + '/tools/checks.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/mc/checks/%s.py' % (V, i.lower())) and i in META:
        m = META[i]
        checks.append(dict(property=i, quick_cmd='%s -W ignore mc/run.py %s --quick' % (PY, i),
                           thorough_cmd='%s -W ignore mc/run.py %s --thorough' % (PY, i),
                           evidence_file='evidence/%s.json' % i, technique=m['technique'],
                           level=m.get('level', 'model_checking'), level_note=m['note']))
    else:
        na.append(dict(property=i, reason=META.get(i, {}).get('na', 'check not built yet; see DESIGN.md')))
out = dict(version=1, setup_cmd=PY + ' -W ignore tools/setup.py', checks=checks, not_applicable=na,
           notes='All checks run the real slash code of /repo in-process (no build product besides the sources); no hooks in /repo are needed.')
json.dump(out, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
