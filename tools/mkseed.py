"""mkseed.py FILE: FILE is a python file defining SEEDS = [dict(id, property, edits=[(path, old, new)], needs, what, demo)]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns['SEEDS']:
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mkseed-')
    subprocess.check_call('git -C /repo archive HEAD | tar x -C %s; cd %s; git init -q; git add -A; git -c user.name=x -c user.email=x@x commit -qm x' % (w, w), shell=True)
    for path, old, new in s['edits']:
        t = open(os.path.join(w, path)).read()
        assert t.count(old) == 1, (s['id'], path, t.count(old), old)
        open(os.path.join(w, path), 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', 'diff'], cwd=w, text=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/meta.json', 'w').write(json.dumps(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), indent=1) + '\n')
    shutil.copy(V + '/tools/seedlib/lib.py', d + '/lib.py')
    open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    shutil.rmtree(w)
    print(s['id'])
