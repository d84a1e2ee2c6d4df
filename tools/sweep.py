"""apply each mutation of sweep_muts.py to a scratch copy of /repo and run the quick check of its property on it
usage: sweep.py [names or properties]"""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(V, 'tools', 'sweep_muts.py')).read(), ns)
only = sys.argv[1:]
top = tempfile.mkdtemp(prefix='sweep')
for prop, name, path, old, new in ns['M']:
    if only and name not in only and prop not in only:
        continue
    w = os.path.join(top, name)
    os.makedirs(w)
    try:
        subprocess.check_call('git -C /repo archive HEAD | tar x -C %s' % w, shell=True)
        text = open(os.path.join(w, path)).read()
        if text.count(old) != 1:
            print(prop, name, 'does not apply', text.count(old), flush=True)
            continue
        open(os.path.join(w, path), 'w').write(text.replace(old, new))
        r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', os.path.join(V, 'mc', 'run.py'), prop, '--quick'], capture_output=True, text=True,
                           env=dict(os.environ, MC_REPO=w, MC_EVIDENCE=os.path.join(top, 'ev')), timeout=1800)
        what = [l for l in r.stdout.splitlines() if l.startswith('what')] or r.stdout.splitlines()[-1:] or [r.stderr[-200:]]
        print(prop, name, 'rc=%d' % r.returncode, what[0][:200], flush=True)
    finally:
        shutil.rmtree(w)
shutil.rmtree(top)
