"""lines a seeded bug removes or changes which are not in the base commit of /repo"""
import subprocess, sys, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in sorted(glob.glob(here + '/seeded/*/patch.diff')):
    f = None
    bad = []
    rm = 0
    for l in open(p):
        l = l.rstrip('\n')
        if l.startswith('--- a/'):
            f = l[6:]
            base = subprocess.run(['git', '-C', '/repo', 'show', '0e9ac89:' + f], capture_output=True, text=True).stdout.split('\n')
        elif l.startswith('-') and not l.startswith('---'):
            rm += 1
            if l[1:] not in base:
                bad.append(l)
    print(os.path.basename(os.path.dirname(p)), 'removed', rm, 'not in base:', bad)
