#!/usr/bin/env python3
"""Runs the check of each planted change's property (or all: -a) against it: runseeds.py [-a] [-t] [id...]"""
import json, os, subprocess, sys
args = sys.argv[1:]
every = '-a' in args
tier = 'thorough' if '-t' in args else 'quick'
ids = [a for a in args if a[0] != '-'] or sorted(os.listdir('/verif/seeded'))
if subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain']).strip():
    sys.exit('/repo is not clean')
res = {}
for i in ids:
    d = '/verif/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    props = ['C%02d' % k for k in range(1, 20)] if every else [prop]
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    try:
        got = []
        for p in props:
            r = subprocess.run(['python3', '/verif/check.py', p, tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode(errors='replace')
            if r.returncode == 1 and 'VIOLATION property=' + p in out:
                got.append(p)
            elif r.returncode:
                got.append(p + '!')
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    print('%-28s %s %s' % (i, prop, 'caught by ' + ' '.join(got) if prop in got else 'MISSED (%s)' % ' '.join(got)), flush=True)
