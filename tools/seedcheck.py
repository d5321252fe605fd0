#!/usr/bin/env python3
"""seedcheck.py ID... : runs each planted bug's property check on a scratch copy with the patch (authoring helper)"""
import sys, subprocess, shutil, os, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = tempfile.mkdtemp(prefix='sc')
    subprocess.check_call('git -C /repo archive HEAD | tar x -C ' + d, shell=True)
    r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + d, V + '/seeded/' + i + '/patch.diff'], cwd='/')
    p = json.load(open(V + '/seeded/' + i + '/meta.json'))['property']
    for pid in [p]:
        r = subprocess.run(['python3', V + '/check.py', pid], env=dict(os.environ, CRAB_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        l = r.stdout.strip().splitlines()
        print(i, pid, 'rc', r.returncode, '|'.join(x[:140] for x in l if 'VIOL' not in x)[:300], flush=True)
    shutil.rmtree(d)
