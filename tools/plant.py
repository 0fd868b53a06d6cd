#!/usr/bin/env python3
"""plant.py ID...: is each planted bug valid, and is it caught?

In a scratch copy of /repo: demo passes before, fails after; the stable tests pass
after; then the property's quick check (NXT_VERIF_REPO=copy) is run. --all: also run
every other check, to see which catch it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode('utf-8', 'replace')


args = [a for a in sys.argv[1:] if not a.startswith('--')]
seeds = os.environ.get('SEEDS', '1').split()
for bug in args:
    d = os.path.join(HERE, 'seeded', bug)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='plant_')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        dd = os.path.join(tmp, 'demo')
        shutil.copytree(d, dd, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        out = []
        rc, o = sh('bash %s/demo.sh' % dd, repo)
        out.append('demo clean rc=%d' % rc)
        if rc:
            print(o[-1500:])
        rc, o = sh('git apply %s/patch.diff' % d, repo)
        if rc:
            print(bug, 'PATCH DOES NOT APPLY', o)
            continue
        rc, o = sh('bash %s/demo.sh' % dd, repo)
        out.append('patched rc=%d' % rc)
        if not rc or '-v' in sys.argv:
            print(o[-1500:])
        if '--notest' not in sys.argv:
            rc, o = sh('/opt/venv/bin/python -W ignore -m unittest discover -s nxt/test '
                       '-t . -p "test*.py" 2>&1 | tail -40', repo)
            out.append('tests: ' + o.strip().split('\n')[-1])
            bad = [l for l in o.split('\n') if l.startswith(('FAIL:', 'ERROR:'))]
            out.append(str(bad))
        ids = [meta['property']]
        if '--all' in sys.argv:
            ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
        for pid in ids:
            for s in seeds:
                rc, o = sh('bash run.sh %s quick' % pid, HERE,
                           {'NXT_VERIF_REPO': repo, 'VERIF_SEED': s,
                            'VERIF_TIER': 'quick'})
                v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
                w = [l for l in o.split('\n') if l.startswith('  ') or 'INCONC' in l]
                out.append('\n   %s seed %s rc=%d %s %s' % (pid, s, rc, len(v),
                           (w or [''])[0][:200] if rc else 'MISSED'))
        print(bug, '; '.join(out), flush=True)
    finally:
        shutil.rmtree(tmp)
