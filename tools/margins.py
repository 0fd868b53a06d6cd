"""How far above its floors each check's monitors are: margins.py ID..."""
import importlib
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
for pid in sys.argv[1:]:
    src = open(os.path.join(HERE, 'harness/props/%s.py' % pid.lower())).read()
    i = src.index('\nMIN = ')
    mn = eval(src[i + 7:src.index('}', i) + 1])
    for seed in ('1', '2', '3'):
        r = subprocess.run(['bash', 'run.sh', pid, 'quick'], cwd=HERE,
                           env=dict(os.environ, VERIF_SEED=seed),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ev = json.load(open(os.path.join(HERE, 'evidence/%s.json' % pid)))
        txt = json.dumps(ev)
        low = []
        evs = {}

        def find(x):
            if isinstance(x, dict):
                for k, v in x.items():
                    if k in mn and isinstance(v, int):
                        evs[k] = v
                    find(v)
            elif isinstance(x, list):
                for v in x:
                    find(v)
        find(ev)
        print(pid, seed, 'rc', r.returncode,
              sorted((round(evs.get(k, 0) / float(m), 2), k) for k, m in mn.items())[:3])
