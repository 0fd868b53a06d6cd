"""mk(id, property, [(file, old, new)...], demo, needs, breaks): write a planted bug."""
import json
import os
import shutil
import subprocess
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import json
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.getcwd())
import logging
logging.disable(logging.CRITICAL)
from nxt import nxt_layer, nxt_io, nxt_path, nxt_node, stage, tokens
from nxt.stage import Stage
R = nxt_layer.SpecLayer.RETURNS
IA = nxt_node.INTERNAL_ATTRS
D = tempfile.mkdtemp()


def graph(nodes, name='g.nxt', **more):
    data = {'version': '1.17', 'alias': 'g', 'nodes': nodes}
    data.update(more)
    p = os.path.join(D, name)
    with open(p, 'w') as f:
        json.dump(data, f)
    return p


def attrs(**kw):
    return {'attributes': dict((k, {'value': v}) for k, v in kw.items())}


def main():
%s

try:
    main()
finally:
    shutil.rmtree(D)
'''


def mk(bug, prop, edits, demo, needs, breaks):
    d = os.path.join(HERE, 'seeded', bug)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='mk_')
    try:
        repo = os.path.join(tmp, 'r')
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1, (bug, f, s.count(old))
            with open(p, 'w') as fh:
                fh.write(s.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=repo)
        with open(os.path.join(d, 'patch.diff'), 'wb') as f:
            f.write(diff)
    finally:
        shutil.rmtree(tmp)
    body = '\n'.join(('    ' + l) if l else '' for l in demo.strip('\n').split('\n'))
    with open(os.path.join(d, 'demo.py'), 'w') as f:
        f.write(PRE % body)
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\n# cwd: the nxt repository\n'
                'exec /opt/venv/bin/python -W ignore '
                '"$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    with open(os.path.join(d, 'meta.json'), 'w') as f:
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), f, indent=1)
        f.write('\n')
