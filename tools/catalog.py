#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run after editing the entries."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'runtime monitoring: '
ENTRIES = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, observe, technique, note,
      state=()):
    ENTRIES.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=w) for a, b, w in state],
                     mechanism=[dict(name=a, where=w) for a, w in mech],
                     observe_at=observe, hook_needed=None),
        technique=TECH + technique, note=' '.join(note.split())))


exec(open(os.path.join(HERE, 'tools', 'entries.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for e in ENTRIES:
        f.write(json.dumps(dict((k, e[k]) for k in (
            'id', 'title', 'statement', 'quantifier', 'why_tests_cant',
            'anchors'))) + '\n')
        assert len(e['title']) <= 80, e['title']
        assert os.path.exists(os.path.join(
            HERE, 'harness', 'props', e['id'].lower() + '.py')), e['id']
man = dict(
    version=1, setup_cmd='bash run.sh setup',
    checks=[dict(property=e['id'], quick_cmd='bash run.sh %s quick' % e['id'],
                 thorough_cmd='bash run.sh %s thorough' % e['id'],
                 technique=e['technique'], level='exploration',
                 level_note=e['note']) for e in ENTRIES],
    not_applicable=NOT_APPLICABLE,
    notes='No hooks in /repo: everything is observed through the public API, the '
          'files nxt writes and stand-ins installed from outside. Replay files are '
          'written to /verif/replay: bash run.sh ID replay FILE.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
