"""Files of older formats."""
import copy
import json
import os
import sys
import gen
import model
import nx
from nxt import cli, legacy
import common
from props.c04 import in_scope
from props.c11 import more, named, meaning, same, graph_view, raw, value

RULE = """Random trees of 1-4 layer files in the current format (instances, any values,
overrides, layout data) are written down to older formats, each file to one of its own:
before 1.0 (nested children, start nodes apart), before 1.10 (references as records with
mute, solo, alias and color), before 1.15 and before 1.17. The older files, loaded as they
are or after the converter ran, must say and compose what the current ones do. Newer, too
old and unusable versions are given to both. Distinct by version and shape of the files."""
ASSUMPTIONS = ["""What a format could not say is left out: before 1.0 the world's own data
    and nodes without their parents; a node its parent did not list in its order was
    dropped.""",
    """A file without a version is taken to be current, as the warning says."""]
COUNT = {'quick': 900, 'thorough': 25000}
MIN = {'older file says the same': 900, 'older files compose the same': 400,
       'converted file says the same': 900, 'reading leaves the file': 900,
       'before 1.0': 150, 'before 1.10': 300, 'before 1.15': 170, 'before 1.17': 170,
       'refused version': 1000, 'layer data kept': 2500, 'reference with a record': 150,
       'start node': 60, 'convert command': 250}


def nested(data):
    """The same layer before 1.0."""
    out = dict((k, data[k]) for k in ('alias', 'color', 'mute', 'solo', 'comment',
                                     'comp_overrides') if k in data)
    nodes = data['nodes']
    meta = copy.deepcopy(data.get('meta_data', {}))
    if [p for p in nodes if nodes[p].get('start_point')]:
        meta['start_nodes'] = [p for p in nodes if nodes[p].get('start_point')]
    out['data'] = meta

    def build(p):
        d = nodes[p]
        n = {'name': model.name_of(p), 'data': {}}
        kids = [q for q in nodes if q != '/' and model.parent_of(q) == p]
        n['execute_order'] = d.get('child_order', [])
        for k, old in (('attrs', 'attributes'), ('code', 'compute'),
                       ('instance', 'instance'), ('enabled', 'enabled')):
            if k in d:
                n['data'][old] = d[k]
        for k in ('comment', 'execute_in'):
            if k in d:
                n[k] = d[k]
        if kids:
            n['children'] = [build(q) for q in kids]
        return n
    out['children'] = [build(p) for p in nodes if p.count('/') == 1 and p != '/']
    return out


def older(rng, data, version):
    """`data` as `version` would have said it."""
    data = copy.deepcopy(data)
    if version < (1, 0):
        data = dict(nested(data), references=data.get('references', []))
    if version < (1, 10):
        meta = data.get('data' if version < (1, 0) else 'meta_data', {})
        for k, old in (('positions', 'position_data'), ('collapse', 'collapse_data')):
            if k in meta:
                meta[old] = meta.pop(k)
        refs = []
        over = data.get('comp_overrides', {})
        for r in data.get('references', []):
            rec = {'path': r}
            for k in ('mute', 'solo'):
                if k in over.get(r, {}):
                    rec[k] = over[r].pop(k)
            if r in over and not over[r]:
                del over[r]
            for k in ('alias', 'color'):
                plural = k + 'es' if k == 'alias' else k + 's'
                if r in meta.get(plural, {}):
                    rec[k] = meta[plural].pop(r)
                    if not meta[plural]:
                        del meta[plural]
            refs.append(rec)
        data.pop('references', None)
        if refs or rng.random() < .5:
            data['references'] = refs
        if 'comp_overrides' in data and not over:
            del data['comp_overrides']
        if not meta:
            data.pop('meta_data', None)
            if version < (1, 0):
                data['data'] = {}
    if version < (1, 15):
        for k in ('mute', 'solo'):
            data.setdefault(k, False)
        if rng.random() < .3:
            data.setdefault('references', [])
    data['version'] = '.'.join(map(str, version + ((rng.randrange(9),) if
                                                   rng.random() < .5 else ())))
    ks = list(data)
    rng.shuffle(ks)
    out = dict((k, data[k]) for k in ks)
    if 'nodes' in out and rng.random() < .5:
        ps = list(out['nodes'])
        rng.shuffle(ps)
        out['nodes'] = dict((p, out['nodes'][p]) for p in ps)
    return out


def old_shape(data):
    """Only what a file before 1.0 can say."""
    for k in ('comp_overrides', 'lock', 'cwd'):
        data.pop(k, None)
    data.get('meta_data', {}).pop('locks', None)
    nodes = data['nodes']
    nodes.pop('/', None)
    for p in list(nodes):
        q = model.parent_of(p)
        while q != '/':
            nodes.setdefault(q, {})
            q = model.parent_of(q)
    for p in nodes:
        kids = [model.name_of(q) for q in sorted(nodes) if model.parent_of(q) == p]
        order = [k for k in nodes[p].get('child_order', []) if k in kids]
        order += [k for k in kids if k not in order]
        nodes[p].pop('child_order', None)
        if order:
            nodes[p]['child_order'] = order
        for k in list(nodes[p]):
            if nodes[p][k] in (None, [], {}):
                del nodes[p][k]


def said(layer_data):
    out = meaning(json.loads(json.dumps(layer_data)))
    out['meta_data'].pop('start_nodes', None)
    return out


def command(c, args):
    argv = sys.argv
    sys.argv = ['nxt'] + args
    try:
        with common.quiet():
            cli.main()
    except SystemExit as e:
        c.check(not e.code, 'convert command', lambda: (args, e.code))
    finally:
        sys.argv = argv


def case(c):
    rng = c.rng
    n = rng.randint(1, 4)
    o = gen.Opts(layers=(n, n), instances=rng.choice([0, .25]), nodes=(0, 6),
                 values=value, attrs=(0, 3), world=.4)
    layers = gen.gen_layers(rng, o)
    new, old = c.scratch('new'), c.scratch('old')
    paths, parent = nx.write_tree(new, layers, rng)
    extra = more(rng, layers, parent)
    data, rel = [], [os.path.relpath(p, new) for p in paths]
    for i, p in enumerate(paths):
        f = nx.read(p)
        f['references'] = [os.path.relpath(os.path.join(os.path.dirname(p), r),
                                           os.path.dirname(p))
                           for r in f.get('references', [])]
        if not f['references']:
            del f['references']
        refs = dict((k, r) for k, par in parent.items()
                    for r in f.get('references', [])
                    if os.path.basename(r) == os.path.basename(paths[k]))
        mine = extra.get(i, {})
        kids = [k for k, par in parent.items() if par == i]
        for part in [mine.get('comp_overrides', {})] + [
                mine.get('meta_data', {}).get(k, {}) for k in
                ('aliases', 'colors', 'locks')]:
            for k in list(part):
                if k[1] not in kids:
                    del part[k]
        f.update(named(mine, refs))
        for k in ('comp_overrides',):
            if not f.get(k):
                f.pop(k, None)
        for k in list(f.get('meta_data', {})):
            if not f['meta_data'][k]:
                del f['meta_data'][k]
        data.append(f)
    versions = [rng.choice([(0, rng.randint(39, 45)), (1, rng.randint(0, 9)),
                            (1, rng.randint(0, 9)), (1, rng.randint(10, 14)),
                            (1, rng.randint(15, 16))]) for _ in data]
    if rng.random() < .3:
        versions = [versions[0]] * n
    down = []
    for i, f in enumerate(data):
        if versions[i] < (1, 0):
            old_shape(f)
            # overrides could only be about references: they are in their records
            over = {}
            for r in f.get('references', []):
                if rng.random() < .4:
                    over[r] = dict((k, rng.random() < .5) for k in
                                   rng.choice([['mute'], ['solo'], ['mute', 'solo']]))
            if over:
                f['comp_overrides'] = over
    in_scope([f['nodes'] for f in data])
    c.note = repr((versions, data))
    for i, f in enumerate(data):
        nx.dump(paths[i], f)
        down.append(nx.dump(os.path.join(old, rel[i]), older(rng, f, versions[i])))
        v = versions[i]
        c.event('before 1.0' if v < (1, 0) else 'before 1.10' if v < (1, 10) else
                'before 1.15' if v < (1, 15) else 'before 1.17')
        if v < (1, 10) and [r for r in nx.read(down[i]).get('references', [])
                            if len(r) > 1]:
            c.event('reference with a record')
        if v < (1, 0) and [p for p in f['nodes'] if f['nodes'][p].get('start_point')]:
            c.event('start node')
        c.sig(v, tuple(sorted(f)), tuple(sorted(f.get('meta_data', {}))),
              len(f['nodes']))
    bytes_ = [raw(p) for p in down]
    now, then = nx.load(paths[0]), nx.load(down[0])
    a, b = nx.layers_of(now), nx.layers_of(then)
    c.equal([os.path.relpath(x.real_path, old) for x in b],
            [os.path.relpath(x.real_path, new) for x in a], 'layers')
    order = [paths.index(x.real_path) for x in a]
    for x, y, i in zip(a, b, order):
        same(c, said(y.get_save_data()), said(x.get_save_data()),
             'older file says the same', (versions[i], down[i]))
    for stage, layers in ((now, a), (then, b)):
        act = nx.nxt_layer.get_active_layers(layers)
        in_scope([data[i]['nodes'] for x, i in zip(layers, order) if x in act])
    va, vb = graph_view(now), graph_view(then)
    c.check(va == vb, 'older files compose the same', lambda: nx.diff_views(va, vb))
    c.equal([raw(p) for p in down], bytes_, 'reading leaves the file')
    # the converter
    for i, p in enumerate(down):
        replace = rng.random() < .3
        if rng.random() < .3:
            command(c, ['convert', p] + ([rng.choice(['-r', '--replace'])] if replace
                                         else []))
        else:
            legacy.cli_file_convert(p, replace)
        made = p if replace else p[:-4] + '_CONVERTED.nxt'
        if not replace:
            c.equal(raw(p), bytes_[i], 'reading leaves the file')
        got = nx.nxt_layer.SpecLayer.load_from_filepath(made)
        want = nx.nxt_layer.SpecLayer.load_from_filepath(paths[i])
        got = said(got.get_save_data())
        want = said(want.get_save_data())
        if 'alias' not in data[i]:
            got.pop('alias', None)
            want.pop('alias', None)
        same(c, got, want, 'converted file says the same', (versions[i], p))
        text = raw(made)
        legacy.cli_file_convert(made, True)
        c.equal(raw(made), text, 'converting again changes nothing')
    # versions nxt can not read
    v = rng.choice(['1.18', '1.18.2', '1.%d' % rng.randint(18, 200), '2.0', '2.3.1',
                    '3.17', '0.38.9', '0.1.0', '0.0.1', '10.0'])
    bad = nx.dump(os.path.join(old, 'bad.nxt'), dict(rng.choice(data), version=v))
    text = raw(bad)
    for f in (nx.load, nx.nxt_layer.SpecLayer.load_from_filepath,
              lambda p: legacy.cli_file_convert(p, rng.random() < .5)):
        try:
            f(bad)
        except IOError:
            c.event('refused version')
        else:
            c.fail('version %s was read' % v)
    c.equal(raw(bad), text, 'refused file is left alone', v)
    c.check(not os.path.exists(bad[:-4] + '_CONVERTED.nxt'), 'nothing is written', v)
    c.sample({'files': data})
