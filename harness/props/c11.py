"""Saving and loading."""
import copy
import json
import os
import model
import gen
import nx
import edits
import common
from props.c04 import in_scope
from props.c02 import odd

RULE = """Random trees of 1-4 layer files (instances, any JSON values, unicode, empty and
value-less attributes, every kind of layer and layout data, mute/solo flags and
overrides), loaded, saved in place and under new names, saved as a temporary copy, and
loaded again. File contents, authored data and compositions are compared. Refused saves
(unknown file ending, data that is not JSON) are injected. Non-trivial when a layer holds
layer or layout data besides nodes; distinct by the shape of the files."""
ASSUMPTIONS = ["""A temporary copy puts all layers into one folder, so their file names
    differ here.""",
    """Interrupted writes are not injected: saving overwrites in place."""]
COUNT = {'quick': 700, 'thorough': 20000}
MIN = {'saving keeps what the file said': 900, 'saved file holds the layer': 900,
       'loads back the same': 900, 'saved again is byte for byte the same': 900,
       'composes the same after reload': 400, 'temporary copy composes the same': 250,
       'originals left alone': 250, 'refused save leaves the file': 400,
       'saved under a new name': 150, 'layer data kept': 1500,
       'temporary copy knows its folder': 300}

TEXT = [u'\u00e9t\u00e9', u'\u65e5\u672c', 'tab\there', 'line\nbreak', '"q"', "it's",
        'back\\slash', '${tok}', u'\U0001f600', ' lead', '', '#', '0']


def value(rng):
    k = rng.random()
    if k < .3:
        return rng.choice(TEXT)
    if k < .4:
        return {'a': [1, {'b': None}], u'\u00e9': [[], {}, 0.1, -1e30, 10 ** 20]}
    return odd(rng)


def more(rng, layers, parent):
    """Everything else a layer file can say."""
    out = gen.extras(rng, layers)
    for i in range(len(layers)):
        e = out.setdefault(i, {})
        if rng.random() < .3:
            e['mute'] = rng.random() < .4
        if rng.random() < .2:
            e['solo'] = rng.random() < .5
        if rng.random() < .5:
            e['alias'] = rng.choice(['al', u'\u00e4', 'my layer', 'x.y', 'untitled_x', 'untitled7'])
        kids = [k for k in range(len(layers)) if below(parent, k, i)]
        meta = e.setdefault('meta_data', {})
        for key, vals in (('aliases', ['one', 'two']), ('colors', ['#001122']),
                          ('locks', [True, False])):
            if kids and rng.random() < .3:
                meta[key] = dict((('ref', k), rng.choice(vals)) for k in
                                 rng.sample(kids, rng.randint(1, len(kids))))
        if kids and rng.random() < .5:
            e['comp_overrides'] = dict(
                (('ref', k), dict((f, rng.random() < .5) for f in
                                  rng.choice([['mute'], ['solo'], ['mute', 'solo']])))
                for k in rng.sample(kids, rng.randint(1, len(kids))))
        if not meta:
            del e['meta_data']
    return out


def below(parent, k, i):
    while k in parent:
        k = parent[k]
        if k == i:
            return True
    return False


def named(d, refs):
    """('ref', k) keys spelled as the file spells the reference."""
    if not isinstance(d, dict):
        return d
    return dict((refs[k[1]] if isinstance(k, tuple) else k, named(v, refs))
                for k, v in d.items())


def meaning(data):
    """What a layer file says, as far as it says something."""
    out = {}
    nodes = edits.norm_layer(data.get('nodes', {}))
    out['nodes'] = {}
    for p, d in nodes.items():
        n = edits.norm_node(d, p)
        for a, ad in d['attrs'].items():
            if ad.get('type'):
                n['attrs'][a]['type'] = ad['type']
        out['nodes'][p] = n
    for k in ('alias', 'color', 'references', 'comp_overrides', 'version', 'cwd'):
        if data.get(k) not in (None, [], {}):
            out[k] = data[k]
    for k in ('mute', 'solo', 'lock'):
        out[k] = bool(data.get(k))
    out['meta_data'] = dict((k, v) for k, v in data.get('meta_data', {}).items()
                            if v != {})
    return out


def same(c, got, want, event, msg):
    for k in sorted(set(got) | set(want)):
        if k == 'nodes':
            c.check(common.typed(got[k]) == common.typed(want[k]), event,
                    lambda: (msg, nx.diff_views(got[k], want[k])))
        else:
            c.equal(common.typed(got.get(k)), common.typed(want.get(k)), event,
                    (k, msg))
            if want.get(k):
                c.event('layer data kept')


def graph_view(stage, idx=0):
    v = nx.view(stage, stage.build_stage(idx), sources=False)
    v.get('/', {}).pop('child_order', None)     # not part of a file
    return v


def raw(path):
    with open(path, 'rb') as f:
        return f.read()


def refused(c, stage, d):
    """A save that is not done changes nothing."""
    rng = c.rng
    lay = rng.choice(nx.layers_of(stage))
    before, real = raw(lay.real_path), lay.real_path
    if rng.random() < .5:
        bad = os.path.join(d, 'bad.' + rng.choice(['txt', 'json', 'nx', 'nxtt']))
        target = rng.choice([bad, os.path.join(d, 'noext')])
        try:
            lay.save(filepath=target)
        except Exception:
            pass
        else:
            c.fail('saved as %s' % target)
        c.check(not os.path.exists(target), 'refused save leaves the file', target)
    else:
        where = rng.choice([lay.positions, lay.collapse, lay.aliases])
        where['/odd'] = rng.choice([object(), {1, 2}, b'x'])
        try:
            res = lay.save()
        except Exception:
            res = None
        c.equal(res, None, 'refused save is reported')
        del where['/odd']
    c.equal(raw(lay.real_path), before, 'refused save leaves the file')
    c.equal(lay.real_path, real, 'refused save leaves the layer')


def spoil(x):
    for v in (list(x.values()) if isinstance(x, dict) else list(x)):
        if isinstance(v, (dict, list)):
            spoil(v)
    if isinstance(x, dict):
        x['spoilt'] = 'spoilt'
    else:
        x.append('spoilt')


def case(c):
    rng = c.rng
    n = rng.randint(1, 4)
    o = gen.Opts(layers=(n, n), instances=rng.choice([0, .25]), nodes=(0, 6),
                 clear_inst=rng.choice([0, .3]),
                 values=value, attrs=(0, 3), world=.4)
    layers = gen.gen_layers(rng, o)
    for nodes in layers:
        for p in nodes:
            if rng.random() < .3:
                nodes[p]['code'] = rng.sample(TEXT, 3) + ['']
            if rng.random() < .2:
                nodes[p]['comment'] = rng.choice(TEXT)
            if p != '/' and rng.random() < .2:
                # opinions that say no
                k, v = rng.choice([('execute_in', ''), ('start_point', False),
                                   ('enabled', False), ('comment', '')])
                nodes[p].setdefault(k, v)
            for a, ad in nodes[p].get('attrs', {}).items():
                if rng.random() < .1:
                    del ad['value']
    in_scope(layers)
    d = c.scratch()
    paths, parent = nx.write_tree(d, layers, rng)
    refs = {}
    for k, par in parent.items():
        for r in nx.read(paths[par])['references']:
            if os.path.basename(r) == os.path.basename(paths[k]):
                refs[k] = r
    extra = more(rng, layers, parent)
    for i, p in enumerate(paths):
        f = nx.read(p)
        f.update(named(extra.get(i, {}), refs))
        if rng.random() < .2:
            f.pop('alias', None)
        nx.dump(p, f)
    c.note = repr((layers, extra))
    files = [nx.read(p) for p in paths]
    stage = nx.load(paths[0])
    lays = nx.layers_of(stage)
    active = nx.nxt_layer.get_active_layers(lays)
    for k in range(n):
        in_scope([layers[paths.index(l.real_path)] for l in lays[k:] if l in active])
    first = graph_view(stage)
    c.equal([l.real_path for l in lays], paths, 'layer order')
    if any(len(f) > 3 for f in files):
        c.sig(tuple((tuple(sorted(f)), tuple(sorted(f.get('meta_data', {}))),
                     len(f['nodes'])) for f in files))
    todo = list(range(n))
    rng.shuffle(todo)
    for i in todo:
        lay, what = lays[i], paths[i]
        want = meaning(dict(files[i], version=nx.VERSION))
        want.setdefault('alias', os.path.basename(lay.filepath))
        same(c, meaning(json.loads(json.dumps(lay.get_save_data()))), want,
             'saving keeps what the file said', what)
        if rng.random() < .3:
            # what is handed out to be saved is the caller's to change
            spoil(lay.get_save_data().get('nodes', {}))
            same(c, meaning(json.loads(json.dumps(lay.get_save_data()))), want,
                 'save data is a copy', what)
        res = lay.save()
        saved = nx.read(paths[i])
        c.equal(json.loads(json.dumps(res)), saved, 'saved file holds the layer', what)
        same(c, meaning(saved), want, 'saving keeps what the file said', what)
        again = nx.nxt_layer.SpecLayer.load_from_filepath(paths[i])
        c.equal(common.typed(json.loads(json.dumps(again.get_save_data()))),
                common.typed(saved), 'loads back the same', what)
        b = raw(paths[i])
        again.save()
        c.equal(raw(paths[i]), b, 'saved again is byte for byte the same', what)
    stage2 = nx.load(paths[0])
    second = graph_view(stage2)
    c.check(second == first, 'composes the same after reload',
            lambda: (nx.diff_views(first, second), files))
    c.check(graph_view(stage) == first, 'saving leaves the composition')
    if rng.random() < .6:
        refused(c, stage, d)
        c.check(graph_view(stage) == first, 'saving leaves the composition')
    if rng.random() < .6:
        temp(c, stage, paths, parent)
    if rng.random() < .4:
        # under a new name
        i = rng.randrange(n)
        new = os.path.join(os.path.dirname(paths[i]), 'new_%d.nxt' % i)
        b = raw(paths[i])
        lays[i].save(filepath=new)
        c.event('saved under a new name')
        c.equal(raw(paths[i]), b, 'originals left alone', paths[i])
        c.equal(raw(new), b, 'new file holds the layer')
        c.equal(lays[i].real_path, new, 'layer knows its file')
        c.check(graph_view(stage) == first, 'saving leaves the composition')
        comp = stage.build_stage()
        for p, node in comp.descendants(return_type=nx.R.NodeTable):
            for a in stage.get_node_attr_names(node):
                src = stage.get_node_attr_source(node, a)
                c.check(src[0] in [l.real_path for l in lays],
                        'attribute sources name a layer', (p, a, src))
        for p in nx.all_paths(lays[i]):
            c.check(stage.get_node_source_layer(lays[i].lookup(p)) is lays[i],
                    'node knows its layer', p)
    c.sample({'files': files})


def temp(c, stage, paths, parent):
    rng = c.rng
    before = [raw(p) for p in paths]
    data = nx.authored(stage)
    idx = rng.choice([0, 0, rng.randrange(len(paths))])
    want = graph_view(stage, idx)
    comp = stage.build_stage(idx)
    out = c.scratch('temp')
    top = stage.save_to_temp(comp, out)
    c.equal([raw(p) for p in paths], before, 'originals left alone')
    c.equal(nx.authored(stage), data, 'temporary copy leaves the layers')
    c.equal(os.path.dirname(top), out, 'temporary copy is where asked')
    kept = [i for i in range(len(paths)) if i == idx or below(parent, i, idx)]
    if idx and kept != list(range(idx, len(paths))):
        return          # layers after the given one that it does not reference
    copy_ = nx.load(top)
    got = nx.layers_of(copy_)
    c.equal([os.path.basename(l.real_path) for l in got],
            [os.path.basename(paths[i]) for i in kept], 'temporary copy is complete')
    c.check(all(os.path.dirname(l.real_path) == out for l in got),
            'temporary copy stands alone')
    for l, i in zip(got, kept):
        c.equal(l.get_cwd(), os.path.dirname(paths[i]),
                'temporary copy knows its folder')
    if idx:
        return          # flags given by the layers above it are not in the copy
    have = graph_view(copy_)
    c.check(have == want, 'temporary copy composes the same',
            lambda: (nx.diff_views(want, have), [nx.read(p) for p in paths]))
