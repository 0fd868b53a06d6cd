"""What layers say about themselves and about the layers below them."""
import json
import nx
import common

RULE = """Random trees of 1-6 layer files with own alias, color, lock, mute and solo and
overrides of each for any layer below, node positions and collapsed states; then up to 12
changes of own values and overrides through the layers' calls, saving and reloading in
between. Every getter is compared after every step. Non-trivial when an override differs
from the layer's own value or a weaker override; distinct by who says what."""
ASSUMPTIONS = ["""Overrides are by file path as the reference is written; trees in which two
    references are written the same are skipped."""]
COUNT = {'quick': 1500, 'thorough': 40000}
MIN = {'override beats own value': 2500, 'higher override beats lower': 600,
       'cleared override falls back': 90, 'own values': 20000, 'kept by saving': 1000,
       'top layer takes no override': 300, 'found by alias': 4000,
       'positions of the strongest layer': 1000}

VALUES = {'alias': ['one', 'two', u'\u00e4', 'x.y'],
          'color': ['#001122', '#abcdef', '#ffffff'], 'lock': [True, False],
          'mute': [True, False], 'solo': [True, False]}
OVER = {'alias': 'aliases', 'color': 'colors', 'lock': 'locks'}
EMPTY = {'alias': None, 'color': None, 'lock': False, 'mute': False, 'solo': False}


class L(object):
    def __init__(self, path):
        self.path, self.own, self.over, self.up, self.key = path, {}, {}, None, None
        self.pos, self.col = {}, {}

    def above(self):
        out, l = [], self.up
        while l is not None:
            out.append(l)
            l = l.up
        return out

    def get(self, what):
        """(value, how many layers above say something)"""
        said = [u.over[(self.key, what)] for u in self.above()
                if (self.key, what) in u.over]
        return (said[-1] if said else self.own.get(what, EMPTY[what])), said


def check(c, stage, model, msg):
    got = nx.layers_of(stage)
    for l, m in zip(got, model):
        info = (msg, m.path)
        read = {'alias': l.get_alias, 'color': lambda local=False, **k:
                l.get_color(local=local, **k), 'lock': l.get_locked,
                'mute': l.get_muted, 'solo': l.get_soloed}
        for what, f in read.items():
            own = m.own.get(what, EMPTY[what])
            want, said = m.get(what)
            c.equal(f(local=True), own, 'own values', (what, info))
            c.equal(f(local=False), want, 'effective values', (what, info))
            if said and want != own:
                c.event('override beats own value')
            if len(said) > 1 and said[-1] != said[0]:
                c.event('higher override beats lower')
            if what in ('alias', 'color'):
                c.equal(f(local=False, fallback_to_local=False),
                        said[-1] if said else None, 'overrides alone', (what, info))
        c.equal(l.get_color(), m.own.get('color'), 'own values', info)
        named = [k for k, o in zip(got, model) if o.get('alias')[0] == m.get('alias')[0]]
        c.check(stage.get_layer(m.get('alias')[0]) is named[0], 'found by alias', info)
    active = [m for m in model if m.get('solo')[0]] or model
    active = [m.path for m in active if not m.get('mute')[0]]
    c.equal([l.real_path for l in nx.nxt_layer.get_active_layers(got)], active,
            'active layers', msg)
    comp = stage.build_stage()
    pos, col = {}, {}
    for m in reversed(model):
        pos.update(m.pos)
        col.update(m.col)
    c.equal(comp.positions, pos, 'positions of the strongest layer', msg)
    c.equal(comp.collapse, col, 'collapsed state of the strongest layer', msg)
    c.equal([(l.positions, l.collapse) for l in got], [(m.pos, m.col) for m in model],
            'composing leaves the layout of layers', msg)
    comp.positions['/x'] = [9, 9]
    comp.collapse['/x'] = True


def load(c, path, model):
    stage = nx.load(path)
    c.equal([l.real_path for l in nx.layers_of(stage)], [m.path for m in model],
            'layer order')
    for l, m in zip(nx.layers_of(stage), model):
        m.own.setdefault('alias', l.get_alias(local=True))
    return stage


def case(c):
    rng = c.rng
    n = rng.choice([1, 2, 3, 3, 4, 5, 6])
    d = c.scratch()
    nodes = [{} for _ in range(n)]
    names = ['/a', '/a/b', '/c']
    for nd in nodes:
        for p in names:
            if rng.random() < .5:
                nd[p] = {}
    paths, parent = nx.write_tree(d, nodes, rng)
    model = [L(p) for p in paths]
    for k, p in parent.items():
        model[k].up = model[p]
        for r in nx.read(paths[p])['references']:
            if r.endswith('l%d.nxt' % k):
                model[k].key = r
    keys = [m.key for m in model[1:]]
    if len(set(keys)) < len(keys):
        raise common.Skip('two references written the same way')
    dens = rng.choice([0, .2, .5])
    for i, m in enumerate(model):
        f = nx.read(paths[i])
        f.pop('alias')
        meta = {}
        for what, vals in VALUES.items():
            if rng.random() < .4:
                m.own[what] = f[what] = rng.choice(vals)
            for b in model:
                if m in b.above() and rng.random() < dens:
                    v = m.over[(b.key, what)] = rng.choice(vals)
                    if what in OVER:
                        meta.setdefault(OVER[what], {})[b.key] = v
                    else:
                        f.setdefault('comp_overrides', {}).setdefault(
                            b.key, {})[what] = v
        for p in names:
            if rng.random() < .3:
                m.pos[p] = [rng.randint(-5, 5), rng.random()]
            if rng.random() < .3:
                m.col[p] = rng.random() < .5
        if m.pos:
            meta['positions'] = m.pos
        if m.col:
            meta['collapse'] = m.col
        if meta:
            f['meta_data'] = json.loads(json.dumps(meta))
        nx.dump(paths[i], f)
    c.note = repr([nx.read(p) for p in paths])
    stage = load(c, paths[0], model)
    check(c, stage, model, 'loaded')
    steps = []
    for _ in range(rng.randint(0, 12)):
        i = rng.randrange(n)
        m, l = model[i], nx.layers_of(stage)[i]
        what = rng.choice(sorted(VALUES))
        v = rng.choice(VALUES[what])
        k = rng.random()
        if k < .2:
            if what == 'color':
                l.color = v
            else:
                getattr(l, {'alias': 'set_alias', 'lock': 'set_locked', 'mute':
                            'set_muted', 'solo': 'set_soloed'}[what])(v)
            m.own[what] = v
            steps.append(('own', i, what, v))
        elif k < .85 and what in OVER:
            name = {'alias': 'set_alias_over', 'color': 'set_color_over',
                    'lock': 'set_locked_over'}[what]
            clear = rng.random() < .35
            getattr(l, name)(None if clear else v)
            if i == 0:
                c.event('top layer takes no override')
            elif not clear:
                m.above()[-1].over[(m.key, what)] = v
            elif m.above()[-1].over.pop((m.key, what), None) is not None:
                c.event('cleared override falls back')
            steps.append(('over', i, what, None if clear else v))
        elif k < .85:
            below = [b for b in model if m in b.above()]
            if not below:
                continue
            b = rng.choice(below)
            (l.set_mute_over if what == 'mute' else l.set_solo_over)(b.key, v)
            m.over[(b.key, what)] = v
            steps.append(('over', i, model.index(b), what, v))
        else:
            for l in nx.layers_of(stage):
                l.save()
            stage = load(c, paths[0], model)
            c.event('kept by saving')
            steps.append('reload')
        check(c, stage, model, steps)
    if any(m.over for m in model):
        c.sig(tuple((model.index(m.up) if m.up else -1, tuple(sorted(m.own.items())),
                     tuple(sorted(m.over.items()))) for m in model))
    c.sample({'files': [nx.read(p) for p in paths], 'steps': steps})
