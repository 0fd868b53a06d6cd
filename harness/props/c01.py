"""Layer strength, mute and solo."""
import model
import gen
import nx
import common

RULE = """Random stacks of 2-5 layer files over shared node names (nested reference
trees, mute/solo stored in the layer, overridden by ancestors, or set live); a case
is non-trivial when two or more active layers hold an opinion on one node; distinct by
(active mask, opinion pattern)."""
ASSUMPTIONS = ["Graphs have no instances here (C03 covers them)."]
COUNT = {'quick': 2000, 'thorough': 60000}
MIN = {'winner among several layers': 1000, 'node with inactive opinions': 1000,
       'node exists only in inactive layers': 200, 'all layers inactive': 10,
       'layers disagree on the layout': 500}


def case(c):
    rng = c.rng
    o = gen.Opts(layers=(2, 5), instances=0, nodes=(1, 6), depth=3,
                 stray=rng.choice([0, 0, .3]), child_order=.2)
    layers = gen.gen_layers(rng, o)
    n = len(layers)
    extra = {}
    local = [{'mute': False, 'solo': False} for _ in range(n)]
    # flags stored in the file
    p_mute, p_solo = rng.choice([(.3, 0), (0, .3), (.3, .3), (.15, .15)])
    stored = rng.random() < .5
    for i in range(n):
        if stored:
            local[i]['mute'] = rng.random() < p_mute
            local[i]['solo'] = rng.random() < p_solo
            extra[i] = dict((k, v) for k, v in local[i].items()
                            if v or rng.random() < .3)
        if rng.random() < .5:
            extra.setdefault(i, {})['meta_data'] = {
                'positions': dict((p, [float(i), rng.random()]) for p in layers[i]
                                  if rng.random() < .5),
                'collapse': dict((p, rng.random() < .5) for p in layers[i]
                                 if rng.random() < .5)}
    d = c.scratch()
    paths, parent = nx.write_tree(d, layers, rng, extra)
    with c.no_raise('loading'):
        stage = nx.load(paths[0])
    got = nx.layers_of(stage)
    c.equal([l.real_path for l in got], paths, 'layer order')
    if not stored:
        for i, l in enumerate(got):
            if rng.random() < p_mute:
                l.set_muted(True)
                local[i]['mute'] = True
            if rng.random() < p_solo:
                l.set_soloed(True)
                local[i]['solo'] = True
    # an ancestor's override beats the layer's own flag, and a higher ancestor's
    # beats a lower one's
    over = {}

    if rng.random() < .5:
        for i in range(1, n):
            chain = []
            k = i
            while k in parent:
                k = parent[k]
                chain.append(k)
            # one ancestor says something, then maybe a higher one says both
            at = rng.randrange(len(chain))
            for flag, setter in (('mute', 'set_mute_over'),
                                 ('solo', 'set_solo_over')):
                if rng.random() < .5:
                    v = rng.random() < .5
                    getattr(got[chain[at]], setter)(got[i].filepath, v)
                    over[(i, flag)] = v
            if at + 1 < len(chain) and rng.random() < .5:
                b = rng.choice(chain[at + 1:])
                for flag, setter in (('mute', 'set_mute_over'),
                                     ('solo', 'set_solo_over')):
                    v = rng.random() < .5
                    getattr(got[b], setter)(got[i].filepath, v)
                    over[(i, flag)] = v

    fps = [l.filepath for l in got]
    if over and len(set(fps)) < len(fps):
        # overrides are by file path as written
        raise common.Skip('two references written the same way')

    def flag(i, f):
        return over[(i, f)] if (i, f) in over else local[i][f]

    for i, l in enumerate(got):
        c.equal(bool(l.get_muted()), flag(i, 'mute'), 'effective mute',
                lambda: (i, local, over, parent))
        c.equal(bool(l.get_soloed()), flag(i, 'solo'), 'effective solo',
                lambda: (i, local, over, parent))
        c.equal(bool(l.get_muted(local=True)), local[i]['mute'], 'own mute')
    soloed = [i for i in range(n) if flag(i, 'solo')]
    active = [i for i in (soloed or range(n)) if not flag(i, 'mute')]
    with c.no_raise('composing'):
        comp = stage.build_stage()
    c.check(not comp.failure, 'composed', lambda: comp.failure)
    m = model.Comp([layers[i] for i in active])
    # where nodes are in the view: the strongest layer that says so, active or not
    if active:
        for key in ('positions', 'collapse'):
            want = {}
            for l in reversed(got):
                want.update(getattr(l, key))
            c.equal(dict(getattr(comp, key)), want, 'strongest layout',
                    lambda: (key, active, extra))
            if len(set(repr(getattr(l, key).get(p)) for l in got for p in want
                       if p in getattr(l, key))) > 1:
                c.event('layers disagree on the layout')
    have = set(nx.all_paths(comp))
    c.equal(have, m.all_paths(), 'node set', lambda: (active, layers))
    if not active:
        c.event('all layers inactive')
    every = set(p for l in layers for p in l)
    for p in every:
        specs = m.specs.get(p, [])
        inactive = [i for i in range(n) if i not in active and p in layers[i]]
        if not specs:
            c.check(p == '/' or comp.lookup(p) is None,
                    'node exists only in inactive layers', p)
            continue
        if inactive:
            c.event('node with inactive opinions')
        node = comp.lookup(p)
        if len(specs) > 1:
            c.event('winner among several layers')
            c.sig(len(active), n, tuple(active),
                  tuple(tuple(sorted(s)) for _, s in specs))
        # own attributes: strongest active layer holding the attribute
        want = {}
        for i, s in specs:
            for a, ad in s.get('attrs', {}).items():
                want.setdefault(a, (ad, active[i]))
        for a, (ad, i) in want.items():
            info = lambda: (p, a, active, layers)
            c.equal(getattr(node, a), ad.get('value'), 'attribute value', info)
            c.equal(stage.get_node_attr_value(node, a, comp, resolved=False),
                    ad.get('value'), 'attribute raw value', info)
            c.equal(stage.get_node_attr_source(node, a), (paths[i], p),
                    'attribute source', info)
        v = nx.node_view(stage, comp, p)
        for key, dflt in (('code', []), ('enabled', None),
                          ('execute_in', None), ('start_point', False),
                          ('comment', None)):
            w, _ = m.strongest(p, key)
            w = dflt if w is None else w
            c.equal(v[key], w, 'strongest ' + key,
                    lambda: (p, active, layers))
    c.sample({'active': active, 'flags': local, 'overrides': repr(over),
              'nodes': sorted(every)})
