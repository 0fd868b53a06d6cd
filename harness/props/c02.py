"""Attributes flow down the node hierarchy."""
import model
import gen
import nx

RULE = """Random graphs of 1-4 layers, 2-14 nodes up to 5 deep, attributes drawn from
a small pool so that ancestors, descendants and layers all hold opinions on the same
names; non-trivial when an attribute is inherited past or overridden between at least
two generations; distinct by the (depth, layer) pattern of opinions along the
lineage."""
ASSUMPTIONS = ["Graphs have no instances here (C03 covers them)."]
COUNT = {'quick': 900, 'thorough': 50000}
MIN = {'inherited attribute': 3000, 'overridden ancestor opinion': 1000,
       'world attribute inherited': 300,
       'attribute without value': 100, 'parent missing': 200,
       'two generations missing': 40}


def odd(rng):
    return rng.choice([0, 1, -3, 2.5, True, False, '', 'text', None, [], [1, 'a'],
                       {}, {'k': [1]}, 'with ${x} token', '0', 'None', ' ', u'\xe9'])


def case(c):
    rng = c.rng
    o = gen.Opts(layers=(1, 4), instances=0, nodes=(2, 14), depth=5,
                 stray=rng.choice([0, 0, .3]),
                 attrs=(0, 4), world=.5, attr_meta=.4,
                 attr_names=rng.sample(gen.ATTRS, 4),
                 values=odd if rng.random() < .5 else None)
    layers = gen.gen_layers(rng, o)
    if rng.random() < .5:       # attributes stated without a value
        for nodes in layers:
            for p in nodes:
                for a, ad in nodes[p].get('attrs', {}).items():
                    if rng.random() < .2:
                        del ad['value']
                        c.event('attribute without value')
    d = c.scratch()
    paths, _ = nx.write_tree(d, layers, rng)
    stage = nx.load(paths[0])
    comp = stage.build_stage()
    c.check(not comp.failure, 'composed', lambda: comp.failure)
    m = model.Comp(layers)
    c.equal(set(nx.all_paths(comp)), m.all_paths(), 'node set')
    for p in sorted(m.all_paths()):
        node = comp.lookup(p)
        want = m.attrs(p)
        up = model.parent_of(model.parent_of(p) or '/')
        if want and up and model.parent_of(p) not in m.all_paths():
            c.event('parent missing' if up in m.all_paths()
                    else 'two generations missing')
        names = stage.get_node_attr_names(node)
        c.equal(sorted(names), sorted(want), 'attribute names', lambda: (p, layers))
        c.equal(len(names), len(set(names)), 'attribute names unique')
        lin = m.lineage(p)
        own = set(a for at, s in lin if at[1] == p for a in s.get('attrs', {}))
        for a, (ad, (i, src)) in want.items():
            info = lambda: (p, a, layers)
            holders = [at for at, s in lin if a in s.get('attrs', {})]
            if src != p:
                c.event('inherited attribute')
                if src == '/':
                    c.event('world attribute inherited')
            if len(set(h[1] for h in holders)) > 1:
                c.event('overridden ancestor opinion')
            if len(holders) > 1 or src != p:
                c.sig(p.count('/'), tuple((h[0], h[1].count('/'))
                                          for h in holders))
            val = getattr(node, a)
            c.equal((type(val), val), (type(ad.get('value')), ad.get('value')),
                    'attribute value', info)
            c.equal(stage.get_node_attr_source(node, a), (paths[i], src),
                    'attribute source', info)
            data = stage.get_node_attr_data(node, a, comp)
            c.equal(data.get('value'), ad.get('value'), 'attribute data', info)
            # comment and type are opinions of their own
            for key, attr in (('comment', '_comment__nxt'), ('type', '_type__nxt')):
                w = None
                for at, s in lin:
                    if key in s.get('attrs', {}).get(a, {}):
                        w = s['attrs'][a][key]
                        break
                c.equal(getattr(node, a + attr, None), w, 'attribute ' + key,
                        info)
            c.equal(stage.node_attr_exists(node, a), True, 'attribute exists')
            raw = stage.get_node_attr_value(node, a, comp, resolved=False)
            v = ad.get('value')
            w = '' if v is None else (v if v else str(v))
            c.equal(raw, w, 'attribute raw value', info)
        c.equal(set(stage.get_node_inherited_attr_names(node, comp)),
                set(want) - own, 'inherited attribute names', lambda: (p, layers))
        c.equal(set(stage.get_node_instanced_attr_names(node, comp)), set(),
                'no instanced attributes', lambda: (p, layers))
        # what a node does not define or inherit, it does not have
        for a in o.attr_names:
            if a not in want:
                c.equal(stage.node_attr_exists(node, a), False,
                        'absent attribute', lambda: (p, a, layers))
        # code, enabled and comment do not flow down the hierarchy
        for key in ('code', 'enabled', 'comment', 'execute_in'):
            w, _ = m.strongest(p, key)
            g = nx.node_view(stage, comp, p)[key]
            c.equal(g or None if key != 'enabled' else g, w,
                    'not inherited: ' + key, lambda: (p, layers))
    c.sample({'layers': layers})
