"""Instances mirror their source's subtree."""
import model
import gen
import nx
import common

RULE = """Random graphs of 1-4 layers with instance opinions (absolute and relative,
chains, instances inside instanced subtrees, overrides below instances, several layers
disagreeing); graphs that instance themselves, an ancestor or a descendant, never
bottom out, or give one node two competing sources are out of scope. Non-trivial when
a node has an instance source; distinct by (tree shape, instance map)."""
ASSUMPTIONS = [
    """The lineage rule is a model: own layers strong to weak, then the parent's
    lineage, then the source's, merged so that shared ancestry comes last.""",
]
COUNT = {'quick': 2500, 'thorough': 60000}
MIN = {'implied node': 400, 'attribute from instance source': 1500,
       'local override of instanced attribute': 300, 'code from source': 300,
       'chained instance': 150, 'cleared instance': 30}


def below(c, o, layers, m):
    """Author some of the nodes instances imply."""
    rng = c.rng
    prox = sorted(m.proxies)
    cleared = []
    for t in rng.sample(prox, min(len(prox), rng.randint(1, 3))):
        nodes = rng.choice(layers)
        q = t
        while q != '/':
            nodes.setdefault(q, gen.gen_node(rng, o, q, [q], []))
            nodes[q].pop('execute_in', None)
            q = model.parent_of(q)
        if rng.random() < .4 and t.count('/') > 1:
            nodes[t]['instance'] = ''
            cleared.append(t)
    try:
        m = model.Comp(layers)
        for p in m.all_paths():
            m.shadow(p)
    except (model.Weird, RecursionError) as e:
        raise common.Skip(str(e))
    for t in cleared:
        if m.inst.get(t) == '':
            c.event('cleared instance')
    return m


def case(c):
    rng = c.rng
    o = gen.Opts(instances=rng.choice([.15, .25, .25, .4]),
                 layers=(1, 4) if rng.random() < .7 else (1, 1),
                 nodes=(2, 9), attr_meta=.15,
                 clear_inst=rng.choice([0, 0, .2]))
    layers = gen.gen_layers(rng, o)
    try:
        m = model.Comp(layers)
        for p in m.all_paths():
            m.shadow(p)
    except (model.Weird, RecursionError) as e:
        raise common.Skip(str(e))
    if not any(m.inst.values()):
        raise common.Skip('no instance')
    if m.proxies and rng.random() < .5:
        m = below(c, o, layers, m)
    d = c.scratch()
    paths = nx.write_graph(d, layers)
    stage = nx.load(paths[0])
    c.note = repr(layers)
    with c.no_raise('composing'):
        comp = stage.build_stage()
    c.check(not comp.failure, 'composed', lambda: (comp.failure, layers))
    c.equal(set(nx.all_paths(comp)), m.all_paths(), 'node set', lambda: layers)
    c.sig(tuple(sorted(m.all_paths())), tuple(sorted(m.inst.items())))
    for p in sorted(m.all_paths()):
        node = comp.lookup(p)
        info = lambda: (p, layers)
        src = m.inst.get(p)
        if p in m.proxies:
            c.event('implied node')
        if src and src in m.all_paths():
            kids = m.child_names(p)
            c.check(m.child_names(src) <= kids, 'model: source children mirrored')
            kids = set(comp.children(p, return_type=nx.R.NameDict))
            skids = set(comp.children(src, return_type=nx.R.NameDict))
            c.check(skids <= kids, 'source children mirrored', info)
            if m.inst.get(src):
                c.event('chained instance')
        v = nx.node_view(stage, comp, p)
        want = m.attrs(p)
        c.equal(set(v['attrs']), set(want), 'attribute names', info)
        fam = set(common_lineage(p))
        own = set(
            a for i, s in m.specs.get(p, []) for a in s.get('attrs', {}))
        for a, (ad, (i, at)) in want.items():
            got = v['attrs'][a]
            c.equal(got[1], ad.get('value'), 'attribute value',
                    lambda: (p, a, layers))
            c.equal(got[2], (paths[i], at), 'attribute source',
                    lambda: (p, a, layers))
            if at not in fam:
                c.event('attribute from instance source')
            if a in own and src and src in m.all_paths() and a in m.attrs(src):
                c.event('local override of instanced attribute')
        for key in ('code', 'enabled', 'comment'):
            w = m.inherited_internal(p, key)
            g = v[key]
            if key != 'enabled':
                g, w = g or None, w or None
            c.equal(g, w, 'instanced ' + key, info)
            if w and src and m.strongest(p, key)[0] is None:
                c.event(key + ' from source')
        for key in ('execute_in', 'start_point'):
            w, _ = m.strongest(p, key)
            c.equal(v[key] or None, w or None, 'not instanced: ' + key, info)
        names = set(stage.get_node_instanced_attr_names(node, comp))
        c.check(names <= set(want), 'instanced attribute names', info)
        inh = set(stage.get_node_inherited_attr_names(node, comp))
        c.equal(names | inh | own, set(want), 'every attribute is local, '
                'inherited or instanced', info)
    c.sample({'layers': layers, 'implied': sorted(m.proxies)})


def common_lineage(p):
    out = [p]
    while p != '/':
        p = model.parent_of(p)
        out.append(p)
    return out
