"""Where values come from: every opinion on record, strongest first."""
import gen
import model
import nx
from nxt.nxt_layer import get_node_local_attr_names
from nxt.stage import get_historical_opinions
from props.c03 import below
from props.c04 import in_scope

RULE = """Random graphs of 1-4 layers, with and without instances, few attribute names so
that layers, ancestors and instance sources all hold opinions on them, some of them
without a value; values and code with tokens at attributes of other nodes (absolute,
relative, children, siblings). For every node and attribute the history, the layers with
an opinion, the references to other nodes and the data of the node are compared with the
lineage computed from the authored data. Non-trivial when some history has three
opinions; distinct by the pattern of opinions."""
ASSUMPTIONS = [
    """An opinion that repeats the value and the source of a stronger one counts once.""",
    """What an instance says of its own code or comment is not judged: the value of its
    source is listed a second time under its own path.""",
]
COUNT = {'quick': 3000, 'thorough': 40000}
MIN = {'history of an attribute': 5000, 'history of code': 3000, 'three opinions': 3000,
       'history below the value': 5000, 'opinion on the node itself': 5000,
       'layers with an opinion': 9000, 'opinion of an instance source': 100,
       'references of an attribute': 2500, 'references of code': 1000,
       'reverted child order': 9000, 'stash': 9000, 'value says nothing': 1500,
       'instanced attributes': 800}


def opinions(m, paths, p, a):
    """[(layer path, node path), value] that say something, strongest first."""
    out = []
    for (i, q), d in m.lineage(p):
        if a not in d.get('attrs', {}):
            continue
        v = d['attrs'][a].get('value')
        if v is not None and v != []:
            out.append(((paths[i], q), v))
    return out


def moved(ref, frm, to):
    """Where a token at frm points when node to inherits it."""
    said, at = ref
    if said.startswith('${/'):
        return at
    path, _, a = said[2:-1].rpartition('.')
    return model.expand(path, to) + '.' + a


def token(rng, p, every):
    """A token at an attribute of another node, and where it points."""
    q = rng.choice(every)
    a = rng.choice(['x', 'y', 'z1'])
    k = rng.randrange(4)
    if k == 0 or q == p or p == '/':
        return '${%s.%s}' % (q, a), q + '.' + a
    if k == 1:
        return '${%s.%s}' % (gen.rel_path(p, q), a), q + '.' + a
    if k == 2:
        return '${kid.%s}' % a, p + '/kid.' + a
    par = model.parent_of(p)
    return '${../kid.%s}' % a, (par if par != '/' else '') + '/kid.' + a


def text(rng, p, every):
    said, want = [], []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .3:
            said.append(rng.choice(['${x}', 'plain', '${file::a.txt}',
                                    '${contents::b}', '{x}', '$x']))
        else:
            t, w = token(rng, p, every)
            said.append(t)
            want.append((t, w))
    return rng.choice([' ', ', ', '']).join(said), want


def history(node, a, comp, **kw):
    return [(tuple(h[nx.MA.SOURCE]), h[nx.MA.VALUE])
            for h in get_historical_opinions(node, a, comp, **kw)]


def case(c):
    rng = c.rng
    inst = rng.choice([0, .2, .3])
    o = gen.Opts(layers=(1, 4), instances=inst, nodes=(2, 9), depth=4, attrs=(0, 3),
                 world=.4, attr_names=['x', 'y', 'z', 'w'], attr_meta=.3)
    layers = gen.gen_layers(rng, o)
    for nodes in layers:
        for p in nodes:
            for a, ad in nodes[p].get('attrs', {}).items():
                if rng.random() < .15:
                    del ad['value']
                elif rng.random() < .2:
                    ad['value'] = rng.choice(['same', 0, '', False, [], [1], {}])
    m = in_scope(layers)
    if m.proxies:
        m = below(c, o, layers, m)
    every = sorted(p for p in m.all_paths() if p != '/')
    refs = {}
    for i, nodes in enumerate(layers):
        for p in nodes:
            if every and rng.random() < .4:
                t, w = text(rng, p, every)
                nodes[p].setdefault('attrs', {})['t'] = {'value': t}
                refs[i, p, 't'] = w
            if every and rng.random() < .4:
                t, w = text(rng, p, every)
                nodes[p]['code'] = ['# ' + t]
                refs[i, p, None] = w
    m = in_scope(layers)
    paths, _ = nx.write_tree(c.scratch(), layers, rng)
    stage = nx.load(paths[0])
    lays = nx.layers_of(stage)
    comp = stage.build_stage()
    before = nx.view(stage, comp)
    deep = 0
    for p in sorted(m.all_paths()):
        node = comp.lookup(p)
        own = m.specs.get(p, [])
        what = lambda: (p, a, layers)
        for a in sorted(m.attrs(p)):
            want = opinions(m, paths, p, a)
            got = history(node, a, comp, include_local=True)
            c.equal(got, want, 'history of an attribute', what)
            if len(want) > 2:
                c.event('three opinions')
                c.sig(p.count('/'), tuple((paths.index(x), q.count('/'), q == p)
                                          for (x, q), _ in want))
            if any(q != p and not p.startswith(q) for (_, q), _ in want):
                c.event('opinion of an instance source')
            # a value that says nothing is in no history
            if getattr(node, a) in (None, []):
                c.event('value says nothing')
            else:
                # implied nodes have no opinion of their own to leave out
                c.equal(history(node, a, comp),
                        want if getattr(node, nx.IA.PROXY) else want[1:],
                        'history below the value', what)
            stated = [d['attrs'][a].get('value') for _, d in own
                      if a in d.get('attrs', {})]
            if p not in m.proxies:
                c.equal(stage.get_uncomped_opinion(node, a), (stated + [None])[0],
                        'opinion on the node itself', what)
        local = set(a for _, d in own for a in d.get('attrs', {}))
        up = set()
        q = p
        while q != '/':
            q = model.parent_of(q)
            up.update(a for _, d in m.specs.get(q, []) for a in d.get('attrs', {}))
        what = lambda: (p, layers)
        got = get_node_local_attr_names(p, lays)
        c.equal(sorted(got), sorted(local), 'local attribute names', what)
        got = stage.get_node_inherited_attr_names(node, comp)
        c.equal(sorted(got), sorted(up - local), 'inherited attribute names', what)
        got = stage.get_node_instanced_attr_names(node, comp)
        c.equal(sorted(got), sorted(set(m.attrs(p)) - up - local),
                'instanced attribute names', what)
        if got:
            c.event('instanced attributes')
        for a in ('code', 'comment'):
            if not own or p in m.inst or p in m.proxies:
                continue
            key = {'code': nx.IA.COMPUTE, 'comment': nx.IA.COMMENT}[a]
            want = [((paths[i], p), d[a]) for i, d in own if d.get(a) not in (None, [])]
            c.equal(history(node, key, comp, include_local=True), want,
                    'history of ' + a, what)
            c.event('history of code', len(want))
        for a in [None] + sorted(m.attrs(p)) + ['none_such', 'code', 'comment']:
            want = [i for i, d in own if a is None or (
                d.get(a) if a in ('code', 'comment') else
                d.get('attrs', {}).get(a, {}).get('value')) not in (None, [])]
            key = {'code': nx.IA.COMPUTE, 'comment': nx.IA.COMMENT}.get(a, a)
            for some in (None, rng.sample(lays, rng.randint(1, len(lays)))):
                got = stage.get_layers_with_opinion(p, some, key)
                c.equal([lays.index(l) for l in got],
                        [i for i in map(lays.index, some or lays) if i in want],
                        'layers with an opinion', what)
        lin = [(i, q) for (i, q), _ in m.lineage(p)]
        for at in lin:
            if at + ('t',) in refs:
                c.equal(set(stage.get_node_attr_external_sources(node, 't', comp)),
                        set(moved(r, at[1], p) for r in refs[at + ('t',)]),
                        'references of an attribute', what)
                break
        if own and own[0][1].get('code') and p != '/':
            at = (own[0][0], p, None)
            if at in refs:
                c.equal(set(stage.get_node_code_external_sources(node, comp)),
                        set(w for _, w in refs[at]), 'references of code', what)
        for i, lay in enumerate(lays):
            mine = gen.kids(list(layers[i]), p)
            got = stage.get_reverted_child_order(p, lay, comp)
            order = [n for n in stage.get_node_child_order(node) if n in mine]
            c.equal(got[:len(order)], order, 'reverted child order', what)
            c.equal(sorted(got), sorted(mine), 'reverted child order', what)
    for lay in [comp] + lays:
        stash = stage.get_stash_data(lay)
        c.equal(set(stash), set(p for p in nx.all_paths(lay) if p != '/'), 'stash')
        for p in stash:
            n = lay.lookup(p)
            for a in stage.get_node_attr_names(n):
                c.equal(stash[p][a], getattr(n, a), 'stash', lambda: (p, a))
    c.equal(nx.view(stage, comp), before, 'asking changes nothing')
    c.sample({'layers': layers})
