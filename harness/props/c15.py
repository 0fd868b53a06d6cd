"""Node paths, attribute paths and names."""
import gen
import nx
import model
import common

RULE = """Random node paths up to depth 7 over names that are prefixes of each other (a, aa,
a_a, world's own path included), relative paths with any mix of steps up, here and down,
and attribute names; every path function is compared with the same operation on name
lists, and with its inverse. Then names: any text made into node and attribute names
unused in a random layered graph. Non-trivial for paths below the top; distinct by the
lengths and common beginning of the paths."""
COUNT = {'quick': 4000, 'thorough': 100000}
MIN = {'relative path': 10000, 'there and back': 800, 'ancestor': 8000,
       'ancestor replaced': 800, 'attribute path': 4000, 'joined': 4000,
       'trimmed': 4000, 'name made legal': 4000, 'unused node name': 1000,
       'unused attribute name': 1000, 'up to the world': 500}

NAMES = ['a', 'aa', 'a_a', 'b', 'ab', 'A', '_', 'x1', '_a', 'b2']


def some(rng, least=0):
    return tuple(rng.choice(NAMES[:rng.choice([2, 10])])
                 for _ in range(rng.choice([least, 1, 2, 3, 4, 5, 7])))


def path(t):
    return '/' + '/'.join(t)


def common_len(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return n


def case(c):
    rng = c.rng
    N = nx.nxt_path
    for _ in range(4):
        a, b = some(rng), some(rng)
        if rng.random() < .5:
            b = a[:rng.randint(0, len(a))] + b[:3]
        pa, pb = path(a), path(b)
        c.note = repr((pa, pb))
        k = common_len(a, b)
        c.sig(len(a), len(b), k, a[k:k + 1] and b[k:k + 1] and
              a[k].startswith(b[k]) - b[k].startswith(a[k]))
        # parts
        c.equal(N.node_name_from_node_path(pa), a[-1] if a else '/', 'name', pa)
        c.equal(N.get_parent_path(pa), path(a[:-1]) if a else '', 'parent', pa)
        c.equal(N.get_path_depth(pa), len(a), 'depth', pa)
        if a:
            c.equal(N.get_root_path(pa), path(a[:1]), 'root', pa)
            c.equal(list(N.str_path_to_node_namespace(pa)), list(a), 'namespace', pa)
        c.equal(N.node_namespace_to_str_path(list(a)), pa, 'namespace', pa)
        c.equal(N.all_ancestor_paths(pa),
                [path(a[:i]) for i in range(len(a) - 1, 0, -1)], 'ancestor', pa)
        c.equal(bool(N.is_ancestor(pa, pb)), len(b) < len(a) and a[:len(b)] == b,
                'ancestor', (pa, pb))
        c.equal(bool(N.is_ancestor(pa, ''.join(list(pb)))),
                len(b) < len(a) and a[:len(b)] == b, 'ancestor', (pa, pb))
        d = rng.randint(0, 8)
        c.equal(N.trim_to_depth(pa, d), path(a[:d]), 'trimmed', (pa, d))
        # composed of parts
        r = some(rng, 1) or ('a',)
        want = path(a + r)
        c.equal(N.join_node_paths(pa, '/'.join(r)), want, 'joined', (pa, r))
        c.equal(N.join_node_paths(pa, list(r)), want, 'joined', (pa, r))
        if len(a) > 0 and a[:len(b)] == b:
            new = some(rng)
            if (b or new) and new + a[len(b):]:
                c.equal(N.replace_ancestor(pa, pb, path(new)), path(new + a[len(b):]),
                        'ancestor replaced', (pa, pb, new))
                c.equal(N.replace_ancestor(N.replace_ancestor(pa, pb, path(new)),
                                           path(new), pb), pa, 'there and back',
                        (pa, pb, new))
        # attributes
        attr = rng.choice(['x', '_y', 'attr1', 'a'])
        pre = rng.choice([pa, pa[1:], '..', '.', '../' + pa[1:]])
        ap = N.make_attr_path(pre, attr)
        c.check(N.is_attr_path(ap), 'attribute path', ap)
        if pre:
            c.equal(N.path_attr_partition(ap), (pre, attr), 'attribute path', ap)
            c.equal(N.attr_name_from_attr_path(ap), attr, 'attribute path', ap)
            c.equal(N.node_path_from_attr_path(ap), pre, 'attribute path', ap)
        c.equal(N.path_attr_partition(pa), (pa, None), 'attribute path', pa)
        # relative paths
        steps = [rng.choice(['..', '..', '.', '', 'a', 'aa', 'b'])
                 for _ in range(rng.randint(1, 6))]
        rel = '/'.join(steps)
        if rel and not rel.startswith('/'):
            want = model.expand(rel, pa)
            if want == '/':
                c.event('up to the world')
            c.equal(N.expand_relative_node_path(rel, pa), want, 'relative path',
                    (rel, pa))
        c.equal(N.expand_relative_node_path(pb, pa), pb, 'relative path', (pb, pa))
        up = '/'.join(['..'] * (len(a) - k) + list(b[k:])) or '.'
        c.equal(N.expand_relative_node_path(up, pa), pb, 'relative path', (up, pa))
        # names
        s = ''.join(rng.choice('ab1_ .-/$%{}\n"Z9') for _ in range(rng.randint(1, 6)))
        legal = nx.Stage.legalize_name(s)
        c.check(legal.isidentifier(), 'name made legal', (s, legal))
        c.equal(nx.Stage.legalize_name(legal), legal, 'name made legal', s)
        if s.isidentifier():
            c.equal(legal, s, 'name made legal')
        else:
            c.check(len(legal) - len(s) in (0, 1), 'name made legal', (s, legal))
    if c.index % 4 == 0:
        unused(c)


def unused(c):
    rng = c.rng
    n = rng.randint(1, 3)
    o = gen.Opts(layers=(n, n), instances=.2, nodes=(1, 7), attrs=(0, 3),
                 attr_names=['x', 'x2', 'x3', 'y', 'attr', 'attr1', 'attr2'],
                 names=['a', 'a2', 'a3', 'b', 'node', 'node2', '_1'])
    layers = gen.gen_layers(rng, o)
    for nodes in layers:
        for p in nodes:
            nodes[p].pop('instance', None)
    stage = nx.load(nx.write_graph(c.scratch(), layers)[0])
    for i in rng.sample(range(n), rng.choice([0, 0, 1])):
        nx.layers_of(stage)[i].set_muted(True)
    before = nx.authored(stage)
    comp = stage.build_stage()
    have = set(nx.all_paths(comp))
    for _ in range(4):
        i = rng.randrange(n)
        lay = nx.layers_of(stage)[i]
        parent = rng.choice(sorted(have) + ['/'])
        name = rng.choice(['a', 'a2', 'b', 'node', '1', 'a b', None, '__name__', 'zz'])
        only = rng.random() < .5
        on = lay if only else rng.choice([lay, comp])
        got = stage.get_unique_node_name(name, on, parent, layer_only=only)
        # Asked for a layer that does not take part in the composition, names
        # of that layer are taken too.
        taken = set(layers[i]) if on is lay else set()
        if not only:
            taken |= have
        join = (parent if parent != '/' else '') + '/'
        c.check(join + got not in taken, 'unused node name', (parent, name, got))
        c.check(got.isidentifier() and got != '__name__', 'unused node name', got)
        base = 'node' if name is None else nx.Stage.legalize_name(name)
        if base != '__name__':
            if join + base not in taken:
                c.equal(got, base, 'unused node name')
            else:
                c.check(got.startswith(base) and got[len(base):].isdigit(),
                        'unused node name', (name, got))
        mine = [p for p in layers[i]]
        if not mine:
            continue
        p = rng.choice(mine)
        aname = rng.choice(['x', 'x2', 'y', 'attr', None, 'attr1', 'a b', '9', 'q'])
        got = stage.get_unique_attr_name(p, lay, aname)
        have_a = set(layers[i][p].get('attrs', {}))
        c.check(got not in have_a and got.isidentifier(), 'unused attribute name',
                (p, aname, got))
        if aname and aname.isidentifier() and aname not in have_a:
            c.equal(got, aname, 'unused attribute name')
        got = stage.get_unique_attr_name(p, comp, aname)
        have_a = set(a for l in layers for a in l.get(p, {}).get('attrs', {}))
        c.check(got not in have_a and got.isidentifier(),
                'unused attribute name of a composition', (p, aname, got))
        if aname and aname.isidentifier() and aname not in have_a:
            c.equal(got, aname, 'unused attribute name of a composition')
    c.equal(nx.authored(stage), before, 'asking for names changes nothing')
