"""Random layered graphs, as plain save-file data."""
import string

NAMES = ['a', 'b', 'c', 'node', 'node2', 'A_1', '_x', 'aa', 'ab']
ATTRS = ['x', 'y', 'z', 'size', 'a', 'attr1', 'name', 'path_', 'in__nxt_it']


def gen_paths(rng, n, names, max_depth, stray=0.0):
    """A set of node paths closed under parents (unless stray)."""
    paths = []
    for _ in range(n):
        if paths and rng.random() < 0.65:
            parent = rng.choice(paths)
            if parent.count('/') >= max_depth:
                parent = ''
        else:
            parent = ''
        p = parent + '/' + rng.choice(names)
        if rng.random() < stray:
            p = p + '/' + rng.choice(names)
            if rng.random() < .3:
                p = p + '/' + rng.choice(names)
        if p not in paths:
            paths.append(p)
    return paths


class Opts(object):
    layers = (1, 4)
    nodes = (1, 9)
    depth = 4
    instances = 0.25
    clear_inst = 0
    world = 0.3
    stray = 0.0
    attrs = (0, 3)
    code = 0.4
    enabled = 0.2
    start = 0.15
    exec_in = 0.3
    comment = 0.25
    child_order = 0.4
    values = None
    names = NAMES
    attr_names = ATTRS
    attr_meta = 0.3
    rel_inst = 0.2

    def __init__(self, **kw):
        for k, v in kw.items():
            assert hasattr(type(self), k), k
            setattr(self, k, v)


_uid = [0]


def fresh(rng, tag='v'):
    _uid[0] += 1
    return '%s%d_%d' % (tag, _uid[0], rng.randrange(1000))


def reset():
    _uid[0] = 0


def kids(paths, parent):
    pre = '/' if parent == '/' else parent + '/'
    out = []
    for p in paths:
        if p != '/' and p.startswith(pre):
            n = p[len(pre):].split('/')[0]
            if n not in out:
                out.append(n)
    return out


def gen_node(rng, o, path, all_paths, layer_paths):
    d = {}
    if path == '/':
        if rng.random() < 0.5:
            d['comment'] = fresh(rng, 'wc')
        if rng.random() < 0.3:
            d['code'] = ['# ' + fresh(rng, 'wcode')]
    else:
        if rng.random() < o.code:
            d['code'] = ['# ' + fresh(rng, 'code')
                         for _ in range(rng.randint(1, 2))]
        if rng.random() < o.enabled:
            d['enabled'] = rng.random() < 0.5
        if rng.random() < o.start:
            d['start_point'] = True
        if rng.random() < o.comment:
            d['comment'] = fresh(rng, 'comment')
        if path.count('/') == 1 and rng.random() < o.exec_in:
            roots = [p for p in all_paths if p.count('/') == 1 and p != '/']
            d['execute_in'] = rng.choice(roots)
        if rng.random() < o.child_order:
            k = kids(layer_paths, path)
            rng.shuffle(k)
            if k:
                if rng.random() < .15:
                    k.append(rng.choice(k))     # said twice counts once
                d['child_order'] = k
    attrs = {}
    for _ in range(rng.randint(*o.attrs)):
        a = rng.choice(o.attr_names)
        if a in attrs:
            continue
        ad = {}
        if o.values:
            ad['value'] = o.values(rng)
        else:
            ad['value'] = fresh(rng)
        if rng.random() < o.attr_meta:
            ad['comment'] = fresh(rng, 'ac')
        if rng.random() < o.attr_meta:
            ad['type'] = rng.choice(['raw', 'str', 'int', 'list'])
        attrs[a] = ad
    if attrs:
        d['attrs'] = attrs
    return d


def rel_path(src, dst):
    """dst written relative to node src."""
    s = src.strip('/').split('/')
    t = dst.strip('/').split('/')
    # '..' = parent of src
    i = 0
    par = s
    while i < len(par) - 1 and i < len(t) - 1 and par[i] == t[i]:
        i += 1
    ups = len(par) - i
    return '/'.join(['..'] * ups + t[i:])


def gen_layers(rng, o=None):
    """List of {path: data}, strong to weak."""
    o = o or Opts()
    n_layers = rng.randint(*o.layers)
    names = rng.sample(o.names, rng.randint(3, min(5, len(o.names))))
    if o.names is NAMES and rng.random() < .25:
        # names that start or end one another
        names = ['a', 'aa', 'ab', 'a_a']
    pools = []
    for i in range(n_layers):
        n = rng.randint(*o.nodes)
        ps = gen_paths(rng, n, names, o.depth, o.stray)
        if pools and rng.random() < 0.8:
            # opinions over nodes other layers define
            other = rng.choice(pools)
            ps += [p for p in rng.sample(other, rng.randint(0, len(other)))
                   if p not in ps]
            if not o.stray:
                for p in list(ps):
                    q = p
                    while q.rfind('/') > 0:
                        q = q[:q.rfind('/')]
                        if q not in ps:
                            ps.append(q)
        pools.append(ps)
    all_paths = sorted(set(sum(pools, [])))
    layers = []
    for ps in pools:
        nodes = {}
        if rng.random() < o.world:
            ps = ps + ['/']
        for p in ps:
            nodes[p] = gen_node(rng, o, p, all_paths, ps)
        layers.append(nodes)
    # instance opinions
    for i, nodes in enumerate(layers):
        for p in list(nodes):
            if p == '/' or rng.random() >= o.instances:
                continue
            if rng.random() < o.clear_inst:
                # clears whatever a weaker layer or the parent gives
                nodes[p]['instance'] = ''
                continue
            tgt = rng.choice(all_paths)
            if tgt == p or p.startswith(tgt + '/'):
                continue
            if rng.random() < o.rel_inst:
                tgt = rel_path(p, tgt)
            nodes[p]['instance'] = tgt
    return layers


def extras(rng, layers, p=.6):
    """{layer index: top level keys that are not nodes}."""
    out = {}
    for i, nodes in enumerate(layers):
        if rng.random() > p:
            continue
        every = sorted(set(sum((list(l) for l in layers), [])))
        every = [q for q in every if q != '/']

        def some():
            return rng.sample(every, rng.randint(0, min(3, len(every))))

        meta = {}
        if rng.random() < .6:
            meta['positions'] = dict((q, [rng.randint(-900, 900) + .5,
                                          rng.randint(-900, 900)])
                                     for q in some())
        if rng.random() < .6:
            meta['collapse'] = dict((q, rng.random() < .6) for q in some())
        if rng.random() < .2:
            meta['something_else'] = {'kept': [1, None]}
        e = {}
        if meta:
            e['meta_data'] = meta
        if rng.random() < .3:
            e['color'] = rng.choice(['#112233', '#ffffff'])
        if rng.random() < .2:
            e['lock'] = rng.random() < .7
        out[i] = e
    return out
