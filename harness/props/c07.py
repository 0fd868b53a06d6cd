"""Every way of asking about the node tree gives the same tree."""
import model
import gen
import nx
import common
from props.c04 import in_scope

RULE = """Random layered graphs (instances, nodes of missing parents, partial and
shuffled child orders); for every node of the composition and of each layer the
children, descendants and ancestors are asked for in every return type, ordered and
not, with and without implied nodes, repeatedly and between edits, and compared with the tree spelled by
the node paths. Non-trivial when the tree has a node with two children; distinct by
(paths, child orders)."""
ASSUMPTIONS = ["""In a composition every node has a parent: nodes below a path no layer
    authored are followed in layers only.""",
    "A composed child order may also name nodes that are not there."]
COUNT = {'quick': 700, 'thorough': 20000}
MIN = {'children': 3000, 'ordered children': 2000, 'descendants': 3000,
       'ancestors': 3000, 'implied children': 2000, 'ordered descendants': 2000,
       'child order names every child': 1000, 'explicit order obeyed': 200,
       'answers do not share lists': 1000, 'edit: add': 100, 'edit: delete': 60,
       'edit: rename': 60, 'edit: move': 50,
       'live composition followed': 60}


def kids_of(paths, p):
    return [q for q in paths if q != '/' and model.parent_of(q) == p]


def implied(paths):
    out = set()
    for p in paths:
        while p != '/':
            out.add(p)
            p = model.parent_of(p)
    return out


def check_tree(c, layer, comp, gone=()):
    rng = c.rng
    paths = nx.all_paths(layer)
    pset = set(paths)
    c.equal(len(paths), len(pset), 'no path listed twice')
    R = nx.R
    full = implied(paths)
    nodes = dict((p, layer.lookup(p)) for p in paths)
    ask = list(paths)
    if '/' not in pset:
        ask.append('/')
    ask += sorted(full - pset)
    ask += sorted(set(gone) - full - {'/'})
    rng.shuffle(ask)
    for p in ask:
        want = set(kids_of(paths, p))
        unordered = layer.children(p, return_type=R.Path)
        c.equal(sorted(unordered), sorted(want), 'children', p)
        got = layer.children(p, return_type=R.Node)
        c.equal(sorted(layer.get_node_path(n) for n in got), sorted(unordered),
                'child nodes and paths agree', p)
        c.equal(sorted((a, id(b)) for a, b in
                       layer.children(p, return_type=R.NodeTable)),
                sorted((q, id(nodes[q])) for q in unordered), 'child table agrees', p)
        c.equal(layer.children(p, return_type=R.NameDict),
                dict((model.name_of(q), nodes[q]) for q in unordered),
                'child names agree', p)
        c.equal(layer.children(p, return_type=R.Boolean), bool(want),
                'has children agrees', p)
        imp = layer.children(p, return_type=R.Path, include_implied=True)
        c.equal(sorted(imp), sorted(kids_of(full, p)), 'implied children', p)
        if rng.random() < .5:
            mine = layer.children(p, return_type=rng.choice([R.Path, R.Node,
                                                             R.NodeTable]))
            mine += ['zzz']
            d = layer.children(p, return_type=R.NameDict)
            d['zzz'] = 1
            c.equal(layer.children(p, return_type=R.Path), unordered,
                    'answers do not share lists', p)
            c.check('zzz' not in layer.children(p, return_type=R.NameDict) and
                    'zzz' not in layer.children(p, return_type=R.Node) and
                    'zzz' not in layer.children(p, return_type=R.NodeTable),
                    'answers do not share lists', p)
        # order
        if p in pset:
            co = list(getattr(nodes[p], nx.IA.CHILD_ORDER) or [])
            listed = [n for n in co if model.join(p, n) in want]
            rest = [q for q in unordered if model.name_of(q) not in co]
            exp = [model.join(p, n) for n in listed] + rest
            o = layer.children(p, return_type=R.Path, ordered=True)
            c.equal(o, exp, 'ordered children', (p, co))
            c.equal([layer.get_node_path(n) for n in
                     layer.children(p, return_type=R.Node, ordered=True)], exp,
                    'ordered child nodes agree', p)
            c.equal([a for a, _ in layer.children(p, return_type=R.NodeTable,
                                                  ordered=True)], exp,
                    'ordered child table agrees', p)
            if comp:
                c.equal(len(co), len(set(co)), 'child order has no duplicates',
                        (p, co))
                if p != '/':
                    c.check(want <= set(model.join(p, n) for n in co),
                            'child order names every child', (p, co, want))
            if len(listed) > 1:
                c.event('explicit order obeyed')
            o = layer.children(p, return_type=R.Path, ordered=True, include_implied=True)
            listed = [model.join(p, n) for n in co if model.join(p, n) in imp]
            c.equal(o, listed + [q for q in imp if q not in listed],
                    'ordered implied children', (p, co))
        # descendants
        below = [q for q in paths if q != '/' and model.is_desc(q, p)]
        fbelow = [q for q in full if model.is_desc(q, p)]
        got = layer.descendants(p, return_type=R.Path)
        c.equal(len(got), len(set(got)), 'descendants not repeated', p)
        reach = set(below) if p == '/' else set(reachable(paths, p))
        c.equal(set(got), reach, 'descendants', p)
        c.equal(sorted(layer.get_node_path(n) for n in
                       layer.descendants(p, return_type=R.Node)), sorted(got),
                'descendant nodes agree', p)
        c.equal(sorted((a, id(b)) for a, b in
                       layer.descendants(p, return_type=R.NodeTable)),
                sorted((q, id(nodes[q])) for q in got),
                'descendant table agrees', p)
        got = layer.descendants(p, return_type=R.Path, include_implied=True)
        c.equal(set(got), set(fbelow), 'implied descendants', p)
        c.equal(len(list(got)), len(set(got)), 'descendants not repeated', p)
        if p in pset and p != '/':
            got = layer.descendants(p, return_type=R.Path, ordered=True)
            c.equal(got, depth_first(layer, p), 'ordered descendants', p)
            c.equal(set(got), reach, 'ordered descendants are the descendants', p)
            got = layer.descendants(p, return_type=R.Path, ordered=True,
                                    include_implied=True)
            c.equal(got, depth_first(layer, p, True), 'ordered implied descendants', p)
            c.equal(set(got), set(fbelow),
                    'ordered implied descendants are the implied descendants', p)
            # ancestors
            up = []
            q = p
            while q != '/':
                q = model.parent_of(q)
                if q in pset and q != '/':
                    up.append(q)
            arg = rng.choice([p, nodes[p]])
            c.equal(layer.ancestors(arg, return_type=R.Path), up, 'ancestors', p)
            c.equal([layer.get_node_path(n) for n in layer.ancestors(arg)], up,
                    'ancestor nodes agree', p)
            c.equal([a for a, _ in layer.ancestors(arg, return_type=R.NodeTable)],
                    up, 'ancestor table agrees', p)
            c.equal(bool(layer.ancestors(arg, return_type=R.Boolean)), bool(up),
                    'has ancestors agrees', p)
            named = layer.ancestors(arg, return_type=R.NameDict)
            c.equal(set(named), set(model.name_of(q) for q in up),
                    'ancestor names agree', p)
            for q in up:
                c.check(any(named[model.name_of(q)] is nodes[t] for t in up
                            if model.name_of(t) == model.name_of(q)),
                        'ancestor names agree', lambda: (p, q))
            for q in up:
                c.check(p in layer.descendants(q, return_type=R.Path,
                                               include_implied=True),
                        'a node is below its ancestors', (p, q))


def reachable(paths, p):
    out = []
    for q in kids_of(paths, p):
        out.append(q)
        out += reachable(paths, q)
    return out


def depth_first(layer, p, imp=False):
    out = []
    for q in layer.children(p, return_type=nx.R.Path, ordered=True,
                            include_implied=imp):
        out.append(q)
        out += depth_first(layer, q, imp)
    return out


def history(c, stage):
    """Edits of a layer, asked about in between."""
    rng = c.rng
    lay = rng.choice(nx.layers_of(stage))
    gone = set(implied(nx.all_paths(lay)))
    for _ in range(rng.randint(1, 4)):
        paths = [p for p in nx.all_paths(lay) if p != '/']
        op = rng.choice(['add', 'add', 'delete', 'rename', 'move'])
        p = rng.choice(sorted(paths)) if paths else None
        if op == 'add':
            par = rng.choice(sorted(implied(paths)) + ['/'])
            if rng.random() < .4:       # below something nobody authored
                par = model.join(par, rng.choice(['imp', 'a']))
            if par.count('/') > 5:
                continue
            c.log.append((op, par))
            stage.add_node(name=rng.choice(['a', 'b', 'new']), parent=par, layer=lay)
        elif p is None:
            continue
        elif op == 'delete':
            d = rng.random() < .5
            c.log.append((op, p, d))
            stage.delete_node(lay.lookup(p), lay, delete_descendants=d)
        elif op == 'rename':
            new = rng.choice(['a', 'ren', 'b2'])
            if model.join(model.parent_of(p), new) in implied(paths):
                continue    # may run into nodes below a path of no node
            c.log.append((op, p))
            stage.set_node_name(lay.lookup(p), new, lay)
        else:
            to = [q for q in sorted(implied(paths)) + ['/'] if q != p and
                  q != model.parent_of(p) and not model.is_desc(q, p) and
                  q.count('/') < 4]
            if not to:
                continue
            to = rng.choice(to)
            if model.join(to, model.name_of(p)) in implied(paths) - set(paths):
                continue
            c.log.append((op, p, to))
            stage.parent_nodes([lay.lookup(p)], to, lay)
        c.event('edit: ' + op)
        gone |= implied(nx.all_paths(lay))
        if rng.random() < .7:
            check_tree(c, lay, False, gone)
    check_tree(c, lay, False, gone)


def live(c, stage):
    """A composition kept current through edits, asked about in between."""
    from props import c06
    h = c06.Hist(c, stage, False)
    h.look = .6
    h.compare = lambda: check_tree(c, h.comp, False)
    for _ in range(c.rng.randint(2, 6)):
        h.step()
    c.log = h.log
    h.compare()
    c.event('live composition followed')


def case(c):
    rng = c.rng
    o = gen.Opts(instances=rng.choice([0, .2]), layers=(1, 3), nodes=(1, 9),
                 stray=rng.choice([0, 0, .25]), child_order=.6, attrs=(0, 0))
    if o.stray:
        o.instances = 0
    layers = gen.gen_layers(rng, o)
    for nodes in layers:     # orders that name strangers, or only some
        for p in nodes:
            co = nodes[p].get('child_order')
            if co and rng.random() < .4:
                co.insert(rng.randrange(len(co) + 1), 'stranger')
            if co and rng.random() < .3:
                co.pop(rng.randrange(len(co)))
    if not o.stray:
        in_scope(layers)
    paths = nx.write_graph(c.scratch(), layers)
    stage = nx.load(paths[0])
    c.note = repr(layers)
    c.log = []
    comp = stage.build_stage()
    ps = nx.all_paths(comp)
    if any(len(kids_of(ps, p)) > 1 for p in ps):
        c.sig(tuple(sorted(ps)),
              tuple(tuple(getattr(comp.lookup(p), nx.IA.CHILD_ORDER) or ())
                    for p in sorted(ps)))
    try:
        if not o.stray:
            check_tree(c, comp, True)
        for l in nx.layers_of(stage):
            check_tree(c, l, False)
        if not o.stray:
            check_tree(c, comp, True)
        if not o.instances:
            (live if not o.stray and rng.random() < .4 else history)(c, stage)
    except common.Violation as e:
        raise common.Violation('%s\n layers: %s\n edits: %s' % (e, layers, c.log),
                               e.key)
    c.sample({'paths': sorted(ps)})
