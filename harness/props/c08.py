"""Execution order: enabled nodes, depth first, along the chain of roots."""
import model
import gen
import nx
import common
from props.c04 import in_scope
from props.c07 import kids_of

RULE = """Random layered graphs with instances, execute-in chains (also cycles,
branches and dangling ones), child orders and disabled nodes; the execution order is
asked for from every node and compared with a depth-first walk computed from the
authored data. Non-trivial when the order has at least two nodes; distinct by order."""
ASSUMPTIONS = ["""Which of several roots executing in the same root continues the chain
is left open; one of them must, and the answer must repeat."""]
COUNT = {'quick': 900, 'thorough': 25000}
MIN = {'execution order': 3000, 'root chain followed': 500, 'branching chain': 60,
       'cyclic chain': 100, 'disabled node skipped': 500,
       'descendant of disabled node skipped': 150, 'start below the root': 1500,
       'start point listed': 400}


def walk(m, order, p):
    out = [p]
    for n in order(p):
        out += walk(m, order, model.join(p, n))
    return out


def case(c):
    rng = c.rng
    o = gen.Opts(instances=rng.choice([0, .2]), layers=(1, 3), nodes=(2, 9),
                 exec_in=.6, enabled=.35, child_order=.5, attrs=(0, 0),
                 depth=rng.choice([1, 3, 4]))
    layers = gen.gen_layers(rng, o)
    for nodes in layers:
        for p in nodes:
            if 'execute_in' in nodes[p] and rng.random() < .1:
                nodes[p]['execute_in'] = '/nowhere'
    m = in_scope(layers)
    paths = nx.write_graph(c.scratch(), layers)
    stage = nx.load(paths[0])
    c.note = repr(layers)
    comp = stage.build_stage()
    comp2 = stage.build_stage()
    ps = sorted(p for p in m.all_paths() if p != '/')
    roots = [p for p in ps if p.count('/') == 1]
    exec_in = dict((p, m.strongest(p, 'execute_in')[0]) for p in roots)
    enabled = dict((p, m.inherited_internal(p, 'enabled')) for p in ps)

    def order(p):
        have = [model.name_of(q) for q in kids_of(ps, p)]
        co = list(getattr(comp.lookup(p), nx.IA.CHILD_ORDER) or [])
        return [n for n in co if n in have] + [n for n in have if n not in co]

    def on(p, top):
        """Enabled, with every ancestor up to the chain root."""
        while True:
            if enabled[p] is False:
                return False
            if p == top:
                return True
            p = model.parent_of(p)

    for start in ps:
        info = lambda: (start, layers)
        got = comp.get_exec_order(start)
        c.equal(comp2.get_exec_order(start), got, 'execution order repeats', info)
        c.equal(comp.get_exec_order(start), got, 'execution order repeats', info)
        root = '/' + start.split('/')[1]
        # the chain: follow the roots that appear, checking each link
        chain = comp.get_root_exec_order(root)
        c.equal(chain[0], root, 'chain starts at the root', info)
        c.equal(len(chain), len(set(chain)), 'each root once', info)
        for a, b in zip(chain, chain[1:]):
            c.equal(exec_in.get(b), a, 'chain link is an execute-in', info)
            c.event('root chain followed')
        more = [r for r in roots if exec_in[r] == chain[-1]]
        c.check(set(more) <= set(chain), 'chain complete', info)
        if more:
            c.event('cyclic chain')
        if any(len([r for r in roots if exec_in[r] == x]) > 1 for x in chain):
            c.event('branching chain')
        want = []
        started = False
        for r in chain:
            w = walk(m, order, r)
            if start in w:
                w2 = w[w.index(start):]
                started = True
            else:
                w2 = w
            if not started:
                continue
            if start == r or start not in w:
                keep = [p for p in w2 if on(p, r)]
            else:
                # The start root's own switch guards the root, not what
                # someone starts at below it
                keep = [p for p in w2 if on2(enabled, p, r)]
            want += keep
            for p in w2:
                if p not in keep:
                    c.event('disabled node skipped')
                    if enabled[p] is not False:
                        c.event('descendant of disabled node skipped')
        if start != root:
            c.event('start below the root')
        c.equal(got, want, 'execution order', info)
        c.equal(len(got), len(set(got)), 'each node once', info)
        if len(got) > 1:
            c.sig(tuple(got))
    listed = stage.get_layer_start_nodes(comp)
    c.equal(set(listed), set(p for p in ps if m.strongest(p, 'start_point')[0]),
            'start points', lambda: layers)
    for p in listed:
        c.event('start point listed')
    c.equal(comp.get_exec_order('/'), [], 'the world has no order')
    c.sample({'layers': layers})


def on2(enabled, p, top):
    while p != top:
        if enabled[p] is False:
            return False
        p = model.parent_of(p)
    return True
