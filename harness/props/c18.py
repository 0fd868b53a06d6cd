"""The record of a run."""
import contextlib
import json
import os
import time
import common
import nx
from props import c09

RULE = """Random layered graphs of generated programs as for C09, whose nodes also run
themselves again and keep values no file can hold. One runtime layer goes through
several runs of node lists and custom code, some ending in errors, missing nodes or by
leaving the graph; after every one the record is compared with what the interpreter of
the programs says ran. Non-trivial when a run was nested or failed; distinct by the
paths that ran and how they nest."""
ASSUMPTIONS = [
    """Of the world node only values its code or a parameter gave it are compared.""",
    """When a node runs inside itself, either run may be the one on record.""",
]
COUNT = {'quick': 2500, 'thorough': 40000}
MIN = {'record: code': 3000, 'record: attributes': 3000, 'failed run on record': 70,
       'run inside a run': 200, 'a node inside itself': 60, 'world on record': 200,
       'custom code': 300, 'saved record': 500, 'value no file can hold': 60,
       'value a file holds': 2000, 'not during a run': 1000, 'during a run': 1500,
       'leaving from custom code': 20}


@contextlib.contextmanager
def clock():
    """A clock that never stands still."""
    real = time.time
    now = [1e9]

    def tick():
        now[0] += .5
        return now[0]
    time.time = tick
    try:
        yield tick
    finally:
        time.time = real
        c09.sink.watch = None


def case(c):
    from nxt import runtime
    rng = c.rng
    layers, progs, m = c09.make(c, .3, more=True)
    d = c.scratch()
    paths = nx.write_graph(d, layers)
    stage = nx.load(paths[0])
    c.note = repr(layers)
    ps = sorted(p for p in m.all_paths() if p != '/')
    if not ps:
        raise common.Skip('no nodes')
    params = []
    if rng.random() < .5:
        params = [(rng.choice(ps + ['/']), rng.choice(c09.ATTRS),
                   rng.choice([7, '8', 'par'])) for _ in range(rng.randint(1, 2))]
    todo = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .3:
            lines, prog = c09.program(rng, 'Q%d' % len(todo), c09.ATTRS, ps, False, .4)
            if rng.random() < .1:
                lines, prog = rng.choice([[''], ['# nothing']]), []
            progs[lines[0]] = prog
            todo.append(('custom', rng.choice(ps), lines))
        else:
            todo.append(('nodes', [rng.choice(ps) for _ in range(rng.randint(1, 4))],
                         rng.random() < .1))
    what = lambda: (params, todo, layers)
    sim = c09.Sim(m, progs)
    for p, a, v in params:
        if p in m.all_paths() or p == '/':
            sim.over.setdefault(p, {})[a] = str(v)
    del c09.LOG[:], c09.SEEN[:]
    with clock() as now:
        with common.quiet(), c.no_raise('composing'):
            rt = stage.build_stage()
        gaps = [now()]
        c09.sink.watch = rt.cache_layer.was_during_node_exec
        if not start(c, stage, rt, sim, params, what):
            return
        gaps.append(now())
        world(c, rt, sim, what)
        record(c, stage, rt, sim, what)
        for step in todo:
            if step[0] == 'custom':
                custom(c, stage, rt, sim, step, what)
            else:
                nodes(c, stage, rt, sim, step, what)
            gaps.append(now())
            record(c, stage, rt, sim, what)
            c.check(c09.LOG == sim.log, 'what node code saw', what)
    times(c, rt, sim, gaps, what)
    saved(c, rt, d, what)
    if rng.random() < .1 and sim.records:
        # a value that contains itself
        with common.quiet(), c.no_raise('custom code'):
            stage.execute_custom_code('self.a = [1]\nself.a.append(self.a)',
                                      sim.records[-1]['path'], rt)
        saved(c, rt, d, what)
    c.sig(tuple((r['path'], r['inside'] and r['inside']['path']) for r in sim.records))
    c.sample({'ran': [r['path'] for r in sim.records], 'layers': layers})


def start(c, stage, rt, sim, params, what):
    want = got = None
    try:
        sim.world()
    except (c09.XGraph, c09.XError) as e:
        want = e
    with common.quiet():
        try:
            stage.setup_runtime_layer(rt, c09.pdict(params))
        except Exception as e:
            got = e
    same_end(c, want, got, what)
    if want is not None:
        c.event('failed world on record')
    if isinstance(want, c09.XGraph):
        c.check(got.runtime_layer is rt, 'leaving hands over the runtime layer', what)
    return not isinstance(want, c09.XSyntax)


def nodes(c, stage, rt, sim, step, what):
    from nxt import runtime
    _, order, missing = step
    n = len(sim.records)
    want = got = None
    try:
        sim.run_nodes(order)
    except (c09.XGraph, c09.XError) as e:
        want = e
    with common.quiet():
        try:
            stage.execute_nodes(order + ['/not/there'] * missing, rt)
        except Exception as e:
            got = e
    same_end(c, want, got, what, missing)
    if isinstance(want, c09.XError):
        c.event('failed run on record')


def same_end(c, want, got, what, missing=False):
    from nxt import runtime
    kind = type(None)
    if isinstance(want, c09.XSyntax):
        kind = runtime.GraphSyntaxError
    elif isinstance(want, c09.XError):
        kind = runtime.GraphError
    elif isinstance(want, c09.XGraph):
        kind = runtime.ExitGraph
    elif missing:
        kind = runtime.InvalidNodeError
    c.check(isinstance(got, kind), 'how the run ended',
            lambda: (repr(want), repr(got), what()))


def custom(c, stage, rt, sim, step, what):
    from nxt import runtime
    _, p, lines = step
    want = got = left = None
    try:
        sim.run(p, lines)
    except (c09.XGraph, c09.XError, c09.XNode) as e:
        want = e
    c.event('custom code')
    with common.quiet():
        try:
            left = stage.execute_custom_code('\n'.join(lines), p, rt)
        except Exception as e:
            got = e
    if isinstance(want, (c09.XGraph, c09.XNode)):
        c.event('leaving from custom code')
        c.check(isinstance(left, runtime.ExitGraph if isinstance(want, c09.XGraph)
                           else runtime.ExitNode), 'custom code hands back how it left',
                lambda: (repr(left), repr(got), what()))
        return
    c.check(left is None, 'custom code left', lambda: (left, what()))
    same_end(c, want, got, what)
    if isinstance(want, c09.XError):
        text = str(got)
        at, n, line = want.at[0]
        c.check('line %d, in %s\n' % (n, at) in text, 'error in custom code',
                lambda: (at, n, text, what()))
        if not isinstance(want, c09.XSyntax) and '${' not in line:
            c.check(line in text, 'line of custom code', lambda: (line, text, what()))


def world(c, rt, sim, what):
    node = rt.cache_layer.lookup('/')
    c.check(node is not None, 'world on record', what)
    if sim.world_code is not None:
        c.equal(node._cached_code, '\n'.join(sim.world_code), 'record: code', what)
    for a, v in sim.over.get('/', {}).items():
        c.equal(c09.frozen(getattr(node, a)), c09.frozen(v), 'record of the world',
                lambda: (a, what()))


def record(c, stage, rt, sim, what):
    by = {}
    for r in sim.records:
        by.setdefault(r['path'], []).append(r)
    c.equal(set(rt.cache_layer.nodes), set(by) | set(['/']), 'record: what ran', what)
    for p, rs in by.items():
        node = rt.cache_layer.lookup(p)
        # the last run, or any that was still going then
        some = [rs[-1]]
        r = rs[-1]['inside']
        while r:
            if r['path'] == p:
                some.append(r)
                c.event('a node inside itself')
            r = r['inside']
        if rs[-1]['inside']:
            c.event('run inside a run')
        have = node._cached_code, dict((a, repr(c09.frozen(getattr(node, a))))
                                       for a in c09.names_of(node))
        ok = [('\n'.join(r['code']), dict((a, repr(c09.frozen(v)))
                                          for a, v in r['frame'].items()
                                          if not a.startswith('_')))
              for r in some]
        c.check(have[0] in [x for x, _ in ok], 'record: code',
                lambda: (p, have[0], ok, what()))
        c.check(have in ok, 'record: attributes', lambda: (p, have, ok, what()))


def times(c, rt, sim, gaps, what):
    cache = rt.cache_layer
    nth = {}
    for r in sim.records:
        p = r['path']
        k = nth[p] = nth.get(p, -1) + 1
        runs = cache.node_time_map[p]
        c.check(len(runs) > k, 'one timing per run', what)
        c.check(len(runs[k]) == 2 and None not in runs[k], 'timings closed', what)
        r['time'] = tuple(runs[k])
        c.equal(cache.get_node_run_time(p, k), runs[k][1] - runs[k][0], 'time of a run',
                what)
    for p, n in nth.items():
        c.equal(len(cache.node_time_map[p]), n + 1, 'one timing per run', what)
    c.equal(set(cache.node_time_map), set(nth), 'timings of what ran', what)
    last = {}
    for r in sim.records:
        a, b = r['time']
        c.check(a < b, 'a run takes time', lambda: (r['path'], a, b, what()))
        if r['inside']:
            x, y = r['inside']['time']
            c.check(x < a and b < y, 'runs inside runs', lambda: (
                r['path'], (a, b), r['inside']['path'], (x, y), what()))
        k = id(r['inside'])
        c.check(last.get(k, 0) < a, 'one run after another', what)
        last[k] = b
        for t in (a, (a + b) / 2, b):
            c.check(cache.was_during_node_exec(t), 'during a run', what)
    for g in gaps:
        c.check(not cache.was_during_node_exec(g), 'not during a run',
                lambda: (g, [(r['path'], r['time']) for r in sim.records], what()))
    for (t, told), r in zip(c09.SEEN, sim.owner):
        if r is None:
            continue
        a, b = r['time']
        c.check(a < t < b, 'code ran in its time', lambda: (
            r['path'], t, (a, b), what()))
        c.check(told, 'during a run', what)
    try:
        cache.get_node_run_time('/not/there')
        c.fail('time of a node that did not run')
    except ValueError:
        pass


def saved(c, rt, d, what):
    from nxt.nxt_layer import CacheLayer
    f = os.path.join(d, 'cache.nxt')
    cache = rt.cache_layer
    with c.no_raise('saving the record'):
        cache.save(f)
        back = CacheLayer.load_from_filepath(f)
    c.equal(set(back.nodes), set(cache.nodes), 'saved record', what)
    for p, node in cache.nodes.items():
        new = back.lookup(p)
        c.equal(new._cached_code, node._cached_code, 'saved code',
                lambda: (p, what()))
        # what an odd value of the world inherits is not on its record
        own = [a for a in c09.names_of(node) if p != '/' or a in vars(node)]
        have = set(a for a in c09.names_of(new))
        c.equal(have, set(own), 'saved attributes', lambda: (p, what()))
        for a in own:
            v = getattr(node, a)
            try:
                text = json.dumps(v)
            except (TypeError, ValueError):
                c.event('value no file can hold')
                c.check(getattr(new, a, None) is None, 'value left out',
                        lambda: (p, a, what()))
                continue
            c.event('value a file holds')
            c.equal(json.dumps(getattr(new, a)), json.dumps(json.loads(text)),
                    'saved value', lambda: (p, a, what()))
