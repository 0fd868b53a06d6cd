"""Graphs that run other graphs."""
import json
import os
import common
import gen
import model
import nx
from nxt import nxt_io
from props import c04, c09, c18

RULE = """Chains of 2-3 layered graphs of generated programs (as for C09) where nodes are
instances of the builtin sub graph node, pointing at later graphs by path or file token,
with attributes, parameters, starts and record files of their own, inherited or
instanced. The interpreter of the programs runs the called graph with what the calling
node holds and hands back what the called world ends with. Non-trivial when a called
graph ran; distinct by the log of reads."""
ASSUMPTIONS = [
    """Handed back: what parameters or world code gave the called world node. Whether its
    other authored values come back as well is not judged.""",
    """Values pass as text, as parameters do.""",
]
COUNT = {'quick': 2500, 'thorough': 40000}
MIN = {'called graph ran': 400, 'value handed in': 1500, 'value handed back': 800,
       'called graph left early': 15, 'called graph failed': 30, 'sub graph of a sub graph': 25,
       'parameter for an inner node': 80, 'called graph on file': 80,
       'handed back value seen later': 50}
CPU = 180


def builtin():
    with open(os.path.join(nxt_io.BUILTIN_GRAPHS_DIR, 'sub_graphs.nxt')) as fp:
        return json.load(fp)['nodes']


class Graph(object):
    pass


class Sim(c09.Sim):
    graphs = None       # file path -> Graph
    ctx = None

    def resolve(self, text, p):
        text = '' if text is None else str(text)
        for g in self.graphs.values():
            text = text.replace('${file::%s}' % os.path.basename(g.path), g.path)
        return c09.Sim.resolve(self, text, p)

    def record(self, tag, frame):
        c09.Sim.record(self, tag, dict((a, frame[a]) for a in frame
                                       if not a.startswith('_')))

    def ops(self, p, lines, frame, kept):
        if lines == self.bi['/_sub_graph']['code']:
            return self.sub(p, frame)
        if lines == self.bi['/']['code']:
            return
        return c09.Sim.ops(self, p, lines, frame, kept)

    def child(self, g):
        s = Sim(g.m, g.progs)
        s.graphs, s.ctx, s.bi, s.saved = self.graphs, self.ctx, self.bi, self.saved
        s.log = self.log
        s.level = self.level + 1
        return s

    def give(self, attr_path, v):
        q, a = attr_path.rsplit('.', 1)
        q = q or '/'
        if q in self.m.all_paths() or q == '/':
            self.over.setdefault(q, {})[a] = str(v)

    def sub(self, p, frame):
        c = self.ctx
        g = self.graphs.get(frame.get('_graph_path'))
        if g is None:
            raise common.Skip('no graph to call')
        params = frame['_parameters']
        if not isinstance(params, dict):
            raise common.Skip('odd parameters')
        params = dict(params)
        for a, v in frame.items():
            if a not in ('_graph_path', '_start'):
                params['/.' + a] = v
                c.event('value handed in')
        s = self.child(g)
        start = frame.get('_start')
        if start is None:
            if len(g.starts) != 1:
                raise common.Skip('which start')
            start = g.starts[0]
        if start not in g.m.all_paths():
            raise common.Skip('odd start')
        for k, v in params.items():
            s.give(k, v)
            if not k.startswith('/.'):
                c.event('parameter for an inner node')
        c.event('called graph ran')
        if s.level > 1:
            c.event('sub graph of a sub graph')
        try:
            s.world()
            s.run_nodes(g.comp.get_exec_order(start))
        except c09.XGraph:
            c.event('called graph left early')
        except c09.XError as e:
            c.event('called graph failed')
            raise c09.XError(p, None, None, e.at)
        if frame.get('_cache_file'):
            self.saved[frame['_cache_file']] = s
        back = s.over.get('/', {})
        for a, v in back.items():
            frame[a] = v
            c.event('value handed back')
            if not a.startswith('_'):
                self.given.add((p, a))

    def raw(self, p, a):
        if (p, a) in self.given:
            self.ctx.event('handed back value seen later')
        return c09.Sim.raw(self, p, a)

    def __init__(self, m, progs):
        c09.Sim.__init__(self, m, progs)
        self.given = set()
        self.level = 0


def graph(c, k, d, later):
    """One graph file; some of its nodes call graphs in later."""
    rng = c.rng
    g = Graph()
    layers, g.progs, m = c09.make(c, .25)
    for nodes in layers:
        at = nodes.get('/', {}).get('attrs', {})
        for a in list(at):
            if isinstance(at[a].get('value'), (list, dict)):
                del at[a]
    tops = [p for p in m.all_paths() if p != '/']
    bi = builtin()
    if later:
        for _ in range(rng.randint(1, 3)):
            nodes = rng.choice(layers)
            p = rng.choice(tops) if tops and rng.random() < .5 else \
                rng.choice(['/sub', '/sub2', '/a/sub'])
            q = model.parent_of(p)
            if q != '/' and not any(q in n for n in layers):
                continue
            t = rng.choice(later)
            sd = nodes.setdefault(p, {})
            for n in layers:
                n.get(p, {}).pop('code', None)
                n.get(p, {}).pop('instance', None)
            sd['instance'] = '/_sub_graph'
            at = sd.setdefault('attrs', {})
            at['_graph_path'] = {'value': rng.choice(
                [t.path, '${file::%s}' % os.path.basename(t.path)])}
            if rng.random() < .8 or len(t.starts) != 1:
                at['_start'] = {'value': rng.choice(t.paths)}
            if rng.random() < .5:
                pars = dict(('%s.%s' % (rng.choice(t.paths), rng.choice(c09.ATTRS)),
                             rng.choice([5, 'par', [1], None]))
                            for _ in range(rng.randint(1, 2)))
                if rng.random() < .2:
                    pars['/not/there.a'] = 1
                if rng.random() < .2:
                    pars['/.a'] = 'world par'
                at['_parameters'] = {'type': 'dict', 'value': repr(pars)}
            if rng.random() < .3:
                at['_cache_file'] = {'value': os.path.join(
                    d, 'cache%d.nxt' % rng.randint(0, 2))}
    g.layers = layers
    g.m = c04.in_scope(layers + [bi])
    names = ['g%d.nxt' % k] + ['g%d_%d.nxt' % (k, i) for i in range(1, len(layers))]
    refs = ['./' + n for n in names[1:]]
    extra = {0: {'references': refs + ['$NXT_BUILTINS/sub_graphs.nxt']}}
    g.path = nx.write_graph(d, layers, names=names, extra=extra)[0]
    g.stage = nx.load(g.path)
    g.comp = g.stage.build_stage()
    g.paths = sorted(p for p in g.m.all_paths() if p != '/' and
                     p not in ('/_sub_graph', '/_maya_standalone_graph'))
    if not g.paths:
        raise common.Skip('no nodes')
    g.starts = [p for p in g.paths if g.m.strongest(p, 'start_point')[0]]
    return g


def case(c):
    from nxt import runtime
    rng = c.rng
    d = c.scratch()
    later = []
    for k in range(rng.choice([2, 2, 3]), 0, -1):
        later.append(graph(c, k, d, later))
    top = later[-1]
    subs = [p for p in top.paths if
            top.m.inherited_internal(p, 'code') == builtin()['/_sub_graph']['code']]
    if not subs:
        raise common.Skip('nothing to call')
    what = lambda: (start, [(g.path, g.layers) for g in later])
    c.note = repr([(g.path, g.layers) for g in later])
    start = rng.choice(subs)
    if rng.random() < .3:
        start = rng.choice(top.paths)
    before = [nx.authored(g.stage) for g in later]
    stage = top.stage
    order = top.comp.get_exec_order(start)
    sim = Sim(top.m, top.progs)
    sim.graphs = dict((g.path, g) for g in later)
    sim.ctx, sim.bi, sim.saved = c, builtin(), {}
    rt = stage.build_stage()
    want = got = None
    try:
        sim.world()
        sim.run_nodes(order)
    except (c09.XGraph, c09.XError) as e:
        want = e
    del c09.LOG[:], c09.SEEN[:]
    with common.quiet():
        try:
            rt = stage.setup_runtime_layer(rt)
            stage.execute_nodes(order, rt)
        except Exception as e:
            got = e
    if sim.log != c09.LOG:
        n = 0
        a, b = sim.log, c09.LOG
        while n < min(len(a), len(b)) and a[n] == b[n]:
            n += 1
        c.fail('what node code saw: entry %d\nexpected %s\ngot %s\n%r %r' % (
            n, a[n:n + 1], b[n:n + 1], got, what()))
    c.check(True, 'what node code saw')
    c.sig(tuple(c09.LOG))
    c18.same_end(c, want, got, what)
    if isinstance(want, c09.XError):
        for p, n, line in want.at:
            c.check(', in %s\n' % p in str(got), 'error names the nodes',
                    lambda: (want.at, str(got), what()))
            if n is not None:
                c.check('line %d, in %s\n' % (n, p) in str(got), 'error names the line',
                        lambda: (want.at, str(got), what()))
    if not isinstance(want, c09.XSyntax):
        c18.world(c, rt, sim, what)
        c18.record(c, stage, rt, sim, what)
    for f, s in sorted(sim.saved.items()):
        c.event('called graph on file')
        back = nx.nxt_layer.CacheLayer.load_from_filepath(f)
        c.equal(set(back.nodes), set(r['path'] for r in s.records) | set(['/']),
                'called graph on file: nodes', what)
        last = dict((r['path'], r) for r in s.records)
        for p, r in last.items():
            node = back.lookup(p)
            for a, v in r['frame'].items():
                if a.startswith('_'):
                    continue
                try:
                    v = json.loads(json.dumps(v))
                except (TypeError, ValueError):
                    v = None
                c.equal(json.dumps(getattr(node, a)), json.dumps(v),
                        'called graph on file: values', lambda: (p, a, what()))
    for g, b in zip(later, before):
        c.equal(nx.authored(g.stage), b, 'authored data left alone', what)
    c.sample({'graphs': [g.layers for g in later], 'start': start})
