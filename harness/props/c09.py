"""What node code sees, changes and leaves behind."""
import ast
import copy
import sys
import time
import types
import model
import gen
import nx
import common
from props.c04 import in_scope

RULE = """Random layered graphs with instances whose nodes run generated programs
(read every attribute, set and append to attributes, tokens in code, locals and
globals, leaving the node or the graph, raising, syntax errors, running other nodes)
under random starts, parameters and continued runs. An interpreter of the programs
over the composition model predicts every read, every error and the runtime state.
Non-trivial when a change to an attribute was seen by another node; distinct by the
log of reads."""
ASSUMPTIONS = ["""Changed values differ under ==; attributes made up by node code are not
expected to outlive it."""]
COUNT = {'quick': 900, 'thorough': 30000}
MIN = {'run': 600, 'attributes read': 2000, 'change seen by another node': 100,
       'nested run': 60, 'runtime state': 500, 'second run repeats the first': 250,
       'continued run': 60, 'parameter applied': 150, 'global kept': 100,
       'local dropped': 100, 'lower composition': 40, 'token in code': 100, 'world code ran first': 100,
       'set on the layer node': 50, 'nested run from a start': 20}

WILD = .12
ATTRS = ['a', 'b', 'x', 'y', 'z']
sink = types.ModuleType('nxtv_sink')
sys.modules['nxtv_sink'] = sink
LOG = []
SEEN = []        # for every rec entry: when, and what sink.watch said


def names_of(o):
    return sorted(n for n in dir(o) if not n.startswith('_') and
                  not n.endswith('__nxt'))


def frozen(v):
    return common.typed(copy.deepcopy(v))


def rec(tag, me, g):
    SEEN.append((time.time(), sink.watch and sink.watch(time.time())))
    LOG.append(('rec', tag, tuple((n, repr(frozen(getattr(me, n))))
                                  for n in names_of(me)),
                tuple((k, g[k]) for k in sorted(g) if k.startswith(('gv', 'lv')))))


def tok(tag, text):
    LOG.append(('tok', tag, text))


sink.rec = rec
sink.watch = None
sink.tok = tok


class XNode(Exception):
    pass


class XGraph(Exception):
    pass


class XError(Exception):
    said = ''       # the exception, as Python puts it
    via = ()        # functions it came through

    def __init__(self, path, line, text, inner=None):
        self.at = [(path, line, text)] + (inner or [])


class XSyntax(XError):
    pass


class XMissing(XError):
    def __init__(self):
        self.at = []


def value(rng, i):
    """Authored value of ATTRS[i]; may point at attributes later in ATTRS."""
    k = rng.randrange(16)
    if k < 5:
        return gen.fresh(rng)
    if k < 12:
        return rng.choice(['5', '-17', '2.5', '[1, 2]', "{'k': [1]}", '(1,)', 'True',
                           'None', "'quoted'", '007', '', 'two words', '{{}}', 3,
                           [1, 'two'], {'k': 1}, False, None, '[]', 'x + 1', '1, 2'])
    if i + 1 < len(ATTRS):
        return ('ref', rng.choice(ATTRS[i + 1:]), rng.choice(
            ['%s', '[%s, 9]', 'pre %s', '%s and %s', "'%s'"]), rng.random())
    return '12'


def literal(text):
    try:
        v = ast.literal_eval(text)
    except Exception:
        return text
    return text if isinstance(v, str) else v


class World(object):
    path = '/'


class Sim(object):
    def __init__(self, m, progs):
        self.m = m
        self.progs = progs
        self.over = {}
        self.g = {}
        self.log = []
        self.depth = 0
        self.seen_change = 0
        self.from_start = 0
        self.ran = []
        self.world_code = None
        self.records = []   # what ran, in order of starting
        self.stack = []
        self.owner = []     # for every rec entry, the record it belongs to

    def classes(self, p):
        out = self.m.shadow(p).__mro__
        if '/' not in self.m.specs:
            # a run always has a world node, nothing is stronger than the others
            out += (World,)
        return out

    def names(self, p):
        out = set()
        for k in self.classes(p):
            if 'at' in k.__dict__:
                out |= set(k.data.get('attrs', {}))
            elif 'path' in k.__dict__:
                out |= set(self.over.get(k.path, {}))
        return out

    def raw(self, p, a):
        for k in self.classes(p):
            if 'at' in k.__dict__:
                at = k.data.get('attrs', {})
                if a in at:
                    return at[a].get('value')
            elif 'path' in k.__dict__:
                o = self.over.get(k.path, {})
                if a in o:
                    if k.path != p:
                        self.seen_change += 1
                    return o[a]
        raise common.Skip('token at a missing attribute')

    def resolve(self, text, p):
        text = '' if text is None else str(text)
        out = ''
        while True:
            i = text.find('${')
            if i < 0:
                return out + text
            j = text.index('}', i)
            ref = text[i + 2:j]
            q, a = p, ref
            if '.' in ref:
                q, a = ref.rsplit('.', 1)
                q = model.expand(q, p)
                if q not in self.m.all_paths():
                    raise common.Skip('token at a missing node')
            out += text[:i] + self.resolve(self.raw(q, a), q)
            text = text[j + 1:]

    def real(self, p, a):
        v = self.raw(p, a)
        if not isinstance(v, str):
            return v
        return literal(self.resolve(v, p))

    def code(self, p):
        return self.m.inherited_internal(p, 'code') or []

    def record(self, tag, frame):
        self.owner.append(self.stack[-1] if self.stack else None)
        self.log.append(('rec', tag, tuple((n, repr(frozen(frame[n])))
                                           for n in sorted(frame)),
                         tuple((k, self.g[k]) for k in sorted(self.g))))

    def world(self):
        if '/' not in self.m.specs:
            return
        lines = self.code('/')
        if not lines:
            return
        self.world_code = [self.resolve(l, '/') for l in lines]
        try:
            self.ops('/', lines, Live(self), set(self.g))
        except XNode:
            pass

    def run_nodes(self, paths):
        for p in paths:
            if p not in self.m.all_paths():
                raise XMissing()
            if self.m.inherited_internal(p, 'enabled') is False:
                continue
            try:
                self.run(p)
            except XNode:
                continue

    def run(self, p, lines=None):
        self.depth += 1
        if self.depth > 5:
            raise common.Skip('runs itself')
        record = {'path': p, 'inside': self.stack[-1] if self.stack else None}
        self.stack.append(record)
        self.records.append(record)
        try:
            self.run_code(p, self.code(p) if lines is None else lines, record)
        finally:
            self.depth -= 1
            self.stack.pop()

    def run_code(self, p, lines, record):
        frame = record['frame'] = {}
        for a in self.names(p):
            frame[a] = copy.deepcopy(self.real(p, a))
        before = copy.deepcopy(frame)
        record['code'] = [self.resolve(l, p) for l in lines]
        self.ran.append(p)
        done = None
        had = set(self.g)
        kept = set()
        try:
            self.ops(p, lines, frame, kept)
        except (XNode, XGraph, XError) as e:
            done = e
            if isinstance(e, XSyntax) and e.at[0][0] == p and len(e.at) == 1:
                raise
        for k in list(self.g):
            if k not in had and k not in kept and not any(
                    s[0] == 'glob' and s[1][0] == k
                    for l in lines[:1] for s in self.progs[l]):
                del self.g[k]
        if not isinstance(done, XError):
            for a in before:
                if before[a] != frame[a]:
                    self.over.setdefault(p, {})[a] = frame[a]
        if done is not None:
            raise done

    def ops(self, p, lines, frame, kept):
        if not lines:
            return
        prog = self.progs[lines[0]]
        # tokens are resolved before the code runs
        text = {}
        for k, (kind, args, line, n) in enumerate(prog):
            if kind == 'tok':
                text[k] = ' ' + self.resolve('${%s}' % args[1], p) + ' '
        for kind, args, line, n in prog:
            if kind == 'syntax':
                raise XSyntax(p, n, line)
        for k, (kind, args, line, n) in enumerate(prog):
            done = None
            if kind == 'rec':
                self.record(args, frame)
            elif kind == 'tok':
                self.log.append(('tok', args[0], text[k]))
            elif kind == 'set':
                frame[args[0]] = copy.deepcopy(args[1])
            elif kind == 'obj':
                frame[args[0]] = eval(args[1], dict(self.g))
            elif kind == 'stage':
                self.over.setdefault('/', {})[args[0]] = copy.deepcopy(args[1])
            elif kind == 'seen':
                self.log.append(('tok', args[0], repr(
                    self.raw('/', args[1]) if args[1] in self.names('/') else 'no')))
            elif kind == 'app':
                if isinstance(frame.get(args[0]), list):
                    frame[args[0]] = frame[args[0]] + [args[1]]
            elif kind == 'glob':
                self.g[args[0]] = args[1]
                kept.add(args[0])
            elif kind == 'loc':
                self.g[args[0]] = args[1]
            elif kind in ('exec', 'again'):
                if kind == 'again':
                    if frame.get(args[3]) == 777:
                        continue
                try:
                    ps = args[0]
                    if isinstance(ps, str):
                        # everything from that node on
                        if ps not in self.m.all_paths():
                            raise XMissing()
                        ps = self.m.order_of(ps)
                        self.from_start += 1
                    for q, a, v in args[1]:
                        self.over.setdefault(q, {})[a] = str(v)
                    self.run_nodes(ps)
                except XGraph as e:
                    done = e
                except XError as e:
                    done = XError(p, n, line, e.at)
                    done.said, done.via = e.said, e.via
                if args[2]:
                    done = None
            elif kind == 'exitnode':
                done = XNode()
            elif kind == 'exitgraph':
                done = XGraph()
            elif kind == 'raise':
                done = XError(p, n, line)
                done.said, done.via = args
            if done is not None:
                raise done


class Live(dict):
    """The attributes of the world node, as its own code sees them."""

    def __init__(self, sim):
        dict.__init__(self)
        self.sim = sim

    def __iter__(self):
        return iter(self.sim.names('/'))

    def __getitem__(self, a):
        return self.sim.raw('/', a)

    def get(self, a, default=None):
        return self[a] if a in self.sim.names('/') else default

    def __setitem__(self, a, v):
        self.sim.over.setdefault('/', {})[a] = v


def declare(rng, g, v):
    """Ways to say global."""
    k = rng.randrange(8)
    if k == 0:
        return ['def fn_make():', '    global ' + g, '    %s = %d' % (g, v), 'fn_make()']
    if k == 1:
        return ['if True:', '\tglobal ' + g, '\t%s = %d' % (g, v)]
    if k == 2:
        return ['class K_a:', '    def f(self):', '        """doc"""',
                '        global zz_1, ' + g, '        globals()[%r] = %d' % (g, v), '',
                'K_a().f()']
    if k == 3:
        return ['global %s  # kept' % g, '', '%s = %d' % (g, v)]
    if k == 4:
        return ['global zz_1 , zz_2,' + g, '%s = %d' % (g, v)]
    return ['global ' + g, '%s = %d' % (g, v)]


ODD = ['set([1, 2])', '{1: 2}', '{(1, 2): 3}', 'object', '(1, (2, [3]))', "b'xy'",
       '[1, set([2])]', "float('inf')", 'complex(1, 2)', '{None: [True]}', 'range(3)']


def program(rng, tag, names, targets, world, p_wild, path=None, starts=False):
    """[(kind, args, source line, line number)], first line '#tag'."""
    out = []
    lines = ['#' + tag]

    def add(kind, args, *src):
        if rng.random() < .1:
            lines.append(rng.choice(['', '', '# a\x0cb', '# \u2028 \x1d', '  ']))
        lines.extend(src)
        out.append((kind, args, src[-1], len(lines)))

    n = rng.randint(1, 5)
    r = [0]

    def record():
        r[0] += 1
        t = '%s.%d' % (tag, r[0])
        add('rec', t, "__import__('nxtv_sink').rec('%s', self, globals())" % t)

    record()
    wild = rng.random() < p_wild
    for _ in range(n):
        k = rng.randrange(20)
        a = rng.choice(names)
        if k < 7:
            v = rng.choice([rng.randint(1000, 9999), gen.fresh(rng, 'w'),
                            rng.choice([0, '', [], {}, None, False, 0.0, ()]),
                            [rng.randint(1000, 9999)], str(rng.randint(1000, 9999)),
                            '[%d, 2]' % rng.randint(1000, 9999),
                            {'d': rng.randint(1000, 9999)},
                            (rng.randint(1000, 9999), 'x'), 'val: %d' % rng.randint(0, 99999)])
            add('set', (a, v), 'self.%s = %r' % (a, v))
        elif k < 9:
            v = rng.randint(1000, 9999)
            add('app', (a, v),
                "if isinstance(getattr(self, %r, None), list): self.%s.append(%d)"
                % (a, a, v))
        elif path and k == 9 and not world:
            add('again', ([path], [(path, a, 777)], False, a),
                "if getattr(self, %r, None) != 777:" % a,
                '    execute(paths=[%r], parameters={%r: 777})' % (
                    path, path + '.' + a))
        elif path and k == 10 and not world:
            v = rng.choice(ODD)
            add('obj', (a, v), 'self.%s = %s' % (a, v))
        elif k < 11:
            g = 'gv%s' % rng.choice('abc')
            if any(e[1][0] == g for e in out if e[0] in ('glob', 'loc')):
                continue
            v = rng.randint(0, 9999)
            if world:
                add('loc', (g, v), '%s = %d' % (g, v))
            else:
                add('glob', (g, v), *declare(rng, g, v))
        elif k < 13:
            g = 'lv%s' % rng.choice('abc')
            v = rng.randint(0, 9999)
            # only statements make a name global
            said = rng.choice([[]] * 5 + [['"global %s"' % g], ["'''global %s" % g, "'''"],
                                          ['# global ' + g]])
            add('loc', (g, v), *(said + ['%s = %d' % (g, v)]))
        elif k < 15:
            r[0] += 1
            t = '%s.%d' % (tag, r[0])
            add('tok', (t, a), "__import__('nxtv_sink').tok('%s', r\"\"\" ${%s} \"\"\")"
                % (t, a))
        elif k < 16 and targets and (not world or rng.random() < .5):
            ps = [rng.choice(targets) for _ in range(rng.randint(1, 2))]
            pars = []
            if rng.random() < .4:
                pars = [(rng.choice(targets + ['/']), rng.choice(names),
                         rng.randint(100, 999))]
            if starts and rng.random() < .4:
                ps = ps[0]
            src = 'execute(%s=%r%s)' % (
                'start' if isinstance(ps, str) else 'paths', ps, ', parameters=%r' % dict(('%s.%s' % (q, b), v)
                                             for q, b, v in pars) if pars else '')
            if rng.random() < .3:
                add('exec', (ps, pars, True), 'try:', '    ' + src,
                    'except Exception:', '    pass')
            else:
                add('exec', (ps, pars, False), src)
        elif k < 17:
            if rng.random() < .5:
                v = rng.choice([rng.randint(1000, 9999), gen.fresh(rng, 's'), '', None,
                                [1, rng.randint(1000, 9999)], '-5', '[2]'])
                add('stage', (a, v), 'STAGE.%s = %r' % (a, v))
            else:
                r[0] += 1
                t = '%s.%d' % (tag, r[0])
                add('seen', (t, a), "__import__('nxtv_sink').tok('%s', "
                    "repr(getattr(STAGE, '%s', 'no')))" % (t, a))
        elif wild:
            w = rng.randrange(5)
            if w == 0:
                add('exitnode', None, "raise ExitNode('enough')")
            elif w == 1:
                add('exitgraph', None, "raise ExitGraph('stop')")
            elif w == 2:
                said, src = rng.choice([
                    ("ValueError: boom", ["raise ValueError('boom')"]),
                    ("KeyError: 'boom'", ["raise KeyError('boom')"]),
                    ("with base 10: 'boom'", ["int('boom')"]),
                    ("SystemExit: boom", ["raise SystemExit('boom')"]),
                    ("ValueError: boom", ["def ff():", "    raise ValueError('boom')",
                                          "", "ff()"]),
                    ("ValueError: boom", [
                        "def hh():", "    raise ValueError('boom')", "",
                        "def gg():", "    hh()", "", "def ff():", "    gg()", "",
                        "ff()"])])
                add('raise', (said, [f for f in ('ff', 'gg', 'hh')
                                     if 'def %s():' % f in src]), *src)
            elif w == 3 and rng.random() < .5:
                add('syntax', None, 'boom = = 1')
        else:
            record()
    record()
    while rng.random() < .15:
        lines.append('')
    return lines, out


def make(c, p_wild, more=False, starts=False):
    rng = c.rng
    o = gen.Opts(instances=rng.choice([0, 0, .25]), layers=(1, 3), nodes=(2, 7),
                 exec_in=.5, enabled=.15, child_order=.2, attrs=(0, 0), depth=3,
                 code=0, world=.4)
    layers = gen.gen_layers(rng, o)
    every = sorted(set(sum((list(l) for l in layers), [])))
    progs = {}
    k = 0
    for nodes in layers:
        for p in sorted(nodes):
            d = nodes[p]
            at = {}
            for i, a in enumerate(ATTRS):
                if rng.random() < (.5 if p == '/' else .35):
                    v = value(rng, i)
                    if isinstance(v, tuple) and v[0] == 'ref':
                        t = '${%s}' % v[1] if v[3] < .6 else '${%s.%s}' % (
                            rng.choice([q for q in every if q != '/'] or ['/']), v[1])
                        v = v[2].replace('%s', t)
                    at[a] = {'value': v}
            if at:
                d['attrs'] = at
            d.pop('code', None)
            if rng.random() < .75:
                k += 1
                lines, prog = program(rng, 'P%d' % k, ATTRS,
                                      [q for q in every if q != '/'], p == '/',
                                      p_wild, p if more else None, starts)
                d['code'] = lines
                progs[lines[0]] = prog
    m = in_scope(layers)
    return layers, progs, m


def case(c, p_wild=WILD):
    rng = c.rng
    layers, progs, m = make(c, p_wild, starts=True)
    paths = nx.write_graph(c.scratch(), layers)
    stage = nx.load(paths[0])
    c.note = repr(layers)
    authored = nx.authored(stage)
    below = 0
    if len(layers) > 1 and rng.random() < .2:
        # the composition of the weaker layers
        below = rng.randrange(1, len(layers))
        m = in_scope(layers[below:])
        c.event('lower composition')
    comp = stage.build_stage(below)
    m.order_of = comp.get_exec_order
    ps = sorted(p for p in m.all_paths() if p != '/')
    if not ps:
        raise common.Skip('no nodes')
    for attempt in range(2):
        start = rng.choice(ps)
        order = comp.get_exec_order(start)
        params = []
        if rng.random() < .4:
            params = [(rng.choice(ps + ['/']), rng.choice(ATTRS),
                       rng.choice([7, '8', [9], 'par', None, '${z}']))
                      for _ in range(rng.randint(1, 2))]
            params = [(p, a, v) for p, a, v in params if a != 'z' or v != '${z}']
            if rng.random() < .2:
                # neither stops those that come after it
                params.insert(rng.randrange(len(params) + 1),
                              rng.choice([('/nowhere', 'a', 1), (None, 'a', 1)]))
        sim, end = predict(m, progs, order, params)
        got, rt, err = run(stage, start, params, below)
        what = lambda: ('start %s' % start, params, layers)
        compare(c, m, sim, end, got, rt, err, what, stage, order)
        c.equal(nx.authored(stage), authored, 'running leaves authored data alone',
                what)
        if params and not isinstance(end, XError):
            c.event('parameter applied')
        if rng.random() < .5:
            got2, _, _ = run(stage, start, params, below)
            c.equal(got2, got, 'second run repeats the first', what)
        if end is None and len(order) > 1 and rng.random() < .6:
            cut = rng.randrange(1, len(order))
            del LOG[:]
            with common.quiet():
                rt = stage.execute_nodes(order[:cut], stage.build_stage(below),
                                         pdict(params))
                c.check(rt.runtime, 'runtime layer')
                rt2 = stage.execute_nodes(order[cut:], rt)
            c.check(rt2 is rt, 'continued run keeps its layer')
            c.equal(LOG[:], got, 'continued run', what)
    # no start given
    if not below and rng.random() < .2:
        points = [p for p in ps if m.strongest(p, 'start_point')[0]]
        del LOG[:]
        try:
            with common.quiet():
                stage.execute()
            err = None
        except Exception as e:
            err = e
        if not points:
            c.check(isinstance(err, ValueError), 'no start, no start points', err)
        else:
            logs = []
            for p in points:
                s, _ = predict(m, progs, comp.get_exec_order(p), [])
                logs.append(s.log)
            c.check(LOG in logs, 'default start is a start point', lambda: layers)
    try:
        stage.execute('/not/there')
        c.fail('missing start node raises')
    except ValueError:
        pass
    c.sample({'layers': layers})


def pdict(params):
    return dict((5 if p is None else '%s.%s' % (p, a), v)
                for p, a, v in params) or None


def predict(m, progs, order, params):
    sim = Sim(m, progs)
    for p, a, v in params:
        if p in m.all_paths() or p == '/':
            sim.over.setdefault(p, {})[a] = str(v)
    end = None
    try:
        sim.world()
        sim.run_nodes(order)
    except (XGraph, XError) as e:
        end = e
    return sim, end


def run(stage, start, params, below=0):
    del LOG[:]
    rt = err = None
    with common.quiet():
        try:
            rt = stage.execute(start, parameters=pdict(params),
                               layer=stage.build_stage(below) if below else None)
        except Exception as e:
            err = e
            rt = getattr(e, 'runtime_layer', None)
    return LOG[:], rt, err


def compare(c, m, sim, end, got, rt, err, what, stage, order):
    from nxt import runtime
    if sim.log != got:
        n = 0
        while n < min(len(sim.log), len(got)) and sim.log[n] == got[n]:
            n += 1
        c.check(False, 'what node code saw', lambda: (
            'entry %d' % n, 'expected', sim.log[n:n + 1], 'got', got[n:n + 1], err,
            what()))
    c.event('run')
    c.sig(tuple(got))
    for e in got:
        if e[0] == 'rec':
            c.event('attributes read')
            if any(k.startswith('gv') for k, _ in e[3]):
                c.event('global kept')
        else:
            c.event('token in code')
    if sim.seen_change:
        c.event('change seen by another node')
    if sim.from_start:
        c.event('nested run from a start')
    if len(sim.ran) > len(order):
        c.event('nested run')
    if '/' in m.specs and sim.code('/') and got:
        c.event('world code ran first')
    for p in sim.ran:
        if any(s[0] == 'loc' for l in sim.code(p)[:1] for s in sim.progs[l]):
            c.event('local dropped')
        if any(s[0] == 'stage' for l in sim.code(p)[:1] for s in sim.progs[l]):
            c.event('set on the layer node')
        if any(s[0] == 'exitnode' for l in sim.code(p)[:1] for s in sim.progs[l]):
            c.event('node left early')
    if end is None:
        c.check(err is None, 'run ends well', lambda: (repr(err), what()))
    elif isinstance(end, XGraph):
        c.check(isinstance(err, runtime.ExitGraph), 'graph left early',
                lambda: (repr(err), what()))
        c.check(rt is not None, 'leaving the graph hands over the runtime layer', what)
    else:
        kind = runtime.GraphSyntaxError if isinstance(end, XSyntax) \
            else runtime.GraphError
        c.check(isinstance(err, kind), 'syntax error reported'
                if isinstance(end, XSyntax) else 'error reported',
                lambda: (repr(err), what()))
        text = str(err)
        if end.said:
            c.check(text.rstrip().endswith(end.said), 'error says what was raised',
                    lambda: (end.said, text, what()))
            for f in end.via:
                c.check(', in %s\n' % f in text, 'error says through what',
                        lambda: (f, text, what()))
        for p, n, line in end.at:
            c.check('line %d, in %s\n' % (n, p) in text, 'error names node and line',
                    lambda: (p, n, text, what()))
            if not isinstance(end, XSyntax) or len(end.at) > 1:
                if '${' not in line and 'boom = =' not in line:
                    c.check(line in text, 'error quotes the line',
                            lambda: (line, text, what()))
        return
    if rt is None:
        return
    # what the runtime layer holds
    for p in sorted(m.all_paths()):
        node = rt.lookup(p)
        want = sim.names(p)
        have = set(stage.get_node_attr_names(node))
        c.check(want <= have, 'runtime attributes', lambda: (p, want, have, what()))
        for a in want:
            g = getattr(node, a)
            w = sim.raw(p, a)
            c.equal(frozen(g), frozen(w), 'runtime state', lambda: (p, a, what()))
    for p in sorted(set(sim.ran)):
        c.check(rt.cache_layer.lookup(p) is not None, 'cache holds what ran', what)
        times = rt.cache_layer.node_time_map[p]
        c.equal(len(times), sim.ran.count(p), 'one timing per run', what)
        c.check(all(len(t) == 2 and t[1] >= t[0] for t in times), 'timings closed', what)
    c.check(set(rt.cache_layer.nodes) <= set(sim.ran) | set(['/']),
            'cache holds only what ran', what)
