"""Sessions keep the graphs opened in them apart."""
import copy
import os
import common
import gen
import nx
from nxt.session import Session

RULE = """Histories of 5-25 calls on one session: new graphs, loads (absolute, by a
folder up and down, by a link, relative), asking for a graph by path, edits, saves in
place and under new paths and through the layer, unloads, runs of whole graphs and of
lists of nodes, and calls that must fail (missing files, files that are not graphs,
unknown ids, paths of no open graph). After every call the graphs listed, the content of
every open graph and the bytes of every file are compared with a model that keeps, for
each open graph, its path and its edits. Non-trivial when at least four kinds of call
were made with two graphs open; distinct by the sequence of calls."""
ASSUMPTIONS = [
    """Where a path has been opened twice, any of those graphs may answer for it.""",
    """New graphs that were never saved have no path and are saved through their layer.""",
]
COUNT = {'quick': 3000, 'thorough': 30000}
MIN = {'the graphs opened are the ones listed': 5000, 'open graphs keep their content': 8000,
       'files on disk': 5000, 'open graph found by its path': 300,
       'graph not open is loaded': 100, 'new name is no open name': 200,
       'saved graph is in its file': 300, 'saved under a new path': 100,
       'nothing saved for an unknown path': 60, 'unknown id refused': 60,
       'bad load refused': 60, 'runs what is open': 150, 'did: unload': 100,
       'old path is free again': 30,
       'new graph named after its file': 150}


class Hist(object):
    def __init__(self, c, d):
        self.c, self.rng, self.d = c, c.rng, d
        self.s = Session()
        self.open = []          # [stage, real path or None, {node: value}]
        self.disk = {}          # path: {node: value}
        self.names = ['g%d' % i for i in range(c.rng.randint(1, 4))]
        # the same names in other folders
        for sub in ('x', 'x/y', 'G'):
            if c.rng.random() < .4:
                os.makedirs(os.path.join(d, sub))
                self.names.append(sub + '/' + c.rng.choice(self.names[:1]))
        self.n = 0
        self.log = []
        for n in self.names:
            self.write(os.path.join(d, n + '.nxt'))

    def value(self):
        self.n += 1
        return 'v%d' % self.n

    def write(self, p):
        nodes = {'/n': self.value()}
        if self.rng.random() < .5:
            nodes['/n/k'] = self.value()
        nx.dump(p, {'version': nx.VERSION, 'nodes': dict(
            (q, {'attrs': {'x': {'value': v}}}) for q, v in nodes.items())})
        self.disk[p] = nodes

    def spelled(self, p):
        """Ways to say a path."""
        d, name = os.path.split(p)
        k = self.rng.randrange(5)
        if k == 0:
            os.makedirs(os.path.join(d, 'sub'), exist_ok=True)
            return os.path.join(d, 'sub', '..', name)
        if k == 1:
            link = os.path.join(d, 'link')
            if not os.path.islink(link):
                os.symlink(d, link)
            return os.path.join(link, name)
        if k == 2:
            os.chdir(d)
            return name
        if k == 3:
            os.environ['NXTV_DIR'] = d
            return '$NXTV_DIR/' + name
        return p

    def at(self, p):
        return [g for g in self.open if g[1] == p]

    def content(self, stage):
        lay = stage.top_layer
        return dict((q, lay.lookup(q).x) for q in nx.all_paths(lay))

    # calls
    def new(self):
        names = [g[0]._name for g in self.open]
        st = self.s.new_file()
        self.c.check(st._name not in names, 'new name is no open name',
                     lambda: (st._name, names))
        self.open.append([st, None, {}])
        return 'new'

    def load(self):
        p = self.rng.choice(sorted(self.disk))
        st = self.s.load_file(self.spelled(p))
        self.c.check(not any(g[0] is st for g in self.open), 'load gives a new graph')
        self.open.append([st, p, dict(self.disk[p])])
        return 'load ' + p

    def get(self):
        p = self.rng.choice(sorted(self.disk))
        st = self.s.get_stage(self.spelled(p))
        have = self.at(p)
        if have:
            self.c.check(any(g[0] is st for g in have), 'open graph found by its path',
                         lambda: (p, self.log))
        else:
            self.c.check(not any(g[0] is st for g in self.open),
                         'graph not open is loaded', lambda: (p, self.log))
            self.open.append([st, p, dict(self.disk[p])])
        return 'get ' + p

    def edit(self):
        if not self.open:
            return None
        g = self.rng.choice(self.open)
        v = self.value()
        if g[2] and self.rng.random() < .5:
            q = self.rng.choice(sorted(g[2]))
            g[0].node_setattr_data(g[0].top_layer.lookup(q), 'x', g[0].top_layer,
                                   create=False, value=v)
        else:
            self.n += 1
            q = '/n%d' % self.n
            g[0].add_node(q[1:], data={'attrs': {'x': {'value': v}}}, layer=0)
        g[2][q] = v
        return 'edit %s' % self.open.index(g)

    def saved(self, p, choice):
        """p now holds one of these graphs."""
        nodes = dict((q, a['attrs']['x']['value'])
                     for q, a in nx.read(p).get('nodes', {}).items())
        self.c.check(any(nodes == g[2] for g in choice), 'saved graph is in its file',
                     lambda: (p, nodes, [g[2] for g in choice]))
        self.disk[p] = nodes
        self.sums[p] = self.sum(p)
        return [g for g in choice if g[2] == nodes]

    def save(self):
        ps = sorted(set(g[1] for g in self.open if g[1]))
        if not ps:
            return None
        p = self.rng.choice(ps)
        have = self.at(p)
        if self.rng.random() < .6:
            self.c.equal(self.s.save_file(self.spelled(p)), True, 'save says it saved')
            self.saved(p, have)
            return 'save ' + p
        if len(have) > 1:
            return None         # which one is up to the session
        self.n += 1
        new = os.path.join(self.d, self.rng.choice(['s%d.nxt', 's%d.v1.nxt']) % self.n)
        if self.rng.random() < .2:
            new = os.path.join(self.d, self.rng.choice(self.names) + '.nxt')
            if new == p:
                return None
        old = self.spelled(p)
        said = self.spelled(new)
        if not os.path.isabs(said) and not os.path.isabs(old):
            old = p
        self.c.equal(self.s.save_file(old, said), True, 'save says it saved')
        self.saved(new, have)
        have[0][1] = new
        self.c.event('saved under a new path')
        self.left = p
        return 'save %s as %s' % (p, new)

    def save_layer(self):
        if not self.open:
            return None
        g = self.rng.choice(self.open)
        p = g[1]
        if p is None:
            self.n += 1
            p = os.path.join(self.d, self.rng.choice(['s%d.nxt', 's.%d.nxt']) % self.n)
            self.s.save_layer(g[0].top_layer, self.spelled(p))
            g[1] = p
            self.c.equal(g[0]._name, os.path.basename(p)[:-4],
                         'new graph named after its file', p)
        else:
            self.s.save_layer(g[0].top_layer)
        self.saved(p, [g])
        return 'save layer ' + p

    def unload(self):
        if not self.open:
            return None
        g = self.rng.choice(self.open)
        self.s.unload_file(g[0].uid)
        self.open.remove(g)
        self.gone = g[0].uid
        return 'unload'

    gone = 12.5
    left = None

    def wrong(self):
        c, rng = self.c, self.rng
        k = rng.randrange(4)
        if k == 0:
            try:
                self.s.unload_file(self.gone)
            except LookupError:
                c.event('unknown id refused')
            else:
                c.fail('unknown id accepted %r' % self.gone)
        elif k == 1:
            for g in self.open:
                if g[1] == self.left:
                    return None
            p = self.left or os.path.join(self.d, 'never.nxt')
            if self.left:
                c.event('old path is free again')
            c.equal(self.s.save_file(p), False, 'nothing saved for an unknown path')
        elif k == 2:
            p = os.path.join(self.d, 'never.nxt')
            c.equal(self.s.save_file(p, os.path.join(self.d, 'out.nxt')), False,
                    'nothing saved for an unknown path')
        else:
            p = rng.choice(['missing.nxt', 'text.txt', 'folder.nxt'])
            f = os.path.join(self.d, p)
            if p == 'text.txt':
                with open(f, 'w') as fp:
                    fp.write('{}')
                self.sums[f] = self.sum(f)
            elif p == 'folder.nxt':
                os.makedirs(f, exist_ok=True)
            fn = rng.choice([self.s.load_file, self.s.get_stage])
            try:
                fn(f)
            except (IOError, OSError):
                c.event('bad load refused')
            else:
                c.fail('bad load accepted %s' % p)
        return 'wrong %d' % k

    def run(self):
        p = self.rng.choice(sorted(self.disk))
        have = self.at(p)
        path = self.spelled(p)
        nodes = [g[2] for g in have] or [dict(self.disk[p])]
        start = self.rng.choice(sorted(nodes[0]) or [None])
        if start is None or any(start not in n for n in nodes):
            return None
        if self.rng.random() < .6:
            rt = self.s.execute_graph(path, start)
        else:
            rt = self.s.execute_nodes(path, [start])
        if not have:
            new = [st for st in self.s.loaded_files.values()
                   if not any(g[0] is st for g in self.open)]
            self.c.equal(len(new), 1, 'graph not open is loaded', p)
            self.open.append([new[0], p, dict(self.disk[p])])
        got = rt.cache_layer.lookup(start).x
        self.c.check(any(got == n[start] for n in nodes), 'runs what is open',
                     lambda: (p, got, nodes))
        return 'run %s %s' % (p, start)

    CALLS = ['new', 'load', 'load', 'get', 'get', 'edit', 'edit', 'edit', 'save',
             'save', 'save_layer', 'unload', 'wrong', 'run']

    @staticmethod
    def sum(p):
        with open(p, 'rb') as fp:
            return fp.read()

    def files(self):
        out = {}
        for at, _, names in os.walk(self.d):
            for n in names:
                f = os.path.join(at, n)
                out[f] = self.sum(f)
        return out

    def step(self):
        c = self.c
        op = self.rng.choice(self.CALLS)
        self.doing = op
        done = getattr(self, op)()
        if not done:
            return
        c.event('did: ' + op)
        self.log.append(done)
        listed = self.s.loaded_files
        c.equal(sorted(map(id, listed.values())), sorted(id(g[0]) for g in self.open),
                'the graphs opened are the ones listed')
        for uid, st in listed.items():
            c.equal(st.uid, uid, 'listed under its id')
        for g in self.open:
            c.equal(self.content(g[0]), g[2], 'open graphs keep their content')
        c.check(self.files() == self.sums, 'files on disk',
                lambda: [f for f in set(self.files()) | set(self.sums)
                         if self.files().get(f) != self.sums.get(f)])


def case(c):
    d = c.scratch()
    cwd = os.getcwd()
    h = Hist(c, d)
    h.sums = h.files()
    h.doing = ''
    most = 0
    try:
        for _ in range(c.rng.randint(5, 25)):
            h.step()
            most = max(most, len(h.open))
    except Exception as e:
        if isinstance(e, common.Skip):
            raise
        import traceback
        raise common.Violation('%s\n  %s\n history: %s\n doing: %s' % (
            e, '' if isinstance(e, common.Violation) else
            traceback.format_exc()[-900:], h.log, h.doing), getattr(e, 'key', None))
    finally:
        os.chdir(cwd)
    if most > 1 and len(set(x.split()[0] for x in h.log)) > 3:
        c.sig(tuple(x.split()[0] for x in h.log))
    c.sample({'history': h.log})
