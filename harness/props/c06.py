"""A live composition that follows edits is the composition built afresh."""
import model
import gen
import nx
import common
from props.c04 import in_scope
from props.c07 import check_tree

RULE = """Histories of edits given a live composition to keep current. Without
instances: nodes added and deleted, attributes set and created, code, enabled and
child order set (3-10 steps). With instances: attributes, code and enabled, at any
layer, and nodes of fresh names added anywhere. After every step the live composition is compared with one built from
scratch. Non-trivial when an edit changed the composition; distinct by the sequence
of (edit, layer, path)."""
ASSUMPTIONS = [
    """Child order of the live composition is not compared: which of several layers'
    orders wins after a live edit is a display matter that nxt leaves to the next
    full build. The children themselves are.""",
    """Edits are made on layers that take part in the composition (are not muted); what
    an edit of another layer does to the file is for C05.""",
    """Deletions leave no node without its parent; live instance changes are out of
    scope.""",
]
COUNT = {'quick': 3000, 'thorough': 40000}
MIN = {'live composition equals a rebuild': 1500, 'live children equal a rebuild': 1000,
       'did: add': 150, 'did: over': 100, 'did: delete': 150, 'did: attr_set': 100,
       'did: attr_create': 150, 'did: code': 100, 'did: enabled': 100,
       'with instances': 80, 'edit showed': 1000,
       'some layers muted': 80, 'changed node reported': 1000,
       'reported node that depends on another': 50}


def comparable(v):
    for p in v:
        if v[p]:
            v[p].pop('child_order', None)
    return v


class Hist(object):
    def __init__(self, c, stage, instances):
        self.c, self.rng, self.stage = c, c.rng, stage
        self.layers = nx.nxt_layer.get_active_layers(nx.layers_of(stage))
        self.comp = stage.build_stage()
        self.inst = instances
        self.n = 0
        self.log = []

    def value(self):
        self.n += 1
        return self.rng.choice(['nv%d' % self.n, [self.n], {'k': self.n}, self.n])

    def add(self, i):
        parent = '/'
        if self.rng.random() < .7:
            parent = self.rng.choice(sorted(nx.all_paths(self.comp)) or ['/'])
        if parent.count('/') > 5:
            return None
        name = self.rng.choice(gen.NAMES)
        if self.inst:
            # A name that instances of the parent already have is another matter
            self.n += 1
            name = 'new%d' % self.n
        data = {}
        if self.rng.random() < .5:
            data = gen.gen_node(self.rng, gen.Opts(exec_in=0, child_order=0),
                                '/x/y', [], [])
        before = set(nx.all_paths(self.comp))
        nodes, self.dirty = self.stage.add_node(
            name=name, data=data, parent=parent, layer=self.layers[i],
            comp_layer=self.comp)
        path = self.layers[i].get_node_path(nodes[0])
        self.c.check(path not in before, 'added name was free', path)
        return path

    def over(self, i):
        """A local opinion on a node other layers made."""
        lay = self.layers[i]
        ps = [p for p in sorted(nx.all_paths(self.comp))
              if p != '/' and lay.lookup(p) is None]
        if not ps:
            return None
        p = self.rng.choice(ps)
        data = {}
        if self.rng.random() < .5:
            data = gen.gen_node(self.rng, gen.Opts(exec_in=0, child_order=0),
                                '/x/y', [], [])
        nodes, self.dirty = self.stage.add_node(
            name=model.name_of(p), data=data, parent=model.parent_of(p), layer=lay,
            comp_layer=self.comp, fix_names=False)
        return p

    def delete(self, i, p):
        lay = self.layers[i]
        others = [l for l in self.layers if l is not lay]
        sub = [x for x in nx.all_paths(lay) if x == p or x.startswith(p + '/')]
        gone = [x for x in sub
                if not any(l.lookup(x) is not None for l in others)]
        for x in gone:
            for l in others:
                if any(y.startswith(x + '/') for y in nx.all_paths(l)):
                    return None
        ok, self.dirty = self.stage.delete_node(
            lay.lookup(p), lay, comp_layer=self.comp, delete_descendants=True,
            other_removed_nodes=list(sub))
        self.c.check(ok, 'delete succeeded')
        return p

    def attr_set(self, i, p):
        node = self.layers[i].lookup(p)
        d = self.layers[i].get_save_data()['nodes'][p].get('attrs')
        if not d:
            return None
        a = self.rng.choice(sorted(d))
        self.stage.node_setattr_data(node, a, self.layers[i], create=False,
                                     comp_layer=self.comp, value=self.value())
        return p + '.' + a

    def attr_create(self, i, p):
        a = self.rng.choice(['q1', 'q2', 'q3'])
        d = self.layers[i].get_save_data()['nodes'][p].get('attrs') or {}
        if a in d:
            return None
        self.stage.node_setattr_data(self.layers[i].lookup(p), a, self.layers[i],
                                     create=True, comp_layer=self.comp,
                                     value=self.value())
        return p + '.' + a

    def code(self, i, p):
        lines = self.rng.choice([[], ['# n%d' % self.n], ['a', '', 'b']])
        self.stage.set_node_code_lines(self.layers[i].lookup(p), lines, self.comp)
        return p

    def enabled(self, i, p):
        v = self.rng.random() < .5
        self.dirty = [p] + self.stage.node_setattr_data(
            self.layers[i].lookup(p), nx.IA.ENABLED, self.layers[i], create=False,
            comp_layer=self.comp, value=v)
        return p

    def child_order(self, i, p):
        node = self.layers[i].lookup(p)
        co = list(getattr(node, nx.IA.CHILD_ORDER))
        self.rng.shuffle(co)
        self.stage.set_node_child_order(node, co, self.layers[i],
                                        comp_layer=self.comp)
        return p

    PLAIN = ['add', 'add', 'over', 'over', 'delete', 'delete', 'attr_set', 'attr_create', 'code',
             'enabled', 'child_order']
    INST = ['attr_set', 'attr_create', 'code', 'enabled', 'add', 'add']

    def warm(self):
        """Fill the caches the edits have to keep current."""
        for p in self.rng.sample(sorted(nx.all_paths(self.comp)),
                                 min(3, len(nx.all_paths(self.comp)))):
            self.comp.children(p)
            self.comp.children(p, return_type=nx.R.Path, ordered=True)
            self.comp.get_node_dirties(p)

    def step(self):
        i = self.rng.randrange(len(self.layers))
        op = self.rng.choice(self.INST if self.inst else self.PLAIN)
        self.doing = (op, i)
        self.dirty = None
        before = self.look == 1 and comparable(nx.view(self.stage, self.comp))
        if self.rng.random() < .7:
            self.warm()
        if op in ('add', 'over'):
            did = getattr(self, op)(i)
        else:
            ps = [p for p in sorted(nx.all_paths(self.layers[i])) if p != '/']
            if not ps:
                return
            p = self.rng.choice(ps)
            self.doing += (p,)
            did = getattr(self, op)(i, p)
        if not did:
            return
        self.c.event('did: ' + op)
        self.log.append((op, i, did))
        if before and self.dirty is not None:
            self.reported(op, before)
        if self.rng.random() < self.look:
            self.compare()

    def reported(self, op, before):
        """Who shows the graph is told of every node that looks different now."""
        after = comparable(nx.view(self.stage, self.comp))
        told = set(self.dirty)
        for p in after:
            if after[p] == before.get(p):
                continue
            # what hangs below a node that is named is not named again
            q = p
            while op in ('over', 'delete') and q not in told and q != '/':
                q = model.parent_of(q)
            self.c.check(q in told, 'changed node reported', lambda: (
                p, self.dirty, nx.diff_views({p: before.get(p)}, {p: after[p]})))
            if op == 'enabled' and len(told) > 1:
                self.c.event('reported node that depends on another')

    def compare(self):
        c = self.c
        fresh = self.stage.build_stage()
        want = comparable(nx.view(self.stage, fresh))
        got = comparable(nx.view(self.stage, self.comp))
        c.check(got == want, 'live composition equals a rebuild',
                lambda: nx.diff_views(got, want))
        for p in list(want) + ['/']:
            c.equal(set(self.comp.children(p, return_type=nx.R.Path)),
                    set(fresh.children(p, return_type=nx.R.Path)),
                    'live children equal a rebuild', p)
            if len(self.layers) == 1 and not self.inst and self.comp.lookup(p):
                c.equal(self.comp.children(p, return_type=nx.R.Path, ordered=True),
                        fresh.children(p, return_type=nx.R.Path, ordered=True),
                        'live order equals a rebuild', p)
        check_tree(c, self.comp, False)
        if want != self.last:
            c.event('edit showed')
            self.last = want


def case(c):
    rng = c.rng
    inst = rng.random() < .5
    o = gen.Opts(instances=.35 if inst else 0, layers=(1, 3), nodes=(1, 6), depth=3)
    layers = gen.gen_layers(rng, o)
    muted = []
    if len(layers) > 1 and rng.random() < .25:
        muted = rng.sample(range(len(layers)), rng.randint(1, len(layers) - 1))
        c.event('some layers muted')
    m = in_scope([l for i, l in enumerate(layers) if i not in muted])
    if inst and not any(m.inst.values()):
        raise common.Skip('no instance')
    paths = nx.write_graph(c.scratch(), layers)
    stage = nx.load(paths[0])
    for i in muted:
        nx.layers_of(stage)[i].set_muted(True)
    c.note = repr((layers, muted))
    h = Hist(c, stage, inst)
    h.last = None
    h.look = rng.choice([1, .5, 0])
    h.doing = ''
    if inst:
        c.event('with instances')
    try:
        for _ in range(rng.randint(3, 10)):
            h.step()
        h.compare()
    except common.Violation as e:
        raise common.Violation('%s\n history: %s\n doing: %s\n layers: %s' % (
            e, h.log, h.doing, layers), e.key)
    c.sig(tuple(h.log))
    c.sample({'history': h.log, 'layers': layers})
