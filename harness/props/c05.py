"""Edit histories on authored layers."""
import copy
import model
import gen
import nx
import edits
import common

RULE = """Histories of 3-25 random edits (add, delete, rename, reparent, duplicate,
attribute add/set/rename/delete, comment, code, enabled, start point, execute-in,
instance, child order, transfer of all data, deletes undone) spread
over the layers of a random 1-3 layer stage, muted and soloed ones too, checked against a model after every edit,
and the whole stage against its saved-and-reloaded self at the end. Non-trivial when
at least three different kinds of edit applied; distinct by the sequence of kinds."""
ASSUMPTIONS = ["Edits here are made without a live composition (C06 covers those)."]
COUNT = {'quick': 1500, 'thorough': 20000}
MIN = {'layer data after edit': 3000, 'other layers untouched': 1500,
       'reload composes the same': 150, 'did: rename': 200, 'did: reparent': 100,
       'did: duplicate': 100, 'did: delete': 200, 'did: add': 300,
       'did: internal': 200, 'did: code': 100, 'did: gap': 40, 'did: hierarchy': 100,
       'did: no_instance': 100, 'did: nested': 100, 'did: far_duplicate': 100,
       'did: transfer': 100, 'layout followed its node': 150,
       'layout of other nodes untouched': 3000,
       'edited a layer that does not count': 400,
       'layout followed a descendant': 30, 'type told of a set value': 60}

# text set on an attribute and the type it is said to have
TYPED = {'7': 'int', '[3, 4]': 'list', "'q'": 'str', '1.5': 'float', 'None': 'NoneType',
         '{"k": 1}': 'dict', 'x y': 'raw', '(1, 2)': 'tuple', 'True': 'bool'}


class Hist(object):
    def __init__(self, c, stage, layers):
        self.c = c
        self.rng = c.rng
        self.stage = stage
        self.layers = nx.layers_of(stage)
        self.models = [edits.LayerModel(n) for n in layers]
        self.log = []
        self.moved, self.gone = [], []
        self.transferred = False
        self.maybe = set()
        self.muted = False

    def comp_paths(self, i):
        """Names that are taken for an edit of layer i."""
        comp = set(nx.all_paths(self.stage.build_stage())) | set(self.models[i].nodes)
        # what only layers that do not count (muted) have: taken or not
        self.maybe = self.taken() - comp
        return comp

    def taken(self):
        return set(p for m in self.models for p in m.nodes)

    def pick(self, i, world=False):
        ps = [p for p in sorted(self.models[i].nodes) if world or p != '/']
        return self.rng.choice(ps) if ps else None

    def unique(self, got_name, wanted, parent, before, msg):
        """The name the stage settled on is legal, free, and the wanted one when
        that was free."""
        want = edits.legal(wanted)
        if want == '__name__':      # every python object has one
            want += '1'
        c = self.c
        c.equal(edits.legal(got_name), got_name, 'name is legal', msg)
        c.check(model.join(parent, got_name) not in before, 'name is free', msg)
        if model.join(parent, want) not in before | self.maybe:
            c.equal(got_name, want, 'free name kept', msg)
        elif got_name != want:
            c.check(got_name.startswith(want) and got_name[len(want):].isdigit(),
                    'taken name numbered', msg)

    # edits: each returns a description, or None when it does not apply
    def add(self, i):
        rng, c, m = self.rng, self.c, self.models[i]
        parent = '/'
        if rng.random() < .7:
            parent = self.pick(i) or '/'
        if parent.count('/') > 5:
            return None
        name = rng.choice(gen.NAMES + edits.ILLEGAL + ['__name__'])
        data = {}
        if rng.random() < .6:
            data = gen.gen_node(rng, gen.Opts(exec_in=0, child_order=0),
                                '/x/y', [], [])
        before = self.comp_paths(i)
        arg = parent
        if parent == '/':
            arg = rng.choice(['/', None])
        elif rng.random() < .5:
            arg = self.layers[i].lookup(parent)
        lay = self.layers[i] if rng.random() < .5 else i
        nodes, dirty = self.stage.add_node(name=name, data=copy.deepcopy(data),
                                           parent=arg, layer=lay)
        path = self.layers[i].get_node_path(nodes[0])
        self.unique(model.name_of(path), name, parent, before,
                    ('add', parent, name))
        c.equal(model.parent_of(path), parent, 'added under its parent')
        c.check(path in dirty, 'added node reported')
        m.add(path, data)
        return 'add %s' % path

    def delete(self, i):
        p = self.pick(i)
        if not p:
            return None
        m = self.models[i]
        sub = edits.subtree(m.nodes, p)
        deep = len(sub) > 1 or self.rng.random() < .5
        ok, dirty = self.stage.delete_node(self.layers[i].lookup(p),
                                           self.layers[i],
                                           delete_descendants=deep)
        self.c.check(ok, 'delete succeeded')
        self.c.equal(set(dirty), set(sub), 'deleted nodes reported')
        self.gone = sub
        m.delete(p)
        return 'delete %s' % p

    def stray_delete(self, i):
        """A node whose parent no layer authored goes with its ancestor."""
        p = self.pick(i)
        if not p or p.count('/') > 4:
            return None
        lay, m = self.layers[i], self.models[i]
        mid = model.join(p, 'gap_' + str(len(self.log)))
        if mid in self.taken():
            return None
        self.stage.add_node(name='far', parent=mid, layer=lay)
        sub = edits.subtree(m.nodes, p)
        ok, dirty = self.stage.delete_node(lay.lookup(p), lay,
                                           delete_descendants=True)
        self.c.check(ok, 'delete succeeded')
        self.c.equal(set(dirty), set(sub + [mid + '/far']),
                     'deleted nodes reported')
        self.gone = sub
        m.delete(p)
        return 'stray_delete %s' % p

    def rename(self, i):
        p = self.pick(i)
        if not p:
            return None
        m, rng = self.models[i], self.rng
        name = rng.choice(gen.NAMES + edits.ILLEGAL + ['__name__'])
        par = model.parent_of(p)
        if edits.legal(name) == model.name_of(p):
            return None
        before = self.comp_paths(i)
        new = self.stage.set_node_name(self.layers[i].lookup(p), name,
                                       self.layers[i])
        self.unique(model.name_of(new), name, par, before, ('rename', p, name))
        self.c.equal(model.parent_of(new), par, 'renamed in place')
        self.moved = [(p, new, True)]
        m.move(p, new)
        return 'rename %s %s' % (p, new)

    def reparent(self, i):
        m, rng = self.models[i], self.rng
        p = self.pick(i)
        if not p:
            return None
        to = rng.choice(['/', self.pick(i)])
        group = [p]
        if rng.random() < .3:
            q = self.pick(i)
            if not any(q == x or model.is_desc(q, x) or model.is_desc(x, q)
                       for x in group):
                group.append(q)
        for x in group:
            if to == x or (to != '/' and model.is_desc(to, x)) or \
                    model.parent_of(x) == to:
                return None
        before = self.comp_paths(i)
        nodes = [self.layers[i].lookup(x) for x in group]
        res = self.stage.parent_nodes(nodes, to, self.layers[i])
        self.c.equal(set(res), set(group), 'reparented nodes reported')
        for x in group:
            new = res[x]
            self.c.equal(model.parent_of(new), to, 'reparented where asked')
            self.unique(model.name_of(new), model.name_of(x), to, before,
                        ('reparent', group, to))
            self.moved.append((x, new, False))
            m.move(x, new)
            before.add(new)
        return 'reparent %s %s' % (group, to)

    def duplicate(self, i):
        p = self.pick(i)
        if not p:
            return None
        m = self.models[i]
        before = self.comp_paths(i)
        sub = sorted(edits.subtree(m.nodes, p))
        if len(sub) > 6:
            return None
        deep = self.rng.random() < .7
        made, dirty = self.stage.duplicate_node(self.layers[i].lookup(p),
                                                self.layers[i],
                                                descendants=deep)
        paths = [self.layers[i].get_node_path(n) for n in made]
        new = paths[0]
        self.unique(model.name_of(new), model.name_of(p), model.parent_of(p),
                    before, ('duplicate', p))
        want = [new + q[len(p):] for q in (sub if deep else [p])]
        self.c.equal(sorted(paths), want, 'duplicated nodes',
                     ('duplicate', p, m.nodes), None)
        for q in (sub if deep else [p]):
            m.add(new + q[len(p):], m.nodes[q])
        return 'duplicate %s %s' % (p, new)

    def attr_add(self, i):
        p = self.pick(i, True)
        if not p:
            return None
        a = self.rng.choice(gen.ATTRS + ['my attr', '2x', 'attr', '_name', 'x2'])
        node = self.layers[i].lookup(p)
        attrs = self.models[i].nodes[p]['attrs']
        data = {'value': gen.fresh(self.rng)}
        if self.rng.random() < .3:
            data['comment'] = gen.fresh(self.rng, 'ac')
        got = self.stage.add_node_attr(node, a, dict(data), self.layers[i])
        c = self.c
        c.equal(edits.legal(got), got, 'attribute name is legal', a)
        c.check(got not in attrs, 'attribute name is free', (a, got, attrs))
        c.check(got not in nx.IA.PROTECTED, 'attribute name is not reserved', got)
        w = edits.legal(a)
        if w not in attrs and w not in nx.IA.PROTECTED:
            c.equal(got, w, 'free attribute name kept')
        attrs[got] = data
        return 'attr_add %s %s' % (p, got)

    def pick_attr(self, i):
        ps = [p for p in sorted(self.models[i].nodes)
              if self.models[i].nodes[p]['attrs']]
        if not ps:
            return None, None
        p = self.rng.choice(ps)
        return p, self.rng.choice(sorted(self.models[i].nodes[p]['attrs']))

    def attr_set(self, i):
        p, a = self.pick_attr(i)
        if not p:
            return None
        node = self.layers[i].lookup(p)
        e = self.models[i].nodes[p]['attrs'][a]
        if self.rng.random() < .3:
            v = gen.fresh(self.rng, 'ac')
            self.stage.node_setattr_comment(node, a, self.layers[i], comment=v)
            e['comment'] = v
        else:
            v = self.rng.choice([gen.fresh(self.rng), 12, [1, 2], {'k': 'v'},
                                 gen.fresh(self.rng, '${x} '), 0, False, ' ', '\n',
                                 ' 5 ', '\tx '] +
                                sorted(TYPED))
            self.stage.node_setattr_data(node, a, self.layers[i], create=False,
                                         value=v)
            e['value'] = v
            if isinstance(v, str):
                self.c.equal(getattr(node, a + nx.nxt_node.META_ATTRS.TYPE),
                             TYPED.get(v, 'raw'), 'type told of a set value', v)
        return 'attr_set %s %s' % (p, a)

    def attr_create(self, i):
        p = self.pick(i)
        if not p:
            return None
        attrs = self.models[i].nodes[p]['attrs']
        a = self.rng.choice(['q1', 'q2', 'q3'])
        if a in attrs:
            return None
        v = gen.fresh(self.rng)
        node = self.layers[i].lookup(p)
        self.stage.node_setattr_data(node, a, self.layers[i], create=True, value=v)
        attrs[a] = {'value': v}
        return 'attr_create %s %s' % (p, a)

    def attr_rename(self, i):
        p, a = self.pick_attr(i)
        if not p:
            return None
        attrs = self.models[i].nodes[p]['attrs']
        b = self.rng.choice([x for x in gen.ATTRS + ['r1', 'r2', 'a--b', '1 c', 'r7']
                             if x != a])
        want, c = edits.legal(b), self.c
        if want == a:
            return None
        node = self.layers[i].lookup(p)
        T = nx.nxt_node.META_ATTRS.TYPE
        told = node.__dict__.get(a + T)
        self.stage.rename_node_attr(node, a, b, self.layers[i])
        got = edits.saved_view(self.layers[i])[p]['attrs']
        new = [x for x in got if x not in attrs]
        c.equal(len(new), 1, 'renamed to one name', (a, b, attrs, got))
        if want not in attrs:
            c.equal(new[0], want, 'attribute has the name asked for', (a, b))
        else:
            base = want.rstrip('0123456789')
            c.check(new[0].startswith(base) and new[0][len(base):].isdigit(),
                    'taken attribute name numbered', (a, b, new, attrs))
        b = new[0]
        c.equal(node.__dict__.get(b + T), told, 'type tag goes with the attribute',
                (a, b))
        attrs[b] = attrs.pop(a)
        return 'attr_rename %s %s %s' % (p, a, b)

    def attr_delete(self, i):
        p, a = self.pick_attr(i)
        if not p:
            return None
        ok = self.stage.delete_node_attr(self.layers[i].lookup(p), a)
        self.c.check(ok, 'attribute deleted')
        del self.models[i].nodes[p]['attrs'][a]
        return 'attr_delete %s %s' % (p, a)

    def simple(self, i):
        p = self.pick(i)
        if not p:
            return None
        node, d = self.layers[i].lookup(p), self.models[i].nodes[p]
        k = self.rng.choice(['comment', 'execute_in', 'instance', 'child_order'])
        if k == 'comment':
            d[k] = gen.fresh(self.rng, 'c')
            self.stage.set_node_comment(node, d[k], self.layers[i])
        elif k == 'execute_in':
            d[k] = self.rng.choice(['/a', '/zz', None])
            self.stage.set_node_exec_in(node, d[k], self.layers[i])
        elif k == 'instance':
            d[k] = self.rng.choice(['/nowhere', None])
            self.stage.set_node_instance_path(node, d[k], self.layers[i])
        else:
            co = list(d['child_order'])
            self.rng.shuffle(co)
            d['child_order'] = co
            self.stage.set_node_child_order(node, list(co), self.layers[i])
        return '%s %s' % (k, p)

    def internal(self, i):
        """The generic setter reaches the same data."""
        p = self.pick(i)
        if not p:
            return None
        rng, lay = self.rng, self.layers[i]
        node, d = lay.lookup(p), self.models[i].nodes[p]
        k = rng.choice(['comment', 'execute_in', 'start_point', 'enabled', 'code',
                        'child_order'])
        comp = None
        if k == 'comment':
            v = rng.choice([gen.fresh(rng, 'c'), '"quoted', ''])
        elif k == 'execute_in':
            v = rng.choice(['/a', '/zz', '', None])
        elif k == 'code':
            v = rng.choice([['# ' + gen.fresh(rng, 'l')], ['a', '', ' b'], []])
        elif k == 'child_order':
            v = list(d['child_order'])
            rng.shuffle(v)
        else:
            v = rng.choice([True, False, None])
        if k in ('enabled', 'code'):
            comp = self.stage.build_stage()
        got = self.stage.node_setattr_data(node, '_' + k, lay, create=False,
                                           comp_layer=comp, value=copy.copy(v))
        d[k] = None if v == '' else v
        if k == 'child_order':
            d[k] = list(v)
        return 'internal_%s %s' % (k, p)

    def code(self, i):
        p = self.pick(i, True)
        if not p:
            return None
        v = self.rng.choice([['# ' + gen.fresh(self.rng, 'l')], ['a', '', ' b'], []])
        comp = self.stage.build_stage()
        self.stage.set_node_code_lines(self.layers[i].lookup(p), list(v), comp)
        self.models[i].nodes[p]['code'] = v
        return 'code %s' % p

    def gap(self, i):
        """A node deleted from above its children, and added back (undo)."""
        m, lay = self.models[i], self.layers[i]
        ps = [p for p in sorted(m.nodes) if p != '/' and
              len(edits.subtree(m.nodes, p)) > 1]
        if not ps:
            return None
        p = self.rng.choice(ps)
        ok, dirty = self.stage.delete_node(lay.lookup(p), lay)
        self.c.check(ok, 'delete succeeded')
        self.c.equal(list(dirty), [p], 'deleted nodes reported')
        d = m.nodes.pop(p)
        self.c.equal(edits.saved_view(lay), m.view(), 'descendants kept', p)
        self.c.check(lay.lookup(p) is None, 'deleted node is gone', p)
        data = {'comment': 'back', 'child_order': list(d['child_order'])}
        if self.rng.random() < .5:
            data['attrs'] = {'x': {'value': [self.rng.randrange(9)]}}
        self.stage.add_node(name=model.name_of(p), data=copy.deepcopy(data),
                            parent=model.parent_of(p), layer=lay, fix_names=False)
        m.add(p, data)
        self.gone = [p]
        return 'gap %s' % p

    def hierarchy(self, i):
        m, rng = self.models[i], self.rng
        p = self.pick(i) or '/'
        names = [x for x in p.split('/') if x]
        names += [rng.choice(['h1', 'h2', 'a']) for _ in range(rng.randint(0, 3))]
        if not names or len(names) > 6:
            return None
        table, dirty = self.stage.add_node_hierarchy(list(names),
                                                     layer=self.layers[i])
        new, q = [], '/'
        for n in names:
            q = model.join(q, n)
            if q not in m.nodes:
                m.add(q, {})
                new.append(q)
        self.c.equal([x[0] for x in table], new, 'created hierarchy')
        for q, n in table:
            self.c.check(self.layers[i].lookup(q) is n, 'created hierarchy nodes', q)
        return 'hierarchy %s' % q

    def no_instance(self, i):
        p = self.pick(i)
        if not p:
            return None
        self.models[i].nodes[p]['instance'] = None
        self.stage.remove_node_instance(self.layers[i].lookup(p))
        return 'no_instance %s' % p

    def nested(self, i):
        """Data that brings children along."""
        p = self.pick(i) or '/'
        if p.count('/') > 4:
            return None
        m, rng = self.models[i], self.rng
        before = self.comp_paths(i)
        data = {'comment': 'n', 'children': [
            {'name': 'k1', 'attrs': {'x': {'value': 0}}},
            {'name': 'k2', 'children': [{'name': 'kk', 'enabled': False}]}]}
        nodes, dirty = self.stage.add_node(name='deep', data=copy.deepcopy(data),
                                           parent=p, layer=i)
        top = self.layers[i].get_node_path(nodes[0])
        self.unique(model.name_of(top), 'deep', p, before, 'nested')
        made = [top, top + '/k1', top + '/k2', top + '/k2/kk']
        self.c.equal([self.layers[i].get_node_path(n) for n in nodes], made,
                     'added nested nodes')
        m.add(made[0], {'comment': 'n'})
        m.add(made[1], data['children'][0])
        m.add(made[2], {})
        m.add(made[3], {'enabled': False})
        return 'nested %s' % top

    def far_duplicate(self, i):
        """A node whose parent no layer authored: duplicating makes the parent."""
        p = self.pick(i) or '/'
        if p.count('/') > 4:
            return None
        lay, m = self.layers[i], self.models[i]
        mid = model.join(p, 'gap_' + str(len(self.log)))
        if mid in self.taken():
            return None
        self.stage.add_node(name='far', data={'attrs': {'x': {'value': [1]}}},
                            parent=mid, layer=lay)
        made, dirty = self.stage.duplicate_node(lay.lookup(mid + '/far'), lay)
        copied = lay.get_node_path(made[-1])
        self.unique(model.name_of(copied), 'far', mid, {mid + '/far'}, 'far')
        self.c.equal([lay.get_node_path(n) for n in made], [mid, copied],
                     'duplicated nodes')
        x = {'attrs': {'x': {'value': [1]}}}
        want = copy.deepcopy(self.models[i])
        want.add(mid, {})
        want.nodes[mid + '/far'] = dict(x, child_order=[])
        want.add(copied, x)
        self.c.equal(edits.saved_view(lay), want.view(), 'layer data after edit')
        self.stage.delete_node(lay.lookup(mid), lay, delete_descendants=True)
        return 'far_duplicate %s' % p

    def transfer(self, i):
        """All of one node's opinions given to another."""
        j = self.rng.randrange(len(self.layers))
        p, q = self.pick(i), self.pick(j)
        if not p or not q or (i, p) == (j, q):
            return None
        d, e = self.models[i].nodes[p], self.models[j].nodes[q]
        kids = gen.kids(self.models[i].nodes, p)
        if e['child_order'] and not set(kids) <= set(e['child_order']):
            return None     # loading would add them again
        self.transferred = True
        self.stage.transfer_node_data(self.layers[i].lookup(p), self.layers[i],
                                      self.layers[j].lookup(q), self.layers[j])
        for k in edits.KEYS:
            if e.get(k) not in (None, []):
                d[k] = copy.deepcopy(e[k])
            elif k == 'enabled':
                d[k] = None
        if e['child_order']:
            d['child_order'] = list(e['child_order'])
        for a, ad in e['attrs'].items():
            v = ad.get('value')
            # values are handed over the way they are edited: as text
            d['attrs'][a] = {'value': self.raw(j, q, a)}
            if ad.get('comment'):
                d['attrs'][a]['comment'] = ad['comment']
        return 'transfer %s %s %s' % (p, j, q)

    def raw(self, j, q, a):
        v = self.models[j].nodes[q]['attrs'][a].get('value')
        if v is None or v == '':
            return None
        return v if v else str(v)

    OPS = ['internal', 'internal', 'code', 'gap', 'hierarchy', 'no_instance', 'nested',
           'far_duplicate', 'transfer', 'transfer', 'add', 'add', 'add', 'delete', 'stray_delete', 'rename', 'rename', 'reparent',
           'reparent', 'duplicate', 'attr_add', 'attr_set', 'attr_create',
           'attr_rename', 'attr_delete', 'simple']

    def step(self):
        i = self.rng.randrange(len(self.layers))
        op = self.rng.choice(self.OPS)
        self.doing = op
        if self.muted and self.rng.random() < .3:
            self.mute()
        before = self.meta()
        done = getattr(self, op)(i)
        if not done:
            return
        self.c.event('did: ' + op)
        if not self.counts(i):
            self.c.event('edited a layer that does not count')
        self.log.append('L%d %s' % (i, done))
        self.check(i)
        self.check_meta(i, before)

    def counts(self, i):
        return self.layers[i] in nx.nxt_layer.get_active_layers(self.layers)

    def mute(self):
        """Layers can be edited whether or not they count."""
        lay = self.rng.choice(self.layers)
        if self.rng.random() < .7:
            lay.set_muted(self.rng.random() < .6)
        else:
            lay.set_soloed(self.rng.random() < .6)

    def meta(self):
        return [(copy.deepcopy(l.positions), copy.deepcopy(l.collapse))
                for l in self.layers]

    def check_meta(self, i, before):
        """Positions and collapse flags follow their node; others' stay."""
        c, now = self.c, self.meta()
        moves, gone = self.moved, self.gone
        self.moved, self.gone = [], []
        touched = [p for mv in moves for p in mv[:2]] + gone
        for k in range(len(self.layers)):
            for which in (0, 1):
                def rest(d):
                    return dict((p, v) for p, v in d.items() if not any(
                        p == t or model.is_desc(p, t) for t in touched))
                c.equal(rest(now[k][which]), rest(before[k][which]),
                        'layout of other nodes untouched', (k, self.log[-1]))
        for old, new, both in moves:
            for which in (0, 1) if both else (1,):
                if old in before[i][which]:
                    c.event('layout followed its node')
                    c.check(old not in now[i][which] and
                            now[i][which].get(new) == before[i][which][old],
                            'layout followed its node',
                            lambda: (old, new, before[i], now[i]))
            # with the nodes below it (those saved without a node may stay)
            for q, flag in before[i][1].items():
                q2 = new + q[len(old):]
                if old == new or not model.is_desc(q, old) or \
                        self.layers[i].lookup(q2) is None:
                    continue
                c.event('layout followed a descendant')
                c.check(now[i][1].get(q2) == flag,
                        'layout followed a descendant',
                        lambda: (old, new, q, before[i], now[i]))
        for p in gone:
            c.check(p not in now[i][0] and p not in now[i][1],
                    'layout of deleted node dropped', p)

    def check(self, i):
        c = self.c
        got = edits.saved_view(self.layers[i])
        want = self.models[i].view()
        c.check(got == want, 'layer data after edit',
                lambda: (nx.diff_views(got, want), self.log[-1]))
        edits.check_indexes(c, self.layers[i])
        for k, l in enumerate(self.layers):
            if k != i:
                c.check(edits.saved_view(l) == self.models[k].view(),
                        'other layers untouched', lambda: (k, self.log[-1]))


def case(c):
    rng = c.rng
    n = rng.randint(1, 3)
    o = gen.Opts(instances=0, layers=(n, n), nodes=(1, 6), depth=4)
    layers = gen.gen_layers(rng, o)
    d = c.scratch()
    paths = nx.write_graph(d, layers, extra=gen.extras(rng, layers, .8))
    stage = nx.load(paths[0])
    h = Hist(c, stage, layers)
    for i in range(n):
        h.log.append('load')
        h.check(i)
    h.log = []
    if rng.random() < .25:
        h.muted = True
        h.mute()
    steps = rng.randint(3, 25 if c.thorough else 14)
    try:
        for _ in range(steps):
            h.doing = ''
            h.step()
    except Exception as e:
        if isinstance(e, common.Skip):
            raise
        k = getattr(e, 'key', None)
        import traceback
        raise common.Violation('%s\n  %s\n history: %s\n doing: %s\n layers: %s' % (
            e, '' if isinstance(e, common.Violation) else
            traceback.format_exc()[-900:], h.log, h.doing, layers), k)
    kinds = [x.split()[1] for x in h.log]
    if len(set(kinds)) >= 3:
        c.sig(tuple(kinds))
    # saving and loading again changes nothing
    live = nx.view(stage, stage.build_stage())
    for l in h.layers:
        l.save()
    again = nx.load(paths[0])
    back = nx.view(again, again.build_stage())
    for v in (live, back):
        v.get('/', {}).pop('child_order', None)    # not part of a save file
        for x in v.values():        # the type tag is advisory and set on edit
            # an empty comment handed over to a node is not part of one either
            n = 3 if h.transferred else 4
            x['attrs'] = dict((a, t[:n]) for a, t in x['attrs'].items())
    c.check(live == back, 'reload composes the same',
            lambda: (nx.diff_views(live, back), h.log, layers))
    c.sample({'history': h.log})
