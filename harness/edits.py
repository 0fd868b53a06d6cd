"""Random edits of layers, with a model of what each should do."""
import copy
import re

import model
import gen
import nx

ILLEGAL = ['a b', '1st', 'x-y', 'node!', 'a.b', '9', 'new name', 'p/q', 'a\tb', 'a--b', '  ', '12 x!!']


def legal(name):
    if name[0].isdigit():
        name = '_' + name
    return re.sub(r'\W', '_', name)


def norm_layer(nodes):
    """What loading a layer makes of authored node data."""
    out = {}
    for p in sorted(nodes):
        d = copy.deepcopy(nodes[p])
        co = []
        for x in d.get('child_order', []):
            if x not in co:
                co.append(x)
        d['child_order'] = co
        d.setdefault('attrs', {})
        out[p] = d
        par = model.parent_of(p)
        if par in out and p != '/':
            n = model.name_of(p)
            if n not in out[par]['child_order']:
                out[par]['child_order'].append(n)
    return out


KEYS = ('start_point', 'instance', 'execute_in', 'enabled', 'comment', 'code')


def norm_node(d, path=None):
    """The authored meaning of a node's saved data."""
    out = {}
    attrs = {}
    for a, ad in d.get('attrs', {}).items():
        e = {}
        if ad.get('value') is not None:
            e['value'] = ad['value']
        if ad.get('comment'):
            e['comment'] = ad['comment']
        attrs[a] = e
    out['attrs'] = attrs
    for k in KEYS:
        v = d.get(k)
        if v is not None and v != []:
            if path == '/' and k not in ('comment', 'code'):
                continue
            out[k] = v
    if path != '/':
        out['child_order'] = list(d.get('child_order') or [])
    return out


def subtree(nodes, p):
    return [q for q in nodes if q == p or q.startswith(p + '/')]


class LayerModel(object):
    def __init__(self, nodes):
        self.nodes = norm_layer(nodes)

    def view(self):
        return dict((p, norm_node(d, p)) for p, d in self.nodes.items())

    def add(self, path, data):
        d = copy.deepcopy(data)
        d.setdefault('attrs', {})
        co = []
        for x in d.get('child_order', []):
            if x not in co:
                co.append(x)
        d['child_order'] = co
        self.nodes[path] = d
        self.order_add(model.parent_of(path), model.name_of(path))

    def order_add(self, parent, name):
        if parent in self.nodes:
            co = self.nodes[parent]['child_order']
            if name not in co:
                co.append(name)

    def order_remove(self, parent, name):
        if parent in self.nodes:
            co = self.nodes[parent]['child_order']
            if name in co:
                co.remove(name)

    def delete(self, path):
        """With all descendants."""
        for q in subtree(self.nodes, path):
            del self.nodes[q]
        self.order_remove(model.parent_of(path), model.name_of(path))

    def move(self, old, new):
        for q in sorted(subtree(self.nodes, old)):
            self.nodes[new + q[len(old):]] = self.nodes.pop(q)
        op, on = model.parent_of(old), model.name_of(old)
        np_, nn = model.parent_of(new), model.name_of(new)
        if op == np_:
            if op in self.nodes:
                co = self.nodes[op]['child_order']
                if on in co:    # a stale mention of the new name goes
                    co = [nn if x == on else x for x in co if x != nn]
                self.nodes[op]['child_order'] = co
        else:
            self.order_remove(op, on)
            self.order_add(np_, nn)


def saved_view(layer):
    return dict((p, norm_node(d, p))
                for p, d in layer.get_save_data().get('nodes', {}).items())


def check_indexes(c, layer, names=()):
    """Every way of finding a node in a layer agrees."""
    want = set(layer.get_save_data().get('nodes', {}))
    got = set(layer.descendants(return_type=nx.R.Path))
    if layer.lookup('/') is not None:
        got.add('/')
    c.equal(got, want, 'listed nodes are the saved nodes')
    for p in want:
        n = layer.lookup(p)
        c.check(n is not None and layer.node_exists(p), 'lookup finds node', p)
        c.equal(layer.get_node_path(n), p, 'node path of node')
        if p == '/':
            continue
        par = getattr(n, nx.IA.PARENT_PATH)
        c.equal(model.join(par, getattr(n, nx.IA.NAME)), p,
                'name and parent spell the path')
        c.equal(getattr(n, nx.IA.SOURCE_LAYER), layer.real_path,
                'node knows its layer')
        co = list(getattr(n, nx.IA.CHILD_ORDER))
        c.equal(len(co), len(set(co)), 'child order has no duplicates', p)
        kids = layer.children(p, return_type=nx.R.Path)
        c.equal(set(kids), set(q for q in want if q != '/' and
                               model.parent_of(q) == p),
                'children are the nodes one level down', p)
