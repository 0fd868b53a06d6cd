"""Access to the code under test, through the calls its users make."""
import json
import os

from nxt import nxt_layer, nxt_node, nxt_path, nxt_io  # noqa
from nxt.stage import Stage
from nxt.nxt_node import INTERNAL_ATTRS as IA, META_ATTRS as MA
from nxt.constants import GRAPH_VERSION

VERSION = GRAPH_VERSION.VERSION_STR
R = nxt_layer.LayerReturnTypes


def dump(path, data):
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    with open(path, 'w') as fp:
        json.dump(data, fp)
    return path


def read(path):
    with open(path) as fp:
        return json.load(fp)


def write_graph(d, layers, extra=None, names=None):
    """Layers (strong to weak) as files; the first references the others in order.

    extra: {index: more top level keys}. Returns the list of file paths.
    """
    names = names or ['l%d.nxt' % i for i in range(len(layers))]
    paths = [os.path.join(d, n) for n in names]
    for i, nodes in enumerate(layers):
        data = {'version': VERSION, 'alias': 'al%d' % i, 'nodes': nodes}
        if i == 0 and len(layers) > 1:
            data['references'] = ['./' + n for n in names[1:]]
        data.update((extra or {}).get(i, {}))
        dump(paths[i], data)
    return paths


def write_tree(d, layers, rng, extra=None):
    """Like write_graph, but references nest: a random tree of files whose
    depth-first order is the strength order."""
    n = len(layers)
    parent = {}
    stack = [0]
    for i in range(1, n):
        while len(stack) > 1 and rng.random() < 0.5:
            stack.pop()
        parent[i] = stack[-1]
        stack.append(i)
    paths = []
    for i in range(n):
        sub = rng.choice(['', 'sub', 'sub/deep', 'other'])
        paths.append(os.path.join(d, sub, 'l%d.nxt' % i))
    for i, nodes in enumerate(layers):
        data = {'version': VERSION, 'alias': 'al%d' % i, 'nodes': nodes}
        refs = []
        for k in range(i + 1, n):
            if parent.get(k) == i:
                r = os.path.relpath(paths[k], os.path.dirname(paths[i]))
                refs.append(rng.choice([r, './' + r, paths[k]])
                            if not r.startswith('.') else
                            rng.choice([r, paths[k]]))
        if refs:
            data['references'] = refs
        data.update((extra or {}).get(i, {}))
        dump(paths[i], data)
    return paths, parent


def load(path):
    return Stage.load_from_filepath(path)


def layers_of(stage):
    return list(stage.reference_layers)


def all_paths(layer, world=True):
    out = list(layer.descendants(return_type=R.Path))
    if world and layer.lookup('/') is not None:
        out.append('/')
    return out


def node_view(stage, comp, path, child_order=True, sources=True):
    n = comp.lookup(path)
    if n is None:
        return None
    v = {}
    attrs = {}
    for a in stage.get_node_attr_names(n):
        val = getattr(n, a)
        src = stage.get_node_attr_source(n, a)
        attrs[a] = (type(val).__name__, val, src if sources else None,
                    stage.get_node_attr_comment(n, a),
                    getattr(n, a + MA.TYPE, None))
    v['attrs'] = attrs
    v['code'] = list(stage.get_node_code_lines(n, comp))
    v['enabled'] = nxt_node.get_node_enabled(n)
    v['execute_in'] = stage.get_node_exec_in(n)
    v['start_point'] = bool(getattr(n, IA.START_POINT, None))
    v['comment'] = stage.get_node_comment(n)
    v['instance'] = getattr(n, IA.INSTANCE_PATH, None)
    v['name'] = getattr(n, IA.NAME)
    v['parent'] = getattr(n, IA.PARENT_PATH)
    v['proxy'] = bool(getattr(n, IA.PROXY))
    if child_order:
        v['child_order'] = list(getattr(n, IA.CHILD_ORDER) or [])
    return v


def view(stage, comp, **kw):
    return dict((p, node_view(stage, comp, p, **kw)) for p in all_paths(comp))


def authored(stage):
    """What each layer would save: the authored data."""
    out = []
    for l in stage.reference_layers:
        out.append(json.loads(json.dumps(l.get_save_data())))
    return out


def diff_views(a, b):
    """First difference, as text."""
    for p in sorted(set(a) | set(b)):
        if p not in a:
            return 'node %s only in second: %r' % (p, b[p])
        if p not in b:
            return 'node %s only in first: %r' % (p, a[p])
        if a[p] != b[p]:
            if a[p] is None or b[p] is None:
                return 'node %s: %r vs %r' % (p, a[p], b[p])
            for k in sorted(set(a[p]) | set(b[p])):
                if a[p].get(k) != b[p].get(k):
                    return 'node %s, %s:\n   first  %r\n   second %r' % (
                        p, k, a[p].get(k), b[p].get(k))
    return None
