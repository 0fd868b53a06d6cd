"""Composing is a pure, repeatable function of the authored layers."""
import random
import model
import gen
import nx
import common

RULE = """Random layered graphs with instances, stray nodes and child orders; each is
composed several times, from each layer index, after queries on the result, after
muting and unmuting, and from files whose keys are shuffled. Non-trivial when the
graph has at least two layers or an instance; distinct by authored data."""
COUNT = {'quick': 900, 'thorough': 30000}
MIN = {'repeat build': 400, 'authored data unchanged': 400, 'partial build': 200,
       'shuffled file': 200, 'mute toggled and restored': 150,
       'queries leave the composition alone': 300}


def in_scope(layers):
    try:
        m = model.Comp(layers)
        for p in m.all_paths():
            m.shadow(p)
    except (model.Weird, RecursionError) as e:
        raise common.Skip(str(e))
    return m


def shuffled(rng, x):
    if isinstance(x, dict):
        ks = list(x)
        rng.shuffle(ks)
        return dict((k, shuffled(rng, x[k])) for k in ks)
    return x


def query(rng, stage, comp, paths):
    """Everything here only asks."""
    for _ in range(12):
        p = rng.choice(paths)
        n = comp.lookup(p)
        if n is None:
            continue
        k = rng.randrange(14)
        if k == 0:
            for rt in (nx.R.Path, nx.R.Node, nx.R.NodeTable, nx.R.NameDict,
                       nx.R.PathDict, nx.R.Boolean):
                comp.children(p, return_type=rt, ordered=rng.random() < .5)
            comp.children(p, return_type=nx.R.Path, include_implied=True)
        elif k == 1:
            comp.descendants(p, return_type=rng.choice([nx.R.Path, nx.R.Node]))
            if p != '/':
                comp.descendants(p, return_type=nx.R.Path, ordered=True)
            comp.descendants(p, return_type=nx.R.Path, include_implied=True)
        elif k == 2:
            comp.ancestors(p)
        elif k == 3:
            comp.get_exec_order(p)
        elif k == 4:
            for a in stage.get_node_attr_names(n):
                stage.get_node_attr_value(n, a, comp, resolved=True)
        elif k == 5:
            stage.get_node_code_string(n, comp, rng.choice(['raw', 'resolved']))
        elif k == 6:
            stage.get_node_inherited_attr_names(n, comp)
            stage.get_node_instanced_attr_names(n, comp)
        elif k == 7:
            stage.get_node_data(n, comp, include_inherit=True)
        elif k == 8:
            stage.get_layers_with_opinion(p)
        elif k == 9:
            stage.get_unique_node_name('a', stage.top_layer, p)
        elif k == 10:
            stage.get_unique_attr_name(p, stage.top_layer, 'x')
        elif k == 11:
            co = stage.get_node_child_order(n)
            co.append('zzz')
            lines = stage.get_node_code_lines(n, comp)
            lines.append('zzz')
        elif k == 12:
            comp.get_node_dirties(p)
        elif k == 13:
            for i in range(len(stage.reference_layers)):
                stage.get_layer_save_data(i)


def case(c):
    rng = c.rng
    o = gen.Opts(instances=rng.choice([0, .2, .3]), layers=(1, 4), nodes=(1, 8),
                 attr_meta=.3)
    layers = gen.gen_layers(rng, o)
    m = in_scope(layers)
    n = len(layers)
    d = c.scratch()
    c.note = repr(layers)
    paths, _ = nx.write_tree(d + '/g', layers, rng, gen.extras(rng, layers))
    stage = nx.load(paths[0])
    before = nx.authored(stage)
    comp = stage.build_stage()
    first = nx.view(stage, comp)
    uid = comp
    c.sig(repr(before))
    after = nx.authored(stage)
    c.equal(after, before, 'authored data unchanged', lambda: layers)
    comp2 = stage.build_stage()
    c.check(comp2 is not uid, 'a fresh composition each time')
    second = nx.view(stage, comp2)
    c.check(first == second, 'repeat build',
            lambda: (nx.diff_views(first, second), layers))
    c.check(nx.view(stage, comp) == first, 'earlier composition undisturbed',
            lambda: (nx.diff_views(first, nx.view(stage, comp)), layers))
    # queries do not change what they ask about
    ps = sorted(first) or ['/']
    with c.no_raise('querying'):
        query(rng, stage, comp, ps)
    again = nx.view(stage, comp)
    c.check(again == first, 'queries leave the composition alone',
            lambda: (nx.diff_views(first, again), layers))
    c.equal(nx.authored(stage), before, 'queries leave the authored data alone',
            lambda: layers)
    # a build from layer k is the build of layers k.. alone
    if n > 1:
        k = rng.randrange(1, n)
        try:
            mk = in_scope(layers[k:])
        except common.Skip:
            mk = None
        if mk is not None:
            ck = stage.build_stage(from_idx=k)
            pk = nx.write_graph(d + '/k', [{}] + layers[k:])
            sk = nx.load(pk[0])
            vk = nx.view(stage, ck, sources=False)
            alone = nx.view(sk, sk.build_stage(), sources=False)
            c.check(vk == alone, 'partial build',
                    lambda: (k, nx.diff_views(vk, alone), layers))
            for p in vk:
                node = ck.lookup(p)
                want = mk.attrs(p)
                for a, (_, (i, at)) in want.items():
                    c.equal(stage.get_node_attr_source(node, a),
                            (paths[k + i], at), 'partial build source',
                            lambda: (k, p, a, layers))
            third = nx.view(stage, stage.build_stage())
            c.check(third == first, 'full build after a partial one',
                    lambda: (nx.diff_views(first, third), layers))
        # muting then unmuting leads back
        i = rng.randrange(n)
        l = stage.reference_layers[i]
        rest = layers[:i] + layers[i + 1:]
        try:
            in_scope(rest)
            ok = True
        except common.Skip:
            ok = False
        if ok:
            toggle = rng.choice(['mute', 'solo'])
            if toggle == 'mute':
                l.set_muted(True)
                stage.build_stage()
                l.set_muted(False)
            else:
                try:
                    in_scope([layers[i]])
                except common.Skip:
                    return
                l.set_soloed(True)
                stage.build_stage()
                l.set_soloed(False)
            back = nx.view(stage, stage.build_stage())
            c.check(back == first, 'mute toggled and restored',
                    lambda: (toggle, i, nx.diff_views(first, back), layers))
    # neither does the order things are written in a file matter
    pk = nx.write_graph(d + '/s', [shuffled(rng, l) for l in layers])
    ss = nx.load(pk[0])
    vs = nx.view(ss, ss.build_stage(), sources=False)
    pk = nx.write_graph(d + '/t', layers)
    st = nx.load(pk[0])
    vt = nx.view(st, st.build_stage(), sources=False)
    c.check(vs == vt, 'shuffled file', lambda: (nx.diff_views(vs, vt), layers))
    c.equal(nx.authored(ss), nx.authored(st), 'shuffled file saves the same',
            lambda: layers)
    c.sample({'layers': layers})
