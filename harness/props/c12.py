"""References between layer files: what is loaded, in which order, and editing them."""
import os
import gen
import nx
import common
from props.c04 import in_scope

RULE = """Random trees of 1-8 layer files in several folders (also behind links), each
reference spelled relative, absolute, with environment variables or the home folder, some
files referenced from several places, with references to missing files, other file types,
newer versions, folders and ancestors in between; loaded from any working directory. Then
up to 6 edits: adding existing or new files as references below a layer or on top, and
removing layers. Non-trivial from 3 layers; distinct by the shape of the tree and edits."""
ASSUMPTIONS = ["""Layers are added directly below the layer that references them or above
    the top layer, as the editor does, and a file references another one once.""",
    """Whether a reference that cannot be opened stays listed is not judged."""]
COUNT = {'quick': 1100, 'thorough': 20000}
MIN = {'layers in order': 1500, 'composes as if listed in one file': 1000,
       'other references survive a bad one': 300, 'cycle is cut': 100,
       'working directory kept': 900, 'added layer': 400, 'added tree': 100,
       'removed tree': 60, 'removed layer': 300, 'reload after edits': 400,
       'broken file is reported': 40, 'added a tree with a bad reference': 30,
       'layer on top': 60, 'noted reference': 250, 'added tree with a cycle': 40}


class File(object):
    def __init__(self, name, path):
        self.name, self.path, self.refs, self.nodes = name, path, [], {}


class Layer(object):
    """A loaded file: the same file can be loaded at several places."""

    def __init__(self, f, parent):
        self.file, self.parent, self.kids = f, parent, []

    def line(self):
        out, l = [], self
        while l is not None:
            out.append(l.file)
            l = l.parent
        return out

    def walk(self):
        out = [self]
        for k in self.kids:
            out += k.walk()
        return out


def grow(f, parent=None):
    """What loading this file loads."""
    l = Layer(f, parent)
    line = l.line()
    for spelled, t in f.refs:
        if isinstance(t, File) and t not in line:
            l.kids.append(grow(t, l))
    return l


def size(f, line=()):
    return 1 + sum(size(t, line + (f,)) for _, t in f.refs
                   if isinstance(t, File) and t not in line + (f,))


def spell(rng, target, frm, d):
    """One way to write a path to target in a file in folder frm."""
    rel = os.path.relpath(target, frm)
    ways = [rel, target, rel, os.path.join('$NXT_VERIF_DIR', os.path.relpath(target, d)),
            os.path.join('%NXT_VERIF_DIR%', os.path.relpath(target, d)),
            os.path.join('~', os.path.relpath(target, d)),
            os.path.join('${NXT_VERIF_DIR}', os.path.relpath(target, d))]
    if not rel.startswith('.'):
        ways += ['./' + rel, os.path.join('..', os.path.basename(frm), rel)]
    return rng.choice(ways)


def bad(c, d, frm, n):
    """A reference that cannot be opened."""
    rng = c.rng
    k = rng.choice(['missing', 'ending', 'newer', 'folder', 'format'])
    p = os.path.join(frm, 'bad%d_%s.nxt' % (n, k))
    if k == 'ending':
        p = nx.dump(p[:-4] + rng.choice(['.json', '.txt', '']),
                    {'version': nx.VERSION, 'nodes': {'/bad': {}}})
    elif k == 'newer':
        major, minor = [int(x) for x in nx.VERSION.split('.')[:2]]
        nx.dump(p, {'version': rng.choice(['%d.%d' % (major, minor + 1),
                                           '%d.0' % (major + 1),
                                           '%d.%d.3' % (major, minor + 11)]),
                    'nodes': {'/bad': {}}})
    elif k == 'folder':
        os.makedirs(p)
    elif k == 'format':
        nx.dump(p, {'version': 'new', 'nodes': {'/bad': {}}})
    return spell(rng, p, frm, d)


def write(f):
    data = {'version': nx.VERSION, 'alias': f.name, 'nodes': f.nodes}
    if f.refs:
        data['references'] = [s for s, _ in f.refs]
    nx.dump(f.path, data)


def state(c, stage, top, want, msg):
    """The open stage is this tree of layers."""
    got = nx.layers_of(stage)
    c.equal([l.real_path for l in got], [w.file.path for w in want], 'layers in order',
            msg)
    c.equal([l.layer_idx() for l in got], list(range(len(got))), 'layers numbered', msg)
    index = dict((id(w), g) for w, g in zip(want, got))
    for w, g in zip(want, got):
        p = index[id(w.parent)] if w.parent else None
        c.equal(len(g.sub_layer_paths), len(g.get_references()),
                'references listed the same everywhere', msg)
        c.check(g.parent_layer is p, 'layers know who references them',
                (msg, w.file.path))
        c.equal(g.get_cwd(), os.path.dirname(w.file.path), 'layers know their folder')
        c.check(stage.lookup_layer(w.file.path).real_path == w.file.path,
                'layers are found by their file')
    c.check(stage.top_layer is got[0], 'layers in order')


def composed(stage):
    v = nx.view(stage, stage.build_stage(), sources=False)
    v.get('/', {}).pop('child_order', None)
    return v


def flat(c, want):
    """The composition of the same files, all listed by the first."""
    d = c.scratch('flat')
    out = []
    for i, w in enumerate(want):
        out.append(os.path.join(d, 'f%d.nxt' % i))
        f = {'version': nx.VERSION, 'nodes': w.file.nodes}
        if i == 0:
            f['references'] = ['f%d.nxt' % k for k in range(1, len(want))]
        nx.dump(out[-1], f)
    stage = nx.load(out[0])
    c.equal(len(nx.layers_of(stage)), len(want), 'flat graph')
    return composed(stage)


def make(c, d, n, nodes_of):
    rng = c.rng
    real = os.path.join(d, 'real')
    os.makedirs(os.path.join(real, 'linked'))
    os.symlink(os.path.join(real, 'linked'), os.path.join(d, 'link'))
    files = []
    for i in range(n):
        sub = rng.choice(['a', 'a/deep', 'b', 'real/linked'])
        name = rng.choice(['l%d', 'same', 'x y%d', 'l.%d'])
        f = File('al%d' % i, os.path.join(d, sub, (name % i if '%' in name else name)
                                          + '.nxt'))
        while any(o.path == f.path for o in files):
            f.path = f.path[:-4] + '_.nxt'
        f.nodes = nodes_of[i]
        files.append(f)
    return files


def link(c, d, files):
    """References such that every file is reachable from the first."""
    rng = c.rng
    nbad = 0
    again = rng.choice([0, .3])
    for i, f in enumerate(files[1:], 1):
        par = files[rng.randrange(i)]
        refer(c, d, par, f)
    for i, f in enumerate(files):
        frm = os.path.dirname(f.path)
        if rng.random() < again:
            # again from elsewhere, an ancestor, or itself
            t = rng.choice(files)
            if t not in [x for _, x in f.refs]:
                refer(c, d, f, t)
        while rng.random() < .3:
            f.refs.insert(rng.randint(0, len(f.refs)),
                          (bad(c, d, frm, nbad + 100 * i), None))
            nbad += 1
    return nbad


def refer(c, d, par, f):
    path = f.path
    frm = os.path.dirname(par.path)
    inside = os.path.join(d, 'real', 'linked')
    if path.startswith(inside) and c.rng.random() < .5:
        path = os.path.join(d, 'link', os.path.relpath(path, inside))
    par.refs.insert(c.rng.randint(0, len(par.refs)), (spell(c.rng, path, frm, d), f))


def case(c):
    rng = c.rng
    n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7, 8])
    extra = rng.randint(0, 5)
    o = gen.Opts(layers=(n + extra, n + extra), instances=0, nodes=(0, 4), attrs=(0, 2),
                 world=.3)
    layers = gen.gen_layers(rng, o)
    in_scope(layers)
    d = os.path.realpath(c.scratch())
    files = make(c, d, n + extra, layers)
    more = files[n:]
    files = files[:n]
    nbad = link(c, d, files)
    cwd, env = os.getcwd(), dict(os.environ)
    try:
        os.environ['NXT_VERIF_DIR'] = os.environ['HOME'] = d
        for f in files:
            write(f)
        if size(files[0]) > 14:
            raise common.Skip('too many layers')
        body(c, d, files, more, nbad)
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)


def body(c, d, files, more, nbad):
    rng = c.rng
    c.note = repr([(f.path, [s for s, _ in f.refs]) for f in files])
    # from any working directory, however the file is named
    here = rng.choice([d, os.path.dirname(files[0].path), os.path.join(d, 'real')])
    os.chdir(here)
    if rng.random() < .12:
        # a file in the tree that is no graph at all
        f = rng.choice(files)
        with open(f.path, 'w') as fp:
            fp.write(rng.choice(['', '{"version": ', '[1', 'nodes']))
        try:
            nx.load(files[0].path)
        except ValueError:
            c.event('broken file is reported')
        else:
            c.fail('a broken file was loaded')
        c.equal(os.getcwd(), os.path.realpath(here), 'working directory kept')
        write(f)
    top = grow(files[0])
    want = top.walk()
    stage = nx.load(spell(rng, files[0].path, here, d))
    state(c, stage, files[0], want, 'loaded')
    c.equal(os.getcwd(), os.path.realpath(here), 'working directory kept')
    if nbad and len(want) > 1:
        c.event('other references survive a bad one')
    if any(isinstance(t, File) and t in w.line() for w in want for _, t in w.file.refs):
        c.event('cycle is cut')
    for w, l in zip(want, nx.layers_of(stage)):
        refs = l.get_references()
        c.equal(list(l.sub_layer_paths), refs, 'references listed the same everywhere')
        good = [s for s, t in w.file.refs if t]
        c.equal([r for r in refs if r in good], good, 'references listed in order')
    c.check(composed(stage) == flat(c, want), 'composes as if listed in one file',
            lambda: [w.file.path for w in want])
    ops = edit(c, d, stage, files, more, here)
    if len(want) > 2:
        c.sig((tuple(sorted((files.index(w.file), files.index(w.parent.file))
                            for w in want if w.parent)), tuple(ops)))
    c.sample({'files': [(f.path[len(d):], [s for s, _ in f.refs]) for f in files],
              'edits': ops})


def edit(c, d, stage, files, more, here):
    """Layers are added and removed on the open stage."""
    rng = c.rng
    ops = []
    if any(len([w for w in grow(files[0]).walk() if w.file is f]) > 1 for f in files):
        return ops      # one file at several places: edits of one are not of the other
    top = grow(files[0])
    if any(isinstance(t, File) and t in w.line()
           for w in top.walk() for _, t in w.file.refs):
        return ops
    for _ in range(rng.randint(0, 6)):
        if rng.random() < .3:
            stage.build_stage()
        want = top.walk()
        if more and rng.random() < .6:
            f = more.pop()
            exists = rng.random() < .7
            par = rng.choice(want) if rng.random() < .8 else None
            back = False
            sub = []
            if exists:
                for g in (more[-rng.randint(1, 2):] if more and rng.random() < .6
                          else []):
                    more.remove(g)
                    refer(c, d, f, g)
                    sub.append(g)
                if rng.random() < .3:
                    f.refs.insert(rng.randint(0, len(f.refs)), (
                        bad(c, d, os.path.dirname(f.path), 1000 + len(more)), None))
                    c.event('added a tree with a bad reference')
                if par and rng.random() < .2:
                    # back to itself or to what references it
                    w = rng.choice([f] + sub)
                    t = rng.choice([f, f] + par.line())
                    refer(c, d, w, t)
                    back = True
                for w in [f] + sub:
                    write(w)
                data = nx.nxt_io.load_file_data(f.path)
            else:
                f.nodes = {}
                data = {}
                if not os.path.isdir(os.path.dirname(f.path)):
                    os.makedirs(os.path.dirname(f.path))
            if par:
                name = spell(rng, f.path, os.path.dirname(par.file.path), d)
                at = want.index(par) + 1
                data.update({'parent_layer': nx.layers_of(stage)[at - 1],
                             'filepath': name, 'real_path': f.path})
                new = grow(f, par)
                stage.new_sublayer(layer_data=data, idx=at)
                par.file.refs.insert(0, (name, f))
                par.kids.insert(0, new)
                ops.append(('add', len(new.walk())))
                if back:
                    c.event('added tree with a cycle')
            else:
                name = f.path
                data.update({'parent_layer': None, 'filepath': name,
                             'real_path': f.path})
                new = grow(f)
                stage.new_sublayer(layer_data=data, idx=0)
                f.refs.append((top.file.path, top.file))
                new.kids.append(top)
                top.parent = new
                top = new
                ops.append(('above', len(new.walk()) - len(want)))
                c.event('layer on top')
            c.event('added layer')
            if len(new.walk()) > 1 and ops[-1][0] == 'add':
                c.event('added tree')
            files.append(f)
        elif len(want) > 1:
            w = rng.choice(want[1:])
            at = want.index(w)
            stage.remove_sublayer(at if rng.random() < .3 else nx.layers_of(stage)[at])
            w.parent.kids.remove(w)
            w.parent.file.refs = [r for r in w.parent.file.refs if r[1] is not w.file]
            ops.append(('remove', len(w.walk())))
            c.event('removed tree' if w.kids else 'removed layer')
        else:
            continue
        state(c, stage, top.file, top.walk(), ops)
        c.equal(os.getcwd(), os.path.realpath(here), 'working directory kept')
    if not ops:
        return ops
    want = top.walk()
    live = composed(stage)
    c.check(live == flat(c, want), 'composes as if listed in one file', ops)
    for l in nx.layers_of(stage):
        l.save()
    again = nx.load(top.file.path)
    state(c, again, top.file, want, ('reloaded', ops))
    c.check(composed(again) == live, 'reload after edits', ops)
    # a reference noted without loading it counts from the next time on
    f = File('late', os.path.join(d, 'b', 'late.nxt'))
    f.nodes = {'/late': {'attributes': {'a': {'value': '1'}}}}
    write(f)
    w = rng.choice(want)
    lay = nx.layers_of(again)[want.index(w)]
    at = rng.choice([None, 0, rng.randint(0, len(w.kids))])
    if any(t is None for _, t in w.file.refs):
        at = rng.choice([None, 0])
    name = spell(rng, f.path, os.path.dirname(w.file.path), d)
    if rng.random() < .3:
        lay.add_reference(layer=nx.nxt_layer.SpecLayer.load_from_filepath(f.path),
                          insert_idx=at)
    else:
        lay.add_reference(name, insert_idx=at)
    w.kids.insert(len(w.kids) if at is None else at, Layer(f, w))
    lay.save()
    state(c, nx.load(top.file.path), top.file, top.walk(), 'noted reference')
    c.event('noted reference')
    return ops
