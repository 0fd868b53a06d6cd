"""Files found through layers and roots."""
import os
import gen
import nx
import model
import common
from props.c04 import in_scope
from props.c14 import parse, unparse

RULE = """Random graphs of 1-4 layers in folders of their own (some with a recorded working
folder), with 0-3 root folders, some missing, and files spread over all of them; muted and
soloed layers; instances; nodes with file, file list and path tokens whose names are built from
attributes of their own, of ancestors and of other nodes that differ from layer to layer.
Every token of every node, asked of the whole stage and from a lower layer, is compared
with a search in order by the rules. Non-trivial with a file found below the topmost layer;
distinct by the depths, roots and kinds of names involved."""
ASSUMPTIONS = ["""Instances are those of the weakest layer, the same in every lower
    composition (nxt warns that others give unexpected results).""",
    """Attributes do not refer back to themselves, and inside a file token only attributes
    and further attributes with file tokens are looked up."""]
COUNT = {'quick': 1000, 'thorough': 40000}
MIN = {'file': 3500, 'file list': 1400, 'path': 2000, 'found in a root': 800,
       'found below the top': 600, 'found nowhere': 1500, 'value of a weaker layer': 400,
       'file in an attribute': 800, 'inactive layer': 150, 'reference in a root': 200,
       'raw value untouched': 5000, 'through an instance': 150,
       'asked from a lower layer': 800}

FILES = ['f1.txt', 'f2.txt', 's/f1.txt', 's/f3', 'f3']
BITS = ['f1', 'f2', 's/f1', 'f3', 's', '', 'none', 'f1.txt', 's/../f2']


class Rules(object):
    def __init__(self, c, layers, dirs, roots, muted, solo):
        self.c, self.layers, self.dirs, self.roots = c, layers, dirs, roots
        self.muted, self.solo = muted, solo
        self.marks = set()
        self.models = {}

    def model(self, act):
        k = tuple(act)
        if k not in self.models:
            self.models[k] = in_scope([self.layers[i] for i in act])
        return self.models[k]

    def active(self, d):
        lays = list(range(d, len(self.layers)))
        return [i for i in lays if (i in self.solo or not self.solo & set(lays))
                and i not in self.muted]

    def raw(self, p, a, act):
        return self.model(act).attrs(p).get(a, ({}, 0))[0].get('value') or ''

    def exists(self, p, act):
        return p in self.model(act).all_paths()

    def ref(self, p, name, act, top):
        q, dot, a = name.rpartition('.')
        q = model.expand(q, p) if q else p
        if not self.exists(q, top):
            return ''
        return self.text(q, self.raw(q, a, act), act, top)

    def text(self, p, s, act, top):
        out = ''
        for x in parse(s)[0]:
            if isinstance(x, str):
                out += x
            elif unparse(x).startswith('file::'):
                self.marks.add('file in an attribute')
                out += self.find(p, unparse(x)[6:], act, top)
            else:
                out += self.ref(p, unparse(x), act, top)
        return out

    def expand(self, s, start):
        for v in ('NXTVF', 'NXTVX', 'NXTV1'):
            s = s.replace('$' + v, os.environ[v]).replace('%' + v + '%', os.environ[v])
        if s == '~' or s.startswith('~/'):
            self.marks.add('home folder')
            s = os.environ['HOME'] + s[1:]
        return os.path.realpath(os.path.join(start, s))

    def find(self, p, content, act, top):
        """One file token at one depth."""
        name = self.text(p, content, act, top)
        if content and not name:
            return ''
        for root in self.roots:
            if os.path.exists(root) and os.path.exists(self.expand(name, root)):
                if not os.path.isabs(name):
                    self.marks.add('found in a root')
                return self.expand(name, root)
        got = self.expand(name, self.dirs[act[0]])
        return got if os.path.exists(got) else ''

    def all(self, p, content, first):
        top = self.active(first)
        out = []
        for d in range(first, len(self.layers)):
            act = self.active(d)
            if not act:
                continue
            got = self.find(p, content, act, top)
            if got and got not in out:
                if d > first:
                    self.marks.add('found below the top')
                    if act != top and not os.path.isabs(content) and \
                            self.text(p, content, act, top) != \
                            self.text(p, content, top, top):
                        self.marks.add('value of a weaker layer')
                out.append(got)
        return out


def name(rng, k, paths, p):
    """Text naming a file, with references to attributes l0 .. l(k-1)."""
    def ref():
        if k < 1:
            return rng.choice(BITS)
        a = 'l%d' % rng.randrange(k)
        if rng.random() < .05:
            a = 'nope'
        r = rng.random()
        if r < .6:
            return '${%s}' % a
        q = rng.choice(paths)
        return '${%s.%s}' % (q if r < .85 or q == p else gen.rel_path(p, q), a)
    r = rng.random()
    if r < .15:
        return rng.choice(FILES + ['none.txt', '', 'f 1.txt'])
    if r < .5:
        return ref()
    if r < .75:
        return ref() + '.txt'
    if r < .85:
        return 's/' + ref()
    if r < .9:
        return '../' + rng.choice(['d0', 'd1', 'r0']) + '/' + ref() + '.txt'
    if r < .97:
        return rng.choice(['$NXTVF/d1/', '%NXTVF%/d1/', '$NXTVF/d0/..$NXTVX/d1/',
                           '%NXTVF%%NXTVX%/d0%NXTVX%/..%NXTVX%/d%NXTV1%/', '~/', '~/../d1/']) + ref() + \
            rng.choice(['', '.txt', '.txt'])
    return ref() + ref() + '.txt'


def case(c):
    rng = c.rng
    n = rng.choice([1, 2, 2, 3, 4])
    base = os.path.realpath(c.scratch())
    dirs = [os.path.join(base, 'd%d' % i) for i in range(n)]
    roots = [os.path.join(base, 'r%d' % i) for i in range(rng.choice([0, 0, 1, 2, 3]))]
    for i, d in enumerate(dirs + roots + [os.path.join(base, 'w0')]):
        if d in roots and rng.random() < .25:
            continue
        os.makedirs(os.path.join(d, 's'))
        for f in FILES:
            if rng.random() < (.35 if d in dirs else .15):
                with open(os.path.join(d, f), 'w') as fp:
                    fp.write(d)
    names = ['a', 'b', 'c']
    paths = ['/']
    for _ in range(rng.choice([1, 2, 3, 4, 5, 5, 8])):
        q = rng.choice(paths)
        if q == '/' or q.count('/') < 4:
            q = model.join(q, rng.choice(names))
            if q not in paths:
                paths.append(q)
    layers = []
    for i in range(n):
        nodes = {}
        for p in paths:
            if rng.random() < .3 and i:
                continue
            nodes[p] = {'attrs': {}}
            for k in range(4):
                if rng.random() > (.5 if k < 2 else .3):
                    continue
                v = rng.choice(BITS) if k == 0 else name(rng, k, paths, p)
                if k and rng.random() < .3:
                    v = '${file::%s}' % v
                    if rng.random() < .3:
                        v = rng.choice(['', 'x']) + v + rng.choice(['', '/s', ';'])
                nodes[p]['attrs']['l%d' % k] = {'value': v}
            if rng.random() < .5:
                nodes[p]['attrs']['f'] = {'value': '${file::%s}' % name(rng, 4, paths, p)}
            if rng.random() < .3:
                nodes[p]['attrs']['fl'] = {'value': '${filelist::%s}' %
                                           name(rng, 4, paths, p)}
            if rng.random() < .2:
                nodes[p]['attrs']['many'] = {'value': "['%s', '%s']" % tuple(
                    '${file::%s}' % name(rng, 4, paths, p) for _ in 'ab')}
            if rng.random() < .2:
                nodes[p]['attrs']['pt'] = {'value': '<${path::%s}>' %
                                           rng.choice(FILES + ['no/such', '../x', ''])}
            if rng.random() < .2:
                nodes[p]['code'] = ['x = "${file::%s}"' % name(rng, 4, paths, p)]
        layers.append(nodes)
    if rng.random() < .4:
        # the weakest layer, all lower compositions have its instances
        for p in sorted(layers[-1]):
            if rng.random() < .3 and p != '/':
                q = rng.choice(paths)
                if q == p or model.is_desc(p, q) or model.is_desc(q, p):
                    continue
                layers[-1][p]['instance'] = rng.choice([q, gen.rel_path(p, q)])
    cwds = {}
    for i in range(n):
        if rng.random() < .1:
            cwds[i] = os.path.join(base, 'w0')
    c.note = repr((layers, cwds, len(roots)))
    for i in range(n):
        data = {'version': nx.VERSION, 'alias': 'al%d' % i, 'nodes': layers[i]}
        if i == 0 and n > 1:
            data['references'] = [rng.choice(['../d%d/l%d.nxt' % (k, k),
                                              os.path.join(dirs[k], 'l%d.nxt' % k)])
                                  for k in range(1, n)]
        if i in cwds:
            data['cwd'] = cwds[i]
        nx.dump(os.path.join(dirs[i], 'l%d.nxt' % i), data)
    old, home = os.getcwd(), os.environ.get('HOME')
    try:
        os.chdir(base)
        os.environ.update(NXTVF=base, NXTVX='/.', NXTV1='1', HOME=dirs[0])
        os.environ.pop('NXT_FILE_ROOTS', None)
        if roots:
            rs = [rng.choice([r, r, os.path.relpath(r)]) for r in roots]
            os.environ['NXT_FILE_ROOTS'] = os.pathsep.join(rs)
        elif rng.random() < .3:
            os.environ['NXT_FILE_ROOTS'] = rng.choice(['', '/no/such/root'])
        env = dict(os.environ)
        judge(c, layers, [cwds.get(i, d) for i, d in enumerate(dirs)], roots,
              os.path.join(dirs[0], 'l0.nxt'))
        c.equal((os.getcwd(), dict(os.environ)), (base, env), 'left as it was')
        if rng.random() < .4:
            references(c, base)
    finally:
        os.chdir(old)
        os.environ.pop('NXT_FILE_ROOTS', None)
        for v in ('NXTVF', 'NXTVX', 'NXTV1', 'HOME'):
            os.environ.pop(v, None)
        if home is not None:
            os.environ['HOME'] = home


def judge(c, layers, dirs, roots, top_file):
    rng = c.rng
    n = len(layers)
    stage = nx.load(top_file)
    pm, ps = rng.choice([(.15, .07), (.15, .07), (.4, .5)])
    muted = set(i for i in range(n) if rng.random() < pm)
    solo = set(i for i in range(n) if rng.random() < ps)
    for i, lay in enumerate(nx.layers_of(stage)):
        if i in muted:
            lay.set_muted(True)
        if i in solo:
            lay.set_soloed(True)
    rules = Rules(c, layers, dirs, roots, muted, solo)
    insts = []
    for d in range(n):
        if rules.active(d):
            m = rules.model(rules.active(d))
            insts.append(m.authored_inst)
            if set(m.inst.values()) - m.real or insts[0] != insts[-1]:
                raise common.Skip('a lower composition has other instances')
    for first in sorted(set([0, rng.randrange(n)])):
        top = rules.active(first)
        if not top:
            continue
        comp = stage.build_stage(first)
        if len(top) < n - first:
            c.event('inactive layer')
        root = next((os.path.realpath(r) for r in roots if os.path.exists(r)), None)
        for p in sorted(rules.model(top).all_paths()):
            node = comp.lookup(p)
            m = rules.model(top)
            instanced = p in m.proxies or p in m.inst

            def line(s):
                out = ''
                for x in parse(s)[0]:
                    if isinstance(x, str):
                        out += x
                        continue
                    kind, _, content = unparse(x).partition('::')
                    rules.marks.clear()
                    if kind == 'path':
                        out += rules.expand(content, root or dirs[top[0]])
                        c.event('path')
                        continue
                    found = rules.all(p, content, first)
                    if kind == 'file':
                        out += found[0] if found else ''
                    else:
                        out += str(found)
                    if not found:
                        c.event('found nowhere')
                    if instanced:
                        c.event('through an instance')
                    for k in rules.marks:
                        c.event(k)
                    if first:
                        c.event('asked from a lower layer')
                    c.sig(kind, n, first, len(found), len(roots), len(top),
                          tuple(sorted(rules.marks)), content.count('${'))
                return out
            for a, ev in (('f', 'file'), ('many', 'file'), ('fl', 'file list'),
                          ('pt', 'path')):
                raw = rules.raw(p, a, top)
                if not raw:
                    continue
                got = stage.get_node_attr_value(node, a, comp, resolved=True)
                c.equal(got, line(raw), ev, (first, p, a, raw, muted, solo))
                c.equal(getattr(node, a), raw, 'raw value untouched')
            code = rules.model(top).inherited_internal(p, 'code')
            if code:
                c.equal(stage.get_node_code_string(node, comp, 'resolved'),
                        line(code[0]), 'file', (p, code))


def references(c, base):
    """A reference is looked for in the roots first, then next to its file."""
    rng = c.rng
    dirs = [os.path.join(base, 'g%d' % i) for i in range(3)]
    places = [d for d in dirs if rng.random() < .6]
    for i, d in enumerate(dirs):
        if d in places:
            nx.dump(os.path.join(d, 'sub', 'x.nxt'),
                    {'version': nx.VERSION, 'alias': 'x', 'nodes': {'/from%d' % i: {}}})
    nx.dump(os.path.join(dirs[2], 'top.nxt'),
            {'version': nx.VERSION, 'alias': 't', 'references': ['sub/x.nxt'],
             'nodes': {'/top': {}}})
    os.environ['NXT_FILE_ROOTS'] = os.pathsep.join(
        [dirs[0], '/no/such/root', dirs[1]])
    stage = nx.load(os.path.join(dirs[2], 'top.nxt'))
    got = [p for p in nx.all_paths(stage.build_stage(), world=False) if p != '/top']
    want = ['/from%d' % dirs.index(d) for d in places[:1]]
    c.equal(got, want, 'reference in a root', places)
