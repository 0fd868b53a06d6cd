"""Tokens in attribute values and code."""
import os
import model
import gen
import nx
import common
from props.c04 import in_scope

RULE = """Random layered graphs (inheritance, relative instances) whose attribute values,
code and text files hold nested tokens of every kind: attributes here and elsewhere by
absolute and relative paths, computed names, files, paths, contents, the node path, layer
colors and plugin tokens. Every attribute and the code of every node is resolved and
compared with an interpreter; and random brace soup goes through the token parsing.
Non-trivial with a token inside a token; distinct by the kinds nested."""
ASSUMPTIONS = ["""Attribute references do not lead back to themselves (they would recurse),
    names asked for are no Python or nxt internals, file tokens here do not depend on
    weaker layers (C16), and no resolved text forms another token by chance.""",
    """A token with nothing in it is not judged."""]
COUNT = {'quick': 1800, 'thorough': 40000}
MIN = {'resolved value': 25000, 'resolved code': 1500, 'token in a token': 5000,
       'reference elsewhere': 4000, 'relative reference': 1500, 'missing target': 1500,
       'malformed text stays': 800, 'parsed': 15000, 'contents of a file': 900,
       'raw value untouched': 10000, 'node path token': 500, 'layer color token': 500,
       'falsy value': 500, 'plugin token': 300}

KINDS = ['file::', 'filelist::', 'path::', 'contents::', 'ex::']


# -- the language -----------------------------------------------------------------

def parse(text, i=0, inner=False):
    """[str | list] or None if tokens do not close: a list is a token."""
    out, lit = [], ''
    while i < len(text):
        if text.startswith('${', i):
            sub, i = parse(text, i + 2, True)
            if sub is None:
                return None, i
            out += [lit, sub] if lit else [sub]
            lit = ''
        elif inner and text[i] == '}':
            return out + ([lit] if lit else []), i + 1
        else:
            lit += text[i]
            i += 1
    return (None if inner else out + ([lit] if lit else [])), i


def unparse(parts):
    return ''.join(x if isinstance(x, str) else '${' + unparse(x) + '}' for x in parts)


def innermost(parts):
    out = []
    for x in parts:
        if not isinstance(x, str):
            sub = innermost(x)
            out += sub or [unparse([x])]
    return out


class World(object):
    """What tokens mean in one composition."""

    def __init__(self, c, m, cwd, color, files):
        self.c, self.m, self.cwd, self.color, self.files = c, m, cwd, color, files
        self.paths = m.all_paths()
        self.busy = 0

    def text(self, node, text, deep=0):
        self.busy += 1
        if self.busy > 4000 or deep > 60:
            raise common.Skip('references lead back to themselves')
        parts, _ = parse(text)
        if parts is None:
            self.c.event('malformed text stays')
            return text
        return ''.join(x if isinstance(x, str) else self.token(node, x, deep + 1)
                       for x in parts)

    def value(self, node, attr, deep):
        if node not in self.paths:
            self.c.event('missing target')
            return ''
        have = self.m.attrs(node)
        if attr not in have:
            self.c.event('missing target')
            return ''
        v = have[attr][0].get('value')
        if not v:
            self.c.event('falsy value')
            return '' if v is None else str(v)
        return self.text(node, str(v), deep)

    def token(self, node, parts, deep):
        c = self.c
        raw = unparse(parts)
        if not raw:
            raise common.Skip('empty token')
        if any(not isinstance(x, str) for x in parts):
            c.event('token in a token')
        if raw == '_nxtpath':
            c.event('node path token')
            return node
        if raw == '_nxtcolor':
            c.event('layer color token')
            return self.color(node)
        kind = [k for k in KINDS if raw.startswith(k)]
        if not kind:
            return self.attr(node, self.text(node, raw, deep), deep)
        kind = kind[0]
        rest = raw[len(kind):]
        inner = self.text(node, rest, deep)
        if kind == 'ex::':
            c.event('plugin token')
            return inner[::-1]
        full = os.path.realpath(os.path.join(self.cwd, inner))
        if kind == 'path::':
            return full
        if kind == 'file::':
            if '\x00' in full:
                raise common.Skip('odd file')
            return full if os.path.exists(full) else ''
        if kind == 'filelist::':
            return str([full]) if os.path.exists(full) else '[]'
        c.event('contents of a file')
        if inner not in self.files:
            return ''
        return self.text(node, self.files[inner], deep)

    def attr(self, node, ref, deep):
        if '.' in ref and not ref.endswith('.'):
            path, attr = ref.rsplit('.', 1)
            if path and attr:
                self.c.event('reference elsewhere')
                if not path.startswith('/'):
                    self.c.event('relative reference')
                path = model.expand(path, node)
                return self.value(path, attr, deep)
        return self.value(node, ref, deep)


# -- the graphs -------------------------------------------------------------------

WORDS = ['x', 'a b', '1', '.5', '/p/q', 'k: {', '$', '$x', '{', "it's", '"q"',
         '\n', 'f.txt', '-', '{0}']
ALL_FILES = ['f1.txt', 'sub/f2.txt', 'tok.txt', 'gone.txt', 'sub', './']
FILES = []


def attr_name(k, rng):
    return 'l%d_%d' % (k, rng.randrange(2))


def some_ref(rng, paths, node, k):
    """Text of a reference to an attribute of level k, as parts."""
    name = attr_name(k, rng)
    if rng.random() < .2 and k < 5:
        name = 'l%d_${l%d_d}' % (k, 6)
    r = rng.random()
    if r < .5:
        return name
    if rng.random() < .15:
        return rng.choice(['/gone', '../gone', 'gone', '/a/gone/b', '../../../..']) \
            + '.' + name
    other = rng.choice(sorted(paths))
    if rng.random() < .5:
        return other + '.' + name
    rel = os.path.relpath(other, node)
    if rng.random() < .2:
        rel = './' + rel
    return rel + '.' + name


def text(rng, paths, node, k, nest=0):
    """Text which refers to attributes of levels above k only."""
    out = ''
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if r < .35 or (k >= 5 and r < .6) or nest > 3:
            out += rng.choice(WORDS)
        elif r < .72 and k < 5:
            out += '${' + some_ref(rng, paths, node, rng.randint(k + 1, 5)) + '}'
        elif r < .78:
            out += '${_nxtpath}'
        elif r < .82:
            out += '${_nxtcolor}'
        elif r < .87:
            out += '${ex::' + text(rng, paths, node, k, nest + 2) + '}'
        elif r < .91:
            out += '${path::' + text(rng, paths, node, k, nest + 2) + '}'
        elif r < .95 and FILES:
            f = rng.choice(FILES)
            out += rng.choice(['${file::%s}', '${filelist::%s}',
                               '${contents::${file::%s}}',
                               '${contents::${path::%s}}']) % f
        else:
            out += '${${l6_p%d}}' % max(k, 1)
    return out


def soup(c):
    """Random braces through the parsing functions."""
    rng = c.rng
    from nxt import tokens
    for _ in range(12):
        s = ''.join(rng.choice(['${', '}', '{', '$', 'a', 'b', ':', ' ', '${', '}'])
                    for _ in range(rng.choice([rng.randint(0, 12)] * 3 + [40])))
        if rng.random() < .1:
            s += ''.join('${%s%d}' % (rng.choice('ab'), i)
                         for i in range(rng.randint(2, 30)))
        parts, _ = parse(s)
        got = tokens.get_standalone_tokens(s)
        want = [] if parts is None else [unparse([x]) for x in parts
                                         if not isinstance(x, str)]
        c.equal(got, want, 'parsed', s)
        if parts is None:
            continue
        c.equal(set(tokens.get_atomic_tokens(s)), set(innermost(parts)), 'parsed', s)
        for t in want:
            c.equal(tokens.make_token_str(tokens.get_token_content(t)), t, 'parsed', s)
        part = tokens.atomic_token_partition(s)
        if not want:
            c.equal(part, (None, None, None), 'parsed', s)
            continue
        c.equal(''.join(part), s, 'parsed', s)
        c.check(part[1] in innermost(parts), 'parsed', s)
        b, t, a = nx.Stage.next_token_partition(s)
        c.equal((b, '${' + t + '}', a), part, 'parsed', s)
        for t in innermost(parts):
            kind = nx.Stage.determine_token_type(t[2:-1])
            found = nx.Stage.get_tokens_from(s, kind) if kind else [t]
            c.check(t in found, 'parsed', s)


def case(c):
    rng = c.rng
    soup(c)
    n = rng.choice([1, 1, 2, 3])
    inst = rng.choice([0, .25])
    # file tokens look at weaker compositions, which do not follow instances that
    # differ there
    FILES[:] = ALL_FILES if n == 1 or not inst else []
    o = gen.Opts(layers=(n, n), instances=inst, nodes=(1, 6),
                 attrs=(0, 0), world=.5, code=0, rel_inst=.5)
    layers = gen.gen_layers(rng, o)
    m = in_scope(layers)
    paths = m.all_paths() | set(['/'])
    for nodes in layers:
        for p in nodes:
            at = nodes[p].setdefault('attrs', {})
            for k in range(6):
                for j in range(2):
                    if rng.random() < .2:
                        v = text(rng, paths, p, k)
                        if rng.random() < .1:
                            v = rng.choice([[v, 1], {'k': v}, 0, '', None, False, 3,
                                            1.5, [], True])
                        at['l%d_%d' % (k, j)] = {'value': v}
            if rng.random() < .05:
                at['l5_1'] = {'value': rng.choice(['${l5_', 'a ${', '${a ${b}'])}
            if rng.random() < .3 or p == '/':
                at['l6_d'] = {'value': rng.choice(['0', '1', 1, 'x', ''])}
            for k in range(1, 6):
                if rng.random() < .3:
                    at['l6_p%d' % k] = {'value': rng.choice([
                        attr_name(min(k + 1, 5), rng), 'l6_d', '', '/a.l6_d', 'x.'])}
            if rng.random() < .6:
                nodes[p]['code'] = [text(rng, paths, p, rng.randrange(3))
                                    for _ in range(rng.randint(1, 3))]
            if not at:
                del nodes[p]['attrs']
    m = in_scope(layers)
    d = os.path.realpath(c.scratch())
    c.note = repr(layers)
    colors = [rng.choice([None, '#00%04x' % i]) for i in range(n)]
    files = {'f1.txt': 'plain', 'sub/f2.txt': text(rng, paths, '/', 2),
             'tok.txt': '${l5_0} and ${l6_d}'}
    known = {}
    for f, t in files.items():
        t = t.encode('ascii', 'ignore').decode()
        p = os.path.join(d, f)
        if not os.path.isdir(os.path.dirname(p)):
            os.makedirs(os.path.dirname(p))
        with open(p, 'w') as fp:
            fp.write(t)
        known[p] = t
    os.environ.pop('NXT_FILE_ROOTS', None)
    stage = nx.load(nx.write_graph(
        d, layers, dict((i, {'color': x}) for i, x in enumerate(colors) if x))[0])
    comp = stage.build_stage()

    def color(p):
        # the layer the node comes from: the strongest with the node
        src = getattr(comp.lookup(p), nx.IA.SOURCE_LAYER)
        return [k for k in nx.layers_of(stage) if k.real_path == src][0].color or ''

    w = World(c, m, d, color, known)
    nested = set()
    try:
        for p in sorted(m.all_paths()):
            node = comp.lookup(p)
            if node is None:
                continue
            for a, (ad, _) in m.attrs(p).items():
                w.busy = 0
                want = w.value(p, a, 0)
                raw = ad.get('value')
                got = stage.get_node_attr_value(node, a, comp, resolved=True)
                c.equal(got, want, 'resolved value', (p, a, raw))
                c.check(getattr(node, a) == raw, 'raw value untouched', (p, a))
                if raw and isinstance(raw, str):
                    c.equal(stage.resolve(node, raw, comp), want, 'resolved text')
                    if raw.count('${') > 1:
                        nested.add(tuple(x for x in ('file::', 'ex::', 'path::',
                                                     'contents::', '.', '_nxt', '${${',
                                                     '${l', ' ') if x in raw)
                                   + (len(m.lineage(p)), raw.count('${')))
            lines = stage.get_node_code_lines(node, comp)
            code = '\n'.join(lines)
            c.equal(stage.get_node_code_string(node, comp, 'raw'), code, 'raw code')
            if code:
                w.busy = 0
                c.equal(stage.get_node_code_string(node, comp, 'resolved'),
                        '\n'.join(w.text(p, x) for x in lines), 'resolved code', (p, code))
    except RecursionError:
        raise common.Skip('references lead back to themselves')
    for k in nested:
        c.sig(k)
    c.sample({'layers': layers})
