"""Reference model of layer composition.

Written from the rules, not from the implementation: a composed node takes, in
order, the opinions of its own layers (strong to weak), then those of its parent
lineage, then those of its instance source lineage, where anything both lineages
share comes after what is private to either.
"""
META = ('comment', 'type')


def parent_of(p):
    if p == '/':
        return None
    q = p[:p.rfind('/')]
    return q or '/'


def name_of(p):
    return p if p == '/' else p[p.rfind('/') + 1:]


def join(p, n):
    return '/' + n if p == '/' else p + '/' + n


def expand(rel, start):
    if not rel:
        return None
    if rel.startswith('/'):
        return rel
    cur = [x for x in start.split('/') if x]
    for d in rel.split('/'):
        if d == '..':
            cur = cur[:-1]
        elif d in ('.', ''):
            pass
        else:
            cur.append(d)
    return '/' + '/'.join(cur)


def is_desc(p, anc):
    return anc == '/' or p.startswith(anc + '/')


class Weird(Exception):
    """The graph asks for something the model does not describe."""


class Comp(object):
    def __init__(self, layers):
        """layers: active layers' {path: data}, strong to weak."""
        self.layers = layers
        self.specs = {}
        for i, nodes in enumerate(layers):
            for p, d in nodes.items():
                self.specs.setdefault(p, []).append((i, d))
        self.real = set(self.specs)
        self.inst = {}
        for p, sp in self.specs.items():
            for _, d in sp:
                if d.get('instance') is not None:
                    v = d['instance']
                    self.inst[p] = expand(v, p) if v else v
                    break
        self.authored_inst = dict(self.inst)
        self.proxies = set()
        self.conflicts = set()   # explicit instance overruled by an implied one
        self._proxy_fixpoint()
        self._lin = {}

    # structure
    def all_paths(self):
        return self.real | self.proxies

    def child_names(self, p, paths=None):
        """Direct child names, including those only implied by deeper nodes."""
        paths = self.all_paths() if paths is None else paths
        pre = '/' if p == '/' else p + '/'
        return set(x[len(pre):].split('/')[0] for x in paths
                   if x != '/' and x.startswith(pre))

    def _proxy_fixpoint(self):
        for rounds in range(60):
            new = {}
            for n in sorted(self.all_paths()):
                s = self.inst.get(n)
                if not s or s == '/':
                    continue
                if s == n or is_desc(n, s) or is_desc(s, n):
                    raise Weird('instance of self/ancestor/descendant')
                for c in self.child_names(s):
                    t = join(n, c)
                    if t in self.all_paths():
                        if t in self.authored_inst:
                            if self.authored_inst[t] != '' and \
                                    self.authored_inst[t] != join(s, c):
                                self.conflicts.add(t)
                                raise Weird('competing instance opinions')
                        else:
                            old = self.inst.get(t)
                            if old is None:
                                new[t] = join(s, c)
                    else:
                        new[t] = join(s, c)
            if not new:
                break
            if len(self.all_paths()) + len(new) > 300 or \
                    any(t.count('/') > 14 for t in new):
                raise Weird('unbounded instancing')
            for t, s in new.items():
                self.inst[t] = s
                if t not in self.real:
                    self.proxies.add(t)
        else:
            raise Weird('unbounded instancing')
        # nodes that only stand for an implied source node do not exist
        again = True
        while again:
            again = False
            for t in list(self.proxies):
                s = self.inst[t]
                if s not in self.all_paths():
                    self.proxies.discard(t)
                    again = True

    # linearisation through shadow classes
    def base_parent(self, p):
        q = parent_of(p)
        while q is not None and q not in self.all_paths():
            q = parent_of(q)
        return q

    def shadow(self, p, _busy=()):
        if p in self._lin:
            return self._lin[p]
        if p in _busy:
            raise Weird('cyclic')
        busy = _busy + (p,)
        bases = []
        for i, d in self.specs.get(p, []):
            bases.append(type('S', (object,), {'at': (i, p), 'data': d}))
        par = self.base_parent(p)
        pc = self.shadow(par, busy) if par is not None else None
        s = self.inst.get(p)
        ic = None
        if s and s in self.all_paths() and s != '/':
            ic = self.shadow(s, busy)
        if pc is not None and not (ic is not None and pc in ic.__mro__[1:]):
            bases.append(pc)
        if ic is not None and ic not in bases:
            bases.append(ic)
        try:
            c = type('N', tuple(bases) or (object,), {'path': p})
        except TypeError:
            raise Weird('inconsistent lineage')
        self._lin[p] = c
        return c

    def lineage(self, p):
        """[((layer index, path), data)], strongest first."""
        return [(k.at, k.data) for k in self.shadow(p).__mro__
                if 'at' in k.__dict__]

    def attrs(self, p):
        """attr -> (data, (layer idx, path) holding the winning opinion)."""
        out = {}
        for at, d in self.lineage(p):
            for a, ad in d.get('attrs', {}).items():
                if a not in out:
                    out[a] = (ad, at)
        return out

    # internal opinions
    def strongest(self, p, key):
        for i, d in self.specs.get(p, []):
            v = d.get(key)
            if v is not None and v != []:
                return v, i
        return None, None

    def inherited_internal(self, p, key, _seen=()):
        """code / enabled / comment: own layers, else the instance source."""
        v, _ = self.strongest(p, key)
        if v is not None:
            return v
        s = self.inst.get(p)
        if s and s in self.all_paths() and s != '/' and p not in _seen:
            return self.inherited_internal(s, key, _seen + (p,))
        return None
