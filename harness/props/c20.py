"""Every way to run a graph is the same run."""
import argparse
import ast
import contextlib
import gc
import json
import logging
import os
import shutil
import socket
import subprocess
import sys
import tempfile
import threading
import time
import common
import nx
from props import c09

RULE = """Random layered graphs of generated programs (as for C09) run through a session, the
package function, a list of nodes, the command line (in process and as a process of its
own, parameters in line or in a file) and a remote context (a server in process or one
the session starts, contexts made by create_context, several clients at once, the
builtin remote node), from absolute, relative and variable paths. What node code saw,
how it ended and the record of the run are compared with Stage.execute. Wrong arguments
must run nothing. Non-trivial when two ways agreed; distinct by way and log of reads."""
ASSUMPTIONS = [
    """A remote run also hands its world node the files and start it was called with; they
    are left out of the comparison.""",
    """Parameters pass as text, so only values JSON and XML-RPC can carry are given.""",
    """An attribute that ends without a value is not compared for the remote node: its
    result comes back in a file, which does not hold such attributes.""",
    """Of a failed remote run only that it fails is compared; its output goes to a log.""",
]
COUNT = {'quick': 1000, 'thorough': 6000}
MIN = {'same run: session': 100, 'same run: function': 100, 'same run: nodes': 100,
       'same run: command': 100, 'same run: process': 15, 'same run: remote': 25,
       'same run: remote node': 8, 'remote record': 50, 'remote run failed': 2,
       'wrong arguments': 30, 'several clients': 8, 'made context': 8,
       'left early': 12,
       'remote node: a graph that calls a graph': 3, 'no files left open': 5}
CPU = 300
SERVED = []
EXTRA = ('cache_file', 'graph_file', 'parameters_file', 'start_node', 'ret')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = sys.executable


SERVER = """
import os, sys, threading
from nxt.remote import server
s = server.NxtServer(('localhost', 0))
s.register_instance(server.ServerFunctions(None))
os.write(int(sys.argv[1]), b'localhost\\n%d' % s.server_address[1])
os.close(int(sys.argv[1]))
t = threading.Thread(target=s.serve_forever)
t.daemon = True
t.start()
sys.stdin.read()
os._exit(0)
"""


def setup(ctx):
    """A server in this process, which knows the contexts made here, and one that is a
    process with a working folder of its own and ends with this one."""
    from nxt.remote import server
    os.environ['PYTHONPATH'] = os.pathsep.join([common.REPO, os.path.join(HERE, 'sink')])
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['NXT_DCC'] = 'standalone'
    os.environ['NXT_VERBOSE'] = '0'
    d = tempfile.mkdtemp()
    os.environ['NXTV_LOG'] = os.path.join(d, 'log')
    r, w = os.pipe()
    with open(os.path.join(d, 'out'), 'w') as out:
        SERVED.append(subprocess.Popen(
            [PYTHON, '-c', SERVER, str(w)], cwd=d, stdin=subprocess.PIPE,
            stdout=out, stderr=out, pass_fds=[w]))
    os.close(w)
    with os.fdopen(r) as fp:
        SERVED.append(fp.read())
    s = server.NxtServer(('localhost', 0))
    s.register_instance(server.ServerFunctions(None))
    t = threading.Thread(target=s.serve_forever)
    t.daemon = True
    t.start()
    SERVED.append('localhost\n%d' % s.server_address[1])


def serve(here=False):
    from nxt.remote import get_server_info_filepath
    with open(get_server_info_filepath(), 'w') as fp:
        fp.write(SERVED[2 if here else 1])


def close_logs():
    log = logging.getLogger('nxt')
    for h in list(log.handlers):
        if isinstance(h, logging.FileHandler):
            log.removeHandler(h)
            h.close()


@contextlib.contextmanager
def quiet_fds(path):
    """Also for the processes started in here."""
    out = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    keep = os.dup(1), os.dup(2)
    sys.stdout.flush(), sys.stderr.flush()
    os.dup2(out, 1), os.dup2(out, 2)
    try:
        with common.quiet():
            yield
    finally:
        os.dup2(keep[0], 1), os.dup2(keep[1], 2)
        for fd in (out,) + keep:
            os.close(fd)


class Ref(object):
    """The run every other is compared with."""

    def __init__(self, c, d, wild=.25, world_ok=True):
        rng = c.rng
        self.d = d
        self.layers, self.progs, self.m = c09.make(c, wild, more=True)
        names = ['graph.nxt'] + ['l%d.nxt' % i for i in range(1, len(self.layers))]
        self.path = nx.write_graph(d, self.layers, names=names)[0]
        self.stage = nx.load(self.path)
        ps = sorted(p for p in self.m.all_paths() if p != '/')
        if not ps:
            raise common.Skip('no nodes')
        starts = [p for p in ps if self.m.strongest(p, 'start_point')[0]]
        self.start = rng.choice(ps)
        self.said = self.start
        if len(starts) == 1 and rng.random() < .4:
            self.start, self.said = starts[0], None
        self.order = self.stage.build_stage().get_exec_order(self.start)
        self.params = []
        if rng.random() < .7:
            self.params = [(rng.choice(ps + ['/']), rng.choice(c09.ATTRS), rng.choice(
                ['7', '8', 'par', 'two words', "'q'", '[1, 2]', '-17', '', '/a', '"', 'None',
                 ' 7', 'par ', ' two words ', "' '", '\t8', 'x\n', ' ']))
                for _ in range(rng.choice([1, 1, 2, 2, 3, 6, 9]))]
        # the interpreter only says whether this is in scope
        c09.predict(self.m, self.progs, self.order, self.params)
        self.log, self.rt, self.err = c09.run(self.stage, self.start, self.params)
        self.what = lambda: (self.said, self.params, self.layers)

    def pdict(self):
        return c09.pdict(self.params)

    def left(self):
        from nxt import runtime
        return isinstance(self.err, runtime.ExitGraph)


def record(rt, js=False):
    out = {}
    for p, node in rt.nodes.items():
        own = [a for a in c09.names_of(node) if a not in EXTRA and
               (p != '/' or a in vars(node))]
        at = {}
        for a in own:
            v = getattr(node, a)
            if js:
                try:
                    at[a] = json.dumps(json.loads(json.dumps(v)))
                except (TypeError, ValueError):
                    at[a] = 'null'
            else:
                at[a] = repr(c09.frozen(v))
        out[p] = (node._cached_code, at)
    return out


def spelled(c, path):
    """Other ways to say where the graph is; the working folder changes."""
    d, name = os.path.split(path)
    k = c.rng.randrange(5)
    os.environ['NXTV_DIR'] = d
    if k == 0:
        os.chdir(d)
        return c.rng.choice([name, './' + name])
    if k == 1:
        return '$NXTV_DIR/' + name
    if k == 2:
        return '${NXTV_DIR}/' + name
    return path


def same(c, way, ref, log, err, what):
    c.check(type(err) is type(ref.err), 'same end: ' + way,
            lambda: (repr(err), repr(ref.err), what()))
    if err is not None:
        c.equal(str(err).split('\n')[-1], str(ref.err).split('\n')[-1],
                'same message: ' + way, what)
    compare(c, way, ref.log, log, what)
    if ref.left():
        c.event('left early')


def compare(c, way, a, b, what):
    if a != b:
        n = 0
        while n < min(len(a), len(b)) and a[n] == b[n]:
            n += 1
        c.fail('same run: %s: entry %d\nexpected %s\ngot %s\n%r' % (
            way, n, a[n:n + 1], b[n:n + 1], what()))
    c.event('same run: ' + way)
    c.sig(way, tuple(a))


def forget():
    if os.path.exists(os.environ['NXTV_LOG']):
        os.remove(os.environ['NXTV_LOG'])


def told(path):
    if not os.path.isfile(path):
        return []
    with open(path) as fp:
        return [ast.literal_eval(l) for l in fp]


def trimmed(log):
    return [(e[0], e[1], tuple(x for x in e[2] if x[0] not in EXTRA)) + tuple(e[3:])
            if e[0] == 'rec' else e for e in log]


def attempt(f):
    """(result, error)"""
    with common.quiet():
        try:
            return f(), None
        except (Exception, SystemExit) as e:
            return None, e


def case(c):
    d = c.scratch()
    cwd = os.getcwd()
    forget()
    serve()
    try:
        k = c.rng.randrange(100)
        if k < 14:
            wrong(c, d)
        elif k < 18:
            clients(c, d)
        elif k < 25:
            remote_node(c, d)
        else:
            ways(c, d)
    finally:
        os.chdir(cwd)
        close_logs()


def ways(c, d):
    import nxt
    rng = c.rng
    ref = Ref(c, d)
    c.note = repr(ref.layers)
    env = dict(os.environ)
    for way in rng.sample(['session', 'function', 'nodes', 'command'], 2):
        path = spelled(c, ref.path)
        cwd = os.getcwd()
        env = dict(os.environ)
        what = lambda: (way, path, ref.what())
        del c09.LOG[:]
        if way == 'session':
            rt, err = attempt(lambda: nxt.session.Session().execute_graph(
                path, ref.said, ref.pdict()))
            if err is None:
                c.equal(record(rt.cache_layer), record(ref.rt.cache_layer),
                        'same record', what)
        elif way == 'nodes':
            rt, err = attempt(lambda: nxt.session.Session().execute_nodes(
                path, ref.order, ref.pdict()))
        elif way == 'function':
            n = files() if rng.random() < .2 else None
            rt, err = attempt(lambda: nxt.execute_graph(path, ref.said, ref.pdict()))
            got = c09.LOG[:]
            if n is not None:
                for _ in range(3):
                    attempt(lambda: nxt.execute_graph(path, ref.said, ref.pdict()))
                c.check(files() <= n, 'no files left open', lambda: (n, files()))
                c09.LOG[:] = got
        else:
            rt, err = attempt(lambda: command(argv(c, ref, path)))
        same(c, way, ref, c09.LOG[:], err, what)
        c.equal(os.getcwd(), cwd, 'working folder left alone', what)
        c.equal(dict(os.environ), env, 'environment left alone', what)
    if rng.random() < .12:
        path = spelled(c, ref.path)
        args = argv(c, ref, path)
        r = subprocess.run([PYTHON, '-m', 'nxt.cli'] + args, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not ref.left():
            c.check((r.returncode == 0) == (ref.err is None), 'exit code of the process',
                    lambda: (r.returncode, r.stdout[-600:], repr(ref.err), args,
                             ref.what()))
        compare(c, 'process', ref.log, told(os.environ['NXTV_LOG']),
                lambda: (args, r.stdout[-600:], ref.what()))
        forget()
    if rng.random() < .2:
        remote(c, ref)
    c.sample({'start': ref.said, 'params': ref.params, 'layers': ref.layers})


def files():
    gc.collect()
    return len(os.listdir('/proc/self/fd'))


def argv(c, ref, path):
    rng = c.rng
    args = ['exec', path]
    if ref.said:
        args += [rng.choice(['-s', '--start']), ref.said]
    if ref.params:
        args += [rng.choice(['-p', '--parameters'])]
        if rng.random() < .5:
            f = os.path.join(ref.d, 'params.json')
            nx.dump(f, ref.pdict())
            args += [f]
        else:
            said = []
            for path, attr, v in ref.params:
                k = path + '.' + attr
                args += [k, v]
                if k in said:
                    c.event('parameter said twice')
                said.append(k)
    return args


def command(args):
    from nxt import cli
    old = sys.argv
    sys.argv = ['nxt'] + args
    try:
        cli.main()
    finally:
        sys.argv = old


def remote(c, ref):
    import nxt
    rng = c.rng
    what = lambda: ('remote', path, context, own, ref.what())
    context = 'python'
    own = rng.random() < .06
    if not own and rng.random() < .5:
        context = make_context(c, ref.d)
        serve(True)
    path = spelled(c, ref.path)
    with contextlib.ExitStack() as stack:
        if own:
            stack.enter_context(no_server(c))
        out = os.path.join(ref.d, 'out')
        with quiet_fds(out):
            layer, err = attempt(lambda: nxt.session.Session().execute_graph(
                path, ref.said, ref.pdict(), context=context))
        if own:
            if 'Failed to start RPC' in str(err):
                raise common.Skip('server did not start in time')
            ended(c)
    got = trimmed(told(os.environ['NXTV_LOG']))
    with open(out) as fp:
        text = fp.read()[-1500:]
    compare(c, 'remote', ref.log, got, lambda: (text, repr(err), what()))
    if ref.err is not None and not ref.left():
        c.check(err is not None, 'remote run failed', what)
        return
    c.check(err is None, 'remote run ended well', lambda: (repr(err), text, what()))
    c.equal(record(layer, js=True), record(ref.rt.cache_layer, js=True), 'remote record',
            what)
    if ref.left():
        c.event('left early remotely')


@contextlib.contextmanager
def no_server(c):
    """As on a machine where nothing was started yet."""
    old = tempfile.tempdir, os.environ['TMPDIR']
    d = c.scratch('tmp')
    tempfile.tempdir = os.environ['TMPDIR'] = d
    try:
        yield
    finally:
        tempfile.tempdir, os.environ['TMPDIR'] = old


def ended(c):
    from nxt.remote import get_running_server_address
    end = time.time() + 30
    while time.time() < end:
        s = socket.socket()
        with contextlib.closing(s):
            if s.connect_ex(get_running_server_address(as_str=False)):
                c.event('own server ended')
                return
        time.sleep(.2)
    c.fail('a session ends the server it started')


def make_context(c, d):
    import nxt
    rng = c.rng
    name = 'ctx_%d_%d' % (os.getpid(), c.index)
    kw = {}
    if rng.random() < .5:
        kw['exe_script_args'] = rng.choice([('-u',), ('-W', 'ignore')])
    if rng.random() < .5:
        g = os.path.join(d, 'context graph', 'my_context.nxt')
        nx.dump(g, {'version': nx.VERSION, 'references': ['$NXT_BUILTINS/_context.nxt'],
                    'nodes': {}})
        os.chdir(d)
        kw['context_graph'] = rng.choice([g, 'context graph/my_context.nxt'])
    with common.quiet(), c.no_raise('making a context'):
        c.equal(nxt.create_context(name, **kw), name, 'made context')
    if kw.get('context_graph') and rng.random() < .5:
        os.chdir('/')
    try:
        with common.quiet():
            nxt.create_context(name, **kw)
        c.fail('a name can be taken once')
    except (IOError, NameError):
        pass
    return name


def clients(c, d):
    """Several remote runs at once."""
    from nxt.remote.client import NxtClient
    from nxt.nxt_layer import CacheLayer
    rng = c.rng
    refs = []
    for i in range(rng.randint(3, 4)):
        for _ in range(5):
            try:
                refs.append(Ref(c, c.scratch('g%d_%d' % (i, _)), 0))
                break
            except common.Skip:
                pass
    if len(refs) < 2:
        raise common.Skip('few graphs')
    out = [None] * len(refs)

    def go(i):
        r = refs[i]
        try:
            f = NxtClient().exec_in_headless(r.path, r.said, None, r.pdict(), 'python')
            out[i] = (f, None)
        except Exception as e:
            out[i] = (None, e)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(refs))]
    with quiet_fds(os.path.join(d, 'out')):
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    for r, (f, e) in zip(refs, out):
        if r.err is not None:
            c.check(e is not None, 'remote run failed', r.what)
            continue
        c.check(e is None, 'remote run ended well', lambda: (repr(e), r.what()))
        c.equal(record(CacheLayer.load_from_filepath(f), js=True),
                record(r.rt.cache_layer, js=True), 'remote record', r.what)
    c.equal(len(set(f for f, e in out if f)), len([f for f, e in out if f]),
            'files of their own')
    c.event('several clients')


def remote_node(c, d):
    """The remote sub graph node against the local one."""
    rng = c.rng
    ref = Ref(c, d, .2)
    for i in range(rng.choice([0, 6])):
        if not ref.said:
            break
        try:
            ref = Ref(c, c.scratch('g%d' % i), .2)
        except common.Skip:
            pass
    start, graph, nested = ref.start, ref.path, False
    if not ref.said:
        nested = True
        start, graph = '/top', nx.dump(os.path.join(d, 'mid.nxt'), {
            'version': nx.VERSION, 'references': ['$NXT_BUILTINS/sub_graphs.nxt'],
            'nodes': {'/top': {'code': [
                "import nxtv_sink",
                "nxtv_sink.tok('look', repr([getattr(self, a, 0) for a in ("
                "'_graph_path', '_start')]))"]}, '/top/mid': {'instance': '/_sub_graph', 'attrs': {
                '_graph_path': {'value': ref.path}}}}})
    at = {'_graph_path': {'value': graph}, '_start': {'value': start}}
    for a in rng.sample(c09.ATTRS, rng.randint(0, 3)):
        at[a] = {'value': rng.choice(['5', '-17', '2.5', '[1, 2]', "{'k': [1]}", 'True',
                                      'two words', '', '${z}', '007'])}
    at.setdefault('z', {'value': 'zz'})
    if at['z']['value'] == '${z}':
        at['z']['value'] = 'zz'
    what = lambda: (at, ref.layers)
    got = []
    for kind, lib in (('/_sub_graph', 'sub_graphs'),
                      ('/_remote_sub_graph', 'remote_contexts')):
        f = nx.dump(os.path.join(d, lib + '.nxt'), {
            'version': nx.VERSION, 'references': ['$NXT_BUILTINS/%s.nxt' % lib],
            'nodes': {'/call': {'instance': kind, 'attrs': at},
                      '/call/after': {'code': [
                          "__import__('nxtv_sink').rec('after', self, {})"]}}})
        stage = nx.load(f)
        del c09.LOG[:]
        rt = stage.build_stage()
        with quiet_fds(os.path.join(d, 'out')):
            rt, err = attempt(lambda: stage.execute_nodes(['/call', '/call/after'], rt))
        log = c09.LOG[:]
        if 'remote' in kind:
            log = told(os.environ['NXTV_LOG']) + log
        log = trimmed(log)
        got.append((err, log, rt))
    (e1, l1, r1), (e2, l2, r2) = got
    c.equal(e2 is None, e1 is None, 'same end: remote node',
            lambda: (repr(e1), repr(e2), what()))
    if e1 is not None:
        c.check(type(e1) is type(e2) and ', in /call' in str(e2) and
                'TypeError: __init__' not in str(e2), 'remote run failed',
                lambda: (repr(e1), repr(e2), what()))
    js = lambda log: [e if e[1] != 'after' else 0 for e in log]
    compare(c, 'remote node', js(l1), js(l2), what)
    if nested:
        c.event('remote node: a graph that calls a graph')
    if e1 is None:
        # (an attribute without a value is not in a file, so nothing comes back for it)
        r1, r2 = [record(r.cache_layer, js=True)['/call'][1] for r in (r1, r2)]
        none = [k for k in r1 if r1[k] in (None, 'null')]
        r1, r2 = [{k: v for k, v in r.items() if k not in none and
                   v not in (None, 'null')} for r in (r1, r2)]
        c.equal(r2, r1, 'what comes back', what)


def wrong(c, d):
    """Nothing runs, and the caller is told."""
    import nxt
    rng = c.rng
    ref = Ref(c, d, 0)
    what = lambda: (args, ref.what())
    del c09.LOG[:]
    args = ['exec', ref.path, '-s', ref.start]
    k = rng.randrange(8)
    if k == 0:
        args += ['-p', ref.start + '.a', '1', ref.start + '.b']
    elif k == 1:
        args += ['-p', os.path.join(d, 'no such file.json')]
    elif k == 2:
        args += ['-p', rng.choice(['a', 'x.a', '.a']), '1']
    elif k == 3:
        args = ['exec', ref.path, '-s', '/not/there']
    elif k == 4:
        args = ['exec', os.path.join(d, 'nothing.nxt')]
    elif k == 5:
        args = ['exec', ref.path, '-c', 'no_such_context']
    elif k == 6:
        args = ['exec']
    else:
        args = ['exec', nx.dump(os.path.join(d, 'graph.txt'), nx.read(ref.path))]
    if k == 3 and rng.random() < .5:
        _, err = attempt(lambda: nxt.execute_graph(ref.path, '/not/there'))
    elif k == 5 and rng.random() < .5:
        _, err = attempt(lambda: nxt.execute_graph(ref.path, ref.start,
                                                   context='no_such_context'))
        c.check(isinstance(err, NameError), 'wrong arguments', lambda: (repr(err), what()))
    elif k == 5 and rng.random() < .5:
        _, err = attempt(lambda: nxt.session.Session().execute_graph(
            ref.path, ref.start, context='no_such_context'))
    elif rng.random() < .1:
        r = subprocess.run([PYTHON, '-m', 'nxt.cli'] + args, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        err = r.returncode or None
        c.check(not told(os.environ['NXTV_LOG']), 'nothing ran', what)
    else:
        _, err = attempt(lambda: command(args))
    if isinstance(err, SystemExit):
        c.check(err.code not in (0, None), 'wrong arguments', what)
    c.check(err is not None, 'wrong arguments', what)
    c.check(not c09.LOG, 'nothing ran', lambda: (c09.LOG[:1], what()))
