"""Every record of a log, once, in order."""
import fcntl
import json
import logging
import logging.handlers
import os
import random
import re
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import common
import nx
from nxt import nxt_log

RULE = """Three kinds of case. Files: histories of session logs started (names made or
given), sessions opened, records logged at every level by loggers of the package, logs
stopped, log files aged or deleted, files of others beside them; the lines of every file
and the files that are left are compared with a model. Verbosity: histories of levels
with records in between, in this process and in a process started with the variable set.
Sockets: several clients at once send records (arguments, links, long texts, errors) to a
receiver, by the logging module or by hand in pieces cut anywhere, many in one piece;
some stop in the middle of a record. Distinct by the sequence of operations."""
ASSUMPTIONS = [
    """A file name is given to one log at a time.""",
    """nxt's own records (that a log was started) may appear beside those sent here.""",
]
COUNT = {'quick': 1600, 'thorough': 25000}
MIN = {'log file holds its records': 7000, 'log is where it was asked for': 250,
       'logs on record': 1000, 'made name is new': 800, 'old log': 80,
       'other files stay': 2000, 'stale log removed': 80, 'records arrive': 500,
       'records received': 3000, 'several clients': 120, 'sent: bytes': 150,
       'sent: handler': 80, 'sent: pieces': 150, 'sent: together': 80,
       'client stopped in a record': 80, 'verbosity': 120, 'verbosity of a process': 15,
       'receiver stops': 180, 'a sender that says nothing': 70, 'server of a session': 1, 'records of a server': 2}
CPU = 120
LEVELS = {'debug': ('DEBUG', 10), 'socket': ('SOCKET', 16), 'compinfo': ('COMPOSITE', 17),
          'execinfo': ('EXECUTE', 18), 'nodeout': ('NODEOUT', 19), 'info': ('INFO', 20),
          'warning': ('WARNING', 30), 'grapherror': ('GRAPH ERROR', 39),
          'error': ('ERROR', 40), 'critical': ('CRITICAL', 50)}
BROKEN = []
NAMES = ['nxt', 'nxt.stage', 'nxt.a.b', 'nxt.session', 'nxt.plugins.x']
HOURS = 60 * 60


def setup(ctx):
    logging.disable(logging.NOTSET)


class Logs(object):
    """The package's logging as it is when nothing has been asked of it."""

    def __enter__(self):
        self.root = logging.getLogger('nxt')
        self.was = list(self.root.handlers), nxt_log.verbose_handler
        self.err = sys.stderr
        sys.stderr = self.stderr = common.io.StringIO()
        return self

    def __exit__(self, *_):
        sys.stderr = self.err
        for h in list(self.root.handlers):
            if h not in self.was[0]:
                self.root.removeHandler(h)
                h.close()
        nxt_log.verbose_handler = self.was[1]
        nxt_log.SESSION_LOG_HANDLERS.clear()


def say(rng, n):
    """Log record n; the line it makes."""
    how = rng.choice(sorted(LEVELS))
    text = '<%d>' % n + rng.choice(['', ' a text', ' 100% of {it}', ' \\n', '  x  '])
    log = logging.getLogger(rng.choice(NAMES))
    k = rng.randrange(3)
    if k == 0:
        getattr(log, how)(text)
    elif k == 1:
        getattr(log, how)('%s', text)
    elif how in ('debug', 'info', 'warning', 'error', 'critical') or True:
        getattr(log, how)(text, links=['/a', '/b'][:rng.randint(0, 2)])
    return LEVELS[how][0] + ': ' + text, LEVELS[how][1]


def mine(text):
    return [l for l in text.split('\n') if re.search(r': <\d', l)]


def files(c):
    rng = c.rng
    user, tmp, other = c.scratch('user'), c.scratch('tmp'), c.scratch('other')
    was = nxt_log.USER_DIR, tempfile.tempdir
    nxt_log.USER_DIR, tempfile.tempdir = user, tmp
    try:
        with Logs():
            history(c, rng, user, tmp, other)
    finally:
        nxt_log.USER_DIR, tempfile.tempdir = was


def history(c, rng, user, tmp, other):
    from nxt.session import Session
    lines, going, tracked, ages = {}, [], set(), {}
    beside = []
    n = 0
    did = []

    def read(p):
        with open(p) as fp:
            return fp.read()

    def started(p, made):
        if made:
            c.check(p not in lines or p in gone, 'made name is new', lambda: (p, did))
            c.check(p.startswith(tmp + os.sep), 'made in the temporary folder', p)
        going.append(p)
        lines[p] = []
        for q in tracked & gone - set([p]):
            c.check(not os.path.exists(q), 'stale log removed', lambda: (q, did))
            tracked.remove(q)
        gone.discard(p)
        ages.pop(p, None)
        tracked.add(p)
        with open(os.path.join(user, '.nxt_meta_log')) as fp:
            on_record = set(q for q in fp.read().split('\n') if os.path.exists(q))
        c.equal(on_record, tracked, 'logs on record', lambda: did)

    gone = set()
    for _ in range(rng.randint(4, 25)):
        op = rng.choice(['make', 'make', 'named', 'session', 'say', 'say', 'say', 'say',
                         'stop', 'stop', 'stop other', 'age', 'age', 'delete', 'beside'])
        did.append(op)
        if op == 'make':
            started(nxt_log.make_session_log(), True)
        elif op == 'session':
            started(Session().log_file, True)
        elif op == 'named':
            n += 1
            p = os.path.join(other, rng.choice(['l%d.log', 'a b%d', 'x%d.txt']) % n)
            c.equal(nxt_log.make_session_log(p), p, 'log is where it was asked for')
            started(p, False)
        elif op == 'say':
            for _ in range(rng.choice([1, 1, 3])):
                n += 1
                line, _ = say(rng, n)
                for p in going:
                    lines[p].append(line)
        elif op == 'stop' and going:
            p = rng.choice(going)
            nxt_log.stop_session_log(p)
            going.remove(p)
        elif op == 'stop other':
            nxt_log.stop_session_log(rng.choice([os.path.join(tmp, 'none'), '', None] + [
                p for p in lines if p not in going]))
        elif op in ('age', 'delete'):
            ps = [p for p in sorted(tracked) if p not in going and p not in gone]
            if not ps:
                continue
            p = rng.choice(ps)
            if op == 'delete':
                os.remove(p)
                gone.add(p)
            else:
                ages[p] = rng.choice([1, 47, 47.9, 48.1, 49, 1000])
                when = time.time() - ages[p] * HOURS
                os.utime(p, (when, when))
                if ages[p] > 48:
                    c.event('old log')
                    gone.add(p)
        elif op == 'beside':
            # not tracked: however old, not nxt's to remove
            p = os.path.join(rng.choice([user, other, tmp]), 'beside%d' % len(beside))
            with open(p, 'w') as fp:
                fp.write('mine')
            when = time.time() - 1000 * HOURS
            os.utime(p, (when, when))
            beside.append(p)
        c.event('did: ' + op)
        for p in lines:
            if p in gone and not os.path.exists(p):
                continue
            c.check(os.path.isfile(p), 'log file stays', lambda: (p, did))
            c.equal(mine(read(p)), lines[p], 'log file holds its records',
                    lambda: (p, did))
        for p in beside:
            c.check(os.path.isfile(p) and read(p) == 'mine', 'other files stay',
                    lambda: (p, did))
    if len(set(did)) > 4:
        c.sig(tuple(did))
    c.sample(did)


def verbosity(c):
    rng = c.rng
    did, n = [], 0
    with Logs() as logs:
        level, seen = 0, []
        for _ in range(rng.randint(2, 8)):
            if rng.random() < .6:
                level = rng.randint(0, 3)
                did.append(level)
                nxt_log.set_verbosity(rng.choice([level, str(level)]))
                continue
            n += 1
            line, value = say(rng, n)
            did.append(line)
            if level > 1 or level == 1 and value >= nxt_log.EXECINFO:
                seen.append(line)
            c.equal(mine(logs.stderr.getvalue()), seen, 'verbosity', lambda: did)
    c.sig('verbosity', tuple(d for d in did if isinstance(d, int)))


CODE = """
import sys, random
sys.path.insert(0, %r)
from nxt import nxt_log
from props import c23
rng = random.Random(%r)
for n, level in enumerate(%r):
    if level is not None:
        nxt_log.set_verbosity(level)
    c23.say(rng, n)
"""


def process(c):
    """The same, for the level a process starts with."""
    rng = c.rng
    first = rng.choice(['0', '1', '2'])
    levels = [None] + [rng.choice([None, 0, 1, 2]) for _ in range(rng.randint(0, 4))]
    seed = rng.randrange(10 ** 6)
    code = CODE % (common.HERE, seed, levels)
    env = dict(os.environ, NXT_VERBOSE=first)
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=env,
                       cwd=c.scratch(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    again, want, level = random.Random(seed), [], int(first)
    root = logging.getLogger('nxt')
    with Logs():
        for n, l in enumerate(levels):
            level = level if l is None else l
            line, value = say(again, n)
            if level > 1 or level == 1 and value >= nxt_log.EXECINFO:
                want.append(line)
    err = r.stderr.decode()
    c.equal((r.returncode, mine(err)), (0, want), 'verbosity of a process',
            lambda: (first, levels, err[-800:]))


class Capture(logging.Handler):
    def __init__(self):
        super(Capture, self).__init__(0)
        self.seen = []

    def emit(self, record):
        self.seen.append((threading.get_ident(), record))


def record(rng, who, n):
    """A record and what must arrive of it."""
    how = rng.choice(sorted(LEVELS))
    word, level = LEVELS[how]
    long_ = rng.random() < .1
    text = '%s-%d' % (who, n) + ('x' * rng.choice([5000, 70000, 300000]) if long_ else
                                 rng.choice(['', ' y', ' %', ' \u00e9']))
    args, msg, exc = (), text, None
    k = rng.randrange(4)
    if k == 1 and '%' not in text:
        args, msg = (n, 'q'), text + ' %d %s'
        text = msg % args
    elif k == 2:
        try:
            raise ValueError('bad %d' % n)
        except ValueError:
            exc = sys.exc_info()
    elif '%' in text:
        args, msg = (), text
    r = logging.LogRecord(rng.choice(NAMES), level, __file__, n, msg, args, exc)
    if rng.random() < .3:
        r.links = ['/n%d' % n]
    return r, (r.name, level, 'remote.' + r.levelname, text, n,
               getattr(r, 'links', None), exc and 'bad %d' % n)


def got(r):
    return (r.name, r.levelno, r.levelname, r.getMessage(), r.lineno,
            getattr(r, 'links', None),
            ([l for l in (r.exc_text or '').split('\n') if l] or [''])[-1]
            .replace('ValueError: ', '') or None)


def sockets(c):
    rng = c.rng
    logging.addLevelName(16, 'SOCKET')
    before = set(threading.enumerate())
    with Logs() as logs:
        cap = Capture()
        logs.root.addHandler(cap)
        server = nxt_log.LogRecordSocketReceiver(port=0)
        server.timeout = .05
        server.daemon_threads = True    # or a thread that never ends keeps us here
        port = server.server_address[1]
        main = threading.Thread(target=server.serve_until_stopped, daemon=True)
        main.start()
        plans, threads, errs = [], [], []
        for k in range(rng.randint(1, 5)):
            who = 'w%d' % k
            recs = [record(rng, who, n) for n in range(rng.randint(1, 12))]
            how = rng.choice(['handler', 'bytes', 'bytes', 'pieces', 'pieces', 'together'])
            cut = how != 'handler' and rng.random() < .3
            plans.append((who, recs, how, cut))
            threads.append(threading.Thread(target=client, daemon=True, args=(
                port, recs, how, cut, rng.randrange(10 ** 6), errs)))
        idle = None
        if rng.random() < .4:
            # stays for as long as the others take
            idle = socket.create_connection(('localhost', port), 10)
            idle.sendall(b'\0\0'[:rng.randrange(3)])
            c.event('a sender that says nothing')
            if rng.random() < .5:
                time.sleep(.01)
        for t in threads:
            t.start()
        for t in threads:
            t.join(30)
        want = sum(len(p[1]) for p in plans)
        sig = sorted((p[2], p[3], len(p[1])) for p in plans)
        end = time.time() + 10
        while time.time() < end:
            if idle and len(cap.seen) >= want:
                idle.close()
            live = [t for t in set(threading.enumerate()) - before if t is not main]
            if not live and len(cap.seen) >= want:
                break
            time.sleep(.002)
        if idle:
            idle.close()
        c.check(not errs, 'clients are served', lambda: (sig, errs))
        for who, recs, how, cut in plans:
            seen = [got(r) for _, r in cap.seen if r.getMessage().startswith(who + '-')]
            c.equal(seen, [w for _, w in recs], 'records arrive',
                    lambda: (who, how, cut, sig))
            c.event('records received', len(seen))
            c.event('sent: ' + how)
            if cut:
                c.event('client stopped in a record')
        c.check(len(cap.seen) == want, 'nothing else arrives', lambda: [
            got(r) for _, r in cap.seen][:20])
        c.check(not live, 'a client that left is done with', lambda: (sig, live))
        c.equal(logs.stderr.getvalue(), '', 'receiver has no errors', lambda: sig)
        server.kill = True
        main.join(10)
        c.check(not main.is_alive(), 'receiver stops')
        server.server_close()
        if len(plans) > 1:
            c.event('several clients')
            order = [r.getMessage().split('-')[0] for _, r in cap.seen]
            c.sig('sockets', tuple(order))
    c.sample(sig)


def client(port, recs, how, cut, seed, errs):
    rng = random.Random(seed)
    try:
        send(port, recs, how, cut, rng)
    except Exception as e:
        errs.append('%s: %s' % (type(e).__name__, e))


def send(port, recs, how, cut, rng):
    h = logging.handlers.SocketHandler('localhost', port)
    if how == 'handler':
        for r, _ in recs:
            h.handle(r)
        h.close()
        return
    data = [h.makePickle(r) for r, _ in recs]
    h.close()
    tail = b''
    if cut:
        extra = logging.LogRecord('nxt', 20, __file__, 0, 'cut', (), None)
        tail = h.makePickle(extra)
        tail = tail[:rng.randrange(1, len(tail))]
    s = socket.create_connection(('localhost', port), 10)
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    try:
        if how == 'bytes':
            for d in data + [tail]:
                s.sendall(d)
        elif how == 'together':
            s.sendall(b''.join(data) + tail)
        else:
            # cut into pieces, some of them inside the length of a record
            text = b''.join(data) + tail
            at, marks = 0, set()
            for d in data:
                if rng.random() < .5:
                    marks.add(at + rng.randrange(1, 4))
                if rng.random() < .5:
                    marks.add(at + rng.randrange(4, len(d)))
                at += len(d)
            at = 0
            for m in sorted(marks) + [len(text)]:
                s.sendall(text[at:m])
                at = m
                time.sleep(.002)
    finally:
        s.close()


SESSION = """
import json, os, subprocess, sys
from nxt.session import Session
from nxt.remote.client import NxtClient
g, plan = sys.argv[1], json.loads(sys.argv[2])
s = Session()
out = []
for n, op in enumerate(plan):
    mine = s.rpc_server and s.rpc_server.terminal
    if op == 'start':
        s._start_rpc_server(custom_stdout=True, socket_log=True)
    elif op == 'stop':
        s.shutdown_rpc_server()
        if mine:
            mine.wait(20)
    elif op == 'context':
        s.execute_graph(g, parameters={'/n.x': str(n)}, context='python')
    elif op == 'nodes':
        s.execute_nodes(g, ['/n'], parameters={'/n.x': str(n)})
    else:
        s.execute_graph(g, parameters={'/n.x': str(n)})
    if op == 'context' and not mine:
        alive = False    # its own server is asked to end, which may take a moment
    else:
        try:
            alive = NxtClient().is_alive()
        except Exception:
            alive = False
    out.append([bool(s.rpc_server), alive])
    with open(os.path.join(os.path.dirname(g), 'result'), 'w') as fp:
        json.dump([s.log_file, out], fp)
"""


def session(c):
    """Records of a server a session starts, stops and starts again."""
    rng = c.rng
    plan = ['start', 'context', rng.choice(['run', 'nodes']), 'stop']
    plan.insert(rng.randrange(5), rng.choice(['run', 'nodes', 'context', 'stop']))
    plan += ['start', rng.choice(['run', 'nodes', 'context']), 'context', 'stop']
    d = c.scratch()
    code = ['import logging', 'for i in range(3):',
            "    logging.getLogger('nxt.n').warning('<%s.%d>', self.x, i)"]
    g = os.path.join(d, 'g.nxt')
    nx.dump(g, {'version': '1.17', 'nodes': {'/n': {
        'start_point': True, 'code': code, 'attrs': {'x': {'value': 'no'}}}}})
    env = dict(os.environ, TMPDIR=c.scratch('t'), NXT_USER_DIR=c.scratch('u'),
               NXT_DCC='standalone', PYTHONDONTWRITEBYTECODE='1')
    env.pop('NXT_VERBOSE', None)
    # the port of the log socket is the same for every process
    lock = os.open(os.path.join(os.path.dirname(c.root), 'log.lock'),
                   os.O_RDWR | os.O_CREAT)
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        with open(os.path.join(d, 'out'), 'w') as out:
            p = subprocess.Popen(
                [sys.executable, '-W', 'ignore', '-c', SESSION, g, json.dumps(plan)],
                cwd=d, env=env, stdout=out, stderr=out, start_new_session=True)
            try:
                rc = p.wait(120)
            except subprocess.TimeoutExpired:
                rc = 'did not end'
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
    finally:
        os.close(lock)
    with open(os.path.join(d, 'out')) as fp:
        said = fp.read()[-1500:]
    try:
        with open(os.path.join(d, 'result')) as fp:
            log, states = json.load(fp)
        with open(log) as fp:
            lines = mine(fp.read())
    except (IOError, ValueError):
        log, states, lines = None, [], []
    on, want, seen = False, [], []
    for n, op in enumerate(plan):
        on = True if op == 'start' else False if op == 'stop' else on
        want.append([on, on])
        if op in ('run', 'nodes') or op == 'context' and on:
            seen += [('remote.' if op == 'context' else '') + 'WARNING: <%d.%d>' % (n, i)
                     for i in range(3)]
    c.equal((rc, states), (0, want), 'server of a session', lambda: (plan, said))
    # the two arrive by different ways
    for far in (True, False):
        c.equal([l for l in lines if l.startswith('remote.') == far],
                [l for l in seen if l.startswith('remote.') == far],
                'records of a server', lambda: (plan, said))
    c.sig(tuple(plan))


def case(c):
    if BROKEN:
        raise common.Skip('a receiver of this process has not ended')
    if c.index % 40 == 39 and c.index < (400 if c.thorough else 120):
        return session(c)
    k = c.index % 40
    if k == 0:
        process(c)
    elif k < 14:
        BROKEN.append(c.index)
        sockets(c)
        BROKEN.pop()
    elif k < 18:
        verbosity(c)
    else:
        files(c)
