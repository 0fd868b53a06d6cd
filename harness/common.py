"""Worker side of the checks: one process runs many cases of one property.

A case is a function of (property, seed, tier, index) only, so a VIOLATION can be
replayed alone. Every oracle evaluation is counted under a named event; a run that
did not reach its events is inconclusive, not held.
"""
import contextlib
import hashlib
import importlib
import io
import json
import logging
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import traceback

REPO = os.environ.get('NXT_VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CPU_PER_CASE = 90       # seconds of CPU; cases take milliseconds
MAX_VIOLATIONS = 3      # per worker


class Violation(Exception):
    def __init__(self, msg, key=None):
        super(Violation, self).__init__(msg)
        self.key = key


class OutOfCpu(BaseException):
    pass


class Skip(Exception):
    """This case asks for something the property does not speak about."""


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Ctx(object):
    def __init__(self, prop, seed, tier, known, scratch):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.known = known          # mechanism keys listed for this property
        self.root = scratch
        self.index = None
        self.rng = None
        self.events = {}
        self.sigs = set()
        self.samples = []
        self.found_known = {}
        self.case_sig = None
        self.note = None

    # a case
    def begin(self, index):
        self.index = index
        self.rng = random.Random('%s:%s:%d' % (self.prop, self.seed, index))
        self._dir = None
        self.note = None
        self._nontrivial = []

    def end(self):
        if self._dir:
            shutil.rmtree(self._dir, ignore_errors=True)

    def scratch(self, *parts):
        """A directory for this case, removed when it ends."""
        if not self._dir:
            self._dir = tempfile.mkdtemp(prefix='c%d_' % self.index,
                                         dir=self.root)
            self._dir = os.path.realpath(self._dir)
        p = os.path.join(self._dir, *parts)
        if not os.path.isdir(p):
            os.makedirs(p)
        return p

    # observations
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def sig(self, *what):
        """Note a distinct, non-trivial situation this run reached."""
        h = hashlib.blake2b(repr(what).encode('utf-8', 'replace'),
                            digest_size=8).hexdigest()
        self.sigs.add(h)

    def sample(self, what):
        if len(self.samples) < 2:
            self.samples.append(short(what, 700))

    # verdicts
    def check(self, ok, event, msg='', key=None, *args):
        self.event(event)
        if not ok:
            m = msg() if callable(msg) else msg
            raise Violation('%s: %s' % (event, short(m, 1500)), key)

    def equal(self, got, want, event, msg='', key=None):
        self.event(event)
        if not (got == want):
            m = msg() if callable(msg) else msg
            raise Violation('%s: %s\n   got  %s\n   want %s' % (
                event, short(m, 900), short(got, 700), short(want, 700)), key)

    def fail(self, msg, key=None):
        raise Violation(short(msg, 1800), key)

    @contextlib.contextmanager
    def no_raise(self, what, key=None):
        try:
            yield
        except (Violation, Skip):
            raise
        except Exception as e:
            raise Violation('%s raised %s: %s\n%s' % (
                what, type(e).__name__, short(str(e)),
                short(traceback.format_exc()[-1500:], 1500)), key)


@contextlib.contextmanager
def quiet():
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err


def typed(x):
    """A value together with its types, so that 1, True and 1.0 differ."""
    if isinstance(x, dict):
        return ('dict', tuple(sorted(((typed(k), typed(v))
                                      for k, v in x.items()), key=repr)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(typed(v) for v in x))
    return (type(x).__name__, x)


def setup_env(scratch):
    os.environ['NXT_USER_DIR'] = os.path.join(scratch, 'user')
    os.environ['TMPDIR'] = os.path.join(scratch, 'tmp')
    os.environ['HOME'] = os.path.join(scratch, 'home')
    for d in ('user', 'tmp', 'home'):
        p = os.path.join(scratch, d)
        if not os.path.isdir(p):
            os.makedirs(p)
    tempfile.tempdir = os.environ['TMPDIR']
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch, 'pyc')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    os.environ['PYTHONPATH'] = REPO
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(3000)


def on_cpu(*_):
    raise OutOfCpu()


def load(prop):
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    return importlib.import_module('props.' + prop.lower())


def run_case(mod, ctx, index):
    """None, or (message, mechanism key)."""
    ctx.begin(index)
    cwd = os.getcwd()
    budget = getattr(mod, 'CPU', CPU_PER_CASE)
    signal.setitimer(signal.ITIMER_PROF, budget)
    try:
        mod.case(ctx)
        return None
    except Skip as e:
        ctx.event('out of scope: ' + short(str(e), 60))
        return None
    except Violation as e:
        return str(e), e.key
    except OutOfCpu:
        return ('did not finish within %d s of CPU (cases take milliseconds)\n%s'
                % (budget, ctx.note or ''), None)
    except (Exception, SystemExit, GeneratorExit) as e:
        return 'unexpected %s: %s\n%s' % (
            type(e).__name__, short(str(e)), traceback.format_exc()[-1800:]), None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(cwd)
        ctx.end()


def worker_main(args):
    prop, tier, seed, widx, nworkers, count, scratch, out = args
    seed, widx, nworkers, count = int(seed), int(widx), int(nworkers), int(count)
    setup_env(scratch)
    os.chdir(scratch)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGPROF, on_cpu)
    mod = load(prop)
    with open(os.path.join(VERIF, 'known_findings.json')) as fp:
        known = set(f['key'] for f in json.load(fp)['findings']
                    if f['property'] == prop)
    ctx = Ctx(prop, seed, tier, known, scratch)
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    violations = []
    done = 0
    for index in range(widx, count, nworkers):
        bad = run_case(mod, ctx, index)
        done += 1
        if bad:
            msg, key = bad
            if key is not None and key in known:
                n, _ = ctx.found_known.get(key, (0, None))
                ctx.found_known[key] = (n + 1, _ or short(msg, 400))
                continue
            violations.append({'index': index, 'message': msg, 'key': key})
            if len(violations) >= MAX_VIOLATIONS:
                break
    with open(out + '.tmp', 'w') as fp:
        json.dump({'cases': done, 'events': ctx.events,
                   'sigs': sorted(ctx.sigs), 'samples': ctx.samples,
                   'known': ctx.found_known, 'violations': violations}, fp)
    os.rename(out + '.tmp', out)


if __name__ == '__main__':
    # One module object, whichever way it is reached
    sys.modules['common'] = sys.modules['__main__']
    worker_main(sys.argv[1:])
