"""Parent side: starts the workers of one property and gives the verdict."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import common  # noqa

WATCHDOG = {'quick': 780, 'thorough': 4 * 3600}


def scratch_dir():
    return os.path.realpath(tempfile.mkdtemp(prefix='nxtverif_'))


def run_workers(prop, tier, seed, count, n, scratch, only=None):
    procs = []
    for w in range(n):
        d = os.path.join(scratch, 'w%d' % w)
        os.makedirs(d)
        out = os.path.join(d, 'out.json')
        log = open(os.path.join(d, 'log'), 'wb')
        if only is not None:
            a = [only, only + 1, only + 1]
        else:
            a = [w, n, count]
        p = subprocess.Popen(
            [sys.executable, '-W', 'ignore', os.path.join(HERE, 'common.py'),
             prop, tier, str(seed)] + [str(x) for x in a] + [d, out],
            stdin=subprocess.DEVNULL, stdout=log, stderr=log,
            start_new_session=True)
        log.close()
        procs.append((p, out, d))
    return procs


def collect(procs, deadline):
    results, errors = [], []
    for p, out, d in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            errors.append('watchdog: worker still running')
        if p.poll() is None:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
        try:
            os.killpg(p.pid, 9)     # anything the worker left behind
        except OSError:
            pass
        if os.path.exists(out):
            with open(out) as fp:
                results.append(json.load(fp))
        else:
            with open(os.path.join(d, 'log'), 'rb') as fp:
                tail = fp.read()[-3000:].decode('utf-8', 'replace')
            errors.append('worker died (%s): %s' % (p.returncode, tail))
    return results, errors


def main(argv):
    if argv[:1] == ['--setup']:
        return setup()
    prop = argv[0].upper()
    mode = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    tier = mode
    if mode == 'replay':
        with open(argv[2]) as fp:
            r = json.load(fp)
        only, seed, tier = r['index'], r['seed'], r['tier']
    t0 = time.time()
    scratch = scratch_dir()
    try:
        common.setup_env(os.path.join(scratch, 'parent'))
        mod = common.load(prop)
        count = mod.COUNT[tier]
        if os.environ.get('NXT_VERIF_COUNT'):
            count = int(os.environ['NXT_VERIF_COUNT'])
        n = 1 if only is not None else min(getattr(mod, 'WORKERS', 8), count)
        procs = run_workers(prop, tier, seed, count, n, scratch, only)
        results, errors = collect(procs, t0 + WATCHDOG[tier])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return verdict(prop, mod, tier, seed, results, errors, t0, only)


def verdict(prop, mod, tier, seed, results, errors, t0, only):
    events, sigs, samples, known, violations = {}, set(), [], {}, []
    cases = 0
    for r in results:
        cases += r['cases']
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        sigs.update(r['sigs'])
        samples += r['samples']
        for k, (n, msg) in r['known'].items():
            known[k] = (known.get(k, (0, ''))[0] + n, msg)
        violations += r['violations']
    violations.sort(key=lambda v: v['index'])
    short_of = []
    if only is None:
        frac = min(1.0, cases / float(mod.COUNT['quick']))
        for k, v in getattr(mod, 'MIN', {}).items():
            if events.get(k, 0) < v * frac or not events.get(k):
                short_of.append('%s: %d' % (k, events.get(k, 0)))
    ev = {
        'property': prop, 'tier': tier if tier != 'replay' else 'quick',
        'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': cases,
            'distinct_nontrivial': len(sigs),
            'rule': ' '.join(mod.RULE.split()),
            'samples': samples[:4],
            'monitor_events': dict(sorted(events.items())),
        },
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
        'assumptions': [' '.join(a.split())
                        for a in getattr(mod, 'ASSUMPTIONS', [])],
    }
    if known:
        ev['coverage']['known_findings_seen'] = {
            k: v[0] for k, v in known.items()}
    if only is None:
        d = os.path.join(VERIF, 'evidence')
        if not os.path.isdir(d):
            os.makedirs(d)
        with open(os.path.join(d, prop + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1)
    with open(os.path.join(VERIF, 'known_findings.json')) as fp:
        listed = [f for f in json.load(fp)['findings'] if f['property'] == prop]
    for f in listed:
        print('KNOWN-FINDING: property=%s %s: %s (seen %d times in this run)' % (
            prop, f['key'], f['what'], known.get(f['key'], (0,))[0]))
    print('%s %s seed=%d: %d cases, %d distinct situations, %.1f s' % (
        prop, tier, seed, cases, len(sigs), ev['wall_s']))
    for k, v in sorted(events.items()):
        print('   %-48s %d' % (k, v))
    if violations:
        d = os.path.join(VERIF, 'replay')
        if not os.path.isdir(d):
            os.makedirs(d)
        v = violations[0]
        path = os.path.join(d, '%s-%s-%d-%d.json' % (
            prop, tier, seed, v['index']))
        if only is None:
            with open(path, 'w') as fp:
                json.dump({'property': prop, 'tier': tier, 'seed': seed,
                           'index': v['index'], 'message': v['message']},
                          fp, indent=1)
        for v in violations[:3]:
            print('case %d: %s' % (v['index'], v['message']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('ERROR: ' + '\n'.join(errors))
        return 2
    if short_of:
        print('INCONCLUSIVE: monitors not reached often enough: '
              + ', '.join(short_of))
        return 3
    return 0


def setup():
    s = scratch_dir()
    try:
        common.setup_env(s)
        import nxt.stage  # noqa
        print('python %s, nxt from %s' % (sys.version.split()[0], nxt.__file__))
    finally:
        shutil.rmtree(s, ignore_errors=True)
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
