"""What node code of the checks calls, in interpreters the checks start."""
import copy
import os


def typed(x):
    if isinstance(x, dict):
        return ('dict', tuple(sorted(((typed(k), typed(v))
                                      for k, v in x.items()), key=repr)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(typed(v) for v in x))
    return (type(x).__name__, x)


def put(entry):
    with open(os.environ['NXTV_LOG'], 'a') as fp:
        fp.write(repr(entry) + '\n')


def rec(tag, me, g):
    put(('rec', tag, tuple(
        (n, repr(typed(copy.deepcopy(getattr(me, n))))) for n in sorted(dir(me))
        if not n.startswith('_') and not n.endswith('__nxt')),
        tuple((k, g[k]) for k in sorted(g) if k.startswith(('gv', 'lv')))))


def tok(tag, text):
    put(('tok', tag, text))
