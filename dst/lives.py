"""C28: one process handles documents again and again.  The work of two scripts is
repeated in turn in one process (one instance of the modules, a fresh directory
each time); afterwards the process must hold nothing of the documents it let go
of, and every repetition must come out like the first."""
import gc
import os
from collections import deque

from . import session, sim

PLAIN = (dict, list, tuple, set, frozenset, deque)
LEAF = (str, bytes, bytearray)
REPS = 3
MORE = 6


def top(t):
    return (getattr(t, '__module__', None) or '').split('.')[0]


def alive():
    """Objects of the library and of its trees, by type."""
    n = {}
    for o in gc.get_objects():
        t = type(o)
        if top(t) in ('ezodf', 'lxml') and not isinstance(o, type):
            k = '%s.%s' % (top(t), t.__name__)
            n[k] = n.get(k, 0) + 1
    return n


def state(mods):
    """Size of what the modules themselves keep: containers reachable from their
    globals, their classes, their functions' defaults and caches."""
    seen = set()
    todo = [vars(m) for m in mods.values()]
    keep = [todo[:]]
    nodes = size = 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, LEAF):
            size += len(o)
            continue
        t = type(o)
        if isinstance(o, type):
            if top(o) != 'ezodf':
                continue
        elif t.__name__ == 'function':
            if top(o) != 'ezodf':
                continue
        elif not (isinstance(o, PLAIN) or top(t) in ('ezodf', 'weakref', 'collections', '_weakref')
                  or t.__name__ in ('cell', '_lru_cache_wrapper', 'mappingproxy', 'property',
                                    'staticmethod', 'classmethod', 'method', 'DetWeakSet')):
            continue
        nodes += 1
        r = gc.get_referents(o)
        keep.append(r)
        todo.extend(r)
    return nodes, size


def census(mods):
    for _ in range(3):
        gc.collect()
    r = alive()
    r['(objects kept by modules)'], r['(bytes kept by modules)'] = state(mods)
    return r


def growth(a, b):
    return dict((k, n - a.get(k, 0)) for k, n in b.items() if n > a.get(k, 0))


class Lives(object):
    def __init__(self, script, root, record):
        self.script, self.root, self.record = script, root, record
        self.n = 0
        self.first = None        # result of the first life, then of all

    def life(self, script, mods, record=False):
        """One repetition; returns its violation."""
        root = os.path.join(self.root, 'l%d' % self.n)
        self.n += 1
        sim.REAL.mkdir(root)
        sim.MODPOOL[:0] = [mods]
        s = session.Session(script, root, record)
        v = None
        try:
            s.run()
        except session.Violation as e:
            v = {'props': list(e.props), 'class': e.cls, 'detail': e.detail, 'step': e.step}
        r = session.result(s, script, v, record)
        sim.set_world(None)
        return r

    def merge(self, r):
        if self.first is None:
            self.first = dict(r, log=[r['log']])
            return
        f = self.first
        f['log'].append(r['log'])
        for k in ('faults', 'probes'):
            for a, b in r[k].items():
                f[k][a] = f[k].get(a, 0) + b
        f['nops'] += r['nops']
        f['checks'] += r['checks']
        f['sim'] += r['sim']

    def viol(self, cls, detail):
        return {'props': ['C28'], 'class': cls, 'detail': detail, 'step': None}

    def run(self):
        s = dict(self.script)
        mate = s.pop('mate', None)
        mods = sim.MODPOOL.pop(0) if sim.MODPOOL else sim.load_modules()
        seen = []
        for rep in range(MORE):
            for which, sc in (('the work', s), ('other work', mate)):
                if sc is None or (sc is mate and rep == REPS - 1):
                    continue
                r = self.life(sc, mods, self.record and rep == 0 and sc is s)
                self.merge(r)
                v = r['viol']
                if v is None:
                    continue
                if (rep > 0 or sc is mate) and (
                        rep > 0 or self.life(sc, sim.load_modules())['viol'] is None):
                    v = dict(v, props=list(v['props']) + ['C28'], step=None,
                             detail='%s comes out differently in a process that handled documents '
                             'before (repetition %d): %s' % (which, rep, v['detail']))
                return v
            seen.append(census(mods))
            self.first['checks'] += 1
            if rep == REPS - 1 and not growth(*seen[-2:]):
                return None
        # steady growth, not a cache that was still filling
        g = dict((k, d) for k, d in growth(*seen[-2:]).items() if all(
            growth(a, b).get(k) for a, b in zip(seen[1:], seen[2:])))
        if not g:
            return None
        objs = [k for k in g if not k.startswith('(')]
        return self.viol('objects-retained' if objs else 'state-grows',
                         'each repetition leaves behind: %s' % ', '.join(
                             '%d %s' % (g[k], k) for k in sorted(g)))


def run_script(script, root, record=False):
    lives = Lives(script, root, record)
    v = lives.run()
    f = lives.first
    f['viol'] = v
    f['log'] = sim.digest(repr(f['log']).encode())
    f['probes']['lives'] = lives.n
    return f
