"""Event engine (C14): observers, listeners, handlers that act themselves,
threads with statement-level preemption, collection of listeners at arbitrary
statements, and real document saves (also failing ones)."""
import gc
import io
import json
import os
import random
import sys

from . import pkg, sim
from .conc import switch_variant
from .pkg import sub
from .session import BOUND, PREFIX, Violation

PROPS = ('C14',)
TRACE = PREFIX + (os.path.dirname(os.__file__) + '/_weakrefset.py',)
DEPTH, ACTIONS = 3, 80
SAVE_EV = ('prepare_saving', 'post_saving')


def jc(x):
    return json.loads(json.dumps(x))


class Frame(object):
    """A broadcast or save in progress."""

    def __init__(self, kind, o, e, root, token, start):
        self.kind, self.o, self.e, self.root, self.token, self.start = kind, o, e, root, token, start
        self.calls = {}           # event -> {listener: count}
        self.muts = 0
        self.post = False
        self.doc = None


class Events(object):
    def __init__(self, script, root, record):
        self.script = script
        cfg = self.cfg = script.get('cfg', {})
        w = self.w = sim.World(root, script.get('seed', 0), cfg.get('now', 1.3e9),
                               max_steps=1500000)
        w.faults = [dict(f) for f in script.get('faults', ())]
        w.fault_call = self.collect
        self.record = record
        self.prop = script['prop']
        self.pending = None
        self.nchecks = 0
        self.seq = 0
        self.situations = set()
        self.token = 0
        self.nact = 0
        self.subs = {}            # (o, e, L) -> [[kind, inv, resp, ok]]
        self.objs = {}
        self.dropped = {}         # L -> seq of the drop
        self.gone = {}            # L -> seq from which it cannot be referenced any more
        self.waiting = {}         # L -> operations in progress when it was dropped
        self.active = set()
        self.ncalls = {}
        self.roots = {}           # L -> [[since, root]], the documents it belonged to
        self.lines = {}
        for i, d in enumerate(script['docs']):
            name = self.dname(i)
            w.declare(name)
            w.declare(name + '.bak')
            with sim.REAL.open(os.path.join(w.work, name), 'wb') as f:
                f.write(pkg.build_flat(d['kind'], lambda b: sub(b, 'text:p', 'x')) if d['flat']
                        else pkg.build(d['kind'], lambda b: sub(b, 'text:p', 'x')))
        w.sync_all()
        self.proc = w.new_proc(1)
        self.tasks = [sim.Task(w, i, self.proc) for i in range(len(script['tasks']))]
        self.stack = [[] for _ in self.tasks]

    def dname(self, i):
        d = self.script['docs'][i]
        return 'd%d.%s%s' % (i, 'f' if d['flat'] else '', d['kind'])

    def viol(self, cls, detail):
        v = Violation(['C14'], cls, detail, None)
        if self.pending is None:
            self.pending = v
        raise v

    def tick(self):
        self.seq += 1
        return self.seq

    # ---------------------------------------------------------------- driver
    def run(self):
        w = self.w
        sim.set_world(w)
        S = self.sched = sim.Sched(w, {int(k): v for k, v in self.script.get('switches', [])})
        if self.record:
            S.rec = {}
        w.after_op = [self.after_op]
        gc.collect()
        bodies = [self.body(i) for i in range(len(self.tasks))]
        self.setup()
        try:
            S.run(self.tasks, bodies, self.script.get('first', 0))
            w.after_op = []
            w.bypass = 1
            if self.pending is not None:
                raise self.pending
            if S.deadlock:
                self.viol('deadlock', 'the threads wait for each other')
            if any(t.exc == 'limit' for t in self.tasks):
                self.viol('no-progress', 'an operation does not finish within the step budget')
        finally:
            w.bypass = 1
            self.objs.clear()

    def setup(self):
        """Observers, documents, elements and the first listeners."""
        ez = self.proc.ez
        mods = self.proc.mods
        om = self.om = mods['ezodf.observer']
        etree = mods['ezodf.xmlns'].etree
        s = self.script
        self.obs = [None] + [om.Observer() for _ in range(s['nobs'] - 1)]
        self.docs = [ez.opendoc(os.path.join(self.w.work, self.dname(i)))
                     for i in range(len(s['docs']))]
        for i, d in enumerate(self.docs):
            d.docname = self.dname(i)
        self.els = []
        for k in range(s['els']):
            e = etree.Element('r')
            if k % 2:
                etree.SubElement(e, 'c')
            self.els.append(e)
        for L in sorted(s['ls']):
            if not s['ls'][L].get('late'):
                self.make(L)
        for o, e, L in s['init']:
            if L in self.objs:
                self.fn(o, 'subscribe')(e, self.objs[L])
                self.subs.setdefault((o, e, L), []).append(['s', 0, 0, True])

    def fn(self, o, name):
        if o:
            return getattr(self.obs[o], name)
        return getattr(self.om, {'unsubscribe': 'unsubscripe'}.get(name, name))

    def rootof(self, r):
        if r is None or r[0] in ('nomethod', 'own'):
            return None
        if r[0] == 'doc':
            return self.docs[r[1]].body.get_xmlroot()
        return self.els[r[1]]

    def make(self, L):
        spec = self.script['ls'][L]
        run = self
        d = {}

        def handler(ev):
            def h(self, msg=None):
                run.called(L, ev, msg)
            return h
        for ev in spec['evs']:
            d['on_%s_handler' % ev] = handler(ev)
        r = spec['root']
        base = object
        self.roots[L] = [[self.seq, r]]
        if self.wrapped(L):
            base = self.proc.mods['ezodf.base'].GenericWrapper
        elif r is None or r[0] != 'nomethod':
            d['get_xmlroot'] = lambda self: run.rootof(run.roots[L][-1][1])
        o = type(str('L'), (base,), d)()
        if base is not object:
            twin = self.objs.get(spec.get('twin'))
            if twin is not None:
                o.xmlnode = twin.xmlnode      # two wrappers of one element
                self.w.probe('listeners_of_one_element')
            else:
                self.place(o, r)
        self.objs[L] = o

    def wrapped(self, L):
        spec = self.script['ls'][L]
        return spec.get('wrap') and bool(spec['root']) and spec['root'][0] in ('doc', 'el', 'own')

    def place(self, o, r):
        if r[0] == 'doc':
            self.docs[r[1]].body.xmlnode.append(o.xmlnode)
        elif r[0] == 'el':
            self.els[r[1]].append(o.xmlnode)
        elif o.xmlnode.getparent() is not None:
            o.xmlnode.getparent().remove(o.xmlnode)

    def body(self, i):
        steps = self.script['tasks'][i]

        def run(t):
            w = self.w
            for k, st in enumerate(steps):
                w.begin_step(t, k)
                try:
                    self.act(t, st, 0)
                except Violation:
                    for x in self.tasks:
                        x.proc.dead = True
                    return
                finally:
                    sys.settrace(None)
                self.lines[(i, k)] = (t.lines, t.opn)
        return run

    # ---------------------------------------------------------- bookkeeping
    def begin(self):
        s = self.tick()
        self.active.add(s)
        for L in self.waiting:
            # an operation that begins while others still hold a dropped
            # listener may get hold of it as well
            self.waiting[L].add(s)
        return s

    def end(self, op):
        self.active.discard(op)
        e = self.tick()
        for L in sorted(self.waiting):
            self.waiting[L].discard(op)
            if not self.waiting[L]:
                del self.waiting[L]
                self.gone[L] = e
        return e

    def collect(self, f):
        """The last reference to a listener goes away at this very statement."""
        self.drop(f['L'])

    def drop(self, L):
        if L not in self.objs:
            return
        s = self.tick()
        self.dropped[L] = s
        del self.objs[L]
        self.w.log.append(('drop', L))
        if self.active:
            self.waiting[L] = set(self.active)
        else:
            self.gone[L] = s

    def call(self, t, fn):
        w = self.w
        nested = bool(self.stack[t.id]) and sys.gettrace() is not None
        if self.cfg.get('lines') and not nested:
            w.start_trace(t, TRACE)
        try:
            r = ('ok', fn())
        except (sim.SimCrash, sim.SimLimit, Violation):
            raise
        except Exception as e:
            e.__traceback__ = None
            r = ('exc', e)
        finally:
            if not nested:
                sys.settrace(None)
        if self.pending is not None:
            raise self.pending
        if t.proc.dead:
            raise sim.SimCrash('dead')
        w.log.append((t.id, r[0] if r[0] == 'ok' else type(r[1]).__name__))
        return r

    def sure(self, o, e, L, start, end, skip=None):
        """Subscribed and alive throughout [start, end]."""
        if L not in self.script['ls'] or self.dropped.get(L, end + 1) <= end:
            return False
        ops = [x for x in self.subs.get((o, e, L), ()) if x is not skip]
        for s in ops:
            if s[0] == 's' and s[3] and s[2] is not None and s[2] < start and not any(
                    u[0] == 'u' and not ((u[2] is not None and u[2] < s[1]) or u[1] > end)
                    for u in ops):
                return True
        return False

    def never(self, o, e, L, start, end):
        """Certainly not subscribed, or collected, before `start`."""
        if self.gone.get(L, start) < start:
            return 'collected'
        ops = self.subs.get((o, e, L), ())
        for s in ops:
            if s[0] == 's' and s[1] < end and not any(
                    u[0] == 'u' and u[3] and u[2] is not None and s[2] is not None and
                    u[1] > s[2] and u[2] < start for u in ops):
                return None
        return 'not subscribed'

    # -------------------------------------------------------------- the calls
    def called(self, L, ev, msg):
        w, t = sim._cur()
        if t is None:
            w = self.w
            self.viol('stray-call', 'handler of %s called outside of any broadcast' % L)
        self.nchecks += 1
        st = self.stack[t.id]
        fr = None
        for f in reversed(st):
            if f.kind == 'b' and f.token == msg and f.e == ev or \
                    f.kind == 's' and msg is None and ev in SAVE_EV:
                fr = f
                break
        if fr is None:
            self.viol('stray-call', 'handler %s of %s called with message %r of no broadcast in '
                      'progress' % (ev, L, msg))
        w.log.append((t.id, 'call', L, ev))
        c = fr.calls.setdefault(ev, {})
        c[L] = c.get(L, 0) + 1
        if c[L] > 1:
            self.viol('called-twice', 'handler %s of %s called twice by one broadcast' % (ev, L))
        why = self.never(fr.o, ev, L, fr.start, self.seq + 1)
        if why:
            self.viol('called-although-' + why.split()[-1], 'handler %s of %s called although %s '
                      'before the broadcast began' % (ev, L, why))
        if fr.root is not None and not any(self.match(L, fr)):
            self.viol('wrong-document', 'handler %s of %s called for another document' % (ev, L))
        if fr.kind == 's':
            if ev == 'prepare_saving':
                if fr.muts or fr.post:
                    self.viol('before-save-late', 'before-save event delivered after %s' % (
                        'the after-save event' if fr.post else 'the file was touched'))
            elif not fr.post:
                fr.post = True
                self.stored(fr, 'when the after-save event is delivered')
        n = self.ncalls.get((L, ev), 0)
        self.ncalls[(L, ev)] = n + 1
        prog = self.script['ls'][L].get('prog', {}).get(ev, [])
        if n < len(prog) and len(st) <= DEPTH:
            if len(st) > 1:
                w.probe('nested_delivery')
            for a in prog[n]:
                self.nact += 1
                if self.nact > ACTIONS:
                    return
                if a[0] == 'save' and any(f.doc is not None and f.doc == a[1] for f in st):
                    continue
                if a[0] in ('save', 'edit') and self.owner(a[1]) != t.id:
                    continue
                w.probe('handler_' + a[0])
                self.act(t, a, 1)

    def owner(self, d):
        return d % len(self.tasks)

    def match(self, L, fr):
        """Did it belong to the document of the broadcast, one value for every
        place it had since the broadcast began."""
        res = []
        for since, r in reversed(self.roots.get(L, [[0, None]])):
            res.append(r is not None and r[0] in ('doc', 'el') and list(r) == list(fr.root))
            if since < fr.start:
                break
        return res

    def stored(self, fr, when):
        d = self.docs[fr.doc]
        name = self.dname(fr.doc)
        self.nchecks += 1
        self.w.bypass += 1
        try:
            if fr.stream is not None:
                data = fr.stream.getvalue()
            else:
                with sim.REAL.open(os.path.join(self.w.work, name), 'rb') as f:
                    data = f.read()
        finally:
            self.w.bypass -= 1
        try:
            p = pkg.decode(data)
        except pkg.Bad as e:
            self.viol('after-save-early', '%s the document is not stored (%s)' % (when, e))
        if p.flat:
            same = p.parts['flat'] == pkg.chash(d.xmlnode, pkg.META_SKIP)
        else:
            same = p.parts['content.xml'] == pkg.chash(d.content.xmlnode)
        if not same or not fr.muts and fr.stream is None:
            self.viol('after-save-early', '%s the file does not hold the document as it is (changes '
                      'made by before-save handlers included)' % when)

    def after_op(self, t, kind, path):
        st = self.stack[t.id]
        if kind in BOUND and st:
            for f in reversed(st):
                if f.kind == 's':
                    f.muts += 1
                    if f.post:
                        self.viol('after-save-early', '%s after the after-save event' % kind)
                    break

    # ------------------------------------------------------------------ steps
    def act(self, t, st, nested):
        getattr(self, 's_' + st[0])(t, *st[1:])

    def s_new(self, t, L):
        spec = self.script['ls'].get(L)
        if spec is None or L in self.objs or L in self.dropped:
            return
        r = spec['root']
        if self.wrapped(L) and r[0] == 'doc' and self.owner(r[1]) != t.id:
            return                # would change another thread's document
        self.make(L)

    def s_move(self, t, L, root):
        """The listener changes over to another document."""
        ob = self.objs.get(L)
        if ob is None or self.script['ls'][L]['root'] == ['nomethod'] or \
                self.script['ls'][L].get('fixed'):
            return
        old = self.roots[L][-1][1]
        if self.wrapped(L):
            if root is None:
                root = ['own']
            for r in (old, root):
                if r[0] == 'doc' and self.owner(r[1]) != t.id:
                    return
            self.place(ob, root)
        del ob
        self.roots[L].append([self.tick(), root])
        self.w.log.append((t.id, 'move', L, root))
        self.w.probe('moved_listeners')

    def s_drop(self, t, L):
        self.drop(L)

    def s_edit(self, t, d):
        ez = self.proc.ez
        self.nact += 1
        doc = self.docs[d]
        self.call(t, lambda: doc.body.append(ez.Paragraph('e%d' % self.nact)))

    def s_sub(self, t, o, e, L):
        ob = self.objs.get(L)
        if ob is None or e not in self.script['ls'][L]['evs']:
            return
        op = self.begin()
        rec = ['s', op, None, True]
        self.subs.setdefault((o, e, L), []).append(rec)
        f = self.fn(o, 'subscribe')
        r = self.call(t, lambda: f(e, ob))
        del ob
        rec[2] = self.end(op)
        self.nchecks += 1
        if r[0] == 'exc':
            self.viol('subscribe-failed', repr(r[1]))

    def s_unsub(self, t, o, e, L):
        ob = self.objs.get(L)
        if ob is None:
            return
        op = self.begin()
        rec = ['u', op, None, True]
        self.subs.setdefault((o, e, L), []).append(rec)
        f = self.fn(o, 'unsubscribe')
        r = self.call(t, lambda: f(e, ob))
        del ob
        rec[2] = self.end(op)
        self.nchecks += 1
        if r[0] == 'exc':
            rec[3] = False
            if self.sure(o, e, L, op, rec[2], rec) or not isinstance(r[1], KeyError):
                self.viol('unsubscribe-failed', '%s from %s: %r' % (L, e, r[1]))

    def s_bad(self, t, o, e):
        """Subscribing an object without the handler is refused and harmless."""
        class Dumb(object):
            pass
        x = Dumb()
        f = self.fn(o, 'subscribe')
        self.call(t, lambda: f(e, x))

    def s_bcast(self, t, o, e, root):
        op = self.begin()
        self.token += 1
        fr = Frame('b', o, e, root, 'm%d' % self.token, op)
        self.stack[t.id].append(fr)
        f = self.fn(o, 'broadcast')
        x = self.rootof(root)
        r = self.call(t, lambda: f(e, msg=fr.token, root=x) if root is not None
                      else f(e, fr.token))
        self.stack[t.id].pop()
        self.w.probe('broadcasts')
        if r[0] == 'exc':
            self.viol('broadcast-failed', '%s: %r' % (e, r[1]))
        self.judge(fr, op, [e])
        self.end(op)

    def s_save(self, t, d, how):
        doc = self.docs[d]
        op = self.begin()
        fr = Frame('s', 0, None, ['doc', d], None, op)
        fr.doc = d
        fr.stream = io.BytesIO() if how == 'stream' and not self.script['docs'][d]['flat'] else None
        self.stack[t.id].append(fr)
        r = self.call(t, (lambda: doc.saveas(fr.stream)) if fr.stream is not None else
                      (lambda: doc.saveas(self.dname(d))) if how == 'saveas' else doc.save)
        if fr.stream is not None:
            doc.docname = self.dname(d)
        self.stack[t.id].pop()
        self.w.probe('saves' if r[0] == 'ok' else 'failed_saves')
        if r[0] == 'exc' and not t.fired:
            self.viol('save-failed', repr(r[1]))
        if r[0] == 'ok' and not fr.post:
            self.stored(fr, 'after the save')
        self.judge(fr, op, SAVE_EV if r[0] == 'ok' else SAVE_EV[:1])
        self.end(op)

    def judge(self, fr, op, evs):
        now = self.tick()
        for e in evs:
            for L in sorted(self.script['ls']):
                self.nchecks += 1
                if self.sure(fr.o, e, L, op, now) and \
                        (fr.root is None or all(self.match(L, fr))) and \
                        fr.calls.get(e, {}).get(L, 0) != 1:
                    self.viol('not-called', 'handler %s of %s, alive and subscribed all the time, '
                              'was not called' % (e, L))
        n = sum(sum(c.values()) for c in fr.calls.values())
        self.w.probe('deliveries', n)
        self.situations.add('%s root=%s listeners=%d depth=%d active=%d' % (
            fr.kind, fr.root and fr.root[0], n, len(self.stack[0]), len(self.active)))


def run_script(script, root, record=False):
    s = Events(script, root, record)
    v = None
    try:
        s.run()
    except Violation as e:
        v = {'props': list(e.props), 'class': e.cls, 'detail': e.detail, 'step': e.step}
    w, S = s.w, s.sched
    f = dict(w.fault_counts)
    if S.nswitch:
        f['preemption'] = S.nswitch
    return {'viol': v, 'log': sim.digest(repr(w.log).encode('utf-8', 'backslashreplace')),
            'faults': f, 'probes': w.probes, 'nops': w.nops, 'checks': s.nchecks,
            'sim': w.sim_elapsed + w.nops * 1e-3,
            'nontrivial': S.nswitch > 0 or bool(f) or
            any(k.startswith('handler_') for k in w.probes),
            'stepinfo': {'steps': S.steps, 'rec': S.rec, 'lines': s.lines} if record else None,
            'rawlog': w.log if script.get('keeplog') else None,
            'states': sorted(s.situations)}


# ------------------------------------------------------------------ generator

def gen_events(prop, seed):
    rng = random.Random('%s/%d' % (prop, seed))
    ndoc = rng.choice([0, 1, 1, 2, 2])
    docs = [{'kind': 'odt', 'flat': rng.random() < .2} for _ in range(ndoc)]
    els = rng.randrange(3)
    nobs = rng.choice([1, 1, 2])
    ntask = rng.choice([1, 1, 2, 2, 3])
    evs = ['a', 'b'][:rng.choice([1, 1, 2])]
    evs += list(SAVE_EV) if ndoc else []
    roots = [['doc', i] for i in range(ndoc)] + [['el', i] for i in range(els)]
    ls, ids = {}, ['L%d' % i for i in range(rng.choice([1, 2, 3, 4, 6, 10]))]

    def aroot(p):
        return rng.choice(roots) if roots and rng.random() < p else None

    def pair():
        o = rng.randrange(nobs)
        return o, rng.choice(evs) if o == 0 else rng.choice([e for e in evs if len(e) == 1])

    def action():
        x = rng.random()
        L = rng.choice(ids)
        o, e = pair()
        if x < .25:
            return ['sub', o, e, L]
        if x < .5:
            return ['unsub', o, e, L]
        if x < .65:
            return ['drop', L]
        if x < .8:
            if len(e) > 1:
                e = 'a'
            return ['bcast', o, e, aroot(.5)]
        if x < .85:
            return ['new', L]
        if x < .91:
            return ['move', L, aroot(.85)]
        if ndoc and x < .96:
            return ['edit', rng.randrange(ndoc)]
        if ndoc:
            return ['save', rng.randrange(ndoc), rng.choice(['save', 'stream'])]
        return ['new', L]
    for L in ids:
        r = rng.choice(roots) if roots and rng.random() < .75 else \
            rng.choice([None, ['nomethod'], ['own']])
        handled = [e for e in evs if rng.random() < .8]
        prog = {}
        for e in handled:
            if rng.random() < .5:
                prog[e] = [[action() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                           for _ in range(rng.choice([1, 2, 3]))]
        ls[L] = {'root': r, 'evs': handled, 'prog': prog, 'late': rng.random() < .15,
                 'wrap': rng.random() < .3}
    if rng.random() < .25:
        c = [L for L in ids if ls[L]['wrap'] and ls[L]['root'] and ls[L]['root'][0] != 'nomethod']
        if c and len(ids) > 1:
            a = rng.choice(c)
            b = rng.choice([L for L in ids if L != a])
            if b < a:
                a, b = b, a
                ls[a].update(root=ls[b]['root'])
            for L in (a, b):
                ls[L].update(root=ls[a]['root'], wrap=True, fixed=True, late=False)
            ls[b]['twin'] = a
    init = [[o, e, L] for L in ids for o in range(nobs) for e in ls[L]['evs']
            if (o == 0 or len(e) == 1) and rng.random() < .7]
    tasks = []
    for i in range(ntask):
        steps = []
        mine = [d for d in range(ndoc) if d % ntask == i]
        for _ in range(rng.choice([1, 2, 4, 6])):
            x = rng.random()
            if x < .3 and mine:
                steps.append(['save', rng.choice(mine), rng.choice(['save', 'saveas', 'stream'])])
            elif x < .6:
                o, e = pair()
                if len(e) > 1:
                    e = 'a'
                steps.append(['bcast', o, e, aroot(.5)])
            else:
                a = action()
                if a[0] in ('save', 'edit') and a[1] % ntask != i:
                    a = ['bad', 0, 'a']
                steps.append(a)
        tasks.append(steps)
    return {'engine': 'evts', 'prop': prop, 'seed': seed, 'cfg': {'now': 1.3e9, 'lines': True},
            'docs': docs, 'els': els, 'nobs': nobs, 'ls': ls, 'init': init, 'tasks': tasks,
            'switches': [], 'faults': [], 'first': 0}


def family(prop, seed, nvar, execute, sink, stop):
    script = gen_events(prop, seed)
    res = execute(jc(script), record=True)
    if not sink(script, res):
        return
    info = res.get('stepinfo')
    if not info:
        return
    rng = random.Random('v%s/%d' % (prop, seed))
    lines = sorted((k, v) for k, v in info['lines'].items() if v[0])
    saves = sorted((k, v) for k, v in info['lines'].items()
                   if v[1] and script['tasks'][k[0]][k[1]][0] == 'save')
    for k in range(nvar):
        s = jc(script)
        s['first'] = rng.randrange(len(s['tasks']))
        if len(s['tasks']) > 1 and rng.random() < .85:
            s['switches'] = switch_variant(s, info, rng) or []
        if lines and rng.random() < .5:
            for _ in range(rng.choice([1, 1, 2])):
                (i, st), (n, _o) = rng.choice(lines)
                s['faults'].append({'task': i, 'step': st, 'line': rng.randint(1, n),
                                    'kind': 'call', 'name': 'listener_collected',
                                    'L': rng.choice(sorted(script['ls']))})
        if saves and rng.random() < .35:
            (i, st), (_n, o) = rng.choice(saves)
            s['faults'].append({'task': i, 'step': st, 'op': rng.randrange(o), 'kind': 'err',
                                'arg': rng.randrange(4)})
        if not s['switches'] and not s['faults']:
            continue
        yield s
        if not sink(s, execute(s)) or stop():
            return


def simpler(s0, get):
    size = max(1, len(get()['switches']) // 2)
    while size >= 1:
        i = 0
        while i < len(get()['switches']):
            n = len(get()['switches'])
            s = jc(get())
            del s['switches'][i:i + size]
            yield s
            if len(get()['switches']) == n:
                i += size
        size //= 2
    for i in range(len(get()['faults'])):
        if i < len(get()['faults']):
            s = jc(get())
            del s['faults'][i]
            yield s
    for i in range(len(get()['tasks'])):
        if get()['tasks'][i]:
            s = jc(get())
            s['tasks'][i] = []
            yield s
    for i in range(len(get()['tasks'])):
        for j in range(len(get()['tasks'][i]) - 1, -1, -1):
            s = jc(get())
            if j < len(s['tasks'][i]):
                del s['tasks'][i][j]
                for f in s['faults']:
                    if f.get('task') == i and f['step'] > j:
                        f['step'] -= 1
                yield s
    for L in sorted(get()['ls']):
        for e in sorted(get()['ls'][L].get('prog', {})):
            s = jc(get())
            if s['ls'][L]['prog'].pop(e, None) is not None:
                yield s
    for i in range(len(get()['init']) - 1, -1, -1):
        if i < len(get()['init']):
            s = jc(get())
            del s['init'][i]
            yield s
    used = json.dumps([get()['tasks'], get()['init'], get()['faults'],
                       [x.get('prog') for x in get()['ls'].values()]])
    for L in sorted(get()['ls']):
        if '"%s"' % L not in used:
            s = jc(get())
            s['ls'].pop(L, None)
            yield s


RULE = ('One seed generates listeners (roots, handled events, handler programs), observers, '
        'documents and the programs of 1 to 3 threads; variants add preemption at statements of '
        'ezodf and of the weak set, collection of listeners at arbitrary statements and failing '
        'file operations in saves. A run is non-trivial when a preemption, a fault or an acting '
        'handler occurred; distinct counts distinct event-log digests among those.')
REALCOMP = ['all of ezodf', 'the algorithms of weakref.WeakSet', 'lxml', 'zipfile', 'OS threads '
            '(one runs at a time)', 'kernel file system (scratch directory)']
STUBS = ['thread scheduler', 'threading locks', 'the set inside WeakSet (insertion-ordered, raises '
         'on concurrent change as set does)', 'garbage collector (listeners are dropped at chosen '
         'statements)', 'system clock', 'random seeding']
ASSUME = ['statements of ezodf and of WeakSet are the finest preemption grain',
          'handlers do not raise']
