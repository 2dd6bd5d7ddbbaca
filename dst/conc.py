"""Concurrency engine: several simulated processes and threads work at the same
time on one simulated disk; exactly one task runs at any moment and the script
says at which yield points (file operations, statements of ezodf, locks) another
one goes on.

C07/C08: shared paths and a shared directory, checked as registers.
C09: threads with documents of their own, checked against solo runs."""
import copy
import gc
import io
import json
import os
import random
import re
import re
import sys

from . import pkg, sim
from .dom import DOMAINS, Mismatch, short
from .pkg import q, sub
from .session import BOUND, PREFIX, Violation, fbytes

PROPS = ('C07', 'C08', 'C09')
EXTS = {'odt': 'odt', 'ods': 'ods', 'odg': 'odg'}


def jc(x):
    return json.loads(json.dumps(x))


# ---------------------------------------------------------- versioned documents

def build_version(spec):
    """Package (or flat) bytes with the version tag in every part and member."""
    v = spec['v']
    tag = 'V%s' % v
    kind = spec.get('kind', 'odt')

    def body(b):
        if kind == 'odt':
            for _ in range(1 + spec.get('n', 0)):
                sub(b, 'text:p', tag)
        elif kind == 'ods':
            t = sub(b, 'table:table', table_name=tag)
            sub(t, 'table:table-column')
            sub(sub(t, 'table:table-row'), 'table:table-cell')
        else:
            sub(b, 'draw:page', draw_name=tag)
    if spec.get('flat'):
        return pkg.build_flat(kind, body, title=tag)
    f = {}
    for i in range(spec.get('nf', 2)):
        f['Pictures/p%d.bin' % i] = (tag + '/%d:' % i).encode() + fbytes([hash_(tag) + i,
                                                                       spec.get('fs', 50)])
    if spec.get('nf', 2):
        f['settings.xml'] = ('<s v="%s"/>' % tag).encode()
    return pkg.build(kind, body, title=tag, foreign=f, stylename='S' + tag,
                     opts={'order': v % 3 if isinstance(v, int) else 0})


def hash_(s):
    return sum(ord(c) * (i + 1) for i, c in enumerate(s)) % 9973


class Handle(object):
    doc = None
    key = None
    foreign = ()
    backup = True
    nobak = False             # documented: no backups for documents from bytes or streams


class Shared(object):
    """One run of the C07/C08 kind."""

    def __init__(self, script, root, record):
        self.script = script
        cfg = self.cfg = script.get('cfg', {})
        self.prop = script['prop']
        w = self.w = sim.World(root, script.get('seed', 0), cfg.get('now', 1.3e9),
                               max_steps=400000)
        w.bufsize = cfg.get('bufsize', 8192)
        w.faults = [dict(f) for f in script.get('faults', ())]
        w.adversary_hook = self.adversary
        self.record = record
        self.pending = None
        self.nchecks = 0
        self.seq = 0
        self.keys = {}            # key -> version name
        self.byparts = {}         # parts -> full key
        self.shas = {}            # sha -> key or None (torn)
        self.events = []          # register operations
        self.hist = {}            # path -> list of sha seen ('' = absent)
        self.junk = {}
        self.writers = {}
        self.crashed = False
        self.situations = set()
        self.shared = sorted(script['shared'])
        self.baks = {}
        self.lastsave = {}
        for name, spec in sorted(script['files'].items()):
            data = fbytes(spec['raw']) if 'raw' in spec else build_version(spec)
            with sim.REAL.open(os.path.join(w.work, name), 'wb') as f:
                f.write(data)
            if 'raw' not in spec:
                self.learn(pkg.decode(data).key(), name)
        for name in list(script['files']) + self.shared:
            w.declare(name)
            w.declare(name + '.bak')
        w.sync_all()
        self.initial = w.files()
        for p in self.shared:
            self.hist[p] = [self.sha_of(p)]
            self.baks[p] = self.initial.get(p + '.bak')
        self.procs = [w.new_proc(cfg.get('pseed')) for _ in range(cfg.get('nprocs', 1))]
        self.tasks = [sim.Task(w, i, self.procs[t['proc'] % len(self.procs)])
                      for i, t in enumerate(script['tasks'])]
        self.live = {}            # path -> backup saves in progress
        self.absent = {}          # path -> seqs at which it was seen absent

    def learn(self, key, name):
        self.keys[key] = name
        self.byparts[key[:2]] = key

    def viol(self, props, cls, detail):
        v = Violation(list(props), cls, detail, None)
        if '*' in v.props:
            v.props = [self.prop]
        if self.pending is None:
            self.pending = v
        raise v

    def tick(self):
        self.seq += 1
        return self.seq

    def rd(self, name):
        try:
            with sim.REAL.open(os.path.join(self.w.work, name), 'rb') as f:
                return f.read()
        except OSError:
            return None

    def sha_of(self, name):
        d = self.rd(name)
        if d is None:
            return ''
        s = sim.digest(d)
        if s not in self.shas:
            try:
                self.shas[s] = pkg.decode(d).key()
            except pkg.Bad as e:
                self.shas[s] = None
                self.why = str(e)
        return s

    why = ''

    # invariant after every mutating operation of any task
    def boundary(self, t, kind, path):
        if kind not in BOUND:
            return
        self.tick()
        for p in self.shared:
            s = self.sha_of(p)
            self.nchecks += 1
            if s == '':
                self.absent.setdefault(p, []).append(self.seq)
                if not (self.live.get(p, 0) and self.hist[p] != ['']) and self.hist[p][-1] != '' \
                        and not self.crashed:
                    self.viol(['C07', 'C08'], 'vanished', '%s is absent after %s although no save '
                              'with backup is running' % (p, kind))
            elif self.shas[s] is None or self.shas[s] not in self.keys:
                self.viol(['C07'], 'mixed-version', '%s holds no complete version after %s (%s)' % (
                    p, kind, self.why or 'unknown mixture'))
            if s != self.hist[p][-1]:
                self.hist[p].append(s)
        if kind in ('rename', 'remove', 'link') and len(self.tasks) > 1:
            self.situations.add('%s by %s while %s' % (
                kind, self.cur.get(t.id), sorted(v for k, v in self.cur.items() if k != t.id and v)))

    def adversary(self, f, path):
        w = self.w
        if path is None or not path.startswith(w.work + os.sep):
            return
        name = path[len(w.work) + 1:]
        if name in w.files() or name in self.junk or name in self.shared or \
                name[:-4] in self.shared:
            return
        data = b'foreign:' + fbytes([f.get('n', 1), 40])
        w.external_put(path, data)
        w.declare(name)
        self.junk[name] = data
        w.probe('name_collision')

    # ---------------------------------------------------------------- driver
    def run(self):
        w = self.w
        sim.set_world(w)
        S = self.sched = sim.Sched(w, {int(k): v for k, v in self.script.get('switches', [])})
        if self.record:
            S.rec = {}
        w.after_op = [self.boundary]
        self.cur = {}
        self.handles = [dict() for _ in self.tasks]
        gc.collect()
        try:
            S.run(self.tasks, [self.body(i) for i in range(len(self.tasks))],
                  self.script.get('first', 0))
            w.after_op = []
            w.bypass = 1
            if self.pending is not None:
                raise self.pending
            if S.deadlock:
                self.viol(['*'], 'deadlock', 'the tasks wait for each other')
            if any(t.exc == 'limit' for t in self.tasks):
                self.viol(['*'], 'no-progress', 'operations do not finish within the step budget')
            if w.escapes:
                self.viol(['*'], 'escape', str(w.escapes[:2]))
            self.finish()
        finally:
            w.bypass = 1

    def body(self, i):
        steps = self.script['tasks'][i]['steps']

        def run(t):
            w = self.w
            for k, st in enumerate(steps):
                w.begin_step(t, k)
                if self.cfg.get('lines'):
                    w.start_trace(t, PREFIX)
                try:
                    self.cur[i] = st[0]
                    getattr(self, 's_' + st[0])(t, i, *st[1:])
                except Violation:
                    for x in self.tasks:
                        x.proc.dead = True
                    return
                except sim.SimCrash:
                    self.crashed = True
                    raise
                finally:
                    sys.settrace(None)
                    self.cur[i] = None
        return run

    def call(self, t, fn):
        try:
            r = ('ok', fn())
        except sim.SimLimit:
            raise
        except Exception as e:
            e.__traceback__ = None
            r = ('exc', e)
        finally:
            sys.settrace(None)
        if self.pending is not None:
            raise self.pending
        if t.proc.dead:
            raise sim.SimCrash('dead')
        self.w.log.append((t.id, r[0] if r[0] == 'ok' else type(r[1]).__name__))
        return r

    def dockey(self, H):
        d = H.doc
        if H.flat:
            return (d.mimetype, (('flat', pkg.chash(d.xmlnode, pkg.META_SKIP)),), ())
        parts = {'content.xml': pkg.chash(d.content.xmlnode),
                 'styles.xml': pkg.chash(d.styles.xmlnode),
                 'meta.xml': pkg.chash(d.meta.xmlnode, pkg.META_SKIP)}
        return (d.mimetype, tuple(sorted(parts.items())), H.foreign)

    def opener(self, t, path, via):
        ez = t.proc.ez

        def fn():
            if via == 'path':
                return ez.opendoc(path)
            if via == 'tmpl':
                return ez.newdoc(filename='new', template=path)
            with open(path, 'rb') as f:
                b = f.read()
            return ez.opendoc(b if via == 'bytes' else io.BytesIO(b))
        return fn

    # ------------------------------------------------------------------ steps
    def s_load(self, t, i, h, path, via):
        """A private source document."""
        if self.rd(path) is None:
            return
        r = self.call(t, self.opener(t, path, via))
        if r[0] == 'exc':
            self.viol(['C07', 'C08'], 'private-open-failed', 'private file: %r' % (r[1],))
        H = Handle()
        H.doc, H.flat = r[1], hasattr(r[1], 'xmlnode')
        H.foreign = pkg.decode(self.rd(path)).key()[2]
        H.nobak = via != 'path' and not H.flat
        self.handles[i][h] = H

    def s_new(self, t, i, h, kind, flat):
        ez = t.proc.ez
        r = self.call(t, lambda: ez.document.FlatXMLDocument(kind) if flat else ez.newdoc(kind))
        if r[0] == 'exc':
            self.viol(['C08'], 'new-failed', repr(r[1]))
        H = Handle()
        H.doc, H.flat, H.foreign = r[1], bool(flat), ()
        self.handles[i][h] = H

    def s_tag(self, t, i, h, tag):
        H = self.handles[i].get(h)
        if H is None:
            return
        ez = t.proc.ez
        d = H.doc

        def fn():
            d.meta['title'] = tag
            k = d.doctype
            if k == 'odt':
                d.body.append(ez.Paragraph(tag))
            elif k == 'ods':
                d.sheets.append(ez.Sheet(tag, size=(1, 1)))
            else:
                d.body.append(ez.Paragraph(tag))
            if not H.flat:
                d.inject_style('<style:style style:name="%s" style:family="paragraph"/>' % tag)
        self.call(t, fn)

    def s_backup(self, t, i, h, flag):
        H = self.handles[i].get(h)
        if H is not None:
            H.doc.backup = H.backup = flag

    def s_read(self, t, i, h, path, via):
        inv = self.tick()
        nwr = len(self.w.writes)
        r = self.call(t, self.opener(t, path, via))
        res = self.tick()
        self.nchecks += 1
        if r[0] == 'exc':
            e = r[1]
            gone = any(inv <= s <= res for s in self.absent.get(path, ())) or \
                self.sha_of(path) == '' or any(
                    s <= res for s in self.absent.get(path, ())[-1:])
            if isinstance(e, OSError) and (e.errno == 2 or via == 'tmpl') and gone:
                self.w.probe('open_found_nothing')
                self.handles[i].pop(h, None)
                return
            self.viol(['C07'], 'open-failed', 'open during saves fails: %s: %s' % (
                type(e).__name__, short(str(e))))
        H = Handle()
        H.doc, H.flat = r[1], hasattr(r[1], 'xmlnode')
        H.foreign = ()
        k = self.dockey(H)
        full = self.byparts.get(k[:2])
        if full is None:
            self.viol(['C07'], 'mixed-version', 'the opened document is none of the versions '
                      'stored at any time: %s' % self.explain(k))
        H.foreign = full[2]
        H.nobak = via in ('bytes', 'stream') and not H.flat
        self.handles[i][h] = H
        self.events.append(('r', path, full, inv, res))
        self.w.probe('reads')

    def explain(self, k):
        out = []
        for n, c in k[1]:
            vs = sorted(set(str(name) for key, name in self.keys.items() if (n, c) in key[1]))
            out.append('%s of %s' % (n, '/'.join(vs[:3]) or 'nothing'))
        return ', '.join(out)

    def s_bytes(self, t, i, h):
        H = self.handles[i].get(h)
        if H is None:
            return
        key = self.dockey(H)
        r = self.call(t, H.doc.tobytes)
        self.check_bytes(r, key, H)

    def s_stream(self, t, i, h):
        H = self.handles[i].get(h)
        if H is None or H.flat:
            return
        key = self.dockey(H)
        st = io.BytesIO()
        r = self.call(t, lambda: H.doc.saveas(st))
        self.check_bytes(('ok', st.getvalue()) if r[0] == 'ok' else r, key, H)

    def check_bytes(self, r, key, H):
        if r[0] == 'exc':
            self.viol(['C07', 'C08'], 'conversion-failed', repr(r[1]))
        try:
            k = pkg.decode(r[1]).key()
        except pkg.Bad as e:
            self.viol(['C07', 'C08'], 'mixed-members', 'converted document is damaged: %s' % e)
        self.nchecks += 1
        if k != key:
            self.viol(['C07', 'C08'], 'mixed-members', 'document converted to bytes carries other '
                      'parts or members than its own version: %s' % self.explain(k))

    def s_save(self, t, i, h, path):
        H = self.handles[i].get(h)
        if H is None:
            return
        key = self.dockey(H)
        if key not in self.keys:
            self.learn(key, 'T%d.%d' % (i, t.step))
        bk = H.backup and not H.nobak
        inv = self.tick()
        ev = ['w', path, key, inv, None, i, bk]
        self.events.append(ev)
        if bk:
            self.live[path] = self.live.get(path, 0) + 1
        self.writers.setdefault(path, []).append(i)
        before = self.hist[path][-1] if path in self.hist else None
        try:
            r = self.call(t, lambda: H.doc.saveas(path))
        finally:
            if bk:
                self.live[path] -= 1
        ev[4] = self.tick()
        self.nchecks += 1
        if r[0] == 'exc':
            self.viol(['C08', 'C07'], 'save-failed', 'save to %s fails: %s: %s' % (
                path, type(r[1]).__name__, short(str(r[1]))))
        if path in self.lastsave:
            self.lastsave[path] = 'many' if self.lastsave[path][0] != i else \
                (i, before, bk)
        else:
            self.lastsave[path] = (i, before, bk)
        if self.lastsave[path] == 'many':
            self.lastsave[path] = (-1, None, None)
        if self.dockey(H) != key:
            self.viol(['C08'], 'save-changes-document', 'in-memory document changed by save')
        self.w.probe('saves')

    # ----------------------------------------------------------------- finish
    def finish(self):
        w = self.w
        files = w.files()
        for p in self.shared:
            s = self.sha_of(p)
            ws = [e for e in self.events if e[0] == 'w' and e[1] == p]
            if s == '':
                if ws and not self.crashed:
                    self.viol(['C07', 'C08'], 'lost', '%s does not exist after all saves' % p)
                val = None
            else:
                val = self.shas[s]
                if val is None or val not in self.keys:
                    self.viol(['C08', 'C07'], 'torn', '%s holds no complete document (%s)' % (
                        p, self.why))
                bad = pkg.wellformed(files[p], val[0])
                if bad:
                    self.viol(['C08', 'C07'], 'torn', '%s: %s' % (p, bad[:2]))
            init = self.hist[p][0]
            ops = []
            for e in self.events:
                if e[1] != p:
                    continue
                ops.append((e[0], e[2], e[3], e[4] if e[4] is not None else 1 << 60,
                            e[4] is None))
            end = self.tick()
            if val is not None or not self.crashed:
                ops.append(('r', val, end, end + 1, False))
            self.nchecks += len(ops)
            initv = self.shas.get(init) if init else None
            if not linearizable(ops, initv):
                only_w = [o for o in ops if o[0] == 'w' or o is ops[-1]]
                props = ['C07']
                if not linearizable(only_w, initv):
                    props = ['C08', 'C07']
                self.viol(props, 'not-a-register', '%s: no order of the operations explains: %s' % (
                    p, ', '.join('%s(%s)[%d-%s]' % (o[0], self.keys.get(o[1]), o[2],
                                                    '' if o[4] else o[3]) for o in ops)))
            self.check_bak(p, files)
        # nothing else appeared or vanished
        allowed = set(self.initial) | set(self.shared) | set(x + '.bak' for x in self.shared)
        extra = sorted(n for n in files if n not in allowed and n not in self.junk)
        if extra and not self.crashed:
            self.viol(['C08'], 'extra-files', 'left behind: %s' % [
                w.canon(os.path.join(w.work, n)) for n in extra])
        for n, d in list(self.initial.items()) + list(self.junk.items()):
            if n in self.shared or n[:-4] in self.shared and n.endswith('.bak'):
                continue
            if files.get(n) != d:
                self.viol(['C08'], 'foreign-file-damaged', 'file %s was %s' % (
                    w.canon(os.path.join(w.work, n)), 'removed' if n not in files else 'changed'))

    def check_bak(self, p, files):
        b = files.get(p + '.bak')
        old = self.baks[p]
        ws = [e for e in self.events if e[0] == 'w' and e[1] == p]
        if b is None:
            if old is not None:
                self.viol(['C08'], 'backup-lost', '%s.bak is gone' % p)
            if any(e[6] and e[4] is not None for e in ws) and self.hist[p][0] != '' \
                    and not self.crashed:
                self.viol(['C08'], 'backup-missing', 'no %s.bak' % p)
            return
        s = sim.digest(b)
        if b == old:
            if any(e[6] and e[4] is not None for e in ws) and self.hist[p][0] != '' \
                    and s not in self.hist[p]:
                self.viol(['C08'], 'backup-missing', '%s.bak is stale' % p)
            return
        if s not in self.hist[p]:
            self.viol(['C08', 'C07'], 'backup-torn', '%s.bak is no document that was at the path' % p)
        who, before, bk = self.lastsave.get(p, (-1, None, None))
        if who >= 0 and bk and before and s != before and not self.crashed:
            self.viol(['C08'], 'backup-wrong', '%s.bak is not the previous document' % p)


def linearizable(ops, init):
    """ops: (kind, value, inv, resp, optional); one register."""
    n = len(ops)
    seen = set()
    full = (1 << n) - 1
    must = sum(1 << i for i, o in enumerate(ops) if not o[4])

    def rec(done, cur):
        if done & must == must:
            return True
        k = (done, cur)
        if k in seen:
            return False
        seen.add(k)
        limit = min([o[3] for i, o in enumerate(ops) if not done >> i & 1 and not o[4]])
        for i, o in enumerate(ops):
            if done >> i & 1 or o[2] > limit:
                continue
            if o[0] == 'w':
                if rec(done | 1 << i, o[1]):
                    return True
            elif o[1] == cur:
                if rec(done | 1 << i, cur):
                    return True
        return False
    return rec(0, init)


# ------------------------------------------------------------------ C09: solo

HEX = re.compile(r'0x[0-9a-f]+')


class Threads(object):
    """C09: every thread's outcomes must equal those of its solo run."""

    def __init__(self, script, root, record):
        self.script = script
        self.root = root
        self.record = record
        self.nchecks = 0
        self.prop = 'C09'
        self.situations = set()
        self.worlds = []

    def world(self, name):
        r = os.path.join(self.root, name)
        sim.REAL.mkdir(r)
        cfg = self.script.get('cfg', {})
        w = sim.World(r, self.script.get('seed', 0), cfg.get('now', 1.3e9), max_steps=3000000)
        w.bufsize = cfg.get('bufsize', 8192)
        for i, t in enumerate(self.script['tasks']):
            from .session import make_file
            for n, spec in sorted(t.get('files', {}).items()):
                data, _ = make_file(spec)
                with sim.REAL.open(os.path.join(w.work, n), 'wb') as f:
                    f.write(data)
                w.declare(n)
                w.declare(n + '.bak')
            for st in t['steps']:
                if st[0] == 'save':
                    w.declare(st[1])
                    w.declare(st[1] + '.bak')
        w.sync_all()
        return w

    def run(self):
        tasks = self.script['tasks']
        solo = []
        for i in range(len(tasks)):
            w = self.world('solo%d' % i)
            solo.append(self.go(w, [i], [], False)[0])
        w = self.w = self.world('all')
        w.faults = [dict(f) for f in self.script.get('faults', ())]
        out = self.go(w, range(len(tasks)), self.script.get('switches', []), True)
        if self.sched.deadlock:
            raise Violation(['C09'], 'deadlock', 'the threads wait for each other', None)
        for i, (a, b) in enumerate(zip(solo, out)):
            for k in range(max(len(a), len(b))):
                x = a[k] if k < len(a) else None
                y = b[k] if k < len(b) else None
                self.nchecks += 1
                if x != y:
                    st = tasks[i]['steps'][k] if k < len(tasks[i]['steps']) else None
                    raise Violation(['C09'], 'differs-from-solo-run', 'thread %d step %d %s: '
                                    'alone %s, here %s' % (i, k, short(st), short(x), short(y)), None)

    def go(self, w, which, switches, main):
        sim.set_world(w)
        w.bypass = 0
        gc.collect()
        S = sim.Sched(w, {int(k): v for k, v in switches})
        if main:
            self.sched = S
            if self.record:
                S.rec = {}
        proc = w.new_proc(1)
        tasks = [sim.Task(w, n, proc) for n, i in enumerate(which)]
        results = [[] for _ in which]

        def body(n, i):
            def run(t):
                self.thread(w, t, self.script['tasks'][i], results[n], main)
            return run
        S.run(tasks, [body(n, i) for n, i in enumerate(which)], self.script.get('first', 0))
        w.bypass = 1
        if any(t.exc == 'limit' for t in tasks):
            raise Violation(['C09'], 'no-progress', 'a thread does not finish', None)
        for n in range(len(tasks)):
            if tasks[n].exc == 'crash' and not S.deadlock:
                raise RuntimeError('unexpected crash in task')
        return results

    def thread(self, w, t, spec, out, trace):
        ez = t.proc.ez
        cx = {'doc': None, 'dom': None, 'model': None}
        for k, st in enumerate(spec['steps']):
            w.begin_step(t, k)
            if trace and self.script['cfg'].get('lines', True):
                w.start_trace(t, PREFIX)
            try:
                r = ('ok', self.step(w, ez, cx, st))
            except Mismatch as e:
                r = ('mismatch', str(e))
            except Exception as e:
                r = ('exc', type(e).__name__, HEX.sub('0x', str(e)).replace(w.root, ''))
                e.__traceback__ = None
            finally:
                sys.settrace(None)
            out.append(r)
            w.log.append((t.id, k, r[0], sim.digest(repr(r).encode('utf-8', 'replace'))[:8]))

    def step(self, w, ez, cx, st):
        k = st[0]
        if k == 'new':
            cx['dom'] = DOMAINS[st[1]]
            D = cx['dom']
            kind = st[2]
            cx['model'] = D.empty() if D.name != 'pages' else dict(D.empty(), k=kind)
            if st[3] and D.name == 'styles':
                D.flat(cx['model'])
            cx['doc'] = ez.document.FlatXMLDocument(kind) if st[3] else ez.newdoc(kind)
            return self.view(ez, cx)
        if k == 'open':
            cx['dom'] = DOMAINS[st[1]]
            cx['model'] = copy.deepcopy(st[4])
            path, via = st[2], st[3]
            if via == 'path':
                cx['doc'] = ez.opendoc(path)
            else:
                with open(path, 'rb') as f:
                    b = f.read()
                if via == 'tmpl':
                    cx['doc'] = ez.newdoc(template=b)
                else:
                    cx['doc'] = ez.opendoc(b if via == 'bytes' else io.BytesIO(b))
            return self.view(ez, cx)
        if cx['doc'] is None:
            return None
        if k == 'edit':
            D = cx['dom']
            m2 = copy.deepcopy(cx['model'])
            exp = D.step(m2, st[1])
            if exp == 'skip':
                return None
            try:
                D.apply(ez, cx['doc'], st[1], cx['model'])
                if exp == 'ok':
                    cx['model'] = m2
            except Exception as e:
                e.__traceback__ = None
                return ['raised', type(e).__name__, HEX.sub('0x', str(e)), self.view(ez, cx)]
            return self.view(ez, cx)
        if k == 'meta':
            cx['doc'].meta['title'] = st[1]
            cx['doc'].meta.keywords.add(st[1])
            return list(cx['doc'].meta.keywords)
        if k == 'style':
            if not hasattr(cx['doc'], 'xmlnode'):
                cx['doc'].inject_style('<style:style style:name="%s" style:family="paragraph"/>'
                                       % st[1])
            return None
        if k == 'obj':
            return self.objects(ez, st[1])
        if k == 'tobytes':
            return self.content(cx['doc'].tobytes())
        if k == 'save':
            cx['doc'].saveas(st[1])
            w.bypass += 1
            try:
                with sim.REAL.open(os.path.join(w.work, st[1]), 'rb') as f:
                    return self.content(f.read())
            finally:
                w.bypass -= 1
        if k == 'view':
            return self.view(ez, cx)
        raise AssertionError(k)

    @staticmethod
    def objects(ez, text):
        """Stand-alone objects, not part of any document."""
        p = ez.Paragraph(text)
        p.append_text(text)
        h = ez.Heading(text, outline_level=2)
        s = ez.Span(text)
        c = ez.Cell(text)
        t = ez.Sheet('T', size=(2, 2))
        t[0, 0].set_value(text)
        t.set_cell_span((0, 0), (2, 2))
        return [p.plaintext(), h.plaintext(), s.plaintext(), c.plaintext(),
                t[0, 0].value, list(t[0, 0].span), t[1, 1].covered, len(p), len(s)]

    @staticmethod
    def view(ez, cx):
        return cx['dom'].observe(ez, cx['doc'], cx['model'])

    @staticmethod
    def content(data):
        # protection keys are drawn at random
        def dig(x):
            return sim.digest(re.sub(rb'protection-key="[^"]*"', b'', x))[:12]
        if data[:2] != b'PK':
            return dig(data)
        p = pkg.decode(data)
        return [(n, dig(p.members[n])) for n in p.names]


def run_script(script, root, record=False):
    s = (Threads if script['prop'] == 'C09' else Shared)(script, root, record)
    v = None
    try:
        s.run()
    except Violation as e:
        v = {'props': list(e.props), 'class': e.cls, 'detail': e.detail, 'step': e.step}
    w = getattr(s, 'w', None)
    if w is None:
        return {'viol': v, 'log': 'none', 'faults': {}, 'probes': {}, 'nops': 0, 'checks': 0,
                'sim': 0, 'stepinfo': None}
    S = s.sched
    f = dict(w.fault_counts)
    if S.nswitch:
        f['preemption'] = f.get('preemption', 0) + S.nswitch
    return {'viol': v, 'log': sim.digest(repr(w.log).encode('utf-8', 'backslashreplace')),
            'faults': f, 'probes': w.probes, 'nops': w.nops, 'checks': s.nchecks,
            'sim': w.sim_elapsed + w.nops * 1e-3, 'nontrivial': S.nswitch > 0,
            'stepinfo': {'steps': S.steps, 'rec': S.rec} if record else None,
            'rawlog': w.log if script.get('keeplog') else None,
            'states': sorted(s.situations)}


# ------------------------------------------------------------------ generator

def gen_shared(prop, seed):
    rng = random.Random('%s/%d' % (prop, seed))
    kind = rng.choice(['odt', 'odt', 'ods', 'odg'])
    flat = rng.random() < .15
    # the same path may hold packages and flat documents in turn
    mixed = not flat and rng.random() < .12
    ext = ('f' if flat else '') + kind
    nproc = rng.choice([1, 1, 2, 3])
    cfg = {'now': 1.3e9, 'nprocs': nproc, 'bufsize': rng.choice([512, 8192]),
           'pseed': rng.choice([None, 5, 5]), 'lines': rng.random() < .2}
    files = {}
    tasks = []
    ver = [0]

    def isflat():
        return rng.random() < .5 if mixed else flat

    def src():
        ver[0] += 1
        n = 'src%d.%s' % (ver[0], ext)
        files[n] = {'v': ver[0], 'kind': kind, 'flat': isflat(), 'nf': rng.randrange(4),
                    'fs': rng.choice([0, 50, 2000]), 'n': rng.choice([0, 0, 3])}
        return n
    if prop == 'C07':
        shared = ['doc.' + ext]
        if rng.random() < .2:
            shared.append('two.' + ext)
    else:
        shared = ['a.' + ext, 'b.' + ext, 'c.' + ext][:rng.choice([1, 2, 2, 3])]
    for p in shared:
        if prop == 'C07' or rng.random() < .6:
            ver[0] += 1
            files[p] = {'v': ver[0], 'kind': kind, 'flat': isflat(), 'nf': rng.randrange(4), 'fs': 50}
        if rng.random() < .3:
            files[p + '.bak'] = {'raw': [rng.randrange(99), 60]}
    for j in range(rng.choice([0, 0, 1])):
        files['other%d.tmp' % j] = {'raw': [j, 20]}
    ntask = rng.choice([2, 2, 3, 3, 4])
    nobackup = rng.random() < .3
    tag = [0]

    def newtag():
        tag[0] += 1
        return 'E%d' % tag[0]
    for i in range(ntask):
        steps = []
        writer = prop == 'C08' or i == 0 or rng.random() < .4
        if writer:
            path = shared[i % len(shared)] if rng.random() < .7 else rng.choice(shared)
            x = rng.random()
            if prop == 'C07' and x < .3:
                steps.append(['read', 'h', path, rng.choice(['path', 'path', 'bytes'])
                              if not (flat or mixed) else 'path'])
            elif x < .75:
                steps.append(['load', 'h', src(), 'path' if flat or mixed else
                              rng.choice(['path', 'path', 'bytes', 'stream'])])
            else:
                steps.append(['new', 'h', kind, isflat()])
            if nobackup or rng.random() < .2:
                steps.append(['backup', 'h', False])
            for r in range(rng.choice([1, 1, 2, 3])):
                steps.append(['tag', 'h', newtag()])
                if rng.random() < .2:
                    steps.append([rng.choice(['bytes', 'stream']), 'h'])
                steps.append(['save', 'h', path if rng.random() < .85 else rng.choice(shared)])
                if rng.random() < .2:
                    steps.append(['load', 'h', src(), 'path'])
        else:
            for r in range(rng.choice([1, 2, 3])):
                path = rng.choice(shared)
                steps.append(['read', 'h', path, 'path' if flat or mixed or rng.random() < .7 else
                              rng.choice(['bytes', 'stream', 'tmpl'])])
                x = rng.random()
                if x < .5:
                    steps.append([rng.choice(['bytes', 'bytes', 'stream']), 'h'])
                elif x < .65:
                    steps.append(['tag', 'h', newtag()])
                    steps.append(['save', 'h', path])
        tasks.append({'proc': rng.randrange(nproc), 'steps': steps})
    return {'engine': 'conc', 'prop': prop, 'seed': seed, 'cfg': cfg, 'files': files,
            'shared': shared, 'tasks': tasks, 'switches': [], 'faults': [], 'first': 0}


def gen_threads(prop, seed):
    from . import gen
    rng = random.Random('%s/%d' % (prop, seed))
    tasks = []
    doms = ['text', 'text', 'sheet', 'sheet', 'vars', 'meta', 'pages', 'styles']
    same = rng.random() < .5 and rng.choice(doms)
    for i in range(rng.choice([2, 2, 2, 3])):
        D = DOMAINS[same or rng.choice(doms)]
        model = jc(D.initial(rng))
        kind = model['k'] if D.name == 'pages' else D.kind
        steps, files = [], {}
        x = rng.random()
        a = 'doc%d.%s' % (i, kind)
        if x < .65:
            spec = {'dom': D.name, 'model': model, 'kind': kind,
                    'foreign': {'Pictures/a.png': [i + 1, 100]} if rng.random() < .4 else {}}
            via = rng.choice(['path', 'path', 'bytes', 'stream', 'tmpl'])
            if rng.random() < .15:
                spec['flat'] = True
                spec['foreign'] = {}
                if D.name == 'styles':
                    D.flat(model)
                via = 'path'
            files[a] = spec
            steps.append(['open', D.name, a, via, model])
        else:
            model = jc(D.empty() if D.name != 'pages' else dict(D.empty(), k=kind))
            steps.append(['new', D.name, kind, rng.random() < .2])
            if steps[-1][3] and D.name == 'styles':
                D.flat(model)
        mm = copy.deepcopy(model)
        for _ in range(rng.randint(1, 6)):
            op = jc(D.gen(rng, mm))
            D.step(mm, op)
            steps.append(['edit', op])
            if rng.random() < .15:
                steps.append(['style', 'S%d' % i])
            if rng.random() < .15:
                steps.append(['obj', rng.choice(['a  b', ' x\ty\nz ', '  ', 'abc   ', '\n\t  q'])])
            if rng.random() < .15:
                steps.append(['meta', 'K%d' % rng.randrange(9)])
            if rng.random() < .2:
                steps.append(rng.choice([['tobytes'], ['save', 'out%d.%s' % (i, kind)]]))
        steps.append(rng.choice([['tobytes'], ['save', 'out%d.%s' % (i, kind)],
                                 ['save', 'out%d.%s' % (i, kind)]]))
        tasks.append({'steps': steps, 'files': files})
    return {'engine': 'conc', 'prop': prop, 'seed': seed, 'cfg': {'now': 1.3e9, 'lines': True},
            'tasks': tasks, 'switches': [], 'faults': [], 'first': 0}


def switch_variant(script, info, rng, hot=()):
    """Choose preemption points from what the dry run did."""
    total = info['steps']
    rec = info['rec']
    locs = sorted(rec)
    if not locs or total < 2:
        return None
    mode = rng.random()
    sw = {}
    if mode < .55:
        # location first: rarely executed statements get as much weight as loops
        for _ in range(rng.choice([1, 1, 2, 2, 3, 5])):
            l = rng.choice(locs)
            h = [x for x in locs if x in hot]
            if h and rng.random() < .5:
                l = rng.choice(h)
            s = rng.choice(rec[l])
            sw[s] = rng.randrange(6)
            if rng.random() < .5:
                # and come back soon
                sw[s + rng.choice([1, 2, 3, 5, 8, 20, 60])] = rng.randrange(6)
    elif mode < .8:
        for _ in range(rng.choice([1, 2, 3, 4, 6, 10])):
            sw[rng.randrange(1, total + 1)] = rng.randrange(6)
    else:
        p = rng.choice([.02, .1, .3, .6])
        n = min(total, 3000)
        for s in range(1, n + 1):
            if rng.random() < p:
                sw[s] = rng.randrange(6)
    return [[k, sw[k]] for k in sorted(sw)]


HOT = ('rename', 'open_w', 'remove', 'link', 'stat', 'open_r', 'read', 'fsync', 'close')


def family(prop, seed, nvar, execute, sink, stop):
    script = gen_threads(prop, seed) if prop == 'C09' else gen_shared(prop, seed)
    res = execute(jc(script), record=True)
    if not sink(script, res):
        return
    info = res.get('stepinfo')
    if not info or not info.get('rec'):
        return
    rng = random.Random('v%s/%d' % (prop, seed))
    for k in range(nvar):
        s = jc(script)
        s['first'] = rng.randrange(len(s['tasks']))
        sw = switch_variant(s, info, rng, HOT if prop != 'C09' else ())
        if not sw:
            continue
        s['switches'] = sw
        if prop != 'C09':
            x = rng.random()
            if x < .15:
                i = rng.randrange(len(s['tasks']))
                c = [j for j, st in enumerate(s['tasks'][i]['steps']) if st[0] == 'save']
                if c:
                    s['faults'].append({'task': i, 'step': rng.choice(c), 'op': rng.randrange(18),
                                        'kind': 'crash', 'when': rng.choice(['before', 'after', 'torn']),
                                        'frac': .5})
            elif x < .4:
                i = rng.randrange(len(s['tasks']))
                c = [j for j, st in enumerate(s['tasks'][i]['steps']) if st[0] == 'save']
                if c:
                    s['faults'].append({'task': i, 'step': rng.choice(c), 'op': rng.randrange(14),
                                        'kind': 'adv', 'how': 'collide', 'n': rng.randrange(9)})
        yield s
        if not sink(s, execute(s)) or stop():
            return


# ------------------------------------------------------------------ shrinking

def simpler(s0, get):
    # fewer preemptions
    size = max(1, len(get()['switches']) // 2)
    while size >= 1:
        i = 0
        while i < len(get()['switches']):
            n = len(get()['switches'])
            s = jc(get())
            del s['switches'][i:i + size]
            yield s
            if len(get()['switches']) == n:
                i += size
        size //= 2
    for i in range(len(get()['faults'])):
        if i < len(get()['faults']):
            s = jc(get())
            del s['faults'][i]
            yield s
    # empty whole tasks, then single steps from the end
    for i in range(len(get()['tasks'])):
        if get()['tasks'][i]['steps']:
            s = jc(get())
            s['tasks'][i]['steps'] = []
            yield s
    for i in range(len(get()['tasks'])):
        j = len(get()['tasks'][i]['steps']) - 1
        while j >= 0:
            s = jc(get())
            if j < len(s['tasks'][i]['steps']):
                del s['tasks'][i]['steps'][j]
                for f in s['faults']:
                    if f.get('task') == i and f['step'] > j:
                        f['step'] -= 1
                yield s
            j -= 1
    for n in sorted(get().get('files', {})):
        s = jc(get())
        if n in s['files']:
            del s['files'][n]
            yield s
    for i in range(len(get()['switches'])):
        if i < len(get()['switches']) and get()['switches'][i][1]:
            s = jc(get())
            s['switches'][i][1] = 0
            yield s
    if get()['cfg'].get('lines') and get()['prop'] != 'C09':
        s = jc(get())
        s['cfg']['lines'] = False
        yield s


RULE = ('One seed generates the programs of 2 to 4 tasks (threads, grouped into 1 to 3 processes) '
        'and their files; the dry run without preemption records every yield point (file '
        'operation, lock, statement of ezodf); each variant is a schedule: preemption points '
        'chosen location-first, uniformly or as a random walk, with process crashes and name '
        'collisions in some. A run is non-trivial when at least one preemption took place; '
        'distinct counts distinct event-log digests among those.')
REALCOMP = ['all of ezodf', 'lxml', 'zipfile', 'io buffering layers', 'OS threads (one runs at a '
            'time)', 'kernel file system (scratch directory, every call intercepted)']
STUBS = ['thread and process scheduler', 'threading locks', 'system clock', 'random seeding and '
         'temporary names', 'process identity and crash (each simulated process has its own '
         'instance of the ezodf modules)']
ASSUME = ['statements of ezodf are the finest preemption grain (lxml, zipfile and C code run '
          'without preemption except at file operations)',
          'rename within a directory is atomic']
