"""Session engine: one simulated user process working through a script of
new/open/edit/save/convert/crash/restart steps on one simulated disk."""
import copy
import gc
import io
import json
import os
import random
import sys

from . import held, pkg, sim
from .dom import DOMAINS, Mismatch, short, xapply, xstep
from .grid import DEFAULT, Grid
from .pkg import q

DOMAINS['grid'] = Grid
CRASHY = (sim.SimCrash,)


class Violation(BaseException):
    def __init__(self, props, cls, detail, step=None):
        self.props = props
        self.cls = cls
        self.detail = detail
        self.step = step
        super(Violation, self).__init__('%s %s: %s' % (','.join(props), cls, detail))


def fbytes(spec):
    seed, size = spec
    r = random.Random(seed)
    if seed % 3 == 0:
        return bytes(r.choice(b'abcdefgh \n') for _ in range(size))
    return r.randbytes(size)


class Entry(object):
    """What is known about some stored document bytes."""
    __slots__ = ('dom', 'model', 'foreign', 'key', 'mime', 'meta')

    def __init__(self, dom, model, foreign, key, mime, meta=None):
        self.dom, self.model, self.foreign, self.key, self.mime = dom, model, foreign, key, mime
        self.meta = meta


class Handle(object):
    backup = True
    path = None
    proc = None
    stream = None             # what it was opened from
    damaged = False           # a carried member could not be read


def make_file(spec):
    """Initial file bytes from a script's file spec -> (bytes, Entry)."""
    dom = DOMAINS[spec['dom']]
    model = spec['model']
    kind = model['k'] if dom.name == 'pages' else spec.get('kind') or dom.kind
    if spec.get('flat'):
        data = pkg.build_flat(kind, dom.build(model),
                              title=None if dom.name == 'meta' else spec.get('title'),
                              foreign_xml=spec.get('fx', 0), opts=spec.get('opts'),
                              meta_extra=dom.meta_extra(model) if dom.name == 'meta' else None,
                          styles_extra=dom.styles_extra(model) if dom.name == 'styles' else None)
        foreign = {}
    else:
        foreign = {n: fbytes(s) if not n.endswith('/') else b''
                   for n, s in spec.get('foreign', {}).items()}
        data = pkg.build(kind, dom.build(model), foreign=foreign,
                         title=None if dom.name == 'meta' else spec.get('title'),
                         foreign_xml=spec.get('fx', 0), opts=spec.get('opts'),
                         stylename=spec.get('style'),
                         meta_extra=dom.meta_extra(model) if dom.name == 'meta' else None,
                          styles_extra=dom.styles_extra(model) if dom.name == 'styles' else None)
    p = pkg.decode(data, partial=True)
    return data, Entry(dom, model, foreign, p.key(), p.mimetype or pkg.MIMES[kind])


class FailStream(io.BytesIO):
    fail_at = None
    n = 0

    def write(self, b):
        self.n += 1
        if self.fail_at is not None and self.n > self.fail_at:
            self.hit = True
            raise IOError(28, 'simulated stream failure')
        return super(FailStream, self).write(b)
    hit = False
    start = 0


VIAS = ('bytes', 'stream', 'stream-end', 'stream-mid')


class Session(object):
    def __init__(self, script, root, record=False):
        self.script = script
        self.cfg = script.get('cfg', {})
        self.prop = script['prop']
        w = self.w = sim.World(root, script.get('seed', 0), self.cfg.get('now', 1.3e9))
        w.bufsize = self.cfg.get('bufsize', 8192)
        w.tick = self.cfg.get('tick', 0.0)
        w.faults = [dict(f) for f in script.get('faults', ())]
        w.adversary_hook = self.adversary
        self.record = record
        self.handles = {}
        self.registry = {}
        self.gaps = {}            # damaged file -> members it lacked before
        self.stepinfo = []
        self.junk = {}            # files of other programs: name -> bytes
        self.hist = {}            # path -> set of sha ever complete there ('' = absent)
        self.anomalies = []
        self.events = []
        self.nchecks = 0
        self.situations = set()
        self.laststream = None    # a stream a document was saved to
        self.pending = None       # a violation seen inside the code under test
        self.ctx = None
        self.lines = self.cfg.get('lines') or any('line' in f for f in w.faults)
        self.faulted_steps = set(f['step'] for f in w.faults)
        names = script.get('names', ())
        for n in names:           # documents in folders, which may be file systems of their own
            if '/' in n:
                os.makedirs(os.path.join(w.work, os.path.dirname(n)), exist_ok=True)
                w.mounts.add(n.split('/')[0])
        if self.cfg.get('cwd'):   # the process works in another folder
            w.cwd = w.tmpdir
        for name, spec in sorted(script.get('files', {}).items()):
            w.declare(name)
            w.declare(name + '.bak')
            p = os.path.join(w.work, name)
            if 'raw' in spec:
                data = fbytes(spec['raw'])
            else:
                data, ent = make_file(spec)
                self.registry[sim.digest(data)] = ent
            with sim.REAL.open(p, 'wb') as f:
                f.write(data)
            if 'raw' in spec:
                self.junk[name] = data
        for st in script['steps']:
            for a in st:
                if isinstance(a, str) and ('.' in a and len(a) < 24 and '/' not in a or a in names):
                    w.declare(a)
                    w.declare(a + '.bak')
        w.sync_all()
        w.probes['x'] = 0
        del w.probes['x']
        self.proc = w.new_proc()
        self.task = sim.Task(w, 0, self.proc)

    # ---------------------------------------------------------------- driver
    def run(self):
        w = self.w
        sim.set_world(w)
        self.proc.swap_in()
        w.enter(self.task)
        try:
            w.bypass = 1
            for i, st in enumerate(self.script['steps']):
                self.istep = i
                gc.collect()
                w.begin_step(self.task, i)
                self.task.opseq = [] if self.record else None
                self.events.append(st[0])
                try:
                    getattr(self, 's_' + st[0].replace('-', '_'))(*st[1:])
                finally:
                    if self.record:
                        self.stepinfo.append({'ops': list(self.task.opseq or ()),
                                              'lines': self.task.lines,
                                              'reads': self.task.reads})
                    w.after_op = []
                    self.ctx = None
                self.check_junk()
            self.finish()
        finally:
            w.bypass = 1
            w.leave()

    def finish(self):
        pass

    def viol(self, props, cls, detail):
        v = Violation(props if isinstance(props, (list, tuple)) else [props], cls, detail,
                      self.istep)
        if '*' in v.props:
            v.props = [self.prop]
        if self.script.get('blame') and self.w.fault_counts and self.prop not in v.props:
            # the same session is clean without faults: the faults this property
            # speaks about made the difference
            v.props = list(v.props) + [self.prop]
        if self.pending is None:
            self.pending = v
        raise v

    # ------------------------------------------------- calling the real code
    def call(self, fn):
        """Run fn as the simulated task; returns ('ok', value) | ('exc', e) |
        ('crash', how) and handles tracing."""
        w, t = self.w, self.task
        w.bypass = 0
        if self.lines and (self.record or any('line' in f and f['step'] == self.istep
                                              for f in w.faults)):
            w.start_trace(t, PREFIX)
        try:
            try:
                r = ('ok', fn())
            finally:
                sys.settrace(None)
                w.bypass = 1
        except sim.SimCrash as e:
            r = ('crash', str(e))
        except sim.SimLimit:
            self.viol(['*'], 'no-progress', 'operation does not finish within the step budget')
        except Exception as e:
            r = ('exc', e)
        except (KeyboardInterrupt, MemoryError) as e:
            r = ('exc', e)
        if self.pending is not None:
            raise self.pending    # swallowed by the code under test
        if self.prop == 'C27' and r[0] != 'crash' and w.fds and not any(
                k[0].startswith('intr') for k in t.fired):
            self.viol(['C27'], 'file-left-open', '%s (%s) leaves open: %s' % (
                self.events[-1], 'returned' if r[0] == 'ok' else exn(r[1]),
                sorted(w.canon(v[0]) for v in w.fds.values())))
        if r[0] == 'exc':
            # drop frames: files held open by a failed call are collected, as in
            # a program that handles the error and goes on
            e = r[1]
            tb, e.__traceback__ = e.__traceback__, None
            c = e.__context__
            n = 0
            while c is not None and n < 10:
                c.__traceback__ = None
                c = c.__context__
                n += 1
            del tb
            name = type(e).__name__
            w.log.append(('exc', name))
            if t.proc.dead:
                r = ('crash', 'dead')
        elif r[0] == 'ok':
            w.log.append(('ok',))
        self.situations.add('%s|%s|%s' % (self.events[-1], ','.join(
            sorted('%s@%s' % k for k in t.fired)), r[0] if r[0] != 'exc' else name))
        if w.escapes:
            self.viol(['C16'], 'escape', 'tried to modify %s' % (w.escapes[:2],))
        if r[0] == 'crash':
            self.crashed()
        return r

    def fired(self):
        return any(k[0] not in HARMLESS for k in self.task.fired)

    def crashed(self):
        """The process died (or lost power): only the disk survives."""
        w = self.w
        f = w.pend_power
        w.pend_power = None
        self.handles = {}
        ctx = self.ctx
        if f is not None:
            n = len(w.journal)
            lo = 0
            cut = n if f.get('cut') is None else lo + int(round((n - lo) * f['cut']))
            img = w.power_image(cut, f.get('data', 'half'))
            w.apply_image(img)
            w.sim_elapsed += 60
            self.check_power_image(ctx)
        self.new_process()

    def new_process(self):
        w = self.w
        self.laststream = None
        w.leave()
        self.proc.dead = True
        self.proc = w.new_proc()
        old = self.task
        self.task = sim.Task(w, 0, self.proc)
        self.task.step, self.task.opn = old.step, 100000
        self.task.fired = old.fired
        self.task.lines = 10 ** 9
        self.task.opseq = old.opseq
        self.proc.swap_in()
        w.enter(self.task)
        w.log.append(('RESTART',))

    # ----------------------------------------------------------- doc queries
    def dockey(self, H):
        d = H.doc
        self.nchecks += 1
        if H.flat:
            return (d.mimetype, (('flat', pkg.chash(d.xmlnode, pkg.META_SKIP)),), ())
        parts = {'content.xml': pkg.chash(d.content.xmlnode),
                 'styles.xml': pkg.chash(d.styles.xmlnode),
                 'meta.xml': pkg.chash(d.meta.xmlnode, pkg.META_SKIP)}
        return (H.mime, tuple(sorted(parts.items())), self.fkey(H.foreign))

    @staticmethod
    def fkey(foreign):
        return tuple(sorted((k, sim.digest(v)[:16]) for k, v in foreign.items()))

    def marks(self, H):
        d = H.doc
        if H.flat:
            return pkg.xmarks([('flat', d.xmlnode)])
        return pkg.xmarks([('c', d.content.xmlnode), ('s', d.styles.xmlnode),
                           ('m', d.meta.xmlnode)])

    def diffkey(self, a, b):
        """Which parts differ between two version keys."""
        out = []
        if a[0] != b[0]:
            out.append('mimetype %s/%s' % (a[0], b[0]))
        pa, pb = dict(a[1]), dict(b[1])
        out += sorted(k for k in set(pa) | set(pb) if pa.get(k) != pb.get(k))
        fa, fb = dict(a[2]), dict(b[2])
        for k in sorted(set(fa) | set(fb)):
            if k not in fa:
                out.append('+' + k)
            elif k not in fb:
                out.append('-' + k)
            elif fa[k] != fb[k]:
                out.append('~' + k)
        return out

    def metainfo(self, d):
        r = {}
        for k in ('editing-cycles', 'date', 'creation-date', 'generator'):
            try:
                r[k] = d.meta[k]
            except KeyError:
                r[k] = None
        return r

    def observe(self, H, props, when):
        ez = self.proc.ez
        try:
            got = H.dom.observe(ez, H.doc, H.model)
        except Mismatch as e:
            self.viol(props, getattr(e, 'cls', 'wrong-content'), '%s: %s' % (when, e))
        except Exception as e:
            self.viol(props, 'unreadable-content', '%s: %s: %s' % (when, type(e).__name__, e))
        want = H.dom.view(H.model)
        self.nchecks += 1
        if got != want:
            self.viol(props, 'wrong-content', '%s: %s' % (when, difftext(got, want)))

    # ------------------------------------------------------------------ steps
    def s_new(self, h, dom, kind, path):
        D = DOMAINS[dom]
        ez = self.proc.ez
        flat = kind[0] == 'f'
        kind = kind[1:] if flat else kind
        t0 = self.w.now
        r = self.call((lambda: ez.document.FlatXMLDocument(kind, self.name(path))) if flat else
                      (lambda: ez.newdoc(kind, self.name(path))))
        if r[0] != 'ok':
            if r[0] == 'exc' and not self.fired():
                self.viol(['C17', 'C05', D.prop], 'new-failed',
                          'newdoc(%r): %s' % (kind, exn(r[1])))
            return
        H = Handle()
        H.doc, H.dom, H.flat = r[1], D, flat
        H.model = D.empty() if D.name != 'pages' else dict(D.empty(), k=kind)
        if flat and D.name == 'styles':
            D.flat(H.model)
        H.foreign = {}
        H.mime = pkg.MIMES[kind]
        H.path = path
        H.born = 'new'
        H.makes_backup = True
        self.put(h, H)
        lo, hi = min(t0, self.w.now), max(t0, self.w.now)
        for k in ('date', 'creation-date'):
            ts = parse_iso(H.meta0[k])
            if ts is None or (not any(f[0] == 'clock_jump' for f in self.task.fired) and
                              not lo - 1 <= ts <= hi + 1):
                self.viol(['C12'], 'creation-date', 'new document has %s %r, clock %r'
                          % (k, H.meta0[k], lo))
        self.observe(H, [D.prop], 'new document')

    def put(self, h, H):
        H.meta0 = self.metainfo(H.doc)
        H.marks = self.marks(H)
        H.proc = self.proc
        H.held = {}
        self.handles[h] = H

    def s_open(self, h, path, via):
        self._open(h, path, via, False)

    def s_newt(self, h, path, via, target):
        self._open(h, path, via, True, target)

    def s_ensure(self, h, path, via):
        """Open after a crash (falling back to the backup), if h is gone."""
        if h in self.handles:
            return
        files = self.w.files()
        if path not in files and path + '.bak' in files:
            self.w.probe('recovered_from_bak')
            p = os.path.join(self.w.work, path)
            data = files[path + '.bak']
            self.w.external_remove(p + '.bak')
            self.junk.pop(path + '.bak', None)
            self.w.external_put(p, data)
        self._open(h, path, via, False, ensure=True)

    def name(self, path):
        """The name of a document as the program spells it."""
        return os.path.join(self.w.work, path) if self.cfg.get('abs') and path else path or ''

    def s_openlast(self, h, target):
        """Open the stream object a save was written to, or one already opened."""
        if self.laststream is not None:
            self._open(h, None, 'laststream', False)
            if h in self.handles:
                self.handles[h].path = target

    def _open(self, h, path, via, template, target=None, ensure=False):
        ez = self.proc.ez
        files = self.w.files()
        damaged = None
        data = files.get(path)
        if via == 'laststream':
            data = self.laststream.getvalue()
        ent = self.registry.get(sim.digest(data)) if data is not None else None
        try:
            want = pkg.decode(data, partial=ent is not None) if data is not None else None
            if want is not None and want.mimetype is None:
                # neither mimetype nor manifest: only the file name tells the type
                want.mimetype = pkg.MIMES.get(path.rsplit('.', 1)[-1]) if via == 'path' else None
                if want.mimetype is None:
                    ent = None
                else:
                    self.w.probe('opened_by_file_extension')
        except pkg.Bad:
            want = None
            damaged = pkg.damaged_only_foreign(data, self.gaps.get(sim.digest(data), ()))
        full = self.name(path)

        def fn():
            if via == 'laststream':
                return ez.opendoc(self.laststream)
            if via == 'path':
                src = full
            else:
                with open(full, 'rb') as f:
                    b = f.read()
                src = b
                if via != 'bytes':
                    src = self.newstream = io.BytesIO(b)
                    if via == 'stream-end':
                        src.seek(0, 2)      # as after writing the package into it
                    elif via == 'stream-mid':
                        src.read(len(b) // 2)
            if template:
                return ez.newdoc(filename=self.name(target), template=src)
            return ez.opendoc(src)
        if data is None and via != 'path':
            return
        if template and want is not None and want.flat:
            return
        self.newstream = None
        r = self.call(fn)
        dprops = ['C06', 'C05'] + ([ent.dom.prop] if ent else [])
        if via != 'path':
            dprops.append('C15')
        if ensure:
            dprops += ['C01', 'C02', 'C18']
        if template:
            dprops = ['C15', 'C05', 'C06']
        if r[0] == 'crash':
            return
        if r[0] == 'exc':
            self.handles.pop(h, None)
            if isinstance(r[1], (KeyboardInterrupt, MemoryError)):
                return
            # bytes nobody ever stored may be legible to us and yet no document
            if not self.fired() and want is not None and ent is not None:
                self.viol(dprops + ['C17'], 'open-failed', 'opening a complete document (%s) fails: %s'
                          % (via, exn(r[1])))
            return
        if self.fired() and any(k[0].startswith('interrupt') for k in self.task.fired):
            self.viol(['C18'], 'interrupt-swallowed', 'an interrupt during open vanished')
        if want is None and damaged is not None:
            # only carried members are damaged: their loss shows at the latest
            # when they have to be copied
            want = damaged
            self.w.probe('opened_with_damaged_carried_member')
        if want is None:
            self.viol(['C06'], 'opened-damaged',
                      'opening %s document succeeded' % ('a damaged' if data else 'an absent'))
        H = Handle()
        H.doc = r[1]
        H.flat = want.flat
        H.dom = ent.dom if ent else DOMAINS['opaque']
        H.model = copy.deepcopy(ent.model) if ent else {}
        if H.dom is Grid:
            Grid.opened(H.model, self.strategy())
        H.foreign = dict(want.foreign)
        H.mime = want.mimetype
        H.damaged = bool(want.damaged)
        H.stream = self.newstream
        self.newstream = None
        if template and H.mime.endswith('-template'):
            H.mime = H.mime[:-9]
        H.path = target if template else (path if via == 'path' else None)
        H.born = ('t' if template else '') + via
        H.makes_backup = via == 'path' or want.flat
        self.nchecks += 1
        if want.absent:
            for n, part in (('styles.xml', H.doc.styles), ('meta.xml', H.doc.meta)):
                if n in want.absent:
                    if not pkg.blank_part(n, part.xmlnode):
                        self.viol(['C06', 'C05'], 'open-differs', 'missing %s is not blank' % n)
                    want.parts[n] = pkg.chash(part.xmlnode, pkg.META_SKIP if n == 'meta.xml' else None)
            self.w.probe('opened_partial_package')
        key = self.dockey(H)
        wkey = (H.mime,) + want.key()[1:]
        if key[:2] != wkey[:2]:
            self.viol(['C06', 'C04'] + (['C15'] if via != 'path' else []), 'open-differs',
                      'opened document differs from the file in %s' % self.diffkey(key, wkey))
        if not H.flat and H.doc.mimetype != H.mime:
            self.viol(['C05', 'C06'], 'open-differs', 'document type %r' % H.doc.mimetype)
        self.put(h, H)
        if ent is not None:
            self.observe(H, [ent.dom.prop], 'after open (%s)' % via)

    def s_reopen(self, h, via):
        H = self.handles.get(h)
        if H is None or H.path is None:
            return
        path = H.path
        if path not in self.w.files():
            return
        del H
        self.handles.pop(h)
        self._open(h, path, via, False)
        if h in self.handles and self.handles[h].path is None:
            self.handles[h].path = path

    def s_scribble(self, h, how):
        """The program uses the stream a document was opened from for other data."""
        H = self.handles.get(h)
        if H is None or H.stream is None:
            return
        key0 = self.dockey(H)
        n = len(H.stream.getvalue())
        try:
            if how == 'over':
                H.stream.seek(0)
                H.stream.write(b'\0' * n)
            elif how == 'more':
                H.stream.seek(0, 2)
                H.stream.write(b'more' * 2000)
            elif how == 'trunc':
                H.stream.seek(0)
                H.stream.truncate()
            else:
                H.stream.close()
                H.stream = None
        except (BufferError, ValueError) as e:
            self.viol(['C15'], 'stream-locked', 'the stream a document was opened from cannot '
                      'be used: %s' % exn(e))
        self.w.probe('stream_reused')
        if self.dockey(H) != key0:
            self.viol(['C15'], 'stream-shared', 'the document changes with the stream it was '
                      'opened from')

    def s_drop(self, h):
        self.handles.pop(h, None)

    def s_restart(self):
        self.handles = {}
        self.new_process()

    def s_clock(self, to):
        self.w.sim_elapsed += abs(to - self.w.now)
        self.w.set_clock(to)

    def s_wait(self, dt):
        self.w.advance(dt)

    def s_chdir(self, k):
        if self.cfg.get('abs'):
            self.w.cwd = [self.w.tmpdir, self.w.work, self.w.root][k]
            os.chdir(self.w.cwd)

    def s_backup(self, h, flag):
        H = self.handles.get(h)
        if H is not None:
            H.doc.backup = flag
            H.backup = flag

    def strategy(self):
        return getattr(self.proc, 'strategy', None) or DEFAULT

    def s_strategy(self, strat=None):
        c = self.proc.ez.config
        if strat is None:
            r = self.call(c.reset_table_expand_strategy)
        else:
            r = self.call(lambda: c.set_table_expand_strategy(strat[0], tuple(strat[1:])))
        if r[0] == 'ok':
            self.proc.strategy = strat and list(strat)
        elif r[0] == 'exc':
            self.viol(['C21'], 'strategy-failed', exn(r[1]))

    def s_edit(self, h, op):
        H = self.handles.get(h)
        if H is None:
            return
        if H.dom is Grid:
            H.model['strat'] = list(self.strategy())
        m2 = copy.deepcopy(H.model)
        exp = H.dom.step(m2, op)
        if exp == 'skip':
            return
        ez = self.proc.ez
        model = H.model
        r = self.call(lambda: H.dom.apply(ez, H.doc, op, model))
        P = H.dom.prop
        if r[0] == 'exc':
            if exp == 'ok' and not self.fired():
                self.viol([P], 'edit-failed', '%s: %s' % (short(op), exn(r[1])))
            if isinstance(r[1], NameError):
                self.viol([P], 'edit-failed', '%s: broken rejection: %s' % (short(op), exn(r[1])))
        elif r[0] == 'ok':
            if exp == 'rej':
                self.viol([P], 'edit-accepted', 'invalid operation accepted: %s' % short(op))
            H.model = m2
        else:
            return
        self.observe(H, [P], 'after %s' % short(op))
        marks = self.marks(H)
        if marks != H.marks:
            if H.dom.name == 'meta' and op[0] in ('s0', 'clear'):
                H.marks = marks         # removes what it says it removes
            else:
                self.viol(['C04', P], 'unknown-markup-lost', '%s changes unknown markup: %s' % (
                    short(op), sorted(set(marks) ^ set(H.marks))[:3]))

    def s_xfer(self, h, g, op):
        """A piece of one document becomes part of another one."""
        H, G = self.handles.get(h), self.handles.get(g)
        if H is None or G is None or H.dom is not G.dom:
            return
        D = H.dom
        m1, m2 = copy.deepcopy(H.model), copy.deepcopy(G.model)
        if xstep(D, m1, m2, op) == 'skip':
            return
        for X in (H, G):
            X.held.clear()
            X.doc.__dict__.pop('_dst_held', None)
        o1, o2 = H.model, G.model
        r = self.call(lambda: xapply(D, self.proc.ez, H.doc, G.doc, o1, o2, op))
        if r[0] == 'exc' and not self.fired():
            self.viol([D.prop], 'edit-failed', 'from one document into another %s: %s' % (
                short(op), exn(r[1])))
        if r[0] != 'ok':
            return
        for X, m in ((H, m1), (G, m2)):
            held.unmark(m, None)
            X.model = m
        self.observe(H, [D.prop], 'after a piece was moved into another document')
        self.observe(G, [D.prop], 'after a piece of another document was moved here')
        if (self.marks(H), self.marks(G)) != (H.marks, G.marks):
            self.viol(['C04', D.prop], 'unknown-markup-lost', 'moving a piece into another document '
                      'changes unknown markup')
        self.w.probe('moved_between_documents')

    # ------------------------------------------------- objects a program keeps
    def s_hold(self, h, slot, sel):
        H = self.handles.get(h)
        D = H and held.H.get(H.dom.name)
        if not D:
            return
        p = D.piece(H.model, sel)
        if p is None:
            return
        H.held.pop(slot, None)
        other = p.get('hid')
        held.unmark(H.model, slot)
        r = self.call(lambda: D.grab(self.proc.ez, H.doc, H.model, sel))
        if r[0] == 'exc':
            self.viol(['C26', H.dom.prop], 'lookup-failed', '%s: %s' % (sel, exn(r[1])))
        if r[0] != 'ok':
            return
        if other is not None and other in H.held:
            H.held.pop(other)
        p['hid'] = slot
        H.held[slot] = r[1]
        if 'new' in sel[:1] or 'cn' in sel[:1]:
            self.observe(H, ['C26'], 'after %s' % short(sel))
        self.check_held(H, 'just obtained', slot)

    def s_use(self, h, slot, op):
        H = self.handles.get(h)
        if H is None or slot not in H.held:
            return
        D = held.H[H.dom.name]
        m2 = copy.deepcopy(H.model)
        exp = D.ustep(m2, slot, op)
        if exp == 'skip':
            return
        o = H.held[slot]
        r = self.call(lambda: D.uapply(self.proc.ez, H.doc, o, op))
        if exp == 'gone':
            self.w.probe('used_after_deletion')
        elif r[0] == 'exc':
            self.viol(['C26'], 'edit-failed', '%s through a kept object: %s' % (short(op), exn(r[1])))
        if r[0] == 'crash':
            return
        H.model = m2
        self.observe(H, ['C26'], 'after %s through a kept object%s' % (
            short(op), ' deleted before' if exp == 'gone' else ''))
        self.w.probe('used_kept_object')
        if op[0] in ('s0', 'clear'):
            H.marks = self.marks(H)
        self.check_held(H, 'after %s through it' % short(op), slot)

    def check_held(self, H, when, only=None):
        D = held.H.get(H.dom.name)
        for slot in sorted(H.held):
            if only is not None and slot != only:
                continue
            p = held.find(H.model, slot)
            if p is None:
                continue
            self.nchecks += 1
            try:
                D.uread(H.doc, H.held[slot], H.model, p)
            except Mismatch as e:
                self.viol(['C26'], 'kept-object-differs', '%s: %s' % (when, e))
            except Exception as e:
                self.viol(['C26'], 'kept-object-unreadable', '%s: %s' % (when, exn(e)))

    def nodes(self, H):
        if self.prop != 'C26':
            return None
        d = H.doc
        roots = [d.xmlnode] if H.flat else [d.content.xmlnode, d.styles.xmlnode]
        return [n for r in roots for n in r.iter()]

    def check_nodes(self, H, before, what):
        if before is None:
            return
        now = self.nodes(H)
        if H.flat:
            # saving keeps the books in this very tree
            ids = set(map(id, now))
            skip = H.doc.meta.xmlnode.iter()
            skip = set(map(id, list(skip)))
            same = all(id(n) in ids or id(n) in skip for n in before)
        else:
            same = len(now) == len(before) and all(a is b for a, b in zip(now, before))
        if not same:
            self.viol(['C26'], 'objects-detached', 'elements of the document are others after %s' % what)
        self.check_held(H, 'after ' + what)

    def s_style(self, h, name):
        H = self.handles.get(h)
        if H is None or H.flat or H.dom.name == 'styles':
            return
        r = self.call(lambda: H.doc.inject_style(
            '<style:style style:name="%s" style:family="paragraph"/>' % name))
        if r[0] == 'exc':
            self.viol(['C25'], 'style-failed', exn(r[1]))

    def s_tobytes(self, h):
        H = self.handles.get(h)
        if H is None:
            return
        self._convert(H, None)

    def s_savestream(self, h, fail_at=None, prefix=0):
        H = self.handles.get(h)
        if H is None or H.flat:
            return
        st = FailStream()
        if prefix:
            st.write(b'other data '[:prefix])   # the stream belongs to the user
        st.start = len(st.getvalue())
        st.n = 0
        st.fail_at = fail_at
        self._convert(H, st)
        if not st.hit and not prefix and sim.digest(st.getvalue()) in self.registry:
            self.laststream = st

    def _convert(self, H, stream):
        w = self.w
        key0 = self.dockey(H)
        mi0 = self.metainfo(H.doc)
        before = w.files()
        nwr = len(w.writes)
        nodes = self.nodes(H)
        name0 = H.doc.docname
        t0 = w.now
        if stream is None:
            r = self.call(lambda: H.doc.tobytes())
        else:
            r = self.call(lambda: H.doc.saveas(stream))
        if r[0] == 'crash':
            self.same_files(before, ['C15', 'C16'])
            return
        self.same_files(before, ['C15', 'C16'])
        if len(w.writes) != nwr:
            self.viol(['C15', 'C16'], 'conversion-writes', '%s' % (w.writes[nwr:nwr + 3],))
        key1 = self.dockey(H)
        if key1 != key0:
            self.viol(['C15', 'C18'] if r[0] == 'exc' else ['C15'], 'conversion-changes-document',
                      'parts %s' % self.diffkey(key1, key0))
        self.check_nodes(H, nodes, 'conversion')
        if stream is None:
            if H.doc.docname != name0:
                self.viol(['C15'], 'conversion-changes-name', repr(H.doc.docname))
            if self.metainfo(H.doc) != mi0:
                self.viol(['C15', 'C12'], 'conversion-changes-bookkeeping',
                          '%s -> %s' % (mi0, self.metainfo(H.doc)))
        else:
            # saveas() renames the document to the stream; the user sets it back
            H.doc.docname = name0
        failed_stream = stream is not None and stream.hit
        if r[0] == 'exc':
            if isinstance(r[1], (KeyboardInterrupt, MemoryError)):
                w.probe('interrupted_conversion')
                return
            if not self.fired() and not failed_stream and not H.damaged:
                self.viol(['C15', 'C17', 'C05'], 'conversion-failed', exn(r[1]))
            w.probe('failed_conversion')
            if stream is not None:
                self.check_bookkeeping(H, mi0, t0, False, None)
            return
        if self.fired() and any(k[0].startswith('interrupt') for k in self.task.fired):
            self.viol(['C18'], 'interrupt-swallowed', 'an interrupt during conversion vanished')
        if failed_stream:
            self.viol(['C15', 'C03'], 'failure-swallowed', 'stream write failed, save returned')
        data = r[1] if stream is None else stream.getvalue()
        if stream is not None and stream.start:
            if data[:stream.start] != b'other data '[:stream.start]:
                self.viol(['C15'], 'stream-overwritten', 'data in front of the stream position')
            data = data[stream.start:]
        if H.damaged:
            self.viol(['C06', 'C04'], 'damage-dropped', 'conversion succeeds although carried '
                      'members of the opened package are unreadable')
        self.stored(H, data, key0, ['C15'], 'converted bytes')
        if stream is not None:
            self.check_bookkeeping(H, mi0, t0, True, data)
        self.nchecks += 1

    def stored(self, H, data, key, props, what):
        """Check stored bytes against the in-memory document; register them."""
        bad = pkg.wellformed(data, H.mime)
        if bad:
            self.viol(props + ['C05'], 'malformed', '%s: %s' % (what, '; '.join(bad[:3])))
        p = pkg.decode(data)
        k = p.key()
        if k != key:
            d = self.diffkey(k, key)
            pr = list(props)
            if any(x[0] in '+-~' for x in d):
                pr.append('C04')
            if any(x[0] not in '+-~' for x in d):
                pr += ['C04', H.dom.prop]
            self.viol(pr, 'stored-differs', '%s differ from the document: %s' % (what, d))
        self.registry[sim.digest(data)] = Entry(H.dom, copy.deepcopy(H.model),
                                                dict(H.foreign), k, H.mime,
                                                self.metainfo(H.doc))
        return p

    def same_files(self, before, props):
        now = self.w.files()
        if now != before:
            ch = sorted(k for k in set(now) | set(before) if now.get(k) != before.get(k)
                        and k not in self.junk)
            if ch:
                self.viol(props, 'files-touched', 'changed: %s' % ch)

    # ------------------------------------------------------------------- save
    def s_save(self, h):
        H = self.handles.get(h)
        if H is None:
            return
        if H.path is None:
            return
        self._save(H, None)

    def s_saveas(self, h, path):
        H = self.handles.get(h)
        if H is None:
            return
        self._save(H, path)

    def _save(self, H, target):
        w = self.w
        path = target or H.path
        full = os.path.join(w.work, path)
        before = w.files()
        C = self.ctx = Ctx()
        C.path, C.bak = path, path + '.bak'
        C.full, C.fullbak = full, full + '.bak'
        C.oldP, C.oldB = before.get(path), before.get(path + '.bak')
        C.oldsha = sim.digest(C.oldP) if C.oldP is not None else None
        C.oldbsha = sim.digest(C.oldB) if C.oldB is not None else None
        C.H = H
        C.mb = H.makes_backup and H.backup
        self.junk.pop(path, None)
        if C.mb:
            self.junk.pop(C.bak, None)
        C.key = self.dockey(H)
        C.cls = {}
        C.before = before
        C.j0 = len(w.journal)
        C.last = None
        hs = self.hist.setdefault(path, set())
        hs.add(C.oldsha or '')
        hb = self.hist.setdefault(C.bak, set())
        hb.add(C.oldbsha or '')
        mi0 = self.metainfo(H.doc)
        nodes = self.nodes(H)
        t0 = w.now
        w.after_op = [self.boundary]
        if self.fault_here('capacity'):
            f = self.fault_here('capacity')
            w.capacity = w._used() + f['bytes']
        arg = None
        if target is not None:
            arg = self.name(path)
        elif H.doc.docname in (None, '') or not isinstance(H.doc.docname, str) or \
                H.born.lstrip('t') not in ('path', 'new'):
            arg = self.name(path)
        r = self.call((lambda: H.doc.saveas(arg)) if arg is not None else
                      (lambda: H.doc.save()))
        w.capacity = None
        w.after_op = []
        if r[0] == 'crash':
            # self.handles is already cleared; state was checked at the last
            # boundary and, after power loss, in check_power_image
            w.probe('crash_in_save')
            self.after_crash(C)
            return
        if r[0] == 'ok' or not any(k[0].startswith('interrupt') for k in self.task.fired):
            H.path = path
        elif isinstance(H.doc.docname, str) and \
                os.path.join(w.work, H.doc.docname) == full:
            H.path = path       # else it was interrupted before it got the name
        after = w.files()
        st = self.classify(C, after.get(path), after.get(C.bak))
        interrupted = any(k[0].startswith('interrupt') for k in self.task.fired)
        key1 = self.dockey(H)
        if key1 != C.key:
            self.viol(['C03', 'C18', 'C12'] if r[0] == 'exc' else ['C03', H.dom.prop],
                      'save-changes-document',
                      'in-memory parts changed by save: %s' % self.diffkey(key1, C.key))
        self.check_nodes(H, nodes, 'saving' if r[0] == 'ok' else 'a failed save')
        if r[0] == 'exc':
            self.failed_save(C, H, r[1], st, after, interrupted)
            self.check_bookkeeping(H, mi0, t0, False, None)
            return
        if interrupted:
            self.viol(['C18'], 'interrupt-swallowed', 'an interrupt during save vanished')
        data = after.get(path)
        if data is None:
            self.viol(['C03', 'C01'], 'save-lost', 'save returned but no file is at the path')
        if H.damaged:
            self.viol(['C06', 'C04'], 'damage-dropped', 'save succeeds although carried members '
                      'of the opened package are unreadable')
        own = ['C03']
        if self.fired():
            w.probe('save_ok_despite_fault')
        p = self.stored(H, data, C.key, own, 'the saved file')
        # C16: only the target and its backup
        extra = self.new_names(C, after)
        if extra:
            self.viol(['C16', 'C03'], 'extra-files', 'left behind: %s' % self.cn(extra))
        self.others_intact(C, before, after)
        nb = after.get(C.bak)
        if C.mb and C.oldP is not None:
            if nb != C.oldP:
                self.viol(['C16'], 'backup-wrong', '.bak is %s' % (
                    'absent' if nb is None else 'not the previous file'))
        elif nb != C.oldB:
            self.viol(['C16'], 'backup-touched', '.bak changed although no backup was due')
        self.check_bookkeeping(H, mi0, t0, True, data)
        if not H.flat and self.script.get('prop') == 'C05':
            if not self.proc.ez.filemanager.check_zipfile_for_oasis_validity(full, H.mime.encode()):
                self.viol(['C05'], 'not-valid', 'the library takes its own package for invalid')
        self.nchecks += 3
        w.probe('save_ok')

    def fault_here(self, kind):
        for f in self.w.faults:
            if f['kind'] == kind and f['step'] == self.istep:
                return f
        return None

    def cn(self, names):
        return [self.w.canon(os.path.join(self.w.work, n)) for n in names]

    def new_names(self, C, after):
        return sorted(n for n in after if n not in C.before and n not in (C.path, C.bak)
                      and n not in self.junk)

    def others_intact(self, C, before, after):
        for n, b in before.items():
            if n in (C.path, C.bak):
                continue
            if after.get(n) != b and self.junk.get(n) != after.get(n):
                self.viol(['C16', 'C08'], 'foreign-file-damaged', 'file %s %s' % (
                    n, 'removed' if n not in after else 'changed'))

    def failed_save(self, C, H, e, st, after, interrupted):
        w = self.w
        if not self.fired() and not H.damaged:
            n = getattr(e, 'filename', None)
            astray = isinstance(n, str) and os.path.dirname(w.abspath(n)) != os.path.dirname(C.full)
            self.viol(['C03', 'C05', 'C17', 'C15' if H.born != 'path' else 'C03', H.dom.prop] +
                      ['C16'] * astray,     # it deals with a file in another folder
                      'save-failed', 'save without any fault fails: %s' % exn(e))
        w.probe('failed_save' if not interrupted else 'interrupted_save')
        fired = [k[0] for k in self.task.fired]
        own = ['C18'] if interrupted else ['C03']
        if st == 'torn':
            self.viol(own + ['C01'], 'failed-save-damages', 'after the failed save (%s) the '
                      'path holds neither the old nor the new document' % exn(e))
        nb = after.get(C.bak)
        if st == 'lost' or (st == 'absent' and not interrupted):
            self.viol(own, 'failed-save-loses', 'after the failed save (%s) the document '
                      'is gone from its path%s' % (exn(e), '' if st == 'lost' else
                                                   ' (only the backup is left)'))
        if nb is None and C.oldB is not None:
            self.viol(own, 'failed-save-damages-backup', 'the previous .bak is gone')
        if nb is not None and nb != C.oldB and not (C.mb and nb == C.oldP):
            self.viol(own, 'failed-save-damages-backup', '.bak is neither its old content nor '
                      'the previous document')
        extra = self.new_names(C, after)
        if extra and not interrupted:
            rm = any(k == 'err_remove' for k in fired) or \
                any(f.get('sticky') and f['step'] == self.istep for f in w.faults)
            if not rm:
                self.viol(['C03'], 'debris', 'failed save (%s) leaves %s behind'
                          % (exn(e), self.cn(extra)))
        self.others_intact(C, C.before, after)

    def classify(self, C, p, b):
        """State of path: old | new | absent (complete backup there) | lost | torn."""
        if p is None:
            if C.oldP is None:
                return 'old'
            if C.mb and b is not None and b == C.oldP:
                return 'absent'
            return 'lost'
        s = sim.digest(p)
        r = C.cls.get(s)
        if r is None:
            if s == C.oldsha:
                r = 'old'
            else:
                try:
                    k = pkg.decode(p).key()
                    r = 'new' if k == C.key else 'torn'
                    C.tornwhy = '' if r == 'new' else 'differs in %s' % self.diffkey(k, C.key)
                except pkg.Bad as e:
                    r = 'torn'
                    C.tornwhy = str(e)
            C.cls[s] = r
            if r == 'new':
                H = C.H
                self.hist[C.path].add(s)
                self.registry[s] = Entry(H.dom, copy.deepcopy(H.model), dict(H.foreign),
                                         C.key, H.mime, None)
        return r

    @staticmethod
    def rd(p):
        try:
            with sim.REAL.open(p, 'rb') as f:
                return f.read()
        except OSError:
            return None

    def boundary(self, t, kind, path):
        """Process-crash invariant at every operation boundary of a save."""
        C = self.ctx
        if C is None or kind not in BOUND:
            return
        self.nchecks += 1
        p, b = self.rd(C.full), self.rd(C.fullbak)
        st = self.classify(C, p, b)
        C.last = st
        if st == 'absent':
            self.w.probe('window_absent')
        if st in ('torn', 'lost'):
            if self.prop == 'C01':
                self.w.bypass = 1
                self.viol(['C01'], 'not-crash-atomic', 'a crash after %s would leave the path %s' % (
                    kind, 'absent without a complete backup' if st == 'lost' else
                    'torn (%s)' % C.tornwhy))
        if self.prop == 'C02':
            self.power_images(C)

    def allowed_images(self, C, img):
        p, b = img.get(C.full), img.get(C.fullbak)
        ps = sim.digest(p) if p is not None else ''
        bs = sim.digest(b) if b is not None else ''
        hp, hb = self.hist[C.path], self.hist[C.bak]
        if bs and bs not in hb and bs not in hp:
            return '.bak is damaged (%d bytes)' % len(b)
        if ps:
            if ps in hp or (C.H is not None and self.classify(C, p, b) == 'new'):
                return None
            return 'the document is damaged (%d bytes)' % len(p)
        if '' in hp:
            return None
        if C.mb and bs and (bs in hp):
            return None
        return 'the document is gone and no complete backup exists'

    def power_images(self, C):
        w = self.w
        n = len(w.journal)
        for cut in range(C.j0, n + 1):
            for pol in ('durable', 'half', 'zeros'):
                sig = (cut, pol, n, tuple(sorted(w.dirty)))
                if sig in C.seen:
                    continue
                C.seen.add(sig)
                self.nchecks += 1
                why = self.allowed_images(C, w.power_image(cut, pol))
                if why:
                    w.bypass = 1
                    self.viol(['C02'], 'power-loss-unsafe', 'power loss here, %d of %d directory '
                              'changes and %s data surviving: %s' % (cut, n, pol, why))

    def check_power_image(self, C):
        if C is None:
            return
        img = {p: d for p, d in ((C.full, self.rd(C.full)), (C.fullbak, self.rd(C.fullbak)))
               if d is not None}
        why = self.allowed_images(C, img)
        if why:
            self.viol(['C02'], 'power-loss-damage', 'after power loss: %s' % why)
        self.w.probe('power_loss_survived')

    def after_crash(self, C):
        w = self.w
        files = w.files()
        p, b = files.get(C.path), files.get(C.bak)
        if w.journal == [] and self.fault_here('power'):
            return    # already checked, may have gone further back
        st = self.classify(C, p, b)
        if st in ('torn', 'lost'):
            self.viol(['C01'], 'not-crash-atomic', 'after the crash the path is %s' % (
                'absent without a complete backup' if st == 'lost' else
                'torn (%s)' % C.tornwhy))
        if b is not None and b != C.oldB and not (C.mb and b == C.oldP):
            self.viol(['C01'], 'backup-torn', 'after the crash .bak is neither its old content '
                      'nor the previous document')
        w.probe('crash_state_' + st)
        # files a dead process leaves behind are not anybody's fault
        for n in self.new_names(C, files):
            w.external_remove(os.path.join(w.work, n))

    # ------------------------------------------------------- C12 bookkeeping
    def check_bookkeeping(self, H, mi0, t0, completed, data):
        mi1 = self.metainfo(H.doc)

        def cyc(m):
            try:
                return int(m['editing-cycles'])
            except (TypeError, ValueError):
                return 0
        c0, c1 = cyc(mi0), cyc(mi1)
        if mi1['creation-date'] != mi0['creation-date']:
            self.viol(['C12'], 'creation-date', 'creation date changed by save: %r -> %r'
                      % (mi0['creation-date'], mi1['creation-date']))
        if not completed:
            if c1 not in (c0, c0 + 1):
                self.viol(['C12'], 'cycles', 'failed save changes editing cycles %d -> %d' % (c0, c1))
            return
        if c1 != c0 + 1:
            self.viol(['C12'], 'cycles', 'completed save changes editing cycles %d -> %d' % (c0, c1))
        lo, hi = min(t0, self.w.now), max(t0, self.w.now)
        ts = parse_iso(mi1['date'])
        fuzzy = any(k[0] == 'clock_jump' for k in self.task.fired)
        if ts is None or (not fuzzy and not (lo - 1 <= ts <= hi + 1)):
            self.viol(['C12'], 'date', 'modification date %r, clock %r' % (mi1['date'], lo))
        if not mi1['generator'] or mi1['generator'] == 'Other/1.0' or \
                'ezodf' not in mi1['generator'].lower():
            self.viol(['C12'], 'generator', repr(mi1['generator']))
        if data is not None:
            mm = pkg.decode(data).nodes['flat' if H.flat else 'meta.xml']
            for tag, k in (('dc:date', 'date'), ('meta:generator', 'generator'),
                           ('meta:editing-cycles', 'editing-cycles')):
                e = mm.findall('.//' + q(tag))
                if len(e) != 1 or e[0].text != mi1[k]:
                    self.viol(['C12'], 'stored-bookkeeping', '%s stored as %s' % (
                        k, [x.text for x in e]))

    # ---------------------------------------------------------- other programs
    def s_ext(self, how, path, arg=None):
        w = self.w
        full = os.path.join(w.work, path)
        files = w.files()
        if how == 'rm':
            if path in files:
                w.external_remove(full)
        elif how == 'mv':
            if path in files:
                w.external_put(os.path.join(w.work, arg), files[path])
                w.external_remove(full)
        elif how == 'file':
            data, ent = make_file(arg)
            self.registry[sim.digest(data)] = ent
            w.external_put(full, data)
        elif how == 'junk':
            data = fbytes(arg)
            w.external_put(full, data)
        elif how == 'cut':
            if path in files:
                d = files[path]
                n = int(len(d) * arg)
                w.external_put(full, d[:n])
        elif how == 'hollow':
            if path in files:
                d = pkg.hollow(files[path], arg)
                if d is not None:
                    w.external_put(full, d)
        elif how == 'mangle':
            if path in files:
                d = pkg.mangle(files[path], arg[0], arg[1])
                if d is not None:
                    w.external_put(full, d)
                    w.probe('mangled_part')
        elif how in ('flip', 'dir'):
            d = None
            if path in files and how == 'dir':
                d = pkg.swallow(files[path], arg[0], arg[1])
                if d is not None:
                    w.probe('damaged_directory')
            elif path in files:
                d = bytearray(files[path])
                at, ln = arg
                a = int(len(d) * at)
                for i in range(a, min(len(d), a + ln)):
                    d[i] ^= 0x5a
                d = bytes(d)
            if d is not None:
                w.external_put(full, d)
                old = sim.digest(files[path])
                try:
                    self.gaps[sim.digest(d)] = self.gaps.get(old) or \
                        pkg.decode(files[path], True, True).absent
                except pkg.Bad:
                    pass
        w.log.append(('ext', how, path))

    def s_junk(self, name, spec):
        if name in self.w.files():
            return
        data = fbytes(spec)
        self.w.external_put(os.path.join(self.w.work, name), data)
        self.junk[name] = data

    def adversary(self, f, path):
        """Another program acts in the middle of an operation of ours."""
        w = self.w
        how = f['how']
        if how == 'collide':
            # a file appears under the very name the operation is about to use
            if path is None or not path.startswith(w.work + os.sep):
                return
            name = path[len(w.work) + 1:]
            C = self.ctx
            if C is not None and name in (C.path, C.bak):
                return
            if name in w.files() or name in self.junk:
                return
            w.probe('name_collision')
        else:
            name = f['name']
            C = self.ctx
            if C is not None and name in (C.path, C.bak):
                return
            if name in w.files():
                return
        data = b'foreign:' + fbytes([f.get('n', 1), 50])
        w.external_put(os.path.join(w.work, name), data)
        w.declare(name)
        self.junk[name] = data

    def check_junk(self):
        if not self.junk:
            return
        files = self.w.files()
        for n, d in self.junk.items():
            if files.get(n) != d:
                self.viol(['C16', 'C08'], 'foreign-file-damaged',
                          'a file of another program was %s' % (
                              'removed' if n not in files else 'overwritten'))


# what happened, yet no reason for anything to fail
HARMLESS = ('clock_jump', 'foreign_file', 'short_read', 'short_write')


class Ctx(object):
    tornwhy = ''

    def __init__(self):
        self.seen = set()


BOUND = frozenset(['open_w', 'write', 'rename', 'remove', 'trunc', 'link', 'close', 'fsync'])
PREFIX = (os.path.join(os.environ.get('DST_REPO', '/repo'), 'ezodf'),)


def exn(e):
    return '%s(%s)' % (type(e).__name__, short(str(e), 100))


def parse_iso(s):
    if not s:
        return None
    try:
        d = sim.REAL.datetime.fromisoformat(s)
    except ValueError:
        return None
    return (d - sim.REAL.datetime(1970, 1, 1)).total_seconds()


def difftext(got, want, path=''):
    if isinstance(got, list) and isinstance(want, list):
        if len(got) != len(want):
            return 'at %s: %d elements %s, expected %d %s' % (path or '/', len(got), short(got, 90),
                                                            len(want), short(want, 90))
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                return difftext(a, b, '%s/%d' % (path, i))
    return 'at %s: got %s, expected %s' % (path or '/', short(got), short(want))


def run_script(script, root, record=False):
    """Execute; returns a result dict (picklable)."""
    if script['prop'] == 'C28':
        from . import lives
        return lives.run_script(script, root, record)
    s = Session(script, root, record)
    v = None
    try:
        s.run()
    except Violation as e:
        v = {'props': list(e.props), 'class': e.cls, 'detail': e.detail, 'step': e.step}
    return result(s, script, v, record)


def result(s, script, v, record):
    w = s.w
    logtxt = repr(w.log)
    return {'viol': v, 'log': sim.digest(logtxt.encode('utf-8', 'backslashreplace')),
            'faults': w.fault_counts, 'probes': w.probes, 'nops': w.nops,
            'checks': s.nchecks, 'sim': w.sim_elapsed + w.nops * 1e-3,
            'stepinfo': s.stepinfo if record else None,
            'rawlog': w.log if script.get('keeplog') else None,
            'states': sorted(s.situations)}


# ------------------------------------------------------------------- shrinking

def drop_steps(s, i, n):
    s = json.loads(json.dumps(s))
    s['steps'] = s['steps'][:i] + s['steps'][i + n:]
    fs = []
    for f in s['faults']:
        if f['step'] < i:
            fs.append(f)
        elif f['step'] >= i + n:
            fs.append(dict(f, step=f['step'] - n))
    s['faults'] = fs
    return s


def simpler(s0, get):
    if get().get('mate'):
        s = json.loads(json.dumps(get()))
        del s['mate']
        yield s
        def mate():
            return get()['mate']
        if 'mate' in get():
            for m in simpler(None, mate):
                s = json.loads(json.dumps(get()))
                s['mate'] = m
                yield s
    size = max(1, len(get()['steps']) // 2)
    while size >= 1:
        i = 0
        while i < len(get()['steps']):
            n = len(get()['steps'])
            yield drop_steps(get(), i, size)
            if len(get()['steps']) == n:
                i += size
        size //= 2
    k = 0
    while k < len(get()['faults']):
        s = json.loads(json.dumps(get()))
        n = len(s['faults'])
        del s['faults'][k]
        yield s
        if len(get()['faults']) == n:
            k += 1
    for k, v in (('cwd', 0), ('abs', False), ('bufsize', 8192), ('tick', 0), ('now', 1.3e9), ('lines', False)):
        if get()['cfg'].get(k, v) != v and not (k == 'abs' and get()['cfg'].get('cwd')):
            s = json.loads(json.dumps(get()))
            s['cfg'][k] = v
            yield s
    for name in sorted(get()['files']):
        s = json.loads(json.dumps(get()))
        del s['files'][name]
        yield s
        if name not in get()['files']:
            continue
        for k in ('foreign', 'fx', 'opts', 'title', 'style'):
            if get()['files'][name].get(k):
                s = json.loads(json.dumps(get()))
                del s['files'][name][k]
                yield s
        for k in sorted(get()['files'][name].get('foreign', {})):
            s = json.loads(json.dumps(get()))
            del s['files'][name]['foreign'][k]
            yield s
        m = get()['files'][name].get('model')
        if isinstance(m, dict):
            for k in sorted(m):
                if isinstance(m[k], (list, dict)) and m[k]:
                    i = 0
                    keys = list(m[k]) if isinstance(m[k], dict) else None
                    while i < (len(keys) if keys is not None else
                               len(get()['files'][name]['model'][k])):
                        s = json.loads(json.dumps(get()))
                        c = s['files'][name]['model'][k]
                        n = len(c)
                        if keys is not None:
                            c.pop(keys[i], None)
                        else:
                            del c[i]
                        yield s
                        if keys is not None or len(get()['files'][name]['model'][k]) == n:
                            i += 1
    for i, st in enumerate(get()['steps']):
        if st[0] == 'open' and st[3] not in ('path', 'laststream'):
            s = json.loads(json.dumps(get()))
            s['steps'][i][3] = 'path'
            yield s
