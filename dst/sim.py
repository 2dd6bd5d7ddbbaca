"""The simulator: every source of nondeterminism ezodf touches goes through here.

One World = one simulated machine: a directory (real scratch directory, every
operation on it intercepted), a clock, a PRNG per simulated process, simulated
processes (each with its own instance of the ezodf modules) and tasks (threads
parked and released one at a time).  What happens is a pure function of the
script (steps, faults, switches) and of the code under test.

The seams are installed once, before ezodf is imported; outside a simulated
task they are transparent.
"""
import _thread
import builtins
import datetime as _dtmod
import errno
import hashlib
import importlib
import importlib.machinery
import io
import os
import random
import shutil
import sys
import tempfile
import threading
import time
import types
import weakref

get_ident = _thread.get_ident

REAL = types.SimpleNamespace(
    open=io.open, FileIO=io.FileIO, os_open=os.open, write=os.write, read=os.read,
    pwrite=os.pwrite, pread=os.pread,
    close=os.close, fsync=os.fsync, fdatasync=os.fdatasync, ftruncate=os.ftruncate,
    truncate=os.truncate, rename=os.rename, replace=os.replace, remove=os.remove,
    unlink=os.unlink, link=os.link, symlink=os.symlink, mkdir=os.mkdir, rmdir=os.rmdir,
    stat=os.stat, lstat=os.lstat, chmod=os.chmod, utime=os.utime, listdir=os.listdir,
    scandir=os.scandir, mkfifo=os.mkfifo, chown=os.chown,
    getpid=os.getpid, urandom=os.urandom, time=time.time, localtime=time.localtime,
    gmtime=time.gmtime, monotonic=time.monotonic, perf_counter=time.perf_counter,
    sleep=time.sleep, strftime=time.strftime, time_ns=time.time_ns,
    datetime=_dtmod.datetime, date=_dtmod.date, Lock=threading.Lock, RLock=threading.RLock,
    allocate=_thread.allocate_lock,
)


class SimCrash(BaseException):
    """The simulated process died here."""


class SimLimit(BaseException):
    """Step budget of the run exceeded (liveness)."""


WORLD = None


def _cur():
    """(world, task) if the calling thread is a simulated task, else (None, None)."""
    w = WORLD
    if w is None or w.bypass:
        return None, None
    t = w.by_ident.get(get_ident())
    if t is None:
        return None, None
    return w, t


class bypass(object):
    def __init__(self, w):
        self.w = w

    def __enter__(self):
        self.w.bypass += 1

    def __exit__(self, *a):
        self.w.bypass -= 1


# ---------------------------------------------------------------- processes

def _ez_names():
    return [k for k in sys.modules if k == 'ezodf' or k.startswith('ezodf.')]


_CODE = {}


class _Cached(importlib.machinery.SourceFileLoader):
    """Compiles each source file once per harness process."""

    def get_code(self, fullname):
        c = _CODE.get(self.path)
        if c is None:
            with REAL.open(self.path, 'rb') as f:
                src = f.read()
            c = _CODE[self.path] = compile(src, self.path, 'exec', dont_inherit=True)
        return c


class _Finder(object):
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'ezodf' and not name.startswith('ezodf.'):
            return None
        s = importlib.machinery.PathFinder.find_spec(name, path, target)
        if s is not None and isinstance(s.loader, importlib.machinery.SourceFileLoader):
            s.loader = _Cached(name, s.origin)
        return s


def load_modules():
    """A pristine instance of the ezodf package (fresh module state)."""
    saved = {k: sys.modules.pop(k) for k in _ez_names()}
    if _Finder not in sys.meta_path:
        sys.meta_path.insert(0, _Finder)
    try:
        import ezodf  # noqa
        for d in sorted(REAL.listdir(os.path.dirname(ezodf.__file__))):
            if d.endswith('.py') and d != '__init__.py':
                try:
                    importlib.import_module('ezodf.' + d[:-3])
                except ImportError:
                    pass
        mods = {k: sys.modules[k] for k in _ez_names()}
    finally:
        for k in _ez_names():
            del sys.modules[k]
        sys.modules.update(saved)
    return mods


MODPOOL = []


def preload(n):
    while len(MODPOOL) < n:
        MODPOOL.append(load_modules())


class Proc(object):
    def __init__(self, world, pid, seed):
        self.pid = pid
        self.dead = False
        self.mods = MODPOOL.pop(0) if MODPOOL else load_modules()
        st = random.getstate()
        random.seed(seed)
        self.rstate = random.getstate()
        random.setstate(st)

    @property
    def ez(self):
        return self.mods['ezodf']

    def swap_in(self):
        for k in _ez_names():
            del sys.modules[k]
        sys.modules.update(self.mods)
        random.setstate(self.rstate)

    def swap_out(self):
        self.rstate = random.getstate()


class Task(object):
    def __init__(self, world, tid, proc):
        self.id = tid
        self.proc = proc
        self.sem = REAL.allocate()
        self.sem.acquire()
        self.state = 'new'
        self.blocked_on = None
        self.step = -1
        self.opn = 0
        self.lines = 0
        self.reads = 0
        self.fired = []
        self.exc = None


# -------------------------------------------------------------------- world

ERRS = {
    'open_r': [errno.EIO, errno.EACCES, errno.EMFILE],
    'open_w': [errno.EACCES, errno.ENOSPC, errno.EROFS, errno.EMFILE],
    'read': [errno.EIO], 'write': [errno.EIO, errno.ENOSPC],
    'fsync': [errno.EIO, errno.ENOSPC], 'rename': [errno.EIO, errno.EACCES, errno.ENOSPC],
    'remove': [errno.EIO, errno.EACCES, errno.EBUSY], 'close': [errno.EIO],
    'trunc': [errno.EIO], 'link': [errno.EIO, errno.EPERM], 'mkdir': [errno.EIO],
    'meta': [errno.EPERM],
}
WRITE_KINDS = frozenset(['open_w', 'write', 'fsync', 'rename', 'remove', 'trunc', 'link',
                         'mkdir', 'meta'])


class World(object):
    interrupts = 0          # in this process

    def __init__(self, root, seed=0, now=1.3e9, max_ops=60000, max_steps=3000000):
        self.root = os.path.realpath(root)
        self.work = os.path.join(self.root, 'work')
        self.tmpdir = os.path.join(self.root, 'tmp')
        self.cwd = None
        self.mounts = set()
        REAL.mkdir(self.work)
        REAL.mkdir(self.tmpdir)
        self.now = now
        self.t0 = now
        self.bypass = 0
        self.by_ident = {}
        self.log = []
        self.faults = []          # dicts, see fault_at
        self.nops = 0
        self.max_ops = max_ops
        self.max_steps = max_steps
        self.limit_hit = False
        self.known = {}           # path -> canonical name
        self.fds = {}             # fd -> (path, fid)
        self.capacity = None
        self.pid_ctr = 1000
        self.seed = seed
        self.bufsize = 8192
        self.after_op = []        # callbacks(task, kind, path)
        self.escapes = []         # mutations refused outside the scratch dir
        self.writes = []          # (kind, path) of every mutating op (for C16)
        self.sched = None
        self.fault_counts = {}
        self.probes = {}
        self.tick = 0.0
        self.sim_elapsed = 0.0
        # power-loss model
        self.fid_ctr = 0
        self.ns = {}              # path -> fid (volatile)
        self.durable = {}         # fid -> bytes durable (None: nothing)
        self.dirty = set()        # fids whose content differs from durable
        self.base_ns = {}
        self.journal = []         # (op, ...) since base_ns
        self.namectr = 0
        self.intr_line = None

    # ------------------------------------------------------------- helpers
    def new_proc(self, seed=None):
        self.pid_ctr += 1
        return Proc(self, self.pid_ctr, self.seed * 7919 + self.pid_ctr if seed is None else seed)

    def contains(self, p):
        return p == self.root or p.startswith(self.root + os.sep)

    def canon(self, p):
        n = self.known.get(p)
        if n is None:
            b = os.path.basename(p)
            if p.startswith(self.work + os.sep) and b in self.known:
                n = b
            else:
                n = 'T%d' % self.namectr
                self.namectr += 1
            self.known[p] = n
        return n

    def declare(self, name):
        """A name the script itself uses (shown as is in the log)."""
        self.known[os.path.join(self.work, name)] = name
        return name

    def abspath(self, p):
        if isinstance(p, int):
            return p
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.normpath(os.path.join(self.cwd or self.work, p))

    def mount(self, p):
        """The file system a path belongs to."""
        if p.startswith(self.work + os.sep):
            m = p[len(self.work) + 1:].split(os.sep)[0]
            return m if m in self.mounts else 'work'
        return 'tmp'

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def count_fault(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1

    # ------------------------------------------------ durable (power) model
    def fid_of(self, path):
        return self.ns.get(path)

    def ns_create(self, path):
        self.fid_ctr += 1
        fid = self.fid_ctr
        self.ns[path] = fid
        self.durable[fid] = None
        self.dirty.add(fid)
        self.journal.append(('link', path, fid))
        return fid

    def ns_rename(self, a, b):
        fid = self.ns.pop(a, None)
        if fid is None:
            fid = self.ns_create(b)
        self.ns[b] = fid
        self.journal.append(('rename', a, b, fid))

    def ns_unlink(self, path):
        self.ns.pop(path, None)
        self.journal.append(('unlink', path))

    def sync_all(self):
        """Everything now on disk is durable (initial state of a run)."""
        self.ns = {}
        self.durable = {}
        self.dirty = set()
        self.fds = {k: v for k, v in self.fds.items() if False}
        for path in self._walk():
            self.fid_ctr += 1
            self.ns[path] = self.fid_ctr
            with REAL.open(path, 'rb') as f:
                self.durable[self.fid_ctr] = f.read()
        self.base_ns = dict(self.ns)
        self.journal = []

    def external_put(self, path, data):
        """Another program durably puts a file (not an operation of the library)."""
        with REAL.open(path, 'wb') as f:
            f.write(data)
        self.fid_ctr += 1
        self.ns[path] = self.fid_ctr
        self.durable[self.fid_ctr] = data
        self.journal.append(('link', path, self.fid_ctr))

    def external_remove(self, path):
        REAL.unlink(path)
        self.ns_unlink(path)

    def _walk(self):
        out = []
        for base in (self.work, self.tmpdir):
            for d, ds, fs in os.walk(base):
                ds.sort()
                for f in sorted(fs):
                    out.append(os.path.join(d, f))
        return out

    def files(self):
        """Current files of the work directory: relative name -> bytes."""
        out = {}
        n = len(self.work) + 1
        for d, ds, fs in os.walk(self.work):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                with REAL.open(p, 'rb') as h:
                    out[p[n:]] = h.read()
        return out

    def names_at(self, cut):
        ns = dict(self.base_ns)
        for e in self.journal[:cut]:
            if e[0] == 'link':
                ns[e[1]] = e[2]
            elif e[0] == 'unlink':
                ns.pop(e[1], None)
            else:
                ns.pop(e[1], None)
                ns[e[2]] = e[3]
        return ns

    def fid_content(self, fid):
        """Volatile content of a fid (None if no name holds it any more)."""
        for p, f in self.ns.items():
            if f == fid:
                try:
                    with REAL.open(p, 'rb') as h:
                        return h.read()
                except OSError:
                    return None
        return None

    def is_clean(self, fid):
        return fid not in self.dirty

    def power_image(self, cut, policy):
        """Directory image after power loss: name -> bytes."""
        ns = self.names_at(cut)
        img = {}
        for p, fid in ns.items():
            dur = self.durable.get(fid)
            if fid in self.dirty:
                cur = self.fid_content(fid)
                if cur is None:
                    cur = b''
                if policy == 'full':
                    data = cur
                elif policy == 'durable':
                    data = dur if dur is not None else b''
                elif policy == 'half':
                    data = cur[:len(cur) // 2]
                else:  # zeros
                    h = (len(cur) // 1024) * 512
                    data = cur[:h] + b'\0' * (len(cur) - h)
            else:
                data = dur if dur is not None else b''
            img[p] = data
        return img

    def apply_image(self, img):
        for p in self._walk():
            REAL.unlink(p)
        for p, d in img.items():
            dd = os.path.dirname(p)
            if not os.path.isdir(dd):
                os.makedirs(dd)
            with REAL.open(p, 'wb') as f:
                f.write(d)
        self.sync_all()

    # ----------------------------------------------------------- fault hook
    def fault_at(self, t, n, kind):
        for f in self.faults:
            if f.get('done') and not f.get('sticky'):
                continue
            if f.get('task', 0) != t.id or f.get('step') != t.step:
                continue
            if 'line' in f or 'read' in f:
                continue
            if f.get('sticky'):
                if n >= f['op'] and (not f.get('on') or kind in f['on']) and kind in ERRS:
                    return f
            elif f.get('op') == n:
                return f
        return None

    def crash(self, t, how):
        self.log.append(('CRASH', t.id, t.step, t.opn, how))
        t.proc.dead = True
        if how.startswith('power'):
            pass
        raise SimCrash(how)

    def op(self, t, kind, path, do, size=0, partial=None, torn=None):
        """Run one file-system operation `do` of task `t` under the simulator.

        partial(n): perform the write of only n bytes (write kinds)."""
        if t.proc.dead:
            raise SimCrash('dead')
        if self.sched is not None:
            self.sched.yield_point(t, kind)
            if t.proc.dead:
                raise SimCrash('dead')
        n = t.opn
        t.opn += 1
        self.nops += 1
        if self.nops > self.max_ops:
            self.limit_hit = True
            t.proc.dead = True
            raise SimLimit('ops')
        name = self.canon(path) if path else '?'
        f = self.fault_at(t, n, kind)
        self.log.append((t.id, t.step, n, kind, name, size))
        if t.opseq is not None:
            t.opseq.append((kind, name, size))
        post = None
        if f is not None:
            k = f['kind']
            f['done'] = True
            if k == 'err':
                if kind in ERRS:
                    es = ERRS[kind]
                    e = es[f.get('arg', 0) % len(es)]
                    self.fired(t, f, 'err_' + kind, kind)
                    if kind == 'write' and partial is not None and f.get('frac'):
                        partial(int(size * f['frac']))
                    if kind == 'close':
                        try:
                            do()
                        except OSError:
                            pass
                    self._after(t, kind, path)
                    raise OSError(e, os.strerror(e), path)
            elif k == 'short':
                if kind in ('write', 'read') and partial is not None and size > 1:
                    self.fired(t, f, 'short_' + kind, kind)
                    r = partial(max(1, int(size * f.get('frac', 0.5))))
                    self._after(t, kind, path)
                    return r
            elif k in ('crash', 'power'):
                when = f.get('when', 'before')
                if when == 'torn' and kind == 'write' and partial is not None:
                    self.fired(t, f, k + '_torn', kind)
                    partial(int(size * f.get('frac', 0.5)))
                    self._after(t, kind, path)
                    self.pend_power = f if k == 'power' else None
                    self.crash(t, k + ' torn ' + kind)
                elif when == 'after':
                    post = f
                else:
                    self.fired(t, f, k + '_before', kind)
                    self.pend_power = f if k == 'power' else None
                    self.crash(t, k + ' before ' + kind)
            elif k == 'intr':
                self.fired(t, f, 'interrupt_op', kind)
                if f.get('when') == 'after':
                    try:
                        do()
                    except OSError:
                        pass
                    self._after(t, kind, path)
                raise (MemoryError if f.get('exc') == 'mem' else KeyboardInterrupt)()
            elif k == 'clock':
                self.set_clock(f['to'])
                self.fired(t, f, 'clock_jump', kind)
            elif k == 'adv':
                # an adversary acts here: another program puts or removes a file
                self.fired(t, f, 'foreign_file', kind)
                self.adversary(f, path)
        if kind == 'write' and self.capacity is not None:
            room = self.capacity - self._used()
            if size > room:
                self.count_fault('disk_full')
                t.fired.append(('disk_full', kind))
                if room > 0 and partial is not None:
                    r = partial(room)
                    self._after(t, kind, path)
                    return r
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
        r = do()
        self._after(t, kind, path)
        if post is not None:
            self.fired(t, post, post['kind'] + '_after', kind)
            self.pend_power = post if post['kind'] == 'power' else None
            self.crash(t, post['kind'] + ' after ' + kind)
        return r

    pend_power = None
    adversary_hook = None
    fault_call = None

    def adversary(self, f, path):
        if self.adversary_hook:
            self.bypass += 1
            try:
                self.adversary_hook(f, path)
            finally:
                self.bypass -= 1

    def fired(self, t, f, what, kind):
        self.count_fault(what)
        if what.startswith('interrupt'):
            World.interrupts += 1
        t.fired.append((what, kind))
        self.log.append(('FAULT', t.id, t.step, what))

    def _used(self):
        s = 0
        for p in self._walk():
            s += REAL.stat(p).st_size
        return s

    def _after(self, t, kind, path):
        if self.after_op:
            self.bypass += 1
            try:
                for cb in self.after_op:
                    cb(t, kind, path)
            finally:
                self.bypass -= 1

    # ---------------------------------------------------------------- clock
    def set_clock(self, to):
        self.now = float(to)

    def advance(self, dt):
        self.now += dt
        self.sim_elapsed += abs(dt)

    def clock_read(self, t):
        if t.proc.dead:
            raise SimCrash('dead')
        n = t.reads
        t.reads += 1
        for f in self.faults:
            if 'read' in f and not f.get('done') and f['read'] == n and f.get('step') == t.step \
                    and f.get('task', 0) == t.id:
                f['done'] = True
                self.sim_elapsed += abs(f['to'] - self.now)
                self.set_clock(f['to'])
                self.fired(t, f, 'clock_jump', 'clock')
        if self.tick:
            self.advance(self.tick)
        return self.now

    # ---------------------------------------------------------------- tasks
    def enter(self, t):
        """Make the calling thread run as task t."""
        self.by_ident[get_ident()] = t

    def leave(self):
        self.by_ident.pop(get_ident(), None)

    def begin_step(self, t, step):
        t.step = step
        t.opn = 0
        t.lines = 0
        t.reads = 0
        t.fired = []
        t.opseq = None

    # ----------------------------------------------------------------- trace
    def start_trace(self, t, prefixes):
        """Line events in files under `prefixes`: count, interrupt, preempt."""
        w = self
        lf = [f for f in self.faults if 'line' in f]
        sched = self.sched
        cache = {}

        def local(frame, event, arg):
            if event == 'line':
                t.lines += 1
                if lf:
                    for f in lf:
                        if not f.get('done') and f['line'] == t.lines and f['step'] == t.step \
                                and f.get('task', 0) == t.id:
                            f['done'] = True
                            if f['kind'] == 'clock':
                                w.set_clock(f['to'])
                                w.fired(t, f, 'clock_jump', 'line')
                                continue
                            if f['kind'] == 'call':
                                w.fired(t, f, f['name'], 'line')
                                w.fault_call(f)
                                continue
                            w.fired(t, f, 'interrupt_line', 'line')
                            w.intr_where = '%s:%s' % (os.path.basename(frame.f_code.co_filename),
                                                      frame.f_code.co_name)
                            raise (MemoryError if f.get('exc') == 'mem'
                                   else KeyboardInterrupt)()
                if sched is not None and not w.bypass:
                    if sched.rec is not None:
                        co = frame.f_code
                        sched.loc = '%s:%d' % (os.path.basename(co.co_filename), frame.f_lineno)
                    sched.yield_point(t, 'line')
                    if t.proc.dead:
                        raise SimCrash('dead')
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            r = cache.get(fn)
            if r is None:
                r = cache[fn] = fn.startswith(prefixes)
            return local if r else None
        sys.settrace(glob)

    @staticmethod
    def stop_trace():
        sys.settrace(None)


Task.opseq = None


# -------------------------------------------------------------------- sched

class Deadlock(BaseException):
    pass


class Sched(object):
    """Baton-passing scheduler: exactly one task thread runs; `switches` maps
    the global step number to the task to switch to."""

    def __init__(self, world, switches):
        self.w = world
        self.switches = switches
        self.steps = 0
        self.tasks = []
        self.main = REAL.allocate()
        self.main.acquire()
        self.deadlock = False
        self.nswitch = 0
        self.trail = []
        world.sched = self

    def runnable(self):
        return [x for x in self.tasks if x.state == 'ready']

    rec = None                # location -> steps (dry runs)
    loc = None

    def yield_point(self, t, why):
        self.steps += 1
        if self.rec is not None:
            l = self.rec.setdefault(self.loc or why, [])
            if len(l) < 400:
                l.append(self.steps)
            self.loc = None
        c = self.switches.get(self.steps)
        if self.steps > self.w.max_steps:
            self.w.limit_hit = True
            for x in self.tasks:
                x.proc.dead = True
            raise SimLimit('steps')
        if c is None:
            return
        o = [x for x in self.tasks if x.state == 'ready' and x is not t]
        if not o:
            return
        self.hand(t, o[c % len(o)])

    def hand(self, t, target):
        self.nswitch += 1
        self.w.log.append(('SW', self.steps, t.id, target.id))
        self._swap(t, target)
        target.sem.release()
        t.sem.acquire()

    def _swap(self, a, b):
        if a is None or a.proc is not b.proc:
            if a is not None:
                a.proc.swap_out()
            b.proc.swap_in()

    def block(self, t, lock):
        """Task t cannot take `lock`: let somebody else run."""
        if t.proc.dead:
            raise SimCrash('dead')
        t.state = 'blocked'
        t.blocked_on = lock
        r = self.runnable()
        if not r:
            self.deadlock = True
            for x in self.tasks:
                x.proc.dead = True
                if x.state == 'blocked':
                    x.state = 'ready'
            raise SimCrash('deadlock')
        self.w.probe('lock_contended')
        self.hand(t, r[0])
        if t.proc.dead:
            raise SimCrash('dead')

    def released(self, lock):
        for x in self.tasks:
            if x.state == 'blocked' and x.blocked_on is lock:
                x.state = 'ready'
                x.blocked_on = None

    def run(self, tasks, bodies, order=None):
        """Run the bodies (one per task) to completion under the schedule."""
        w = self.w
        self.tasks = tasks

        def runner(t, body):
            t.sem.acquire()
            w.enter(t)
            try:
                body(t)
            except SimCrash:
                t.exc = 'crash'
            except SimLimit:
                t.exc = 'limit'
            except BaseException as e:  # harness error inside a body
                t.exc = e
            finally:
                w.stop_trace()
                w.leave()
                t.state = 'done'
                for x in self.tasks:
                    if x.state == 'blocked' and x.proc.dead:
                        x.state = 'ready'
                r = self.runnable()
                if r:
                    self._swap(t, r[0])
                    r[0].sem.release()
                else:
                    left = [x for x in self.tasks if x.state == 'blocked']
                    if left:
                        self.deadlock = True
                        for x in self.tasks:
                            x.proc.dead = True
                            if x.state == 'blocked':
                                x.state = 'ready'
                        self._swap(t, left[0])
                        left[0].sem.release()
                    else:
                        t.proc.swap_out()
                        self.main.release()

        threads = []
        for t, b in zip(tasks, bodies):
            t.state = 'ready'
            th = _RealThread(target=runner, args=(t, b))
            th.daemon = True
            threads.append(th)
            th.start()
        first = tasks[(order or 0) % len(tasks)]
        self._swap(None, first)
        first.sem.release()
        self.main.acquire()
        w.sched = None
        for th in threads:
            th.join()
        for t in tasks:
            if isinstance(t.exc, BaseException):
                raise t.exc


_RealThread = threading.Thread


class SimLock(object):
    """threading.Lock that tells the scheduler when a task has to wait."""
    _re = False

    def __init__(self):
        self._l = REAL.allocate()
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        w, t = _cur()
        me = t if t is not None else get_ident()
        if self._re and self._owner is me:
            self._n += 1
            return True
        if t is not None and w.sched is None:
            r = self._l.acquire(False)
            if not r and blocking:
                # nobody else runs who could release it; an interrupt placed just
                # before a release is finer than what the interpreter does
                if not w.interrupts:
                    raise SimLimit('waits for a lock nobody will release')
                r = True
        elif w is None or w.sched is None:
            r = self._l.acquire(blocking, timeout)
        else:
            w.sched.yield_point(t, 'lock')
            if t.proc.dead:
                raise SimCrash('dead')
            r = self._l.acquire(False)
            while not r and blocking:
                w.sched.block(t, self)
                r = self._l.acquire(False)
        if r:
            self._owner = me
            self._n = 1
        return r

    def release(self):
        if self._re:
            self._n -= 1
            if self._n:
                return
        self._owner = None
        self._l.release()
        w = WORLD
        if w is not None and w.sched is not None:
            w.sched.released(self)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = REAL.allocate()
        self._owner = None
        self._n = 0

    def _is_owned(self):
        w, t = _cur()
        return self._owner is (t if t is not None else get_ident())


class SimRLock(SimLock):
    _re = True

    def _release_save(self):
        n, self._n = self._n, 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._n = n


def _mklock():
    w, t = _cur()
    if t is not None or _importing_ezodf():
        return SimLock()
    return REAL.Lock()


def _mkrlock(*a):
    w, t = _cur()
    if t is not None or _importing_ezodf():
        return SimRLock()
    return REAL.RLock()


def _importing_ezodf():
    f = sys._getframe(2)
    for _ in range(6):
        if f is None:
            return False
        n = f.f_globals.get('__name__', '')
        if n.startswith('ezodf') or n in ('zipfile',):
            return True
        f = f.f_back
    return False


# ----------------------------------------------------------------- file seam

class SimFileIO(REAL.FileIO):
    _w = None
    _t = None
    _p = None
    _fid = None

    def _mine(self):
        w = WORLD
        if w is None or w is not self._w or w.bypass:
            return None
        return w.by_ident.get(get_ident()) or self._t

    def write(self, b):
        t = self._mine()
        if t is None:
            return REAL.FileIO.write(self, b)
        w = self._w
        if self._t.proc.dead:
            raise SimCrash('dead')
        mv = memoryview(b).cast('B')

        def part(n):
            r = REAL.FileIO.write(self, mv[:n])
            w.dirty.add(self._fid)
            return r
        return w.op(t, 'write', self._p, lambda: part(len(mv)), len(mv), part)

    def readinto(self, b):
        t = self._mine()
        if t is None:
            return REAL.FileIO.readinto(self, b)
        mv = memoryview(b).cast('B')
        return self._w.op(t, 'read', self._p, lambda: REAL.FileIO.readinto(self, mv), len(mv),
                          lambda n: REAL.FileIO.readinto(self, mv[:n]))

    def read(self, n=-1):
        t = self._mine()
        if t is None:
            return REAL.FileIO.read(self, n)
        if n is None or n < 0:
            return self.readall()
        return self._w.op(t, 'read', self._p, lambda: REAL.FileIO.read(self, n), n,
                          lambda k: REAL.FileIO.read(self, k))

    def readall(self):
        t = self._mine()
        if t is None:
            return REAL.FileIO.readall(self)
        out = []
        while True:
            # in two or more pieces, so that faults can hit the middle
            d = self.read(65536)
            if not d:
                return b''.join(out)
            out.append(d)

    def truncate(self, size=None):
        t = self._mine()
        if t is None:
            return REAL.FileIO.truncate(self, size)
        w = self._w

        def do():
            r = REAL.FileIO.truncate(self, size)
            w.dirty.add(self._fid)
            return r
        return w.op(t, 'trunc', self._p, do)

    def close(self):
        if self.closed:
            return
        t = self._mine()
        w = self._w
        fd = -1
        try:
            fd = self.fileno()
        except ValueError:
            pass
        if w is not None and self.closefd:
            w.fds.pop(fd, None)
        if t is None or w is None or w.bypass or self._t.proc.dead:
            return REAL.FileIO.close(self)
        done = []

        def do():
            done.append(1)
            REAL.FileIO.close(self)
        try:
            return w.op(t, 'close', self._p, do)
        except BaseException:
            if not done:
                REAL.FileIO.close(self)
            raise


def _raw(w, t, path, fid, file, mode, closefd=True, opener=None):
    r = SimFileIO(file, mode, closefd, opener)
    r._w, r._t, r._p, r._fid = w, t, path, fid
    w.fds[r.fileno()] = (path, fid)
    return r


def _wrap(w, raw, mode, buffering, encoding, errors, newline):
    text = 'b' not in mode
    if buffering == 0:
        if text:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else w.bufsize
    if '+' in mode:
        b = io.BufferedRandom(raw, size)
    elif 'r' in mode:
        b = io.BufferedReader(raw, size)
    else:
        b = io.BufferedWriter(raw, size)
    if not text:
        return b
    tx = io.TextIOWrapper(b, encoding, errors, newline, buffering == 1)
    tx.mode = mode
    return tx


_NULL = ('/dev/null',)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    w, t = _cur()
    if t is None:
        return REAL.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    rawmode = ''.join(c for c in mode if c in 'rwax+')
    if isinstance(file, int):
        ent = w.fds.get(file)
        if ent is None:
            return REAL.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = _raw(w, t, ent[0], ent[1], file, rawmode, closefd)
        return _wrap(w, raw, mode, buffering, encoding, errors, newline)
    try:
        path = w.abspath(file)
    except TypeError:
        return REAL.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not w.contains(path):
        if any(c in mode for c in 'wax+') and path not in _NULL:
            w.escapes.append(('open', path))
            raise PermissionError(errno.EACCES, 'simulated: outside scratch', path)
        return REAL.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if opener is not None:
        fd = opener(file, _flags(rawmode))
        ent = w.fds.get(fd, (path, w.ns.get(path)))
        raw = _raw(w, t, ent[0], ent[1], fd, rawmode, True)
        return _wrap(w, raw, mode, buffering, encoding, errors, newline)
    wr = any(c in rawmode for c in 'wax+')

    def do():
        existed = path in w.ns
        raw = _raw(w, t, path, None, path, rawmode)
        _opened(w, path, raw, wr, 'w' in rawmode, existed)
        return raw
    raw = w.op(t, 'open_w' if wr else 'open_r', path, do)
    if 'a' in rawmode:
        REAL.FileIO.seek(raw, 0, 2)
    try:
        return _wrap(w, raw, mode, buffering, encoding, errors, newline)
    except BaseException:
        REAL.FileIO.close(raw)
        raise


def _opened(w, path, raw, wr, trunc, existed):
    if wr:
        w.writes.append(('open', path))
        if path not in w.ns:
            w.ns_create(path)
        elif trunc and w.durable.get(w.ns[path]) != b'':
            w.dirty.add(w.ns[path])
    fid = w.ns.get(path)
    if isinstance(raw, int):
        w.fds[raw] = (path, fid)
    else:
        raw._fid = fid
        w.fds[raw.fileno()] = (path, fid)


def _flags(m):
    f = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
         'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND,
         'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL}[m[0]]
    if '+' in m:
        f = (f & ~(os.O_WRONLY | os.O_RDONLY)) | os.O_RDWR
    return f | os.O_CLOEXEC


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    w, t = _cur()
    if t is None or dir_fd is not None:
        return REAL.os_open(path, flags, mode, dir_fd=dir_fd)
    p = w.abspath(path)
    wr = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
    if not w.contains(p):
        if wr and p not in _NULL:
            w.escapes.append(('open', p))
            raise PermissionError(errno.EACCES, 'simulated: outside scratch', p)
        return REAL.os_open(path, flags, mode)
    if p in (w.work, w.tmpdir, w.root) or os.path.isdir(p):
        def dod():
            fd = REAL.os_open(path, flags, mode)
            w.fds[fd] = (p, None)
            return fd
        return w.op(t, 'open_r', p, dod)

    def do():
        existed = p in w.ns
        fd = REAL.os_open(p, flags, mode)
        _opened(w, p, fd, wr, bool(flags & os.O_TRUNC), existed)
        return fd
    return w.op(t, 'open_w' if wr else 'open_r', p, do)


def _fdop(kind, real, dirty):
    def f(fd, *args):
        w, t = _cur()
        if t is None:
            return real(fd, *args)
        fdn = fd if isinstance(fd, int) else fd.fileno()
        ent = w.fds.get(fdn)
        if ent is None:
            return real(fd, *args)
        path, fid = ent

        def do():
            r = real(fd, *args)
            if dirty:
                w.dirty.add(fid)
            if kind == 'fsync':
                if fid is None:
                    w.base_ns = dict(w.ns)
                    w.journal = []
                else:
                    cur = w.fid_content(fid)
                    if cur is not None:
                        w.durable[fid] = cur
                    w.dirty.discard(fid)
            if kind == 'close':
                w.fds.pop(fdn, None)
            return r
        size, part = 0, None
        if kind == 'write':
            mv = memoryview(args[0]).cast('B')
            size = len(mv)

            def part(n):
                r = real(fd, mv[:n], *args[1:])
                w.dirty.add(fid)
                return r
        elif kind == 'read':
            size = args[0]

            def part(n):
                return real(fd, n, *args[1:])
        if kind == 'close':
            done = []

            def do2():
                done.append(1)
                return do()
            try:
                return w.op(t, kind, path, do2)
            except BaseException:
                if not done:
                    do()
                raise
        return w.op(t, kind, path, do, size, part)
    return f


def _pathop(kind, real, after):
    def f(path, *args, **kw):
        w, t = _cur()
        if t is None or kw.get('dir_fd') is not None:
            return real(path, *args, **kw)
        if isinstance(path, int):
            return real(path, *args, **kw)
        p = w.abspath(path)
        if not w.contains(p):
            w.escapes.append((kind, p))
            raise PermissionError(errno.EACCES, 'simulated: outside scratch', p)

        def do():
            r = real(p, *args, **kw)
            w.writes.append((kind, p))
            after(w, p, args)
            return r
        return w.op(t, kind, p, do)
    return f


def _twopath(kind, real, after):
    def f(src, dst, *args, **kw):
        w, t = _cur()
        if t is None or kw.get('src_dir_fd') is not None or kw.get('dst_dir_fd') is not None:
            return real(src, dst, *args, **kw)
        a, b = w.abspath(src), w.abspath(dst)
        if not (w.contains(a) and w.contains(b)):
            w.escapes.append((kind, a + ' -> ' + b))
            raise PermissionError(errno.EACCES, 'simulated: outside scratch', a)
        if kind == 'rename' and w.mount(a) != w.mount(b):
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), a)

        def do():
            r = real(a, b, *args, **kw)
            w.writes.append((kind + '_src', a))
            w.writes.append((kind, b))
            after(w, a, b)
            return r
        w.canon(a)
        return w.op(t, kind, b, do)
    return f


def _stat(real):
    def f(path, *args, **kw):
        w, t = _cur()
        if t is None or isinstance(path, int) or kw.get('dir_fd') is not None:
            return real(path, *args, **kw)
        p = w.abspath(path)
        if not w.contains(p):
            return real(path, *args, **kw)
        return w.op(t, 'stat', p, lambda: real(p, *args, **kw))
    return f


def _after_link(w, a, b):
    fid = w.ns.get(a)
    if fid is None:
        fid = w.ns_create(a)
    w.ns[b] = fid
    w.journal.append(('link', b, fid))


def _after_truncate(w, p, args):
    if p in w.ns:
        w.dirty.add(w.ns[p])


def _noop(w, *a):
    return None


# -------------------------------------------------------------- clock, random

class _DTMeta(type(REAL.datetime)):
    def __instancecheck__(cls, o):
        return isinstance(o, REAL.datetime)

    def __subclasscheck__(cls, o):
        return issubclass(o, REAL.datetime)


class SimDateTime(REAL.datetime, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        w, t = _cur()
        if t is None:
            return REAL.datetime.now(tz)
        ts = w.clock_read(t)
        base = REAL.datetime(1970, 1, 1) + _dtmod.timedelta(seconds=ts)
        if tz is not None:
            return base.replace(tzinfo=_dtmod.timezone.utc).astimezone(tz)
        return base

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


class SimDate(REAL.date, metaclass=type('_DMeta', (type(REAL.date),), {
        '__instancecheck__': lambda c, o: isinstance(o, REAL.date),
        '__subclasscheck__': lambda c, o: issubclass(o, REAL.date)})):
    @classmethod
    def today(cls):
        w, t = _cur()
        if t is None:
            return REAL.date.today()
        return SimDateTime.now().date()


def sim_time():
    w, t = _cur()
    return REAL.time() if t is None else w.clock_read(t)


def sim_time_ns():
    w, t = _cur()
    return REAL.time_ns() if t is None else int(w.clock_read(t) * 1e9)


def sim_monotonic():
    w, t = _cur()
    if t is None:
        return REAL.monotonic()
    return w.nops * 1e-3


def sim_localtime(secs=None):
    w, t = _cur()
    if t is None or secs is not None:
        return REAL.localtime(secs) if secs is not None else REAL.localtime()
    return REAL.gmtime(w.clock_read(t))


def sim_gmtime(secs=None):
    w, t = _cur()
    if t is None or secs is not None:
        return REAL.gmtime(secs) if secs is not None else REAL.gmtime()
    return REAL.gmtime(w.clock_read(t))


def sim_strftime(fmt, tup=None):
    if tup is None:
        tup = sim_localtime()
    return REAL.strftime(fmt, tup)


def sim_sleep(s):
    w, t = _cur()
    if t is None:
        return REAL.sleep(s)
    w.advance(s)
    if w.sched is not None:
        w.sched.yield_point(t, 'sleep')


def sim_getpid():
    w, t = _cur()
    return REAL.getpid() if t is None else t.proc.pid


def sim_urandom(n):
    w, t = _cur()
    if t is None:
        return REAL.urandom(n)
    return bytes(random.getrandbits(8) for _ in range(n))


class _SimNames(object):
    """tempfile's name source (its own PRNG is seeded from the real OS)."""
    chars = "abcdefghijklmnopqrstuvwxyz0123456789_"

    def __iter__(self):
        return self

    def __next__(self):
        return ''.join(random.choices(self.chars, k=8))


class OrderedSet(dict):
    """Insertion-ordered stand-in for the set inside WeakSet (set order depends
    on addresses); raises on size change during iteration just as set does."""
    def __init__(self, it=()):
        dict.__init__(self)
        for x in it:
            self[x] = None

    def add(self, x):
        self[x] = None

    def remove(self, x):
        del self[x]

    def discard(self, x):
        self.pop(x, None)

    def copy(self):
        return OrderedSet(self)

    def update(self, it):
        for x in it:
            self[x] = None
    __ior__ = None


class DetWeakSet(weakref.WeakSet):
    def __init__(self, data=None):
        super(DetWeakSet, self).__init__()
        self.data = OrderedSet()
        if data is not None:
            self.update(data)

    def pop(self):
        if self._pending_removals:
            self._commit_removals()
        while True:
            if not self.data:
                raise KeyError('pop from empty WeakSet')
            ref = next(iter(self.data))
            del self.data[ref]
            item = ref()
            if item is not None:
                return item


_installed = False


def install():
    """Install all seams.  Must run before ezodf is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    assert not _ez_names(), 'ezodf imported before the seams'
    os.environ['TZ'] = 'UTC'
    time.tzset()
    builtins.open = sim_open
    io.open = sim_open
    os.open = sim_os_open
    for n, kind, d in (('write', 'write', True), ('read', 'read', False),
                       ('pwrite', 'write', True), ('pread', 'read', False),
                       ('close', 'close', False),
                       ('fsync', 'fsync', False), ('fdatasync', 'fsync', False),
                       ('ftruncate', 'trunc', True)):
        setattr(os, n, _fdop(kind, getattr(REAL, n), d))
    os.remove = _pathop('remove', REAL.remove, lambda w, p, a: w.ns_unlink(p))
    os.unlink = _pathop('remove', REAL.unlink, lambda w, p, a: w.ns_unlink(p))
    os.truncate = _pathop('trunc', REAL.truncate, _after_truncate)
    os.mkdir = _pathop('mkdir', REAL.mkdir, _noop)
    os.rmdir = _pathop('remove', REAL.rmdir, _noop)
    os.chmod = _pathop('meta', REAL.chmod, _noop)
    os.chown = _pathop('meta', REAL.chown, _noop)
    os.utime = _pathop('meta', REAL.utime, _noop)
    os.rename = _twopath('rename', REAL.rename, lambda w, a, b: w.ns_rename(a, b))
    os.replace = _twopath('rename', REAL.replace, lambda w, a, b: w.ns_rename(a, b))
    os.link = _twopath('link', REAL.link, _after_link)
    os.stat = _stat(REAL.stat)
    os.lstat = _stat(REAL.lstat)
    for name in ('sendfile', 'copy_file_range', 'splice'):
        if hasattr(os, name):
            delattr(os, name)
    shutil._USE_CP_SENDFILE = False
    shutil._HAS_FCOPYFILE = False
    os.getpid = sim_getpid
    os.urandom = sim_urandom
    random._urandom = sim_urandom
    tempfile._name_sequence = _SimNames()
    time.time = sim_time
    time.time_ns = sim_time_ns
    time.monotonic = sim_monotonic
    time.perf_counter = sim_monotonic
    time.localtime = sim_localtime
    time.gmtime = sim_gmtime
    time.strftime = sim_strftime
    time.sleep = sim_sleep
    _dtmod.datetime = SimDateTime
    _dtmod.date = SimDate
    threading.Lock = _mklock
    threading.RLock = _mkrlock
    weakref.WeakSet = DetWeakSet
    sys.unraisablehook = lambda *a: None


def set_world(w):
    global WORLD
    WORLD = w
    if w is not None:
        tempfile.tempdir = w.tmpdir
        os.chdir(w.cwd or w.work)


def digest(b):
    return hashlib.sha1(b).hexdigest()
