"""Seeded search, minimisation, replay and evidence."""
import gc
import hashlib
import json
import os
import pickle
import re
import resource
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from . import sim

R = sim.REAL
CPU_LIMIT = 40
REPO = '/repo'
HERE = '/verif'
NWORK = int(os.environ.get('DST_WORKERS', '8'))


def engines():
    from . import session, gen, conc, evts
    return {'session': (session.run_script, session), 'conc': (conc.run_script, conc),
            'evts': (evts.run_script, evts)}


ENG = None


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


SCRATCH = None


def execute(script, record=False):
    """Run one script in a forked child in a fresh scratch directory."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 2))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXCPU, signal.SIG_DFL)
            gc.disable()
            root = os.path.join(SCRATCH, 'r%d' % R.getpid())
            R.mkdir(root)
            try:
                out = ENG[script['engine']][0](script, root, record)
            except (AttributeError, TypeError, LookupError, ValueError, NameError) as e:
                # the document handed out cannot be read the way every document can
                tb = traceback.extract_tb(e.__traceback__)[-1]
                out = {'viol': {'props': [script['prop']], 'class': 'unusable-document', 'step': None,
                                'detail': '%s: %s (%s in %s)' % (
                                    type(e).__name__, str(e)[:200], tb.name,
                                    os.path.basename(tb.filename))},
                       'log': 'unusable', 'faults': {}, 'probes': {}, 'nops': 0, 'checks': 0,
                       'sim': 0, 'stepinfo': None}
            except BaseException:
                out = {'harness': traceback.format_exc()}
            sim.set_world(None)
            data = pickle.dumps(out)
            with R.open(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = R.monotonic() + float(os.environ.get("DST_DL", 600))
    root = os.path.join(SCRATCH, 'r%d' % pid)
    try:
        while True:
            left = deadline - R.monotonic()
            rd = select.select([r], [], [], max(0, left))[0]
            if not rd:
                os.kill(pid, signal.SIGKILL)
                break
            d = R.read(r, 1 << 20)
            if not d:
                break
            chunks.append(d)
    finally:
        os.close(r)
        _, st = os.waitpid(pid, 0)
        shutil.rmtree(root, ignore_errors=True)
    if chunks:
        try:
            return pickle.loads(b''.join(chunks))
        except Exception:
            pass
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, ):
        return {'viol': {'props': [script['prop']], 'class': 'hang', 'step': None,
                         'detail': 'operation did not finish within %d s of CPU time' % CPU_LIMIT},
                'log': 'hang', 'faults': {}, 'probes': {}, 'nops': 0, 'checks': 0, 'sim': 0,
                'stepinfo': None}
    return {'harness': 'child ended with status %r' % st}


# ------------------------------------------------------------------- findings

def load_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with R.open(p) as f:
        return [x for x in json.load(f) if x.get('status') == 'known']


def known(findings, prop, v):
    for f in findings:
        if f['property'] == prop and f['class'] == v['class'] and re.search(f['detail'], v['detail']):
            return f
    return None


# --------------------------------------------------------------------- worker

def plan(prop, tier):
    from . import gen, conc, evts
    return (conc if prop in conc.PROPS else evts if prop in evts.PROPS else gen)


def family(mod, prop, seed, nvar):
    """All executions of one seed: yields (script, record)."""
    raise NotImplementedError


def run_seed(prop, seed, nvar, sink, stop):
    """Dry run plus nvar fault variants of one seed."""
    import random
    mod = plan(prop, None)
    if mod.__name__.endswith('gen'):
        script = mod.gen_session(prop, seed)
        lines = prop in ('C18', 'C17', 'C15', 'C05', 'C26', 'C28')
        dry = json.loads(json.dumps(script))
        if lines:
            dry['cfg']['lines'] = True
        res = execute(dry, record=True)
        if not sink(dry, res):
            return
        info = res.get('stepinfo')
        if not info:
            return
        rng = random.Random('v%s/%d' % (prop, seed))
        for k in range(nvar):
            fs = mod.fault_variant(script, info, rng)
            if not fs:
                continue
            s = json.loads(json.dumps(script))
            s['faults'] = fs
            s['blame'] = True
            if not sink(s, execute(s)) or stop():
                return
    else:
        for s in mod.family(prop, seed, nvar, execute, sink, stop):
            pass


class Agg(object):
    def __init__(self):
        self.runs = 0
        self.checks = 0
        self.nops = 0
        self.sim = 0.0
        self.faults = {}
        self.probes = {}
        self.logs = set()
        self.nontriv = set()
        self.viols = []
        self.anom = {}
        self.known = {}
        self.harness = []
        self.seeds = 0
        self.samples = []
        self.states = set()
        self.aborted = 0

    def add(self, script, res, prop, findings, idx):
        """Returns True to go on with this seed."""
        self.runs += 1
        if 'harness' in res:
            if len(self.harness) < 5:
                self.harness.append(res['harness'])
            self.aborted += 1
            return True
        self.checks += res['checks']
        self.nops += res['nops']
        self.sim += res['sim']
        for k, v in res['faults'].items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in res['probes'].items():
            self.probes[k] = self.probes.get(k, 0) + v
        h = res['log'][:12]
        self.logs.add(h)
        self.states.update(res.get('states', ()))
        if res.get('nontrivial', bool(res['faults'])):
            self.nontriv.add(h)
        if len(self.samples) < 2 and res.get('nontrivial', bool(res['faults'])):
            self.samples.append(brief(script, res))
        v = res['viol']
        if v:
            if prop not in v['props']:
                k = '%s:%s' % ('/'.join(v['props']), v['class'])
                self.anom[k] = self.anom.get(k, 0) + 1
                if os.environ.get('DST_ALL') and self.anom[k] == 1 and not os.path.exists(
                        os.path.join(SCRATCH, re.sub(r'\W', '', v['class']))):
                    R.open(os.path.join(SCRATCH, re.sub(r'\W', '', v['class'])), 'w').close()
                    sys.stderr.write('ANOM %s seed %d faults %s: %s\n' % (
                        k, script['seed'], script.get('faults'), v['detail']))
                self.aborted += 1
                return False
            f = known(findings, prop, v)
            if f:
                self.known[f['id']] = self.known.get(f['id'], 0) + 1
                return False
            self.viols.append((idx, script, v, res['log']))
            return False
        return True

    def dump(self):
        return self.__dict__

    def merge(self, d):
        for k in ('runs', 'checks', 'nops', 'sim', 'seeds', 'aborted'):
            setattr(self, k, getattr(self, k) + d[k])
        for k in ('faults', 'probes', 'anom', 'known'):
            m = getattr(self, k)
            for a, b in d[k].items():
                m[a] = m.get(a, 0) + b
        for k in ('logs', 'nontriv', 'states'):
            getattr(self, k).update(d[k])
        self.viols += d['viols']
        self.harness += d['harness']
        self.samples += d['samples']


def brief(script, res):
    s = {'seed': script['seed'], 'engine': script['engine'], 'faults': script.get('faults'),
         'steps': json.dumps(script.get('steps') or script.get('tasks'))[:700],
         'log_digest': res['log'][:16]}
    if script.get('switches'):
        s['switches'] = script['switches'][:20] if isinstance(script['switches'], list) else \
            script['switches']
    return s


def worker(prop, base, nseeds, nvar, wid, nwork, deadline, stopf):
    findings = load_findings()
    agg = Agg()
    i = wid
    while i < nseeds:
        try:
            lim = int(R.open(stopf).read() or -1)
        except (OSError, ValueError):
            lim = -1
        if (lim >= 0 and i > lim) or R.monotonic() > deadline:
            break
        seed = base + i
        nv = len(agg.viols)

        def sink(s, r):
            return agg.add(s, r, prop, findings, i)
        run_seed(prop, seed, nvar, sink, lambda: R.monotonic() > deadline)
        agg.seeds += 1
        if len(agg.viols) > nv and not os.environ.get('DST_ALL'):
            try:
                old = int(R.open(stopf).read() or -1)
            except (OSError, ValueError):
                old = -1
            if old < 0 or i < old:
                with R.open(stopf, 'w') as f:
                    f.write(str(i))
            break
        i += nwork
    return agg


BUDGETS = {  # property: (quick seeds, quick variants)
    'C01': (1100, 10), 'C02': (1100, 10), 'C03': (1100, 11), 'C04': (1300, 7), 'C05': (1300, 7),
    'C06': (1300, 9), 'C07': (1000, 10), 'C08': (1000, 10), 'C09': (480, 10), 'C10': (1600, 5),
    'C11': (1600, 5), 'C12': (1600, 5), 'C13': (1600, 5), 'C14': (4000, 8), 'C15': (1300, 7),
    'C16': (1100, 10), 'C17': (1100, 8), 'C18': (1000, 12), 'C19': (1600, 5), 'C21': (1600, 5), 'C25': (1600, 5),
    'C26': (1600, 5), 'C27': (1300, 8), 'C28': (700, 4),
}


def check(prop, tier, seed0):
    t0 = R.monotonic()
    nseeds, nvar = BUDGETS[prop]
    budget = 150 if tier == 'quick' else 780
    if tier == 'thorough':
        nseeds, nvar = nseeds * 40, nvar + 4
    if os.environ.get('DST_RUNS'):
        nseeds = int(os.environ['DST_RUNS'])
    if os.environ.get('DST_BUDGET'):
        budget = float(os.environ['DST_BUDGET'])
    base = seed0 * 1000003
    deadline = t0 + budget
    stopf = os.path.join(SCRATCH, 'stop')
    kids = []
    for wid in range(NWORK):
        out = os.path.join(SCRATCH, 'w%d.pickle' % wid)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                agg = worker(prop, base, nseeds, nvar, wid, NWORK, deadline, stopf)
                with R.open(out, 'wb') as f:
                    pickle.dump(agg.dump(), f)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                os._exit(code)
        kids.append((pid, out))
    agg = Agg()
    bad = 0
    for pid, out in kids:
        _, st = os.waitpid(pid, 0)
        try:
            with R.open(out, 'rb') as f:
                agg.merge(pickle.load(f))
        except Exception:
            bad += 1
    wall_search = R.monotonic() - t0
    agg.viols.sort(key=lambda x: x[0])
    reported = []
    nonrepro = []
    done = set()
    for idx, script, v, log in agg.viols:
        if v['class'] in done or len(reported) >= 3:
            continue
        done.add(v['class'])
        left = (45 if tier == 'quick' else 90)
        s2, v2 = shrink(script, v, prop, left)
        path = write_replay(prop, s2, v2)
        ok = confirm(path)
        if not ok:
            path = write_replay(prop, script, v)
            ok = confirm(path)
        (reported if ok else nonrepro).append((path, v2 if ok else v))
    wall = R.monotonic() - t0
    evidence(prop, tier, seed0, agg, wall, wall_search, nseeds, nvar, len(reported), bad)
    for kid, n in sorted(agg.known.items()):
        f = [x for x in load_findings() if x['id'] == kid][0]
        print('KNOWN-FINDING: property=%s %s (%d runs)' % (prop, f['what'], n))
    print('%s: %d runs of %d seeds, %d distinct histories, %d oracle checks, %d fs ops, '
          '%.1f s' % (prop, agg.runs, agg.seeds, len(agg.logs), agg.checks, agg.nops, wall))
    print('  faults: %s' % json.dumps(agg.faults, sort_keys=True))
    print('  probes: %s' % json.dumps(agg.probes, sort_keys=True))
    if agg.anom:
        print('  runs ended early by other properties\' violations: %s' % json.dumps(agg.anom))
    for path, v in reported:
        print('  %s: %s' % (v['class'], v['detail']))
    for path, v in reported:
        print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()
    if reported:
        return 1
    if nonrepro:
        print('ERROR: a violation did not replay: %s' % (nonrepro,), file=sys.stderr)
        return 2
    if agg.harness:
        print('ERROR: harness failure\n%s' % agg.harness[0], file=sys.stderr)
        return 2
    if bad:
        print('ERROR: %d workers died' % bad, file=sys.stderr)
        return 2
    if agg.runs == 0 or agg.aborted > agg.runs * .9:
        print('ERROR: nothing could be explored', file=sys.stderr)
        return 2
    return 0


# --------------------------------------------------------------------- shrink

def same(res, v, prop):
    w = res.get('viol') if res else None
    return bool(w) and prop in w['props'] and w['class'] == v['class']


def shrink(script, v, prop, seconds):
    end = R.monotonic() + seconds
    best = json.loads(json.dumps(script))
    best['cfg'] = dict(best.get('cfg', {}))
    bv = v

    def attempt(s):
        nonlocal best, bv
        if R.monotonic() > end:
            return False
        res = execute(s)
        if same(res, v, prop):
            best, bv = s, res['viol']
            return True
        return False
    if v['class'] == 'hang':
        return best, bv
    mod = ENG[script['engine']][1]
    for _ in range(6):
        before = json.dumps(best, sort_keys=True)
        for cand in mod.simpler(best, lambda: best):
            if R.monotonic() > end:
                break
            attempt(cand)
        if json.dumps(best, sort_keys=True) == before or R.monotonic() > end:
            break
    return best, bv


def write_replay(prop, script, v):
    d = os.path.join(HERE, 'replays')
    if not os.path.isdir(d):
        os.makedirs(d)
    res = execute(script)
    doc = {'property': prop, 'violation': res.get('viol') or v, 'log_digest': res.get('log'),
           'script': script, 'how': 'python3 /verif/run.py replay <this file>'}
    s2 = json.loads(json.dumps(script))
    s2['keeplog'] = True
    r2 = execute(s2)
    if r2.get('rawlog'):
        doc['trace'] = [list(map(str, e)) for e in r2['rawlog']][-400:]
    t = json.dumps(doc, indent=1, ensure_ascii=True)
    p = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha1(json.dumps(script, sort_keys=True)
                                                          .encode()).hexdigest()[:10]))
    with R.open(p, 'w') as f:
        f.write(t)
    return p


def confirm(path):
    """Replay in a fresh interpreter; the same violation and log must come out."""
    env = dict(os.environ)
    env.pop('DST_CHILD', None)
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, 'run.py'), 'replay', path],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    except subprocess.TimeoutExpired:
        return False
    if r.returncode != 1:
        sys.stderr.write('replay of %s gave %d\n%s\n' % (path, r.returncode,
                                                        (r.stdout + r.stderr).decode()[-2000:]))
    return r.returncode == 1


def replay(path):
    with R.open(path) as f:
        doc = json.load(f)
    res = execute(doc['script'])
    if 'harness' in res:
        print(res['harness'])
        return 2
    v = res['viol']
    if not v or doc['property'] not in v['props']:
        print('no violation of %s (%s)' % (doc['property'], v))
        return 0
    exact = v['class'] == doc['violation']['class'] and \
        (res['log'] == doc['log_digest'] or doc['log_digest'] is None)
    print('%s: %s' % (v['class'], v['detail']))
    print('exact replay: %s' % exact)
    if not exact:
        return 3
    print('VIOLATION property=%s replay=%s' % (doc['property'], os.path.abspath(path)))
    return 1


# ------------------------------------------------------------------- evidence

def evidence(prop, tier, seed0, agg, wall, wall_search, nseeds, nvar, nv, bad):
    d = os.path.join(HERE, 'evidence')
    if not os.path.isdir(d):
        os.makedirs(d)
    mod = plan(prop, None)
    h = max(wall_search, .001) / 3600
    cov = {
        'evaluations': agg.runs, 'distinct_nontrivial': len(agg.nontriv),
        'rule': mod.RULE, 'samples': agg.samples[:3],
        'seeds': agg.seeds, 'seeds_planned': nseeds, 'fault_variants_per_seed': nvar,
        'runs_per_hour': int(agg.runs / h), 'seeds_per_hour': int(agg.seeds / h),
        'simulated_seconds': round(agg.sim, 1), 'fs_operations': agg.nops,
        'oracle_checks': agg.checks, 'faults_injected': dict(sorted(agg.faults.items())),
        'probes': dict(sorted(agg.probes.items())),
        'distinct_histories': len(agg.logs),
        'distinct_situations': len(agg.states),
        'distinct_measure': 'histories: distinct digests of the full event log (operations, '
                            'faults, switches, outcomes); situations: distinct (step kind, '
                            'fault kind at operation kind, outcome) combinations',
        'runs_ended_by_other_properties': agg.anom, 'known_findings_hit': agg.known,
        'workers_lost': bad, 'real_components': mod.REALCOMP, 'stubbed_components': mod.STUBS,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed0, 'level': LEVEL(prop), 'coverage': cov,
          'assumptions': mod.ASSUME, 'wall_s': round(wall, 2), 'violations': nv}
    p = os.path.join(d, prop + '.json')
    with R.open(p + '.new', 'w') as f:
        json.dump(ev, f, indent=1)
    R.replace(p + '.new', p)


def LEVEL(prop):
    return 'exploration'


# ------------------------------------------------------------------- selftest

def selftest(n, only=None):
    """Run n seeds of every property here; print digests (compared by caller)."""
    out = []
    props = sorted(BUDGETS) if not only else only
    for prop in props:
        h = hashlib.sha1()
        cnt = [0]

        def sink(s, r):
            cnt[0] += 1
            h.update(json.dumps([r.get('log'), r.get('viol'), 'harness' in r]).encode())
            return True
        for i in range(n):
            run_seed(prop, 77000 + i, 4, sink, lambda: False)
        print('%s %d %s' % (prop, cnt[0], h.hexdigest()))
        sys.stdout.flush()
    return 0


def main(argv, repo, here):
    global REPO, HERE, ENG, SCRATCH
    REPO, HERE = repo, here
    if not argv:
        print(__doc__)
        return 2
    ENG = engines()
    SCRATCH = tempfile.mkdtemp(prefix='dst-', dir=scratch_base())
    me = R.getpid()
    try:
        try:
            sim.preload(6)
        except Exception:
            traceback.print_exc()
            print('ERROR: the tree under test cannot be imported', file=sys.stderr)
            return 2
        gc.collect()
        gc.freeze()
        if argv[0] == 'check':
            tier = os.environ.get('VERIF_TIER', 'quick')
            if '--tier' in argv:
                tier = argv[argv.index('--tier') + 1]
            return check(argv[1], tier, int(os.environ.get('VERIF_SEED', '1') or 1))
        if argv[0] == 'replay':
            return replay(argv[1])
        if argv[0] == 'selftest':
            return selftest(int(argv[1]) if len(argv) > 1 else 5, argv[2:])
        if argv[0] == 'run':      # one seed, for debugging: prints what its runs find
            def sink(sc, r):
                v = r.get('viol')
                if v or 'harness' in r:
                    print(json.dumps(sc.get('faults')), v, r.get('harness', ''))
                    sc = dict(sc, keeplog=True)
                    write_replay(v['props'][0] if v else 'X', sc, v or {})
                return 'harness' not in r
            run_seed(argv[1], int(argv[2]), int(argv[3]) if len(argv) > 3 else 10, sink,
                     lambda: False)
            return 0
        print('unknown command')
        return 2
    finally:
        if R.getpid() == me:
            shutil.rmtree(SCRATCH, ignore_errors=True)
