"""Generators: seed -> script for the session engine, and fault variants placed
from what a fault-free dry run of the same script actually did."""
import copy
import json
import random
import re

from . import held
from .dom import DOMAINS, movable, xstep
from .grid import Grid

DOMAINS['grid'] = Grid

TNAMES = {'odt': 'ott', 'ods': 'ots', 'odg': 'otg', 'odp': 'otp', 'odc': 'otc', 'odi': 'oti'}
ALLKINDS = ['odt', 'ott', 'ods', 'ots', 'odg', 'otg', 'odp', 'otp', 'odc', 'odi', 'otc', 'oti',
            'odm', 'oth']
MEMBERS = ['Pictures/a.png', 'Pictures/1000.jpg', 'settings.xml', 'Thumbnails/thumbnail.png',
           'Object 1/content.xml', 'Object 1/styles.xml', 'META-INF/documentsignatures.xml',
           'Configurations2/', 'Configurations2/accelerator/current.xml', 'layout-cache',
           'Dialogs/dialog-lc.xml', 'Pictures/', 'ObjectReplacements/Object 1',
           'Basic/Standard/Modul\u00e4.xml', 'manifest.rdf', 'content.xml.orig', 'meta.xml/x',
           'styles', 'Thumbnails/mimetype', 'Versions/Version1', 'Content.xml', 'META-INF/Manifest.xml',
           'Pictures/content.xml', 'Mimetype', 'a b/(1) \u65e5.bin', 'META-INF/macrosignatures.xml']

# domain and birth weights, ops per script, special steps per property
DEF = {
    'dom': ['text', 'text', 'sheet', 'meta', 'vars', 'pages', 'sheet',
            'styles'],
    'birth': ['path'] * 5 + ['new'] * 3 + ['stream', 'bytes', 'newt', 'newt', 'flat', 'newflat'],
    'edits': (1, 5), 'rounds': (1, 3), 'baks': .5, 'nobackup': .3,
}
PROFILE = {
    'C01': {}, 'C02': {}, 'C03': {},
    'C04': {'foreign': 1.0, 'birth': ['path'] * 6 + ['stream', 'bytes', 'newt', 'newt'],
            'ext': .5, 'edits': (0, 3), 'rounds': (1, 4)},
    'C05': {'rounds': (1, 4), 'conv': .6, 'allkinds': .5,
            'partial': .35,
            'birth': ['path'] * 6 + ['new'] * 4 + ['stream', 'bytes', 'newt', 'newt']},
    'C06': {'birth': ['path'] * 6 + ['flat', 'newt'], 'rounds': (1, 2), 'damage': .6},
    'C10': {'dom': ['sheet'], 'edits': (4, 14), 'mate': .2},
    'C11': {'dom': ['text'], 'edits': (4, 14), 'mate': .2},
    'C12': {'dom': ['meta', 'meta', 'text'], 'edits': (2, 8), 'rounds': (2, 4), 'clock': .5,
            'conv': .4, 'birth': ['path'] * 5 + ['new'] * 4 + ['stream', 'bytes', 'newt']},
    'C13': {'dom': ['vars'], 'edits': (3, 10),
            'birth': ['path'] * 6 + ['stream', 'bytes', 'newt', 'flat']},
    'C15': {'conv': 1.0, 'scribble': .4, 'edits': (1, 4), 'rounds': (2, 4),
            'birth': ['path'] * 3 + ['new'] * 2 + ['stream'] * 3 + ['bytes'] * 3 + ['newt', 'flat']},
    'C16': {'junk': .8, 'baks': .6, 'nobackup': .4, 'conv': .3, 'rounds': (1, 4)},
    'C17': {'clock': 1.0, 'conv': .5},
    'C18': {'conv': .5, 'rounds': (1, 2), 'edits': (1, 3)},
    'C19': {'dom': ['pages'], 'edits': (4, 14), 'mate': .2},
    'C21': {'dom': ['grid'], 'edits': (2, 8), 'rounds': (1, 4),
            'birth': ['path'] * 8 + ['stream', 'bytes', 'newt', 'flat', 'new']},
    'C25': {'dom': ['styles'], 'edits': (3, 10)},
    'C26': {'dom': ['text', 'sheet', 'sheet', 'pages', 'styles', 'vars', 'meta'], 'keep': .6,
            'edits': (2, 8), 'conv': .5},
    'C27': {'conv': .4, 'damage': .5, 'junk': .3, 'foreign': .6, 'edits': (0, 3),
            'birth': ['path'] * 6 + ['flat', 'flat', 'new', 'newflat', 'newt', 'newt', 'stream',
                                     'bytes']},
    'C28': {'conv': .4, 'damage': .3, 'foreign': .4, 'edits': (1, 4), 'rounds': (1, 2), 'keep': .3,
            'birth': ['path'] * 5 + ['flat', 'flat', 'new', 'new', 'newflat', 'newt', 'stream',
                                     'bytes']},
}
CLOCKS = [0, 1, 3600, 86400 * 365, 315532799, 315532800, 315532801, 9.5e8, 1.3e9, 1.7e9, 2 ** 31 - 2,
          2 ** 31 + 5, 4354819199, 4354819200, 4.4e9, 5e9, 1.0e10, 2.0e11,
          1330473600, 1330559999.7, 1456747200, 1293839999.6, 1330559999]


def rvia(rng, via):
    """A stream need not stand at its beginning."""
    return rng.choice(['stream', 'stream-end', 'stream-mid']) if via == 'stream' else via


def jc(x):
    return json.loads(json.dumps(x))


NAME = re.compile(r'^(\.?)([a-z]+[0-9]*)(\..*)$')
STEMS = ['d o c', 'd\u00f6c \u65e5\u672c', 'doc.v1.2', 'doc.xml', 'doc.tmp', 'doc.bak', '.hidden', 'DOC', '-doc', '~doc',
         'doc#1%20', "d'o(c)", 'doc~', 'D' * 100, 'doc.odt', 'doc.zip', '0', 'content.xml', 'mimetype']
FOLDERS = ['sub', 'sub/deeper', 'my docs.odt', 'f\u00fcr', 'y.tmp', 'A.b']


def rename(rng, script):
    """Other names for the documents of a script, in other folders."""
    stems, dirs = {}, {}
    for n in ('doc', 'copy', 'second', 'tmpl', 'moved', 'mate'):
        if rng.random() < .5:
            stems[n] = rng.choice(STEMS) + ('' if n == 'doc' else n)
        if rng.random() < .5:
            dirs[n] = rng.choice(FOLDERS)
    stems['moved'] = stems.get('doc', 'doc') + '-moved'
    if 'doc' in dirs:
        dirs['moved'] = dirs['doc']
    else:
        dirs.pop('moved', None)
    names = set()

    def f(a):
        if isinstance(a, str):
            m = NAME.match(a)
            if m and m.group(2) in ('doc', 'copy', 'second', 'tmpl', 'moved', 'mate'):
                a = m.group(1) + stems.get(m.group(2), m.group(2)) + m.group(3)
                if m.group(2) in dirs:
                    a = dirs[m.group(2)] + '/' + a
                names.add(a)
        return a
    script['files'] = {f(n): s for n, s in script['files'].items()}
    script['steps'] = [s if s[0] in ('edit', 'style') else [f(a) for a in s] for s in script['steps']]
    script['names'] = sorted(names)
    if rng.random() < .5:
        script['cfg'].update(abs=True, cwd=1)
        for _ in range(rng.randrange(6)):
            script['steps'].insert(rng.randrange(1, len(script['steps']) + 1), ['chdir', rng.randrange(3)])


BARE = ['office:' + n for n in ('settings', 'scripts', 'font-face-decls', 'styles',
                                'automatic-styles', 'master-styles')]


def gen_session(prop, seed):
    rng = random.Random('%s/%d' % (prop, seed))
    P = dict(DEF)
    P.update(PROFILE[prop])
    D = DOMAINS[rng.choice(P['dom'])]
    birth = rng.choice(P['birth'])
    cfg = {'now': rng.choice([1.1e9, 1.3e9, 1.7e9]) + rng.randrange(10 ** 6),
           'bufsize': rng.choice([512, 1024, 8192, 8192, 65536]),
           'abs': rng.random() < .3}
    if P.get('clock') and rng.random() < P['clock']:
        cfg['now'] = rng.choice(CLOCKS)
        cfg['tick'] = rng.choice([0, 0.5, 1, 30])
    steps = []
    files = {}
    model = jc(D.initial(rng))
    kind = model['k'] if D.name == 'pages' else D.kind
    if D.name == 'meta' and rng.random() < .4:
        kind = rng.choice(ALLKINDS[2:])
    if D.name in ('text', 'vars') and rng.random() < .1:
        kind = rng.choice(['odm', 'oth', 'ott'])
    if D.name == 'grid':
        kind = rng.choice(['ods', 'ods', 'odt'])
    if D.name == 'styles' and rng.random() < .4:
        kind = rng.choice(['ods', 'odg', 'odp'])
    spec = {'dom': D.name, 'model': model, 'kind': kind}
    if rng.random() < P.get('foreign', .4):
        spec['foreign'] = {m: [rng.randrange(1, 10 ** 6), rng.choice([0, 1, 40, 300, 3000])]
                           for m in rng.sample(MEMBERS, rng.randrange(1, 6))}
        if rng.random() < .2:
            spec['foreign']['Pictures/big.bin'] = [1, rng.choice([20000, 100000])]
    if rng.random() < .4:
        spec['fx'] = rng.randrange(256)
    spec['opts'] = {'order': rng.randrange(3), 'method': rng.randrange(2)}
    if rng.random() < .15:
        spec['opts']['zip'] = rng.choice(['pipe', 'comment', 'extra', '64'])
    if rng.random() < .05:
        spec['opts']['method'] = 2
    if birth in ('path', 'bytes', 'stream', 'newt') and rng.random() < P.get('partial', .06):
        c = [['styles.xml'], ['META-INF/manifest.xml']]
        if D.name != 'meta':
            c += [['meta.xml'], ['meta.xml', 'styles.xml']]
        c += [['mimetype'], ['mimetype', 'styles.xml']]
        if birth in ('path', 'newt'):
            c += [['mimetype', 'META-INF/manifest.xml']]
        spec['opts']['drop'] = [n for n in rng.choice(c) if n != 'styles.xml' or D.name != 'styles']
    if rng.random() < P.get('partial', .06):
        spec['opts']['nolist'] = rng.choice([['meta.xml'], ['styles.xml'], ['content.xml'],
                                             ['content.xml', 'styles.xml', 'meta.xml']])
    if rng.random() < P.get('partial', .06):
        spec['opts']['dup'] = 1
    if rng.random() < .12:
        # parts other programs leave out when there is nothing in them
        spec['opts']['bare'] = rng.sample(BARE, rng.randrange(1, 4))
    if rng.random() < .4:
        spec['title'] = 'T%d' % rng.randrange(100)
    if rng.random() < .3 and D.name != 'styles':
        spec['style'] = 'S%d' % rng.randrange(5)
    ext = kind
    a = 'doc.' + ext
    path = a
    if birth in ('path', 'bytes', 'stream'):
        files[a] = spec
        steps.append(['open', 'h', a, rvia(rng, birth)])
        if birth != 'path' and rng.random() < .5:
            # the document was opened from memory; its old file may differ
            path = a
    elif birth == 'flat':
        spec['flat'] = True
        if D.name == 'styles':
            D.flat(model)
        path = a = 'doc.f' + ext
        files[a] = spec
        steps.append(['open', 'h', a, 'path'])
    elif birth == 'newt':
        tk = rng.choice([TNAMES[kind], kind]) if kind in TNAMES else kind
        if tk != kind and D.name != 'pages':
            spec['kind'] = tk
        elif tk != kind:
            spec['kind'] = tk
        t = 'tmpl.' + tk
        files[t] = spec
        steps.append(['newt', 'h', t, rvia(rng, rng.choice(['path', 'path', 'bytes', 'stream'])), a])
        if rng.random() < .5:
            files[a] = other_spec(rng, kind, D)
    elif birth == 'newflat':
        model = jc(D.empty() if D.name != 'pages' else dict(D.empty(), k=kind))
        if D.name == 'styles':
            D.flat(model)
        path = a = 'doc.f' + ext
        steps.append(['new', 'h', D.name, 'f' + kind, a])
    else:
        model = jc(D.empty() if D.name != 'pages' else dict(D.empty(), k=kind))
        if D.name == 'meta' and P.get('allkinds') and rng.random() < P['allkinds']:
            kind = rng.choice(ALLKINDS)
            a = path = 'doc.' + kind
        steps.append(['new', 'h', D.name, kind, a])
        if rng.random() < .5:
            files[a] = other_spec(rng, kind, D)
    if rng.random() < P['baks']:
        if rng.random() < .5:
            files[path + '.bak'] = other_spec(rng, kind, D)
        else:
            files[path + '.bak'] = {'raw': [rng.randrange(99), 80]}
    if rng.random() < P['nobackup']:
        steps.append(['backup', 'h', False])
    if P.get('junk') and rng.random() < P['junk']:
        for n in rng.sample(['x.tmp', 'doc.tmp', path + '.tmp', path + '~', 'abcdefgh.tmp',
                             path + '.bak.bak', 'other.odt', 'other.odt.bak', '.' + path,
                             path + '.new', path + '.old', 'doc.bak', path + '.part'],
                            rng.randrange(1, 5)):
            steps.append(['junk', n, [rng.randrange(1, 999), rng.choice([0, 10, 200])]])
    if P.get('scribble') and steps and steps[0][0] in ('open', 'newt') and \
            rng.random() < P['scribble']:
        steps.append(['scribble', 'h', rng.choice(['over', 'more', 'trunc', 'close'])])
    mm = copy.deepcopy(model)
    cur = path
    mg = None
    if P.get('mate') and rng.random() < P['mate']:
        # another document of the program: pieces are moved from one to the other
        b = 'mate.' + ext
        mg = jc(D.initial(rng, model['k']) if D.name == 'pages' else D.initial(rng))
        files[b] = {'dom': D.name, 'model': copy.deepcopy(mg), 'kind': kind}
        steps.append(['open', 'g', b, rvia(rng, rng.choice(['path', 'path', 'bytes', 'stream']))])
    for r in range(rng.randint(*P['rounds'])):
        for _ in range(rng.randint(*P['edits'])):
            op = jc(D.gen(rng, mm))
            D.step(mm, op)
            steps.append(['edit', 'h', op])
            if P.get('keep'):
                keep(rng, D, mm, steps, P['keep'])
            if mg is not None and rng.random() < .5:
                x = rng.random()
                if x < .35:
                    op = jc(D.gen(rng, mg))
                    D.step(mg, op)
                    steps.append(['edit', 'g', op])
                elif x < .45:
                    steps += [['saveas', 'g', b], ['ensure', 'g', b, 'path']]
                elif x < .5:
                    steps += [['saveas', 'g', b], ['ensure', 'g', b, 'path'], ['reopen', 'g', 'path']]
                else:
                    z = [['h', mm], ['g', mg]]
                    if rng.random() < .5:
                        z.reverse()
                    ls = movable(D, z[0][1], z[1][1])
                    op = [rng.randrange(len(ls[0]) + 1), rng.randrange(4), rng.randrange(len(ls[1]) + 1),
                          'M%d' % len(steps)]
                    xstep(D, z[0][1], z[1][1], op)
                    steps.append(['xfer', z[0][0], z[1][0], op])
            if P.get('conv') and rng.random() < P['conv'] * .3:
                steps.append(rng.choice([['tobytes', 'h'], ['tobytes', 'h'], rstream(rng)]))
                if steps[-1][0] == 'savestream' and rng.random() < .3:
                    steps.append(['openlast', 'h', path])
            if P.get('clock') and rng.random() < .2:
                steps.append(['clock', rng.choice(CLOCKS)])
        if rng.random() < .1:
            steps.append(['style', 'h', 'I%d' % rng.randrange(9)])
        if P.get('ext') and rng.random() < P['ext']:
            x = rng.random()
            if x < .4:
                steps.append(['ext', 'rm', a])
            elif x < .7:
                steps.append(['ext', 'mv', a, 'moved.' + ext])
            else:
                steps.append(['ext', 'file', a, other_spec(rng, kind, D)])
        if P.get('clock') and rng.random() < .4:
            steps.append(rng.choice([['clock', rng.choice(CLOCKS)], ['wait', rng.choice([1, 60, 86400])]]))
        elif rng.random() < .3:
            steps.append(['wait', rng.choice([1, 60, 4000])])
        if rng.random() < .15:
            steps.append(['backup', 'h', rng.random() < .6])
        if P.get('junk') and rng.random() < P['junk'] * .3:
            steps.append(['junk', 'late%d.tmp' % r, [7, 30]])
        if P.get('conv') and rng.random() < P['conv'] * .5:
            steps.append(rng.choice([['tobytes', 'h'], rstream(rng)]))
            if steps[-1][0] == 'savestream' and rng.random() < .2:
                steps.append(['openlast', 'h', path])
        x = rng.random()
        if x < .18:
            cur = rng.choice(['copy.' + ext, 'second.' + ext, path])
            if birth in ('flat', 'newflat'):
                cur = 'copy.f' + ext
            steps.append(['saveas', 'h', cur])
        else:
            steps.append(['save', 'h'])
        steps.append(['ensure', 'h', cur, 'path'])
        if P.get('keep'):
            keep(rng, D, mm, steps, 1)
        y = rng.random()
        if y < .25:
            steps.append(['reopen', 'h', 'path' if birth in ('flat', 'newflat') else
                          rvia(rng, rng.choice(['path', 'path', 'path', 'bytes', 'stream']))])
        elif y < .3 and prop == 'C28':
            steps += [['drop', 'h'], ['ensure', 'h', cur, 'path']]
        elif y < .3:
            steps += [['restart'], ['ensure', 'h', cur, 'path']]
    if P.get('damage') and rng.random() < P['damage']:
        x = rng.random()
        if x < .35:
            steps.append(['ext', 'cut', cur, rng.choice([0, .1, .5, .9, .97, .99, .999, rng.random()])])
        elif x < .5 and birth not in ('flat', 'newflat') and rng.random() < .5:
            steps.append(['ext', 'mangle', cur, [rng.choice(['content.xml', 'meta.xml', 'styles.xml',
                                                             'META-INF/manifest.xml']),
                                                 [rng.randrange(5), rng.choice([.3, .9, rng.random()])]]])
        elif x < .5 and birth not in ('flat', 'newflat'):
            steps.append(['ext', 'hollow', cur, rng.choice(['content.xml', 'meta.xml', 'styles.xml',
                                                            'META-INF/manifest.xml'])])
        elif x < .65 and birth not in ('flat', 'newflat'):
            steps.append(['ext', 'dir', cur, [rng.random(), rng.randrange(11) if rng.random() < .5
                                              else rng.randrange(3)]])
        elif x < .85:
            steps.append(['ext', 'flip', cur, [rng.random(), rng.choice([1, 1, 2, 4, 30, 300])]])
        elif x < .92:
            steps.append(['ext', 'rm', cur])
        else:
            steps.append(['ext', 'junk', cur, [rng.randrange(999), rng.choice([0, 3, 100, 4000])]])
        steps.append(['open', 'h2', cur, 'path' if birth in ('flat', 'newflat') else
                      rvia(rng, rng.choice(['path', 'path', 'bytes', 'stream']))])
        steps.append(['saveas', 'h2', ('out.f' if birth in ('flat', 'newflat') else 'out.') + ext])
        if rng.random() < .5 and x < .92:
            steps.append(['newt', 'h3', cur, rvia(rng, rng.choice(['path', 'bytes', 'stream'])), 'out3.' + ext])
            steps.append(['saveas', 'h3', 'out3.' + ext])
    if rng.random() < .6:
        op = jc(D.gen(rng, mm))
        steps.append(['edit', 'h', op])
    if mg is not None:
        steps += [['saveas', 'g', b], ['ensure', 'g', b, 'path'], ['reopen', 'g', 'path']]
    steps += [['save', 'h'], ['ensure', 'h', cur, 'path'], ['reopen', 'h', 'path'],
              ['save', 'h'], ['reopen', 'h', 'path']]
    if D.name == 'grid':
        big = any(f.get('model', {}).get('big') for f in files.values())
        steps = strategies(rng, steps, big)
    out = {'engine': 'session', 'prop': prop, 'seed': seed, 'cfg': cfg, 'files': files,
           'steps': steps, 'faults': []}
    if rng.random() < (.6 if prop == 'C16' else .35):
        rename(rng, out)
    if prop == 'C28' and seed >= 0 and rng.random() < .6:
        out['mate'] = gen_session(prop, -1 - seed)
    return out


def keep(rng, D, mm, steps, p):
    """The program keeps an object of the document, or uses one it kept."""
    K = held.H[D.name]
    while rng.random() < p:
        slot = rng.randrange(3)
        piece = held.find(mm, slot)
        if piece is None and rng.random() < .6 or rng.random() < .15:
            sel = K.sel(rng, mm)
            piece = K.piece(mm, sel) if sel is not None else None
            if piece is not None:
                held.unmark(mm, slot)
                piece['hid'] = slot
                steps.append(['hold', 'h', slot, sel])
        else:
            op = jc(K.ugen(rng, mm, piece))
            if K.ustep(mm, slot, op) != 'skip':
                steps.append(['use', 'h', slot, op])
        p *= .7


def rstrategy(rng, big):
    if rng.random() < .25:
        return ['strategy', None]
    s = rng.choice(['all_but_last', 'all_less_maxcount'] + ([] if big else ['all', 'all']))
    m = rng.choice([(32, 32), (10, 20), (2, 40), (4, 4), (33, 31), (11, 5), (3, 1000), (1, 1), (5, 2)])
    if big and s == 'all_but_last':
        m = (32, 32)
    return ['strategy', [s] + list(m)]


def strategies(rng, steps, big):
    """Programs set the strategy before they open a document; some set it back
    before they read the tables."""
    out = []
    for st in steps:
        if st[0] in ('open', 'newt', 'reopen', 'ensure', 'new') and rng.random() < .6:
            out.append(rstrategy(rng, big))
        out.append(st)
        if st[0] in ('open', 'newt', 'reopen'):
            x = rng.random()
            if x < .5:
                out.append(['edit', st[1], ['touch', rng.randrange(3), 'iter']])
                if rng.random() < .4:
                    out.append(rstrategy(rng, big))
            elif x < .53:
                out.append(rstrategy(rng, big))
    return out


def rstream(rng):
    r = ['savestream', 'h', rng.choice([None, None, 0, 1, 5])]
    if rng.random() < .25:
        r.append(rng.choice([1, 11]))
    return r


def other_spec(rng, kind, D):
    if D.name == 'pages':
        return {'dom': 'pages', 'model': jc(DOMAINS['pages'].initial(rng, kind)), 'kind': kind}
    return {'dom': D.name, 'model': jc(D.initial(rng)), 'kind': kind,
            'foreign': {'Pictures/old.png': [rng.randrange(99), 50]} if rng.random() < .5 else {}}


SAVES = ('save', 'saveas')
OPENS = ('open', 'newt', 'reopen', 'ensure')
CONV = ('tobytes', 'savestream')
MUT = ('open_w', 'write', 'fsync', 'rename', 'remove', 'link', 'trunc', 'close', 'mkdir', 'meta')
# kinds of faults tried per property
FK = {
    'C01': ['crash'] * 4, 'C02': ['power'] * 4,
    'C03': ['err'] * 5 + ['short', 'capacity', 'sticky', 'sticky', 'err2'],
    'C04': ['err_any', 'err_any', 'err_save', 'short_read', 'crash', 'adv'],
    'C05': ['err', 'err', 'crash', 'sticky', 'capacity', 'line'],
    'C06': ['rerr'] * 4 + ['short_read', 'short_read', 'sticky_read'],
    'C10': ['crash', 'crash', 'err', 'power'], 'C11': ['crash', 'crash', 'err', 'power'],
    'C12': ['crash', 'err', 'err', 'clock_read', 'power'],
    'C13': ['crash', 'crash', 'err', 'power'], 'C19': ['crash', 'crash', 'err', 'power'],
    'C25': ['crash', 'crash', 'err', 'power'], 'C21': ['crash', 'crash', 'err', 'power'],
    'C15': ['err_conv', 'err_conv', 'err', 'line_conv', 'adv'],
    'C16': ['adv'] * 4 + ['err', 'err', 'crash'],
    'C17': ['clock_read', 'clock_read', 'clock_op', 'clock_line', 'clock_line'],
    'C18': ['line'] * 5 + ['line_mem', 'intr'],
    'C26': ['err', 'err', 'err_conv', 'sticky', 'capacity', 'line', 'line_conv', 'err_save'],
    'C27': ['err', 'err', 'rerr', 'rerr', 'err_any', 'sticky', 'sticky_read', 'capacity', 'short',
            'short_read'],
    'C28': ['err', 'err', 'rerr', 'rerr', 'err_any', 'sticky', 'sticky_read', 'capacity', 'short_read',
            'line', 'line_mem', 'line_conv', 'intr', 'err_conv'],
}


def fault_variant(script, info, rng):
    """A list of faults for one execution (1 to 3 of them), or None."""
    prop = script['prop']
    n = rng.choice([1, 1, 1, 2, 2, 3])
    out = []
    for _ in range(n):
        f = one_fault(script, info, rng, rng.choice(FK[prop]))
        if f is not None:
            out.append(f)
    return out or None


def pick_steps(script, info, types, need):
    r = []
    for i, st in enumerate(script['steps']):
        if st[0] in types and i < len(info) and need(info[i]):
            r.append(i)
    return r


def one_fault(script, info, rng, fk):
    def step(types, need):
        c = pick_steps(script, info, types, need)
        return rng.choice(c) if c else None

    def opn(i, kinds=None):
        ops = info[i]['ops']
        c = [k for k, o in enumerate(ops) if kinds is None or o[0] in kinds]
        # bias: rename-like operations and the ends of the sequence are where
        # states change
        hot = [k for k in c if ops[k][0] in ('rename', 'remove', 'link', 'fsync', 'open_w', 'close')]
        x = rng.random()
        if hot and x < .6:
            return rng.choice(hot)
        if x < .7:
            return c[-1]
        return rng.choice(c)
    hasops = lambda inf: bool(inf['ops'])
    hasmut = lambda inf: any(o[0] in MUT for o in inf['ops'])
    hasread = lambda inf: any(o[0] in ('read', 'open_r', 'stat') for o in inf['ops'])
    if fk in ('crash', 'power'):
        i = step(SAVES, hasmut)
        if i is None:
            return None
        k = opn(i, MUT) if rng.random() < .85 else opn(i)
        f = {'step': i, 'op': k, 'kind': fk, 'when': rng.choice(['before', 'after', 'torn', 'before']),
             'frac': rng.choice([0, .01, .3, .5, .9, .99, 1])}
        if fk == 'power':
            f['cut'] = rng.choice([None, None, 0, .3, .5, .8, 1])
            f['data'] = rng.choice(['durable', 'half', 'zeros', 'full', 'durable'])
        return f
    if fk in ('err', 'err2'):
        i = step(SAVES, hasops)
        if i is None:
            return None
        f = {'step': i, 'op': opn(i, MUT) if rng.random() < .7 and hasmut(info[i]) else opn(i),
             'kind': 'err', 'arg': rng.randrange(4)}
        if rng.random() < .4:
            f['frac'] = rng.choice([.1, .5, .99])
        return f
    if fk in ('err_any', 'err_save', 'err_conv', 'rerr'):
        types = {'err_any': SAVES + OPENS + CONV, 'err_save': SAVES, 'err_conv': CONV + SAVES,
                 'rerr': OPENS}[fk]
        i = step(types, hasops)
        if i is None:
            return None
        return {'step': i, 'op': opn(i) if fk != 'rerr' else rng.randrange(len(info[i]['ops'])),
                'kind': 'err', 'arg': rng.randrange(4)}
    if fk in ('short', 'short_read'):
        want = ('write',) if fk == 'short' else ('read',)
        i = step(SAVES + OPENS + CONV, lambda inf: any(o[0] in want for o in inf['ops']))
        if i is None:
            return None
        return {'step': i, 'op': opn(i, want), 'kind': 'short',
                'frac': rng.choice([.001, .1, .5, .9, .999])}
    if fk in ('sticky', 'sticky_read'):
        i = step(SAVES if fk == 'sticky' else OPENS, hasops)
        if i is None:
            return None
        f = {'step': i, 'op': opn(i), 'kind': 'err', 'arg': rng.randrange(4), 'sticky': True}
        f['on'] = rng.choice([['write'], ['rename'], ['open_w'], ['remove'], ['fsync'],
                              ['write', 'rename', 'remove', 'open_w', 'fsync', 'link']]) \
            if fk == 'sticky' else ['read', 'open_r']
        return f
    if fk == 'capacity':
        i = step(SAVES, hasmut)
        if i is None:
            return None
        tot = sum(o[2] for o in info[i]['ops'] if o[0] == 'write')
        return {'step': i, 'kind': 'capacity', 'bytes': int(tot * rng.choice([0, .1, .5, .9, .999]))}
    if fk == 'adv':
        i = step(SAVES + CONV, hasops)
        if i is None:
            return None
        if rng.random() < .6:
            c = [k for k, o in enumerate(info[i]['ops']) if o[0] in ('open_w', 'stat', 'link', 'rename')]
            return {'step': i, 'op': rng.choice(c) if c else 0, 'kind': 'adv', 'how': 'collide',
                    'n': rng.randrange(9)}
        return {'step': i, 'op': rng.randrange(len(info[i]['ops'])), 'kind': 'adv', 'how': 'file',
                'name': 'adv%d.tmp' % rng.randrange(9), 'n': rng.randrange(9)}
    if fk == 'clock_read':
        i = step(SAVES + OPENS + CONV + ('new', 'edit'), lambda inf: inf['reads'] > 0)
        if i is None:
            return None
        return {'step': i, 'read': rng.randrange(info[i]['reads']), 'kind': 'clock',
                'to': rng.choice(CLOCKS)}
    if fk == 'clock_op':
        i = step(SAVES + OPENS + CONV, hasops)
        if i is None:
            return None
        return {'step': i, 'op': opn(i), 'kind': 'clock', 'to': rng.choice(CLOCKS)}
    if fk in ('line', 'line_mem', 'line_conv', 'clock_line'):
        types = {'line_conv': CONV}.get(fk, SAVES + OPENS + CONV)
        i = step(types, lambda inf: inf['lines'] > 0)
        if i is None:
            return None
        n = info[i]['lines']
        x = rng.random()
        ln = rng.randrange(1, n + 1)
        if x < .35:
            ln = max(1, n - rng.randrange(min(40, n)))     # near the end: renames
        f = {'step': i, 'line': ln, 'kind': 'intr', 'exc': 'mem' if fk == 'line_mem' else 'kbd'}
        if fk == 'clock_line':
            f = {'step': i, 'line': ln, 'kind': 'clock', 'to': rng.choice(CLOCKS)}
        return f
    if fk == 'intr':
        i = step(SAVES + OPENS + CONV, hasops)
        if i is None:
            return None
        return {'step': i, 'op': opn(i), 'kind': 'intr', 'when': rng.choice(['before', 'after']),
                'exc': rng.choice(['kbd', 'mem'])}
    raise ValueError(fk)


RULE = ('One seed generates a script (initial files, document birth, edits, saves, conversions, '
        'reopens, crashes, clock changes, actions of other programs); it is run once without '
        'faults and then with fault variants placed at operations, statements or clock reads the '
        'dry run actually performed. A run is non-trivial when at least one fault fired in it; '
        'distinct counts distinct event-log digests among those.')
REALCOMP = ['all of ezodf', 'lxml', 'zipfile', 'io buffering layers', 'kernel file system '
            '(scratch directory, every call intercepted)']
STUBS = ['system clock', 'os.urandom / random seeding / tempfile names', 'process identity, crash '
         'and restart', 'stable storage (which unflushed data and directory changes survive)',
         'weakref.WeakSet iteration order (insertion order)']
ASSUME = ['single-threaded user of one document at a time in this engine (concurrency is decided '
          'by C07-C09)', 'directory changes survive power loss as a prefix of their order; '
          'unflushed file data may survive fully, partly, as zeros or not at all',
          'rename within a directory is atomic']
