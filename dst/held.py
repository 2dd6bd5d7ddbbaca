"""Objects a program keeps: marked in the model, used later through the object
obtained earlier.  A mark ('hid') lives on the piece of the model, moves with it
and vanishes with it."""
import copy
import sys

from lxml import etree

from .dom import Mismatch, Meta, Pages, Sheet, Styles, Text, Vars, STYLES, rtext
from .pkg import q


def unmark(x, slot):
    """slot None: all of them."""
    if isinstance(x, dict):
        if slot is None or x.get('hid') == slot:
            x.pop('hid', None)
        for v in x.values():
            unmark(v, slot)
    elif isinstance(x, list):
        for v in x:
            unmark(v, slot)


def find(x, slot):
    """The marked piece (a dict), or None."""
    if isinstance(x, dict):
        if x.get('hid') == slot:
            return x
        x = list(x.values())
    if isinstance(x, list):
        for v in x:
            r = find(v, slot)
            if r is not None:
                return r
    return None


# ---------------------------------------------------------------------- text

class HText(object):
    @staticmethod
    def sel(rng, m):
        if not m['b'] or rng.random() < .25:
            return ['new', Text.rblock(rng), rng.randrange(2)]
        i = rng.randrange(len(m['b']))
        b = m['b'][i]
        if b['t'] == 'sec' and b['b'] and rng.random() < .5:
            return [i, rng.randrange(len(b['b']))]
        return [i]

    @staticmethod
    def piece(m, sel):
        B = m['b']
        if sel[0] == 'new':
            b = copy.deepcopy(sel[1])
            if sel[2] and B:
                B.insert(0, b)
            else:
                B.append(b)
            return b
        if sel[0] >= len(B):
            return None
        b = B[sel[0]]
        if len(sel) > 1:
            if b['t'] != 'sec' or sel[1] >= len(b['b']):
                return None
            b = b['b'][sel[1]]
        return b

    @staticmethod
    def grab(ez, doc, m, sel):
        if sel[0] == 'new':
            o = Text.mk(ez, sel[1])
            if sel[2] and len(m['b']) > 1:
                doc.body.insert(Text.idx(doc.body)[0], o)
            else:
                doc.body.append(o)
            return o
        o = doc.body[Text.idx(doc.body)[sel[0]]]
        for i in sel[1:]:
            o = o[i]
        return o

    @staticmethod
    def ugen(rng, m, p):
        t = p['t'] if p else rng.choice(['p', 'list', 'sec', 'np'])
        x = rng.random()
        if x < .12 and m['b']:
            return ['mv', rng.randrange(len(m['b'])), rng.randrange(3)]
        if t in ('p', 'h'):
            if x < .5:
                return ['txt', rtext(rng)]
            return rng.choice([['style', rng.choice(STYLES[1:])], ['span', rtext(rng), 'S1'],
                               ['del'], ['insb', rtext(rng)]])
        if t == 'list':
            return rng.choice([['li', rtext(rng)], ['li', rtext(rng)], ['style', 'S1'], ['del']])
        if t == 'sec':
            return rng.choice([['sub', rtext(rng)], ['sub', rtext(rng)], ['name', 'X1'], ['del']])
        return ['nptxt', rtext(rng)]

    FITS = {'txt': 'ph', 'span': 'ph', 'li': ('list',), 'sub': ('sec',), 'name': ('sec',),
            'nptxt': ('np',), 'style': ('p', 'h', 'list', 'sec')}

    @staticmethod
    def ustep(m, slot, op):
        b = find(m, slot)
        k = op[0]
        if b is None:
            return 'gone' if k not in ('mv', 'insb') else 'skip'
        if k in HText.FITS and b['t'] not in HText.FITS[k]:
            return 'skip'
        if k == 'txt' or k == 'nptxt':
            b['r'].append(['t', op[1]])
        elif k == 'span':
            b['r'].append(['s', op[1], op[2]])
        elif k == 'style':
            b['s'] = op[1]
        elif k == 'li':
            b['i'].append(op[1])
        elif k == 'sub':
            b['b'].append({'t': 'p', 's': '', 'r': [['t', op[1]]]})
        elif k == 'name':
            b['n'] = op[1]
        elif k == 'mv':
            if op[1] >= len(m['b']) or m['b'][op[1]] is b:
                return 'skip'
            x = m['b'][op[1]]
            if x['t'] == 'sec' and any(y is b for y in x['b']) and op[2] < 2:
                return 'skip'
            for B in [m['b']] + [y['b'] for y in m['b'] if y['t'] == 'sec']:
                B[:] = [y for y in B if y is not b]
            if op[2] == 2:
                m['b'].append(b)
            else:
                m['b'].insert([y is x for y in m['b']].index(True), b)
        else:
            for B in [m['b']] + [x['b'] for x in m['b'] if x['t'] == 'sec']:
                for i, x in enumerate(B):
                    if x is b:
                        if k == 'del':
                            del B[i]
                        else:
                            B.insert(i, {'t': 'p', 's': '', 'r': [['t', op[1]]]})
                        return 'ok'
            return 'skip'
        return 'ok'

    @staticmethod
    def uapply(ez, doc, o, op):
        k = op[0]
        if k == 'txt':
            o.append_text(op[1])
        elif k == 'nptxt':
            o.content.append_text(op[1])
        elif k == 'span':
            o.append(ez.Span(op[1], style_name=op[2]))
        elif k == 'style':
            o.style_name = op[1]
        elif k == 'li':
            o.append(ez.ListItem(op[1]))
        elif k == 'sub':
            o.append(ez.Paragraph(op[1]))
        elif k == 'name':
            o.name = op[1]
        elif k == 'mv':
            # an element that has a place already moves to the new one
            i = Text.idx(doc.body)[op[1]] if op[1] < len(Text.idx(doc.body)) else 0
            if op[2] == 2:
                doc.body.append(o)
            elif op[2]:
                doc.body.insert_before(doc.body[i], o)
            else:
                doc.body.insert(i, o)
        else:
            par = doc.body
            if o.xmlnode.getparent() is not doc.body.xmlnode:
                par = [c for c in doc.body if c.kind == 'Section'
                       and c.xmlnode is o.xmlnode.getparent()][0]
            if k == 'del':
                par.remove(o)
            else:
                par.insert_before(o, ez.Paragraph(op[1]))

    @staticmethod
    def uread(doc, o, m, b):
        if Text.oblock(o) != Text.vblock(b):
            raise Mismatch('a kept %s reads %r, expected %r' % (o.kind, Text.oblock(o), Text.vblock(b)))
        for i, x in enumerate(m['b']):
            if x is b and doc.body.index(o) != Text.idx(doc.body)[i]:
                raise Mismatch('index() of a kept %s' % o.kind)


# --------------------------------------------------------------------- sheet

class HSheet(object):
    @staticmethod
    def sel(rng, m):
        if not m['sh'] or rng.random() < .08:
            return ['new', 'N%d' % rng.randrange(99)]
        si = rng.randrange(len(m['sh']))
        s = m['sh'][si]
        x = rng.random()
        if x < .15:
            return ['cn', si, rng.randrange(len(s['c'])), rng.randrange(len(s['c'][0])),
                    rng.randrange(100)]
        if x < .6:
            return ['c', si, rng.randrange(len(s['c'])), rng.randrange(len(s['c'][0])),
                    rng.randrange(4)]
        if x < .75:
            return ['s', si, rng.randrange(3)]
        if x < .88:
            return ['r', si, rng.randrange(len(s['ri']))]
        return ['k', si, rng.randrange(len(s['ci']))]

    @staticmethod
    def piece(m, sel):
        if sel[0] == 'new':
            m['sh'].append(Sheet.new_sheet(sel[1], 2, 2))
            return m['sh'][-1]
        if sel[1] >= len(m['sh']):
            return None
        s = m['sh'][sel[1]]
        if sel[0] == 's':
            return s
        if sel[0] in ('c', 'cn'):
            if sel[2] >= len(s['c']) or sel[3] >= len(s['c'][0]):
                return None
            c = s['c'][sel[2]][sel[3]]
            if sel[0] == 'cn':
                if c.get('sp') or c.get('cov'):
                    return None
                c = s['c'][sel[2]][sel[3]] = {}
                Sheet.setv(c, sel[4], None, None)
            return c
        L = s['ri' if sel[0] == 'r' else 'ci']
        return L[sel[2]] if sel[2] < len(L) else None

    @staticmethod
    def grab(ez, doc, m, sel):
        if sel[0] == 'new':
            t = ez.Sheet(sel[1], size=(2, 2))
            doc.sheets.append(t)
            return t
        t = doc.sheets[sel[1]]
        if sel[0] == 'cn':
            o = ez.Cell(sel[4])
            t[sel[2], sel[3]] = o
            return o
        if sel[0] == 's':
            if sel[2] == 1:
                return list(doc.sheets)[sel[1]]
            if sel[2] == 2:
                return [e for e in doc.body if e.kind == 'Table'][sel[1]]
            return t
        if sel[0] == 'c':
            r, c = sel[2:4]
            if sel[4] == 1:
                return t.row(r)[c]
            if sel[4] == 2:
                return t.column(c)[r]
            if sel[4] == 3:
                return [x for p, x in t.itercells() if p == (r, c)][0]
            return t[r, c]
        return t.row_info(sel[2]) if sel[0] == 'r' else t.column_info(sel[2])

    @staticmethod
    def what(m, p):
        for s in m['sh']:
            if s is p:
                return 's'
            if any(x is p for x in s['ri']) or any(x is p for x in s['ci']):
                return 'r'
        return 'c'

    @staticmethod
    def ugen(rng, m, p):
        w = HSheet.what(m, p) if p is not None else rng.choice('csr')
        if w == 's':
            return rng.choice([['name', 'K%d' % rng.randrange(99)],
                               ['at', rng.randrange(3), rng.randrange(3), rng.randrange(99)],
                               ['at', rng.randrange(3), rng.randrange(3), rng.randrange(99)],
                               ['approws', 1]])
        if w == 'r':
            return ['info', rng.choice([['style_name', 'ro%d' % rng.randrange(9)],
                                        ['visibility', rng.choice(['collapse', 'visible'])]])]
        if rng.random() < .7:
            return ['val'] + list(Sheet.rvalue(rng))
        return rng.choice([['attr', 'style_name', 'ce%d' % rng.randrange(9)],
                           ['prot', rng.random() < .5],
                           ['attr', 'formula', 'of:=[.A%d]' % rng.randrange(1, 9)]])

    @staticmethod
    def ustep(m, slot, op):
        p = find(m, slot)
        if p is None:
            return 'gone'
        w = HSheet.what(m, p)
        k = op[0]
        if {'name': 's', 'at': 's', 'approws': 's', 'info': 'r'}.get(k, 'c') != w:
            return 'skip'
        if k == 'name':
            p['n'] = op[1]
        elif k == 'at':
            if op[1] >= len(p['c']) or op[2] >= len(p['c'][0]):
                return 'skip'
            Sheet.setv(p['c'][op[1]][op[2]], op[3], None, None)
        elif k == 'approws':
            p['c'].append([{} for _ in p['c'][0]])
            p['ri'].append({})
        elif k == 'info':
            p[op[1][0]] = op[1][1]
        elif k == 'val':
            Sheet.setv(p, *op[1:])
        elif k == 'attr':
            p[op[1]] = op[2]
        else:
            p['prot'] = op[1]
        return 'ok'

    @staticmethod
    def uapply(ez, doc, o, op):
        k = op[0]
        if k == 'name':
            o.name = op[1]
        elif k == 'at':
            o[op[1], op[2]].set_value(op[3])
        elif k == 'approws':
            o.append_rows(1)
        elif k == 'info':
            setattr(o, *op[1])
        elif k == 'val':
            if op[3]:
                o.set_value(op[1], currency=op[3])
            elif op[2]:
                o.set_value(op[1], op[2])
            else:
                o.set_value(op[1])
        elif k == 'attr':
            setattr(o, op[1], op[2])
        else:
            o.protected = op[1]

    @staticmethod
    def uread(doc, o, m, p):
        w = HSheet.what(m, p)
        if w == 'c':
            got, want = Sheet.ocell(o), Sheet.vcell(p)
        elif w == 's':
            got = [o.name, o.nrows(), o.ncols()]
            want = [p['n'], len(p['c']), len(p['c'][0])]
            i = [j for j, s in enumerate(m['sh']) if s is p][0]
            if doc.sheets.index(o) != i:
                raise Mismatch('index() of a kept sheet')
        else:
            got = [o.style_name, o.visibility, o.default_cell_style_name]
            want = [p.get('style_name'), p.get('visibility', 'visible'), p.get('default_cell_style_name')]
        if got != want:
            raise Mismatch('a kept %s reads %r, expected %r' % (o.kind, got, want))


# --------------------------------------------------------------------- pages

class HPages(object):
    @staticmethod
    def sel(rng, m):
        if not m['l'] or rng.random() < .25:
            return ['new', ['N%d' % rng.randrange(99), 'n%d' % rng.randrange(999)], rng.randrange(2)]
        return [rng.randrange(len(m['l'])), rng.randrange(3)]

    @staticmethod
    def piece(m, sel):
        if sel[0] == 'new':
            e = list(sel[1])
            m['l'].insert(0 if sel[2] else len(m['l']), e)
        elif sel[0] >= len(m['l']):
            return None
        else:
            e = m['l'][sel[0]]
        if len(e) < 3:
            e.append({})
        return e[2]

    @staticmethod
    def entry(m, p):
        for i, e in enumerate(m['l']):
            if len(e) > 2 and e[2] is p:
                return i
        return None

    @staticmethod
    def grab(ez, doc, m, sel):
        S = Pages.coll(doc, m)
        if sel[0] == 'new':
            o = Pages.mk(ez, m, sel[1])
            if sel[2]:
                S.insert(0, o)
            else:
                S.append(o)
            return o
        if sel[1] == 1:
            return list(S)[sel[0]]
        return S[sel[0] - len(m['l'])] if sel[1] else S[sel[0]]

    @staticmethod
    def ugen(rng, m, p):
        if m['l'] and rng.random() < .2:
            return ['mv', rng.randrange(len(m['l'])), rng.randrange(2)]
        return rng.choice([['name', 'K%d' % rng.randrange(99)], ['mark', 'u%d' % rng.randrange(999)],
                           ['mark', 'u%d' % rng.randrange(999)]])

    @staticmethod
    def ustep(m, slot, op):
        p = find(m, slot)
        if op[0] == 'mv':
            i = p and HPages.entry(m, p)
            if p is None or op[1] >= len(m['l']) or i == op[1]:
                return 'skip'
            x, e = m['l'][op[1]], m['l'][i]
            del m['l'][i]
            m['l'].insert([y is x for y in m['l']].index(True) if op[2] else len(m['l']), e)
            return 'ok'
        if p is None:
            return 'gone'
        e = m['l'][HPages.entry(m, p)]
        e[0 if op[0] == 'name' else 1] = op[1]
        return 'ok'

    @staticmethod
    def uapply(ez, doc, o, op):
        if op[0] == 'name':
            o.name = op[1]
        elif op[0] == 'mv':
            S = doc.sheets if o.kind == 'Table' else doc.pages
            if op[2]:
                S.insert(op[1], o)
            else:
                S.append(o)
        else:
            Pages.setmark(o, {'k': 'ods' if o.kind == 'Table' else 'odg'}, op[1])

    @staticmethod
    def uread(doc, o, m, p):
        i = HPages.entry(m, p)
        got, want = [o.name, Pages.mark(o, m)], m['l'][i][:2]
        if got != want:
            raise Mismatch('a kept page reads %r, expected %r' % (got, want))
        if Pages.coll(doc, m).index(o) != i:
            raise Mismatch('index() of a kept page')


# -------------------------------------------------------------------- styles

class HStyles(object):
    @staticmethod
    def sel(rng, m):
        c = [k for k in sorted(Styles.CONT) if m.get(k)]
        if not c or rng.random() < .25:
            c = rng.choice(['st', 'st', 'au', 'ma', 'fo'])
            tag = rng.choice(Styles.CONT[c][1])
            return ['new', c, Styles.rstyle(rng, None, tag)]
        c = rng.choice(c)
        return [c, rng.choice(m[c])['n']]

    @staticmethod
    def piece(m, sel):
        if sel[0] == 'new':
            Styles.step(m, ['put', sel[2], sel[1]])
            return Styles.first(m, sel[2]['n'], sel[1])
        if m.get('flat') and sel[0] in ('ca', 'cf'):
            return None
        return Styles.first(m, sel[1], sel[0])

    @staticmethod
    def grab(ez, doc, m, sel):
        if sel[0] == 'new':
            o = sys.modules['ezodf.xmlns'].wrap(etree.fromstring(Styles.xml(sel[2], True)))
            Styles.cont(doc, sel[1])[sel[2]['n']] = o
            return o
        return Styles.cont(doc, sel[0])[sel[1]]

    @staticmethod
    def ugen(rng, m, p):
        tag = p.get('t', 'style:style') if p else 'style:style'
        if rng.random() < .3:
            return ['name', 'K%d' % rng.randrange(99)]
        return ['attr', rng.choice(sorted(Styles.ATTRS[tag])), 'k%d' % rng.randrange(99)]

    @staticmethod
    def ustep(m, slot, op):
        p = find(m, slot)
        if p is None:
            return 'gone'
        if op[0] == 'name':
            p['n'] = op[1]
        elif op[1] not in Styles.ATTRS[p.get('t', 'style:style')]:
            return 'skip'
        else:
            p['a'][op[1]] = op[2]
        return 'ok'

    @staticmethod
    def uapply(ez, doc, o, op):
        tag = [t for t in Styles.ATTRS if q(t) == o.xmlnode.tag][0]
        if op[0] == 'name':
            if tag in Styles.MAPPED:
                o['name'] = op[1]
            else:
                o.xmlnode.set(q('style:name'), op[1])
        elif tag in Styles.MAPPED:
            o[op[1]] = op[2]
        else:
            o.xmlnode.set(q(Styles.ATTRS[tag][op[1]]), op[2])

    @staticmethod
    def uread(doc, o, m, p):
        got = Styles.ostyle(o.xmlnode)
        want = Styles.row(p.get('t', 'style:style'), p['n'], p['f'], p['a'], p['c'])
        if got != want:
            raise Mismatch('a kept style reads %r, expected %r' % (got, want))


# ------------------------------------------------------------ variables, meta

class HVars(object):
    @staticmethod
    def sel(rng, m):
        n = [[k, x] for k in 'vu' for x in sorted(m[k])]
        return rng.choice(n) + [rng.randrange(2)] if n else None

    @staticmethod
    def piece(m, sel):
        if sel[1] not in m[sel[0]]:
            return None
        return m.setdefault('held', {}).setdefault(sel[0] + sel[1], {'k': sel[0], 'n': sel[1]})

    @staticmethod
    def grab(ez, doc, m, sel):
        return (doc.body.variables if sel[0] == 'v' else doc.body.userfields)[sel[1]]

    @staticmethod
    def ugen(rng, m, p):
        return ['set', Vars.rval(rng)]

    @staticmethod
    def ustep(m, slot, op):
        p = find(m, slot)
        if p is None:
            return 'gone'
        m[p['k']][p['n']] = op[1]
        return 'ok'

    @staticmethod
    def uapply(ez, doc, o, op):
        o.value = op[1]

    @staticmethod
    def uread(doc, o, m, p):
        got = [o.type, o.value if o.value is not None else '']
        want = Vars.nv(m[p['k']][p['n']])
        if got != want:
            raise Mismatch('a kept variable reads %r, expected %r' % (got, want))


class HMeta(object):
    @staticmethod
    def sel(rng, m):
        return [rng.choice(['meta', 'keywords', 'usertags', 'count'])]

    @staticmethod
    def piece(m, sel):
        return m.setdefault('held', {}).setdefault(sel[0], {'w': sel[0]})

    @staticmethod
    def grab(ez, doc, m, sel):
        return doc.meta if sel[0] == 'meta' else getattr(doc.meta, sel[0])

    @staticmethod
    def ugen(rng, m, p):
        for _ in range(30):
            op = Meta.gen(rng, m)
            if HMeta.fits(op) == (p or {}).get('w', 'meta'):
                return op
        return ['f', 'title', 'kept'] if (p or {}).get('w') == 'meta' else op

    @staticmethod
    def fits(op):
        return {'f': 'meta', 'k': 'keywords', 'u': 'usertags', 's': 'count'}.get(
            op[0][0] if op[0] not in ('clear', 'badf', 'nop') else 'x')

    @staticmethod
    def ustep(m, slot, op):
        p = find(m, slot)
        if p is None:
            return 'gone'
        if HMeta.fits(op) != p['w']:
            return 'skip'
        r = Meta.step(m, op)
        return r if r == 'ok' else 'skip'

    @staticmethod
    def uapply(ez, doc, o, op):
        class D(object):
            meta = o
        if op[0][0] in 'kus' and op[0] != 'f':
            D.meta = type(str('M'), (object,), {HMeta.fits(op): o})
        Meta.apply(ez, D, op, None)

    @staticmethod
    def uread(doc, o, m, p):
        w = p['w']
        v = Meta.view(m)
        if w == 'meta':
            got = {}
            for f in v[0]:
                try:
                    got[f] = o[f]
                except KeyError:
                    got[f] = None
            want = v[0]
        elif w == 'keywords':
            got, want = list(o), v[1]
        elif w == 'usertags':
            got, want = sorted(n for n, x in o), sorted(x[0] for x in v[2])
        else:
            got, want = {k: o[k] for k in v[3]}, v[3]
        if got != want:
            raise Mismatch('kept %s reads %r, expected %r' % (w, got, want))


H = {'text': HText, 'sheet': HSheet, 'pages': HPages, 'styles': HStyles, 'vars': HVars,
     'meta': HMeta}
