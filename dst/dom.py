"""Workload domains: builder of an initial document, trivial reference model,
operation generator, application to the real API, and observation.

A model is plain JSON data; an operation is a JSON list.  `step(model, op)`
returns 'ok' (model updated) or 'rej' (the API must raise; model unchanged).
"""
import copy
import sys

from lxml import etree

from .pkg import sub, q

WORDS = ['alpha', 'beta', 'gamma', 'x', 'Grüße', 'Ω', 'long text with words', '0', 'true', '日本']
STYLES = ['', 'S1', 'Standard', 'Heading_20_1']


def rtext(rng, ws=True):
    n = rng.choice([1, 1, 2, 3, 5])
    out = []
    for _ in range(n):
        out.append(rng.choice(WORDS))
        if ws:
            out.append(rng.choice(['', ' ', '  ', '   ', '\t', '\n', ' \n', '\t ', '    ', '\n\n']))
    s = ''.join(out)
    if ws and rng.random() < .02:
        s += rng.choice([' ' * 101, ' ' * 150 + 'x', '\t' * 40, 'w' * 5000])
    if ws and rng.random() < .25:
        s = rng.choice([' ', '  ', '\t', '\n', '   ']) + s
    return s


class Mismatch(Exception):
    pass


def expect(a, b, what):
    if a != b:
        raise Mismatch('%s: got %s, expected %s' % (what, short(a), short(b)))


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


# ====================================================================== text

DECLS = (q('text:variable-decls'), q('text:user-field-decls'))
EPI = (q('table:named-expressions'), q('table:database-ranges'))


def text_xml(parent, tag, text, **attrs):
    """Write `text` with ODF whitespace markup under a new element."""
    e = sub(parent, tag, None, **attrs)
    put_text(e, text)
    return e


def put_text(e, text):
    last = e[-1] if len(e) else None

    def add(s):
        if last is None:
            e.text = (e.text or '') + s
        else:
            last.tail = (last.tail or '') + s
    i = 0
    while i < len(text):
        c = text[i]
        if c == '\n':
            last = sub(e, 'text:line-break')
        elif c == '\t':
            last = sub(e, 'text:tab')
        elif c == ' ':
            j = i
            while j < len(text) and text[j] == ' ':
                j += 1
            add(' ')
            if j - i > 1:
                last = sub(e, 'text:s')
                if j - i > 2:
                    last.set(q('text:c'), str(j - i - 1))
            i = j
            continue
        else:
            add(c)
        i += 1


def unheld(x):
    """A copy of a piece a program keeps is another piece."""
    if isinstance(x, dict):
        x.pop('hid', None)
        for v in x.values():
            unheld(v)
    elif isinstance(x, list):
        for v in x:
            unheld(v)
    return x


class Text(object):
    name = 'text'
    kind = 'odt'
    prop = 'C11'

    @staticmethod
    def empty():
        return {'b': [], 'epi': 0}

    @staticmethod
    def rblock(rng, nest=True):
        t = rng.choice(['p', 'p', 'p', 'h', 'list', 'sec', 'sec', 'np'] if nest else
                       ['p', 'p', 'h', 'list'])
        st = rng.choice(STYLES)
        if t == 'p':
            return {'t': 'p', 's': st, 'r': [['t', rtext(rng)]] if rng.random() < .9 else []}
        if t == 'h':
            return {'t': 'h', 's': st, 'l': rng.choice([1, 2, 3]), 'r': [['t', rtext(rng)]]}
        if t == 'np':
            return {'t': 'np', 'l': rng.choice([1, 2]), 'r': [['t', rtext(rng)]]}
        if t == 'list':
            return {'t': 'list', 's': st, 'hd': rng.choice([None, 'Head', rtext(rng)]),
                    'i': [rtext(rng) for _ in range(rng.randrange(4))]}
        return {'t': 'sec', 's': st, 'n': rng.choice(['', 'N1', 'Sec 2']),
                'b': [Text.rblock(rng, False) for _ in range(rng.randrange(3))]}

    @staticmethod
    def initial(rng):
        B = [Text.rblock(rng) for _ in range(rng.randrange(4))]
        for b in B:
            if b['t'] in ('p', 'h') and rng.random() < .4:
                for _ in range(rng.randrange(1, 4)):
                    b['r'].append(rng.choice([['s', rtext(rng), 'S1'], ['a', rtext(rng), 'http://a/'],
                                              ['t', rtext(rng)]]))
        return {'b': B, 'pretty': rng.random() < .2,
                'epi': rng.choice([0, 0, 1, 2])}

    @staticmethod
    def build(m):
        def block(p, b):
            if b['t'] == 'np':
                e = sub(p, 'text:numbered-paragraph', text_level=str(b['l']))
                e = sub(e, 'text:p')
                put_text(e, b['r'][0][1])
            elif b['t'] in ('p', 'h'):
                e = sub(p, 'text:' + b['t'])
                if b['s']:
                    e.set(q('text:style-name'), b['s'])
                if b['t'] == 'h':
                    e.set(q('text:outline-level'), str(b['l']))
                for r in b['r']:
                    c = e
                    if r[0] == 's':
                        c = sub(e, 'text:span')
                        if r[2]:
                            c.set(q('text:style-name'), r[2])
                    elif r[0] == 'a':
                        c = sub(e, 'text:a')
                        c.set(q('xlink:href'), r[2])
                    put_text(c, r[1])
            elif b['t'] == 'list':
                e = sub(p, 'text:list')
                if b['s']:
                    e.set(q('text:style-name'), b['s'])
                if b['hd'] is not None:
                    h = sub(e, 'text:list-header')
                    if b['hd']:
                        text_xml(h, 'text:p', b['hd'])
                for it in b['i']:
                    li = sub(e, 'text:list-item')
                    if it:
                        text_xml(li, 'text:p', it)
            else:
                e = sub(p, 'text:section')
                if b['s']:
                    e.set(q('text:style-name'), b['s'])
                if b['n']:
                    e.set(q('text:name'), b['n'])
                for c in b['b']:
                    block(e, c)

        def cb(body):
            for b in m['b']:
                block(body, b)
            if m.get('pretty'):
                for e in body:
                    e.tail = '\n  '
            for i in range(m['epi']):
                body.append(body.makeelement(EPI[i]))
        return cb

    PROPS = {'p': [('cond_style_name', ['C1', 'C2']), ('ID', ['id1', 'x'])],
             'h': [('restart_numbering', [True, False]), ('suppress_numbering', [True, False]),
                   ('start_value', [1, 7, 0])],
             'list': [('continue_numbering', [True, False])],
             'sec': [('protected', [True, False])]}

    @staticmethod
    def gen(rng, m):
        return Text.genl(rng, m['b'], True)

    @staticmethod
    def genl(rng, B, nest):
        n = len(B)
        c = rng.random()
        if n == 0 or c < .25:
            return ['add', Text.rblock(rng, nest)]
        i = rng.randrange(n)
        b = B[i]
        if c < .32:
            return ['ins', i, Text.rblock(rng, nest)]
        if c < .37:
            return ['del', i, rng.randrange(2)]
        if c < .42:
            return ['set', i, Text.rblock(rng, nest), rng.randrange(2)]
        if c < .45:
            return ['insb', i, Text.rblock(rng, nest)]
        if c < .47:
            return ['mov', i, rng.randrange(n)]
        if c < .48:
            return rng.choice([['self', i, rng.randrange(2)], ['nochild', i, rng.randrange(7)]])
        if c < .495:
            return ['take', i, rng.randrange(n), rng.randrange(5)]
        if c < .51:
            return ['style', i, rng.choice(STYLES[1:])]
        if c < .53:
            return ['wipe', i]
        if c < .57 and b['t'] in Text.PROPS:
            k, v = rng.choice(Text.PROPS[b['t']])
            return ['prop', i, k, rng.choice(v)]
        if b['t'] in ('p', 'h'):
            nr = sum(1 for r in b['r'] if r[0] in 'sa')
            if nr and c < .72:
                k = rng.randrange(nr)
                x = rng.random()
                if x < .06:
                    return ['nochild', i, rng.choice([0, 4, 5])]
                if x < .2:
                    return ['rclr', i, k]
                if x < .35:
                    return ['rrm', i, k, rng.randrange(2)]
                if x < .6:
                    return ['rset', i, k, rtext(rng), rng.choice(STYLES), rng.randrange(2)]
                if x < .8:
                    return ['rins', i, k, rtext(rng), rng.choice(STYLES)]
                if x < .92:
                    if rng.random() < .4:       # beside or in place of itself or a neighbour
                        return ['rmv', i, k, i, max(0, k + rng.randrange(-1, 2)), rng.randrange(4)]
                    return ['rmv', i, k, rng.choice([i, rng.randrange(n), rng.randrange(n)]),
                            rng.randrange(3), rng.randrange(4)]
                return ['rtxt', i, k, rtext(rng)]
            if c < .80:
                return ['txt', i, rtext(rng)]
            if c < .87:
                return ['span', i, rtext(rng), rng.choice(STYLES)]
            if c < .92:
                return ['link', i, 'http://example.org/%d' % rng.randrange(9), rtext(rng)]
            if c < .95:
                return ['wel', i, rng.choice(['\n', '\t', ' ']), rng.choice([1, 2, 5])]
            if b['t'] == 'h' and c < .98:
                return ['lvl', i, rng.choice([1, 2, 5, 0, -3])]
            return ['txt', i, rng.choice([' ', '\n', '\t', '   ', ' x', 'x '])]
        if b['t'] == 'np':
            return ['npl', i, rng.choice([1, 3, 0])] if c < .8 else ['nptxt', i, rtext(rng)]
        if b['t'] == 'list':
            if b['i'] and c > .75:
                j = rng.randrange(len(b['i']))
                return rng.choice([['lidel', i, j], ['liset', i, j, rtext(rng)],
                                   ['liins', i, j, rtext(rng)], ['lifst', i, rtext(rng)]])
            return ['li', i, rtext(rng)] if c < .70 else ['lhead', i, rtext(rng)]
        return ['sec', i, Text.genl(rng, b['b'], rng.random() < .2)]

    @staticmethod
    def step(m, op):
        return Text.stepl(m['b'], op)

    @staticmethod
    def stepl(B, op):
        k = op[0]
        if k == 'add':
            B.append(copy.deepcopy(op[1]))
            return 'ok'
        i = op[1]
        if i >= len(B):
            return 'skip'
        b = B[i]
        t = b['t']
        if k in ('ins', 'insb'):
            B.insert(i, copy.deepcopy(op[2]))
        elif k == 'del':
            del B[i]
        elif k == 'mov':
            if op[2] >= len(B):
                return 'skip'
            del B[i]
            B.insert(op[2], b)
        elif k == 'set':
            B[i] = copy.deepcopy(op[2])
        elif k == 'self':
            pass
        elif k == 'take':
            # another use of an element which is part of the document moves it
            if op[2] >= len(B):
                return 'skip'
            o, how = B[op[2]], op[3]
            if how == 4:
                if o['t'] != 'sec' or o is b:
                    return 'skip'
                del B[i]
                o['b'].append(b)
            elif how == 0:
                del B[i]
                B.append(b)
            elif o is not b:
                del B[i]
                j = [x is o for x in B].index(True)
                if how in (1, 2):
                    B.insert(j, b)
                else:
                    B[j] = b
        elif k == 'nochild':
            if not (t in ('p', 'h') and any(x[0] in 'sa' for x in b['r']) or
                    t == 'sec' and b['b'] or t == 'list' and b['i']):
                return 'skip'
            return 'rej'
        elif k == 'wipe':
            b.pop('q', None)
            b['s'] = ''
            if t in ('p', 'h'):
                b['r'] = []
                if t == 'h':
                    b['l'] = 1
            elif t == 'list':
                b['hd'] = None
                b['i'] = []
            elif t == 'sec':
                b['n'] = ''
                b['b'] = []
            else:
                return 'skip'
        elif k == 'style':
            if t == 'np':
                return 'skip'
            b['s'] = op[2]
        elif k == 'prop':
            if op[2] not in [x[0] for x in Text.PROPS.get(t, ())]:
                return 'skip'
            v = op[3]
            b.setdefault('q', {})[op[2]] = max(1, v) if op[2] == 'start_value' else v
        elif k in ('txt', 'span', 'link', 'lvl', 'wel'):
            if t not in ('p', 'h'):
                return 'skip'
            if k == 'txt':
                b['r'].append(['t', op[2]])
            elif k == 'span':
                b['r'].append(['s', op[2], op[3]])
            elif k == 'link':
                b['r'].append(['a', op[3], op[2]])
            elif k == 'wel':
                b['r'].append(['t', op[2] * (op[3] if op[2] == ' ' else 1)])
            elif t == 'h':
                b['l'] = max(1, op[2])
            else:
                return 'skip'
        elif k == 'rmv':
            if t not in ('p', 'h') or op[3] >= len(B) or B[op[3]]['t'] not in ('p', 'h'):
                return 'skip'
            pos = [r for r in b['r'] if r[0] in 'sa']
            R = B[op[3]]['r']
            dst = [r for r in R if r[0] in 'sa']
            if op[2] >= len(pos) or op[5] and op[4] >= len(dst):
                return 'skip'
            r = pos[op[2]]
            o = dst[op[4]] if op[5] else None
            if o is not r:
                del b['r'][[x is r for x in b['r']].index(True)]
                j = [x is o for x in R].index(True) if op[5] else len(R)
                if op[5] < 2:
                    R.insert(j, r)
                else:
                    R[j] = r
        elif k in ('rrm', 'rset', 'rins', 'rtxt', 'rclr'):
            if t not in ('p', 'h'):
                return 'skip'
            pos = [j for j, r in enumerate(b['r']) if r[0] in 'sa']
            if op[2] >= len(pos):
                return 'skip'
            j = pos[op[2]]
            if k == 'rrm':
                del b['r'][j]
            elif k == 'rclr':
                if b['r'][j][0] != 's':
                    return 'skip'
                b['r'][j] = ['s', '', '']
            elif k == 'rset':
                b['r'][j] = ['s', op[3], op[4]]
            elif k == 'rins':
                b['r'].insert(j, ['s', op[3], op[4]])
            else:
                b['r'][j][1] += op[3]
        elif k in ('npl', 'nptxt'):
            if t != 'np':
                return 'skip'
            if k == 'npl':
                b['l'] = max(1, op[2])
            else:
                b['r'].append(['t', op[2]])
        elif k in ('li', 'lhead', 'lidel', 'liset', 'liins', 'lifst'):
            if t != 'list':
                return 'skip'
            if k == 'li':
                b['i'].append(op[2])
            elif k == 'lifst':
                b['i'].insert(0, op[2])
            elif k == 'lhead':
                b['hd'] = op[2]
            elif op[2] >= len(b['i']):
                return 'skip'
            elif k == 'lidel':
                del b['i'][op[2]]
            elif k == 'liset':
                b['i'][op[2]] = op[3]
            else:
                b['i'].insert(op[2], op[3])
        elif k == 'sec':
            if t != 'sec':
                return 'skip'
            return Text.stepl(b['b'], op[2])
        return 'ok'

    @staticmethod
    def mk(ez, b):
        if b['t'] == 'p':
            o = ez.Paragraph(''.join(r[1] for r in b['r']), style_name=b['s'])
        elif b['t'] == 'h':
            o = ez.Heading(''.join(r[1] for r in b['r']), outline_level=b['l'],
                           style_name=b['s'])
        elif b['t'] == 'np':
            o = ez.NumberedParagraph(ez.Paragraph(''.join(r[1] for r in b['r'])))
            o.level = b['l']
        elif b['t'] == 'list':
            if b['hd']:
                o = ez.ezlist(b['i'], header=b['hd'], style_name=b['s'])
            else:
                o = ez.List(style_name=b['s'])
                if b['hd'] is not None:
                    o.header = ez.ListHeader(b['hd'])
                for it in b['i']:
                    o.append(ez.ListItem(it))
        else:
            o = ez.Section(name=b['n'], style_name=b['s'])
            for c in b['b']:
                o.append(Text.mk(ez, c))
        for k, v in sorted((b.get('q') or {}).items()):
            setattr(o, k, v)
        return o

    @staticmethod
    def idx(cont):
        skip = DECLS + EPI
        return [i for i, c in enumerate(cont.xmlnode) if c.tag not in skip]

    @staticmethod
    def apply(ez, doc, op, m):
        Text.applyl(ez, doc.body, op)

    @staticmethod
    def applyl(ez, body, op):
        k = op[0]
        if k == 'add':
            o = Text.mk(ez, op[1])
            if op[1]['t'] == 'p':
                body += o
            elif body.append(o) is not o:
                raise Mismatch('append does not pass the child through')
            return
        ix = Text.idx(body)
        i = ix[op[1]]
        if k == 'ins':
            o = Text.mk(ez, op[2])
            if body.insert(i, o) is not o:
                raise Mismatch('insert does not pass the child through')
        elif k == 'insb':
            o = Text.mk(ez, op[2])
            if body.insert_before(body.get_child(i), o) is not o:
                raise Mismatch('insert_before does not pass the child through')
        elif k == 'self':
            if op[2]:
                body.replace(body[i], body[i])
            else:
                body[i] = body[i]
        elif k == 'nochild':
            o = body[i]
            # a child of another element: of one of the children of this one
            c = [c for c in o if c.kind in ('Span', 'Hyperlink', 'ListItem') or o.kind == 'Section']
            j = op[2]
            c = c[0] if j in (1, 3, 5) else c[-1]
            if j in (0, 5):
                body.remove(c)
            elif j == 1:
                body.replace(c, ez.Paragraph('new'))
            elif j == 2:
                body.insert_before(c, ez.Paragraph('new'))
            elif j == 3:
                body.index(c)
            elif j == 6:
                body.replace(c, o)
            else:
                ez.Paragraph('other').remove(c)
        elif k == 'del':
            if op[2]:
                body.remove(body[i])
            else:
                del body[i]
        elif k == 'mov':
            o = body[i]
            body.remove(o)
            body.insert(ix[op[2]], o)
        elif k == 'set':
            if op[3]:
                body.replace(body[i], Text.mk(ez, op[2]))
            else:
                body[i] = Text.mk(ez, op[2])
        elif k == 'wipe':
            body[i].clear()
        elif k == 'style':
            body[i].style_name = op[2]
        elif k == 'prop':
            setattr(body[i], op[2], op[3])
        elif k == 'txt':
            body[i].append_text(op[2])
        elif k == 'span':
            body[i].append(ez.Span(op[2], style_name=op[3]))
        elif k == 'link':
            body[i].append(ez.Hyperlink(op[2], op[3]))
        elif k == 'wel':
            body[i].append(ez.LineBreak() if op[2] == '\n' else ez.Tabulator()
                           if op[2] == '\t' else ez.Spaces(op[3]))
        elif k == 'take':
            o, t = body[i], body[ix[op[2]]]
            if op[3] == 0:
                body.append(o)
            elif op[3] == 1:
                body.insert_before(t, o)
            elif op[3] == 2:
                body.insert(ix[op[2]], o)
            elif op[3] == 3:
                body.replace(t, o)
            else:
                t.append(o)
        elif k == 'rmv':
            o, t = body[i], body[ix[op[3]]]
            r = [c for c in o if c.kind in ('Span', 'Hyperlink')][op[2]]
            if op[5] == 0:
                t.append(r)
                return
            x = [c for c in t if c.kind in ('Span', 'Hyperlink')][op[4]]
            if op[5] == 1:
                t.insert_before(x, r)
            elif op[5] == 2:
                t.replace(x, r)
            else:
                t[t.index(x)] = r
        elif k in ('rrm', 'rset', 'rins', 'rtxt', 'rclr'):
            o = body[i]
            r = [c for c in o if c.kind in ('Span', 'Hyperlink')][op[2]]
            if k == 'rrm':
                if op[3]:
                    o.remove(r)
                else:
                    del o[o.index(r)]
            elif k == 'rset':
                n = ez.Span(op[3], style_name=op[4])
                if op[5]:
                    o.replace(r, n)
                else:
                    o[o.index(r)] = n
            elif k == 'rclr':
                r.clear()
            elif k == 'rins':
                o.insert_before(r, ez.Span(op[3], style_name=op[4]))
            else:
                r.append_text(op[3])
        elif k == 'lvl':
            body[i].outline_level = op[2]
        elif k == 'npl':
            body[i].level = op[2]
        elif k == 'nptxt':
            body[i].content.append_text(op[2])
        elif k == 'li':
            body[i].append(ez.ListItem(op[2]))
        elif k == 'lhead':
            body[i].header = ez.ListHeader(op[2])
        elif k == 'lifst':
            body[i].insert(0, ez.ListItem(op[2]))
        elif k in ('lidel', 'liset', 'liins'):
            o = body[i]
            it = list(o.iteritems())[op[2]]
            if k == 'lidel':
                o.remove(it)
            elif k == 'liset':
                o[o.index(it)] = ez.ListItem(op[3])
            else:
                o.insert_before(it, ez.ListItem(op[3]))
        elif k == 'sec':
            Text.applyl(ez, body[i], op[2])

    @staticmethod
    def props(t, get):
        return [bool(get(k)) if isinstance(v[0], bool) else get(k) for k, v in Text.PROPS.get(t, ())]

    @staticmethod
    def vblock(b):
        P = Text.props(b['t'], (b.get('q') or {}).get)
        if b['t'] in ('p', 'h'):
            return [b['t'], b['s'], b.get('l'), ''.join(r[1] for r in b['r']),
                    [[r[0], r[1], r[2]] for r in b['r'] if r[0] != 't'], P]
        if b['t'] == 'np':
            return ['np', b['l'], ''.join(r[1] for r in b['r'])]
        if b['t'] == 'list':
            return ['list', b['s'], b['hd'], list(b['i']), P]
        return ['sec', b['s'], b['n'], [Text.vblock(c) for c in b['b']], P]

    @staticmethod
    def view(m):
        return [Text.vblock(b) for b in m['b']]

    @staticmethod
    def oblock(o):
        k = o.kind
        bools(o.xmlnode)
        get = lambda n: getattr(o, n)
        if k in ('Paragraph', 'Heading'):
            t = o.plaintext()
            if o.textlen != len(t):
                raise Mismatch('textlen %d of %r' % (o.textlen, t))
            runs = []
            for c in o:
                if c.kind == 'Span':
                    runs.append(['s', c.plaintext(), c.style_name or ''])
                elif c.kind == 'Hyperlink':
                    runs.append(['a', c.plaintext(), c.href])
            return ['p' if k == 'Paragraph' else 'h', o.style_name or '',
                    None if k == 'Paragraph' else o.outline_level, t, runs,
                    Text.props('p' if k == 'Paragraph' else 'h', get)]
        if k == 'NumberedParagraph':
            return ['np', o.level, o.content.plaintext()]
        if k == 'List':
            if [c.kind for c in o].count('ListHeader') > 1:
                raise Mismatch('a list with several headers')
            return ['list', o.style_name or '',
                    o.header.plaintext() if o.header is not None else None,
                    [i.plaintext() for i in o.iteritems()], Text.props('list', get)]
        if k == 'Section':
            return ['sec', o.style_name or '', o.name or '', [Text.oblock(c) for c in o],
                    Text.props('sec', get)]
        return [k]

    @staticmethod
    def observe(ez, doc, m):
        out = []
        tags = [c.tag for c in doc.body.xmlnode]
        for c in doc.body:
            if c.xmlnode.tag in DECLS or c.xmlnode.tag in EPI:
                continue
            out.append(Text.oblock(c))
        e = [t for t in tags if t in EPI]
        if e != list(EPI[:m['epi']]):
            raise Mismatch('trailing elements changed: %r' % e)
        return out


# ===================================================================== sheet

def colname(c):
    s = ''
    c += 1
    while c:
        c, r = divmod(c - 1, 26)
        s = chr(65 + r) + s
    return s


def empty_cell():
    return {}


VALATTRS = [(('float', 'percentage', 'currency'), q('office:value')), (('date',), q('office:date-value')),
            (('time',), q('office:time-value')), (('boolean',), q('office:boolean-value')),
            (('string',), q('office:string-value'))]
BOOLS = [q(n) for n in ('office:boolean-value', 'table:protect', 'table:protected', 'table:print',
                        'text:protected', 'text:continue-list', 'text:continue-numbering',
                        'text:restart-numbering', 'text:is-list-header')]


def bools(e):
    """Boolean attributes are spelled as everybody can read them."""
    for k in BOOLS:
        if e.get(k) not in (None, 'true', 'false'):
            raise Mismatch('%s=%r' % (k, e.get(k)))


class Sheet(object):
    name = 'sheet'
    kind = 'ods'
    prop = 'C10'

    @staticmethod
    def new_sheet(name, nr, nc):
        return {'n': name, 'c': [[{} for _ in range(nc)] for _ in range(nr)],
                'ri': [{} for _ in range(nr)], 'ci': [{} for _ in range(nc)], 'a': {}}

    @staticmethod
    def same_sheet(old, new):
        if 'hid' in old:
            new['hid'] = old['hid']
        return new

    @staticmethod
    def empty():
        return {'sh': []}

    @staticmethod
    def initial(rng):
        sh = []
        for i in range(rng.choice([1, 1, 2])):
            s = Sheet.new_sheet('Sheet%d' % (i + 1), rng.choice([1, 2, 3, 5]),
                                rng.choice([1, 2, 3, 5]))
            for _ in range(rng.randrange(6)):
                r = rng.randrange(len(s['c']))
                c = rng.randrange(len(s['c'][0]))
                v, t, cur = Sheet.rvalue(rng)
                Sheet.setv(s['c'][r][c], v, t, cur)
                if t == 'string' and rng.random() < .3:
                    s['c'][r][c]['x'].append(rtext(rng))
                    s['c'][r][c]['v'] = '\n'.join(s['c'][r][c]['x'])
            if rng.random() < .25:
                r, c = rng.randrange(len(s['c'])), rng.randrange(len(s['c'][0]))
                Sheet.step({'sh': [s]}, ['span', 0, r, c, 't', rng.choice([1, 2]), rng.choice([1, 2, 3])])
            if rng.random() < .3:
                s['ci'][rng.randrange(len(s['ci']))]['style_name'] = 'co1'
            if rng.random() < .3:
                s['a'] = {'style_name': 'ta1', 'print_': rng.random() < .5}
            if rng.random() < .3:
                # content a spreadsheet program repeats up to the last row and
                # column appears only once
                s['tr'] = rng.choice([0, 32, 1000000])
                s['tc'] = rng.choice([0, 32, 40, 1024])
            if rng.random() < .2:
                s['pre'] = True
            if rng.random() < .15 and not s.get('tc'):
                s['xc'] = rng.choice([1, 2, 5])
            sh.append(s)
        return {'sh': sh, 'rep': rng.randrange(3), 'grp': rng.choice([0, 0, 1, 2, 3, 4])}

    @staticmethod
    def build(m):
        rep = m.get('rep', 0)

        def cb(body):
            for s in m['sh']:
                t = sub(body, 'table:table', table_name=s['n'])
                if s['a'].get('style_name'):
                    t.set(q('table:style-name'), s['a']['style_name'])
                if 'print_' in s['a']:
                    t.set(q('table:print'), 'true' if s['a']['print_'] else 'false')
                if s.get('pre'):
                    sub(t, 'table:shapes')
                nc = len(s['c'][0])
                tc = s.get('tc') or 0
                cols = s['ci']
                par = t
                if m.get('grp') == 2:
                    par = sub(t, 'table:table-column-group')
                k = 0
                while k < nc:
                    n = k
                    while rep and n + 1 < nc and cols[n + 1] == cols[k]:
                        n += 1
                    e = sub(par, 'table:table-column')
                    if cols[k].get('style_name'):
                        e.set(q('table:style-name'), cols[k]['style_name'])
                    cnt = n - k + 1 + (tc if n + 1 == nc else 0)
                    if cnt > 1:
                        e.set(q('table:number-columns-repeated'), str(cnt))
                    k = n + 1
                for k in range(s.get('xc', 0)):     # columns without cells
                    sub(par, 'table:table-column', table_style_name='coX%d' % k)
                rows = s['c']
                i = 0
                par = t
                if m.get('grp') == 1 and len(rows) > 1:
                    par = sub(t, 'table:table-header-rows')
                elif m.get('grp') in (3, 4):
                    par = sub(t, 'table:table-row-group' if m['grp'] == 3 else 'table:table-rows')
                while i < len(rows):
                    r = sub(par, 'table:table-row')
                    if par is not t and m.get('grp') == 1:
                        par = t
                    j = i
                    if rep > 1:
                        while j + 1 < len(rows) and rows[j + 1] == rows[i] and r.getparent() is t \
                                and not (s.get('tr') and j + 2 == len(rows)):
                            j += 1
                        if j > i:
                            r.set(q('table:number-rows-repeated'), str(j - i + 1))
                    if s.get('tr') and j + 1 == len(rows):
                        r.set(q('table:number-rows-repeated'), str(s['tr']))
                    k = 0
                    row = rows[i]
                    while k < nc:
                        c = row[k]
                        e = sub(r, 'table:covered-table-cell' if c.get('cov') else 'table:table-cell')
                        n = k
                        if rep:
                            while n + 1 < nc and row[n + 1] == c and not (tc and n + 2 == nc):
                                n += 1
                            if n > k:
                                e.set(q('table:number-columns-repeated'), str(n - k + 1))
                        if tc and n + 1 == nc:
                            e.set(q('table:number-columns-repeated'), str(tc))
                        if c.get('sp'):
                            e.set(q('table:number-rows-spanned'), str(c['sp'][0]))
                            e.set(q('table:number-columns-spanned'), str(c['sp'][1]))
                        if c.get('t'):
                            e.set(q('office:value-type'), c['t'])
                            if c['t'] == 'string':
                                for x in c['x']:
                                    text_xml(e, 'text:p', x)
                            else:
                                a = {'date': 'date-value', 'time': 'time-value',
                                     'boolean': 'boolean-value'}.get(c['t'], 'value')
                                v = c['v']
                                if c['t'] == 'boolean':
                                    v = 'true' if v else 'false'
                                e.set(q('office:' + a), str(v))
                            if c.get('cur'):
                                e.set(q('office:currency'), c['cur'])
                        k = n + 1
                    i = j + 1
        return cb

    @staticmethod
    def rvalue(rng):
        k = rng.randrange(9)
        if k == 0:
            return rng.choice([0, 1, -7, 10 ** 9, 123456789012345]), None, None
        if k == 1:
            return rng.choice([0.0, 0.1, -2.5e-7, 1e300, 3.141592653589793]), None, None
        if k == 2:
            return rng.choice([True, False]), None, None
        if k == 3:
            return rng.choice([0, 12.5, 99]), 'currency', rng.choice(['EUR', 'USD'])
        if k == 4:
            return rng.choice([0, 0.5, 1]), 'percentage', None
        if k == 5:
            return rng.choice(['2011-02-05', '2024-12-31T23:59:59']), 'date', None
        if k == 6:
            return 'PT01H02M03,0000S', 'time', None
        if k == 7:
            return rng.choice([True, False, 1, 0]), 'boolean', None
        return rtext(rng), rng.choice([None, 'string']), None

    @staticmethod
    def setv(cell, v, t, cur):
        if cur:
            t = 'currency'
        if t is None:
            t = 'boolean' if isinstance(v, bool) else \
                'float' if isinstance(v, (int, float)) else 'string'
        cell['t'] = t
        if t == 'string':
            cell['v'] = str(v)
            cell['x'] = [str(v)]
        elif t == 'boolean':
            cell['v'] = bool(v)
            cell['x'] = []
        elif t in ('date', 'time'):
            cell['v'] = str(v)
            cell['x'] = []
        else:
            cell['v'] = float(v)
            cell['x'] = []
        cell.pop('cur', None)
        if cur:
            cell['cur'] = cur

    @staticmethod
    def gen(rng, m):
        op = Sheet.gen0(rng, m)
        if op[0] != 'sheet' and rng.random() < .35:
            return ['w', rng.choice(['name', 'neg', 'body', 'iter', 'held', 'held']), op]
        return op

    @staticmethod
    def gen0(rng, m):
        if not m['sh'] or rng.random() < .05 and len(m['sh']) < 4:
            return ['sheet', 'N%d' % rng.randrange(99), rng.choice([1, 2, 4]), rng.choice([1, 3, 4])]
        si = rng.randrange(len(m['sh']))
        s = m['sh'][si]
        nr, nc = len(s['c']), len(s['c'][0])
        r, c = rng.randrange(nr), rng.randrange(nc)
        # tuple, address, negative tuple, lower case address; reached by row,
        # by column, by itercells
        acc = rng.choice(['t', 'a', 'n', 't', 'a', 'l'])
        merged = [(i, j) for i, row in enumerate(s['c']) for j, cell in enumerate(row) if cell.get('sp')]
        if merged:
            # merged areas get more than their share
            i, j = rng.choice(merged)
            h, w = s['c'][i][j]['sp']
            z = rng.random()
            if z < .08:
                return ['unspan', si, i, j, acc if acc != 'n' else 'a']
            if z < .14:
                return rng.choice([['delrows', si, i, h], ['delcols', si, j, w]])
            if z < .25:
                r, c = min(nr - 1, i + rng.choice([0, h])), min(nc - 1, j + rng.choice([0, w]))
            elif z < .35:
                r, c = min(nr - 1, i + rng.randrange(h)), min(nc - 1, j + rng.randrange(w))
        x = rng.random()
        if x < .12:
            x = rng.random()
            if x < .3:
                return ['mv', si, r, c, acc, rng.randrange(len(m['sh'])),
                        rng.randrange(6), rng.randrange(6)]
            if x < .4:
                return ['same', si, r, c, acc, rng.randrange(nr), rng.randrange(nc),
                        rng.choice([1, 'twice', True])]
            if x < .5:
                return ['para', si, r, c, acc, rtext(rng), rng.choice(['p', 'h', 'h', 'f'])]
            if x < .6:
                return ['novalue', si, r, c, acc, rng.choice(['float', 'string', 'date'])]
            if x < .7:
                k = rng.choice(['style_name', 'print_', 'protected'])
                return ['tattr', si, k, 'ta%d' % rng.randrange(3) if k == 'style_name' else rng.random() < .5]
            if x < .8:
                return ['delattr', si, r, c, rng.choice(['style_name', 'formula', 'content_validation_name'])]
            if x < .9:
                v, t, cur = Sheet.rvalue(rng)
                return ['val', si, r, c, rng.choice('rci'), v, t, cur]
            return ['txt', si, r, c, rng.choice('rci'), rtext(rng)]
        if x < .26:
            v, t, cur = Sheet.rvalue(rng)
            return ['val', si, r, c, acc, v, t, cur]
        if x < .34:
            v, t, cur = Sheet.rvalue(rng)
            return ['cell', si, r, c, acc, v, t, cur, rng.choice(STYLES)]
        if x < .38:
            return ['txt', si, r, c, acc, rtext(rng)]
        if x < .41:
            return ['disp', si, r, c, rng.choice(['1,00', 'ten', 'x  y'])]
        if x < .45:
            return ['attr', si, r, c, rng.choice(['style_name', 'formula', 'content_validation_name']),
                    rng.choice(['S1', '=A1+1', 'of:=SUM([.A1])'])]
        if x < .47:
            return ['prot', si, r, c, rng.random() < .5]
        if x < .54:
            return ['span', si, r, c, acc if acc != 'n' else 'a', rng.choice([1, 1, 2, 3]),
                    rng.choice([1, 2, 2, 3])]
        if x < .58:
            return ['unspan', si, r, c, acc if acc != 'n' else 'a']
        if x < .64:
            return ['approws', si, rng.choice([1, 1, 2, 0])]
        if x < .70:
            return ['insrows', si, rng.choice([r, r, -1, 0, nr, nr + 2, -nr, -nr - 1]), rng.choice([1, 1, 2, 3, 0])]
        if x < .75:
            return ['delrows', si, rng.choice([r, r, -1, 0, nr - 1, nr, -nr, -nr - 1]), rng.choice([1, 1, 2, nr, 0])]
        if x < .80:
            return ['appcols', si, rng.choice([1, 1, 2, 0])]
        if x < .86:
            return ['inscols', si, rng.choice([c, c, -1, 0, nc, nc + 2, -nc, -nc - 1]), rng.choice([1, 1, 2, 3, 0])]
        if x < .91:
            return ['delcols', si, rng.choice([c, c, -1, 0, nc - 1, nc, -nc, -nc - 1]), rng.choice([1, 1, 2, nc, 0])]
        if x < .925:
            return ['reset', si, rng.choice([1, 2, 4, 0]), rng.choice([1, 3, 0])]
        if x < .935:
            return ['clear', si]
        if x < .95:
            return ['rowinfo', si, r, rng.choice(['style_name', 'visibility', 'default_cell_style_name']),
                    rng.choice(['collapse', 'filter']), rng.randrange(3)]
        if x < .965:
            return ['colinfo', si, c, rng.choice(['style_name', 'visibility', 'default_cell_style_name']),
                    rng.choice(['collapse', 'filter']), rng.randrange(3)]
        if x < .975 and len(m['sh']) < 4:
            return ['copy', si, rng.choice([None, 'C%d' % rng.randrange(99)])]
        if x < .99:
            return ['bad', si, r, c, rng.randrange(13)]
        return ['name', si, 'R%d' % rng.randrange(99)]

    @staticmethod
    def cuts(s, axis, a, b):
        """Inserting at a == b or deleting a..b runs through a merged area, which
        is not specified; areas beside it or deleted as a whole are no matter."""
        for r, row in enumerate(s['c']):
            for c, cell in enumerate(row):
                if cell.get('sp'):
                    x = (r, c)[axis]
                    y = x + cell['sp'][axis]
                    if a == b and x < a < y or a < b and a < y and b > x and not (a <= x and y <= b):
                        return True
        return False

    @staticmethod
    def step(m, op):
        k = op[0]
        if k == 'w':
            if op[1] == 'name' and op[2][1] < len(m['sh']):
                n = m['sh'][op[2][1]]['n']
                if [s['n'] for s in m['sh']].count(n) > 1:
                    return 'skip'
            return Sheet.step(m, op[2])
        if k == 'sheet':
            m['sh'].append(Sheet.new_sheet(op[1], op[2], op[3]))
            return 'ok'
        if op[1] >= len(m['sh']):
            return 'skip'
        s = m['sh'][op[1]]
        C = s['c']
        nr, nc = len(C), len(C[0])
        if k == 'tattr':
            s['a'][op[2]] = op[3]
            return 'ok'
        if k in ('val', 'cell', 'txt', 'disp', 'attr', 'prot', 'span', 'unspan', 'bad', 'mv', 'same',
                 'para', 'novalue', 'delattr'):
            r, c = op[2], op[3]
            if r >= nr or c >= nc:
                return 'skip'
            cell = C[r][c]
            if k == 'val':
                v, t, cur = op[5:8]
                Sheet.setv(cell, v, t, cur)
            elif k == 'cell':
                if cell.get('sp') or cell.get('cov'):
                    return 'skip'
                v, t, cur, st = op[5:9]
                n = {}
                Sheet.setv(n, v, t, cur)
                if st:
                    n['style_name'] = st
                C[r][c] = n
            elif k == 'mv':
                if op[5] >= len(m['sh']):
                    return 'skip'
                S2 = m['sh'][op[5]]['c']
                if op[6] >= len(S2) or op[7] >= len(S2[0]):
                    return 'skip'
                src = S2[op[6]][op[7]]
                if cell.get('sp') or cell.get('cov') or src.get('sp') or src.get('cov'):
                    return 'skip'
                if src is not cell:         # else there is nothing to do
                    C[r][c] = copy.deepcopy(src)
                    C[r][c].pop('hid', None)
            elif k == 'same':
                if op[5] >= nr or op[6] >= nc:
                    return 'skip'
                c2 = C[op[5]][op[6]]
                if cell.get('sp') or cell.get('cov') or c2.get('sp') or c2.get('cov'):
                    return 'skip'
                n = {}
                Sheet.setv(n, op[7], None, None)
                C[r][c] = n
                C[op[5]][op[6]] = copy.deepcopy(n)
            elif k == 'para':
                Sheet.setv(cell, op[5], 'string', None)
            elif k == 'novalue':
                if cell.get('sp') or cell.get('cov'):
                    return 'skip'
                C[r][c] = {'t': op[5], 'v': '' if op[5] == 'string' else None, 'x': []}
            elif k == 'delattr':
                if op[4] not in cell:
                    return 'rej'
                del cell[op[4]]
            elif k == 'txt':
                if cell.get('t') != 'string':
                    return 'rej'
                if cell['x']:
                    cell['x'][-1] += op[5]
                else:
                    cell['x'].append(op[5])
                cell['v'] = '\n'.join(cell['x'])
            elif k == 'disp':
                if cell.get('t') in (None, 'string'):
                    return 'rej'
                cell['x'][:1] = [op[4]]
            elif k == 'attr':
                cell[op[4]] = op[5]
            elif k == 'prot':
                cell['prot'] = op[4]
            elif k == 'span':
                h, w = op[5], op[6]
                if r + h > nr or c + w > nc:
                    return 'rej'
                rng_ = [(i, j) for i in range(r, r + h) for j in range(c, c + w)]
                if any(C[i][j].get('sp') for i, j in rng_):
                    return 'rej'
                if any(C[i][j].get('cov') for i, j in rng_):
                    return 'skip'   # overlapping a covered area: not specified
                if (h, w) == (1, 1):
                    return 'skip' if op[4] == 'skip11' else 'ok'
                for i, j in rng_:
                    C[i][j]['cov'] = True
                cell.pop('cov')
                cell['sp'] = [h, w]
            elif k == 'unspan':
                if not cell.get('sp'):
                    return 'ok'
                h, w = cell.pop('sp')
                for i in range(r, r + h):
                    for j in range(c, c + w):
                        C[i][j].pop('cov', None)
            elif k == 'bad':
                return 'rej'
            return 'ok'
        if k == 'approws':
            if op[2] < 1:
                return 'rej'
            for _ in range(op[2]):
                C.append([{} for _ in range(nc)])
                s['ri'].append({})
            return 'ok'
        if k == 'appcols':
            if op[2] < 1:
                return 'rej'
            for row in C:
                row.extend({} for _ in range(op[2]))
            s['ci'].extend({} for _ in range(op[2]))
            return 'ok'
        if k in ('insrows', 'inscols'):
            n = nr if k == 'insrows' else nc
            i, cnt = op[2], op[3]
            if cnt < 1:
                return 'rej'
            if i >= n or i < -n:
                return 'rej'
            if i < 0 and cnt > 1:
                # which element index -1 denotes after the first insertion is
                # only fixed for a single row or column
                if k == 'insrows':
                    return 'skip'
            i = i + n if i < 0 else i
            if Sheet.cuts(s, k == 'inscols', i, i):
                return 'skip'
            if k == 'insrows':
                for _ in range(cnt):
                    C.insert(i, [{} for _ in range(nc)])
                    s['ri'].insert(i, {})
            else:
                for row in C:
                    for _ in range(cnt):
                        row.insert(i, {})
                for _ in range(cnt):
                    s['ci'].insert(i, {})
            return 'ok'
        if k in ('delrows', 'delcols'):
            n = nr if k == 'delrows' else nc
            i, cnt = op[2], op[3]
            if cnt < 1 or cnt >= n:
                return 'rej'
            if i >= n or i < -n:
                return 'rej'
            i = i + n if i < 0 else i
            if i + cnt > n:
                return 'rej'
            if Sheet.cuts(s, k == 'delcols', i, i + cnt):
                return 'skip'
            if k == 'delrows':
                del C[i:i + cnt]
                del s['ri'][i:i + cnt]
            else:
                for row in C:
                    del row[i:i + cnt]
                del s['ci'][i:i + cnt]
            return 'ok'
        if k == 'reset':
            if op[2] < 1 or op[3] < 1:
                return 'rej'
            m['sh'][op[1]] = Sheet.same_sheet(s, Sheet.new_sheet(s['n'], op[2], op[3]))
            return 'ok'
        if k == 'clear':
            m['sh'][op[1]] = Sheet.same_sheet(s, Sheet.new_sheet(s['n'], nr, nc))
            return 'ok'
        if k == 'rowinfo':
            if op[2] >= nr:
                return 'skip'
            s['ri'][op[2]][op[3]] = op[4]
            return 'ok'
        if k == 'colinfo':
            if op[2] >= nc:
                return 'skip'
            s['ci'][op[2]][op[3]] = op[4]
            return 'ok'
        if k == 'copy':
            n = unheld(copy.deepcopy(s))
            n['n'] = op[2] if op[2] is not None else 'CopyOf' + s['n']
            m['sh'].append(n)
            return 'ok'
        if k == 'name':
            s['n'] = op[2]
            return 'ok'
        raise AssertionError(k)

    @staticmethod
    def key(acc, r, c, nr, nc):
        if acc in 'al':
            a = '%s%d' % (colname(c), r + 1)
            return a if acc == 'a' else a.lower()
        if acc == 'n':
            return (r - nr, c - nc)
        return (r, c)

    @staticmethod
    def apply(ez, doc, op, m):
        """m: the model before the operation."""
        k = op[0]
        if k == 'sheet':
            doc.sheets.append(ez.Sheet(op[1], size=(op[2], op[3])))
            return
        way = None
        if k == 'w':
            way, op = op[1:]
            k = op[0]
        t = Sheet.pick(doc, op[1], way, m)
        s = m['sh'][op[1]]
        nr, nc = len(s['c']), len(s['c'][0])
        if k in ('val', 'txt') and op[4] in 'rci':
            r, c = op[2], op[3]
            if op[4] == 'r':
                e = t.row(r)[c] if c % 2 else t.row('%s%d' % (colname(c), r + 1))[c]
            elif op[4] == 'c':
                e = t.column(c)[r] if c % 2 else t.column('%s%d' % (colname(c), r + 1))[r]
            else:
                e = [x for p, x in t.itercells() if p == (r, c)][0]
            if k == 'txt':
                e.append_text(op[5])
            elif op[7]:
                e.set_value(op[5], currency=op[7])
            else:
                e.set_value(op[5], op[6])
            return
        if k in ('val', 'cell', 'txt', 'span', 'unspan', 'mv', 'same', 'para', 'novalue'):
            key = Sheet.key(op[4], op[2], op[3], nr, nc)
        if k == 'val':
            if op[6] is None and op[7] is None:
                t[key].set_value(op[5])
            elif op[7]:
                t[key].set_value(op[5], currency=op[7])
            else:
                t[key].set_value(op[5], op[6])
        elif k == 'cell':
            t[key] = ez.Cell(op[5], value_type=op[6], currency=op[7],
                             style_name=op[8] or None)
        elif k == 'mv':
            t[key] = doc.sheets[op[5]][op[6], op[7]]
        elif k == 'same':
            o = ez.Cell(op[7])
            t[key] = o
            t[op[5], op[6]] = o
        elif k == 'para':
            if op[6] == 'f':        # the type given does not matter for markup
                t[key].set_value(ez.Paragraph(op[5]), 'float')
            else:
                t[key].set_value(ez.Paragraph(op[5]) if op[6] == 'p' else ez.Heading(op[5]))
        elif k == 'novalue':
            t[key] = ez.Cell(value_type=op[5])
        elif k == 'delattr':
            delattr(t[op[2], op[3]], op[4])
        elif k == 'tattr':
            setattr(t, op[2], op[3])
        elif k == 'txt':
            o = t[key]
            if len(op[5]) % 3 == 1:
                o.append_text(op[5], style_name='S1')
                last = o.xmlnode[-1]
                if last.get(q('text:style-name')) != 'S1' and \
                        [x.get(q('text:style-name')) for x in last][-1:] != ['S1']:
                    raise Mismatch('text appended without its style')
            else:
                o.append_text(op[5])
        elif k == 'disp':
            t[op[2], op[3]].display_form = op[4]
        elif k == 'attr':
            setattr(t[op[2], op[3]], op[4], op[5])
        elif k == 'prot':
            t[op[2], op[3]].protected = op[4]
        elif k == 'span':
            t.set_cell_span(key, (op[5], op[6]))
        elif k == 'unspan':
            t.remove_cell_span(key)
        elif k == 'approws':
            t.append_rows(op[2])
        elif k == 'appcols':
            t.append_columns(op[2])
        elif k == 'insrows':
            t.insert_rows(op[2], op[3])
        elif k == 'inscols':
            t.insert_columns(op[2], op[3])
        elif k == 'delrows':
            t.delete_rows(op[2], op[3])
        elif k == 'delcols':
            t.delete_columns(op[2], op[3])
        elif k == 'reset':
            t.reset((op[2], op[3]))
        elif k == 'clear':
            t.clear()
        elif k == 'rowinfo':
            i = [op[2], 'C%d' % (op[2] + 1), op[2] - nr][op[5] if len(op) > 5 else 0]
            setattr(t.row_info(i), op[3], op[4])
        elif k == 'colinfo':
            i = [op[2], colname(op[2]) + '7', op[2] - nc][op[5] if len(op) > 5 else 0]
            setattr(t.column_info(i), op[3], op[4])
        elif k == 'copy':
            n = t.copy(op[2]) if op[2] is not None else t.copy()
            doc.sheets += n
        elif k == 'name':
            t.name = op[2]
        elif k == 'bad':
            j = op[4]
            if j == 0:
                t[op[2], op[3]].set_value(None)
            elif j == 1:
                t[op[2], op[3]].set_value(1, 'nonsense')
            elif j == 2:
                t[op[2], op[3]] = 'no cell'
            elif j == 3:
                t[nr, 0].value
            elif j == 4:
                t.set_cell_span((op[2], op[3]), (nr + 1, 1))
            elif j == 5:
                t.set_cell_span((-1, op[3]), (1, 1))
            elif j == 6:
                t.set_cell_span((op[2], -1), (1, 1))
            elif j == 7:
                t.set_cell_span((op[2], op[3]), (0, 1))
            elif j == 8:
                t[float(op[2])]
            elif j == 9:
                t[op[2], op[3]] = ez.Paragraph('no cell')
            elif j == 10:
                t.column_info(-nc - 1)
            elif j == 11:
                t.row_info([nr, -nr - 1][op[2] % 2])
            else:
                t['1A']

    @staticmethod
    def pick(doc, si, way, m):
        if way == 'name':
            return doc.sheets[m['sh'][si]['n']]
        if way == 'neg':
            return doc.sheets[si - len(m['sh'])]
        if way == 'body':
            return [e for e in doc.body if e.kind == 'Table'][si]
        if way == 'iter':
            return list(doc.sheets)[si]
        if way == 'held':
            held = doc.__dict__.setdefault('_dst_held', {})
            if si not in held:
                held[si] = doc.sheets[si] if len(held) % 2 else \
                    [e for e in doc.body if e.kind == 'Table'][si]
            return held[si]
        return doc.sheets[si]

    @staticmethod
    def vcell(c):
        t = c.get('t')
        return [t, c.get('v'), c.get('cur'), c.get('style_name'), c.get('formula'),
                c.get('content_validation_name'),
                bool(c.get('prot')), list(c.get('sp') or [1, 1]), bool(c.get('cov')),
                '\n'.join(c.get('x') or [])]

    @staticmethod
    def view(m):
        return [[s['n'], len(s['c']), len(s['c'][0]),
                 [[Sheet.vcell(c) for c in row] for row in s['c']],
                 [[x.get('style_name'), x.get('visibility', 'visible'),
                   x.get('default_cell_style_name')] for x in s['ri']],
                 [[x.get('style_name'), x.get('visibility', 'visible'),
                   x.get('default_cell_style_name')] for x in s['ci']],
                 [s['a'].get('style_name'), bool(s['a'].get('print_')), bool(s['a'].get('protected'))],
                 bool(s.get('pre'))]
                for s in m['sh']]

    @staticmethod
    def ocell(c):
        t = c.value_type
        for ty, k in VALATTRS:
            if c.xmlnode.get(k) is not None and t not in ty:
                raise Mismatch('%s cell with the value of another type' % t)
        bools(c.xmlnode)
        return [c.value_type, c.value, c.currency, c.style_name, c.formula,
                c.content_validation_name, c.protected,
                list(c.span), c.covered, c.plaintext()]

    @staticmethod
    def observe(ez, doc, m):
        out = []
        for t in doc.sheets:
            bools(t.xmlnode)
            nr, nc = t.nrows(), t.ncols()
            rows = [[Sheet.ocell(c) for c in row] for row in t.rows()]
            for r in rows:
                if len(r) != nc:
                    raise Mismatch('row of %d cells in a table of %d columns' % (len(r), nc))
            if len(rows) != nr:
                raise Mismatch('%d rows, nrows() = %d' % (len(rows), nr))
            for i in range(nc):
                col = [Sheet.ocell(c) for c in t.column(i)]
                if col != [r[i] for r in rows]:
                    raise Mismatch('column(%d) differs from the rows' % i)
            for i in range(nr):
                if [Sheet.ocell(t[i, j]) for j in range(nc)] != rows[i]:
                    raise Mismatch('cells of row %d read by position differ' % i)
            xr = t.xmlnode.findall('.//' + q('table:table-row'))
            if len(xr) != nr or any(len([c for c in e if c.tag in (
                    q('table:table-cell'), q('table:covered-table-cell'))]) != nc for e in xr):
                raise Mismatch('markup has other rows or cells than the table reports')
            if [[Sheet.ocell(c) for c in col] for col in t.columns()] != \
                    [list(x) for x in zip(*rows)]:
                raise Mismatch('columns() differs from the rows')
            it = [(p, Sheet.ocell(c)) for p, c in t.itercells()]
            if it != [((i, j), rows[i][j]) for i in range(nr) for j in range(nc)]:
                raise Mismatch('itercells() differs from the rows')
            info = lambda x: [x.style_name, x.visibility, x.default_cell_style_name]
            ri = [info(t.row_info(i)) for i in range(nr)]
            try:
                ci = [info(t.column_info(i)) for i in range(nc)]
            except IndexError:
                raise Mismatch('column infos missing')
            out.append([t.name, nr, nc, rows, ri, ci, [t.style_name, t.print_, t.protected],
                        t.xmlnode.find(q('table:shapes')) is not None])
        return out


# ====================================================================== meta

FIELDS = ['title', 'description', 'subject', 'initial-creator', 'creator', 'language']
MTAGS = {'title': 'dc:title', 'description': 'dc:description', 'subject': 'dc:subject',
         'initial-creator': 'meta:initial-creator', 'creator': 'dc:creator',
         'language': 'dc:language'}
STATS = ['page', 'table', 'word', 'cell', 'ole-object', 'non-whitespace-character']


def num(v):
    return v if isinstance(v, int) else 0


KEYW = ['k1', 'k2', 'kä', 'k 4', 'k5', 'K1', 'k2 ', ' k2', 'KÄ', 'k  4', 'k']


class Meta(object):
    name = 'meta'
    kind = 'odt'
    prop = 'C12'

    @staticmethod
    def empty():
        return {'f': {}, 'k': [], 'u': {}, 's': {}}

    @staticmethod
    def initial(rng):
        m = Meta.empty()
        for f in FIELDS:
            if rng.random() < .4:
                m['f'][f] = rtext(rng, False)
        m['k'] = rng.sample(KEYW, rng.randrange(4))
        for i in range(rng.randrange(3)):
            m['u']['tag%d' % i] = [rtext(rng, False), rng.choice(['string', 'float', 'string'])]
        for s in rng.sample(STATS, rng.randrange(4)):
            m['s'][s] = rng.randrange(1000)
        if m['s'] and rng.random() < .1:
            # what another program stored is no number
            m['s'][rng.choice(sorted(m['s']))] = rng.choice(['', 'many', '1.5'])
        m['cyc'] = rng.choice([None, 1, 7, 99, None, 1, 7, 'many', ''])
        return m

    @staticmethod
    def build(m):
        return None

    @staticmethod
    def meta_extra(m):
        def cb(mm):
            for f, v in m['f'].items():
                sub(mm, MTAGS[f], v)
            for k in m['k']:
                sub(mm, 'meta:keyword', k)
            for n, (v, t) in m['u'].items():
                e = sub(mm, 'meta:user-defined', v, meta_name=n)
                if t != 'string':
                    e.set(q('meta:value-type'), t)
            if m['s']:
                e = sub(mm, 'meta:document-statistic')
                for k, v in m['s'].items():
                    e.set(q('meta:%s-count' % k), str(v))
            if m.get('cyc') is not None:
                sub(mm, 'meta:editing-cycles', str(m['cyc']))
        return cb

    @staticmethod
    def gen(rng, m):
        x = rng.random()
        if x < .35:
            return ['f', rng.choice(FIELDS), rtext(rng, False)]
        if x < .5:
            return ['k+', rng.choice(KEYW)]
        if x < .58:
            return ['k-', rng.choice(KEYW)]
        if x < .61:
            return ['k0']
        if x < .75:
            return ['u', 'tag%d' % rng.randrange(4), rng.choice([rtext(rng, False), 12, 1.5, True]),
                    rng.choice([None, None, 'float', 'boolean', 'string'])]
        if x < .81:
            return ['u-', 'tag%d' % rng.randrange(4)]
        if x < .83:
            return ['u0']
        if x < .87:
            return ['uu', {'tag%d' % rng.randrange(4): rtext(rng, False), 'tagX': 'y'}]
        if x < .95:
            return ['s', rng.choice(STATS), rng.randrange(100000)]
        if x < .97:
            return ['s0']
        if x < .985:
            return ['su', {rng.choice(STATS): rng.randrange(99), 'page': 3}]
        if x < .995:
            return ['clear']
        return ['badf', rng.randrange(3)]

    @staticmethod
    def step(m, op):
        k = op[0]
        if k == 'f':
            m['f'][op[1]] = op[2]
        elif k == 'k+':
            if op[1] not in m['k']:
                m['k'].append(op[1])
        elif k == 'k-':
            if op[1] in m['k']:
                m['k'].remove(op[1])
        elif k == 'k0':
            m['k'] = []
        elif k == 'u':
            old = m['u'].get(op[1])
            t = op[3] if op[3] is not None else (old[1] if old else 'string')
            m['u'][op[1]] = [str(op[2]), t]
        elif k == 'u-':
            if op[1] not in m['u']:
                return 'rej'
            del m['u'][op[1]]
        elif k == 'u0':
            m['u'] = {}
        elif k == 'uu':
            for n, v in op[1].items():
                old = m['u'].get(n)
                m['u'][n] = [v, old[1] if old else 'string']
        elif k == 's':
            m['s'][op[1]] = op[2]
        elif k == 's0':
            m['s'] = {}
        elif k == 'clear':
            m.update(f={}, k=[], u={}, s={})
        elif k == 'su':
            m['s'].update(op[1])
        elif k == 'badf':
            return 'rej'
        return 'ok'

    @staticmethod
    def apply(ez, doc, op, m):
        M = doc.meta
        k = op[0]
        if k == 'f':
            M[op[1]] = op[2]
        elif k == 'k+':
            M.keywords.add(op[1])
        elif k == 'k-':
            M.keywords.remove(op[1])
        elif k == 'k0':
            M.keywords.clear()
        elif k == 'u':
            if op[3] is None:
                M.usertags[op[1]] = op[2]
            else:
                M.usertags.set(op[1], op[2], op[3])
        elif k == 'u-':
            del M.usertags[op[1]]
        elif k == 'u0':
            M.usertags.clear()
        elif k == 'uu':
            M.usertags.update(op[1])
        elif k == 's':
            M.count[op[1]] = op[2]
        elif k == 's0':
            M.count.clear()
        elif k == 'clear':
            M.clear()
        elif k == 'su':
            M.count.update(op[1])
        elif k == 'badf':
            if op[1] == 0:
                M['nonsense'] = 'x'
            elif op[1] == 1:
                M.count['nonsense'] = 1
            else:
                M.usertags['no such tag']

    @staticmethod
    def view(m):
        return [{f: m['f'].get(f) for f in FIELDS}, list(m['k']),
                sorted([n, v[0], v[1]] for n, v in m['u'].items()),
                {s: num(m['s'].get(s, 0)) for s in STATS},
                sorted((s, num(v)) for s, v in m['s'].items())]

    @staticmethod
    def observe(ez, doc, m):
        M = doc.meta
        f = {}
        for n in FIELDS:
            try:
                f[n] = M[n]
            except KeyError:
                f[n] = None
        kw = list(M.keywords)
        for k in KEYW:
            if (k in M.keywords) != (k in kw):
                raise Mismatch('keyword %r membership' % k)
        us = []
        for n, v in M.usertags:
            if M.usertags[n] != v or n not in M.usertags:
                raise Mismatch('user tag %r' % n)
            us.append([n, v, M.usertags.typeof(n)])
        return [f, kw, sorted(us), {s: M.count[s] for s in STATS},
                sorted((a, b) for a, b in M.count)]


# ================================================================= variables

class Vars(object):
    name = 'vars'
    kind = 'odt'
    prop = 'C13'

    @staticmethod
    def empty():
        return {'v': {}, 'u': {}}

    @staticmethod
    def initial(rng):
        m = {'v': {}, 'u': {}, 'occ': [], 'gone': 0}
        for i in range(rng.choice([1, 2, 3])):
            m['v'][Vars.rname(rng, 'v', i)] = Vars.rval(rng)
        for i in range(rng.choice([0, 1, 2])):
            m['u'][Vars.rname(rng, 'u', i)] = Vars.rval(rng)
        for n in m['v']:
            for _ in range(rng.choice([1, 2, 3])):
                m['occ'].append(['v', n, rng.choice(['set', 'get', 'input'])])
        for n in m['u']:
            for _ in range(rng.choice([0, 1, 2])):
                m['occ'].append(['u', n, rng.choice(['get', 'input'])])
        rng.shuffle(m['occ'])
        m['deep'] = rng.randrange(6)
        m['attr'] = rng.randrange(3)
        return m

    @staticmethod
    def rname(rng, k, i):
        return rng.choice(['%s%d', '%s%d', '%s%d', "%s'%d", '%s"%d', '%s %d', '%s\'"%d', 'x%.0s%d',
                           'Ä%s]%d']) % (k, i)

    @staticmethod
    def rval(rng):
        if rng.random() < .25:
            return rng.choice([0.1, 1 / 3., -5e-7, 12345678.9, 2 ** 60, 100, 'False', '1.0', 'None', ' in ', 'a  b\n\tc',
                               '<&>"', '\U0001f600', 'long ' * 50])
        return rng.choice([True, False, 0, 1, -3, 2.5, 1e10, 'text', 'a b', 'ä', 'true', '12', ''])

    @staticmethod
    def typ(v):
        return 'boolean' if isinstance(v, bool) else \
            'float' if isinstance(v, (int, float)) else 'string'

    @staticmethod
    def build(m):
        def s(v):
            return ('true' if v else 'false') if isinstance(v, bool) else str(v)

        def cb(body):
            vd = sub(body, 'text:variable-decls')
            for n, v in m['v'].items():
                sub(vd, 'text:variable-decl', text_name=n, office_value_type=Vars.typ(v))
            ud = sub(body, 'text:user-field-decls')
            for n, v in m['u'].items():
                e = sub(ud, 'text:user-field-decl', text_name=n, office_value_type=Vars.typ(v))
                a = {'boolean': 'boolean-value', 'float': 'value', 'string': 'string-value'}
                e.set(q('office:' + a[Vars.typ(v)]), s(v))
            for kind, n, how in m['occ']:
                par = body
                if m['deep'] == 1:
                    par = sub(body, 'text:section')
                elif m['deep'] == 3:
                    par = sub(sub(body, 'text:list'), 'text:list-item')
                elif m['deep'] == 4:
                    par = sub(body, 'table:table')
                    sub(par, 'table:table-column')
                    par = sub(sub(par, 'table:table-row'), 'table:table-cell')
                p = sub(par, 'text:p', 'before ')
                if m['deep'] == 2:
                    p = sub(p, 'text:span')
                val = m[kind][n]
                tag = ('text:variable-' if kind == 'v' else 'text:user-field-') + how
                e = sub(p, tag, s(val), text_name=n)
                e.tail = ' after'
                t = Vars.typ(val)
                e.set(q('office:value-type'), t)
                if m['attr'] and (how == 'set' or m['attr'] == 2) and not (t == 'string' and m['deep'] == 5):
                    e.set(q('office:' + {'boolean': 'boolean-value', 'float': 'value',
                                         'string': 'string-value'}[t]), s(val))
                    if t == 'float':
                        # shown in the format of the field
                        e.text = ('%.2f' % val).replace('.', ',')
        return cb

    @staticmethod
    def gen(rng, m):
        names = [('v', n) for n in m['v']] + [('u', n) for n in m['u']]
        if not names:
            return ['nop']
        k, n = rng.choice(names)
        x = rng.random()
        if x < .2:
            return ['occ', k, n, rng.choice(['set', 'get', 'input'] if k == 'v' else ['get', 'input']),
                    rng.randrange(3)]
        if x < .35 and m.get('occ'):
            return ['unocc', rng.randrange(len(m['occ']))]
        return ['set', k, n, Vars.rval(rng), rng.randrange(2)]

    @staticmethod
    def step(m, op):
        if op[0] == 'nop':
            return 'ok'
        if op[0] == 'unocc':
            if op[1] >= len(m['occ']):
                return 'skip'
            o = m['occ'][op[1]]
            if len([x for x in m['occ'] if x[:2] == o[:2]]) < 2:
                return 'skip'
            del m['occ'][op[1]]
            m['gone'] += 1
            return 'ok'
        if op[2] not in m[op[1]]:
            return 'skip'
        if op[0] == 'occ':
            m['occ'].append(op[1:4])
            return 'ok'
        m[op[1]][op[2]] = op[3]
        return 'ok'

    @staticmethod
    def apply(ez, doc, op, m):
        if op[0] == 'nop':
            return
        if op[0] == 'unocc':
            k, n, h = m['occ'][op[1]]
            tag = q(('text:variable-' if k == 'v' else 'text:user-field-') + h)
            no = [o for o in m['occ'][:op[1]]].count([k, n, h])
            e = [e for e in doc.body.xmlnode.iter(tag) if e.get(q('text:name')) == n][no]
            wrap = sys.modules['ezodf.xmlns'].wrap
            wrap(e.getparent()).remove(wrap(e))
            return
        if op[0] == 'occ':
            k, n, h, w = op[1:]
            mod = sys.modules['ezodf.variables']
            o = getattr(mod, ('SimpleVariable' if k == 'v' else 'UserField') + h.capitalize())()
            o.set_attr(q('text:name'), n)
            o.value = m[k][n]
            ps = [p for p in doc.body if p.kind == 'Paragraph']
            if w == 0 or not ps:
                p = doc.body.append(ez.Paragraph('new '))
            else:
                p = ps[-1]
            if w == 2:
                p = p.append(ez.Span())
            p.append(o)
            o.tail = ' after'
            return
        cont = doc.body.variables if op[1] == 'v' else doc.body.userfields
        if op[4]:
            cont[op[2]] = op[3]
        else:
            cont[op[2]].value = op[3]

    @staticmethod
    def nv(v):
        if isinstance(v, bool):
            return ['boolean', v]
        if isinstance(v, (int, float)):
            return ['float', float(v)]
        return ['string', v or '']

    @staticmethod
    def view(m):
        occ = {}
        for k, n, h in m.get('occ', ()):
            occ[k + n] = occ.get(k + n, 0) + 1
        return [[k, n, Vars.nv(v), [Vars.nv(v)] * occ.get(k + n, 0)]
                for k in 'vu' for n, v in sorted(m[k].items())]

    @staticmethod
    def observe(ez, doc, m):
        out = []
        for k, cont in (('v', doc.body.variables), ('u', doc.body.userfields)):
            for n in sorted(m[k]):
                if n not in cont:
                    raise Mismatch('declaration of %s lost' % n)
                d = cont[n]
                occ = [o for o in d.instances]
                o2 = []
                for o in occ:
                    a = [o.xmlnode.get(q('office:' + x)) for x in ('value', 'boolean-value', 'string-value')]
                    a = [x for x in a if x is not None]
                    if a and (len(a) > 1 or a[0] != (o.text or '') and not (
                            o.type == 'float' and float(a[0]) == d.value and ',' in o.text)):
                        raise Mismatch('occurrence of %s shows %r, its value attribute says %r'
                                       % (n, o.text, a))
                    if o.type == 'boolean' and o.text not in ('true', 'false'):
                        raise Mismatch('occurrence of %s shows %r' % (n, o.text))
                    o2.append([o.type, o.value if o.value is not None else ''])
                out.append([k, n, [d.type, d.value if d.value is not None else ''], o2])
        # surrounding text must be untouched
        nocc = len(m.get('occ', ()))
        got = sum(1 for e in doc.body.xmlnode.iter() if isinstance(e.tag, str) and
                  e.tag in VARTAGS and (e.tail or '').startswith(' after'))
        if got != nocc:
            raise Mismatch('%d of %d occurrences left in place' % (got, nocc))
        got = ''.join(doc.body.xmlnode.itertext()).count(' after')
        if got != nocc + m.get('gone', 0):
            raise Mismatch('text around occurrences changed')
        return out


VARTAGS = frozenset(q('text:%s-%s' % (a, b)) for a in ('variable', 'user-field')
                    for b in ('set', 'get', 'input'))


# ===================================================================== pages

class Pages(object):
    """Sheets of a spreadsheet, or pages of a drawing/presentation, as ordered list."""
    name = 'pages'
    kind = 'ods'
    prop = 'C19'

    @staticmethod
    def empty():
        return {'k': 'ods', 'l': [], 'pre': 0, 'epi': 0, 'n': 0}

    @staticmethod
    def initial(rng, kind=None):
        k = kind or rng.choice(['ods', 'ods', 'odg', 'odp'])
        return {'k': k, 'l': [['P%d' % i, 'm%d' % i] for i in range(rng.randrange(4))],
                'pre': rng.randrange(4), 'epi': rng.randrange(3), 'n': 10}

    @staticmethod
    def build(m):
        def cb(body):
            if m['pre'] & 1:
                sub(body, 'text:variable-decls')
                sub(body, 'text:user-field-decls')
            if m['pre'] & 2:
                sub(body, 'table:calculation-settings')
            for n, mark in m['l']:
                if m['k'] == 'ods':
                    t = sub(body, 'table:table', table_name=n)
                    sub(t, 'table:table-column')
                    r = sub(t, 'table:table-row')
                    c = sub(r, 'table:table-cell', office_value_type='string')
                    sub(c, 'text:p', mark)
                else:
                    p = sub(body, 'draw:page', draw_name=n)
                    p.set(q('draw:id'), mark)
            for i in range(m['epi']):
                body.append(body.makeelement(EPI[i]))
        return cb

    @staticmethod
    def gen(rng, m):
        n = len(m['l'])
        x = rng.random()
        new = [rng.choice(['Q%d', 'Q%d', 'Ä %d', '%d', 'a.b%d']) % rng.randrange(1000),
               'k%d' % rng.randrange(10000)]
        if n == 0 or x < .25:
            return ['app', new, rng.randrange(2)]
        i = rng.randrange(n)
        neg = rng.random() < .2
        by = rng.choice(['i', 'n'])
        if x < .5:
            return ['ins', rng.choice([i, 0, n, i, n + 2]) if not neg else -1 - i, new]
        if x < .65:
            return ['set', i, by, new, neg]
        if x < .8:
            return ['del', i, by, neg]
        if x < .86:
            return ['edit', i, by, neg, 'e%d' % rng.randrange(10000)]
        if x < .9:
            sub_ = Pages.gen(rng, m)
            if sub_[0] in ('app', 'ins', 'del', 'set', 'mv'):
                return ['hedit', i, sub_, 'h%d' % rng.randrange(10000)]
        if x < .93:
            return ['mv', i, rng.randrange(n)]
        if x < .96:
            return ['ren', i, 'Z%d' % rng.randrange(1000)]
        if x < .98:
            return ['copyto', i] if m['k'] == 'ods' else ['app', new, 0]
        return ['bad', rng.randrange(6)]

    @staticmethod
    def step(m, op):
        k = op[0]
        L = m['l']
        if k == 'app':
            L.append(list(op[1]))
        elif k == 'ins':
            L.insert(op[1], list(op[2]))
        elif k == 'hedit':
            if op[1] >= len(L):
                return 'skip'
            e = L[op[1]]
            r = Pages.step(m, op[2])
            if r == 'ok':
                e[1] = op[3]
            return r
        elif k == 'mv':
            if max(op[1:]) >= len(L):
                return 'skip'
            L.insert(op[2], L.pop(op[1]))
        elif k in ('set', 'del', 'ren', 'copyto', 'edit'):
            if op[1] >= len(L):
                return 'skip'
            i = op[1]
            if op[2:3] == ['n']:
                # by name: the first of that name
                i = [x[0] for x in L].index(L[i][0])
            if k == 'set':
                L[i] = list(op[3])
            elif k == 'del':
                del L[i]
            elif k == 'edit':
                L[i][1] = op[4]
            elif k == 'ren':
                L[i][0] = op[2]
            else:
                L.append(['CopyOf' + L[i][0], L[i][1]])
        elif k == 'bad':
            return 'rej'
        return 'ok'

    @staticmethod
    def coll(doc, m):
        return doc.sheets if m['k'] == 'ods' else doc.pages

    @staticmethod
    def mk(ez, m, new):
        if m['k'] == 'ods':
            t = ez.Sheet(new[0], size=(1, 1))
            t[0, 0].set_value(new[1])
            return t
        import sys
        p = sys.modules['ezodf.drawingpage'].DrawingPage(new[0])
        p.xmlnode.set(q('draw:id'), new[1])
        return p

    @staticmethod
    def apply(ez, doc, op, m):
        S = Pages.coll(doc, m)
        k = op[0]
        if k == 'app':
            if op[2]:
                S += Pages.mk(ez, m, op[1])
            else:
                S.append(Pages.mk(ez, m, op[1]))
        elif k == 'ins':
            S.insert(op[1], Pages.mk(ez, m, op[2]))
        elif k == 'hedit':
            h = S[op[1]]
            Pages.apply(ez, doc, op[2], m)
            Pages.setmark(h, m, op[3])
        elif k == 'mv':
            h = S[op[1]]
            del S[op[1]]
            S.insert(op[2], h)
        elif k in ('set', 'del', 'edit'):
            key = op[1]
            if op[2] == 'n':
                key = m['l'][op[1]][0]
            elif op[3 if k == 'edit' else -1]:
                key = op[1] - len(m['l'])
            if k == 'set':
                S[key] = Pages.mk(ez, m, op[3])
            elif k == 'edit':
                Pages.setmark(S[key], m, op[4])
            else:
                del S[key]
        elif k == 'ren':
            S[op[1]].name = op[2]
        elif k == 'copyto':
            S.append(S[op[1]].copy())
        elif k == 'bad':
            if op[1] == 0:
                S['no such name']
            elif op[1] == 1:
                S[len(m['l'])]
            elif op[1] == 2:
                S.append(ez.Paragraph('x'))
            elif op[1] == 3:
                del S['no such name']
            elif op[1] == 4:
                S.insert(0, ez.Paragraph('x'))
            else:
                S[0] = ez.Paragraph('x')

    @staticmethod
    def view(m):
        return [list(x[:2]) for x in m['l']]

    @staticmethod
    def mark(o, m):
        if m['k'] == 'ods':
            return o[0, 0].value
        return o.xmlnode.get(q('draw:id'))

    @staticmethod
    def setmark(o, m, v):
        if m['k'] == 'ods':
            o[0, 0].set_value(v)
        else:
            o.set_attr(q('draw:id'), v)

    @staticmethod
    def observe(ez, doc, m):
        S = Pages.coll(doc, m)
        out = [[o.name, Pages.mark(o, m)] for o in S]
        if len(S) != len(out):
            raise Mismatch('len %d, iterates %d' % (len(S), len(out)))
        names = list(S.names())
        if names != [x[0] for x in out]:
            raise Mismatch('names() %r' % names)
        for i in range(len(out)):
            o = S[i]
            if [o.name, Pages.mark(o, m)] != out[i]:
                raise Mismatch('[%d] is another element' % i)
            j = i - len(out)
            if [S[j].name, Pages.mark(S[j], m)] != out[i]:
                raise Mismatch('[%d] is another element' % j)
            if S.index(o) != i:
                raise Mismatch('index() of element %d is %r' % (i, S.index(o)))
            first = names.index(out[i][0])
            if Pages.mark(S[out[i][0]], m) != out[first][1]:
                raise Mismatch('lookup by name %r' % out[i][0])
        tags = [c.tag for c in doc.body.xmlnode]
        if sum(1 for t in tags if t in EPI) != m['epi']:
            raise Mismatch('trailing elements lost')
        if (m['pre'] & 2) and q('table:calculation-settings') not in tags:
            raise Mismatch('leading elements lost')
        return out


# ===================================================================== styles

SATTRS = {'display-name': 'style:display-name', 'parent-style-name': 'style:parent-style-name',
          'next-style-name': 'style:next-style-name', 'class': 'style:class'}
SNS = ('xmlns:style="urn:oasis:names:tc:opendocument:xmlns:style:1.0" '
       'xmlns:fo="urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0" '
       'xmlns:svg="urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0"')


class Styles(object):
    """The style containers of a document: injected, found by name, replaced, changed."""
    name = 'styles'
    kind = 'odt'
    prop = 'C25'
    # container: (element of the part, what it holds)
    CONT = {'st': ('office:styles', ['style:style']),
            'au': ('office:automatic-styles', ['style:style', 'style:page-layout']),
            'ma': ('office:master-styles', ['style:master-page']),
            'fo': ('office:font-face-decls', ['style:font-face']),
            'ca': ('office:automatic-styles', ['style:style']),
            'cf': ('office:font-face-decls', ['style:font-face'])}
    TAGS = frozenset(q(t) for c in CONT.values() for t in c[1])
    # attributes of an element: {key: name in the markup}; those with a wrapper class
    ATTRS = {'style:style': SATTRS,
             'style:page-layout': {'page-usage': 'style:page-usage'},
             'style:master-page': {'page-layout-name': 'style:page-layout-name'},
             'style:font-face': {'font-family': 'svg:font-family'}}
    MAPPED = ('style:style', 'style:page-layout')

    @staticmethod
    def empty():
        return {'st': []}

    @staticmethod
    def rstyle(rng, name=None, tag='style:style'):
        a = {}
        for k in sorted(Styles.ATTRS[tag]):
            if rng.random() < .4:
                a[k] = rng.choice(['D1', 'Text body', '\u00e4 <&', "it's", 'a"b'])
        x = {'n': name or rng.choice(['S1', 'S2', 'S 3', 'Heading_20_1', '\u00c4', "S'5", 'S"6', '7']),
             'f': rng.choice(['paragraph', 'text', 'table']), 'a': a,
             'c': rng.choice([None, '#ff0000', '#00ff00'])}
        if tag != 'style:style':
            x['t'] = tag
        return x

    @staticmethod
    def initial(rng):
        m = {'st': [Styles.rstyle(rng) for _ in range(rng.randrange(4))]}
        for c in ('au', 'ma', 'fo', 'ca', 'cf'):
            if rng.random() < .5:
                m[c] = [Styles.rstyle(rng, tag=rng.choice(Styles.CONT[c][1]))
                        for _ in range(rng.randrange(1, 4))]
        return m

    @staticmethod
    def flat(m):
        """The model of a flat document, which has one container of a kind."""
        m['flat'] = 1
        m.pop('ca', None)
        m.pop('cf', None)
        return m

    @staticmethod
    def build(m):
        return None

    @staticmethod
    def fill(e, x):
        tag = x.get('t', 'style:style')
        e.set(q('style:name'), x['n'])
        if tag == 'style:style':
            e.set(q('style:family'), x['f'])
        for k, v in sorted(x['a'].items()):
            e.set(q(Styles.ATTRS[tag][k]), v)
        if x['c']:
            sub(e, 'style:text-properties').set(q('fo:color'), x['c'])

    @staticmethod
    def styles_extra(m):
        def cb(content, styles):
            for c in sorted(Styles.CONT):
                root = content if c in ('ca', 'cf') else styles
                for x in m.get(c, ()):
                    Styles.fill(sub(root.find(q(Styles.CONT[c][0])), x.get('t', 'style:style')), x)
        return cb

    @staticmethod
    def xml(x, ns=False):
        esc = lambda v: v.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')
        tag = x.get('t', 'style:style')
        at = Styles.ATTRS[tag]
        a = ''.join(' %s="%s"' % (at[k], esc(v)) for k, v in sorted(x['a'].items()))
        if tag == 'style:style':
            a = ' style:family="%s"' % x['f'] + a
        return '<%s%s style:name="%s"%s>%s</%s>' % (
            tag, ' ' + SNS if ns else '', esc(x['n']), a,
            '<style:text-properties fo:color="%s"/>' % x['c'] if x['c'] else '', tag)

    @staticmethod
    def gen(rng, m):
        x = rng.random()
        c = 'st'
        if rng.random() < .4:
            c = rng.choice(['au', 'ma', 'fo'] if m.get('flat') else ['au', 'ma', 'fo', 'ca', 'cf'])
        S = m.get(c, [])
        names = [s['n'] for s in S]
        if c == 'st' and (not names or x < .4):
            return ['inj', Styles.rstyle(rng), rng.random() < .2]
        tag = rng.choice(Styles.CONT[c][1])
        if not names:
            return ['put', Styles.rstyle(rng, tag=tag), c]
        n = rng.choice(names)
        if x < .58:
            return ['put', Styles.rstyle(rng, rng.choice([n, n, 'New %d' % rng.randrange(9)]), tag), c]
        if x < .92:
            s = Styles.first(m, n, c)
            tag = s.get('t', 'style:style')
            if tag == 'style:style' and x > .86:
                return ['color', n, rng.choice(['#123456', '#abcdef']), c]
            if x > .78:
                return ['ren', n, rng.choice(['S1', 'S2', 'R%d' % rng.randrange(5)]), c]
            return ['attr', n, rng.choice(sorted(Styles.ATTRS[tag])), 'v%d' % rng.randrange(99), c]
        return ['bad', rng.randrange(6), c]

    @staticmethod
    def first(m, n, c='st'):
        for s in m.get(c, ()):
            if s['n'] == n:
                return s

    @staticmethod
    def step(m, op):
        k = op[0]
        c = op[-1] if op[-1] in Styles.CONT else 'st'
        if m.get('flat') and c in ('ca', 'cf'):
            return 'skip'
        if k == 'inj':
            m['st'].append(copy.deepcopy(op[1]))
        elif k == 'put':
            S = m.setdefault(c, [])
            for i, s in enumerate(S):
                if s['n'] == op[1]['n']:
                    S[i] = copy.deepcopy(op[1])
                    break
            else:
                S.append(copy.deepcopy(op[1]))
        elif k in ('attr', 'color', 'ren'):
            s = Styles.first(m, op[1], c)
            if s is None:
                return 'skip'
            if k == 'attr':
                if op[2] not in Styles.ATTRS[s.get('t', 'style:style')]:
                    return 'skip'
                s['a'][op[2]] = op[3]
            elif k == 'ren':
                s['n'] = op[2]
            else:
                s['c'] = op[2]
        elif k == 'bad':
            return 'rej'
        return 'ok'

    @staticmethod
    def cont(doc, c='st'):
        s = doc.styles
        package = hasattr(s, 'styles')
        if c in ('ca', 'cf'):
            if not package:
                return None
            return doc.content.automatic_styles if c == 'ca' else doc.content.fonts
        s = s if package else doc
        return {'st': lambda: s.styles, 'au': lambda: s.automatic_styles,
                'ma': lambda: s.master_styles, 'fo': lambda: s.fonts}[c]()

    @staticmethod
    def apply(ez, doc, op, m):
        k = op[0]
        c = op[-1] if op[-1] in Styles.CONT else 'st'
        S = Styles.cont(doc, c)
        if k == 'inj':
            doc.inject_style(Styles.xml(op[1], op[2]))
        elif k == 'put':
            S[op[1]['n']] = sys.modules['ezodf.xmlns'].wrap(
                etree.fromstring(Styles.xml(op[1], True)))
        elif k == 'attr':
            w = S[op[1]]
            tag = Styles.first(m, op[1], c).get('t', 'style:style')
            if tag in Styles.MAPPED and len(op[3]) % 2:
                w[op[2]] = op[3]
            else:
                w.xmlnode.set(q(Styles.ATTRS[tag][op[2]]), op[3])
        elif k == 'ren':
            w = S[op[1]]
            tag = Styles.first(m, op[1], c).get('t', 'style:style')
            if tag in Styles.MAPPED and len(op[2]) % 2:
                w['name'] = op[2]
            else:
                w.xmlnode.set(q('style:name'), op[2])
        elif k == 'color':
            e = S[op[1]].xmlnode
            p = e.find(q('style:text-properties'))
            if p is None:
                p = sub(e, 'style:text-properties')
            p.set(q('fo:color'), op[2])
        elif op[1] == 0:
            doc.inject_style('<style:style style:name="broken"')
        elif op[1] == 1:
            S['no such style']
        elif op[1] == 2:
            doc.inject_style('no markup')
        elif op[1] == 3:
            S['S1'] = 'no style'
        else:
            for x in m.get(c, ()):
                if x.get('t', 'style:style') in Styles.MAPPED:
                    if op[1] == 4:
                        S[x['n']]['no such attribute']
                    else:
                        S[x['n']]['no such attribute'] = 'v'
            raise KeyError(op[1])

    @staticmethod
    def row(tag, n, f, a, c):
        return [tag, n, f if tag == 'style:style' else None,
                [a.get(k) for k in sorted(Styles.ATTRS[tag])], c]

    @staticmethod
    def view(m):
        out = {}
        for c in sorted(Styles.CONT):
            v = [Styles.row(s.get('t', 'style:style'), s['n'], s['f'], s['a'], s['c'])
                 for s in m.get(c, ())]
            names = [s[1] for s in v]
            if v:
                out[c] = [v, [v[names.index(n)] for n in sorted(set(names))]]
        return out

    @staticmethod
    def ostyle(e):
        p = e.find(q('style:text-properties'))
        tag = [t for t in Styles.ATTRS if q(t) == e.tag][0]
        return Styles.row(tag, e.get(q('style:name')), e.get(q('style:family')),
                          {k: e.get(q(v)) for k, v in Styles.ATTRS[tag].items()},
                          p.get(q('fo:color')) if p is not None else None)

    @staticmethod
    def observe(ez, doc, m):
        res = {}
        for c in sorted(Styles.CONT):
            S = Styles.cont(doc, c)
            if S is None:
                continue
            out = [Styles.ostyle(e) for e in S.xmlnode if e.tag in Styles.TAGS]
            look = []
            before = etree.tostring(S.xmlnode)
            for n in sorted(set(x[1] for x in out)):
                st = S[n]
                look.append(Styles.ostyle(st.xmlnode))
                tag = look[-1][0]
                if tag in Styles.MAPPED:
                    for k, v in list(Styles.ATTRS[tag].items()) + [('name', 'style:name')]:
                        if st[k] != st.xmlnode.get(q(v)):
                            raise Mismatch('attribute %s of %s %r' % (k, tag, n))
            for n in ('S1', 'S2', 'nothing'):
                if n not in [x[1] for x in out]:
                    try:
                        S[n]
                    except KeyError:
                        continue
                    raise Mismatch('found a style %r, which is not in this container' % n)
            if etree.tostring(S.xmlnode) != before:
                raise Mismatch('looking up styles changes them')
            if out:
                res[c] = [out, look]
        return res


class Opaque(object):
    """A document nobody has a model of (damaged by another program, yet legible)."""
    name = 'opaque'
    prop = 'C04'

    @staticmethod
    def empty():
        return {}

    @staticmethod
    def step(m, op):
        return 'skip'

    @staticmethod
    def observe(ez, doc, m):
        return None

    @staticmethod
    def view(m):
        return None


DOMAINS = {d.name: d for d in (Text, Sheet, Meta, Vars, Pages, Styles, Opaque)}


# ============================================================ two documents

def movable(D, m1, m2):
    """The lists of pieces that can be moved from one document into another."""
    if D is Text:
        return m1['b'], m2['b']
    if D is Sheet:
        return m1['sh'], m2['sh']
    if D is Pages and m1['k'] == m2['k']:
        return m1['l'], m2['l']
    return None


def xstep(D, m1, m2, op):
    """op: [i, how, j, name]: the piece i of one document is appended to (0), inserted
    before (1) or takes the place of (2) the piece j of the other one; 3: its copy."""
    i, how, j, name = op
    ls = movable(D, m1, m2)
    if ls is None:
        return 'skip'
    a, b = ls
    if i >= len(a) or how in (1, 2) and j >= len(b) or how == 3 and D is Text or \
            D is Sheet and how != 3 and len(a) < 2:
        return 'skip'
    p = copy.deepcopy(a[i])
    if how != 3:
        del a[i]
    if D is Sheet:
        p['n'] = name
    elif D is Pages:
        if how == 3 and m1['k'] != 'ods':
            return 'skip'
        p[0] = name
    if how in (0, 3):
        b.append(p)
    elif how == 1:
        b.insert(j, p)
    else:
        b[j] = p
    return 'ok'


def xapply(D, ez, doc1, doc2, m1, m2, op):
    i, how, j, name = op
    if D is Text:
        o = doc1.body[Text.idx(doc1.body)[i]]
        B = doc2.body
        if how == 0:
            B.append(o)
        elif how == 1:
            B.insert_before(B[Text.idx(B)[j]], o)
        else:
            B.replace(B[Text.idx(B)[j]], o)
        return
    A, B = (d.sheets if D is Sheet else Pages.coll(d, m1) for d in (doc1, doc2))
    o = A[i]
    if how == 3:
        o = o.copy()
    o.name = name
    if how in (0, 3):
        B.append(o)
    elif how == 1:
        B.insert(j, o)
    else:
        B[j] = o
