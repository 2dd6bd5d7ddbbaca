"""Workload domain: tables whose rows, columns and cells are stored with
repetition counts, expanded by the strategy configured when they are opened."""
import copy

from .dom import Mismatch, sub, q, text_xml

STRATS = ('all', 'all_but_last', 'all_less_maxcount')
DEFAULT = ['all_less_maxcount', 32, 32]
COLREP, ROWREP = q('table:number-columns-repeated'), q('table:number-rows-repeated')
TABLE, ROW, COL = q('table:table'), q('table:table-row'), q('table:table-column')
CELL, COVERED = q('table:table-cell'), q('table:covered-table-cell')
WORDS = ['a', 'b', 'c', 'Grüße', 'x y', '7']
EMPTY = [1, '', None, '']


def times(count, strat, limit, last):
    if strat == 'all':
        return count
    if strat == 'all_but_last':
        return 1 if last else count
    return count if count < limit else 1


def expanded(items, strat, limit, one):
    out = []
    for i, it in enumerate(items):
        n = times(it[0], strat, limit, i + 1 == len(items))
        out.extend(one(it) for _ in range(n))
    return out


def expand(s, st):
    """The sheet `s` as the strategy prescribes."""
    strat, mr, mc = st
    def row(r):
        return [1, r[1], expanded(r[2], strat, mc, lambda c: [1] + copy.deepcopy(c[1:]))]
    rows = expanded(s['rows'], strat, mr, row)
    nc = max([len(r[2]) for r in rows] or [0])
    for r in rows:
        r[2].extend(list(EMPTY) for _ in range(nc - len(r[2])))
    cols = expanded(s['cols'], strat, mc, lambda c: [1, c[1]])
    while len(cols) < nc:
        cols.append(list(cols[-1]) if cols else [1, None])
    return {'n': s['n'], 'rows': rows, 'cols': cols, 't': True, 'g': s.get('g', 0)}


class Grid(object):
    name = 'grid'
    kind = 'ods'
    prop = 'C21'

    @staticmethod
    def empty():
        return {'sh': [], 'so': list(DEFAULT), 'strat': list(DEFAULT)}

    @staticmethod
    def opened(m, strat):
        m['so'] = list(strat)
        for s in m['sh']:
            s['t'] = False
            s.pop('alt', None)

    # ------------------------------------------------------------- documents
    @staticmethod
    def rcount(rng, m):
        c = rng.choice([1, 1, 1, 2, 3, 4, 5, 9, 10, 11, 31, 32, 33, 40])
        return c

    @staticmethod
    def rsheet(rng, m, i):
        big = m['big']
        nr = rng.choice([1, 1, 2, 3, 4])
        rows = []
        for r in range(nr):
            cells = []
            for c in range(rng.choice([0, 1, 1, 2, 3, 4]) if r else rng.choice([1, 1, 2, 3])):
                flag = ''
                x = rng.random()
                if x < .08:
                    flag = 'cov'
                elif x < .14:
                    flag = 'nest'
                cells.append([Grid.rcount(rng, m), '' if flag or rng.random() < .3 else rng.choice(WORDS),
                              rng.choice([None, None, 'ce1', 'ce2']), flag])
            if cells and big and rng.random() < .5:
                cells[-1][0] = rng.choice([1000, 1024, 16384])
            rows.append([Grid.rcount(rng, m), rng.choice([None, 'ro1', 'ro2']), cells])
        if big and rng.random() < .7:
            rows[-1][0] = rng.choice([5000, 65536, 1048576])
        # keep the expanded sheet small
        while sum(r[0] * sum(c[0] for c in r[2]) for r in rows) > 1500 and not big:
            r = rng.choice(rows)
            if r[2] and rng.random() < .5:
                rng.choice(r[2])[0] = rng.choice([1, 2])
            else:
                r[0] = rng.choice([1, 2])
        cols = []
        for c in range(rng.choice([0, 1, 1, 2, 3])):
            cols.append([Grid.rcount(rng, m), rng.choice([None, 'co1', 'co2'])])
        if cols and big:
            cols[-1][0] = 1024
        return {'n': 'T%d' % i, 'rows': rows, 'cols': cols, 't': False, 'g': rng.randrange(5)}

    @staticmethod
    def initial(rng):
        m = Grid.empty()
        m['big'] = rng.random() < .25
        m['sh'] = [Grid.rsheet(rng, m, i) for i in range(rng.choice([1, 1, 2, 3]))]
        return m

    @staticmethod
    def build(m):
        def cb(body):
            text = body.tag == q('office:text')
            for s in m['sh']:
                if text:
                    sub(body, 'text:p', 'between')
                t = sub(body, 'table:table', table_name=s['n'])
                par = t
                if s['g'] == 2:
                    par = sub(t, 'table:table-column-group')
                for n, style in s['cols']:
                    e = sub(par, 'table:table-column')
                    if style:
                        e.set(q('table:style-name'), style)
                    if n > 1:
                        e.set(COLREP, str(n))
                for i, (n, style, cells) in enumerate(s['rows']):
                    par = t
                    if s['g'] == 1 and i == 0:
                        par = sub(t, 'table:table-header-rows')
                    elif s['g'] == 3:
                        par = sub(t, 'table:table-row-group')
                    e = sub(par, 'table:table-row')
                    if style:
                        e.set(q('table:style-name'), style)
                    if n > 1:
                        e.set(ROWREP, str(n))
                    for c in cells:
                        Grid.put_cell(e, c, s['g'] == 4)
        return cb

    @staticmethod
    def put_cell(e, c, explicit):
        n, text, style, flag = c
        x = sub(e, 'table:covered-table-cell' if flag == 'cov' else 'table:table-cell')
        if style:
            x.set(q('table:style-name'), style)
        if n > 1 or explicit:
            x.set(COLREP, str(n))
        if text:
            x.set(q('office:value-type'), 'string')
            text_xml(x, 'text:p', text)
        if flag == 'nest':
            t = sub(x, 'table:table', table_name='inner')
            sub(t, 'table:table-column').set(COLREP, '2')
            r = sub(t, 'table:table-row')
            r.set(ROWREP, '3')
            text_xml(sub(r, 'table:table-cell'), 'text:p', 'in')

    # ------------------------------------------------------------ operations
    @staticmethod
    def gen(rng, m):
        if not m['sh'] or rng.random() < .04 and len(m['sh']) < 4:
            return ['add', 'N%d' % rng.randrange(99), rng.choice([1, 2, 4]), rng.choice([1, 3])]
        si = rng.randrange(len(m['sh']))
        x = rng.random()
        way = rng.choice(['i', 'i', 'neg', 'name', 'iter', 'body', 'cell', 'row', 'col'])
        if x < .35:
            return ['touch', si, way]
        if x < .42:
            return ['peek']
        if x < .5 and len(m['sh']) < 4:
            return ['copy', si, 'C%d' % rng.randrange(99)]
        if x < .54 and len(m['sh']) > 1:
            return ['del', si]
        r, c = rng.randrange(6), rng.randrange(6)
        if x < .8:
            return ['set', si, r, c, rng.choice(WORDS)]
        k = rng.choice(['insrow', 'delrow', 'inscol', 'delcol', 'approw', 'appcol'])
        if k in ('inscol', 'delcol') and rng.random() < .3:
            r = -1 - rng.randrange(3)
        return [k, si, r, rng.choice([1, 1, 2])]

    @staticmethod
    def touch(m, i):
        s = m['sh'][i]
        if s['t']:
            return s
        n = expand(s, m['so'])
        if m['strat'] != m['so']:
            a = expand(s, m['strat'])
            if a != n:
                n['alt'] = a
        m['sh'][i] = n
        return n

    @staticmethod
    def step(m, op):
        k = op[0]
        if k == 'add':
            m['sh'].append({'n': op[1], 'rows': [[1, None, [list(EMPTY) for _ in range(op[3])]]
                                                 for _ in range(op[2])],
                            'cols': [[1, None] for _ in range(op[3])], 't': True, 'g': 0})
            return 'ok'
        if k == 'peek':
            return 'ok'
        if op[1] >= len(m['sh']):
            return 'skip'
        if k == 'touch' and op[2] == 'iter':
            for i in range(len(m['sh'])):
                Grid.touch(m, i)
            return 'ok'
        if k == 'del':
            del m['sh'][op[1]]
            return 'ok'
        rej = 'rej' if m['sh'][op[1]]['t'] else 'skip'
        s = Grid.touch(m, op[1])
        if 'alt' in s and k != 'touch':
            return 'skip'
        rows, cols = s['rows'], s['cols']
        nr, nc = len(rows), len(rows[0][2]) if rows else 0
        if k == 'copy':
            n = copy.deepcopy(s)
            n['n'] = op[2]
            m['sh'].append(n)
        elif k == 'set':
            r, c = op[2], op[3]
            if r >= nr or c >= nc or rows[r][2][c][3]:
                return 'skip'
            rows[r][2][c][1] = op[4]
        elif k in ('insrow', 'delrow', 'approw'):
            i, n = op[2], op[3]
            new = lambda: [1, None, [list(EMPTY) for _ in range(nc)]]
            if k == 'approw':
                rows.extend(new() for _ in range(n))
            elif i >= nr or k == 'delrow' and (i + n > nr or n >= nr):
                return rej
            elif k == 'insrow':
                rows[i:i] = [new() for _ in range(n)]
            else:
                del rows[i:i + n]
        elif k in ('inscol', 'delcol', 'appcol'):
            i, n = op[2], op[3]
            if k == 'appcol':
                i = nc
            elif i < 0:
                i += nc
            if i < 0 or k != 'appcol' and i >= nc or k == 'delcol' and (i + n > nc or n >= nc):
                return rej
            if k == 'delcol':
                for r in rows:
                    del r[2][i:i + n]
                del cols[i:i + n]
            else:
                for r in rows:
                    r[2][i:i] = [list(EMPTY) for _ in range(n)]
                cols[i:i] = [[1, None] for _ in range(n)]
        return 'ok'

    @staticmethod
    def nodes(doc):
        return [e for e in doc.body.xmlnode if e.tag == TABLE]

    @staticmethod
    def get(doc, m, i, way):
        node = Grid.nodes(doc)[i]
        if way == 'body' or not hasattr(doc, 'sheets'):
            return doc.body[list(doc.body.xmlnode).index(node)]
        if way == 'name' and [s['n'] for s in m['sh']].count(m['sh'][i]['n']) == 1:
            return doc.sheets[m['sh'][i]['n']]
        if way == 'neg':
            return doc.sheets[i - len(m['sh'])]
        return doc.sheets[i]

    @staticmethod
    def apply(ez, doc, op, m):
        k = op[0]
        home = doc.sheets if hasattr(doc, 'sheets') else doc.body
        if k == 'add':
            home.append(ez.Table(op[1], size=(op[2], op[3])))
            return
        if k == 'peek':
            if hasattr(doc, 'sheets'):
                if list(doc.sheets.names()) != [s['n'] for s in m['sh']] or \
                        len(doc.sheets) != len(m['sh']):
                    raise Mismatch('names of the sheets')
            return
        if k == 'touch' and op[2] == 'iter':
            for x in home:
                pass
            return
        if k == 'del':
            node = Grid.nodes(doc)[op[1]]
            if hasattr(doc, 'sheets'):
                del doc.sheets[op[1]]
            else:
                del doc.body[list(doc.body.xmlnode).index(node)]
            return
        t = Grid.get(doc, m, op[1], op[2] if k == 'touch' else 'i')
        if k == 'touch':
            if op[2] == 'cell':
                t[0, 0]
            elif op[2] == 'row':
                t.row(0)
            elif op[2] == 'col':
                t.column_info(0)
        elif k == 'copy':
            home.append(t.copy(op[2]))
        elif k == 'set':
            t[op[2], op[3]].set_value(op[4])
        elif k == 'approw':
            t.append_rows(op[3])
        elif k == 'insrow':
            t.insert_rows(op[2], op[3])
        elif k == 'delrow':
            t.delete_rows(op[2], op[3])
        elif k == 'appcol':
            t.append_columns(op[3])
        elif k == 'inscol':
            t.insert_columns(op[2], op[3])
        elif k == 'delcol':
            t.delete_columns(op[2], op[3])

    # ----------------------------------------------------------- observation
    @staticmethod
    def sview(s):
        return [s['n'], squeeze([[r[1], squeeze([c[1:] for c in r[2]], [c[0] for c in r[2]])]
                                 for r in s['rows']], [r[0] for r in s['rows']]),
                squeeze([c[1] for c in s['cols']], [c[0] for c in s['cols']])]

    @staticmethod
    def view(m):
        return [Grid.sview(s) for s in m['sh']]

    @staticmethod
    def own(node, tag):
        return [e for e in node.iter(tag) if next(e.iterancestors(TABLE)) is node]

    @staticmethod
    def raw(node):
        """Rows, cells and columns with their counts as they stand in the tree."""
        def cell(e):
            flag = 'cov' if e.tag == COVERED else ''
            inner = e.find(TABLE)
            if inner is not None:
                rs = Grid.own(inner, ROW)
                cs = Grid.own(inner, COL)
                if [(r.get(ROWREP), len(r)) for r in rs] != [('3', 1)] or \
                        [c.get(COLREP) for c in cs] != ['2'] or \
                        ''.join(rs[0].itertext()) != 'in':
                    raise Mismatch('table inside a cell has changed')
                flag = 'nest'
            txt = ''.join(''.join(p.itertext()) for p in e if p.tag == q('text:p'))
            return [int(e.get(COLREP, '1')), txt, e.get(q('table:style-name')), flag]
        return {'n': node.get(q('table:name')),
                'rows': [[int(r.get(ROWREP, '1')), r.get(q('table:style-name')),
                          [cell(c) for c in r if c.tag in (CELL, COVERED)]]
                         for r in Grid.own(node, ROW)],
                'cols': [[int(c.get(COLREP, '1')), c.get(q('table:style-name'))]
                         for c in Grid.own(node, COL)]}

    @staticmethod
    def observe(ez, doc, m):
        nodes = Grid.nodes(doc)
        raws = [Grid.raw(n) for n in nodes]
        out = [Grid.sview(r) for r in raws]
        if len(nodes) != len(m['sh']):
            return out
        for i, (s, r, o) in enumerate(zip(m['sh'], raws, out)):
            if not s['t']:
                continue
            if 'alt' in s:
                if o == Grid.sview(s['alt']):
                    raise Late('sheet %d, opened under %s, is expanded under the later %s'
                               % (i, m['so'], m['strat']))
                s.pop('alt')
            if o != Grid.sview(s):
                continue
            # what the API shows of it
            t = Grid.get(doc, m, i, 'i')
            rows, cols = r['rows'], r['cols']
            nc = len(rows[0][2]) if rows else 0
            if (t.nrows(), t.ncols()) != (len(rows), nc):
                raise Mismatch('size of sheet %d: %s x %s, stored are %s x %s' % (
                    i, t.nrows(), t.ncols(), len(rows), nc))
            for a in {0, len(rows) // 2, len(rows) - 1} if rows else ():
                got = [[c.value or '', c.style_name, c.covered] for c in t.row(a)]
                if got != [[c[1], c[2], c[3] == 'cov'] for c in rows[a][2]]:
                    raise Mismatch('row %d of sheet %d' % (a, i))
                if t.row_info(a).style_name != rows[a][1]:
                    raise Mismatch('row info %d of sheet %d' % (a, i))
            for b in {0, nc // 2, nc - 1} if nc else ():
                if [c.value or '' for c in t.column(b)] != [x[2][b][1] for x in rows]:
                    raise Mismatch('column %d of sheet %d' % (b, i))
                if t.column_info(b).style_name != cols[b][1]:
                    raise Mismatch('column info %d of sheet %d' % (b, i))
        return out


class Late(Mismatch):
    cls = 'late-strategy'


def squeeze(items, counts):
    """Counts of equal neighbours; 1 repeated 3 times and 3 single ones differ."""
    out = []
    for it, n in zip(items, counts):
        if out and out[-1][0] == n and out[-1][2] == it:
            out[-1][1] += 1
        else:
            out.append([n, 1, it])
    return out
