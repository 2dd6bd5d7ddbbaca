"""Independent reader and builder of OpenDocument packages (no ezodf code)."""
import hashlib
import io
import warnings
import zipfile

from lxml import etree

O = 'urn:oasis:names:tc:opendocument:xmlns:'
NS = {
    'office': O + 'office:1.0', 'meta': O + 'meta:1.0', 'text': O + 'text:1.0',
    'table': O + 'table:1.0', 'style': O + 'style:1.0', 'draw': O + 'drawing:1.0',
    'manifest': O + 'manifest:1.0', 'dc': 'http://purl.org/dc/elements/1.1/',
    'presentation': O + 'presentation:1.0', 'config': O + 'config:1.0',
    'svg': O + 'svg-compatible:1.0', 'xlink': 'http://www.w3.org/1999/xlink',
    'fo': O + 'xsl-fo-compatible:1.0',
    'x': 'urn:example:foreign',
}


def q(n):
    p, l = n.split(':')
    return '{%s}%s' % (NS[p], l)


class Bad(Exception):
    """Not a complete package; .reason says why."""


MIMES = {
    'odt': 'application/vnd.oasis.opendocument.text',
    'ods': 'application/vnd.oasis.opendocument.spreadsheet',
    'odg': 'application/vnd.oasis.opendocument.graphics',
    'odp': 'application/vnd.oasis.opendocument.presentation',
    'odc': 'application/vnd.oasis.opendocument.chart',
    'odi': 'application/vnd.oasis.opendocument.image',
    'odf': 'application/vnd.oasis.opendocument.formula',
    'odm': 'application/vnd.oasis.opendocument.text-master',
    'oth': 'application/vnd.oasis.opendocument.text-web',
}
for _k in ('odt', 'ods', 'odg', 'odp', 'odc', 'odi'):
    MIMES[_k.replace('od', 'ot')] = MIMES[_k] + '-template'
BODY = {'odt': 'office:text', 'ods': 'office:spreadsheet', 'odg': 'office:drawing',
        'odp': 'office:presentation', 'odc': 'office:chart', 'odi': 'office:image',
        'odm': 'office:text', 'oth': 'office:text'}
for _k in ('odt', 'ods', 'odg', 'odp', 'odc', 'odi'):
    BODY[_k.replace('od', 'ot')] = BODY[_k]
XMLPARTS = ('content.xml', 'styles.xml', 'meta.xml')
MANAGED = ('mimetype', 'META-INF/manifest.xml') + XMLPARTS


# containers a reader may add when they are missing; irrelevant while empty
NEUTRAL = frozenset(q(n) for n in (
    'text:variable-decls', 'text:user-field-decls', 'office:scripts', 'office:font-face-decls',
    'office:automatic-styles', 'office:styles', 'office:master-styles', 'office:settings',
    'office:meta', 'meta:document-statistic'))


def canon_list(node, skip=None, out=None):
    """Canonical token list of an XML tree (prefixes and empty text ignored)."""
    if out is None:
        out = []
    tag = node.tag
    if not isinstance(tag, str):
        out.append('<?%s %s?>' % ('c' if tag is etree.Comment else 'p', node.text))
    else:
        if skip and tag in skip:
            return out
        if tag in NEUTRAL and not len(node) and not node.attrib and not node.text:
            return out
        out.append('<' + tag)
        for k in sorted(node.attrib):
            out.append('@%s=%s' % (k, node.attrib[k]))
        if node.text:
            out.append('T' + node.text)
        for c in node:
            canon_list(c, skip, out)
            if c.tail:
                out.append('T' + c.tail)
        out.append('>')
    return out


def chash(node, skip=None):
    toks = canon_list(node, skip)
    # text around skipped or removed elements may be split differently
    merged = []
    for t in toks:
        if merged and t[0] == 'T' and merged[-1][0] == 'T':
            merged[-1] += t[1:]
        else:
            merged.append(t)
    return hashlib.sha1('\n'.join(merged).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


META_SKIP = frozenset([q('dc:date'), q('meta:generator'), q('meta:editing-cycles')])


class Pkg(object):
    """A decoded package."""
    __slots__ = ('names', 'members', 'mimetype', 'parts', 'foreign', 'infos', 'manifest',
                 'nodes', 'flat', 'damaged', 'absent')

    def key(self):
        """What identifies a document version, save bookkeeping left out."""
        return (self.mimetype, tuple(sorted(self.parts.items())),
                tuple(sorted((k, hashlib.sha1(v).hexdigest()[:16])
                             for k, v in self.foreign.items())))


OPTIONAL = ('mimetype', 'META-INF/manifest.xml', 'styles.xml', 'meta.xml')


def entries(data, start):
    end = data.rfind(b'PK\x05\x06')
    return data.count(b'PK\x01\x02', start, end if end > 0 else len(data))


def swallow(data, at, how):
    """The package with a directory entry whose length covers entries behind it,
    or with one byte of the directory changed."""
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
        start, n = z.start_dir, len(z.infolist())
        z.close()
    except Exception:
        return None
    d = bytearray(data)
    pos = [start]
    while len(pos) <= n:
        a = pos[-1]
        pos.append(a + 46 + sum(int.from_bytes(d[a + k:a + k + 2], 'little') for k in (28, 30, 32)))
    if bytes(d[pos[-1]:pos[-1] + 4]) != b'PK\x05\x06':
        return None
    if how > 2:
        # a single byte
        d[start + int((pos[-1] - start) * at)] ^= 1 << (how - 3)
        return bytes(d)
    if n < 2:
        return None
    i = int((n - 1) * at)
    j = n if how == 0 else min(n, i + 1 + how)
    f = pos[i] + 32                     # length of the comment
    v = int.from_bytes(d[f:f + 2], 'little') + pos[j] - pos[i + 1]
    if v > 65535:
        return None
    d[f:f + 2] = v.to_bytes(2, 'little')
    return bytes(d)


def decode(data, lenient=False, partial=False):
    """Decode package bytes fully; raise Bad if anything is missing or damaged.

    lenient: damage confined to carried members is noted in .damaged instead.
    partial: members a package need not have may be missing (listed in .absent)."""
    p = Pkg()
    p.damaged = []
    p.absent = []
    p.flat = False
    if data[:2] != b'PK':
        if data.lstrip()[:1] == b'<':
            return _decode_flat(data)
        raise Bad('not a package (%d bytes)' % len(data))
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
        infos = z.infolist()
        p.infos = infos
        p.names = [i.filename for i in infos]
        p.members = {}
        for i in infos:
            try:
                p.members[i.filename] = z.read(i)
            except Exception:
                if not lenient or i.filename in MANAGED:
                    raise
                p.damaged.append(i.filename)
        z.close()
        if len(infos) < entries(data, z.start_dir):
            # an entry of the directory swallows those behind it
            if not lenient:
                raise Bad('entries lost')
            p.damaged.append('?')
    except Exception as e:
        raise Bad('damaged zip: %s' % type(e).__name__)
    for n in MANAGED:
        if n not in p.members:
            if not (partial and n in OPTIONAL):
                raise Bad('member missing: ' + n)
            p.absent.append(n)
    p.nodes = {}
    p.parts = {}
    for n in XMLPARTS + ('META-INF/manifest.xml',):
        if n in p.absent:
            continue
        try:
            p.nodes[n] = etree.XML(p.members[n])
        except Exception:
            raise Bad('part does not parse: ' + n)
    for n in XMLPARTS:
        if n in p.absent:
            p.parts[n] = 'absent'
            continue
        p.parts[n] = chash(p.nodes[n], META_SKIP if n == 'meta.xml' else None)
    p.foreign = {k: v for k, v in p.members.items() if k not in MANAGED}
    p.manifest = {}
    for e in p.nodes.get('META-INF/manifest.xml', ()):
        if isinstance(e.tag, str):
            p.manifest.setdefault(e.get(q('manifest:full-path')), []).append(
                e.get(q('manifest:media-type')))
    if 'mimetype' in p.absent:
        p.mimetype = (p.manifest.get('/') or [None])[0]
    else:
        p.mimetype = p.members['mimetype'].decode('utf-8', 'replace')
    return p


XNS = '{%s}' % NS['x']
INBODY = q('office:body')


def xmarks(roots):
    """Unknown markup outside the document body: sorted hashes of its places."""
    out = []
    for name, root in roots:
        st = [(root, name)]
        while st:
            e, path = st.pop()
            if not isinstance(e.tag, str):
                out.append('%s|%s' % (path, e.text))
                continue
            if e.tag.startswith(XNS):
                out.append(path + '|' + chash(e))
                continue
            for k in e.attrib:
                if k.startswith(XNS):
                    out.append('%s|@%s=%s' % (path, k, e.get(k)))
            if e.tag == INBODY:
                continue
            for c in e:
                st.append((c, path + '/' + e.tag))
    return sorted(out)


BLANK_META = frozenset([q('dc:date'), q('meta:generator'), q('meta:creation-date'),
                        q('meta:document-statistic')])


def blank_part(name, node):
    """Is this what a document without the part starts with?"""
    if name == 'styles.xml':
        return all(c.tag in NEUTRAL and not len(c) for c in node)
    if name == 'meta.xml':
        return len(node) == 1 and node[0].tag == q('office:meta') and \
            all(c.tag in BLANK_META and not len(c) for c in node[0])
    return False


def damaged_only_foreign(data, gaps=()):
    """gaps: optional members the package lacked before it was damaged."""
    try:
        p = decode(data, True, True)
    except Bad:
        return None
    return p if p.damaged and set(p.absent) <= set(gaps) else None


def _decode_flat(data):
    p = Pkg()
    p.damaged = []
    p.absent = []
    p.flat = True
    try:
        node = etree.XML(data)
    except Exception:
        raise Bad('flat XML does not parse')
    if node.tag != q('office:document'):
        raise Bad('flat XML root %s' % node.tag)
    p.names = p.infos = []
    p.members = {}
    p.mimetype = node.get(q('office:mimetype'))
    p.nodes = {'flat': node}
    p.parts = {'flat': chash(node, META_SKIP)}
    p.foreign = {}
    p.manifest = {}
    return p


ORDER = ['office:' + n for n in (
    'meta', 'settings', 'scripts', 'font-face-decls', 'styles', 'automatic-styles',
    'master-styles', 'body')]


def disorder(root):
    """Ways in which the elements of a managed part break the schema's order."""
    order = [q(n) for n in ORDER]
    got = [order.index(e.tag) for e in root if e.tag in order]
    if got != sorted(set(got)):
        return ['%s has %s' % (root.tag.split('}')[1], [ORDER[i] for i in got])]
    return []


def bare(root, tags):
    for e in list(root):
        if e.tag in [q(n) for n in tags] and not len(e):
            root.remove(e)


def wellformed(data, mimetype):
    """List of ways in which stored package bytes break package rules (C05)."""
    try:
        p = decode(data)
    except Bad as e:
        return ['incomplete: %s' % e]
    bad = []
    if p.flat:
        if p.mimetype != mimetype:
            bad.append('flat mimetype %r' % p.mimetype)
        return bad + disorder(p.nodes['flat'])
    if p.names[0] != 'mimetype':
        bad.append('first member is %r' % p.names[0])
    i0 = p.infos[0]
    if i0.compress_type != zipfile.ZIP_STORED:
        bad.append('mimetype is compressed')
    if i0.header_offset != 0 or data[30:38] != b'mimetype' or \
            data[38:38 + len(mimetype)] != mimetype.encode():
        bad.append('mimetype not at the fixed offset')
    if len(set(p.names)) != len(p.names):
        bad.append('duplicate members')
    if p.mimetype != mimetype:
        bad.append('mimetype %r instead of %r' % (p.mimetype, mimetype))
    if p.manifest.get('/') != [mimetype]:
        bad.append('manifest root entry %r' % (p.manifest.get('/'),))
    for n in XMLPARTS:
        if len(p.manifest.get(n, [])) != 1:
            bad.append('manifest entry of %s: %r' % (n, p.manifest.get(n)))
        elif p.manifest[n] != ['text/xml']:
            bad.append('manifest type of %s: %r' % (n, p.manifest[n]))
    for n, l in p.manifest.items():
        if len(l) > 1:
            bad.append('manifest lists %s %d times' % (n, len(l)))
    roots = {'content.xml': 'office:document-content', 'styles.xml': 'office:document-styles',
             'meta.xml': 'office:document-meta', 'META-INF/manifest.xml': 'manifest:manifest'}
    for n, r in roots.items():
        if p.nodes[n].tag != q(r):
            bad.append('root of %s is %s' % (n, p.nodes[n].tag))
        else:
            bad += disorder(p.nodes[n])
    return bad


# ------------------------------------------------------------------- building

def _root(tag, **attrs):
    e = etree.Element(q(tag), nsmap={k: v for k, v in NS.items() if k != 'x'})
    e.set(q('office:version'), '1.2')
    return e


def sub(parent, tag, text=None, **attrs):
    e = etree.SubElement(parent, q(tag))
    if text is not None:
        e.text = text
    for k, v in attrs.items():
        pre, _, name = k.partition('_')
        e.set(q('%s:%s' % (pre, name.replace('_', '-'))), v)
    return e


def ser(node):
    return etree.tostring(node, xml_declaration=True, encoding='UTF-8')


def unknown_attrs(c, s, mm, b):
    """Attributes no one knows on elements everybody knows."""
    for i, e in enumerate((c, s, mm, b, b.getparent(), s[1] if len(s) > 1 else s)):
        e.set(q('x:attr'), 'v%d' % i)
    for e in mm:
        if e.tag == q('dc:title'):
            e.set(q('x:lang'), 'en')
        if e.tag == q('meta:document-statistic'):
            e.set(q('x:stat'), '7')
            break
    else:
        sub(mm, 'meta:document-statistic').set(q('x:stat'), '7')


def unknown_meta(mm):
    """Metadata elements that exist in the standard but not in the library."""
    e = sub(mm, 'meta:template')
    e.set(q('xlink:href'), '../t.ott')
    e.set(q('x:attr'), 'tmpl')
    sub(mm, 'meta:editing-duration', 'PT1H').set(q('x:attr'), 'd')
    sub(mm, 'meta:printed-by', 'someone').set(q('x:attr'), 'p')
    mm.insert(0, etree.Comment('meta comment'))


def build(kind, body_cb=None, title=None, foreign=None, foreign_xml=0, opts=None,
          stylename=None, meta_extra=None, styles_extra=None):
    """Package bytes of a document of `kind`.

    foreign: {member: bytes}; foreign_xml: bit mask of unknown markup to include;
    opts: dict(order, method, manifest, dirs, nomime) varying the container."""
    opts = opts or {}
    c = _root('office:document-content')
    sub(c, 'office:scripts')
    sub(c, 'office:font-face-decls')
    sub(c, 'office:automatic-styles')
    b = sub(sub(c, 'office:body'), BODY[kind])
    if body_cb:
        body_cb(b)
    s = _root('office:document-styles')
    sub(s, 'office:font-face-decls')
    st = sub(s, 'office:styles')
    if stylename:
        sub(st, 'style:style', style_name=stylename, style_family='paragraph')
    sub(s, 'office:automatic-styles')
    sub(s, 'office:master-styles')
    if styles_extra:
        styles_extra(c, s)
    m = _root('office:document-meta')
    mm = sub(m, 'office:meta')
    sub(mm, 'meta:generator', 'Other/1.0')
    sub(mm, 'meta:creation-date', '2009-01-02T03:04:05')
    sub(mm, 'dc:date', '2009-02-02T03:04:05')
    if title is not None:
        sub(mm, 'dc:title', title)
    if meta_extra:
        meta_extra(mm)
    if foreign_xml & 1:
        e = sub(c, 'x:extra', 'unk \u00e9', x_a='1')
        sub(e, 'x:inner').tail = 'tail'
    if foreign_xml & 2:
        sub(st, 'x:style', x_name='S1')
    if foreign_xml & 4:
        sub(mm, 'x:meta', 'm', x_k='v')
    if foreign_xml & 8:
        c.insert(0, etree.Comment('a comment'))
    if foreign_xml & 32:
        unknown_attrs(c, s, mm, b)
    if foreign_xml & 64:
        unknown_meta(mm)
        c.insert(1, etree.ProcessingInstruction('keep', 'me'))
        sub(st, 'style:default-style', style_family='paragraph')
        st[-1].set(q('x:attr'), 'z')
    for e in (c, s):
        bare(e, opts.get('bare', ()))
    parts = {'content.xml': ser(c), 'styles.xml': ser(s), 'meta.xml': ser(m)}
    drop = opts.get('drop', ())
    nolist = opts.get('nolist', ())
    foreign = foreign or {}
    mf = etree.Element(q('manifest:manifest'), nsmap={'manifest': NS['manifest']})

    def ent(path, mt):
        e = etree.SubElement(mf, q('manifest:file-entry'))
        e.set(q('manifest:full-path'), path)
        e.set(q('manifest:media-type'), mt)
    ent('/', MIMES[kind])
    for n in parts:
        if n not in nolist and n not in drop:
            ent(n, 'text/xml')
    for n in foreign:
        ent(n, 'image/png' if n.endswith('.png') else '')
    if foreign_xml & 16 and 'Configurations2/' not in foreign:
        e = etree.SubElement(mf, q('manifest:file-entry'))
        e.set(q('manifest:full-path'), 'Configurations2/')
        e.set(q('manifest:media-type'), 'application/vnd.sun.xml.ui.configuration')
    if foreign_xml & 128:
        mf.insert(0, etree.Comment('manifest'))
    for n in drop:
        parts.pop(n, None)
    allm = [('mimetype', MIMES[kind].encode())] if 'mimetype' not in drop else []
    rest = list(parts.items()) + list(foreign.items())
    mfi = ('META-INF/manifest.xml', ser(mf))
    if opts.get('order', 0) == 1:
        rest = [mfi] + list(reversed(rest))
    elif opts.get('order', 0) == 2:
        rest = list(foreign.items()) + [mfi] + list(parts.items())
    else:
        rest = rest + [mfi]
    if 'META-INF/manifest.xml' in drop:
        rest.remove(mfi)
    if opts.get('dup') and foreign:
        n = sorted(foreign)[0]
        if not n.endswith('/'):
            rest.insert(0, (n, b'superseded'))
    buf = io.BytesIO()
    z = zipfile.ZipFile(Pipe(buf) if opts.get('zip') == 'pipe' else buf, 'w')
    warnings.simplefilter('ignore')
    if opts.get('zip') == 'comment':
        z.comment = b'a comment'
    for n, d in allm + rest:
        zi = zipfile.ZipInfo(n, (2009, 1, 2, 3, 4, 6))
        stored = n == 'mimetype' or n.endswith('/') or \
            (opts.get('method') == 1 and len(n) % 2 == 0)
        zi.compress_type = zipfile.ZIP_STORED if stored else zipfile.ZIP_DEFLATED
        if not stored and opts.get('method') == 2:
            zi.compress_type = (zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA)[len(n) % 2]
        if n.endswith('/'):
            zi.external_attr = 0x10
        elif opts.get('zip') == 'extra' and n != 'mimetype':
            zi.comment = b'about ' + n.encode('utf-8')[:8]
            zi.extra = b'UT\x05\x00\x01\x00\x00\x00\x00'
            zi.external_attr = 0o644 << 16
            zi.create_system = 3
        if opts.get('zip') == '64' and n != 'mimetype':
            with z.open(zi, 'w', force_zip64=True) as f:
                f.write(d)
        else:
            z.writestr(zi, d)
    z.close()
    return buf.getvalue()


class Pipe(object):
    """Packages written to what cannot seek have their sizes behind the members."""

    def __init__(self, buf):
        self.write, self.flush = buf.write, buf.flush


def build_flat(kind, body_cb=None, title=None, foreign_xml=0, opts=None, meta_extra=None,
               styles_extra=None):
    opts = opts or {}
    d = etree.Element(q('office:document'), nsmap={k: v for k, v in NS.items() if k != 'x'})
    d.set(q('office:mimetype'), MIMES[kind])
    d.set(q('office:version'), '1.2')
    if not opts.get('nometa'):
        mm = sub(d, 'office:meta')
        sub(mm, 'meta:generator', 'Other/1.0')
        sub(mm, 'meta:creation-date', '2009-01-02T03:04:05')
        if title is not None:
            sub(mm, 'dc:title', title)
        if meta_extra:
            meta_extra(mm)
        if foreign_xml & 4:
            sub(mm, 'x:meta', 'm', x_k='v')
        if foreign_xml & 64:
            unknown_meta(mm)
    for n in ('office:settings', 'office:scripts', 'office:font-face-decls', 'office:styles',
              'office:automatic-styles', 'office:master-styles'):
        sub(d, n)
    if styles_extra:
        styles_extra(d, d)
    b = sub(sub(d, 'office:body'), BODY[kind])
    if body_cb:
        body_cb(b)
    if foreign_xml & 1:
        sub(d, 'x:extra', 'unk \u00e9', x_a='1')
    if foreign_xml & 32:
        for i, e in enumerate((d, b, b.getparent())):
            e.set(q('x:attr'), 'v%d' % i)
    bare(d, opts.get('bare', ()))
    return ser(d)


def mangle(data, part, how):
    """The same package with the markup of one managed part damaged."""
    try:
        p = decode(data)
    except Bad:
        return None
    if p.flat or part not in p.members:
        return None
    x = p.members[part]
    k, at = how
    if k == 0:
        x = x[:int(len(x) * at)]                    # cut off
    elif k == 1:
        i = x.rfind(b'</')
        x = x[:i] + x[i:].replace(b'</', b'<', 1)   # last end tag
    elif k == 2:
        i = x.find(b'>', int(len(x) * at))
        x = x[:i + 1] + b' a & b ' + x[i + 1:]
    elif k == 3:
        i = x.find(b'<', int(len(x) * at))
        x = x[:i] + b'\xff\xfe' + x[i:]            # not UTF-8
    else:
        x = x + b'<trailing/>'
    try:
        etree.XML(x)
        return None
    except etree.XMLSyntaxError:
        pass
    buf = io.BytesIO()
    z = zipfile.ZipFile(buf, 'w')
    for i in p.infos:
        z.writestr(i, x if i.filename == part else p.members[i.filename])
    z.close()
    return buf.getvalue()


def hollow(data, part):
    """The same package with one managed part emptied (by a careless program)."""
    try:
        p = decode(data)
    except Bad:
        return None
    if p.flat:
        return None
    buf = io.BytesIO()
    z = zipfile.ZipFile(buf, 'w')
    for i in p.infos:
        z.writestr(i, b'' if i.filename == part else p.members[i.filename])
    z.close()
    return buf.getvalue()
