import os, re
from html.entities import name2codepoint
from hypothesis import assume, strategies as st
from core import Part
from gen import *
from jy import Exc, Script
from props import c10

CLEAN = [b'a', b'report', b'.txt', b'.', b'..', b'/', b'\\', b'../', b'..\\', b'C:\\dir\\', b'/etc/passwd', b'caf\xc3\xa9', b'\xff', b'\x00', b' ', b'"', b"'", b';', b'%2f', b'&', b'#', b'\t', b'-', b'|', b'*', b'\x01', b'\x7f', b'\xe2\x80\xae',
         b'x' * 100, b'x' * 260, b'.' + b'e' * 120, b'.' + b'e' * 260, b'\xc3\xa9' * 90, b'/' + b'y' * 250 + b'.tar.gz']
REFS = [b'&amp;', b'&lt;', b'&gt;', b'&quot;', b'&#47;', b'&#x2f;', b'&#X2F;', b'&#92;', b'&#x5C;', b'&#46;', b'&#0046;', b'&#65;', b'&amp;#47;', b'&#38;#47;', b'&amp;amp;']
ODD = [b'&eacute;', b'&euro;', b'&#233;', b'&#8364;', b'&#xD800;', b'&#999999999999;', b'&#xFFFFFFFFFFFFFFFF;', b'&#0;', b'&#-1;', b'&nosuch;', b'&;', b'&#;', b'&#x;', b'&#xZZ;', b'&#10;', b'&#13;', b'&#32;', b'&notin;', b'&amp', b'&#65', b'&Eacute;', b'&thetasym;', b'&nbsp;a', b'&#128512;', b'&#x1F600;', b'&#1114112;', b'&#x152;', b'&#128;', b'&#159;', b'&#255;', b'&#x100;', b'&yuml;', b'&frac12;', b'&AMP;', b'&#57343;', b'&#65535;']


@st.composite
def names(draw):
    """(bytes, True if what is to become of it is fully determined)"""
    kind = draw(st.sampled_from(['clean', 'clean', 'refs', 'odd', 'text', 'length']))
    if kind == 'text':
        return draw(txt(PRINT, 0, 30)).encode(), 'text'
    if kind == 'length':
        ext = draw(st.sampled_from([b'', b'.txt', b'.' + b'e' * draw(st.integers(0, 300)), b'.a.b']))
        n = max(0, draw(st.integers(250, 260)) - len(ext)) if draw(st.booleans()) else draw(st.integers(0, 400))
        return (b'/' if draw(st.booleans()) else b'') + (b'abcdefghij' * 50)[:n] + ext, kind
    pool = {'clean': CLEAN, 'refs': CLEAN + REFS * 3, 'odd': CLEAN + REFS + ODD * 3}[kind]
    n = b''.join(draw(st.lists(st.one_of(st.sampled_from(pool), st.sampled_from(pool), txt(ALNUM, 1, 4).map(str.encode)), max_size=8)))
    return n, kind


REF = re.compile(rb'&(?:#([0-9]+)|#[xX]([0-9a-fA-F]+)|([A-Za-z0-9]+));')


def resolve(n, charset='utf-8'):
    """Character references that mean a character the charset has; others are kept."""
    def one(m):
        if m.group(3):
            v = name2codepoint.get(m.group(3).decode())
        else:
            v = int(m.group(1)) if m.group(1) else int(m.group(2), 16)
        try:
            return chr(v).encode(charset)
        except (TypeError, ValueError, OverflowError):
            return m.group(0)
    return REF.sub(one, n)


def shorten(n):
    n = n.rsplit(b'/', 1)[-1]
    if len(n) > 255:
        base, ext = os.path.splitext(n)
        ext = ext[:255]
        n = base[:255 - len(ext)] + ext
    return n


ASCII_WS = b' \t\n\r\x0b\x0c'
ODD_EDGE = bytes(list(range(0x21)) + list(range(0x7f, 0xa1)))


def sanitised(n, charset='utf-8'):
    """-> (name before shortening, what it may be reported as), or None: judged by its safety only"""
    n = resolve(n, charset)
    n = n[n.rfind(b'\\') + 1:]
    m = n.strip(ASCII_WS)
    if m != m.strip(ODD_EDGE):
        return None
    return m


def safe(ctx, name, multipart, raw):
    b = name if isinstance(name, bytes) else name.encode('utf-8', 'surrogatepass')
    if b'/' in b or multipart and b'\\' in b:
        ctx.fail('%r is reported as %r', raw, name)
    if len(name) > 255:
        ctx.fail('%r is reported as a name of %d characters', raw, len(name))


@st.composite
def case(draw):
    fs = []
    for _ in range(draw(st.integers(1, 3))):
        n, kind = draw(names())
        ext = draw(st.integers(0, 3)) == 0 or any(x in n for x in (b'\r', b'\n', b'\x00'))
        if not ext and n != n.strip(ODD_EDGE):
            ext = True
        if len(n) * (3 if ext else 1) > 850:
            n = n[:280 if ext else 850]
        if ext:
            n = n.decode('utf-8', 'ignore').encode()
        n = n or b'x'
        fs.append({'kind': 'file', 'name': b'f', 'content': b'data', 'ctype': None, 'params': [], 'cte': None, 'style': 0, 'filename': n, 'ext': ext, 'how': kind})
    assume(c10.usable(b'BOUND-ARY', body_bytes(b'BOUND-ARY', fs), fs))
    return {'parts': fs, 'handler': draw(st.sampled_from(['ConvC', 'TempC'])), 'limit': draw(st.sampled_from([0, 1000])), 'charset': draw(st.sampled_from([None, 'utf-8', 'cp1252', 'koi8-r', 'us-ascii']))}


def check(ctx, c):
    parts = c['parts'] + [{'kind': 'field', 'name': b'last', 'content': b'v', 'ctype': None, 'params': [], 'cte': None, 'style': 0}]
    data = c10.request({'boundary': b'BOUND-ARY', 'parts': parts, 'pre': b'', 'epi': b'\r\n', 'charset': c['charset']})
    s = Script()
    d = s.new('h.tmpdir')
    real = s.func('os.path.realpath', d)
    cfg = s.new('h.settings', None, FILE_UPLOAD_HANDLERS=['jyhandlers.' + c['handler']], FILE_UPLOAD_MAX_MEMORY_SIZE=c['limit'], FILE_UPLOAD_TEMP_DIR=d)
    r, p = fast_parse(s, data, cfg)
    v = s.func('h.view_form', r)
    ls = s.func('h.walk', d)
    s.call(r, 'close')
    res = ctx.run(s)
    ctx.ok(res[p], 'parsing %r' % data[:3000])
    form = ctx.ok(res[v], 'reading')
    ctx.eq([key_of(k) for k, _ in form['POST']], [b'last'], 'fields')
    got = [f for k, l in form['FILES'] for f in l]
    want = []
    for q in c['parts']:
        m = sanitised(q['filename'], c['charset'] or 'iso-8859-1')
        want.append((q['filename'], m))
    root = res[real]
    disk = []
    for f in got:
        safe(ctx, f['name'], True, [w[0] for w in want])
        ctx.eq(f['content'], b'data', 'content')
        if f['disk']:
            dn, _, bn = f['path'].rpartition(b'/' if isinstance(f['path'], bytes) else '/')
            if as_str(dn) != as_str(root):
                ctx.fail('temporary file %r is not directly in %r', f['path'], root)
            disk.append(as_str(bn))
    ctx.eq(sorted(map(as_str, res[ls])), sorted(disk), 'files in the directory')
    if all(m is not None for _, m in want):
        exp = [shorten(m) for _, m in want if m]
        if len(got) != len(exp):
            ctx.fail('%d files, submitted the names %r', len(got), [w[0] for w in want])
        for f, e in zip(got, exp):
            if not same(f['name'], e, c['charset'] or 'iso-8859-1'):
                ctx.fail('names %r: reported %r, expected %r', [w[0] for w in want], f['name'], e)
        ctx.label('fully determined', 'shortened' if any(len(m.rsplit(b'/', 1)[-1]) > 255 for _, m in want) else '', 'no name left' if any(not m for _, m in want) else '')
    else:
        ctx.label('safety only')
    ctx.label('on disk' if disk else 'in memory', *[q['how'] for q in c['parts']])
    ctx.nt(any(re.search(rb'[/\\&\x00-\x1f\x7f-\xff]', q['filename']) or len(q['filename']) > 255 for q in c['parts']))


@st.composite
def direct(draw):
    n, kind = draw(names())
    second, _ = draw(names())
    as_text = draw(st.booleans())
    conv = (lambda b: b.decode('utf-8', 'replace')) if as_text else (lambda b: b)
    return {'name': conv(n), 'second': conv(second), 'cls': draw(st.sampled_from(['simple', 'simple', 'temp', 'dict']))}


def check_direct(ctx, c):
    s = Script()
    d = s.new('h.tmpdir')
    real = s.func('os.path.realpath', d)
    U = 'request_parser.files.uploadedfile.'
    if c['cls'] == 'simple':
        f = s.new(U + 'SimpleUploadedFile', c['name'], b'data')
    elif c['cls'] == 'dict':
        f = s.new(U + 'SimpleUploadedFile.from_dict', {b'filename': c['name'], b'content': b'data'})
    else:
        f = s.new(U + 'TemporaryUploadedFile', c['name'], b'text/plain', 4, None, s.new('h.settings', None, FILE_UPLOAD_TEMP_DIR=d))
    n1 = s.get(f, 'name')
    path = s.call(f, 'temporary_file_path') if c['cls'] == 'temp' else None
    s.set(f, 'name', c['second'])
    n2 = s.get(f, 'name')
    s.call(f, 'close')
    res = ctx.run(s)
    for raw, n in ((c['name'], n1), (c['second'], n2)):
        got = ctx.ok(res[n], 'making an uploaded file named %r' % raw)
        safe(ctx, got, False, raw)
        slash = '/' if isinstance(raw, str) else b'/'
        want = raw.rsplit(slash, 1)[-1]
        if len(want) > 255:
            base, ext = os.path.splitext(want)
            want = base[:255 - len(ext[:255])] + ext[:255]
        if got != want and not (want == '' and got == b''):
            if not (isinstance(want, str) and want.isascii() and got == want.encode()):
                ctx.fail('%r: reported %r, expected %r', raw, got, want)
    if path is not None:
        t = as_str(ctx.ok(res[path], 'temporary file'))
        if t.rpartition('/')[0] != as_str(res[real]):
            ctx.fail('%r: temporary file %r is not directly in %r', c['name'], t, res[real])
    ctx.label(c['cls'], 'text' if isinstance(c['name'], str) else 'bytes', 'long' if len(c['name']) > 255 else '')
    ctx.nt(len(c['name']) > 255 or any(x in c['name'] for x in ('/\\.' if isinstance(c['name'], str) else b'/\\.')))


PARTS = [
    Part('upload', case(), check, 'uploads with path-like, long, reference-laden and hostile names; non-trivial: a separator, reference, control or non-ASCII character, or more than 255 bytes', 3000, 45000),
    Part('object', direct(), check_direct, 'uploaded file objects made and renamed directly; non-trivial: a separator, a dot, or a long name', 1500, 20000),
]
