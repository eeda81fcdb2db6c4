"""Generators of requests, and how they are written out as bytes."""
import base64, re

from hypothesis import strategies as st

from jy import Py, Ref, Script

HR = 'request_parser.http.request.HttpRequest'
TOKEN = "!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
VISIBLE = ''.join(chr(c) for c in range(0x21, 0x7f))
PRINT = ''.join(chr(c) for c in range(0x20, 0x7f))
ALNUM = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'


def txt(alphabet, lo=0, hi=12):
    return st.text(alphabet=alphabet, min_size=lo, max_size=hi)


def biased(*strats):
    return st.one_of(*strats)


def chunks_of(data, cuts):
    """Split data at the given (sorted or not, possibly out of range) fractions 0..1000 of its length."""
    pts = sorted({c * len(data) // 1000 for c in cuts} - {0, len(data)})
    out, prev = [], 0
    for p in pts + [len(data)]:
        if p > prev:
            out.append(data[prev:p])
            prev = p
    return out


CUTS = st.lists(st.integers(0, 1000), max_size=12)

methods = st.one_of(st.sampled_from(['GET', 'POST', 'PUT', 'HEAD', 'OPTIONS', 'DELETE', 'PATCH', 'x']), txt(TOKEN, 1, 8))
protocols = st.one_of(st.sampled_from(['HTTP/1.1', 'HTTP/1.0', 'HTTP/2', 'http/1.1']), txt(VISIBLE, 1, 10))

PATHCH = "abcXYZ019-._~!$&'()*+,=:@%/" + '"<>\\^`{|}['
seg = st.one_of(txt(ALNUM, 0, 6), txt(PATHCH.replace('/', ''), 0, 8),
                st.sampled_from(['%20', '%2F', '%', '%zz', '..', '.', 'a%C3%A9', "it's", 'a+b', 'x:y', '@', '', '%25', '%3F']))


@st.composite
def paths(draw, semis=True):
    """An absolute path that does not start with '//'. ';' only in segments before the last one."""
    segs = draw(st.lists(seg, min_size=1, max_size=5))
    if len(segs) > 1 and not segs[0]:
        segs[0] = 'p'
    if semis and len(segs) > 1 and draw(st.integers(0, 5)) == 0:
        segs[0] = segs[0] + ';v=1'
    return '/' + '/'.join(segs)


QCH = "abcXYZ019-._~!$&'()*+,;=:@%/?" + '"<>\\^`{|}[]'
queries = st.one_of(st.sampled_from(['', '', 'a=1', 'a=1&b=2&a=3', 'x', '=', '&', 'a==b', 'q=%C3%A9+%20', 'a=?b']), txt(QCH, 0, 20))
fragments = st.one_of(st.none(), st.none(), txt(QCH + '#', 0, 8))

label = txt('abcdefghijklmnopqrstuvwxyz0123456789-ABC', 1, 7)
domains = st.one_of(
    st.sampled_from(['example.com', 'EXAMPLE.Com', 'localhost', '127.0.0.1', 'a', 'x.y.z', 'xn--bcher-kva.example']),
    st.lists(label, min_size=1, max_size=4).map('.'.join))
ipv6 = st.one_of(st.sampled_from(['[::1]', '[2001:db8::1]', '[::ffff:1.2.3.4]', '[FE80::1]', '[::]']),
                 st.lists(txt('0123456789abcdefABCDEF', 1, 4), min_size=8, max_size=8).map(lambda l: '[' + ':'.join(l) + ']'))
hosts = st.one_of(domains, domains, domains, ipv6)
ports = st.one_of(st.none(), st.none(), st.integers(0, 65535).map(str), st.sampled_from(['80', '443', '8080', '00080', '0000000080', '123456', '9' * 20]))
schemes = st.one_of(st.sampled_from(['http', 'https', 'HTTP', 'Https', 'ftp', 'ws', 'x+y-z.1']),
                    st.builds(lambda a, b: a + b, txt('abcXYZ', 1, 1), txt('abcXYZ019+-.', 0, 5)))


@st.composite
def targets(draw):
    """A request target and what it consists of."""
    kind = draw(st.sampled_from(['origin', 'origin', 'origin', 'absolute', 'absolute', 'star']))
    if kind == 'star':
        return {'kind': kind, 'scheme': '', 'authority': '', 'path': '*', 'query': None, 'fragment': None}
    t = {'kind': kind, 'scheme': '', 'authority': '', 'path': draw(paths()),
         'query': draw(st.one_of(st.none(), queries)), 'fragment': draw(fragments)}
    if kind == 'absolute':
        t['scheme'] = draw(schemes)
        host, port = draw(hosts), draw(ports)
        t['host'], t['port'] = host, port
        t['authority'] = host + (':' + port if port is not None else '')
        how = draw(st.integers(0, 9))
        if how < 2:
            t['path'] = ''
        elif how == 2:      # the path itself may begin with slashes here
            t['path'] = draw(st.sampled_from(['/', '//'])) + t['path']
    return t


def target_text(t):
    s = ''
    if t['kind'] == 'absolute':
        s = t['scheme'] + '://' + t['authority']
    s += t['path']
    if t['query'] is not None:
        s += '?' + t['query']
    if t['fragment'] is not None:
        s += '#' + t['fragment']
    return s


def line_text(method, t, proto):
    return '%s %s %s' % (method, target_text(t), proto)


SPECIAL = ('host', 'content-type', 'content-length', 'x-requested-with')
hname = st.one_of(st.sampled_from(['Accept', 'accept', 'X-A', 'X-B', 'Cookie', 'Referer', 'Via', 'X']), txt(TOKEN, 1, 10)).filter(
    lambda n: n.lower() not in SPECIAL)
hvalue = st.one_of(
    st.sampled_from(['', 'a', 'a: b', 'text/html, */*;q=0.8', 'http://x/y?z', '"quoted, value"', ':', 'a=b; c="d"', '0', 'x\ty']),
    txt(PRINT + '\t', 0, 20)).map(str.strip)
ows = st.sampled_from(['', ' ', ' ', '  ', '\t', ' \t '])
header = st.tuples(hname, hvalue, ows, ows)


def headers(lo=0, hi=8):
    """(name, value, space before, space after) with repeated names likely."""
    return st.one_of(st.lists(header, min_size=lo, max_size=hi),
                     st.lists(st.tuples(st.sampled_from(['X-A', 'x-a', 'X-B']), hvalue, ows, ows), min_size=lo, max_size=hi))


def head_text(line, hs):
    return line + '\r\n' + ''.join('%s:%s%s%s\r\n' % (n, a, v, b) for n, v, a, b in hs) + '\r\n'


def hdict(hs, drop=()):
    d = {}
    for n, v, _, _ in hs:
        if n not in drop:
            d.setdefault(n, []).append(v)
    return d


def place(draw, hs, extra):
    """Insert extra headers at drawn positions."""
    hs = list(hs)
    for h in extra:
        hs.insert(draw(st.integers(0, len(hs))), h)
    return hs


# ------------------------------------------------------------------ streams

STREAMS = st.sampled_from(['bytesio', 'chunks', 'generator', 'realfile'])


def add_stream(s, data, kind='bytesio', cuts=()):
    """A stream of the given kind delivering data."""
    if kind in ('bytesio', 'realfile'):
        return s.new('h.' + kind, data)
    return s.new('h.' + kind, chunks_of(data, cuts))


def fast_parse(s, data, settings=None, **attrs):
    """Script steps: stream, request, full parse -> (request Ref, index of the parse step)."""
    st_ = s.new('h.bytesio', data)
    r = s.new(HR, st_, settings) if settings is not None else s.new(HR, st_)
    return r, s.call(r, 'parse')


# ------------------------------------------------------------------ multipart

BCH = "'()+_,-./:=?" + ALNUM
boundaries = st.one_of(st.sampled_from(['BB', 'b', '----WebKitFormBoundaryAb1', 'x' * 70, '-', '--', 'a b', "'()+_,-./:=?", '0']),
                       st.builds(lambda a, b: a + b, txt(BCH + ' ', 0, 20), txt(BCH, 1, 3)))


def quote(s):
    """bytes as a quoted-string"""
    return b'"' + s.replace(b'\\', b'\\\\').replace(b'"', b'\\"') + b'"'


def edges_ok(b):
    return not b or (0x21 <= b[0] < 0x7f or b[0] > 0xa0) and (0x21 <= b[-1] < 0x7f or b[-1] > 0xa0)


field_names = st.one_of(
    st.sampled_from([b'a', b'b', b'', b'n' * 300, b'ab' * 70, b'file', b'a[0]', b'x y', b'q"q', b'back\\slash', b'a;b', b'a=b', b"it's", b'caf\xc3\xa9', b'n\\"', b'%41', b'a\nb', b'a\rb', b'a\x0bb', b'a\x85b', b'a\x1cb']),
    txt(PRINT, 1, 12).map(str.encode), st.binary(min_size=1, max_size=8).filter(lambda b: not set(b) & set(b'\r\n\x00'))
).filter(edges_ok)


def near_boundary(boundary):
    d = b'--' + boundary
    return st.sampled_from([b'\r\n', b'\n', b'\r', b'--', b'-', b'\r\n--', b'\r\n' + d[:-1], d[:-1], b'\r\n' + d[:len(d) // 2], b'\n--',
                            d[:3], boundary, boundary[:-1], b'\r\n\r\n', b'\r\r\n', b'a', b'xyz ', b'\x00', b'\xff', b'--\r\n', b'0' * 40])


def contents(boundary, big=True):
    small = st.lists(near_boundary(boundary), max_size=8).map(b''.join)
    opts = [small, st.binary(max_size=30), st.sampled_from([b'', b'x', b'\r\n', b'\n', b'hello world'])]
    if big:
        opts.append(st.builds(lambda a, n, b: a + b'abc\r\n-' * n + b, small, st.integers(0, 400), small))
    return st.one_of(*opts).map(lambda c: scrub(c, boundary))


def scrub(c, boundary):
    d = b'--' + boundary
    while d in c:
        c = c.replace(d, b'')
    return c


ctypes = st.one_of(st.none(), st.sampled_from(['text/plain', 'application/octet-stream', 'image/png', 'Text/HTML', 'x', 'application/x y', 'application/vnd.openxmlformats-officedocument.wordprocessingml.document', 'a/' + 'x' * 150]))
cparams = st.lists(st.tuples(st.sampled_from(['charset', 'format', 'x']),
                             st.sampled_from([b'utf-8', b'UTF-8', b'flowed', b'a b', b'q"x', b'a;b', b'iso-8859-1', b''])),
                   max_size=2, unique_by=lambda p: p[0])
ctes = st.sampled_from([None, None, None, None, 'binary', '8bit', '7BIT', 'quoted-printable', 'x-token'])
safe_filenames = st.one_of(st.sampled_from([b'a.txt', b'x', b'report.tar.gz', b'caf\xc3\xa9.png', b'a b.c', b'noext.', b'.hidden', b'q"q.txt', b'a;b.txt', b"it's"]),
                           txt(ALNUM + '._- ()', 1, 20).map(str.encode)).filter(
    lambda b: edges_ok(b) and b not in (b'.', b'..'))


@st.composite
def part(draw, boundary, kinds=('field', 'file'), names=field_names, b64=False, big=True):
    kind = draw(st.sampled_from(kinds))
    p = {'kind': kind, 'name': draw(names), 'content': draw(contents(boundary, big)), 'ctype': draw(ctypes),
         'cte': draw(ctes), 'style': draw(st.integers(0, 7))}
    p['params'] = draw(cparams) if p['ctype'] else []
    if kind == 'file':
        p['filename'] = draw(safe_filenames)
        if draw(st.integers(0, 5)) == 0:
            p['ext'] = True
        if draw(st.integers(0, 5)) == 0:    # a declared length counts for nothing
            p['clen'] = draw(st.sampled_from([0, 7, len(p['content']), 10 ** 6]))
    if b64 and draw(st.booleans()):
        p['cte'] = 'base64'
    if draw(st.integers(0, 9)) == 0:
        p['pad'] = draw(st.sampled_from([1, 100, 500, 700, 800, 900, 960, 990, 1000]))
    return p


def part_bytes(p):
    """(header block without leading CRLF, ends with CRLFCRLF) + content as transmitted"""
    sty = p['style']
    cd = b'content-disposition' if sty & 1 else b'Content-Disposition'
    eq = b'; ' if not sty & 2 else b' ;'
    v = b'form-data' + eq + (b'NAME=' if sty & 4 else b'name=') + quote(p['name'])
    if p['kind'] == 'file':
        if p.get('ext'):
            v += eq + b"filename*=UTF-8''" + b''.join(b'%%%02X' % c for c in p['filename'])
        else:
            v += eq + b'filename=' + quote(p['filename'])
    lines = [cd + b': ' + v]
    if p['ctype'] is not None:
        c = b'Content-Type: ' + p['ctype'].encode()
        for n, x in p['params']:
            c += b'; ' + n.encode() + b'=' + (x if re.fullmatch(rb'[A-Za-z0-9-]+', x) else quote(x))
        lines.append(c)
    if p['cte'] is not None:
        lines.append(b'Content-Transfer-Encoding: ' + p['cte'].encode())
    if p.get('clen') is not None:
        lines.append(b'Content-Length: ' + str(p['clen']).encode())
    if sty & 2:
        lines.append(b'X-Other: y')
    n = p.get('pad', 0) - len(b'\r\n'.join(lines)) - 12     # so that the head has p['pad'] bytes
    if n > 0:
        lines.insert(sty % 3, b'X-Pad: ' + b'p' * n)
    if sty & 4:
        lines.reverse()
    return b'\r\n'.join(lines) + b'\r\n\r\n' + p.get('wire', p['content'])


def body_bytes(boundary, parts, preamble=b'', epilogue=b'\r\n'):
    d = b'--' + boundary
    out = preamble
    for p in parts:
        out += d + b'\r\n' + part_bytes(p) + b'\r\n'
    return out + d + b'--' + epilogue


def ctype_header(boundary):
    b = boundary.decode()
    if all(c in ALNUM + '-_.' for c in b):
        return 'multipart/form-data; boundary=' + b
    return 'multipart/form-data; boundary=' + quote(boundary).decode()


def form_request(boundary, body, length=None, extra=(), method='POST', target='/upload'):
    hs = [('Host', 'example.com', ' ', ''), ('Content-Type', ctype_header(boundary), ' ', ''),
          ('Content-Length', str(len(body) if length is None else length), ' ', '')] + list(extra)
    return head_text('%s %s HTTP/1.1' % (method, target), hs).encode('latin-1') + body


def as_text_forms(b, charset='iso-8859-1'):
    """How a byte string may be reported: undecoded, or decoded in the request's charset."""
    return (b, b.decode(charset, 'replace'))


def same(got, b, charset='iso-8859-1'):
    if isinstance(got, bytes):
        return got == b
    if isinstance(got, str):
        return got == b.decode(charset, 'replace') or (isinstance(b, bytes) and _try(b) == got)
    return False


def _try(b):
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        return None


def key_of(k, charset='iso-8859-1'):
    """A reported name as bytes."""
    if isinstance(k, str):
        return k.encode(charset, 'replace') if charset else k.encode()
    return k


def expect_field(ctx, got, p, charset, what):
    if not isinstance(got, dict):
        ctx.fail('%s: got %r', what, got)
    got = {as_str(k): v for k, v in got.items()}
    if not same(got.get('data'), p['content'], charset):
        ctx.fail('%s: data %r, submitted %r', what, got.get('data'), p['content'])
    if not same(got.get('content-type'), (p['ctype'] or '').lower().encode(), charset):
        ctx.fail('%s: content type %r, submitted %r', what, got.get('content-type'), p['ctype'])
    if not same(got.get('transfer-encoding'), (p['cte'] or '').lower().encode(), charset):
        ctx.fail('%s: transfer encoding %r, submitted %r', what, got.get('transfer-encoding'), p['cte'])
    expect_params(ctx, got.get('content-type-extra'), p, charset, what)


def expect_params(ctx, got, p, charset, what):
    want = {n: v for n, v in p['params']}
    if not isinstance(got, dict) or {as_str(k) for k in got} != set(want) or not all(
            same(v, want[as_str(k)], charset) for k, v in got.items()):
        ctx.fail('%s: content type parameters %r, submitted %r', what, got, p['params'])


def as_str(k):
    return k.decode('latin-1') if isinstance(k, bytes) else k


def expect_file(ctx, got, p, charset, what):
    if got.get('content') != p['content']:
        ctx.fail('%s: content %r, submitted %r', what, got.get('content'), p['content'])
    if got.get('size') != len(p['content']):
        ctx.fail('%s: size %r, submitted %d bytes', what, got.get('size'), len(p['content']))
    if not same(got.get('name'), p['filename'], charset):
        ctx.fail('%s: file name %r, submitted %r', what, got.get('name'), p['filename'])
    if not same(got.get('content_type'), (p['ctype'] or '').lower().encode(), charset):
        ctx.fail('%s: content type %r, submitted %r', what, got.get('content_type'), p['ctype'])
    te = got.get('transfer_encoding')
    if not (te in (None, '', b'') if p['cte'] is None else same(te, p['cte'].lower().encode(), charset)):
        ctx.fail('%s: transfer encoding %r, submitted %r', what, te, p['cte'])
    cs = dict(p['params']).get('charset')
    if not (got.get('charset') is None if cs is None else same(got.get('charset'), cs, charset)):
        ctx.fail('%s: charset %r, submitted %r', what, got.get('charset'), cs)
    expect_params(ctx, got.get('content_type_extra'), p, charset, what)


def by_name(parts, kind):
    d = {}
    for p in parts:
        if p['kind'] == kind:
            d.setdefault(p['name'], []).append(p)
    return d


def expect_form(ctx, form, parts, charset='iso-8859-1', fields=True, files=True):
    """form: h.view_form result; parts: what was submitted."""
    if isinstance(form, dict):
        for key, kind, exp, on in (('POST', 'field', expect_field, fields), ('FILES', 'file', expect_file, files)):
            if not on:
                continue
            want = by_name(parts, kind)
            got = {}
            for k, l in form[key]:
                got.setdefault(key_of(k, charset), []).extend(l)
            if set(got) != set(want):
                ctx.fail('%s has the names %r, submitted %r', key, sorted(got), sorted(want))
            for n in want:
                if len(got[n]) != len(want[n]):
                    ctx.fail('%s[%r] has %d values, submitted %d', key, n, len(got[n]), len(want[n]))
                for i, (g, p) in enumerate(zip(got[n], want[n])):
                    exp(ctx, g, p, charset, '%s[%r][%d]' % (key, n, i))
    else:
        ctx.fail('the form could not be read: %r', form)


# ------------------------------------------------------------------ whole requests

TEXT_CHARSETS = ['utf-8', 'iso-8859-1', 'UTF-8', 'us-ascii', 'windows-1252', 'utf-16']
plain_types = st.one_of(st.none(), st.sampled_from(['text/plain', 'text/html', 'application/json', 'application/octet-stream', 'TEXT/Plain', 'x/y', '']))


def smart_body():
    return st.one_of(st.binary(max_size=40), st.sampled_from([b'', b'\r\n', b'\r\n\r\n', b'\n', b'a\r\n\r\nb', b'\x00\xff', b'0']),
                     st.lists(st.sampled_from([b'\r\n', b'\n', b'\r', b'abc', b'\x00', b'\xc3\xa9', b'{"a": 1}', b'=', b'&']), max_size=20).map(b''.join),
                     st.builds(lambda b, n: b * n, st.binary(min_size=1, max_size=6), st.integers(1, 200)))


urlform_body = st.lists(st.tuples(txt(ALNUM + '+%._-', 0, 6), txt(ALNUM + '+%._-=', 0, 8)), max_size=6).map(
    lambda l: '&'.join(a + '=' + b for a, b in l).encode())


@st.composite
def whole(draw, kinds=('plain', 'form', 'multipart'), bodies=None, accept_hosts=hosts, big=True):
    """A well-formed request: {'data': bytes, 'body': bytes, 'kind', ...}"""
    kind = draw(st.sampled_from(kinds))
    hs = draw(headers(0, 4))
    t = draw(targets())
    c = {'kind': kind}
    if kind == 'plain':
        ct = draw(plain_types)
        body = draw(smart_body() if bodies is None else bodies)
        if ct is not None:
            cs = draw(st.sampled_from([None, None, 'utf-8', 'iso-8859-1', 'nonsense-9']))
            c['charset'] = cs
            hs = place(draw, hs, [('Content-Type', ct + ('; charset=' + cs if cs and ct else ''), ' ', '')])
    elif kind == 'form':
        body = draw(urlform_body)
        cs = draw(st.sampled_from(['', '; charset=utf-8']))
        hs = place(draw, hs, [('Content-Type', 'application/x-www-form-urlencoded' + cs, ' ', '')])
    else:
        b = c['boundary'] = draw(boundaries).encode()
        ps = draw(st.lists(part(b, big=big), max_size=4))
        body = body_bytes(b, ps, draw(st.sampled_from([b'', b'', b'junk\r\n'])), draw(st.sampled_from([b'\r\n', b'', b'\r\nend'])))
        hs = place(draw, hs, [('Content-Type', ctype_header(b), ' ', ''), ('Content-Length', str(len(body)), ' ', '')])
    if kind != 'multipart' and draw(st.booleans()):
        hs = place(draw, hs, [('Content-Length', str(len(body)), ' ', '')])
    if t['kind'] != 'absolute' or draw(st.booleans()) or not hs:
        hs = place(draw, hs, [('Host', draw(accept_hosts), ' ', '')])
    c['head'] = head_text(line_text(draw(methods), t, draw(protocols)), hs).encode()
    c['body'] = body
    return c


def norm(v):
    """A full view without what legitimately differs between runs (temporary paths)."""
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items() if k != 'path' or 'temporary' not in str(x) and not _is_tmp(v)}
    if isinstance(v, list):
        return [norm(x) for x in v]
    return v


def _is_tmp(v):
    return 'disk' in v and 'content' in v


def canon_form(v):
    """Order-independent form of [[name, values], ...] lists."""
    v = dict(v)
    for k in ('POST', 'FILES', 'headers'):
        if k in v and v[k] is not None:
            v[k] = sorted(([key_of(n), norm(l)] for n, l in v[k]), key=lambda x: x[0])
    return v


def collapse(s):
    return re.sub('\ufffd+', '\ufffd', s) if isinstance(s, str) else s
