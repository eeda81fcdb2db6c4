from urllib.parse import unquote_to_bytes
from hypothesis import strategies as st
from core import Part
import gen
from gen import *
from jy import Exc, Script

LEGAL = set(ALNUM + "-._~:/?#[]@!$&'()*+,;=%")


@st.composite
def case(draw):
    t = draw(targets())
    return {'target': t, 'host': draw(hosts), 'slash': draw(st.booleans())}


def b(x):
    return x if isinstance(x, bytes) else x.encode('latin-1', 'replace')


def check(ctx, c):
    t = c['target']
    data = head_text(line_text('GET', t, 'HTTP/1.1'), [('Host', c['host'], ' ', '')]).encode()
    s = Script()
    r = s.new(HR, s.new('h.bytesio', data))
    p = s.call(r, 'parse_request_header')
    full = s.call(r, 'get_full_path')
    raw = s.call(r, 'get_full_path', raw=True)
    sl = s.call(r, 'get_full_path', True)
    uri = s.call(r, 'get_uri')
    rawuri = s.call(r, 'get_uri', True)
    rep = s.func('__builtin__.repr', r)
    res = ctx.run(s)
    ctx.ok(res[p], 'parsing %r' % data)
    for i, n in ((full, 'full path'), (raw, 'raw full path'), (sl, 'full path with slash'), (uri, 'URI'), (rawuri, 'raw URI'), (rep, 'repr')):
        ctx.ok(res[i], n)
    f, fs, u = as_str(res[full]), as_str(res[sl]), as_str(res[uri])
    for n, x in (('full path', f), ('full path with slash', fs), ('URI', u)):
        if not x.isascii() or not set(x) <= LEGAL:
            ctx.fail('%s %r has characters that a URI cannot have', n, x)
    q = t['query'] or ''
    ctx.eq('?' in f, bool(q), 'presence of a query in %r' % f)
    fp, _, fq = f.partition('?')
    ctx.eq(unquote_to_bytes(fp), unquote_to_bytes(t['path']), 'decoded path of %r' % f)
    ctx.eq(unquote_to_bytes(fq), unquote_to_bytes(q), 'decoded query of %r' % f)
    if set(t['path']) <= set(ALNUM + "-._~/%"):
        ctx.eq(fp, t['path'], 'path without characters to escape')
    if set(q) <= set(ALNUM + "-._~/%=&+?"):
        ctx.eq(fq, q, 'query without characters to escape')
    ctx.eq(fs, fp + ('' if t['path'].endswith('/') else '/') + ('?' + fq if q else ''), 'full path with a slash appended')
    host = (t['host'] if t['kind'] == 'absolute' else c['host']).lower()
    scheme = t['scheme'].lower() or 'UNKNOWN'
    if not host.endswith('.'):
        ctx.eq(u, '%s://%s%s' % (scheme, host, f), 'URI')
    try:
        want = unquote_to_bytes(f).decode()
    except UnicodeDecodeError:
        want = None
    if want is not None:
        ctx.eq(utf8(res[raw]), want, 'raw full path')
        if not host.endswith('.'):
            ctx.eq(utf8(res[rawuri]), '%s://%s%s' % (scheme, host, want), 'raw URI')
    esc = fp != t['path'] or fq != q
    ctx.label(t['kind'], 'escaped' if esc else '', 'query' if q else '', 'percent' if '%' in t['path'] + q else '')
    ctx.nt(esc or '%' in f or bool(q))


def utf8(x):
    return x.decode('utf-8', 'surrogateescape') if isinstance(x, bytes) else x


pathtext = st.one_of(
    st.text(st.characters(blacklist_categories=('Cs',), blacklist_characters='%'), max_size=12),
    st.text(alphabet="aZ0/?#;=[]@:&+$,!*'() \"<>\\^`{|}~-._\u00e9\u20ac\U0001f600\x00\x7f\n", max_size=12),
    st.sampled_from(['', '/', '/a', '/a/', 'a', '/caf\u00e9/', '/a b', '/a?b', '/a#b']))


@st.composite
def setcase(draw):
    return {'path': draw(pathtext), 'bytes': draw(st.booleans()), 'query': draw(st.one_of(st.none(), gen.queries)), 'safe': draw(st.sampled_from([True, True, False]))}


def check_set(ctx, c):
    s = Script()
    path = c['path']
    if c['query'] is None:
        r = s.new(HR)
    else:
        r = s.new(HR, s.new('h.bytesio', ('GET /old?%s HTTP/1.1\r\nHost: h\r\n\r\n' % c['query']).encode()))
        s.call(r, 'parse_request_header')
    arg = path.encode() if c['bytes'] else path
    sp = s.call(r, 'set_path', arg) if c['safe'] else s.call(r, 'set_path', arg, False)
    full = s.call(r, 'get_full_path')
    raw = s.call(r, 'get_full_path', raw=True)
    sl = s.call(r, 'get_full_path', True)
    res = ctx.run(s)
    ctx.ok(res[sp], 'set_path(%r)' % arg)
    f, fs = as_str(ctx.ok(res[full], 'full path of %r' % path)), as_str(ctx.ok(res[sl], 'full path with slash'))
    q = c['query']
    fp, _, fq = f.partition('?')
    if not f.isascii() or not set(f) <= LEGAL:
        ctx.fail('full path %r of %r has characters that a URI cannot have', f, path)
    ctx.eq('?' in f, bool(q), 'presence of a query in %r' % f)
    ctx.eq(unquote_to_bytes(fp), path.encode(), 'decoded full path %r' % f)
    ctx.eq(unquote_to_bytes(fq), unquote_to_bytes(q or ''), 'decoded query of %r' % f)
    i = 0
    for ch in path:     # what needs no escaping is not escaped
        if ch in ALNUM + '-_./':
            if fp[i:i + 1] != ch:
                ctx.fail('%r is escaped in %r', ch, fp)
            i += 1
        else:
            i += 3 * len(ch.encode()) if fp[i:i + 1] == '%' else 1
    ctx.eq(fs.partition('?')[0], fp + ('' if path.endswith('/') else '/'), 'full path with a slash appended')
    if not q:
        ctx.eq(utf8(ctx.ok(res[raw], 'raw full path')), path, 'raw full path')
    ctx.label('bytes' if c['bytes'] else 'text', 'not encoded when set' if not c['safe'] else '', 'non-ASCII' if not path.isascii() else '', 'query' if q else '')
    ctx.nt(fp != path)


PARTS = [
    Part('rebuild', case(), check, 'request targets of every form; non-trivial: something is escaped or percent-encoded, or there is a query', 3500, 50000),
    Part('set_path', setcase(), check_set, 'texts (and their UTF-8 bytes) without percent signs set as path; non-trivial: something has to be escaped', 2000, 30000),
]
