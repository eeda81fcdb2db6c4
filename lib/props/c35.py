from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script

sizes = st.one_of(st.integers(1, 12), st.integers(1, 12), st.sampled_from([0, 1, 64, 1000, 100000]))
OPS = st.lists(st.one_of(st.tuples(st.just('read'), sizes), st.tuples(st.just('read'), sizes), st.just(('readline',)), st.just(('readline',)), st.tuples(st.just('readline'), sizes),
                         st.tuples(st.just('readline'), st.just(-1)), st.tuples(st.just('next'), st.integers(1, 3)), st.tuples(st.just('xnext'), st.integers(1, 3)),
                         st.just(('readlines',)), st.just(('read',)), st.tuples(st.sampled_from(['stream', 'body_stream']), sizes), st.just(('iterate',)), st.just(('xreadlines',)), st.just(('body',))), min_size=1, max_size=9)
BODY = st.one_of(st.lists(st.one_of(st.sampled_from([b'\n', b'\n', b'\r\n', b'\r', b'a', b'bc', b'\x00', b'\xc3\xa9', b'\x0b', b'\x0c', b'\x85', b'\x1c']), st.binary(max_size=5)), max_size=14).map(b''.join),
                 st.builds(lambda n, a, b: (a * n + b'\n') * 3 + b, st.integers(0, 700), st.binary(min_size=1, max_size=3), st.binary(max_size=5)), smart_body())


@st.composite
def case(draw):
    c = draw(whole(kinds=('plain', 'plain', 'form'), bodies=BODY))
    c.update(kind2=draw(STREAMS), cuts=draw(CUTS), ops=draw(OPS), size=draw(st.sampled_from([16, 16, 1, 7, 4096])), head1=draw(st.integers(0, 3)) > 0)
    if draw(st.integers(0, 4)) == 0:
        c['empty'] = draw(st.lists(st.integers(0, 20), min_size=1, max_size=3))
    return c


class Cursor:
    def __init__(self, data):
        self.data, self.pos = data, 0

    def read(self, n=None):
        out = self.data[self.pos:] if n is None else self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def readline(self, n=None):
        i = self.data.find(b'\n', self.pos)
        end = len(self.data) if i < 0 else i + 1
        if n is not None and n >= 0:
            end = min(end, self.pos + n)
        out = self.data[self.pos:end]
        self.pos = end
        return out

    def lines(self, n=None):
        out = []
        while n is None or len(out) < n:
            l = self.readline()
            if not l:
                break
            out.append(l)
        return out


def as_bytes(v):
    if isinstance(v, list):
        return [as_bytes(x) for x in v]
    return v.encode('latin-1') if isinstance(v, str) and v == '' else v


def check(ctx, c):
    data = c['head'] + c['body']
    s = Script()
    if c['kind2'] in ('chunks', 'generator'):
        ch = chunks_of(data, c['cuts'])
        for i in c.get('empty', ()):
            ch.insert(i, b'')
        stream = s.new('h.' + c['kind2'], ch)
    else:
        stream = add_stream(s, data, c['kind2'])
    r = s.new(HR, stream, s.new('h.settings', None, MAX_HEADER_SIZE=c['size']))
    p = s.call(r, 'parse_request_header')
    m = Cursor(c['body'])
    todo = []
    cached = None
    for o in c['ops']:
        if o[0] == 'next':
            todo.append((o, s.func('h.take', s.new('__builtin__.iter', r), o[1]), m.lines(o[1])))
        elif o[0] == 'xnext':
            todo.append((o, s.func('h.take', s.callnew(r, 'xreadlines'), o[1]), m.lines(o[1])))
        elif o[0] == 'iterate':
            todo.append((o, s.func('__builtin__.list', r), m.lines()))
        elif o[0] == 'xreadlines':
            todo.append((o, s.func('__builtin__.list', s.callnew(r, 'xreadlines')), m.lines()))
        elif o[0] == 'readlines':
            todo.append((o, s.call(r, 'readlines'), m.lines()))
        elif o[0] == 'readline':
            todo.append((o, s.call(r, *o), m.readline(*o[1:])))
        elif o[0] in ('stream', 'body_stream'):
            todo.append((o, s.call(s.getnew(r, o[0]), 'read', o[1]), m.read(o[1])))
        elif o[0] == 'read':
            todo.append((o, s.call(r, *o), m.read(*o[1:])))
        elif cached is None:
            # what is still unread becomes the body, and can be read again
            cached = m.data[m.pos:]
            m = Cursor(cached)
            todo.append((o, s.call(r, 'body'), cached))
        else:
            todo.append((o, s.call(r, 'body'), cached))
    rest = s.call(r, 'read')
    end = [s.call(r, 'read', 3), s.call(r, 'readline'), s.call(r, 'readlines'), s.call(r, 'read')]
    res = ctx.run(s)
    ctx.ok(res[p], 'parsing the head')
    for n, (o, i, want) in enumerate(todo):
        got = ctx.ok(res[i], 'operation %d, %s' % (n + 1, o))
        ctx.eq(as_bytes(got), want, 'operation %d, %s, of %r' % (n + 1, o, [x[0] for x in todo]))
    ctx.eq(as_bytes(ctx.ok(res[rest], 'reading the rest')), m.read(), 'the rest')
    for i in end:
        if ctx.ok(res[i], 'reading at the end'):
            ctx.fail('reading at the end gives %r', res[i])
    kinds = {o[0] for o in c['ops']}
    ctx.label(*kinds)
    ctx.label(c['kind2'], 'line feed in the body' if b'\n' in c['body'] else '', 'empty chunks' if c.get('empty') and c['kind2'] in ('chunks', 'generator') else '')
    ctx.nt(len(c['body']) > 1 and len(c['ops']) > 1)


@st.composite
def longcase(draw):
    """Lines and bodies around the sizes in which streams are read."""
    sizes = st.builds(lambda a, b: a + b, st.sampled_from([255, 1023, 4096, 8192, 16384, 65535, 65536, 131072, 200000]), st.integers(-2, 2))
    body = b''
    for _ in range(draw(st.integers(1, 3))):
        n = draw(sizes)
        body += (draw(st.sampled_from([b'x', b'ab\r', b'\x00\xff', b'x'])) * n)[:n] + draw(st.sampled_from([b'\n', b'\r\n', b'', b'\nab\n', b'\n\n']))
    head = head_text('POST / HTTP/1.1', [('Host', 'h', ' ', ''), ('Content-Type', 'text/plain', ' ', '')]).encode()
    ops = draw(st.lists(st.one_of(st.tuples(st.sampled_from(['read', 'readline', 'stream', 'body_stream']), sizes), OPS.map(lambda l: l[0])), min_size=1, max_size=5))
    return {'head': head, 'body': body, 'kind2': draw(STREAMS), 'cuts': draw(CUTS), 'ops': ops, 'size': draw(st.sampled_from([16, 4096, 65536])), 'head1': True}


AJAX = st.sampled_from(['XMLHttpRequest', 'XMLHttpRequest', 'XMLHttpRequest', 'xmlhttprequest', 'XMLHTTPREQUEST', 'XMLHttpRequest2', 'XMLHttpReques', '', 'com.android.browser', 'XMLHttp Request', 'fetch', '"XMLHttpRequest"'])
AJNAME = st.sampled_from(['X-Requested-With', 'X-Requested-With', 'X-Requested-With', 'X-Requested-By', 'Requested-With', 'X-Requested-Wit'])


@st.composite
def fcase(draw):
    t = draw(targets())
    if t['kind'] == 'absolute' and draw(st.booleans()):
        t['scheme'] = draw(st.sampled_from(['http', 'https', 'HTTPS', 'Https', 'httpss', 'http+s', 'wss', 'shttp']))
    hs = draw(headers(0, 4)) + [(draw(AJNAME), v, draw(ows), draw(ows)) for v in draw(st.lists(AJAX, max_size=2))]
    hs = [h for h in hs if draw(st.integers(0, 6))]
    ct = draw(st.sampled_from([None, 'text/plain', 'text/html', 'TEXT/plain', 'text/plain; charset=utf-8', 'text/plainx', 'application/json']))
    if ct:
        hs.append(('Content-Type', ct, ' ', ''))
    return {'line': line_text(draw(methods), t, 'HTTP/1.1'), 'target': t, 'headers': [('Host', 'h', ' ', '')] + hs, 'scheme': draw(st.lists(st.sampled_from(['https', 'http', 'wss', '', None]), max_size=2))}


def fcheck(ctx, c):
    s = Script()
    r = s.new(HR, s.new('h.bytesio', head_text(c['line'], c['headers']).encode()))
    p = s.call(r, 'parse')
    a, b, t = s.call(r, 'is_ajax'), s.call(r, 'is_secure'), s.call(r, 'is_plain_text')
    uri = s.call(r, 'get_uri')
    later = []
    for x in c['scheme']:
        later.append((x, s.call(r, 'set_scheme', x), s.call(r, 'get_scheme'), s.call(r, 'is_secure'), s.call(r, 'get_uri')))
    res = ctx.run(s)
    ctx.ok(res[p], 'parsing')
    scheme, rest = as_str(ctx.ok(res[uri], 'get_uri()')).split(':', 1)
    for x, set_, get, sec, u in later:
        ctx.ok(res[set_], 'set_scheme(%r)' % x)
        scheme = x or scheme
        ctx.eq(as_str(res[get]), scheme, 'get_scheme() after set_scheme(%r)' % x)
        ctx.eq(res[sec], scheme == 'https', 'is_secure() after set_scheme(%r)' % x)
        ctx.eq(as_str(ctx.ok(res[u], 'get_uri()')), scheme + ':' + rest, 'get_uri() after set_scheme(%r)' % x)
    vals = [v for n, v, _, _ in c['headers'] if n == 'X-Requested-With']
    if len(set(v == 'XMLHttpRequest' for v in vals)) < 2:
        ctx.eq(res[a], bool(vals) and vals[-1] == 'XMLHttpRequest', 'is_ajax() with X-Requested-With %r' % vals)
    elif res[a] not in (True, False):
        ctx.fail('is_ajax() is %r', res[a])
    ctx.eq(res[b], c['target']['scheme'].lower() == 'https', 'is_secure() with the scheme %r' % c['target']['scheme'])
    cts = [v for n, v, _, _ in c['headers'] if n == 'Content-Type']
    ctx.eq(res[t], bool(cts) and cts[0].split(';')[0].lower() == 'text/plain', 'is_plain_text() with %r' % cts)
    ctx.label('ajax' if res[a] else 'not ajax', 'secure' if res[b] else 'not secure')
    ctx.nt(bool(vals) or c['target']['kind'] == 'absolute')


PARTS = [
    Part('reading', case(), check, 'requests read with sequences of up to 9 read operations over several stream kinds, compared with a byte cursor; non-trivial: at least two operations on a body of at least two bytes', 1600, 30000),
    Part('long', longcase(), check, 'the same with bodies and lines of up to 200 KB, and with read sizes to match; non-trivial as above', 80, 1500),
    Part('flags', fcase(), fcheck, 'requests with X-Requested-With headers (right, wrong, repeated), schemes and content types; non-trivial: such a header or an absolute target', 900, 16000),
]
