from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script

CS = [('utf-8', 'utf-8'), ('UTF-8', 'utf-8'), ('"utf-8"', 'utf-8'), ('iso-8859-1', 'latin-1'), ('latin1', 'latin-1'), ('us-ascii', 'ascii'), ('ascii', 'ascii')]
VALID = CS + [('utf-16', 'utf-16'), ('utf-16-le', 'utf-16-le'), ('windows-1252', 'windows-1252'), ('koi8-r', 'koi8-r'), ('iso-8859-15', 'iso-8859-15'), ('utf-32', 'utf-32')]
UNKNOWN = ['nonsense-9', 'hex', 'base64', 'x' * 20, '', 'utf-99', '/etc']
types = st.sampled_from(['text/plain', 'text/html', 'application/json', 'application/octet-stream', 'x', 'TEXT/Plain', 'multipart/mixed; boundary=x', 'text/csv;header=present'])
text = st.text(st.characters(blacklist_categories=('Cs',)), max_size=30)


@st.composite
def case(draw):
    c = {'type': draw(st.one_of(st.none(), types)), 'kind': draw(STREAMS), 'cuts': draw(CUTS), 'length': draw(st.booleans()),
         'full': draw(st.booleans()), 'raw_first': draw(st.booleans())}
    c['default'] = draw(st.sampled_from([None, None, 'utf-8', 'iso-8859-1', 'ascii']))
    eff = c['default'] or 'iso-8859-1'
    c['charset'] = None
    how = draw(st.sampled_from(['none', 'any', 'any', 'valid', 'valid', 'unknown'])) if c['type'] is not None else 'none'
    if how in ('any', 'valid'):
        c['charset'], eff = draw(st.sampled_from(CS if how == 'any' else VALID))
    elif how == 'unknown':
        c['charset'] = draw(st.sampled_from(UNKNOWN))
    c['eff'] = eff
    if how == 'valid':
        t = draw(text)
        c['body'] = t.encode(eff, 'ignore')
        if len(c['body']) < 1:
            c['body'] = 'x'.encode(eff)
    else:
        c['body'] = draw(smart_body())
    c['reps'] = draw(st.sampled_from([1, 1, 1, 1, 1, 1, 3, 40])) if how != 'valid' else 1
    return c


def same_text(got, body, eff, ref):
    if not isinstance(got, (str, bytes)):
        return False
    if not body:
        return len(got) == 0
    if isinstance(got, bytes):
        return False
    if got != ref:
        return False
    try:
        return got == body.decode(eff)
    except UnicodeDecodeError:
        return '\ufffd' in got


def check(ctx, c):
    body = c['body'] * c['reps']
    hs = [('Host', 'h', ' ', '')]
    if c['type'] is not None:
        hs.append(('Content-Type', c['type'] + ('; charset=' + c['charset'] if c['charset'] is not None else ''), ' ', ''))
    if c['length']:
        hs.append(('Content-Length', str(len(body)), ' ', ''))
    data = head_text('POST / HTTP/1.1', hs).encode() + body
    s = Script()
    cfg = s.new('h.settings', None, **({'DEFAULT_CHARSET': c['default']} if c['default'] else {}))
    r = s.new(HR, add_stream(s, data, c['kind'], c['cuts']), cfg)
    h = None if c['full'] else s.call(r, 'parse_request_header')
    raw = [s.call(r, 'body'), s.call(r, 'body')] if c['raw_first'] else []
    p = s.call(r, 'parse_request_body' if h is not None or c['raw_first'] else 'parse')
    after = [s.call(r, 'body'), s.call(r, 'body')]
    enc = s.get(r, 'encoding')
    form = s.func('h.view_form', r)
    ref = s.func('h.decode', body, c['eff'])
    res = ctx.run(s)
    if h is not None:
        ctx.ok(res[h], 'parsing the head')
    for i in raw:
        ctx.eq(res[i], body, 'raw body')
    ctx.ok(res[p], 'parsing the body')
    for i in after:
        got = ctx.ok(res[i], 'body after parsing')
        if not same_text(got, body, c['eff'], res[ref]):
            ctx.fail('body after parsing: got %r, expected %r decoded as %s', got, body, c['eff'])
    ctx.eq(res[form], {'POST': [], 'FILES': []}, 'form data of a body that is not a form')
    e = as_str(res[enc]).lower()
    want = (c['charset'] or '').strip('"').lower()
    if want and c['charset'] not in UNKNOWN:
        ctx.eq(e, want, 'encoding of the request')
    else:
        ctx.eq(e, (c['default'] or 'iso-8859-1').lower(), 'encoding of the request')
    bad = '\ufffd' in body.decode(c['eff'], 'replace')
    ctx.label('declared charset' if want and c['charset'] not in UNKNOWN else 'unknown charset' if c['charset'] is not None else 'no charset',
              'undecodable' if bad else '', 'raw first' if c['raw_first'] else '', 'configured default' if c['default'] else '', c['kind'])
    ctx.nt(len(body) > 0 and (not body.isascii() or c['charset'] is not None or c['raw_first']))


@st.composite
def order(draw):
    c = draw(whole())
    c['first'] = draw(st.sampled_from(['body', 'head body', 'head body body']))
    c['kind_'] = draw(STREAMS)
    c['cuts'] = draw(CUTS)
    return c


def check_order(ctx, c):
    data = c['head'] + c['body']
    s = Script()
    r, p0 = fast_parse(s, data)
    v0 = s.func('h.full', r)
    q = s.new(HR, add_stream(s, data, c['kind_'], c['cuts']))
    raws = []
    for w in c['first'].split():
        if w == 'head':
            s.call(q, 'parse_request_header')
        else:
            raws.append(s.call(q, 'body'))
    p = s.call(q, 'parse_request_body')
    v = s.func('h.full', q)
    b = s.call(q, 'body')
    b0 = s.call(r, 'body')
    # and for a new body of the same request
    s.set(q, 'body_stream', s.new('h.bytesio', c['body']))
    raw2 = s.call(q, 'body')
    p2 = s.call(q, 'parse_request_body')
    v2 = s.func('h.full', q)
    res = ctx.run(s)
    ctx.ok(res[p0], 'parsing')
    want = canon_form(ctx.ok(res[v0], 'reading the result'))
    for i in raws + [raw2]:
        ctx.eq(res[i], c['body'], 'raw body')
    for i, j in ((p, v), (p2, v2)):
        ctx.ok(res[i], 'parsing after reading the raw body')
        ctx.eq(canon_form(ctx.ok(res[j], 'reading')), want, 'result of parsing after reading the raw body')
    if isinstance(res[b0], Exc):
        if not (isinstance(res[b], Exc) and res[b].type == res[b0].type):
            ctx.fail('body() afterwards: %r, expected %r', res[b], res[b0])
    else:
        ctx.eq(res[b], res[b0], 'body() afterwards')
    ctx.label(c['kind'], c['first'])
    ctx.nt(len(c['body']) > 0)


@st.composite
def bigcase(draw):
    n = draw(st.sampled_from([1, 16383, 16384, 32768, 65535, 65536, 65537, 131071, 131072, 131073, 200000, 700000])) + draw(st.integers(-2, 2))
    return {'n': max(0, n), 'unit': draw(st.sampled_from([b'x', b'ab\r\n', b'\x00\xff\xfe', bytes(range(256))])), 'kind': draw(STREAMS),
            'cuts': draw(st.lists(st.integers(0, 1000), max_size=30)), 'charset': draw(st.sampled_from(['', '; charset=utf-8', '; charset=iso-8859-1']))}


def check_big(ctx, c):
    body = (c['unit'] * (c['n'] // len(c['unit']) + 1))[:c['n']]
    data = ('POST / HTTP/1.1\r\nHost: h\r\nContent-Type: text/plain%s\r\n\r\n' % c['charset']).encode() + body
    s = Script()
    r = s.new(HR, add_stream(s, data, c['kind'], c['cuts']))
    raw = s.call(r, 'body')
    p = s.call(r, 'parse_request_body')
    b = s.call(r, 'body')
    eff = 'utf-8' if 'utf' in c['charset'] else 'latin-1'
    ref = s.func('h.decode', body, eff)
    res = ctx.run(s)
    ctx.eq(res[raw], body, 'raw body of %d bytes' % len(body))
    ctx.ok(res[p], 'parsing')
    if not same_text(res[b], body, eff, res[ref]):
        ctx.fail('decoded body of %d bytes differs: %r', len(body), short_(res[b]))
    ctx.label(c['kind'])
    ctx.nt(c['n'] > 60000)


def short_(x):
    return repr(x)[:300]


PARTS = [
    Part('deliver', case(), check, 'bodies of non-form types with declared, unknown and configured charsets, over all stream kinds, raw read before or after; non-trivial: non-empty, and non-ASCII or with a charset or read raw first', 3000, 40000),
    Part('order', order(), check_order, 'requests of every kind, raw body read first and then parsed, against parsed at once; non-trivial: non-empty body', 1200, 16000),
    Part('big', bigcase(), check_big, 'bodies around multiples of the read sizes; non-trivial: more than 60000 bytes', 120, 1500),
]
