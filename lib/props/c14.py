from hypothesis import assume, strategies as st
from core import Part
from gen import *
from jy import Exc, Script
from props import c10, c12, c13

ALLOWED = ('MultiPartParserError', 'SuspiciousOperation')
# Lines of code executed are at most BASE + PER_BYTE per byte of input. The densest input known (single-character
# parts, or single-byte chunks) needs about a fifth of this.
BASE, PER_BYTE = 40000, 1500

hdr = st.sampled_from([
    b'Content-Disposition: form-data; name="a"', b'Content-Disposition: form-data; name="a"; filename="f.txt"', b'Content-Disposition: form-data; filename=x',
    b'Content-Disposition: form-data; name=', b'Content-Disposition', b'Content-Disposition:', b'content-disposition: ;name=a', b'Content-Disposition: form-data; name*=utf-8\'\'%ff%fe',
    b'Content-Disposition: form-data; name="a"; filename*=nonsense-9\'\'%41', b"Content-Disposition: form-data; name=\"a\"; filename*=hex''%41", b'Content-Disposition: form-data; name="a"; filename*=utf-8\'x',
    b'Content-Disposition: form-data; name="\xff\xfe"; filename="\xff\x00"', b'Content-Disposition: form-data; name="a\\', b'Content-Disposition: form-data; name="', b'Content-Disposition: form-data; name="a"; filename="&#999999999999;"',
    b'Content-Disposition: form-data; name="a"; filename="&#xD800;&nosuch;&#;"', b'Content-Disposition: form-data; name="a"; filename="\xe9&#233;"', b'Content-Disposition: form-data; name="a"; filename="..\\..\\x"',
    b'Content-Disposition: form-data; name="a"; filename="/"', b'Content-Disposition: form-data; name="a"; filename="x/.."', b'Content-Disposition: form-data; name="a"; filename="' + b'e' * 300 + b'.' + b'x' * 300 + b'"',
    b'Content-Type: text/plain; charset=', b'Content-Type: text/plain; charset="\xff"', b'Content-Type', b'Content-Type: ;;;', b'Content-Type: multipart/mixed; boundary=B', b'Content-Type: \xe9/\xe9; \xe9=\xe9', b'\xe9\xe9: x', b'\xff; a=b',
    b'Content-Transfer-Encoding: base64', b'Content-Transfer-Encoding: base64; x=y', b'Content-Transfer-Encoding', b'Content-Transfer-Encoding: \xff', b'Content-Length: 5', b'Content-Length: x', b'Content-Length: -1', b'Content-Length:', b'Content-Length: 99999999999999999999',
    b': x', b':', b';', b'=', b'a;b=";', b'', b' ', b'\x00: \x00', b'x' * 1100, b'"', b"a: b*=c'd'e*='"])
anyb = st.one_of(st.binary(max_size=12), st.sampled_from([b'QUJD', b'QQ==', b'Q', b'====', b'!!!!', b'\x80\xff', b'QQ==QQ==']))


@st.composite
def soup(draw, b):
    """Bytes made of everything a multipart parser looks for."""
    d = b'--' + b
    out = b''
    for _ in range(draw(st.integers(0, 12))):
        k = draw(st.integers(0, 9))
        if k < 4:
            hs = draw(st.lists(hdr, min_size=0, max_size=4))
            out += d + b'\r\n' + b'\r\n'.join(hs) + draw(st.sampled_from([b'\r\n\r\n', b'\r\n\r\n', b'\r\n', b'\n\n', b'']))
            out += draw(anyb) + draw(st.sampled_from([b'\r\n', b'\r\n', b'', b'\n']))
        elif k < 6:
            out += draw(st.sampled_from([d, d + b'--', d + b'\r\n', b'\r\n', b'\r\n\r\n', b'--', d[:-1], b, d + d, d * 5, (d + b'\r\n') * 45, b'\r\n' * 50]))
        elif k < 8:
            out += draw(anyb)
        else:
            out += draw(hdr)
    return out + draw(st.sampled_from([b'', d + b'--\r\n', d + b'--']))


@st.composite
def case(draw):
    b = draw(boundaries).encode()
    if draw(st.booleans()):
        body = draw(soup(b))
    else:
        ps = draw(st.lists(st.one_of(part(b), c13.b64part(b, ('file', 'field'))), min_size=1, max_size=5))
        body = c12.mutate(draw, body_bytes(b, ps, draw(c10.PRE), draw(c10.EPI)), b, draw(st.integers(1, 4)))
    c = {'boundary': b, 'body': body, 'chunk': draw(st.sampled_from([65536, 65536, 1, 7, 64, 1000]))}
    c['length'] = draw(st.sampled_from([None, None, 1, 10 ** 9, 2 ** 40]))
    c['charset'] = draw(st.sampled_from(['', '', '; charset=hex', '; charset=utf-8', '; charset=x', '; charset=utf-16', '; charset=base64', '; charset=us-ascii']))
    c['max'] = draw(st.sampled_from([None, None, 0, 5, 100]))
    c['fields'] = draw(st.sampled_from([None, 1, 3]))
    c['mem'] = draw(st.sampled_from([0, 3, 10 ** 6]))
    c['handlers'] = draw(st.sampled_from([['jyhandlers.ConvC'], ['jyhandlers.ConvC'], ['jyhandlers.MemC', 'jyhandlers.TempC'], ['jyhandlers.TempC']]))
    return c


def known(c, e):
    """The recorded finding (C34 has it too): the platform's decoder of utf-16 raises an error of its own for a surrogate that is cut off or alone."""
    return 'utf-16' in c['charset'] and isinstance(e, Exc) and (e.type == 'StringIndexOutOfBoundsException' or e.type == 'ValueError' and 'unpaired surrogate' in repr(e))


def script(c, data):
    s = Script()
    s.func('jyhandlers.set_chunk', c['chunk'])
    d = s.new('h.tmpdir')
    cfg = s.new('h.settings', None, FILE_UPLOAD_HANDLERS=c['handlers'], FILE_UPLOAD_TEMP_DIR=d,
                DATA_UPLOAD_MAX_MEMORY_SIZE=c['max'], DATA_UPLOAD_MAX_NUMBER_FIELDS=c['fields'], FILE_UPLOAD_MAX_MEMORY_SIZE=c['mem'])
    r = s.new(HR, s.new('h.bytesio', data), cfg)
    h = s.call(r, 'parse_request_header')
    p = s.call(r, 'parse_request_body')
    v = s.func('h.view_form', r)
    s.call(r, 'close')
    left = s.func('h.walk', d)
    return s, h, p, v, left


def check(ctx, c):
    body = c['body']
    data = form_request(c['boundary'], body, length=c['length'] if c['length'] else max(1, len(body)))
    if c['charset']:
        i = data.index(b'\r\nContent-Length')
        data = data[:i] + c['charset'].encode() + data[i:]
    s, h, p, v, left = script(c, data)
    if len(canonlen(c)) % 4 == 0:
        res, steps = ctx.w.run_counted(s, BASE + PER_BYTE * len(data))
        if res is None:
            ctx.fail('parsing %d bytes takes more than %d lines of code', len(data), BASE + PER_BYTE * len(data))
        ctx.label('steps counted', 'more than 5%% of the bound' if steps > (BASE + PER_BYTE * len(data)) / 20 else '', 'more than half of the bound' if steps > (BASE + PER_BYTE * len(data)) / 2 else '')
    else:
        res = ctx.run(s)
    ctx.ok(res[h], 'parsing the head of %r' % data[:300])
    e = res[p]
    if known(c, e):
        ctx.label('known finding: wide charset, lone surrogate')
        ctx.eq(res[left], [], 'temporary files left after closing')
        return
    if isinstance(e, Exc):
        if not e.isa(*ALLOWED):
            ctx.fail('parsing ends with %r', e)
        ctx.eq(res[v], {'POST': [], 'FILES': []}, 'form data of a refused form')
        ctx.label('refused: ' + e.type)
    else:
        f = ctx.ok(res[v], 'reading the form')
        ctx.label('accepted', 'with content' if f['POST'] or f['FILES'] else '')
    ctx.eq(res[left], [], 'temporary files left after closing')
    ctx.nt(len(body) > 0 and (isinstance(e, Exc) or bool(f['POST'] or f['FILES'])))


def canonlen(c):
    return c['body'] + b'x' * c['chunk']


@st.composite
def headcase(draw):
    ct = draw(st.sampled_from([
        ('multipart/form-data', 'bad'), ('multipart/form-data; boundary', 'bad'), ('multipart/form-data; boundary=', 'bad'), ('multipart/form-data; boundary=""', 'bad'),
        ('multipart/form-data; bound=x', 'bad'), ('multipart/form-data; boundary=' + 'b' * 202, 'bad'), ('multipart/form-data; boundary="a "', 'bad'), ('multipart/form-data; boundary="a\x01b"', 'bad'),
        ('multipart/form-data; boundary="\x7f"', 'bad'), ('multipart/form-data;boundary=\tB\x00', 'bad'), ('multipart/form-data;', 'bad'), ('multipart/form-data; charset=utf-8', 'bad'),
        ('multipart/form-data; boundary=B', 'ok'), ('multipart/form-data;boundary="B"', 'ok'), ('multipart/form-data; BOUNDARY=B', 'ok'), ('multipart/form-data ; charset=utf-8; boundary=B', 'ok'), ('multipart/form-data; boundary=B; boundary=B', 'ok')]))
    ln = draw(st.sampled_from([('real', 'ok'), ('real', 'ok'), (None, 'empty'), ('0', 'empty'), ('x', 'empty'), ('', 'empty'), ('1e3', 'empty'), ('0x10', 'empty'), ('5.0', 'empty'), ('--5', 'empty'), ('00', 'empty'), ('-0', 'empty'),
                               ('-1', 'bad'), ('-' + '9' * 30, 'bad'), ('-007', 'bad'), ('9' * 30, 'ok'), ('+1', 'ok')]))
    if draw(st.integers(0, 3)) == 0:
        n = draw(txt(PRINT.replace('-', '').replace('+', ''), 1, 6))
        if not n.strip().isdigit():
            ln = (n, 'empty')
    if draw(st.integers(0, 5)) == 0:
        n = draw(st.integers(1, 10 ** 12))
        ln = ('-%d' % n, 'bad')
    return {'ct': ct, 'length': ln, 'field': draw(st.booleans()), 'order': draw(st.booleans())}


def check_head(ctx, c):
    body = body_bytes(b'B', [{'kind': 'field', 'name': b'a', 'content': b'v', 'ctype': None, 'params': [], 'cte': None, 'style': 0}]) if c['field'] else b'--B--\r\n'
    (ct, x), (ln, y) = c['ct'], c['length']
    hs = ['Content-Type: ' + ct] + ([] if ln is None else ['Content-Length: ' + (str(len(body)) if ln == 'real' else ln)])
    if c['order']:
        hs.reverse()
    data = ('POST / HTTP/1.1\r\nHost: h\r\n' + '\r\n'.join(hs) + '\r\n\r\n').encode('latin-1') + body
    s = Script()
    r, p = fast_parse(s, data)
    v = s.func('h.view_form', r)
    res = ctx.run(s)
    if x == 'bad' or y == 'bad':
        if not (isinstance(res[p], Exc) and res[p].type == 'MultiPartParserError'):
            ctx.fail('content type %r, length %r: %r', ct, ln, res[p])
        ctx.eq(res[v], {'POST': [], 'FILES': []}, 'form data of a refused form')
    else:
        ctx.ok(res[p], 'parsing with content type %r, length %r' % (ct, ln))
        n = sum(len(l) for _, l in ctx.ok(res[v], 'reading')['POST'])
        ctx.eq(n, 1 if c['field'] and y == 'ok' else 0, 'number of fields with content type %r, length %r' % (ct, ln))
    ctx.label('type: ' + x, 'length: ' + y)
    ctx.nt(x == 'bad' or y != 'ok')


@st.composite
def longcase(draw):
    d = b'--B'
    unit = draw(st.one_of(
        st.sampled_from([d, d + b'\r\n', d + b'\r\n\r\n\r\n', b'\r\n', b'-', b'\r', b'--', b'--BB', b'\r\n--', b'x', b'QUJD', b' ', b'Q ', b'=', b';', b'"', b'a=";', b"*=''", b'\\"']),
        hdr, st.lists(st.one_of(hdr, st.sampled_from([d, b'\r\n', b'\r\n\r\n', b'"', b';'])), min_size=1, max_size=4).map(b''.join)))
    pre = draw(st.sampled_from([b'', d + b'\r\n', d + b'\r\nContent-Disposition: form-data; name="a"\r\n\r\n', d + b'\r\nContent-Disposition: form-data; name="a"; filename="f"\r\n\r\n',
                                d + b'\r\nContent-Disposition: form-data; name="a"; filename="f"\r\nContent-Transfer-Encoding: base64\r\n\r\n', d + b'\r\nContent-Disposition: form-data; name="', d + b'\r\nContent-Disposition: form-data;']))
    n = draw(st.sampled_from([1500, 4000, 20000, 80000]))
    post = draw(st.sampled_from([b'', b'\r\n--B--\r\n', b'\r\n\r\n--B', b'"\r\n\r\nx\r\n--B--']))
    return {'boundary': b'B', 'pre': pre, 'unit': unit, 'n': n, 'post': post, 'chunk': draw(st.sampled_from([65536, 65536, 1000, 16])), 'handlers': draw(st.sampled_from([['jyhandlers.ConvC'], ['jyhandlers.TempC']])),
            'max': None, 'fields': draw(st.sampled_from([None, 1000])), 'mem': draw(st.sampled_from([0, 10 ** 6]))}


def check_long(ctx, c):
    body = c['pre'] + (c['unit'] * (c['n'] // len(c['unit'] or b'x') + 1))[:c['n']] + c['post']
    data = form_request(b'B', body)
    s, h, p, v, left = script(c, data)
    bound = BASE + PER_BYTE * len(data)
    small = len(body) < 6000
    if small:
        res, steps = ctx.w.run_counted(s, bound)
        if res is None:
            ctx.fail('parsing %d bytes takes more than %d lines of code', len(data), bound)
        ctx.label('steps counted', 'more than half of the bound' if steps > bound / 2 else '')
    else:
        res = ctx.run(s)
    e = res[p]
    if isinstance(e, Exc) and not e.isa(*ALLOWED):
        ctx.fail('parsing ends with %r', e)
    ctx.eq(res[left], [], 'temporary files left after closing')
    ctx.label('refused: ' + e.type if isinstance(e, Exc) else 'accepted')
    ctx.nt()


SURROGATE = {'boundary': b'BB', 'body': b'--BB\r\nContent-Disposition: form-data; name="\xdb\xd8"\r\n\r\nx\r\n--BB--\r\n', 'chunk': 65536, 'length': None,
             'charset': '; charset=utf-16', 'max': None, 'fields': None, 'mem': 3, 'handlers': ['jyhandlers.ConvC']}
PARTS = [
    Part('hostile', case(), check, 'damaged forms and delimiter-rich bytes with generated limits, chunk sizes and charsets; non-trivial: refused, or something was parsed', 3000, 60000, examples=[SURROGATE]),
    Part('head', headcase(), check_head, 'missing, invalid and odd boundaries and lengths; non-trivial: at least one of them is not plain', 800, 6000),
    Part('long', longcase(), check_long, 'long repetitions of one fragment; non-trivial: all', 100, 2500),
]
