import base64
import re
from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script
from props import c10, c11, c12, c13

DECLARED = ('InvalidHttpRequest', 'NoHostFoundException', 'MultiPartParserError', 'SuspiciousOperation', 'UnreadablePostError')
FRAGS = [b'\r\n', b'\n', b'\r', b'\r\n\r\n', b' ', b'  ', b'\t', b':', b': ', b';', b'; ', b'=', b'"', b"'", b'\\', b'/', b'//', b'?', b'#', b'&', b'%', b'%zz', b'%C3', b'%00', b'@', b'[', b']', b'[::1]', b'[::', b'*',
         b'GET / HTTP/1.1\r\n', b'POST http://h:99999/ HTTP/1.1\r\n', b'CONNECT h:443 HTTP/1.1\r\n', b'Host: h\r\n', b'Host: \r\n', b'Host: h:\r\n', b'Host: [::1]:8\r\n', b'Host: h,h\r\n', b'Host: .\r\n', b'host: h\r\n', b'http://', b'http:', b'://',
         b'Content-Type: multipart/form-data; boundary=b\r\n', b'Content-Type: multipart/form-data\r\n', b'Content-Type: application/x-www-form-urlencoded\r\n', b'Content-Type: text/plain; charset=utf-16\r\n', b'Content-Type: ;\r\n',
         b'Content-Type: multipart/form-data; boundary="\r\n', b'Content-Type: application/x-www-form-urlencoded; charset=utf-7\r\n', b'Content-Type: text/plain; charset=idna\r\n', b'Content-Type: x; charset*=utf-8\'\'%ff\r\n', b'Content-Length: 0\r\n',
         b'Content-Length: -1\r\n', b'Content-Length: x\r\n', b'Content-Length: 99999999999999999999\r\n', b'Content-Length: 5\r\n', b'Content-Length: +5\r\n', b'X-A:\r\n', b' folded\r\n', b'Transfer-Encoding: chunked\r\n',
         b'--b', b'--b\r\n', b'--b--', b'--b--\r\n', b'Content-Disposition: form-data; name="a"', b'Content-Disposition: form-data; name="f"; filename="x"\r\n\r\n', b'Content-Disposition: form-data; name=a; filename*=utf-8\'\'%', b'Content-Disposition: form-data',
         b'Content-Transfer-Encoding: base64\r\n', b'Content-Transfer-Encoding: quoted-printable\r\n', b'Content-Transfer-Encoding: x\r\n', b'QUJD', b'QUJ', b'====', b'a=b', b'a=b&c=d;e', b'\x00', b'\xff', b'\xc3\xa9', b'\xef\xbb\xbf', b'\xed\xa0\x80', b'\x85',
         b'a', b'abc', b'0', b'x' * 40]
frag = st.one_of(st.sampled_from(FRAGS), st.sampled_from(FRAGS), st.binary(min_size=1, max_size=4))
LIMITS = st.fixed_dictionaries({
    'MAX_HEADER_SIZE': st.sampled_from([16, 16, 16, 1, 3, 1000, 100000]), 'DATA_UPLOAD_MAX_MEMORY_SIZE': st.sampled_from([5242880, 5242880, None, 0, 1, 30, 3000]),
    'DATA_UPLOAD_MAX_NUMBER_FIELDS': st.sampled_from([4096, 4096, None, 0, 1, 2]), 'FILE_UPLOAD_MAX_MEMORY_SIZE': st.sampled_from([31457280, 31457280, 0, 10]),
    'DEFAULT_CHARSET': st.sampled_from(['ISO-8859-1', 'ISO-8859-1', 'utf-8', 'ascii', 'utf-16', 'shift_jis', 'cp037'])})
HAND = st.sampled_from(list(c11.HANDLERS))


def mutate(draw, d, n):
    for _ in range(n):
        how = draw(st.sampled_from(['insert', 'insert', 'delete', 'byte', 'truncate', 'duplicate', 'replace', 'swap']))
        i = draw(st.integers(0, len(d)))
        j = min(len(d), i + draw(st.sampled_from([1, 1, 2, 4, 10, 50])))
        if how == 'insert':
            d = d[:i] + draw(frag) + d[i:]
        elif how == 'delete':
            d = d[:i] + d[j:]
        elif how == 'byte':
            d = d[:i] + bytes([draw(st.integers(0, 255))]) + d[i + 1:]
        elif how == 'truncate':
            d = d[:i]
        elif how == 'duplicate':
            d = d[:j] + d[i:j] + d[j:]
        elif how == 'replace':
            d = d[:i] + draw(frag) + d[j:]
        else:
            k = draw(st.integers(0, len(d)))
            d = d[:i] + d[k:k + 20] + d[i:]
    return d


@st.composite
def mutated(draw):
    if draw(st.integers(0, 2)):
        c = draw(whole(big=False))
        d = c['head'] + c['body']
    else:
        b = draw(boundaries).encode()
        d = form_request(b, body_bytes(b, draw(st.lists(st.one_of(part(b, big=False), c13.b64part(b, ('field', 'file'))), max_size=3)), draw(c10.PRE)))
    return {'data': mutate(draw, d, draw(st.integers(1, 4))), 'limits': draw(LIMITS), 'handlers': draw(HAND), 'kind': draw(STREAMS), 'cuts': draw(CUTS)}


@st.composite
def soup(draw):
    line = draw(st.sampled_from([b'', b'GET / HTTP/1.1\r\n', b'POST /a?b HTTP/1.1\r\nHost: h\r\n', b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=b\r\nContent-Length: 9\r\n\r\n',
                                 b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\n', b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: ']))
    d = line + b''.join(draw(st.lists(frag, max_size=14)))
    if draw(st.booleans()) and b'\r\n\r\n' not in d:
        d += b'\r\n\r\n' + draw(st.binary(max_size=6))
    return {'data': d, 'limits': draw(LIMITS), 'handlers': draw(HAND), 'kind': draw(STREAMS), 'cuts': draw(CUTS)}


# every header the library looks at, in the head and in parts, with values that are odd in their own way
NUMBERS = st.sampled_from(['0', '1', '-1', '+5', '007', '5.5', '1e3', '0x10', 'abc', '', ' 3 ', '12 34', '1,2', '1_000', '99999999999999999999999', '\xb2', '\x00', '5;x=y', '"5"', 'None', '1L'])
WORDS = ['a', 'b', 'form-data', 'text/plain', 'multipart/form-data', 'multipart/', 'application/x-www-form-urlencoded', 'application/json', 'base64', 'quoted-printable', 'name', 'filename', 'filename*', 'name*', 'charset', 'charset*', 'boundary', 'boundary*', 'utf-8', "utf-8''", "x'y'z",
         '"', '"x"', '""', "'", '\\', '\\"', ';', '; ', '=', ' = ', ',', ' ', '\t', '%', '%41', '%ff', '*', '&#', '&#x41;', '&lt;', '/', '..', '\\..\\', ':', '\xe9', '\xff', '\x00', '\x85', '\x0b', 'utf-16', 'idna', 'hex', 'rot13', 'zlib', 'x' * 300]
ODD = st.one_of(NUMBERS, st.lists(st.sampled_from(WORDS), max_size=7).map(''.join), st.tuples(st.sampled_from(['form-data; name="a"', 'form-data; name="f"; filename="x.y"', 'text/plain; charset=utf-8', 'multipart/form-data; boundary=b', 'application/x-www-form-urlencoded; charset=utf-8', 'base64']),
                st.lists(st.sampled_from(WORDS), max_size=5).map(''.join)).map(''.join))
NAMES = ['Content-Disposition', 'Content-Type', 'Content-Length', 'Content-Transfer-Encoding', 'content-disposition', 'CONTENT-TYPE', 'X']


@st.composite
def odd(draw):
    b = draw(st.sampled_from(['b', 'b', '--b', 'x y']))

    def headers(plain, odds):
        out = [(n, draw(ODD) if draw(st.integers(0, 3)) < odds else v) for n, v in plain]
        out += draw(st.lists(st.tuples(st.sampled_from(NAMES), ODD), max_size=2 if odds else 0))
        return out if draw(st.booleans()) else draw(st.permutations(out))
    parts = []
    for _ in range(draw(st.integers(0, 3))):
        f = draw(st.booleans())
        plain = [('Content-Disposition', 'form-data; name="a"' + ('; filename="x.y"' if f else ''))]
        plain += draw(st.lists(st.sampled_from([('Content-Type', 'text/plain; charset=utf-8'), ('Content-Length', '3'), ('Content-Transfer-Encoding', 'base64'), ('Content-Transfer-Encoding', 'binary')]), max_size=3, unique=True))
        parts.append(('\r\n'.join('%s: %s' % h for h in headers(plain[:1], 1 if draw(st.integers(0, 3)) == 0 else 0) + headers(plain[1:], 2)), draw(st.sampled_from(['', 'QUJD', 'QUJ', 'a=b', '\xff\r\n']))))
    body = ''.join('--%s\r\n%s\r\n\r\n%s\r\n' % (b, h, d) for h, d in parts) + '--%s--\r\n' % b
    if draw(st.integers(0, 3)) == 0:
        body = draw(st.sampled_from(['', 'a=b&c', '%', 'x' * 20]))
    head = headers([('Content-Type', 'multipart/form-data; boundary=%s' % b if draw(st.integers(0, 4)) else 'application/x-www-form-urlencoded'), ('Content-Length', str(len(body)))], draw(st.sampled_from([0, 0, 1, 2])))
    head.insert(draw(st.integers(0, len(head))), ('Host', draw(st.one_of(st.just('h'), st.just('h'), ODD))))
    if draw(st.integers(0, 3)) == 0:
        head.append(('X-Requested-With', draw(ODD)))
    d = 'POST %s HTTP/1.1\r\n' % draw(st.sampled_from(['/', '/', '/?a=b', 'http://h/', '/?%ff', '*'])) + ''.join('%s: %s\r\n' % h for h in head) + '\r\n' + body
    return {'data': d.encode('latin-1'), 'limits': draw(LIMITS), 'handlers': draw(HAND), 'kind': draw(STREAMS), 'cuts': draw(CUTS)}


def declared(v):
    return isinstance(v, Exc) and v.isa(*DECLARED)


WIDE = re.compile(br'(?i)charset\*?=.{0,12}utf[-_ ]?(16|32)', re.S)


def known(c, v):
    """The recorded finding: the platform's decoders of utf-16 and utf-32 raise errors of their own for surrogates that are cut off or alone."""
    return isinstance(v, Exc) and (v.type == 'StringIndexOutOfBoundsException' or v.type == 'ValueError' and 'unpaired surrogate' in repr(v)) and (
        bool(WIDE.search(c['data'])) or c['limits'].get('DEFAULT_CHARSET') == 'utf-16')


def check(ctx, c, rec=None):
    s = Script()
    cfg = s.new('h.settings', None, FILE_UPLOAD_TEMP_DIR=s.new('h.tmpdir'), **dict(c['limits'], **({'FILE_UPLOAD_HANDLERS': c11.HANDLERS[c['handlers']]} if c11.HANDLERS[c['handlers']] else {})))
    r = s.new(HR, add_stream(s, c['data'], c['kind'], c['cuts']), cfg)
    p = s.call(r, 'parse')
    v = s.func('h.full', r)
    b = s.call(r, 'body')
    s.call(r, 'close')
    # step by step, as a caller may
    q = s.new(HR, s.new('h.bytesio', c['data']), cfg)
    h = s.call(q, 'parse_request_header')
    acc = s.func('h.view_accessors', q)
    b2 = s.call(q, 'body')
    f = s.call(q, 'parse_request_body')
    s.call(q, 'close')
    res = ctx.run(s)
    if any(known(c, res[i]) for i in (p, v, b, h, acc, b2, f)):
        ctx.label('known finding: wide charset, lone surrogate')
        return
    for i, what in ((p, 'parse()'), (h, 'parse_request_header()')):
        if isinstance(res[i], Exc) and not declared(res[i]):
            ctx.fail('%s raised %r, which is not a declared error, for %r', what, res[i], c['data'][:300])
    if not isinstance(res[h], Exc):
        ctx.ok(res[acc], 'the accessors after the head is parsed')
        if isinstance(res[b2], Exc) and not declared(res[b2]):
            ctx.fail('body() raised %r', res[b2])
        if isinstance(res[f], Exc) and not declared(res[f]):
            ctx.fail('parse_request_body() raised %r', res[f])
    if not isinstance(res[p], Exc):
        ctx.ok(res[v], 'everything reported after parsing')
        if isinstance(res[b], Exc) and not (declared(res[b]) or res[b].type == 'RawPostDataException'):
            ctx.fail('body() raised %r', res[b])
        ctx.eq(isinstance(res[h], Exc), False, 'whether the head alone is refused')
        ctx.label('accepted')
        post = res[v]['POST'] or res[v]['FILES']
        ctx.label('form data' if post else '')
    else:
        ctx.label(res[p].type if not isinstance(res[h], Exc) else 'head refused: ' + res[h].type)
    ctx.nt(not isinstance(res[h], Exc) or b'\r\n\r\n' in c['data'])


LENGTHS = st.one_of(st.sampled_from([1000, 1023, 1024, 1025, 4096, 9000, 30000, 65536]), st.integers(500, 70000))
UNITS = st.one_of(st.sampled_from([b'a', b'%', b'%41', b'\\', b'"', b"'", b';', b'; a=b', b'; a="b"', b'; a*=x\'\'y', b'=', b'&', b'a=b&', b'%C3%A9', b'\xff', b'\xc3\xa9', b' ', b'\t', b'\r', b'\n', b'\r\n', b'-', b'--', b'.', b'/', b'//', b':', b'[', b'0', b'A:b\r\n', b'A: b\r\n', b'\\"', b',',
                                  b'?', b'#', b'+', b'<', b'QUJD', b'Q', b'\x00', b'--b\r\n', b'\r\n--b', b'--b\r\nContent-Disposition: form-data; name="a"\r\n\r\nx\r\n', b'a.', b'a-', b'A', b'\x85']), st.binary(min_size=1, max_size=3))
PLACES = {
    'path': b'GET /%s HTTP/1.1\r\nHost: h\r\n\r\n', 'query': b'GET /?%s HTTP/1.1\r\nHost: h\r\n\r\n', 'fragment': b'GET /#%s HTTP/1.1\r\nHost: h\r\n\r\n', 'method': b'%s / HTTP/1.1\r\nHost: h\r\n\r\n',
    'scheme': b'GET %s://h/ HTTP/1.1\r\nHost: h\r\n\r\n', 'authority': b'GET http://%s/ HTTP/1.1\r\nHost: h\r\n\r\n', 'protocol': b'GET / %s\r\nHost: h\r\n\r\n', 'host': b'GET / HTTP/1.1\r\nHost: %s\r\n\r\n', 'port': b'GET / HTTP/1.1\r\nHost: h:%s\r\n\r\n',
    'headername': b'GET / HTTP/1.1\r\nHost: h\r\nX%s: y\r\n\r\n', 'headervalue': b'GET / HTTP/1.1\r\nHost: h\r\nX: %s\r\n\r\n', 'headers': b'GET / HTTP/1.1\r\nHost: h\r\n%s\r\n\r\n',
    'type': b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: %s\r\n\r\nx', 'typeparam': b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: text/plain%s\r\n\r\nx', 'typevalue': b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: text/plain; a="%s"\r\n\r\nx',
    'charset': b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: text/plain; charset=%s\r\n\r\nx', 'boundary': b'POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 9\r\nContent-Type: multipart/form-data; boundary=%s\r\n\r\nx',
    'length': b'POST / HTTP/1.1\r\nHost: h\r\nContent-Length: %s\r\nContent-Type: multipart/form-data; boundary=b\r\n\r\nx',
    'text': b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: text/plain; charset=utf-8\r\n\r\n%s', 'plain': b'POST / HTTP/1.1\r\nHost: h\r\n\r\n%s', 'form': b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\n%s',
    'formvalue': b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\na=%s', 'formutf': b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded; charset=utf-8\r\n\r\na=%s',
    'form16': b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded; charset=utf-16\r\n\r\na=%s'}
M = b'POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 9\r\nContent-Type: multipart/form-data; boundary=b\r\n\r\n'
PLACES.update({
    'preamble': M + b'%s\r\n--b\r\nContent-Disposition: form-data; name="a"\r\n\r\nx\r\n--b--\r\n', 'parthead': M + b'--b\r\n%s\r\n\r\nx\r\n--b--\r\n', 'partname': M + b'--b\r\nContent-Disposition: form-data; name="%s"\r\n\r\nx\r\n--b--\r\n',
    'partfile': M + b'--b\r\nContent-Disposition: form-data; name="f"; filename="%s"\r\n\r\nx\r\n--b--\r\n', 'partext': M + b'--b\r\nContent-Disposition: form-data; name="f"; filename*=utf-8\'\'%s\r\n\r\nx\r\n--b--\r\n',
    'partdisp': M + b'--b\r\nContent-Disposition: form-data%s; name="a"\r\n\r\nx\r\n--b--\r\n', 'field': M + b'--b\r\nContent-Disposition: form-data; name="a"\r\n\r\n%s\r\n--b--\r\n', 'file': M + b'--b\r\nContent-Disposition: form-data; name="a"; filename="x"\r\n\r\n%s\r\n--b--\r\n',
    'field64': M + b'--b\r\nContent-Disposition: form-data; name="a"\r\nContent-Transfer-Encoding: base64\r\n\r\n%s\r\n--b--\r\n', 'file64': M + b'--b\r\nContent-Disposition: form-data; name="a"; filename="x"\r\nContent-Transfer-Encoding: base64\r\n\r\n%s\r\n--b--\r\n',
    'epilogue': M + b'--b\r\nContent-Disposition: form-data; name="a"\r\n\r\nx\r\n--b--%s', 'multi': M + b'%s', 'parttype': M + b'--b\r\nContent-Disposition: form-data; name="f"; filename="q"\r\nContent-Type: text/plain%s\r\n\r\nx\r\n--b--\r\n'})


@st.composite
def long_(draw):
    unit = draw(st.one_of(UNITS, UNITS, st.lists(UNITS, min_size=2, max_size=3).map(b''.join)))
    n = draw(LENGTHS)
    return {'place': draw(st.sampled_from(sorted(PLACES))), 'unit': unit, 'n': n, 'end': draw(st.one_of(st.just(b''), UNITS)), 'limits': draw(LIMITS), 'handlers': draw(HAND), 'kind': draw(st.sampled_from(['bytesio', 'bytesio', 'chunks', 'realfile'])), 'cuts': draw(CUTS)}


def check_long(ctx, c):
    d = PLACES[c['place']].replace(b'%s', (c['unit'] * (c['n'] // len(c['unit']) + 1))[:c['n']] + c['end'])
    c = dict(c, data=d)
    ctx.label(c['place'])
    if len(c['limits']) and c['limits']['MAX_HEADER_SIZE'] < 16 and len(d) > 20000:
        c['limits'] = dict(c['limits'], MAX_HEADER_SIZE=16)
    check(ctx, c)
    ctx.nt()


def example(head, body, **limits):
    return {'data': b'POST / HTTP/1.1\r\nHost: h\r\n' + head + b'\r\n\r\n' + body, 'limits': limits, 'handlers': 'default', 'kind': 'bytesio', 'cuts': []}


EXAMPLES = [example(b'Content-Type: text/plain; charset=utf-16-le', b'\xff\x00\xff\xd8'), example(b'Content-Type: application/x-www-form-urlencoded; charset=utf-32-be', b'\x00\x00\xd8\\'),
            example(b'Content-Type: text/plain', b'\xfe\xff\xd8\x00', DEFAULT_CHARSET='utf-16')]
PARTS = [
    Part('mutated', mutated(), check, 'well-formed requests with 1 to 4 mutations, under varied limits, default charsets and handlers; non-trivial: the head is accepted or there is a blank line', 1200, 28000, examples=EXAMPLES),
    Part('soup', soup(), check, 'sequences of grammar fragments and bytes; non-trivial as above', 1000, 25000),
    Part('values', odd(), check, 'requests with odd values of the headers that are looked at, in the head and in the parts; non-trivial as above', 1000, 25000),
    Part('long', long_(), check_long, 'requests with one place filled with up to 70 KB of a repeated unit', 300, 6000),
]
