from hypothesis import assume, strategies as st
from core import Part
import gen
from gen import *
from jy import Exc, Script

PRE = st.one_of(st.just(b''), st.just(b''), st.sampled_from([b'\r\n', b'This is a preamble.\r\n', b'a: b\r\n\r\nx\r\n', b'--\r\n', b'x' * 2000 + b'\r\n', b'Content-Disposition: form-data; name="pre"\r\n\r\nhidden?\r\n'][:5]))
EPI = st.sampled_from([b'\r\n', b'\r\n', b'', b'\r\nepilogue', b'\r\n\r\nname="x"\r\n\r\n', b' \r\nx', b'\r\n' + b'y' * 3000, b'\r\n\x00\xff'])
CTX = 'iso-8859-1'


def usable(boundary, body, parts):
    """The delimiter occurs once per part and once at the end, nowhere else; part heads fit."""
    d = b'--' + boundary
    return body.count(d) == len(parts) + 1 and all(len(part_bytes(p)) - len(p.get('wire', p['content'])) <= 1000 for p in parts)


@st.composite
def case(draw, kinds=('field',), b64=False, names=field_names, big=True, maxparts=5):
    b = draw(boundaries).encode()
    c = {'boundary': b, 'parts': draw(st.lists(part(b, kinds, names=names, b64=b64, big=big), max_size=maxparts)),
         'pre': draw(PRE), 'epi': draw(EPI), 'charset': draw(st.sampled_from([None, None, 'utf-8'])),
         'ctype': draw(st.sampled_from([None, None, 'Multipart/Form-Data; Boundary=', 'MULTIPART/FORM-DATA;BOUNDARY=', 'multipart/form-data ;  boundary = ']))}
    if c['charset']:
        for p in c['parts']:
            n = p['name'].decode('utf-8', 'ignore').encode()
            p['name'] = n if n and edges_ok(n) else b'n'
    assume(usable(b, body_bytes(b, c['parts'], c['pre'], c['epi']), c['parts']))
    return c


def request(c):
    body = body_bytes(c['boundary'], c['parts'], c['pre'], c['epi'])
    data = form_request(c['boundary'], body)
    if c.get('ctype'):
        data = data.replace(b'multipart/form-data; boundary=', c['ctype'].encode(), 1)
    if c.get('charset'):
        i = data.index(b'\r\nContent-Length')
        data = data[:i] + b'; charset=' + c['charset'].encode() + data[i:]
    return data


def check(ctx, c):
    data = request(c)
    s = Script()
    r, p = fast_parse(s, data)
    v = s.func('h.view_form', r)
    res = ctx.run(s)
    ctx.ok(res[p], 'parsing %r' % data[:2000])
    expect_form(ctx, ctx.ok(res[v], 'reading the form'), c['parts'], c.get('charset') or CTX)
    labels(ctx, c)


def labels(ctx, c):
    ps = c['parts']
    tricky = any(t in p['content'] for p in ps for t in (b'\r\n', b'--', b'\n'))
    rep = len({p['name'] for p in ps}) < len(ps)
    ctx.label('line breaks or dashes' if tricky else '', 'repeated name' if rep else '', 'preamble' if c['pre'] else '', 'epilogue' if c['epi'] not in (b'', b'\r\n') else '',
              'empty content' if any(not p['content'] for p in ps) else '', 'content type' if any(p['ctype'] for p in ps) else '', 'long content' if any(len(p['content']) > 1024 for p in ps) else '',
              'empty form' if not ps else '')
    ctx.nt(bool(ps) and (tricky or rep or len(ps) > 1 or bool(c['pre'])))


@st.composite
def bigcase(draw):
    b = draw(boundaries).encode()
    ps = []
    for _ in range(draw(st.integers(1, 3))):
        p = draw(part(b, ('field',), big=False))
        n = draw(st.sampled_from([1024, 4096, 16384, 65536, 131072])) + draw(st.integers(-120, 20))
        u = draw(st.sampled_from([b'x', b'\r\n', b'\r\n--', b'\r', bytes(range(256)), b'--' + b[:-1] + b'\r\n']))
        p['content'] = scrub((u * (n // len(u) + 1))[:n], b)
        ps.append(p)
    c = {'boundary': b, 'parts': ps, 'pre': draw(PRE), 'epi': draw(EPI)}
    assume(usable(b, body_bytes(b, ps, c['pre'], c['epi']), ps))
    return c


PARTS = [
    Part('fields', case(), check, 'well-formed multipart forms of text fields; non-trivial: two or more parts, a repeated name, a preamble, or content with line breaks or dashes', 3000, 45000),
    Part('big', bigcase(), check, 'fields whose size puts boundaries near the 1 KiB and 64 KiB read edges; non-trivial as above', 120, 2500),
]
