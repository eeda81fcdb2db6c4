from hypothesis import assume, strategies as st
from core import Part
from gen import *
from jy import Exc, Script
from props import c10, c13

sizes = st.one_of(st.integers(1, 100), st.integers(1, 100), st.integers(100, 3000), st.sampled_from([1, 2, 3, 16384, 65536, 1024]))
variants = st.lists(st.tuples(sizes, STREAMS, CUTS), min_size=1, max_size=3)


@st.composite
def case(draw):
    b = draw(boundaries).encode()
    ps = draw(st.lists(st.one_of(part(b), part(b), c13.b64part(b, ('file', 'field'))), min_size=1, max_size=5))
    c = {'boundary': b, 'parts': ps, 'pre': draw(c10.PRE), 'epi': draw(c10.EPI), 'variants': draw(variants)}
    assume(c10.usable(b, body_bytes(b, ps, c['pre'], c['epi']), ps))
    return c


def mutate(draw, body, boundary, n):
    frags = [b'\r\n', b'\r', b'\n', b'--', b'-', b'\r\n\r\n', b'--' + boundary, b'\r\n--' + boundary + b'\r\n', b'--' + boundary + b'--', b'--' + boundary[:-1],
             b'Content-Disposition: form-data; name="z"', b'Content-Disposition: form-data; name="z"; filename="z"\r\n\r\n', b'\x00', b'a', b': ', b'"', b';']
    for _ in range(n):
        how = draw(st.sampled_from(['insert', 'delete', 'truncate', 'duplicate', 'replace', 'head']))
        i = draw(st.integers(0, len(body)))
        j = min(len(body), i + draw(st.sampled_from([1, 1, 2, 4, 10, 50, 300])))
        f = draw(st.sampled_from(frags))
        if how == 'insert':
            body = body[:i] + f + body[i:]
        elif how == 'delete':
            body = body[:i] + body[j:]
        elif how == 'truncate':
            body = body[:i]
        elif how == 'duplicate':
            body = body[:j] + body[i:j] + body[j:]
        elif how == 'replace':
            body = body[:i] + f + body[j:]
        elif how == 'head':
            body = body[i:]
    return body


@st.composite
def badcase(draw):
    b = draw(boundaries).encode()
    ps = draw(st.lists(part(b), min_size=1, max_size=5))
    body = mutate(draw, body_bytes(b, ps, draw(c10.PRE), draw(c10.EPI)), b, draw(st.integers(1, 3)))
    return {'boundary': b, 'body': body, 'variants': draw(variants)}


def outcome(ctx, res, p, v):
    if isinstance(res[p], Exc):
        return 'raises ' + res[p].type
    return canon_form(ctx.ok(res[v], 'reading the form'))


def check(ctx, c):
    if 'parts' in c:
        data = c10.request(c)
    else:
        data = form_request(c['boundary'], c['body'], length=max(1, len(c['body'])))
    s = Script()
    p0, v0 = c13.add_parse(s, c, data, 65536)
    runs = [(x, c13.add_parse(s, c, data, *x)) for x in c['variants']]
    res = ctx.run(s)
    want = outcome(ctx, res, p0, v0)
    if 'parts' in c:
        ctx.ok(res[p0], 'parsing')
        expect_form(ctx, res[v0], c['parts'])
    for (chunk, kind, cuts), (p, v) in runs:
        ctx.eq(outcome(ctx, res, p, v), want, 'form parsed with chunk size %d from %s' % (chunk, kind))
    small = any(x[0] < len(data) or x[1] in ('chunks', 'generator') and x[2] for x in c['variants'])
    ctx.label('refused' if isinstance(want, str) else 'accepted', 'chunks below the delimiter size' if any(x[0] < len(c['boundary']) + 10 for x in c['variants']) else '')
    ctx.nt(small and (isinstance(want, str) or bool(want['POST'] or want['FILES'])))


@st.composite
def directcase(draw):
    c = draw(st.one_of(case(), case(), badcase()))
    c['meta'] = draw(st.sampled_from(['exact', 'exact', 'less', 'more']))
    c['encoding'] = draw(st.sampled_from([None, 'utf-8', 'iso-8859-1']))
    c['cuts'] = draw(st.lists(st.integers(0, 1000), min_size=1, max_size=12))
    return c


def check_direct(ctx, c):
    """The parser used on its own, on streams whose reads give less than was asked for."""
    body = body_bytes(c['boundary'], c['parts'], c['pre'], c['epi']) if 'parts' in c else c['body']
    n = {'exact': len(body), 'less': len(body) // 2, 'more': len(body) + 1000}[c['meta']]
    s = Script()
    cfg = s.new('h.settings', None, FILE_UPLOAD_TEMP_DIR=s.new('h.tmpdir'))
    meta = {'Content-Type': ctype_header(c['boundary']), 'Content-Length': str(max(1, n))}

    def run(stream, chunk):
        s.func('jyhandlers.set_chunk', chunk)
        return s.func('h.parse_multipart', meta, stream, ['jyhandlers.ConvC'], cfg, c['encoding'])
    runs = [run(s.new('h.bytesio', body), 65536), run(s.new('h.chunks', chunks_of(body, c['cuts'])), 65536)]
    runs += [run(s.new('h.chunks', chunks_of(body, cuts)), chunk) for chunk, _, cuts in c['variants']]
    res = ctx.run(s)
    out = ['raises ' + res[i].type if isinstance(res[i], Exc) else canon_form(ctx.ok(res[i], 'reading the form')) for i in runs]
    if 'parts' in c and c['encoding'] != 'utf-8':
        expect_form(ctx, ctx.ok(res[runs[0]], 'parsing'), c['parts'])
    for o in out[1:]:
        ctx.eq(o, out[0], 'form parsed from a stream with short reads')
    ctx.label('refused' if isinstance(out[0], str) else 'accepted', 'length ' + c['meta'])
    ctx.nt(isinstance(out[0], str) or bool(out[0]['POST'] or out[0]['FILES']))


# every chunk size for fixed bodies: all alignments of each boundary to the chunk edge
def sweep():
    body = (b'--Bnd\r\nContent-Disposition: form-data; name="a"\r\n\r\nx\r\n--Bn\r\r\n--Bnd\r\nContent-Disposition: form-data; name="f"; filename="q"\r\n\r\n'
            b'\r\n--B\r\n\r\n-\r\n--Bnd\r\nContent-Disposition: form-data; name="a"\r\n\r\n\r\n--Bnd--\r\n')
    out = []
    for k in range(0, 230, 6):
        out.append({'boundary': b'Bnd', 'body': body, 'variants': [(n, 'bytesio', []) for n in range(k + 1, k + 7)]})
        out.append({'boundary': b'Bnd', 'body': b'Z' * (65536 - k) + b'\r\n' + body, 'variants': [(65536 - n, 'bytesio', []) for n in (1, 3, 5)]})
    return out


PARTS = [
    Part('wellformed', case(), check, 'well-formed forms parsed with several handler chunk sizes and stream partitions, against one large chunk and the model; non-trivial: a chunk smaller than the request and a non-empty result', 1200, 30000),
    Part('damaged', badcase(), check, 'damaged forms, compared in the same way; non-trivial as above, or refused', 1200, 30000, examples=sweep()),
    Part('direct', directcase(), check_direct, 'the form parser used on its own with streams whose reads give less than was asked for; non-trivial: refused or a non-empty result', 400, 10000),
]
