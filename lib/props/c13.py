import base64
from hypothesis import assume, strategies as st
from core import Part
from gen import *
from jy import Exc, Script
from props import c10

WS = [b'\r\n', b'\n', b' ', b'\t', b'\r\n ', b'  \r\n\r\n', b'\r', b'\x0b', b'\x0c']
data_ = st.one_of(st.binary(max_size=12), st.binary(max_size=12), st.sampled_from([b'', b'x', b'\x00' * 50, bytes(range(256)), b'--B', b'\r\n--B\r\n']),
                  st.builds(lambda u, n: u * n, st.binary(min_size=1, max_size=5), st.integers(0, 200)))


@st.composite
def wrapped(draw, text):
    """text with white space inserted: regular lines, at drawn places, or none"""
    how = draw(st.sampled_from(['plain', 'lines', 'lines', 'anywhere', 'anywhere', 'every']))
    if how == 'lines':
        n = draw(st.sampled_from([1, 2, 3, 4, 5, 7, 60, 76, 64]))
        eol = draw(st.sampled_from(WS))
        text = eol.join(text[i:i + n] for i in range(0, len(text), n))
        return text + draw(st.sampled_from([b'', eol]))
    if how == 'every':
        return b' '.join(text[i:i + 1] for i in range(len(text)))
    if how == 'anywhere':
        for p in sorted(draw(st.lists(st.integers(0, 1000), max_size=6)), reverse=True):
            i = p * len(text) // 1000
            text = text[:i] + draw(st.sampled_from(WS)) * draw(st.sampled_from([1, 1, 2, 30])) + text[i:]
    return text


@st.composite
def b64part(draw, boundary, kinds, invalid=False):
    p = draw(part(boundary, kinds, big=False))
    p['cte'] = draw(st.sampled_from(['base64', 'base64', 'BASE64', 'Base64']))
    p['content'] = draw(data_)
    text = base64.b64encode(p['content'])
    if invalid:
        text = text + b'QUJD' if not text else text
        text = text[:len(text) - draw(st.integers(1, 3))]
        if b'=' in text or draw(st.booleans()):
            text = text.rstrip(b'=')
            if len(text) % 4 == 0:
                text = text[:-1]
        p['invalid'] = True
    p['wire'] = draw(wrapped(text))
    if p.get('invalid') and p['kind'] == 'field':
        p['content'] = p['wire']
    return p


@st.composite
def case(draw):
    b = draw(boundaries).encode()
    ps = []
    bad = draw(st.sampled_from(['none', 'none', 'fields', 'file']))
    for i in range(draw(st.integers(1, 4))):
        if draw(st.integers(0, 3)) == 0:
            ps.append(draw(part(b, ('field', 'file'), big=False)))
        else:
            kind = draw(st.sampled_from(['field', 'file']))
            inv = bad != 'none' and (kind == 'field' or bad == 'file') and draw(st.booleans())
            ps.append(draw(b64part(b, (kind,), inv)))
    c = {'boundary': b, 'parts': ps, 'pre': draw(st.sampled_from([b'', b'x\r\n'])), 'epi': b'\r\n',
         'chunk': draw(st.one_of(st.integers(1, 80), st.sampled_from([65536, 1000, 4, 76]))), 'kind': draw(STREAMS), 'cuts': draw(CUTS)}
    assume(c10.usable(b, body_bytes(b, ps, c['pre'], c['epi']), ps))
    return c


def add_parse(s, c, data, chunk, kind='bytesio', cuts=(), handlers=('jyhandlers.ConvC',), **attrs):
    s.func('jyhandlers.set_chunk', chunk)
    cfg = s.new('h.settings', None, FILE_UPLOAD_HANDLERS=list(handlers), FILE_UPLOAD_TEMP_DIR=s.new('h.tmpdir'), **attrs)
    r = s.new(HR, add_stream(s, data, kind, cuts), cfg)
    p = s.call(r, 'parse')
    v = s.func('h.view_form', r)
    s.call(r, 'close')
    return p, v


def check(ctx, c):
    data = c10.request(c)
    s = Script()
    p, v = add_parse(s, c, data, c['chunk'], c['kind'], c['cuts'])
    res = ctx.run(s)
    bad = [q for q in c['parts'] if q.get('invalid') and q['kind'] == 'file']
    if bad:
        if not (isinstance(res[p], Exc) and res[p].type == 'MultiPartParserError'):
            ctx.fail('file with the truncated base64 text %r: %r', bad[0]['wire'], res[p])
        ctx.eq(res[v], {'POST': [], 'FILES': []}, 'form data of a refused form')
    else:
        ctx.ok(res[p], 'parsing %r' % data[:2000])
        expect_form(ctx, ctx.ok(res[v], 'reading'), c['parts'])
    enc = [q for q in c['parts'] if 'wire' in q]
    ctx.label('invalid file' if bad else '', 'invalid field' if any(q.get('invalid') and q['kind'] == 'field' for q in enc) else '',
              'white space' if any(len(q['wire'].split()) > 1 for q in enc) else '', 'small chunks' if c['chunk'] < 100 else '',
              'file' if any(q['kind'] == 'file' for q in enc) else '', 'field' if any(q['kind'] == 'field' for q in enc) else '')
    ctx.nt(any(q['wire'] for q in enc))


PARTS = [Part('base64', case(), check, 'forms with base64 parts: generated white space and wrapping, handler chunk sizes and stream partitions, and texts cut off within a group; non-trivial: non-empty encoded text',
              4000, 60000)]
