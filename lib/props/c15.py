import base64
from hypothesis import assume, strategies as st
from core import Part
from gen import *
from jy import Exc, Script
from props import c10, c13


@st.composite
def case(draw):
    b = draw(boundaries).encode()
    ps = draw(st.lists(st.one_of(part(b, ('field', 'field', 'file'), big=False), c13.b64part(b, ('field', 'file'))), min_size=1, max_size=5))
    if draw(st.booleans()):
        ps[0]['content'] = scrub(b'x' * draw(st.integers(0, 2500)), b)
        ps[0].pop('wire', None)
        if ps[0]['cte'] and ps[0]['cte'].lower() == 'base64':
            ps[0]['cte'] = None
    c = {'boundary': b, 'parts': ps, 'pre': draw(c10.PRE), 'epi': draw(c10.EPI)}
    assume(c10.usable(b, body_bytes(b, ps, c['pre'], c['epi']), ps))
    n = total(c)
    c['max'] = draw(st.one_of(st.none(), st.integers(-2, 2).map(lambda d: max(0, n + d)), st.integers(-2, 2).map(lambda d: max(0, n + d)), st.integers(0, 3000),
                              st.integers(0, len(ps)).map(lambda k: total({'parts': ps[:k]}))))
    c['chunk'] = draw(st.sampled_from([65536, 65536, 64, 7]))
    return c


def total(c):
    """Field data as transmitted, plus the name and two bytes for each field."""
    return sum(len(p.get('wire', p['content'])) + len(p['name']) + 2 for p in c['parts'] if p['kind'] == 'field')


def check(ctx, c):
    data = c10.request(c)
    s = Script()
    p, v = c13.add_parse(s, c, data, c['chunk'], DATA_UPLOAD_MAX_MEMORY_SIZE=c['max'])
    res = ctx.run(s)
    n, m = total(c), c['max']
    big = m is not None and n > m
    if big:
        if not (isinstance(res[p], Exc) and res[p].type == 'RequestDataTooBig'):
            ctx.fail('fields of %d bytes with the limit %r: %r', n, m, res[p])
        ctx.eq(res[v], {'POST': [], 'FILES': []}, 'form data of a refused form')
    else:
        ctx.ok(res[p], 'parsing fields of %d bytes with the limit %r' % (n, m))
        expect_form(ctx, ctx.ok(res[v], 'reading the form'), c['parts'])
    kinds = {q['kind'] for q in c['parts']}
    ctx.label('refused' if big else 'accepted', 'no limit' if m is None else '', 'within two of the limit' if m is not None and abs(n - m) <= 2 else '',
              'base64 field' if any('wire' in q and q['kind'] == 'field' for q in c['parts']) else '', 'file over the limit accepted' if not big and m is not None and sum(len(q['content']) for q in c['parts'] if q['kind'] == 'file') > m else '')
    ctx.nt('field' in kinds and (big or m is not None and n > 0 and m < 3 * n + 10))


@st.composite
def longcase(draw):
    b = b'BB'
    allow = draw(st.sampled_from([0, 1, 100, 5000, 70000]))
    before = draw(st.lists(part(b, ('field', 'file'), big=False), max_size=2))
    for q in before:
        q['cte'] = None
    first = draw(st.sampled_from([0, 0, 50000, 200000, 400000]))
    if first:
        before[:0] = [{'kind': 'field', 'name': b'first', 'content': b'f' * first, 'ctype': None, 'params': [], 'cte': None, 'style': 0}]
    long = draw(part(b, ('field',), big=False))
    chunk = draw(st.sampled_from([64, 1000, 4096, 65536]))
    long['cte'] = draw(st.sampled_from([None, 'base64']))
    n = allow + 4 * chunk + 20000 + draw(st.integers(0, 100000)) + first
    long['content'] = long['wire'] = (b'QUJD' * (n // 4 + 1))[:n // 4 * 4]
    after = draw(st.lists(part(b, ('field',), big=False), max_size=1))
    c = {'boundary': b, 'parts': before + [long] + after, 'pre': b'', 'epi': b'\r\n', 'allow': allow, 'chunk': chunk, 'at': len(before), 'piece': draw(st.sampled_from([1000, 200, 4096]))}
    assume(c10.usable(b, body_bytes(b, c['parts']), c['parts']))
    return c


def check_long(ctx, c):
    data = c10.request(c)
    start = data.index(c['parts'][c['at']]['wire'])
    limit = total({'parts': c['parts'][:c['at']]}) + c['allow']
    s = Script()
    s.func('jyhandlers.set_chunk', c['chunk'])
    stream = s.new('h.chunks', [data[i:i + c['piece']] for i in range(0, len(data), c['piece'])])
    cfg = s.new('h.settings', None, FILE_UPLOAD_HANDLERS=['jyhandlers.ConvC'], DATA_UPLOAD_MAX_MEMORY_SIZE=limit)
    r = s.new(HR, stream, cfg)
    p = s.call(r, 'parse')
    t = s.get(stream, 'taken')
    res = ctx.run(s)
    if not (isinstance(res[p], Exc) and res[p].type == 'RequestDataTooBig'):
        ctx.fail('a field of %d bytes with %d allowed: %r', len(c['parts'][c['at']]['wire']), c['allow'], res[p])
    # up to the field, what it may have, and what the parser reads ahead
    most = start + c['allow'] + 2 * c['chunk'] + 2 * c['piece'] + 4096
    if ctx.ok(res[t], 'count') > most:
        ctx.fail('%d bytes were read, with the field starting at %d and %d bytes of it allowed', res[t], start, c['allow'])
    ctx.label('base64' if c['parts'][c['at']]['cte'] else 'plain', 'after other parts' if c['at'] else '')
    ctx.nt()


PARTS = [
    Part('exact', case(), check, 'forms with generated limits; non-trivial: a field, and refused or a limit below about three times its size', 3000, 45000),
    Part('long', longcase(), check_long, 'fields far longer than what is left of the limit, from a counting stream; non-trivial: all', 250, 4000),
]
