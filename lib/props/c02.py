from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script


def norm_all(v):
    return v if isinstance(v, Exc) else canon_form(v)


@st.composite
def case(draw):
    c = draw(whole())
    c['kinds'] = draw(st.lists(st.tuples(STREAMS, CUTS, st.one_of(st.integers(1, 24), st.sampled_from([1, 3, 4, 5, 64, 1000, 100000]))),
                               min_size=1, max_size=3))
    if draw(st.booleans()):
        c['around'] = draw(st.lists(st.integers(-6, 6), min_size=1, max_size=4))
    if draw(st.integers(0, 2)) == 0:
        c['empty'] = draw(st.lists(st.integers(0, 14), min_size=1, max_size=4))
    return c


def check(ctx, c):
    head, body = c['head'], c['body']
    data = head + body
    s = Script()
    r, p0 = fast_parse(s, data)
    v0 = s.func('h.full', r)
    b0 = s.call(r, 'body')
    runs = []
    for kind, cuts, size in c['kinds']:
        chunks = chunks_of(data, cuts)
        if c.get('around'):
            # cut right around the end of the head
            pts = sorted({len(head) + d for d in c['around'] if 0 < len(head) + d < len(data)})
            chunks = [data[i:j] for i, j in zip([0] + pts, pts + [len(data)])]

        for i in c.get('empty', ()):
            chunks.insert(min(i, len(chunks)), b'')

        def stream():
            if kind in ('bytesio', 'realfile'):
                return s.new('h.' + kind, data)
            return s.new('h.' + kind, chunks)
        cfg = s.new('h.settings', None, MAX_HEADER_SIZE=size)
        q = s.new(HR, stream(), cfg)
        p = s.call(q, 'parse')
        v = s.func('h.full', q)
        b = s.call(q, 'body')
        q2 = s.new(HR, stream(), cfg)
        p2 = s.call(q2, 'parse_request_header')
        rest = s.call(q2, 'read')
        runs.append((kind, size, p, v, b, p2, rest))
    res = ctx.run(s)
    ctx.ok(res[p0], 'parsing')
    want, wbody = norm_all(res[v0]), res[b0]
    ctx.ok(res[v0], 'reading the result')
    for kind, size, p, v, b, p2, rest in runs:
        where = 'delivered as %s, header read size %d' % (kind, size)
        ctx.ok(res[p], 'parsing, ' + where)
        ctx.eq(norm_all(res[v]), want, 'result, ' + where)
        if isinstance(wbody, Exc):
            if not (isinstance(res[b], Exc) and res[b].type == wbody.type):
                ctx.fail('body(), %s: %r, expected %r', where, res[b], wbody)
        else:
            ctx.eq(res[b], wbody, 'body(), ' + where)
        ctx.ok(res[p2], 'parsing the head, ' + where)
        ctx.eq(res[rest], body, 'what is read after the head, ' + where)
        ctx.label(kind)
    ctx.label('empty chunks' if c.get('empty') else '')
    ctx.label(c['kind'], 'cut around the blank line' if c.get('around') else '')
    ctx.nt(any(k in ('chunks', 'generator') or z < 64 for k, _, z in c['kinds']) and len(body) > 0)


@st.composite
def bigcase(draw):
    big = st.builds(lambda u, n: u * (n // len(u) + 1), st.sampled_from([b'x', b'\r\n', b'\r\n\r\n', b'abc\r\n\r\n', bytes(range(256))]),
                    st.sampled_from([1000, 65536, 70000, 131072, 200000]).flatmap(lambda n: st.integers(-10, 10).map(lambda d: n + d)))
    c = draw(whole(('plain',), bodies=big))
    c['kinds'] = [(draw(STREAMS), draw(CUTS), draw(st.sampled_from([4096, 65535, 65536, 65537, 100000, 300000]))) for _ in range(2)]
    return c


PARTS = [Part('delivery', case(), check,
              'whole requests delivered through several stream kinds, chunkings and header read sizes, compared with one in-memory delivery; non-trivial: a non-empty body and a chunked delivery or small header reads',
              1600, 24000),
         Part('big', bigcase(), check, 'bodies and header reads beyond 64 KiB, compared in the same way; non-trivial as above', 60, 1500)]
