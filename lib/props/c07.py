from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script

limits = st.one_of(st.integers(0, 64), st.sampled_from([255, 256, 1000, 4096, 16384, 65535, 65536, 65537, 70000, 131072, 200000, None]))
types = st.sampled_from([None, 'text/plain', 'application/json', 'application/x-www-form-urlencoded', 'application/octet-stream', 'text/html; charset=utf-8'])


@st.composite
def case(draw):
    lim = draw(limits)
    c = {'limit': lim, 'type': draw(types), 'how': draw(st.sampled_from(['parse', 'parse', 'body', 'head+body', 'head+parse_body', 'body+parse_body'])), 'kind': draw(STREAMS)}
    near = lim if lim is not None else 1000
    n = draw(st.one_of(st.integers(-3, 3).map(lambda d: max(0, near + d)), st.integers(0, 2 * near + 5),
                       st.sampled_from([1, 2, 4]).map(lambda k: near + k * 65536 + 1), st.just(400000)))
    c['n'] = n
    c['chunk'] = draw(st.sampled_from([1000, 4096, 8192, 7, 1])) if n < 20000 else draw(st.sampled_from([4096, 8192, 5000]))
    c['unit'] = draw(st.sampled_from(['a', 'a=b&', 'x\r\n', 'a=1;', '\u00e9', '%41=%c3%a9&']))
    c['more'] = draw(st.booleans())
    c['fields'] = None
    return c


def check(ctx, c):
    body = (c['unit'].encode() * (c['n'] // len(c['unit'].encode()) + 1))[:c['n']]
    head = 'POST / HTTP/1.1\r\nHost: h\r\n' + ('Content-Type: %s\r\n' % c['type'] if c['type'] else '') + '\r\n'
    head = head.encode()
    s = Script()
    cfg = s.new('h.settings', None, DATA_UPLOAD_MAX_MEMORY_SIZE=c['limit'], DATA_UPLOAD_MAX_NUMBER_FIELDS=None)
    st_ = None
    if c['kind'] in ('bytesio', 'realfile'):
        r = s.new(HR, s.new('h.' + c['kind'], head + body), cfg)
    else:
        data = head + body
        st_ = s.new('h.chunks', [data[i:i + c['chunk']] for i in range(0, len(data), c['chunk'])])
        r = s.new(HR, st_, cfg)
    steps, took = [], []
    for w in c['how'].split('+'):
        steps.append((w, s.call(r, {'parse': 'parse', 'body': 'body', 'head': 'parse_request_header', 'parse_body': 'parse_request_body'}[w])))
        took.append(s.get(st_, 'taken') if st_ is not None else None)
    again = s.call(r, 'body')
    form = s.func('h.view_form', r)
    res = ctx.run(s)
    over = c['limit'] is not None and c['n'] > c['limit']
    raised = False
    for (w, i), t in zip(steps, took):
        v = res[i]
        if w == 'head':
            ctx.ok(v, 'parsing the head')
        elif over:
            if not raised and not (isinstance(v, Exc) and v.type == 'RequestDataTooBig'):
                ctx.fail('%s of %d bytes with limit %r: %s', w, c['n'], c['limit'], repr(v)[:300])
            if not raised and t is not None and res[t] > len(head) + c['limit'] + 131072 + c['chunk'] + 16:
                ctx.fail('%d bytes were taken from the input, limit %d', res[t], c['limit'])
            raised = True
        else:
            ctx.ok(v, '%s of %d bytes with limit %r' % (w, c['n'], c['limit']))
            if w == 'body':
                ctx.eq(v, body, 'body within the limit')
    if over:
        f = res[form]
        if f != {'POST': [], 'FILES': []}:
            ctx.fail('form data of a refused body: %r', f)
    d = None if c['limit'] is None else c['n'] - c['limit']
    ctx.label('no limit' if d is None else 'exactly the limit' if d == 0 else 'one more' if d == 1 else 'over' if d > 0 else 'under', c['how'],
              'form' if c['type'] and 'form' in c['type'] else '', 'chunked' if st_ is not None else '')
    ctx.nt(d is not None and (abs(d) <= 3 or over) or d is None and c['n'] > 0)


PARTS = [Part('limit', case(), check, 'bodies of generated length against generated limits, every non-multipart type and way to read; non-trivial: a length within three of the limit, over it, or no limit', 2500, 30000,
              examples=[{'limit': 0, 'type': t, 'how': h, 'kind': k, 'n': n, 'chunk': 7, 'unit': 'a', 'more': False, 'fields': None}
                        for t in (None, 'application/x-www-form-urlencoded') for h in ('parse', 'body') for k in ('bytesio', 'chunks') for n in (0, 1)]
              + [{'limit': lim, 'type': t, 'how': h, 'kind': 'chunks', 'n': n, 'chunk': 8192, 'unit': 'a=b&', 'more': False, 'fields': None}
                 for lim, n in ((300000, 1000000), (1000000, 2200000)) for t, h in ((None, 'body'), ('application/x-www-form-urlencoded', 'parse'))])]
