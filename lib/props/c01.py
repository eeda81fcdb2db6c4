from hypothesis import strategies as st
from core import Part
import gen
from gen import *
from jy import Script


@st.composite
def head(draw):
    t = draw(targets())
    hs = draw(headers())
    if draw(st.integers(0, 9)) == 0:
        hs = place(draw, hs, [('Content-Type', draw(st.sampled_from(['text/plain', 'a/b; charset=utf-8', '', 'multipart/form-data'])), ' ', '')])
    nhost = 0
    if t['kind'] == 'absolute':
        nhost = draw(st.integers(0, 2))
        if not hs and not nhost:
            nhost = 1
    else:
        nhost = draw(st.sampled_from([1, 1, 1, 2]))
    hs = place(draw, hs, [('Host', draw(hosts), draw(ows), draw(ows)) for _ in range(nhost)])
    return {'method': draw(methods), 'target': t, 'proto': draw(protocols), 'headers': hs}


def check(ctx, c):
    t = c['target']
    data = head_text(line_text(c['method'], t, c['proto']), c['headers']).encode('ascii')
    s = Script()
    r = s.new(HR, s.new('h.bytesio', data))
    p = s.call(r, 'parse_request_header')
    v = s.func('h.view_head', r)
    m = [s.call(r, n) for n in ('get_method', 'get_scheme', 'get_path', 'get_protocol_info')]
    res = ctx.run(s)
    ctx.ok(res[p], 'parsing %r' % data)
    v = ctx.ok(res[v], 'reading the result')

    def n(x):
        return x.decode('latin-1') if isinstance(x, bytes) else x
    scheme = t['scheme'].lower() or 'UNKNOWN'
    for k, want in (('method', c['method']), ('scheme', scheme), ('path', t['path']), ('protocol_info', c['proto']), ('query', t['query'] or '')):
        ctx.eq(n(v[k]), want, k)
    for i, want in zip(m, (c['method'], scheme, t['path'], c['proto'])):
        ctx.eq(n(res[i]), want, 'accessor')
    got = {}
    for k, l in v['headers']:
        if n(k) in got:
            ctx.fail('header %r is reported twice', k)
        got[n(k)] = [n(x) for x in l]
    want = hdict(c['headers'], () if t['kind'] == 'absolute' else ('Host',))
    ctx.eq(got, want, 'headers')
    rep = any(len(l) > 1 for l in want.values())
    ctx.label(t['kind'], 'repeated header' if rep else '', 'query' if t['query'] else '', 'fragment' if t['fragment'] is not None else '',
              'colon in value' if any(':' in x for l in want.values() for x in l) else '')
    ctx.nt(rep or len(c['headers']) > 2 or t['kind'] == 'absolute' or bool(t['query']))


@st.composite
def line(draw):
    t = draw(targets())
    params = draw(st.one_of(st.none(), gen.txt(gen.PATHCH.replace('/', '') + ';', 0, 8)))
    if t['kind'] == 'star' or (t['scheme'] and t['scheme'].lower() not in ('http', 'https')) or not t['path']:
        params = None
    return {'method': draw(methods), 'target': t, 'params': params, 'proto': draw(protocols)}


def check_line(ctx, c):
    t = dict(c['target'])
    path = t['path']
    if c['params'] is not None:
        t['path'] = path + ';' + c['params']
    text = line_text(c['method'], t, c['proto'])
    s = Script()
    i = s.func('request_parser.http.request.parse_request_line', text.encode())
    v = ctx.ok(ctx.run(s)[i], 'splitting %r' % text)
    v = {x.decode() if isinstance(x, bytes) else x: y.decode() if isinstance(y, bytes) else y for x, y in v.items()}
    ctx.eq(v, {'METHOD': c['method'], 'SCHEME': t['scheme'].lower(), 'DOMAIN': t['authority'], 'PATH': path,
               'PARAMS': c['params'] or '', 'QUERY_STRING': t['query'] or '', 'FRAGMENT': t['fragment'] or '',
               'PROTOCOL_INFO': c['proto']}, 'parts of the request line')
    ctx.label(t['kind'], 'params' if c['params'] else '', 'fragment' if t['fragment'] else '')
    ctx.nt(bool(c['params'] or t['fragment'] or t['query'] or t['kind'] == 'absolute'))


@st.composite
def large(draw):
    """What is long or numerous in a head."""
    c = draw(head())
    n = draw(st.sampled_from([60, 99, 100, 101, 128, 200, 256, 300, 500]))
    names = draw(st.lists(hname, min_size=1, max_size=6)) + ['X-%d' % i for i in range(draw(st.sampled_from([0, 0, 50, 120, 500])))]
    vals = draw(st.lists(hvalue, min_size=1, max_size=5))
    for what in draw(st.sets(st.sampled_from(['headers', 'value', 'name', 'path', 'query', 'host']), min_size=1, max_size=3)):
        size = draw(st.sampled_from([255, 256, 257, 1000, 1024, 4096, 8190, 8192, 16384, 65536])) + draw(st.integers(-2, 2))
        if what == 'headers':
            c['headers'] = c['headers'] + [(names[i % len(names)], vals[i % len(vals)], ' ', '') for i in range(n)]
        elif what == 'value':
            c['headers'] = place(draw, c['headers'], [('X-Long', draw(st.sampled_from(['v', 'ab, ', 'k=v; ', ': '])) * size, ' ', '')])
            c['headers'] = [(a, b.strip(), x, y) for a, b, x, y in c['headers']]
        elif what == 'name':
            c['headers'] = place(draw, c['headers'], [('N' * size, 'v', ' ', '')])
        elif what == 'path' and c['target']['kind'] != 'star':
            c['target']['path'] = '/p' + (draw(st.sampled_from(['x', '/a', 'b/', '%20'])) * size)[:size]
        elif what == 'query' and c['target']['kind'] != 'star':
            u = draw(st.sampled_from(['q', 'a=1&', '%41', '?']))
            c['target']['query'] = (u * size)[:min(size, 3900) if '&' in u else size]     # at most 1000 fields
        elif what == 'host' and c['target']['kind'] != 'absolute':
            c['headers'] = [h for h in c['headers'] if h[0] != 'Host'] + [('Host', ('a' * 60 + '.') * 3 + 'a' * draw(st.integers(50, 60)), ' ', '')]
    return c


PARTS = [
    Part('head', head(), check, 'heads rendered from generated request lines and header lists; non-trivial: a repeated header name, three or more headers, an absolute target or a query string',
         4000, 60000),
    Part('line', line(), check_line, 'request lines alone, with path parameters and fragments; non-trivial: absolute target, parameters, query or fragment',
         1500, 20000),
    Part('large', large(), check, 'heads with hundreds of headers, or with names, values, paths or queries of up to 64 KiB; non-trivial as for heads', 120, 2000),
]
