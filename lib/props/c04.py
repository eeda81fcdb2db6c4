from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script

bad_hosts = st.one_of(
    st.sampled_from(['', 'a_b', 'a b', 'user@host', 'a:b', 'a:80:90', 'a:', '[::1]:', '[::1]:x', 'a!', 'host:-1', '%41', 'a,b', 'x:8o', '[::1]80', '[g::1]', '::1', '*']),
    st.builds(lambda a, x, b: a + x + b, txt(ALNUM, 1, 4), txt('_!@$%&*()+=~,;"<>{}|\\^`', 1, 2), txt(ALNUM, 0, 4)))


@st.composite
def authority(draw, forbid=''):
    if draw(st.integers(0, 4)) == 0:
        h = draw(bad_hosts).strip()
        h = ''.join(ch for ch in h if ch not in forbid)
        return {'text': h, 'host': None if h and not _plain(h) else (h.lower() if h else ''), 'port': None} if not _plain(h) else {
            'text': h, 'host': h.lower(), 'port': None}
    h = draw(hosts)
    if not h.startswith('[') and draw(st.integers(0, 7)) == 0:
        h = draw(st.sampled_from(['.', '-', '', '.x.', 'a..'])) + h + draw(st.sampled_from(['', '-', '..b', '.0']))
    dot = draw(st.integers(0, 5)) == 0 and not h.startswith('[') and not h.endswith('.')
    p = draw(ports)
    return {'text': h + ('.' if dot else '') + (':' + p if p is not None else ''), 'host': h.lower(), 'port': p}


def _plain(h):
    return bool(h) and all(c in ALNUM + '-' for c in h)


@st.composite
def case(draw):
    absolute = draw(st.booleans())
    c = {'absolute': absolute, 'scheme': draw(schemes) if absolute else '', 'hosts': draw(st.lists(authority(), min_size=0 if absolute else 1, max_size=3)),
         'target': draw(authority(' /?#[]')) if absolute else None, 'path': draw(paths())}
    if absolute and not c['target']['text']:
        c['target'] = {'text': 'h', 'host': 'h', 'port': None}
    c['others'] = draw(headers(1, 3))
    c['pos'] = draw(st.lists(st.integers(0, 3), min_size=3, max_size=3))
    return c


def check(ctx, c):
    hs = list(c['others'])
    at = 0
    for a, k in zip(c['hosts'], c['pos']):
        at = min(len(hs), at + k)
        hs.insert(at, ('Host', a['text'], ' ', ''))
        at += 1
    src = c['target'] if c['absolute'] else c['hosts'][-1]
    target = c['path'] if not c['absolute'] else '%s://%s%s' % (c['scheme'], src['text'], c['path'])
    data = head_text('GET %s HTTP/1.1' % target, hs).encode()
    s = Script()
    r = s.new(HR, s.new('h.bytesio', data))
    p = s.call(r, 'parse_request_header')
    v = s.func('h.view_head', r)
    gh, gp = s.call(r, 'get_host'), s.call(r, 'get_port')
    res = ctx.run(s)
    if isinstance(res[p], Exc) and res[p].type == 'InvalidHttpRequest' and ('[' in target) != (']' in target):
        return
    ctx.ok(res[p], 'parsing %r' % data)
    v = ctx.ok(res[v], 'reading')
    host, port = src['host'], src['port']
    if host is None:
        host, port = '', None
    if port is None:
        port = {'https': '443', 'http': '80'}.get(c['scheme'].lower(), '65536')
    ctx.eq(as_str(v['host']), host, 'host of %r' % src['text'])
    ctx.eq(as_str(v['port']) if not isinstance(v['port'], int) else str(v['port']), port, 'port of %r with scheme %r' % (src['text'], c['scheme']))
    ctx.eq(as_str(res[gh]), host, 'get_host()')
    ctx.eq(as_str(res[gp]), port, 'get_port()')
    ctx.label('absolute' if c['absolute'] else 'Host header', 'invalid host' if src['host'] is None else '', 'explicit port' if src['port'] else '',
              'ipv6' if '[' in src['text'] else '', 'several Host headers' if len(c['hosts']) > 1 else '')
    ctx.nt(src['host'] is None or src['port'] is not None or '[' in src['text'] or src['text'].lower() != src['text'] or len(c['hosts']) > 1)


PARTS = [Part('authority', case(), check,
              'requests whose authority (absolute target or Host headers) is generated with its parts known; non-trivial: an invalid host, a port, an IPv6 literal, upper case, a trailing dot or several Host headers',
              5000, 80000)]
