import re
from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script

FAULTS = ['none', 'none', 'unterminated', 'lf_only', 'no_headers', 'two_parts', 'one_part', 'four_parts', 'target_non_ascii', 'bracket',
          'no_colon', 'name_non_ascii', 'value_non_ascii', 'no_host', 'leading_crlf', 'empty']
hi = st.integers(0x80, 0xff).map(lambda c: bytes([c]))


@st.composite
def case(draw):
    f = draw(st.sampled_from(FAULTS))
    t = draw(targets())
    m, p = draw(methods), draw(protocols)
    hs = draw(headers(1, 5))
    if f == 'no_host' and t['kind'] == 'absolute':
        t = dict(t, kind='origin', path=t['path'] or '/', authority='', scheme='')
    elif f != 'no_host':
        hs = place(draw, hs, [('Host', draw(hosts), ' ', '')])
    lines = [('%s:%s%s%s' % (n, a, v, b)).encode() for n, v, a, b in hs]
    line = line_text(m, t, p).encode()
    tgt = target_text(t).encode()

    def insert(s, x):
        i = draw(st.integers(0, len(s)))
        return s[:i] + x + s[i:]
    if f == 'two_parts':
        line = draw(st.sampled_from([m.encode() + b' ' + tgt, tgt + b' ' + p.encode()]))
    elif f == 'one_part':
        line = draw(st.sampled_from([m.encode(), tgt, b'', line.replace(b' ', b'\t')]))
    elif f == 'four_parts':
        i = draw(st.sampled_from([0, line.index(b' '), line.rindex(b' '), len(line)]))
        line = line[:i] + draw(st.sampled_from([b' ', b' x '[:2], b' y'])) + line[i:]
        if line.count(b' ') < 3:
            line += b' z'
    elif f == 'target_non_ascii':
        line = b'%s %s %s' % (m.encode(), insert(tgt, draw(hi)), p.encode())
    elif f == 'bracket':
        line = b'%s http://%s/ %s' % (m.encode(), draw(st.sampled_from([b'[::1', b'::1]', b'[', b'a]', b'[1:2:80'])), p.encode())
    elif f == 'no_colon':
        i = draw(st.integers(0, len(lines)))
        lines.insert(i, draw(txt(PRINT.replace(':', ''), 1, 12)).encode())
    elif f == 'name_non_ascii':
        i = draw(st.integers(0, len(lines) - 1))
        n = lines[i].index(b':')
        k = draw(st.integers(0, n))
        lines[i] = lines[i][:k] + draw(hi) + lines[i][k:]
    elif f == 'value_non_ascii':
        i = draw(st.integers(0, len(lines) - 1))
        n = lines[i].index(b':') + 1
        k = draw(st.integers(n, len(lines[i])))
        lines[i] = lines[i][:k] + draw(hi) + lines[i][k:]
    elif f == 'no_headers':
        lines = []
    elif f == 'leading_crlf':
        line = b'\r\n' + line
    data = b'\r\n'.join([line] + lines) + b'\r\n\r\n'
    if f == 'unterminated':
        data = data[:-draw(st.integers(1, max(1, len(data) - 1)))]
        if b'\r\n\r\n' in data:
            data = data.replace(b'\r\n\r\n', b'\r\n')
    elif f == 'lf_only':
        data = data.replace(b'\r\n', b'\n')
    elif f == 'empty':
        data = draw(st.sampled_from([b'', b'\r\n\r\n', b'\r\n', b' ']))
    if f in ('none', 'no_colon', 'no_host'):
        data += draw(st.binary(max_size=10))
    return {'fault': f, 'data': data}


def verdict(ctx, data, want, what):
    s = Script()
    r = s.new(HR, s.new('h.bytesio', data))
    p = s.call(r, 'parse_request_header')
    got = ctx.run(s)[p]
    if want == 'ok':
        ctx.ok(got, '%s: parsing %r' % (what, data))
    elif want == 'invalid':
        if not (isinstance(got, Exc) and got.type == 'InvalidHttpRequest'):
            ctx.fail('%s: %r is not refused with InvalidHttpRequest but gives %r', what, data, got)
        if 400 not in (got.args or []):
            ctx.fail('%s: the error for %r does not carry code 400: %r', what, data, got)
    elif want == 'nohost':
        if not (isinstance(got, Exc) and got.type == 'NoHostFoundException'):
            ctx.fail('%s: %r is not refused with NoHostFoundException but gives %r', what, data, got)
    elif isinstance(got, Exc) and got.type not in ('InvalidHttpRequest', 'NoHostFoundException'):
        ctx.fail('%s: %r ends with %r', what, data, got)


def check(ctx, c):
    f = c['fault']
    verdict(ctx, c['data'], {'none': 'ok', 'no_host': 'nohost'}.get(f, 'invalid'), 'fault ' + f)
    ctx.label(f)
    ctx.nt(f != 'none')


def reference(data):
    """What has to happen with these bytes; 'any' where the property leaves it open."""
    i = data.find(b'\r\n\r\n')
    if i < 0:
        return 'invalid'
    lines = data[:i].split(b'\r\n')
    if len(lines) == 1:
        return 'invalid'
    words = lines[0].split(b' ')
    names = []
    for l in lines[1:]:
        if b':' not in l or any(x > 127 for x in l):
            return 'invalid'
        names.append(l.split(b':', 1)[0])
    if len(words) != 3:
        return 'invalid'
    target = words[1]
    if any(x > 127 for x in target):
        return 'invalid'
    if not words[0] or not target or not words[2] or b'[' in target or b']' in target or b'' in names:
        return 'any'
    m = re.match(rb'(?:[A-Za-z0-9+.\-]+:)?//([^/?#]*)', target)
    if m and m.group(1):
        return 'ok'
    return 'ok' if b'Host' in names else 'nohost'


MUT = [b'\r\n', b'\n', b'\r', b' ', b':', b'\r\n\r\n', b'/', b'//', b'?', b'#', b'[', b']', b'\x00', b'\xff', b'\xc3\xa9', b'a', b'Host: x\r\n', b'%', b';', b'\t', b'"', b'http://h/']


@st.composite
def mutated(draw):
    data = bytearray(draw(st.sampled_from([
        b'GET / HTTP/1.1\r\nHost: example.com\r\n\r\n', b'POST /a?b=c HTTP/1.1\r\nA: b\r\nHost: x\r\nContent-Type: text/plain; charset=utf-8\r\n\r\nbody',
        b'GET http://h:80/p;q?r#s HTTP/1.1\r\nA: b\r\n\r\n', b'GET /\r\nHost: x\r\n\r\n'])))
    for op, at, x in draw(st.lists(st.tuples(st.sampled_from('idr'), st.integers(0, 1000), st.sampled_from(MUT)), min_size=1, max_size=4)):
        i = at * len(data) // 1001
        if op == 'i':
            data[i:i] = x
        elif op == 'd':
            del data[i:i + len(x)]
        else:
            data[i:i + len(x)] = x
    return bytes(data)


def check_mut(ctx, data):
    want = reference(data)
    verdict(ctx, data, want, 'reference says ' + want)
    ctx.label(want)
    ctx.nt(want != 'any')


PARTS = [
    Part('faults', case(), check, 'well-formed heads with one injected fault of 14 kinds, or none; non-trivial: a fault was injected', 3500, 50000),
    Part('mutations', mutated(), check_mut, 'heads mutated at byte level, judged by an independent reference decision; non-trivial: the property fixes the outcome', 3500, 60000,
         examples=[b'GET / HTTP/1.1\r\n\r\n', b'\r\n\r\n\r\n', b'GET / HTTP/1.1\r\nHost:\r\n\r\n', b'GET / HTTP/1.1\r\nhost: x\r\n\r\n']),
]
