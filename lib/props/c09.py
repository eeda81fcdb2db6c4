import re
from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script

limits = st.one_of(st.integers(1, 12), st.integers(0, 12), st.sampled_from([40, 100, None, 0, 1]))
piece = st.sampled_from(['a=1', 'a', 'b=', '=x', 'c=%26', 'd=1=2', 'a=+', 'long=' + 'x' * 30, ''])


@st.composite
def qs(draw, limit):
    n = draw(st.integers(-2, 2).map(lambda d: max(0, (20 if limit is None else limit) + d))) if draw(st.booleans()) else draw(st.integers(0, 2 * (20 if limit is None else limit) + 2))
    base = draw(st.lists(piece, min_size=1, max_size=5))
    seps = draw(st.lists(st.sampled_from('&;'), min_size=1, max_size=4))
    out = ''
    for i in range(n):
        out += (seps[i % len(seps)] if i else '') + base[i % len(base)]
    # (empty ones count, but give no value)
    return (n if out else 0), out


@st.composite
def case(draw):
    lim = draw(limits)
    c = {'limit': lim, 'carrier': draw(st.sampled_from(['query', 'form', 'multipart', 'multipart', 'both', 'querydict', 'querydict settings', 'parse_qsl']))}
    c['q'] = draw(qs(lim)) if c['carrier'] not in ('form', 'multipart') else (0, '')
    c['f'] = draw(qs(lim)) if c['carrier'] in ('form', 'both') else (0, '')
    c['given'] = draw(st.booleans())    # limit through the settings dictionary
    if c['carrier'] == 'multipart':
        n = draw(qs(lim))[0]
        kinds = ['b64field' if draw(st.integers(0, 4)) == 0 else 'field' for _ in range(n)] + ['file'] * draw(st.integers(0, 4)) + ['nameless'] * draw(st.integers(0, 1))
        c['parts'] = draw(st.permutations(kinds)) if len(kinds) < 30 else kinds
        c['same'] = draw(st.booleans())
        c['name'] = draw(st.sampled_from(['a', '', 'n' * 60]))
        c['n'] = n
    return c


def check(ctx, c):
    s = Script()
    lim = c['limit']
    if c['given']:
        cfg = s.new('h.settings', {'DATA_UPLOAD_MAX_FIELDS': lim})
    else:
        cfg = s.new('h.settings', None, DATA_UPLOAD_MAX_NUMBER_FIELDS=lim)
    nq, q = c['q']
    nf, f = c['f']
    vq, vf = (len([x for x in re.split('[&;]', y) if x]) for y in (q, f))
    over_head = lim is not None and nq > lim
    over_body = lim is not None and nf > lim
    if c['carrier'].startswith('querydict'):
        d = s.new('request_parser.http.request.QueryDict', cfg, q.encode())
        body = s.call(d, 'lists')
        head = d
        over_body = over_head
    elif c['carrier'] == 'parse_qsl':
        head = s.func('request_parser.utils.http.limited_parse_qsl', q, True, fields_limit=lim)
        body = None
    else:
        if c['carrier'] == 'multipart':
            b = b'--B\r\n'
            out = b''
            k = 0
            for i, kind in enumerate(c['parts']):
                name = c['name'].encode() if c['same'] else b'n%d' % i
                cd = {'field': b'form-data; name="%s"' % name, 'file': b'form-data; name="%s"; filename="f.txt"' % name, 'nameless': b'form-data'}[kind.replace('b64', '')]
                if kind == 'b64field':
                    out += b + b'Content-Transfer-Encoding: base64\r\nContent-Disposition: ' + cd + b'\r\n\r\ndg==\r\n'
                else:
                    out += b + b'Content-Disposition: ' + cd + b'\r\n\r\nv%d\r\n' % i
            out += b'--B--\r\n'
            over_body = lim is not None and c['n'] > lim
            data = form_request(b'B', out)
        else:
            data = ('POST /?%s HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\n%s' % (q, f)).encode()
        r = s.new(HR, s.new('h.bytesio', data), cfg)
        head = s.call(r, 'parse_request_header')
        g = s.getnew(r, 'GET')
        gl = s.call(g, 'lists')
        body = None if over_head else s.call(r, 'parse_request_body')
        form = None if over_head else s.func('h.view_form', r)
    res = ctx.run(s)

    def judge(v, over, n, what):
        if over:
            if not (isinstance(v, Exc) and v.type == 'TooManyFieldsSent'):
                ctx.fail('%s with %d fields and limit %r: %s', what, n, lim, repr(v)[:300])
        else:
            ctx.ok(v, '%s with %d fields and limit %r' % (what, n, lim))
    judge(res[head], over_head, nq, 'query')
    if body is not None and c['carrier'] in ('form', 'both', 'query', 'multipart'):
        judge(res[body], over_body, c.get('n', nf), c['carrier'])
        fm = ctx.ok(res[form], 'reading')
        got = sum(len(l) for _, l in fm['POST'])
        ctx.eq(got, 0 if over_body else c.get('n', vf), 'number of POST values')
        if c['carrier'] == 'multipart':
            ctx.eq(sum(len(l) for _, l in fm['FILES']), 0 if over_body else c['parts'].count('file'), 'number of files')
        ctx.eq(sum(len(l) for _, l in res[gl]), vq, 'number of GET values')
    elif body is not None and not over_head:
        ctx.eq(sum(len(l) for _, l in ctx.ok(res[body], 'reading')), vq, 'number of values')
    elif c['carrier'] == 'parse_qsl' and not over_head:
        ctx.eq(len(res[head]), vq, 'number of pairs')
    n = max(nq, nf, c.get('n', 0))
    ctx.label(c['carrier'], 'no limit' if lim is None else 'at the limit' if n == lim else 'one more' if n == lim + 1 else 'over' if n > lim else 'under')
    ctx.nt(lim is None and n > 0 or lim is not None and n >= lim - 1 and n > 0)


@st.composite
def defcase(draw):
    return {'n': draw(st.sampled_from([4094, 4095, 4096, 4097, 4098, 5000])), 'carrier': draw(st.sampled_from(['query', 'form', 'multipart']))}


def check_default(ctx, c):
    n = c['n']
    pairs = '&'.join('k%d=v' % i for i in range(n))
    if c['carrier'] == 'multipart':
        body = b''.join(b'--B\r\nContent-Disposition: form-data; name="k%d"\r\n\r\nv\r\n' % i for i in range(n)) + b'--B--\r\n'
        data = form_request(b'B', body)
    else:
        data = ('POST /%s HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\n%s' % (
            '?' + pairs if c['carrier'] == 'query' else '', pairs if c['carrier'] == 'form' else '')).encode()
    s = Script()
    r, p = fast_parse(s, data)
    v = ctx.run(s)[p]
    if n > 4096:
        if not (isinstance(v, Exc) and v.type == 'TooManyFieldsSent'):
            ctx.fail('%d fields in a %s are accepted with default settings: %r', n, c['carrier'], v)
    else:
        ctx.ok(v, '%d fields in a %s with default settings' % (n, c['carrier']))
    ctx.nt()


PARTS = [
    Part('limit', case(), check, 'field counts around generated limits in query, form, both, multipart with files in between, and the stand-alone parsers; non-trivial: no limit, or at least limit - 1 fields', 3500, 40000),
    Part('default', defcase(), check_default, 'the default limit of 4096', 0, 0,
         examples=[{'n': n, 'carrier': k} for k in ('query', 'form', 'multipart') for n in (4095, 4096, 4097)]),
]
