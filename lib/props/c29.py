import re
from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script

UH = 'request_parser.utils.http.'
HOSTS = ['h', 'good.example', 'www.good.example', 'good.example:8080', '[::1]', 'xn--d1acufc', 'H.example']
EVIL = ['evil', 'evil.example', 'h.evil', 'xh', 'good.example.evil', 'e', 'good', '1.2.3.4', '[::2]', 'h:80', 'good.example:80', 'oo', '']
C0SP = ''.join(map(chr, range(33)))
CONTROLS = C0SP + ''.join(map(chr, range(127, 160)))


def authority(rest, browser):
    """host[:port] of what follows the slashes"""
    a = re.split(r'[/\\?#]' if browser else '[/?#]', rest)[0]
    return a.rsplit('@', 1)[-1]


def readings(url, rfc_too=True):
    """What the URL may be taken for: (scheme or None, authority or None)"""
    out = []
    u = url.strip(C0SP if rfc_too else CONTROLS)
    u = re.sub('[\t\r\n]', '', u)
    m = re.match(r'([A-Za-z][A-Za-z0-9+.-]*):(.*)', u, re.S)
    if m:
        s, rest = m[1].lower(), m[2]
        if s in ('http', 'https'):
            # however many slashes there are
            out.append((s, authority(rest.lstrip('/\\'), True)))
            if rest.startswith('//'):
                out.append((s, authority(rest[2:], False)))
        else:
            out.append((s, None))
    elif re.match(r'[/\\]{2}', u):
        out.append((None, authority(u.lstrip('/\\'), True)))
        if u.startswith('//'):
            out.append((None, authority(u[2:], False)))
    else:
        out.append((None, None))
    return out


piece = st.one_of(st.sampled_from(['/', '/', '//', '\\', '\\\\', '///', ':', '@', '?', '#', ';', 'http:', 'https:', 'http://', 'https://', 'HTTP://', 'Https:', 'javascript:', 'ftp://', 'data:', 'http:/', 'http:///', 'user@', 'user:pw@', 'a@b@', 'path', 'x=1', '.', '..', '%2f', '%5c', ':80', ':8080', '[', ']', '\u00e9', '\u3002', '\uff0f']),
                  st.sampled_from(HOSTS), st.sampled_from(HOSTS[:3]), st.sampled_from(EVIL), st.sampled_from(['\t', '\n', '\r', ' ', '\x00', '\x08', '\x1f', '\x0b', '\x0c', '\x7f', '\x85', '\xa0', '\u2028', '\ufeff', '\u200b', '\x01']))
ctl = st.sampled_from(['', '', '', '', '\t', '\n', ' ', '\x00', '\x08', '\x1b', '\r\n', '\x1f', '\xa0', '\u2028', '\u200b', '\x7f', '\x80', '\x9f'])
shaped = st.builds(lambda a, s, b, sl, c, u, h, d, p: a + s + b + sl + c + u + h + d + p, ctl, st.sampled_from(['', '', 'http:', 'https:', 'hTTp:', 'javascript:', 'ftp:']), ctl, st.sampled_from(['', '/', '//', '///', '////', '\\', '\\\\', '/\\', '\\/', '/\t/', '/\\\\', '/\n\\', '//\t/']), ctl,
                   st.sampled_from(['', '', 'u@', 'u:p@', 'h@', 'h\\@', 'good.example/@', 'h?@', 'h#@', 'h;@', 'h:@', 'good.example:8080@']), st.sampled_from(HOSTS[:4] + EVIL), ctl, st.sampled_from(['', '/', '/p', '?q=//x', '#f', '\\p', '@h', ':80', '\\@h', '.h']))
hostset = st.one_of(st.none(), st.lists(st.sampled_from(HOSTS), max_size=3), st.sampled_from(HOSTS).map(lambda h: ('one', h)))


@st.composite
def case(draw):
    return {'url': draw(st.one_of(shaped, shaped, st.lists(piece, max_size=7).map(''.join), st.text(max_size=8))), 'hosts': draw(hostset), 'https': draw(st.booleans()), 'bytes': draw(st.booleans()), 'hbytes': draw(st.booleans()), 'set': draw(st.booleans())}


def call(s, c):
    hosts = c['hosts']
    e = (lambda h: h.encode()) if c['hbytes'] else (lambda h: h)
    if isinstance(hosts, (tuple,)):
        arg, allowed = e(hosts[1]), [hosts[1]]
    elif hosts is None:
        arg, allowed = None, []
    else:
        allowed = list(hosts)
        arg = [e(h) for h in hosts]
        if c['set']:
            arg = set(arg)
    kw = {'require_https': True} if c['https'] else {}
    return s.func(UH + 'is_safe_url', c['url'].encode() if c['bytes'] else c['url'], arg, **kw), allowed


def check(ctx, c):
    s = Script()
    i, allowed = call(s, c)
    got = ctx.ok(ctx.run(s)[i], 'is_safe_url(%r)' % c['url'])
    if got not in (True, False):
        ctx.fail('is_safe_url(%r): %r', c['url'], got)
    rs = readings(c['url']) + readings(c['url'], False)
    bad = [r for r in rs if r not in ((None, None), (None, '')) and (r[0] not in (None, 'http', 'https') or r[1] not in allowed or c['https'] and r[0] != 'https')]
    # (a URL of slashes alone leads nowhere)
    if got and bad:
        ctx.fail('is_safe_url(%r, %r, require_https=%r) is true, but it may be taken for %r', c['url'], c['hosts'], c['https'], bad[0])
    if got and not c['url'].strip():
        ctx.fail('is_safe_url(%r) is true', c['url'])
    ctx.label('safe' if got else 'unsafe', 'must be unsafe' if bad else None)
    ctx.nt(bool(bad) and any(h in c['url'] for h in allowed) or got)


seg = txt(ALNUM + '-_.~%!$&\'()*+,;=@', 0, 5)


@st.composite
def good(draw):
    kind = draw(st.sampled_from(['path', 'relative', 'query', 'fragment', 'absolute', 'absolute', 'network']))
    tail = ''.join('/' + draw(seg) for _ in range(draw(st.integers(0, 3))))
    q = draw(st.sampled_from(['', '', '?next=http://evil/', '?a=b:c', '?', '?@h']))
    f = draw(st.sampled_from(['', '', '#x', '#http://evil', '#']))
    hosts = draw(st.lists(st.sampled_from(HOSTS), min_size=1, max_size=3))
    https = draw(st.booleans())
    if kind == 'path':
        u = '/' + draw(st.text('abc1.-_', min_size=1, max_size=3)) + draw(st.sampled_from(['', ':', ':80', '@h', ';p'])) + tail + q + f
    elif kind == 'relative':
        u = draw(st.text('abc1.-_', min_size=1, max_size=4)) + tail + q + f
    elif kind == 'query':
        u = '?' + draw(seg) + f
    elif kind == 'fragment':
        u = '#' + draw(seg)
    else:
        h = draw(st.sampled_from(hosts))
        if kind == 'network':
            https = False
            u = '//' + h + tail + q + f
        else:
            u = draw(st.sampled_from(['https', 'https', 'HTTPS'] if https else ['http', 'https', 'HTTP', 'hTTps'])) + '://' + h + tail + q + f
    if draw(st.integers(0, 5)) == 0:
        u = ' ' + u + draw(st.sampled_from([' ', '\n', '']))
    one = draw(st.booleans()) and len(hosts) == 1
    return {'url': u, 'hosts': ('one', hosts[0]) if one else None if kind in ('path', 'relative', 'query', 'fragment') and draw(st.booleans()) else hosts, 'https': https, 'bytes': draw(st.booleans()), 'hbytes': draw(st.booleans()), 'set': draw(st.booleans()), 'kind': kind}


def check_good(ctx, c):
    s = Script()
    i, allowed = call(s, c)
    n = s.func(UH + 'is_safe_url', None, ['h'])
    e = s.func(UH + 'is_safe_url', '', ['h'])
    res = ctx.run(s)
    ctx.eq(res[i], True, 'is_safe_url(%r, %r, require_https=%r)' % (c['url'], c['hosts'], c['https']))
    ctx.eq(res[n], False, 'is_safe_url(None)')
    ctx.eq(res[e], False, "is_safe_url('')")
    ctx.label(c['kind'])
    ctx.nt()


label = st.sampled_from(['a', 'b', 'www', 'example', 'com', 'xexample', 'Example', 'COM', '127', '\u00e9'])
domain = st.lists(label, min_size=1, max_size=4).map('.'.join)


@st.composite
def dcase(draw):
    p = draw(domain)
    h = draw(st.one_of(domain, st.just(p), st.just(p.lower()), st.builds(lambda a, s: a + s + p.lower(), label, st.sampled_from(['.', '.', '', '-', '..'])), st.just(''), st.just('.' + p)))
    pat = draw(st.one_of(st.just(p), st.just('.' + p), st.just('.' + p), st.sampled_from(['', None, '.', '*.' + p, '..' + p, 'www.' + p, p + '.', p[1:], '.' + p[1:]])))
    return {'host': h, 'pattern': pat}


def check_domain(ctx, c):
    h, p = c['host'], c['pattern']
    s = Script()
    i = s.func(UH + 'is_same_domain', h, p)
    j = s.func(UH + 'is_same_domain', h.encode(), None if p is None else p.encode()) if h.isascii() and (p or '').isascii() else None
    res = ctx.run(s)
    if not p:
        want = False
    elif p[0] == '.':
        q = p.lower()
        want = h == q[1:] or h[-len(q):] == q or h == q
    else:
        want = h == p.lower()
    ctx.eq(bool(ctx.ok(res[i], 'is_same_domain')), want, 'is_same_domain(%r, %r)' % (h, p))
    if j is not None:
        ctx.eq(bool(ctx.ok(res[j], 'is_same_domain')), want, 'is_same_domain(%r, %r) of bytes' % (h, p))
    ctx.label('same' if want else 'other', 'wildcard' if p and p[0] == '.' else None)
    ctx.nt(bool(p) and h != p)


PARTS = [
    Part('unsafe', case(), check, 'URLs from a grammar of tricks: called safe only if every reading is; non-trivial: called safe, or unsafe although it names an allowed host', 4000, 80000),
    Part('safe', good(), check_good, 'relative and allowed URLs, which are safe; all count as non-trivial', 1500, 20000),
    Part('domain', dcase(), check_domain, 'hosts against patterns; non-trivial: they differ', 1000, 15000),
]
