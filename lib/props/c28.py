import base64, re
from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script

UH = 'request_parser.utils.http.'
D36 = '0123456789abcdefghijklmnopqrstuvwxyz'


def b36(n):
    out = ''
    while True:
        n, r = divmod(n, 36)
        out = D36[r] + out
        if not n:
            return out


TOP = 36 ** 13 - 1
ints = st.one_of(st.integers(0, TOP), st.integers(0, 2000), st.sampled_from([0, 35, 36, 37, 1295, 1296, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, TOP]), st.builds(lambda k, d: max(0, 36 ** k + d), st.integers(0, 12), st.integers(-1, 1)))


@st.composite
def case36(draw):
    how = draw(st.sampled_from(['int', 'int', 'text', 'bad']))
    c = {'how': how}
    if how == 'int':
        c['i'] = draw(ints)
        c['neg'] = draw(st.integers(1, 2 ** 40))
    elif how == 'text':
        c['t'] = draw(st.text(D36 + D36.upper(), min_size=1, max_size=13))
        c['long'] = c['t'] + draw(st.text(D36, min_size=14 - len(c['t']), max_size=20))
    else:
        c['t'] = draw(st.text(D36, max_size=6)) + draw(st.sampled_from(list('!_.,/*\u00e9=') + ['1 1', '1-', 'x+y', '0.5'])) + draw(st.text(D36, max_size=4))
    return c


def check36(ctx, c):
    s = Script()
    if c['how'] == 'int':
        i = c['i']
        a = s.func(UH + 'int_to_base36', i)
        b = s.func(UH + 'base36_to_int', s.new(UH + 'int_to_base36', i))
        n = s.func(UH + 'int_to_base36', -c['neg'])
        res = ctx.run(s)
        ctx.eq(as_str(ctx.ok(res[a], 'int_to_base36')), b36(i), 'int_to_base36(%d)' % i)
        ctx.eq(res[b], i, '%d there and back' % i)
        if not (isinstance(res[n], Exc) and res[n].isa('ValueError')):
            ctx.fail('int_to_base36(-%d): %r', c['neg'], res[n])
        ctx.nt(i > 35)
    else:
        a = s.func(UH + 'base36_to_int', c['t'])
        bad = c['t'] if c['how'] == 'bad' else c['long']
        b = s.func(UH + 'base36_to_int', bad)
        e = s.func(UH + 'base36_to_int', '')
        res = ctx.run(s)
        if c['how'] == 'text':
            ctx.eq(res[a], int(c['t'], 36), 'base36_to_int(%r)' % c['t'])
        for i, t in ((b, bad), (e, '')):
            if not (isinstance(res[i], Exc) and res[i].isa('ValueError')):
                ctx.fail('base36_to_int(%r): %r, expected a ValueError', t, res[i])
        ctx.nt()
    ctx.label(c['how'])


@st.composite
def case64(draw):
    b = draw(st.one_of(st.binary(max_size=12), st.binary(max_size=100), st.sampled_from([b'\xfb\xff', b'\xff' * 9, b'\xfb\xf0\x3e', b'']), st.text(max_size=5).map(str.encode)))
    return {'b': b, 'tail': draw(st.text(ALNUM + '-_', min_size=1, max_size=1)), 'junk': draw(st.one_of(st.text(max_size=8), st.text('AQab-_=+/ \n', max_size=9)))}


def check64(ctx, c):
    s = Script()
    b = c['b']
    want = base64.urlsafe_b64encode(b).decode()
    bare = want.rstrip('=')
    a = s.func(UH + 'urlsafe_base64_encode', b)
    steps = [(x, s.func(UH + 'urlsafe_base64_decode', x)) for x in {bare, want}]
    rt = s.func(UH + 'urlsafe_base64_decode', s.new(UH + 'urlsafe_base64_encode', b))
    # one character more than whole groups says nothing about any byte
    bad = bare[:len(bare) // 4 * 4] + c['tail']
    n = s.func(UH + 'urlsafe_base64_decode', bad)
    j = s.func(UH + 'urlsafe_base64_decode', c['junk'])
    res = ctx.run(s)
    ctx.eq(as_str(ctx.ok(res[a], 'urlsafe_base64_encode')), bare, 'urlsafe_base64_encode(%r)' % b)

    def by(v):
        return v.encode() if isinstance(v, str) else v
    for x, i in steps:
        ctx.eq(by(res[i]), b, 'urlsafe_base64_decode(%r)' % x)
    ctx.eq(by(res[rt]), b, '%r there and back' % b)
    if not (isinstance(res[n], Exc) and res[n].isa('ValueError')):
        ctx.fail('urlsafe_base64_decode(%r): %r, expected a ValueError', bad, res[n])
    if isinstance(res[j], Exc) and not res[j].isa('ValueError'):
        ctx.fail('urlsafe_base64_decode(%r): %r, expected a ValueError', c['junk'], res[j])
    if not c['junk'].isascii() and not isinstance(res[j], Exc):
        ctx.fail('urlsafe_base64_decode(%r): %r, expected a ValueError', c['junk'], res[j])
    ctx.label('padded' if bare != want else None, 'special' if set(bare) & set('-_') else None)
    ctx.nt(len(b) > 1)


opaque = st.text(st.sampled_from(list(ALNUM[:12] + ' ,;*/\\\'W=-') + ['\u00e9']), max_size=6)
tag = st.builds(lambda w, o: w + '"' + o + '"', st.sampled_from(['', '', 'W/']), opaque)
nontag = st.one_of(st.text(ALNUM + "*/' ", max_size=5), st.sampled_from(['', 'w/"a"', 'W/', 'W/"a"x', '"a"b', 'a"b"', 'W "a"', '"a" "b"', 'W/ "a"', '*', '"a""b"', 'x"a,b"']))
ows = st.sampled_from(['', '', ' ', '  ', '\t'])


@st.composite
def etags(draw):
    members = draw(st.lists(st.tuples(st.sampled_from(['tag', 'tag', 'tag', 'no']), tag, nontag, ows, ows), max_size=6))
    ms = [(k, t if k == 'tag' else n, a, b) for k, t, n, a, b in members]
    quoted = draw(st.one_of(tag, opaque, st.sampled_from(['', 'W/', 'x', '*'])))
    path = draw(st.one_of(st.sampled_from(['', '/', '//', '///', '////x', '//h/p', '/x//y', 'x//y', ' //x', '/\\x', '//?q=//', 'http://h/', '/{}', '//{0}', '//%s', '//\u00e9']), st.text('/a?{}%', max_size=7)))
    return {'members': ms, 'star': draw(st.integers(0, 9)) == 0, 'sp': draw(st.sampled_from(['*', ' *', '* ', '\t* '])), 'quoted': quoted, 'path': path}


def check_etags(ctx, c):
    line = c['sp'] if c['star'] else ','.join(a + m + b for _, m, a, b in c['members'])
    want = ['*'] if c['star'] or line.strip() == '*' else [m for k, m, _, _ in c['members'] if k == 'tag']
    s = Script()
    a = s.func(UH + 'parse_etags', line)
    q = s.func(UH + 'quote_etag', c['quoted'])
    qq = s.func(UH + 'quote_etag', s.new(UH + 'quote_etag', c['quoted']))
    e = s.func(UH + 'escape_leading_slashes', c['path'])
    res = ctx.run(s)
    ctx.eq([as_str(x) for x in ctx.ok(res[a], 'parse_etags')], want, 'parse_etags(%r)' % line)
    w = c['quoted'] if '"' in c['quoted'] else '"%s"' % c['quoted']
    ctx.eq(as_str(ctx.ok(res[q], 'quote_etag')), w, 'quote_etag(%r)' % c['quoted'])
    ctx.eq(as_str(ctx.ok(res[qq], 'quote_etag')), w, 'quote_etag() twice')
    p = c['path']
    ctx.eq(as_str(ctx.ok(res[e], 'escape_leading_slashes')), '/%2F' + p[2:] if p.startswith('//') else p, 'escape_leading_slashes(%r)' % p)
    ctx.label('star' if want == ['*'] else None, 'invalid member' if any(k == 'no' for k, _, _, _ in c['members']) else None, 'comma' if any(',' in x for x in want) else None, 'slashes' if p.startswith('//') else None)
    ctx.nt(bool(want))


PARTS = [
    Part('base36', case36(), check36, 'integers and texts; non-trivial: more than one digit', 1500, 25000),
    Part('base64', case64(), check64, 'byte strings and texts; non-trivial: more than one byte', 1500, 25000),
    Part('etags', etags(), check_etags, 'entity-tag lists and paths; non-trivial: a valid tag', 1500, 25000),
]
