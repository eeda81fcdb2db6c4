from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script

PH = 'request_parser.http.multipartparser.parse_header'
TOKEN = "!#$%&'*+-.^_`|~" + ALNUM
# a star at the end announces the extended notation
names = st.one_of(st.sampled_from(['name', 'filename', 'charset', 'boundary', 'a', 'NAME', 'fileName', 'q', 'x-y']), txt(TOKEN.replace('*', '').replace("'", ''), 1, 6), st.sampled_from(['name*0', "o'x", "''", 'x*', '*']))
mains = st.one_of(st.sampled_from(['form-data', 'text/plain', 'multipart/form-data', 'Attachment', 'TEXT/HTML', 'application/x-www-form-urlencoded', 'x']), txt(TOKEN + '/', 1, 10), st.just(''))
qbytes = st.one_of(st.text(st.sampled_from(list(ALNUM + ' ;="\\\'%,*:/')), max_size=10).map(str.encode), st.sampled_from([b'', b'"', b'\\', b'\\"', b'"\\', b'a;b', b';', b'; name="x"', b'C:\\dir\\f.txt', b' x ', b"UTF-8''x", b'\\\\', b'a"; b="c', b'%41', b'=', b'"\\";"']), st.binary(max_size=6))
CODECS = [('UTF-8', 'utf-8'), ('utf-8', 'utf-8'), ('ISO-8859-1', 'latin-1'), ('iso-8859-5', 'iso-8859-5'), ('koi8-r', 'koi8-r'), ('windows-1252', 'cp1252'), ('us-ascii', 'ascii')]
xtext = st.one_of(st.text(st.sampled_from(list(ALNUM + ' \u00e9\u0434\u20ac;="\'%\\*/\n')), max_size=8), st.text(st.characters(blacklist_categories=('Cs',)), max_size=5), st.sampled_from(['"', '""', '"x"', "'", "''", ';', '\\"', '\\\\']))
ows = st.sampled_from(['', '', '', ' ', '  ', '\t', ' \t'])


@st.composite
def case(draw):
    ps = []
    for _ in range(draw(st.integers(0, 5)) if draw(st.integers(0, 30)) else draw(st.integers(10, 70))):
        n = draw(names)
        form = draw(st.sampled_from(['token', 'quoted', 'quoted', 'ext', 'bare', 'plain*', 'loose']))
        if form not in ('ext', 'plain*') and n.endswith('*'):      # the star would belong to the notation
            n = n.rstrip('*') or 'x'
        sp = [draw(ows) for _ in range(4)]
        p = {'name': n, 'form': form, 'sp': sp}
        if form == 'token':
            p['value'] = draw(txt(TOKEN, 1, 8)).encode()
        elif form == 'loose':     # unquoted, but not a token
            p['value'] = draw(st.one_of(st.sampled_from(['a=b', '=', 'a==', '/x:y', '=b', 'a,b', '<x@y>', '{[()]}', 'b=\t=c']), txt(TOKEN + '=:/?@<>()[]{},', 1, 8))).encode()
        elif form == 'quoted':
            p['value'] = draw(qbytes)
        elif form == 'ext':
            label, codec = draw(st.sampled_from(CODECS))
            t = draw(xtext).encode(codec, 'ignore').decode(codec)
            p.update(text=t, label=label, codec=codec, lang=draw(st.sampled_from(['', '', 'en', 'de-CH'])), low=draw(st.booleans()), lazy=draw(st.booleans()))
        elif form == 'plain*':
            p['value'] = draw(txt(TOKEN.replace("'", ''), 1, 8)).encode()
        ps.append(p)
    return {'main': draw(mains), 'sp': [draw(ows), draw(ows)], 'params': ps, 'end': draw(st.sampled_from(['', '', '', ';', '; ', ';;']))}


def render(c):
    out = c['sp'][0].encode() + c['main'].encode() + c['sp'][1].encode()
    want = {}
    for p in c['params']:
        a, b, x, z = (t.encode() for t in p['sp'])
        f = p['form']
        n = p['name'].encode()
        if f == 'bare':     # no value: not a parameter
            out += b';' + a + n + b
            continue
        key = p['name'].lower()
        if f == 'ext':
            v = b''.join(ch.encode() if ch in ALNUM + '-._~!$&+^`|' and p['lazy'] else b''.join((b'%%%02x' if p['low'] else b'%%%02X') % i for i in ch.encode(p['codec'])) for ch in p['text'])
            v = p['label'].encode() + b"'" + p['lang'].encode() + b"'" + v
            n += b'*'
            want[key] = p['text'].encode()
        elif f == 'quoted':
            v = b'"' + p['value'].replace(b'\\', b'\\\\').replace(b'"', b'\\"') + b'"'
            want[key] = p['value']
        else:
            v = p['value']
            n += b'*' if f == 'plain*' else b''
            want[key] = v
        out += b';' + a + n + b + b'=' + x + v + z
    return out + c['end'].encode(), want


def check(ctx, c):
    line, want = render(c)
    s = Script()
    a = s.func(PH, line)
    res = ctx.run(s)
    got = ctx.ok(res[a], 'parse_header(%r)' % line)
    ctx.eq(as_str(got[0]), c['main'].lower(), 'main value of %r' % line)
    got = {as_str(k): v.encode() if isinstance(v, str) else v for k, v in got[1].items()}
    ctx.eq(got, want, 'parameters of %r' % line)
    ctx.label(*[p['form'] for p in c['params']])
    ctx.nt(bool(want))


junk = st.one_of(st.text(st.characters(max_codepoint=127), max_size=20), st.lists(st.sampled_from([';', '"', '\\', '=', "'", '*', "''", 'a', 'name', 'filename*', 'UTF-8', "utf-8''", '%41', '%', '%ff', ' ', '\t', '\n', 'form-data', '""', '\\"', 'rot13', "x'y'z", 'hex', 'utf-16', 'idna', 'unicode_escape', 'base64', '\\N{DEAD}']), max_size=14).map(''.join))

# junk in the places where it counts: names and values of parameters, extended ones above all
FR = ["'", "'", "''", 'utf-8', 'UTF-8', 'x', 'iso-8859-1', '%41', '%', '%ff', '%E2%82%AC', '%e2', 'a', 'txt', '"', '\\', '*', '=', ' ', '']
frags = st.lists(st.sampled_from(FR), max_size=7).map(''.join)
parms = st.lists(st.tuples(st.sampled_from(['name', 'filename', 'a', '', 'x*y', '*']), st.sampled_from(['*=', '*=', '=', '* =', '*', '**=', '*0*=']), frags).map(''.join), min_size=1, max_size=4)
junk = st.one_of(junk, parms.map(lambda p: 'form-data; ' + '; '.join(p)))


def check_junk(ctx, t):
    s = Script()
    a = s.func(PH, t.encode())
    n = s.func(PH, None)
    res = ctx.run(s)
    got = ctx.ok(res[a], 'parse_header(%r)' % t)
    if len(got) != 2 or not isinstance(got[1], dict):
        ctx.fail('parse_header(%r): %r', t, got)
    for k, v in got[1].items():
        if not isinstance(v, (bytes, str)):
            ctx.fail('parse_header(%r): value %r of %r', t, v, k)
    # cut at the first semicolon the main value is what was there
    if '"' not in t:
        ctx.eq(as_str(got[0]).strip(), t.split(';')[0].strip().lower(), 'main value of %r' % t)
    ctx.eq(res[n], [None, None], 'parse_header(None)')
    ctx.label('params' if got[1] else None)
    ctx.nt(bool(got[1]))


PARTS = [
    Part('build', case(), check, 'header values rendered from parameters; non-trivial: parameters', 4000, 60000),
    Part('junk', junk, check_junk, 'arbitrary ASCII text, and parameters made of fragments of the notations; non-trivial: parameters were found', 2500, 25000),
]
