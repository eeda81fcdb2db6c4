import re
from urllib.parse import unquote_to_bytes
from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script

# declared name -> Python codec; all are supersets of ASCII
CHARSETS = [('utf-8', 'utf-8'), ('UTF-8', 'utf-8'), ('iso-8859-1', 'latin-1'), ('koi8-r', 'koi8-r'), ('windows-1252', 'cp1252'), ('iso-8859-5', 'iso-8859-5')]
# charsets in which a character may end in the code of an ASCII letter
WIDE = [('shift_jis', 'shift_jis'), ('gbk', 'gbk'), ('big5', 'big5'), ('euc-jp', 'euc-jp')]
SAFE = ALNUM + '-_.~*'
anychar = st.one_of(st.characters(max_codepoint=0x7f), st.characters(max_codepoint=0x7f),
                    st.sampled_from(list('&;=+% #\u00e9\u00ff\u20ac\u0434\u65e5\U0001f600\x00\n\ufffd\u2028"<>/?')), st.characters(blacklist_categories=('Cs',)))

widechar = st.one_of(st.sampled_from(list(ALNUM + ' &=+%;-/')), st.sampled_from(list('\u65e5\u672c\u4e2d\u6587\u5b57\u4e09\u4ee5\u4e86\u4e0d\u570b\u8a9e\u80fd\u8868\u30a2\u3042\u30bd')))


@st.composite
def rendered(draw, codec, body):
    """A pair list and its encoding."""
    pairs, pieces = [], []
    wide = (codec, codec) in WIDE
    alphabet = widechar if wide else anychar
    n = draw(st.integers(0, 6))
    few = draw(st.booleans())
    for _ in range(n):
        name = draw(st.sampled_from(['a', 'b', '\u00e9', 'a b', ''])) if few else draw(st.text(alphabet, max_size=5))
        value = draw(st.text(alphabet, max_size=8))
        name, value = (x.encode(codec, 'ignore').decode(codec) for x in (name, value))
        style = draw(st.integers(0, 2 ** 20 - 1))
        e = []
        for x, lit in ((name, ''), (value, '=')):
            o = b''
            for i, ch in enumerate(x):
                bit = style >> (i % 16)
                bs = ch.encode(codec)
                if ch in SAFE and bit & 3:
                    o += bs
                elif ch == ' ' and bit & 1:
                    o += b'+'
                elif ch in "!$'()*,:@/?" + lit and bit & 2:
                    o += bs
                elif body and bit & 4 and ord(ch) > 127:
                    o += bs
                elif wide and bit & 8 and len(bs) == 2 and chr(bs[1]) in ALNUM:
                    o += b'%%%02X' % bs[0] + bs[1:]     # as browsers do
                else:
                    o += b''.join(b'%' + (('%02X' if bit & 1 else '%02x') % c).encode() for c in bs)
            e.append(o)
        if not value and name and style >> 17 & 1:
            pieces.append(e[0])
        else:
            pieces.append(e[0] + b'=' + e[1])
        pairs.append((name, value))
    out = b''
    for i, p in enumerate(pieces):
        sep = draw(st.sampled_from([b'&', b'&', b';', b'&&', b';&']))
        out += (sep if i else draw(st.sampled_from([b'', b'', b'&']))) + p
    if pieces and draw(st.integers(0, 6)) == 0:
        out += b'&'
    return pairs, out


@st.composite
def case(draw):
    carrier = draw(st.sampled_from(['GET', 'GET', 'POST', 'POST', 'QueryDict', 'QueryDict text', 'parse_qsl']))
    name, codec = draw(st.sampled_from(CHARSETS + CHARSETS + WIDE))
    pairs, wire = draw(rendered(codec, carrier == 'POST'))
    return {'carrier': carrier, 'charset': name, 'codec': codec, 'pairs': pairs, 'wire': wire, 'by': draw(st.sampled_from(['header', 'settings'])),
            'limit': draw(st.sampled_from([None, 100])), 'target': draw(st.sampled_from(['/', '/x', 'http://h/y']))}


def build(s, c, wire):
    """Steps reporting the dictionary decoded from wire -> (steps that must not fail, step with the lists)"""
    attrs = {'DATA_UPLOAD_MAX_NUMBER_FIELDS': c['limit']}
    header = c['by'] == 'header'
    if not header:
        attrs['DEFAULT_CHARSET'] = c['charset']
    cfg = s.new('h.settings', None, **attrs)
    if c['carrier'] in ('GET', 'POST'):
        if c['carrier'] == 'GET':
            ct = 'text/plain' if header else None
            data = b'GET %s?%s HTTP/1.1\r\nHost: h\r\n' % (c['target'].encode(), wire)
        else:
            ct = 'application/x-www-form-urlencoded'
            data = b'POST %s HTTP/1.1\r\nHost: h\r\n' % c['target'].encode()
        if ct:
            data += b'Content-Type: ' + ct.encode() + (b'; charset=' + c['charset'].encode() if header else b'') + b'\r\n'
        data += b'\r\n' + (wire if c['carrier'] == 'POST' else b'')
        r = s.new(HR, s.new('h.bytesio', data), cfg)
        ok = [s.call(r, 'parse')]
        q = s.getnew(r, c['carrier'])
        return ok, s.call(q, 'lists')
    if c['carrier'] == 'parse_qsl':
        i = s.func('request_parser.utils.http.limited_parse_qsl', wire.decode('ascii'), True, c['charset'], fields_limit=c['limit'])
        return [], i
    kw = {'encoding': c['charset']} if header else {}
    q = s.new('request_parser.http.request.QueryDict', cfg, wire.decode('ascii') if c['carrier'] == 'QueryDict text' else wire, **kw)
    return [], s.call(q, 'lists')


def group(pairs):
    d = {}
    for k, v in pairs:
        d.setdefault(k, []).append(v)
    return d


def native(x):
    # ASCII byte strings equal text in Python 2
    if isinstance(x, bytes) and x.isascii():
        return x.decode()
    return [native(y) for y in x] if isinstance(x, list) else x


def obtained(ctx, c, res, ok, i):
    for j in ok:
        ctx.ok(res[j], 'parsing %r' % c['wire'])
    v = native(ctx.ok(res[i], 'decoding %r' % c['wire']))
    if c['carrier'] == 'parse_qsl':
        return group([tuple(x) for x in v]), [tuple(x) for x in v]
    out = {}
    for k, l in v:
        if k in out:
            ctx.fail('name %r is reported twice', k)
        out[k] = l
    return out, None


def check(ctx, c):
    s = Script()
    ok, i = build(s, c, c['wire'])
    got, order = obtained(ctx, c, ctx.run(s), ok, i)
    ctx.eq(got, group(c['pairs']), 'decoding %r (%s)' % (c['wire'], c['charset']))
    if order is not None:
        ctx.eq(order, [tuple(p) for p in c['pairs']], 'pairs of %r' % c['wire'])
    g = group(c['pairs'])
    ctx.label(c['carrier'], c['charset'], 'repeated name' if any(len(l) > 1 for l in g.values()) else '', 'blank value' if any(not v for _, v in c['pairs']) else '',
              'non-ASCII' if any(not (k + v).isascii() for k, v in c['pairs']) else '', 'semicolon' if b';' in c['wire'] else '')
    ctx.nt(len(c['pairs']) > 1 or any(not (k + v).isascii() for k, v in c['pairs']))


RAWCH = 'abc012&;=+%%%%,./?:@ABCDEFghxyz-_~!$\'()*"<>[]^`{|}\\'
frag = st.sampled_from(['%', '%4', '%zz', '%C3%A9', '%c3', '%A9', '%ff', '%F0%9F', '%00', '%25', '%3D', '%26', '%u20ac', '=', '==', '&', ';', '+', 'a=b', 'a', '%e2%82%ac', '%0d%0a', '%C3%', '%%41'])
rawq = st.one_of(st.lists(st.one_of(frag, txt(RAWCH, 1, 3)), max_size=14).map(''.join), txt(RAWCH, 0, 20))


@st.composite
def rawcase(draw):
    name, codec = draw(st.sampled_from(CHARSETS))
    return {'carrier': draw(st.sampled_from(['GET', 'POST', 'QueryDict', 'QueryDict text', 'parse_qsl'])), 'charset': name, 'codec': codec,
            'wire': draw(rawq).encode(), 'by': draw(st.sampled_from(['header', 'settings'])), 'limit': None, 'target': '/'}


def check_raw(ctx, c):
    wire = c['wire']
    want = []
    for piece in re.split('[&;]', wire.decode()):
        if piece:
            n, _, v = piece.partition('=')
            want.append(tuple(unquote_to_bytes(x.replace('+', ' ')) for x in (n, v)))
    s = Script()
    ok, i = build(s, c, wire)
    refs = [tuple(s.func('h.decode', x, c['charset']) for x in p) for p in want]
    runs = []
    for piece in re.split('[&;]', wire.decode()):
        if piece:
            n, _, v = piece.partition('=')
            runs.append(tuple([s.func('h.decode', unquote_to_bytes(y), c['charset']) if re.match('%[0-9A-Fa-f]{2}', y) else y
                               for y in re.split('((?:%[0-9A-Fa-f]{2})+)', x.replace('+', ' '))] for x in (n, v)))
    res = ctx.run(s)
    got, order = obtained(ctx, c, res, ok, i)
    # what the bytes are decoded to: by the interpreter as a whole, or escape by escape, or as the standard has it
    ways = [[tuple(collapse(res[x]) for x in p) for p in refs]]
    ways.append([tuple(collapse(rundec(x, c['codec'])) for x in p) for p in want])
    ways.append([tuple(collapse(''.join(res[y] if isinstance(y, int) else y for y in x)) for x in p) for p in runs])
    got = regroup(got)
    if order is not None:
        if [tuple(collapse(x) for x in p) for p in order] not in ways:
            ctx.fail('pairs of %r: %r, expected %r', wire, order, ways[0])
        got = regroup(group(order))
    if got not in [group(w) for w in ways]:
        ctx.fail('decoding %r (%s): got %r, expected %r', wire, c['charset'], got, group(ways[0]))
    want = ways[0]
    mal = re.search(rb'%(?![0-9A-Fa-f]{2})', wire)
    ctx.label(c['carrier'], 'malformed escape' if mal else '', 'undecodable' if any('\ufffd' in x for p in want for x in p) else '')
    ctx.nt(bool(mal) or any('\ufffd' in x for p in want for x in p))


def rundec(b, codec):
    return b.decode(codec, 'replace')


def regroup(d):
    out = {}
    for k, l in d.items():
        out.setdefault(collapse(k), []).extend(collapse(x) for x in l)
    return out


@st.composite
def longcase(draw):
    units = draw(st.lists(st.sampled_from([('\u00e9', '%C3%A9'), (' ', '+'), (' ', '%20'), ('a', 'a'), ('abc', 'abc'), ('\x00', '%00'), ('=', '='), ('%', '%25'), ('\U0001f600', '%F0%9F%98%80'), ('%', '%'), ('&', '%26'), ('\u00e9', '\u00e9')]), min_size=1, max_size=4))
    carrier = draw(st.sampled_from(['POST', 'QueryDict text']))
    units = [u for u in units if u[1] != '%' or len(units) == 1] or [('a', 'a')]
    n = draw(st.sampled_from([10, 500, 3000, 8000, 20000])) // len(units)
    return {'carrier': carrier, 'units': units, 'n': n, 'where': draw(st.sampled_from(['value', 'value', 'name', 'pairs'])), 'by': 'header', 'charset': 'utf-8', 'limit': None, 'target': '/'}


def check_long(ctx, c):
    plain, wire = (''.join(u[i] for u in c['units']) * c['n'] for i in (0, 1))
    if '=' in wire and c['where'] == 'name':
        return
    if c['where'] == 'value':
        want, wire = {'x': [plain]}, 'x=' + wire
    elif c['where'] == 'name':
        want, wire = {plain: ['x']}, wire + '=x'
    else:
        n = min(c['n'], 4000)
        plain, wire = (''.join(u[i] for u in c['units']) for i in (0, 1))
        want, wire = {'x': [plain] * n}, '&'.join(['x=' + wire] * n)
    if c['carrier'] != 'POST' and not wire.isascii():
        c = dict(c, carrier='QueryDict')
    c = dict(c, wire=wire.encode())
    s = Script()
    ok, i = build(s, c, c['wire'])
    got, _ = obtained(ctx, c, ctx.run(s), ok, i)
    if got != want:
        ctx.fail('%d times %r as %s by %s: got %.200r, expected %.200r', c['n'], c['units'], c['where'], c['carrier'], got, want)
    ctx.label(c['where'], c['carrier'], 'long' if c['n'] > 1000 else '')
    ctx.nt(c['n'] > 100)


PARTS = [
    Part('pairs', case(), check, 'pair lists rendered with generated escaping in six charsets, through GET, POST, QueryDict and the pair parser; non-trivial: two or more pairs, or non-ASCII text', 3500, 50000),
    Part('raw', rawcase(), check_raw, 'raw query text with malformed escapes and undecodable sequences; non-trivial: contains one', 2500, 40000),
    Part('long', longcase(), check_long, 'names, values and lists of pairs of up to 20000 units; non-trivial: more than 100 repetitions', 40, 400),
]
