from urllib.parse import unquote_to_bytes
from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script
from props import c22
from props.c08 import CHARSETS, WIDE, anychar, widechar

QD = c22.QD
UH = 'request_parser.utils.http.'
SAFES = [None, None, '', '/', '/:', '~', '@!$\'()*,', '?#[]', ' ', '/ <>"', '-._~/']
UNRESERVED = ALNUM + '-_.'


def texts(draw, codec, n):
    t = draw(st.one_of(st.text(widechar if (codec, codec) in WIDE else anychar, max_size=n), st.sampled_from(['', 'a', 'b', 'a b', 'a&b', 'a=b;c', 'a+b', '100%', '%41', 'p/q'])))
    return t.encode(codec, 'ignore').decode(codec)


@st.composite
def multi(draw, codec, empty=True):
    d = {}
    for _ in range(draw(st.integers(0, 4))):
        d[texts(draw, codec, 4)] = [texts(draw, codec, 6) for _ in range(draw(st.integers(0 if empty else 1, 3)))]
    return d


@st.composite
def case(draw):
    name, codec = draw(st.sampled_from(CHARSETS + [('us-ascii', 'ascii')] + WIDE[:2]))
    return {'charset': name, 'codec': codec, 'content': draw(multi(codec)), 'how': draw(st.sampled_from(['setlist', 'appendlist', 'bytes', 'setitem', 'update', 'update bytes', 'update kept', 'setlistdefault'])), 'by': draw(st.sampled_from(['argument', 'settings'])),
            'safe': draw(st.sampled_from(SAFES)), 'back': draw(st.sampled_from(['QueryDict', 'QueryDict', 'GET', 'POST'])), 'copy': draw(st.sampled_from([None, None, 'copy', 'copy.copy', 'copy.deepcopy']))}


def make(s, c, query=None, mutable=False):
    if c['by'] == 'settings':
        return s.new(QD, s.new('h.settings', None, DEFAULT_CHARSET=c['charset']), query, mutable)
    return s.new(QD, s.new('h.settings'), query, mutable, c['charset'])


def fill(s, d, c):
    content = {}
    for k, l in c['content'].items():
        l = [v for v in l]
        if c['how'] == 'setlist':
            s.call(d, 'setlist', k, l)
        elif c['how'] == 'setitem':
            l = l[-1:]
            if l:
                s.func('h.setitem', d, k, l[0])
        elif c['how'] == 'setlistdefault':
            s.call(d, 'setlistdefault', k.encode(c['codec']), [v.encode(c['codec']) for v in l])
        elif c['how'] == 'update kept':
            s.call(d, 'update', s.new(c22.MVD_, {k.encode(c['codec']): [v.encode(c['codec']) for v in l]}))
        else:
            enc_ = (lambda x: x.encode(c['codec'])) if 'bytes' in c['how'] else (lambda x: x)
            for v in l:
                if c['how'].startswith('update'):
                    s.call(d, 'update', {enc_(k): enc_(v)})
                else:
                    s.call(d, 'appendlist', enc_(k), enc_(v))
        if l or c['how'] in ('setlist', 'setlistdefault', 'update kept'):
            content[k] = l
    return content


def check(ctx, c):
    s = Script()
    d = make(s, c, None, True)
    content = fill(s, d, c)
    src = d
    if c['copy']:
        src = s.callnew(d, 'copy') if c['copy'] == 'copy' else s.new(c['copy'], d)
    e = s.call(src, 'urlencode', *([] if c['safe'] is None else [c['safe']]))
    held = s.call(src, 'lists')
    ctx_res = ctx.run(s)
    ctx.eq({k: l for k, l in ctx.ok(ctx_res[held], 'lists()')}, content, 'content of the dictionary')
    wire = ctx.ok(ctx_res[e], 'urlencode()')
    wire = wire.decode('ascii') if isinstance(wire, bytes) else wire
    # what it looks like
    if not wire.isascii():
        ctx.fail('urlencode(): %r is not ASCII', wire)
    safe = c['safe'] or ''
    for ch in wire:
        if ch not in ALNUM + '-_.~%=&+' + safe:
            ctx.fail('urlencode(safe=%r): %r contains %r unescaped', c['safe'], wire, ch)
    if safe:
        for ch in set(safe) - set('%&=+;~'):
            if any(ch in x for k, l in content.items() for v in l for x in (k, v)) and '%%%02X' % ord(ch) in wire.upper():
                # not as a byte of another character
                if not multibyte(content, c['codec'], ord(ch)):
                    ctx.fail('urlencode(safe=%r): %r has %r escaped', c['safe'], wire, ch)
    want = {k: l for k, l in content.items() if l}
    pairs = [p.split('=') for p in wire.split('&')] if wire else []
    if any(len(p) != 2 for p in pairs):
        ctx.fail('urlencode(): %r is no list of pairs', wire)
    got = {}
    for k, v in pairs:
        k, v = (unquote_to_bytes(x if safe else x.replace('+', ' ')).decode(c['codec'], 'replace') for x in (k, v))
        got.setdefault(k, []).append(v)
    ctx.eq(got, want, 'urlencode() read by an independent decoder')
    # and the library reads it back
    s = Script()
    if c['back'] == 'QueryDict' or not wire or set(wire) & set(' #"<>'):
        d2 = make(s, c, wire)
    else:
        attrs = s.new('h.settings', None, DEFAULT_CHARSET=c['charset'])
        if c['back'] == 'GET':
            r, _ = fast_parse(s, b'GET /?%s HTTP/1.1\r\nHost: h\r\n\r\n' % wire.encode(), attrs)
        else:
            r, _ = fast_parse(s, b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: %d\r\n\r\n%s' % (len(wire), wire.encode()), attrs)
        d2 = s.getnew(r, c['back'])
    back = s.call(d2, 'lists')
    again = s.call(d2, 'urlencode')
    res = ctx.run(s)
    ctx.eq({k: l for k, l in c22.norm_(ctx.ok(res[back], 'parsing %r' % wire))}, want, 'parsing %r' % wire)
    if not safe:
        a = ctx.ok(res[again], 'encoding again')
        ctx.eq(sorted(as_str(a).split('&')), sorted(wire.split('&')), 'encoding again')
    special = any(ch not in UNRESERVED for k, l in want.items() for v in l for ch in k + v)
    ctx.label(c['how'], c['charset'], c['back'], 'safe' if safe else None, c['copy'], 'repeated' if any(len(l) > 1 for l in want.values()) else None)
    ctx.nt(bool(want) and special)


def multibyte(content, codec, b):
    return any(b in ch.encode(codec) for k, l in content.items() for v in l for ch in k + v if ord(ch) > 127)


# ---- the stand-alone encoder
@st.composite
def ecase(draw):
    kind = draw(st.sampled_from(['mvd', 'mvd', 'dict', 'pairs', 'dict-seq', 'QueryDict']))
    item = st.one_of(st.text(anychar, max_size=5), st.integers(-5, 10 ** 6), st.text(anychar, max_size=3).map(lambda t: t.encode()))
    if kind == 'QueryDict':
        item = st.text(anychar, max_size=5)
    if kind in ('mvd', 'dict-seq', 'QueryDict'):
        v = st.lists(item, max_size=3)
        if kind == 'dict-seq':
            v = st.one_of(v, item)
    else:
        v = item
    pairs = draw(st.lists(st.tuples(st.text(anychar, max_size=4), v), max_size=4, unique_by=None if kind == 'pairs' else lambda p: p[0]))
    none = draw(st.integers(0, 7)) == 0 and bool(pairs)
    if none:
        i = draw(st.integers(0, len(pairs) - 1))
        k, v = pairs[i]
        pairs[i] = (k, (v + [None]) if isinstance(v, list) else None)
    return {'kind': kind, 'pairs': pairs, 'none': none}


def check_encode(ctx, c):
    s = Script()
    k = c['kind']
    if k == 'pairs':
        arg = [list(p) for p in c['pairs']]
    else:
        arg = dict(c['pairs'])
        if k in ('mvd', 'QueryDict'):
            arg = s.new(c22.MVD_, arg) if k == 'mvd' else s.new(QD, s.new('h.settings'), None, True)
            if k == 'QueryDict':
                for n, l in c['pairs']:
                    s.call(arg, 'setlist', n, l)
    if k == 'QueryDict' and c['none']:
        return
    seq = k in ('mvd', 'dict-seq', 'QueryDict')
    e = s.func(UH + 'urlencode', arg, seq)
    res = ctx.run(s)
    got = res[e]
    if c['none']:
        if not (isinstance(got, Exc) and got.isa('TypeError')):
            ctx.fail('a None value: %r', got)
        ctx.label('None')
        ctx.nt()
        return
    wire = as_str(ctx.ok(got, 'urlencode()'))

    def t(x):
        return x.decode() if isinstance(x, bytes) else x if isinstance(x, str) else str(x)
    want = [(t(n), t(x)) for n, v in c['pairs'] for x in (v if isinstance(v, list) else [v])]
    if k != 'pairs':
        want = sorted(want, key=lambda p: p[0])
    s = Script()
    b = s.func(UH + 'limited_parse_qsl', wire, True)
    res = ctx.run(s)
    got = [tuple(c22.norm_(p)) for p in ctx.ok(res[b], 'parsing %r' % wire)]
    if k != 'pairs':
        got = sorted(got, key=lambda p: p[0])
    ctx.eq(got, want, 'urlencode() -> %r, parsed' % wire)
    ctx.label(k)
    ctx.nt(bool(want))


# ---- copies and fromkeys
@st.composite
def kcase(draw):
    name, codec = draw(st.sampled_from(CHARSETS))
    ks = [texts(draw, codec, 3) for _ in range(draw(st.integers(0, 4)))]
    ks += [draw(st.sampled_from(ks)) for _ in range(draw(st.integers(0, 2)))] if ks else []
    return {'how': 'fromkeys', 'charset': name, 'codec': codec, 'keys': ks, 'value': draw(st.one_of(st.none(), st.just(texts(draw, codec, 4)))), 'bytes': draw(st.booleans()),
            'mutable': draw(st.sampled_from([None, False, True])), 'by': draw(st.sampled_from(['argument', 'settings', 'both', 'neither']))}


def check_keys(ctx, c):
    s = Script()
    kw = {}
    codec = c['codec']
    if c['by'] in ('argument', 'both'):
        kw['encoding'] = c['charset']
    if c['by'] == 'settings':
        kw['settings'] = s.new('h.settings', None, DEFAULT_CHARSET=c['charset'])
    if c['by'] == 'both':
        kw['settings'] = s.new('h.settings', None, DEFAULT_CHARSET='us-ascii')
    if c['by'] == 'neither':
        codec = 'utf-8' if False else 'latin-1'
    enc_ = (lambda x: x.encode(codec, 'ignore')) if c['bytes'] else (lambda x: x)
    keys = [x.encode(codec, 'ignore').decode(codec) for x in c['keys']]
    value = None if c['value'] is None else c['value'].encode(codec, 'ignore').decode(codec)
    if value is not None:
        kw['value'] = enc_(value)
    if c['mutable'] is not None:
        kw['mutable'] = c['mutable']
    if c['by'] == 'neither':
        enc0 = s.get(s.new('h.settings'), 'DEFAULT_CHARSET')
    d = s.new(QD + '.fromkeys', [enc_(x) for x in keys], **kw)
    l = s.call(d, 'lists')
    ch = s.call(d, 'appendlist', 'new', 'v')
    e = s.get(d, 'encoding')
    copies = []
    for how in ('copy', 'copy.copy', 'copy.deepcopy'):
        n = s.callnew(d, 'copy') if how == 'copy' else s.new(how, d)
        b = s.call(n, 'lists')
        ce = s.get(n, 'encoding')
        w = s.call(n, 'appendlist', enc_('k'), 'more')
        s.func('h.setitem', n, 'other', 'x')
        copies.append((how, b, ce, w, s.call(n, 'getlist', 'k')))
    l2 = s.call(d, 'lists')
    res = ctx.run(s)
    want = {}
    for k in keys:
        want.setdefault(k, []).append(value if value is not None else '')
    ctx.eq({k: v for k, v in c22.norm_(ctx.ok(res[l], 'fromkeys'))}, want, 'fromkeys()')
    if c['mutable']:
        ctx.ok(res[ch], 'changing it')
        want.setdefault('new', []).append('v')
    elif not (isinstance(res[ch], Exc) and res[ch].isa('AttributeError')):
        ctx.fail('fromkeys(mutable=%r) can be changed: %r', c['mutable'], res[ch])
    for how, b, ce, w, n in copies:
        ctx.eq({k: v for k, v in c22.norm_(ctx.ok(res[b], how))}, want, how)
        ctx.eq(as_str(res[ce]), as_str(res[e]), 'encoding of the ' + how)
        ctx.ok(res[w], 'changing the ' + how)
        ctx.eq(c22.norm_(res[n]), want.get('k', []) + ['more'], 'the changed ' + how)
    ctx.eq({k: v for k, v in c22.norm_(ctx.ok(res[l2], 'lists'))}, want, 'the original after its copies were changed')
    ctx.label(c['by'], 'mutable' if c['mutable'] else 'immutable', 'bytes' if c['bytes'] else 'text')
    ctx.nt(bool(keys))


PARTS = [
    Part('encode', case(), check, 'query dictionaries encoded, decoded by an independent decoder and by the library; non-trivial: some character needs escaping', 1800, 30000),
    Part('urlencode', ecase(), check_encode, 'stand-alone encoder over dictionaries and pairs; non-trivial: something to encode', 900, 12000),
    Part('copies', kcase(), check_keys, 'fromkeys() and the three kinds of copy; non-trivial: keys', 500, 6000),
]
