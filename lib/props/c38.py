from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script
from props import c22
from props.c08 import CHARSETS
from props.c24 import texts

DS = 'request_parser.utils.datastructures.'
QD = c22.QD
TYPES = ['MultiValueDict', 'ImmutableMultiValueDict', 'QueryDict', 'QueryDict', 'GET', 'POST', 'ImmutableList']
mv = st.one_of(st.text(anychar_ := st.sampled_from(['a', 'b', ' ', '\xe9', '\u20ac', '\n', "'", '\\', '\x00', '\U0001f600']), max_size=4), st.integers(-3, 10 ** 12), st.none(), st.booleans(), st.binary(max_size=3), st.lists(st.integers(0, 3), max_size=2))


@st.composite
def case(draw):
    kind = draw(st.sampled_from(TYPES))
    name, codec = draw(st.sampled_from(CHARSETS))
    d = {}
    for _ in range(draw(st.integers(0, 4))):
        if kind in ('MultiValueDict', 'ImmutableMultiValueDict'):
            d[draw(st.text(anychar_, max_size=3))] = draw(st.lists(mv, max_size=4))
        else:
            d[texts(draw, codec, 4)] = [texts(draw, codec, 6) for _ in range(draw(st.integers(0, 3)))]
    return {'kind': kind, 'charset': name, 'codec': codec, 'content': d, 'mutable': draw(st.booleans()), 'protocols': draw(st.lists(st.integers(0, 2), min_size=1, max_size=2)), 'module': draw(st.sampled_from(['pickle', 'cPickle'])),
            'attr': draw(st.sampled_from([None, 'x', 'y'])), 'first': draw(st.sampled_from(['original', 'copy']))}


def pct(x, codec):
    return ''.join('%%%02X' % b for b in x.encode(codec))


def check(ctx, c):
    s = Script()
    kind = c['kind']
    content = {k: list(l) for k, l in c['content'].items()}
    query = kind in ('QueryDict', 'GET', 'POST')
    if kind in ('MultiValueDict', 'ImmutableMultiValueDict'):
        d = s.new(DS + kind, content)
    elif kind == 'QueryDict':
        # made mutable; frozen if it is to be immutable
        d = s.new(QD, s.new('h.settings'), None, True, c['charset'])
        for k, l in content.items():
            s.call(d, 'setlist', k, l)
        if not c['mutable']:
            s.set(d, '_mutable', False)
    elif kind in ('GET', 'POST'):
        content = {k: l for k, l in content.items() if l}
        wire = '&'.join('%s=%s' % (pct(k, c['codec']), pct(v, c['codec'])) for k, l in content.items() for v in l).encode()
        attrs = s.new('h.settings', None, DEFAULT_CHARSET=c['charset'])
        if kind == 'GET':
            r, _ = fast_parse(s, b'GET /?%s HTTP/1.1\r\nHost: h\r\n\r\n' % wire, attrs)
        else:
            r, _ = fast_parse(s, b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: %d\r\n\r\n%s' % (len(wire), wire), attrs)
        d = s.getnew(r, kind)
    else:
        content = [x for l in content.values() for x in l]
        d = s.new(DS + 'ImmutableList', content)
    if c['attr'] and kind != 'ImmutableList':
        s.set(d, c['attr'], [1, 'v'])
    p = d
    for proto in c['protocols']:
        p = s.new('h.pickled', p, proto, c['module'])
    # (the one of a request without query is not frozen)
    mutable = kind == 'MultiValueDict' or kind == 'GET' and not content or kind == 'QueryDict' and c['mutable']

    def view(x):
        if kind == 'ImmutableList':
            return [s.func('h.typename', x), s.func('h.items', x)]
        v = [s.func('h.typename', x), s.call(x, 'lists')]
        if query:
            v.append(s.get(x, 'encoding'))
        if c['attr']:
            v.append(s.get(x, c['attr']))
        return v
    a, b = view(d), view(p)
    changed = []
    if kind != 'ImmutableList':
        # a change of one does not change the other
        x, y = (d, p) if c['first'] == 'original' else (p, d)
        k0 = next(iter(content), 'k')
        for o in (('appendlist', k0, 'more'), ('setlist', 'other', ['1', '2'])):
            changed.append(s.call(x, *o))
        ax, ay = s.call(x, 'lists'), s.call(y, 'lists')
        cp = s.callnew(p, 'copy')
        cc = s.call(cp, 'appendlist', 'more', 'v')
    elif kind == 'ImmutableList':
        changed.append(s.call(p, 'append', 1))
    res = ctx.run(s)
    va = [ctx.ok(res[i], 'the original') for i in a]
    vb = [ctx.ok(res[i], 'the copy made by %s, protocols %r' % (c['module'], c['protocols'])) for i in b]

    def norm(v):
        if kind == 'ImmutableList' or not isinstance(v[1], (list, tuple)):
            return v
        return [v[0], sorted(map(repr, v[1]))] + v[2:]
    ctx.eq(norm(vb), norm(va), 'the copy made by pickling (type, content, encoding, attribute)')
    got = vb[1]
    if kind == 'ImmutableList':
        ctx.eq(c22.norm_(got), content, 'content')
    else:
        ctx.eq({k: l for k, l in (c22.norm_(got) if kind != 'MultiValueDict' and kind != 'ImmutableMultiValueDict' else got)}, content, 'content')
    for i in changed:
        if mutable:
            ctx.ok(res[i], 'changing it')
        elif not isinstance(res[i], Exc):
            ctx.fail('an immutable %s can be changed after pickling', kind)
    if kind != 'ImmutableList':
        want = {k: list(l) for k, l in content.items()}
        ctx.eq(sorted(map(repr, res[ay])), sorted(map(repr, va[1])), 'the one that was not changed')
        if mutable:
            want.setdefault(k0, []).append('more')
            want['other'] = ['1', '2']
        ctx.eq({k: l for k, l in (c22.norm_(res[ax]) if query else res[ax])}, want, 'the one that was changed')
        if query or kind == 'MultiValueDict':
            ctx.ok(res[cc], 'changing a copy of the unpickled one')
    ctx.label(kind, c['module'], *['protocol %d' % x for x in c['protocols']])
    ctx.nt(bool(content))


PARTS = [
    Part('pickle', case(), check, 'dictionaries and lists pickled and unpickled, by both modules with each protocol, once or twice; non-trivial: not empty', 1500, 25000),
]
