from urllib.parse import unquote_to_bytes
from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script
from props.c08 import anychar

E_ = 'request_parser.utils.encoding.'
IRI = set(ALNUM + "-._~/#%[]=:;$&()+,!?*@'")
PATH = set(ALNUM + "/:@&+$,-_.!~*'()")


def ref(data, safe):
    return ''.join(chr(b) if b < 128 and chr(b) in safe else '%%%02X' % b for b in data)


iri = st.one_of(st.text(anychar, max_size=14), st.lists(st.sampled_from(['/', 'a', 'http://h/', '\u2665', '?x=', '&', '#', '%41', '%C3%A9', '%', '%zz', '%25', '%2541', '%25', '%%', '%2525', '%2', ' ', '\u00e9', '"', '[::1]', '~u', '\U0001f600', '<', '\\', '^', '`', '{|}', '\n', '\x00']), max_size=8).map(''.join))


@st.composite
def case(draw):
    return {'text': draw(iri), 'bytes': draw(st.booleans())}


def check(ctx, c):
    t = c['text']
    u8 = t.encode()
    arg = u8 if c['bytes'] else t
    s = Script()
    a = s.func(E_ + 'iri_to_uri', arg)
    keep = s.new(E_ + 'iri_to_uri', arg)
    b = s.func(E_ + 'iri_to_uri', keep)
    back = s.func(E_ + 'uri_to_iri', keep)
    p = s.func(E_ + 'escape_uri_path', arg)
    p2 = s.func(E_ + 'escape_uri_path', arg, False)
    res = ctx.run(s)
    want = ref(u8, IRI)
    ctx.eq(as_str(ctx.ok(res[a], 'iri_to_uri')), want, 'iri_to_uri(%r)' % arg)
    ctx.eq(as_str(ctx.ok(res[b], 'iri_to_uri')), want, 'iri_to_uri() twice')
    if '%' not in t:
        got = ctx.ok(res[back], 'uri_to_iri')
        ctx.eq(got.encode() if isinstance(got, str) else got, u8, 'uri_to_iri(iri_to_uri(%r))' % arg)
    got = as_str(ctx.ok(res[p], 'escape_uri_path'))
    ctx.eq(got, ref(u8, PATH), 'escape_uri_path(%r)' % arg)
    ctx.eq(unquote_to_bytes(got), u8, 'the escaped path, unescaped')
    ctx.eq(as_str(ctx.ok(res[p2], 'escape_uri_path')), ref(u8, PATH | {'%'}), 'escape_uri_path(%r, encode_percent=False)' % arg)
    ctx.label('bytes' if c['bytes'] else 'text', 'percent' if '%' in t else None, 'non-ASCII' if not t.isascii() else None, 'URI already' if want == t else None)
    ctx.nt(want != t and bool(t))


@st.composite
def ucase(draw):
    """URIs: unreserved, reserved and escapes of UTF-8 text."""
    parts = draw(st.lists(st.one_of(st.sampled_from(sorted(IRI - {'%'})).map(lambda x: (x, x)),
                                    st.builds(lambda x, low: (x, ''.join(('%%%02x' if low else '%%%02X') % b for b in x.encode())), st.one_of(anychar, st.just('%')), st.booleans())), max_size=12))
    return {'uri': ''.join(p[1] for p in parts), 'iri': ''.join(p[0] for p in parts), 'bytes': draw(st.booleans())}


def check_uri(ctx, c):
    s = Script()
    arg = c['uri'].encode() if c['bytes'] else c['uri']
    a = s.func(E_ + 'iri_to_uri', arg)
    b = s.func(E_ + 'uri_to_iri', arg)
    n = s.func(E_ + 'iri_to_uri', None)
    m = s.func(E_ + 'uri_to_iri', None)
    res = ctx.run(s)
    ctx.eq(as_str(ctx.ok(res[a], 'iri_to_uri')), c['uri'], 'iri_to_uri(a URI)')
    got = ctx.ok(res[b], 'uri_to_iri')
    ctx.eq(got.encode() if isinstance(got, str) else got, c['iri'].encode(), 'uri_to_iri(%r)' % arg)
    ctx.eq(res[n], None, 'iri_to_uri(None)')
    ctx.eq(res[m], None, 'uri_to_iri(None)')
    ctx.label('bytes' if c['bytes'] else 'text')
    ctx.nt('%' in c['uri'])


PARTS = [
    Part('iri', case(), check, 'texts converted to URIs, paths escaped and back; non-trivial: something has to be escaped', 3500, 60000),
    Part('uri', ucase(), check_uri, 'URIs, which stay as they are, and decoded; non-trivial: it has escapes', 1500, 25000),
]
