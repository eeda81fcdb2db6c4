import re
from hypothesis import strategies as st
from core import Part
from gen import *
from urllib.parse import quote, quote_plus, unquote, unquote_plus, unquote_to_bytes
from jy import Exc, Script

UH = 'request_parser.utils.http.'
anyc = st.one_of(st.sampled_from(list(' +%/?#&=;:,~-_.abcXYZ019"<>\\\t\n\x00\x7f') + ['\xe9', '\x80', '\u20ac', '\ufffd', '\u2028', '\U0001f600', '\U0010ffff', '%41', '%2B', '%C3%A9', '%e2%82%ac', '%F0%9F%98%80', '%ff', '%C3', '%2', '%zz', '%%', '+%20', '%00', '%25', '\r\n', '\n\n', '  ']),
                 st.characters(exclude_categories=('Cs',)))
text_ = st.lists(anyc, max_size=12).map(''.join)
SAFE = [None, None, '', '/', '/~', ':/?#', '~', ' ', '+', '%', '@:$,', '-', '!*\'()']


@st.composite
def case(draw):
    long = draw(st.integers(0, 99)) == 0
    t = draw(text_)
    return {'text': t * draw(st.sampled_from([50, 400])) if long and t else t, 'safe': draw(st.sampled_from(SAFE)), 'bytes': draw(st.booleans())}


def check(ctx, c):
    t = c['text']
    arg = t.encode() if c['bytes'] else t
    s = Script()
    kw = [] if c['safe'] is None else [c['safe']]
    q, qp = s.func(UH + 'urlquote', arg, *kw), s.func(UH + 'urlquote_plus', arg, *kw)
    u, up = s.func(UH + 'urlunquote', arg), s.func(UH + 'urlunquote_plus', arg)
    # the round trips
    r = s.func(UH + 'urlunquote', s.new(UH + 'urlquote', arg, *kw))
    rp = s.func(UH + 'urlunquote_plus', s.new(UH + 'urlquote_plus', arg, *kw))
    res = ctx.run(s)

    def txt(step, what):
        return as_str(ctx.ok(res[step], what))
    for step, what, model, safe in ((q, 'urlquote', quote, '/' if c['safe'] is None else c['safe']), (qp, 'urlquote_plus', quote_plus, '' if c['safe'] is None else c['safe'])):
        got = txt(step, what)
        want = model(t, safe)
        # ~ may be escaped or not
        ctx.eq(got.replace('%7E', '~'), want.replace('%7E', '~'), '%s(%r, safe=%r)' % (what, t[:200], safe))
    for step, what, x in ((u, 'urlunquote', t), (up, 'urlunquote_plus', t.replace('+', ' '))):
        got = txt(step, what)
        if wellformed(x):
            ctx.eq(got, unquote(x), '%s(%r)' % (what, x[:200]))
        elif got != unquote(x) and got not in replaced(ctx, x):
            ctx.fail('%s(%r): got %r', what, x[:200], got)
    if '%' not in (c['safe'] or ''):
        ctx.eq(txt(r, 'the round trip'), t, 'urlunquote(urlquote(%r))' % t[:200])
        if '+' not in (c['safe'] or ''):
            ctx.eq(txt(rp, 'the round trip with +'), t, 'urlunquote_plus(urlquote_plus(%r))' % t[:200])
    ctx.label('bytes' if c['bytes'] else 'text', 'escapes' if unquote(t) != t else None, None if wellformed(t) else 'malformed', 'wide' if any(ord(x) > 0xffff for x in t) else 'not ASCII' if not t.isascii() else 'ASCII', 'long' if len(t) > 400 else None)
    ctx.nt(any(not x.isalnum() for x in t))


def wellformed(x):
    try:
        for r in re.findall('[\x00-\x7f]+', x):
            unquote_to_bytes(r).decode()
        return True
    except UnicodeDecodeError:
        return False


def replaced(ctx, x):
    """What the interpreter's own decoder makes of malformed bytes: of a run of escapes, or of ASCII text with escapes."""
    out = []
    for pattern in ('(?:%[0-9A-Fa-f]{2})+', '[\x00-\x7f]+'):
        s = Script()
        parts = [unquote_to_bytes(r) for r in re.findall(pattern, x)]
        steps = [s.func('h.decode', p, 'utf-8') for p in parts]
        res = ctx.run(s)
        it = iter([as_str(res[i]) for i in steps])
        out.append(re.sub(pattern, lambda m: next(it), x))
    return out


PARTS = [
    Part('urlquote', case(), check, 'any text, with escapes well and ill formed, quoted and unquoted, against the standard library; non-trivial: some character that is no letter or digit', 2500, 60000),
]
