import calendar, datetime, re
from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script

UH = 'request_parser.utils.http.'
MON = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
DAY = 'Monday Tuesday Wednesday Thursday Friday Saturday Sunday'.split()
EPOCH = datetime.datetime(1970, 1, 1)
LAST = 253402300799


def fmt(kind, dt):
    w, m = DAY[dt.weekday()], MON[dt.month - 1]
    hms = '%02d:%02d:%02d' % (dt.hour, dt.minute, dt.second)
    if kind == 'rfc1123':
        return '%s, %02d %s %04d %s GMT' % (w[:3], dt.day, m, dt.year, hms)
    if kind == 'rfc850':
        return '%s, %02d-%s-%02d %s GMT' % (w, dt.day, m, dt.year % 100, hms)
    return '%s %s %2d %s %04d' % (w[:3], m, dt.day, hms, dt.year)


EDGES = [0, 1, 59, 60, 3599, 3600, 86399, 86400, 951782399, 951782400, 951868799, 951868800, 1709164800, 1709251199, 4107542399, 4107542400, 2147483647, 2147483648, 4294967295, 4294967296, 3155759999, 3155760000, 3124224000, LAST, LAST - 1, 946684799, 946684800]
seconds = st.one_of(st.integers(0, LAST), st.integers(0, 4102444800), st.sampled_from(EDGES), st.builds(lambda y, d: calendar.timegm((y, 1, 1, 0, 0, 0)) + d, st.integers(1970, 9999), st.integers(-1, 1)).filter(lambda x: 0 <= x <= LAST),
                    st.builds(lambda y, d: calendar.timegm((y, 3, 1, 0, 0, 0)) + d, st.integers(1970, 9999), st.integers(-86401, 1)))


@st.composite
def case(draw):
    t = draw(seconds)
    return {'t': t, 'bytes': draw(st.booleans()), 'frac': draw(st.sampled_from([0, 0, 0, 0.25, 0.5]))}


def at(t):
    return EPOCH + datetime.timedelta(seconds=t)


def check(ctx, c):
    t = c['t']
    dt = at(t)
    s = Script()
    f = s.func(UH + 'http_date', t)
    kinds = ['rfc1123', 'asctime'] + (['rfc850'] if 1970 <= dt.year < 2070 else [])
    steps = []
    for k in kinds:
        x = fmt(k, dt)
        for y in {x, x.replace(MON[dt.month - 1], MON[dt.month - 1].upper()), x.replace(MON[dt.month - 1], MON[dt.month - 1].lower())}:
            y = y.encode() if c['bytes'] else y
            steps.append((k, y, s.func(UH + 'parse_http_date', y), s.func(UH + 'parse_http_date_safe', y)))
    back = s.func(UH + 'parse_http_date', s.new(UH + 'http_date', t))
    fr = s.func(UH + 'http_date', t + c['frac']) if c['frac'] and t < 2 ** 40 else None
    res = ctx.run(s)
    want = fmt('rfc1123', dt)
    ctx.eq(as_str(ctx.ok(res[f], 'http_date(%d)' % t)), want, 'http_date(%d)' % t)
    ctx.eq(res[back], t, 'http_date(%d), parsed' % t)
    if fr is not None:
        got = as_str(ctx.ok(res[fr], 'http_date'))
        if got not in (want, fmt('rfc1123', at(min(t + 1, LAST)))):
            ctx.fail('http_date(%r): %r', t + c['frac'], got)
    for k, y, a, b in steps:
        ctx.eq(res[a], t, '%s %r' % (k, y))
        ctx.eq(res[b], t, 'safely, %s %r' % (k, y))
    ctx.label(*kinds)
    ctx.nt()


LENIENT = [re.compile(p, re.A) for p in (
    r'\w{3}, (?P<d>\d\d) (?P<m>\w{3}) (?P<y>\d{4}) (?P<h>\d\d):(?P<i>\d\d):(?P<s>\d\d) GMT',
    r'\w{6,9}, (?P<d>\d\d)-(?P<m>\w{3})-(?P<y>\d\d) (?P<h>\d\d):(?P<i>\d\d):(?P<s>\d\d) GMT',
    r'\w{3} (?P<m>\w{3}) (?P<d>[ \d]\d) (?P<h>\d\d):(?P<i>\d\d):(?P<s>\d\d) (?P<y>\d{4})')]


def classify(x):
    """-> ('reject',), or ('either', value)"""
    for r in LENIENT:
        m = r.fullmatch(x)
        if m:
            break
    else:
        return ('reject',)
    mon = [i.lower() for i in MON]
    if m['m'].lower() not in mon:
        return ('reject',)
    y, d, h, i, s = (int(m[k]) for k in 'ydhis')
    short = len(m['y']) == 2
    if short:
        y += 2000 if y < 70 else 1900
    elif y < 1970:
        return ('unclaimed',)
    if s == 60 and h < 24 and i < 60:
        return ('unclaimed',)
    try:
        return ('value', calendar.timegm(datetime.datetime(y, mon.index(m['m'].lower()) + 1, d, h, i, s).timetuple()))
    except ValueError:
        return ('reject',)


@st.composite
def bad(draw):
    how = draw(st.sampled_from(['edit', 'edit', 'field', 'field', 'mix', 'text']))
    kind = draw(st.sampled_from(['rfc1123', 'rfc850', 'asctime']))
    x = fmt(kind, at(draw(seconds)))
    if how == 'edit':
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, len(x)))
            ch = draw(st.sampled_from(list('0123456789 :,-GMTJanx\n\t+') + ['\u0663', '\u00e9', 'GMT', ', ', '']))
            e = draw(st.sampled_from(['insert', 'replace', 'delete', 'append', 'prepend', 'double']))
            x = {'insert': x[:i] + ch + x[i:], 'replace': x[:i] + ch + x[i + 1:], 'delete': x[:i] + x[i + 1:], 'append': x + ch, 'prepend': ch + x, 'double': x + x[i:]}[e]
    elif how == 'field':
        w = draw(st.sampled_from(['Mon', 'Xyz', 'Wed'])) if kind != 'rfc850' else draw(st.sampled_from(['Monday', 'Xyzzyx', 'Wednesday', 'Mon']))
        m = draw(st.sampled_from(MON + ['Feb', 'Foo', 'feb', 'APR', '123']))
        d = draw(st.sampled_from([0, 1, 28, 29, 30, 31, 32, 99]))
        y = draw(st.sampled_from([0, 69, 70, 99, 1900, 1969, 1970, 2000, 2024, 2023, 2100, 9999]))
        hms = '%02d:%02d:%02d' % (draw(st.sampled_from([0, 23, 24, 99])), draw(st.sampled_from([0, 59, 60])), draw(st.sampled_from([0, 59, 60, 61])))
        x = {'rfc1123': lambda: '%s, %02d %s %04d %s GMT' % (w, d, m, y, hms), 'rfc850': lambda: '%s, %02d-%s-%02d %s GMT' % (w, d, m, y % 100, hms), 'asctime': lambda: '%s %s %2d %s %04d' % (w, m, d, hms, y)}[kind]()
    elif how == 'mix':
        z = fmt(draw(st.sampled_from(['rfc1123', 'rfc850', 'asctime'])), at(draw(seconds)))
        i = draw(st.integers(0, len(x)))
        x = x[:i] + z[i:]
    else:
        x = draw(st.one_of(st.text(max_size=20), st.sampled_from(['', 'GMT', '0', '1994-11-06T08:49:37Z', 'Sun, 06 Nov 1994 08:49:37 +0000', 'Sun, 06 Nov 1994 08:49:37 UTC', 'Sun, 06 Nov 1994 08:49:37'])))
    return {'text': x, 'bytes': draw(st.booleans()) and x.isascii()}


def check_bad(ctx, c):
    x = c['text']
    arg = x.encode() if c['bytes'] else x
    s = Script()
    a = s.func(UH + 'parse_http_date', arg)
    b = s.func(UH + 'parse_http_date_safe', arg)
    res = ctx.run(s)
    k = classify(x)
    got, safe = res[a], res[b]
    if isinstance(got, Exc):
        if not got.isa('ValueError'):
            ctx.fail('parse_http_date(%r): %r, expected a ValueError', arg, got)
        ctx.eq(safe, None, 'parse_http_date_safe(%r)' % arg)
        if k[0] == 'value':
            ctx.fail('parse_http_date(%r): %r, expected %d', arg, got, k[1])
    else:
        if k[0] == 'reject':
            ctx.fail('parse_http_date(%r): %r, expected a ValueError', arg, got)
        if k[0] == 'value':
            ctx.eq(got, k[1], 'parse_http_date(%r)' % arg)
        ctx.eq(safe, got, 'parse_http_date_safe(%r)' % arg)
    ctx.label(k[0])
    ctx.nt(k[0] == 'reject')


PARTS = [
    Part('dates', case(), check, 'instants formatted and parsed in all formats; all count as non-trivial', 3000, 60000),
    Part('other', bad(), check_bad, 'damaged and impossible dates against a reference; non-trivial: has to be refused', 3000, 60000),
]
