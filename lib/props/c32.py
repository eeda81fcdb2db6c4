from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script
from props import c30, c31
from props.c22 import norm_

DEFAULTS = dict(c30.KEYS.values())


def steps(draw):
    l = [('head',)]
    if draw(st.integers(0, 3)) == 0:
        l.append(('enc', draw(st.sampled_from(c31.ENCODINGS))))
    if draw(st.integers(0, 4)) == 0:
        l.append(('body',))
    l += [('form',), ('full',), ('body',)]
    if draw(st.integers(0, 3)) == 0:
        l.insert(-1, ('enc', draw(st.sampled_from(c31.ENCODINGS))))
    # afterwards the request's own data is changed by its owner
    return l + [('dirty',)]


@st.composite
def case(draw):
    reqs = []
    for _ in range(draw(st.integers(2, 4))):
        c = draw(c31.item())
        reqs.append({'req': c, 'steps': steps(draw), 'kind': draw(STREAMS), 'cuts': draw(CUTS)})
    order = [i for i, q in enumerate(reqs) for _ in q['steps']]
    order = draw(st.permutations(order)) if draw(st.integers(0, 4)) else order
    own = draw(st.sampled_from([False, False, True]))
    return {'reqs': reqs, 'order': list(order), 'own': own, 'settings': {} if own else {
        'DATA_UPLOAD_MAX_MEMORY_SIZE': draw(st.sampled_from([2621440, 2621440, None, 30])), 'FILE_UPLOAD_MAX_MEMORY_SIZE': draw(st.sampled_from([2621440, 2621440, 0])),
        'MAX_HEADER_SIZE': draw(st.sampled_from([16, 1, 7, 4096])), 'DEFAULT_CHARSET': draw(st.sampled_from(['iso-8859-1', 'utf-8'])),
        'DATA_UPLOAD_MAX_NUMBER_FIELDS': draw(st.sampled_from([1000, 1000, 2]))}}


def do(s, r, o):
    if o[0] == 'dirty':
        f = s.getnew(r, 'FILES')
        s.call(f, 'appendlist', 'zz', 'x')
        p = s.getnew(r, 'POST')
        s.func('h.spoil', p)
        s.func('h.spoil', f)
        s.call(p, 'appendlist', 'zz', 'x')
        s.call(s.getnew(r, 'GET'), 'appendlist', 'zz', 'x')
        m = s.getnew(r, 'META')
        s.func('h.spoil', m)
        s.func('h.setitem', m, 'zz', 'x')
        return s.set(r, 'method', 'zz')
    return c31.do(s, r, o)


def alone(ctx, c, q):
    s = Script()
    d = s.new('h.tmpdir')
    st_ = s.new('h.bytesio', q['req']['head'] + q['req']['body'])
    r = s.new(HR, st_) if c['own'] else s.new(HR, st_, s.new('h.settings', None, FILE_UPLOAD_TEMP_DIR=d, **c['settings']))
    ix = [do(s, r, o) for o in q['steps']]
    s.call(r, 'close')
    res = ctx.run(s)
    return [c31.outcome(res[i]) for i in ix]


def check(ctx, c):
    s = Script()
    d = s.new('h.tmpdir')
    cfg = s.new('h.settings', None, FILE_UPLOAD_TEMP_DIR=d, **c['settings'])
    before = s.func('h.settings_view', cfg)
    rs = []
    for q in c['reqs']:
        st_ = add_stream(s, q['req']['head'] + q['req']['body'], q['kind'], q['cuts'])
        rs.append(s.new(HR, st_) if c['own'] else s.new(HR, st_, cfg))
    at = [0] * len(rs)
    ix = [[] for _ in rs]
    for i in c['order']:
        ix[i].append(do(s, rs[i], c['reqs'][i]['steps'][at[i]]))
        at[i] += 1
    after = s.func('h.settings_view', cfg)
    default = s.func('h.settings_view', s.new('request_parser.conf.settings.Settings.default'))
    for r in rs:
        s.call(r, 'close')
    res = ctx.run(s)
    ctx.eq(res[after], ctx.ok(res[before], 'the settings'), 'the shared settings afterwards')
    dv = {as_str(k): v for k, v in ctx.ok(res[default], 'the default settings').items()}
    for k, v in DEFAULTS.items():
        if as_str(dv.get(k)) != v:
            ctx.fail('the default %s is %r after parsing, not %r', k, dv.get(k), v)
    good = bad = 0
    for n, q in enumerate(c['reqs']):
        want = alone(ctx, c, q)
        for k, o in enumerate(q['steps']):
            got = c31.outcome(res[ix[n][k]])
            if got != want[k]:
                ctx.fail('request %d, %s: %s when interleaved, %s alone', n, o, c31.short_(got, want[k]), c31.short_(want[k], got))
        refused = isinstance(want[0], tuple)
        good += not refused
        bad += refused or any(isinstance(w, tuple) and w[0] == 'raises' and o == ('form',) for w, o in zip(want, q['steps']))
        # what cannot have come from another request
        v = want[[o[0] for o in q['steps']].index('full')]
        sets = [o[1] for o in q['steps'][:[o[0] for o in q['steps']].index('full')] if o[0] == 'enc']
        if isinstance(v, dict) and not refused:
            eff = sets[-1] if sets else declared(q['req']) or c['settings'].get('DEFAULT_CHARSET', 'iso-8859-1')
            if q['req']['how'] != 'badhead' and as_str(v['encoding']).lower() != eff.lower():
                ctx.fail('request %d reports the encoding %r, not %r', n, v['encoding'], eff)
    mixed = c['order'] != sorted(c['order'])
    ctx.label('interleaved' if mixed else 'one after the other', 'with a failed one' if bad else '', 'encoding changed' if any(o[0] == 'enc' for q in c['reqs'] for o in q['steps']) else '',
              'separate settings' if c['own'] else 'shared settings')
    ctx.nt(good > 1)


def declared(q):
    if q['kind'] == 'plain':
        return q.get('charset') if q.get('charset') != 'nonsense-9' and b'; charset=' in q['head'] else None
    return 'utf-8' if q['kind'] == 'form' and b'; charset=utf-8' in q['head'] else None


pairtext = st.one_of(st.sampled_from(['a', 'b', 'caf\xe9', '\u0436', '', 'x y', '\u20ac']), st.text(st.characters(min_codepoint=32, max_codepoint=0x45f, blacklist_categories=('Cs',)), max_size=5))
SETS = ['utf-8', 'iso-8859-1', 'cp1251', 'koi8-r', 'cp437', 'windows-1252', 'us-ascii']


@st.composite
def ecase(draw):
    cs = draw(st.sampled_from(SETS))
    pairs = draw(st.lists(st.tuples(pairtext, pairtext), min_size=1, max_size=4))
    return {'pairs': [(a.encode(cs, 'ignore'), b.encode(cs, 'ignore')) for a, b in pairs], 'sets': draw(st.lists(st.sampled_from(SETS + [cs]), min_size=1, max_size=3)),
            'form': draw(st.booleans()), 'when': draw(st.sampled_from(['head', 'head', 'parse']))}


def escape(b):
    return ''.join('%%%02X' % x for x in b)


def echeck(ctx, c):
    """After the encoding is set, the query (and a form parsed later) is read in it; another request with the same settings is not."""
    q = '&'.join(escape(a) + '=' + escape(b) for a, b in c['pairs'])
    data = head_text('POST /?%s HTTP/1.1' % q, [('Host', 'h', ' ', ''), ('Content-Type', 'application/x-www-form-urlencoded', ' ', '')]).encode() + q.encode()
    s = Script()
    cfg = s.new('h.settings', None)
    r = s.new(HR, s.new('h.bytesio', data), cfg)
    other = s.new(HR, s.new('h.bytesio', data), cfg)
    s.call(other, 'parse')
    p = s.call(r, 'parse_request_header' if c['when'] == 'head' else 'parse')
    out = []
    for e in c['sets']:
        s.set(r, 'encoding', e)
        out.append((e, s.get(r, 'GET'), s.get(r, 'encoding')))
    f = s.call(r, 'parse')
    post = s.get(r, 'POST')
    get = s.get(r, 'GET')
    og, op, oe = s.get(other, 'GET'), s.get(other, 'POST'), s.get(other, 'encoding')
    refs = {e: [(s.func('h.decode', a, e), s.func('h.decode', b, e)) for a, b in c['pairs']] for e in set(c['sets']) | {'iso-8859-1'}}
    res = ctx.run(s)

    def model(e):
        d = {}
        for a, b in refs[e]:
            d.setdefault(norm_(res[a]), []).append(norm_(res[b]))
        return d

    def same_as(i, e, what):
        v = ctx.ok(res[i], what)
        got = {norm_(k): [norm_(x) for x in l] for k, l in view(v)}
        ctx.eq(got, model(e), what)
    ctx.ok(res[p], 'parsing')
    for e, g, n in out:
        same_as(g, e, 'query after setting the encoding to ' + e)
        ctx.eq(as_str(res[n]), e, 'encoding after setting it')
    ctx.ok(res[f], 'parsing the rest')
    same_as(get, c['sets'][-1], 'query after parsing the rest')
    if c['when'] == 'head':
        same_as(post, c['sets'][-1], 'form parsed after setting the encoding')
    same_as(og, 'iso-8859-1', 'query of the other request')
    same_as(op, 'iso-8859-1', 'form of the other request')
    ctx.eq(as_str(res[oe]).lower(), 'iso-8859-1', 'encoding of the other request')
    ctx.label(*c['sets'])
    ctx.nt(any(x > 127 for a, b in c['pairs'] for x in a + b) and any(e != 'iso-8859-1' for e in c['sets']))


def view(v):
    """A multi-value dictionary as the worker reports it, as (name, values) pairs."""
    return list(v.items())


PARTS = [
    Part('interleaved', case(), check, 'up to 4 requests, some damaged, their steps interleaved, with shared or separate settings, each compared with a run alone; non-trivial: at least two heads accepted', 500, 10000),
    Part('encoding', ecase(), echeck, 'requests with an escaped query and form whose encoding is set once or more; non-trivial: bytes above 127 and an encoding other than the default', 800, 12000),
]
