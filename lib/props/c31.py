from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script, Skipped
from props import c12


@st.composite
def item(draw):
    """A request, possibly damaged: {'head', 'body', 'kind', ...}"""
    c = draw(whole(big=False, accept_hosts=st.one_of(hosts, st.builds('{}:{}'.format, hosts, st.integers(0, 70000)))))
    how = draw(st.sampled_from(['good', 'good', 'good', 'good', 'badhead', 'badbody', 'empty', 'badhost']))
    if how == 'badhead':
        h = c['head']
        i = draw(st.integers(0, len(h)))
        c['head'] = draw(st.sampled_from([h[:i], h.replace(b' ', b'', 1), h.replace(b'Host', b'Hosx'), h.replace(b':', b'', 1), b'', b'\r\n\r\n', h.replace(b'Host:', b'Host: a_b')]))
        if draw(st.booleans()):
            c['body'] = b''
    elif how == 'badhost':
        c['head'] = c['head'].replace(b'Host:', b'Host: a_b')
    elif how == 'badbody':
        c['body'] = c12.mutate(draw, c['body'], c.get('boundary', b'x'), draw(st.integers(1, 2)))
    elif how == 'empty':
        c['body'] = b''
    c['how'] = how
    return c


ENCODINGS = ['utf-8', 'iso-8859-1', 'utf-16', 'cp1251']
op = st.one_of(st.sampled_from([('parse',), ('parse',), ('head',), ('form',), ('body',), ('full',), ('close',)]),
               st.tuples(st.just('read'), st.integers(1, 9)), st.just(('readline',)), st.tuples(st.just('enc'), st.sampled_from(ENCODINGS)))
first = st.sampled_from([('parse',), ('parse',), ('parse',), ('head',), ('body',)])


@st.composite
def newbody(draw, c):
    k = c['kind']
    if k == 'multipart':
        b = c['boundary']
        body = body_bytes(b, draw(st.lists(part(b, big=False), max_size=3)))
        return c12.mutate(draw, body, b, 1) if draw(st.integers(0, 4)) == 0 else body
    return draw(urlform_body if k == 'form' else smart_body())


@st.composite
def case(draw):
    phases = []
    for _ in range(draw(st.integers(2, 5))):
        c = draw(item())
        ph = {'how': 'stream', 'req': c, 'ops': [draw(first)] + draw(st.lists(op, max_size=4)), 'kind': draw(STREAMS), 'cuts': draw(CUTS)}
        phases.append(ph)
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
            body = draw(st.one_of(newbody(c), newbody(c), st.just(b'')))
            phases.append({'how': 'body', 'body': body, 'ops': [draw(st.sampled_from([('form',), ('form',), ('parse',), ('body',), ('read', 4)]))]
                           + draw(st.lists(op, max_size=3)), 'kind': draw(STREAMS), 'cuts': draw(CUTS)})
    return {'phases': phases, 'settings': {'DATA_UPLOAD_MAX_MEMORY_SIZE': draw(st.sampled_from([2621440, 2621440, None, 30])),
                                           'FILE_UPLOAD_MAX_MEMORY_SIZE': draw(st.sampled_from([2621440, 2621440, 0])),
                                           'MAX_HEADER_SIZE': draw(st.sampled_from([16, 1, 7, 4096]))}}


def do(s, r, o):
    k = o[0]
    if k == 'full':
        return s.func('h.full', r)
    if k == 'enc':
        return s.set(r, 'encoding', o[1])
    return s.call(r, {'parse': 'parse', 'head': 'parse_request_header', 'form': 'parse_request_body', 'body': 'body', 'close': 'close',
                      'read': 'read', 'readline': 'readline'}[k], *o[1:])


def outcome(v):
    if isinstance(v, Exc):
        return ('raises', v.type, v.args)
    if isinstance(v, Skipped):
        return ('skipped',)
    if isinstance(v, dict) and 'POST' in v:
        return canon_form(v)
    return v


def check(ctx, c):
    s = Script()
    d = s.new('h.tmpdir')
    cfg = s.new('h.settings', None, FILE_UPLOAD_TEMP_DIR=d, **c['settings'])
    r = None
    todo = []
    encs, head = [], b''
    for ph in c['phases']:
        if ph['how'] == 'stream':
            data, encs = ph['req']['head'] + ph['req']['body'], []
            head = data[:data.find(b'\r\n\r\n') + 4]
            st_ = add_stream(s, data, ph['kind'], ph['cuts'])
            if r is None:
                r = s.new(HR, st_, cfg)
            else:
                s.set(r, 'stream', st_)
            fresh = s.new(HR, s.new('h.bytesio', data), cfg)
            h = None
        else:
            h = s.call(r, 'parse_request_header')
            fresh = s.new(HR, s.new('h.bytesio', head + ph['body']), cfg)
            s.call(fresh, 'parse_request_header')
            for e in encs:
                s.set(fresh, 'encoding', e)
            s.set(r, 'body_stream', add_stream(s, ph['body'], ph['kind'], ph['cuts']))
        pairs = []
        for o in ph['ops'] + [('parse',), ('full',), ('body',), ('close',)]:
            if o[0] == 'enc':
                encs.append(o[1])
            pairs.append((o, do(s, r, o), do(s, fresh, o)))
        todo.append((ph, h, pairs))
    res = ctx.run(s)
    done = worked = 0
    for i, (ph, h, pairs) in enumerate(todo):
        if ph['how'] == 'body' and isinstance(res[h], Exc):
            # no head to go with this body; the first attempt to parse the body says so
            ctx.label('body without head')
            o, a, _ = pairs[0]
            if o == ('form',) and not (isinstance(res[a], Exc) and res[a].type == 'RequestHeaderParseException'):
                ctx.fail('parsing a body without a head: %r', res[a])
            continue
        for o, a, b in pairs:
            got, want = outcome(res[a]), outcome(res[b])
            if got != want:
                ctx.fail('stream number %d (%s), %s on the used object gives %s, on a new one %s', i + 1, ph['how'], o, short_(got, want), short_(want, got))
        done += 1
        worked += not isinstance(res[pairs[-4][1]], Exc)
        ctx.label('%s replaced' % ph['how'] if i else '', 'refused' if isinstance(res[pairs[0][1]], Exc) else 'accepted')
    ctx.nt(done > 1 and worked > 1)


def short_(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return repr({k: a[k] for k in a if a.get(k) != b.get(k)})[:600]
    return repr(a)[:600]


@st.composite
def rcase(draw):
    c = draw(item())
    c['again'] = draw(st.lists(st.sampled_from([('parse',), ('head',), ('form',), ('body',), ('full',)]), min_size=1, max_size=4))
    c['max'] = draw(st.sampled_from([2621440, 2621440, 20]))
    return c


def rcheck(ctx, c):
    """Calling the parsing steps again changes nothing, and what was refused stays refused."""
    s = Script()
    d = s.new('h.tmpdir')
    cfg = s.new('h.settings', None, FILE_UPLOAD_TEMP_DIR=d, DATA_UPLOAD_MAX_MEMORY_SIZE=c['max'])
    r, p = fast_parse(s, c['head'] + c['body'], cfg)
    h = s.call(r, 'parse_request_header')
    v = s.func('h.full', r)
    b = s.call(r, 'body')
    again = [(o, do(s, r, o)) for o in c['again']]
    p2 = s.call(r, 'parse')
    v2 = s.func('h.full', r)
    b2 = s.call(r, 'body')
    s.call(r, 'close')
    res = ctx.run(s)
    bad = isinstance(res[p], Exc)
    if bad:
        if not isinstance(res[p2], Exc):
            ctx.fail('parsing raised %r, and parsing again succeeded', res[p])
        for o, a in again:
            if o == ('parse',) and not isinstance(res[a], Exc):
                ctx.fail('parsing raised %r, and parsing again succeeded', res[p])
        if isinstance(res[h], Exc):
            for o, a in again + [(('body',), b), (('body',), b2)]:
                if o != ('full',) and not isinstance(res[a], Exc):
                    ctx.fail('the head was refused with %r, but %s succeeds', res[p], o[0])
    else:
        ctx.ok(res[p2], 'parsing again')
        for o, a in again:
            if o[0] not in ('body', 'full'):
                ctx.ok(res[a], 'doing %s again' % o[0])
    if not (bad and isinstance(res[h], Exc)):
        ctx.eq(outcome(res[v2]), outcome(res[v]), 'what is reported after parsing again')
        if outcome(res[b2]) != outcome(res[b]):
            ctx.fail('body() gives %r, and after parsing again %r', res[b], res[b2])
        if not isinstance(res[b], (Exc, Skipped)) and not (isinstance(res[b], str) or res[b] == c['body']):
            ctx.fail('body() gives %r', res[b])
    ctx.label('refused' if bad else 'accepted', c['kind'], 'too big' if c['max'] < len(c['body']) else '')
    ctx.nt(len(c['body']) > 0 or bad)


PARTS = [
    Part('reuse', case(), check, 'up to 5 requests, some damaged, each with up to two replaced body streams, on one object with operations in between, each operation compared with a new object; non-trivial: at least two streams compared, two of them accepted', 700, 14000),
    Part('repeat', rcase(), rcheck, 'requests, some damaged, parsed and then parsed again in whole or in part; non-trivial: a body or a refusal', 1000, 16000),
]
