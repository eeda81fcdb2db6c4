from hypothesis import assume, strategies as st
from core import Part
from gen import *
from jy import Exc, Script
from props import c10, c11
from props.c22 import norm_

DETAILS = st.one_of(st.sampled_from([[], ['gone'], [104, 'Connection reset by peer'], [5, 'Input/output error'], ['a', 'b'], [None], [0]]),
                    st.lists(st.one_of(st.integers(-5, 500), txt(ALNUM, 0, 6)), max_size=2))
FKINDS = st.sampled_from(['chunks', 'once', 'generator'])


@st.composite
def split(draw, data, hot):
    """Chunks, and the number of the chunk that is never delivered; cuts often near the given offsets."""
    pts = set(draw(st.lists(st.one_of(st.integers(0, len(data)), st.builds(lambda h, d: h + d, st.sampled_from(hot), st.integers(-4, 4))), max_size=8)))
    pts = sorted(p for p in pts if 0 < p < len(data))
    chunks = [data[i:j] for i, j in zip([0] + pts, pts + [len(data)])]
    return chunks, draw(st.integers(0, len(chunks)))


def want_args(c):
    return [norm_(x) for x in c['details']]


def is_failure(ctx, v, c, what, types=('IOError',)):
    if not isinstance(v, Exc):
        ctx.fail('%s: the stream failed, but the result is %r', what, v)
    if not v.isa(*types):
        ctx.fail('%s: the stream failed with an I/O error, but what is raised is %r', what, v)
    if v.isa('IOError') and [norm_(x) for x in v.args or []] != want_args(c):
        ctx.fail('%s: raised %r, the stream failed with %r', what, v, c['details'])


OPS = st.lists(st.one_of(st.tuples(st.just('read'), st.integers(1, 30)), st.just(('readline',)), st.tuples(st.just('readline'), st.integers(1, 20)),
                         st.just(('readlines',)), st.just(('xreadlines',)), st.just(('body',)), st.just(('iterate',)), st.just(('read',))), min_size=1, max_size=6)


@st.composite
def rawcase(draw):
    c = draw(whole(kinds=('plain', 'plain', 'form')))
    data = c['head'] + c['body']
    c['chunks'], c['at'] = draw(split(data, [len(c['head']), len(data)]))
    c.update(fk=draw(FKINDS), details=draw(DETAILS), size=draw(st.sampled_from([16, 16, 1, 5, 100, 4096])), ops=draw(OPS), how=draw(st.sampled_from(['ops', 'ops', 'parse', 'body'])))
    c['data'] = None
    return c


@st.composite
def linecase(draw):
    """The stream fails after some of the lines of the body have arrived."""
    c = draw(whole(kinds=('plain', 'form'), bodies=st.just(b'')))
    lines = draw(st.lists(st.sampled_from([b'\n', b'ab\n', b'a=b&c=d\n', b'x' * 70 + b'\n', b'a\r\n', b'\r', b'tail']), min_size=1, max_size=7))
    c['body'] = b''.join(lines)
    h, n = len(c['head']), len(c['head']) + len(c['body'])
    data = c['head'] + c['body']
    pts = sorted({p for p in draw(st.lists(st.integers(h, n), max_size=4)) if p < n})
    c['chunks'] = [data[i:j] for i, j in zip([0] + pts, pts + [n])]
    c['at'] = draw(st.integers(1, len(c['chunks'])))
    first = draw(st.sampled_from([('readlines',), ('iterate',), ('xreadlines',), ('read',), ('body',), ('readline',), ('read', 3)]))
    c.update(fk=draw(FKINDS), details=draw(DETAILS), size=draw(st.sampled_from([1, 16, 16, 100])), ops=[first] + draw(OPS), how='ops')
    c['data'] = None
    return c


def begin(s, c, **attrs):
    stream = s.new('h.failing', c['fk'], c['chunks'], c['at'], ['IOError', c['details']])
    cfg = s.new('h.settings', None, MAX_HEADER_SIZE=c['size'], DATA_UPLOAD_MAX_MEMORY_SIZE=None, FILE_UPLOAD_TEMP_DIR=s.new('h.tmpdir'), **attrs)
    return s.new(HR, stream, cfg)


def head_outcome(ctx, c, v):
    """True: the head was parsed and had to be or may be; False: it failed, as it had to or may."""
    got = sum(len(x) for x in c['chunks'][:c['at']])
    need = -(-len(c['head']) // c['size']) * c['size']
    if isinstance(v, Exc):
        if got >= need:
            ctx.fail('the head arrived before the stream failed, but parsing it raised %r', v)
        is_failure(ctx, v, c, 'parsing the head')
        return False
    if got < len(c['head']):
        ctx.fail('the stream failed within the head after %d bytes, but it is parsed', got)
    return True


def rawcheck(ctx, c):
    s = Script()
    r = begin(s, c)
    h = s.call(r, 'parse_request_header')
    steps = []
    if c['how'] == 'ops':
        for o in c['ops']:
            if o[0] == 'iterate':
                it = s.func('__builtin__.list', r)
                steps.append((o, it))
            elif o[0] == 'xreadlines':
                steps.append((o, s.func('__builtin__.list', s.callnew(r, 'xreadlines'))))
            else:
                steps.append((o, s.call(r, *o)))
    else:
        steps.append(((c['how'],), s.call(r, c['how'])))
    post, files = s.get(r, 'POST'), s.get(r, 'FILES')
    last = [s.call(r, 'body'), s.call(r, 'body')]
    p2 = s.call(r, 'parse')
    again = s.call(r, 'read', 5)
    res = ctx.run(s)
    ok = head_outcome(ctx, c, res[h])
    if not ok:
        for i in last + [again]:
            if not isinstance(res[i], Exc) and i != again:
                ctx.fail('the head could not be read, but the body is %r', res[i])
        if not isinstance(res[p2], Exc):
            ctx.fail('the head could not be read, but parsing again succeeds')
        ctx.label('failed in the head')
        ctx.nt()
        return
    body = c['body']
    got = sum(len(x) for x in c['chunks'][:c['at']]) - len(c['head'])
    seen = b''
    failed = False
    for o, i in steps:
        v = res[i]
        name = ' '.join(map(str, o))
        if o[0] in ('readlines', 'iterate', 'xreadlines', 'body', 'parse') or o == ('read',) or failed:
            # these need the end of the input, which is never reached
            if o[0] == 'parse':
                is_failure(ctx, v, c, name)
            else:
                is_failure(ctx, v, c, name, ('UnreadablePostError',))
            failed = True
        elif isinstance(v, Exc):
            is_failure(ctx, v, c, name, ('UnreadablePostError',))
            n = o[1] if len(o) > 1 else None
            rest = body[len(seen):got]
            if o[0] == 'read' and len(rest) >= n or o[0] == 'readline' and (b'\n' in rest or n is not None and len(rest) >= n):
                ctx.fail('%s raised %r although %d bytes had arrived', name, v, len(rest))
            failed = True
        else:
            v = v if isinstance(v, bytes) else v.encode('latin-1')
            n = o[1] if len(o) > 1 else None
            if o[0] == 'readline':
                end = body.find(b'\n', len(seen))
                want = body[len(seen):len(body) if end < 0 else end + 1][:n]
            else:
                want = body[len(seen):len(seen) + n]
            if v != want or not v.endswith(b'\n') and (n is None or len(v) < n):
                ctx.fail('%s gives %r, which is not the next part of the body %r; the stream failed after %d bytes', name, v, body, got)
            seen += v
    for i in last:
        is_failure(ctx, res[i], c, 'body()', ('UnreadablePostError',))
    is_failure(ctx, res[p2], c, 'parsing')
    is_failure(ctx, res[again], c, 'reading on', ('UnreadablePostError',))
    for i in (post, files):
        if res[i]:
            ctx.fail('the body could not be read, but form data is reported: %r', res[i])
    ctx.label(c['how'], c['fk'], 'failed at the end' if c['at'] == len(c['chunks']) else 'failed in the body', 'failed while reading piecewise' if failed and seen else '')
    ctx.nt(len(body) > 0)


# every position of a short request
SHORT = b'POST /a?b=c HTTP/1.1\r\nHost: h\r\n\r\n'


def every():
    out = []
    for body in (b'ab\ncd\r\n\r\ne', b''):
        d = SHORT + body
        for i in range(len(d) + 1):
            for ops in ([('body',)], [('read', 3), ('readline',), ('read', 1)]):
                out.append({'kind': 'plain', 'head': SHORT, 'body': body, 'chunks': [x for x in (d[:i], d[i:]) if x], 'at': 1 if i else 0, 'fk': ('chunks', 'once', 'generator')[i % 3],
                            'details': [i, 'x'], 'size': (1, 16, 100)[i // 3 % 3], 'ops': ops, 'how': 'ops'})
    return out


@st.composite
def formcase(draw):
    c = draw(c10.case(('field', 'file'), maxparts=4))
    c.pop('charset')
    c['epi'] = c['epi'] if draw(st.booleans()) else b'\r\n'
    data = c10.request(dict(c))
    c['head'] = data[:data.index(b'\r\n\r\n') + 4]
    hot = [len(c['head']), len(data), len(data) - len(c['epi'])] + [m.start() for m in re.finditer(re.escape(b'--' + c['boundary']), data)]
    c['chunks'], c['at'] = draw(split(data, hot))
    c.update(fk=draw(FKINDS), details=draw(DETAILS), size=draw(st.sampled_from([16, 16, 1, 100, 4096])), rec=draw(st.booleans()), disk=draw(st.booleans()), before=draw(st.sampled_from([False, False, True])))
    return c


def formcheck(ctx, c):
    data = b''.join(c['chunks'])
    s = Script()
    attrs = {}
    if c['rec']:
        s.func('h.configure_handlers', [{'acts': [(None, 'complete', 'obj')], 'chunk_size': 64}])
        attrs['FILE_UPLOAD_HANDLERS'] = ['jyhandlers.H0']
    elif c['disk']:
        attrs['FILE_UPLOAD_HANDLERS'] = c11.HANDLERS['temporary']
    r = begin(s, c, **attrs)
    h = s.call(r, 'parse_request_header')
    b0 = s.call(r, 'body') if c['before'] else None
    p = s.call(r, 'parse')
    log = s.func('h.handler_log')
    v = s.func('h.view_form', r)
    b = s.call(r, 'body')
    p2 = s.call(r, 'parse')
    v2 = s.func('h.view_form', r)
    s.call(r, 'close')
    res = ctx.run(s)
    ok = head_outcome(ctx, c, res[h])
    got = sum(len(x) for x in c['chunks'][:c['at']])
    closing = len(data) - len(c['epi'])
    if b0 is not None and ok:
        is_failure(ctx, res[b0], c, 'body()', ('UnreadablePostError',))
    if not isinstance(res[p], Exc):
        if got < closing:
            ctx.fail('the stream failed after %d of %d bytes, before the closing boundary, but the form is parsed: %r', got, len(data), res[v])
        if not c['rec']:
            expect_form(ctx, ctx.ok(res[v], 'reading the form'), c['parts'])
    elif ok:
        is_failure(ctx, res[p], c, 'parsing the form')
    if isinstance(res[p], Exc):
        if not isinstance(res[p2], Exc):
            ctx.fail('parsing raised %r, and parsing again succeeded', res[p])
        for i in (v, v2):
            ctx.eq(res[i], {'POST': [], 'FILES': []}, 'form data after the stream failed')
        if not isinstance(res[b], Exc):
            ctx.fail('the stream failed while the form was parsed, but body() is %r', res[b])
        if not res[b].isa('UnreadablePostError', 'RawPostDataException') and ok:
            ctx.fail('body() raises %r', res[b])
    if c['rec']:
        whole_ = 0      # files that had arrived with the start of the next delimiter
        pos = len(c['head'])
        for q in c['parts']:
            end = data.index(part_bytes(q), pos) + len(part_bytes(q))
            pos = end
            if q['kind'] == 'file' and got >= end:
                whole_ += 1
        n = sum(1 for e in res[log] if e[1] == 'complete')
        if n > whole_:
            ctx.fail('%d files had arrived when the stream failed, but %d were reported complete to the upload handler', whole_, n)
        if got < closing and any(e[1] == 'end' for e in res[log]):
            ctx.fail('the upload was reported complete to the upload handler, although the stream failed before its end')
    ctx.label('failed in the head' if not ok else 'failed in the form' if isinstance(res[p], Exc) else 'failed after the form', 'recording handler' if c['rec'] else '', c['fk'],
              'after a complete part' if len(c['head']) < got < closing and data[len(c['head']):got].count(b'--' + c['boundary']) > 1 else '')
    ctx.nt(ok and bool(c['parts']))


PARTS = [
    Part('raw', rawcase(), rawcheck, 'requests without form parts over a stream that fails before a generated chunk (or at the end), read in several ways, then again; non-trivial: failure in the head or a non-empty body', 1500, 24000, examples=every()),
    Part('lines', linecase(), rawcheck, 'bodies of lines of which some have arrived when the stream fails, read in several ways; non-trivial as above', 600, 10000),
    Part('form', formcase(), formcheck, 'multipart forms over a failing stream, with the library\'s handlers or a recording one; non-trivial: the head arrived and the form has parts', 1200, 20000),
]
