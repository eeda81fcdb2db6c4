import re
from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script
from props.c19 import content, lf_lines, size

FB = 'request_parser.files.base.'
tchar = st.sampled_from(['\r', '\n', '\r\n', 'a', 'bc', '\x0b', '\x85', '\u2028', '\xe9', '\u20ac', '\n\r', ' '])
textual = st.lists(tchar, max_size=20).map(''.join)
op = st.one_of(
    st.tuples(st.just('read'), st.one_of(st.none(), st.integers(0, 40))), st.tuples(st.just('readline'), st.none()), st.tuples(st.just('seek'), st.integers(0, 40)), st.tuples(st.just('tell'), st.none()),
    st.tuples(st.just('chunks'), st.one_of(st.none(), size)), st.tuples(st.just('lines'), st.none()), st.tuples(st.just('take'), st.integers(1, 3)), st.tuples(st.just('partial'), size),
    st.tuples(st.just('open'), st.none()), st.tuples(st.just('size'), st.none()), st.tuples(st.just('size'), st.none()), st.tuples(st.just('multiple'), st.one_of(st.none(), st.integers(1, 60))),
    st.tuples(st.just('default'), size), st.tuples(st.just('write'), content), st.tuples(st.just('write'), content))
KINDS = ['bytesio', 'bytesio', 'real', 'temp', 'temp', 'content', 'content', 'content', 'text', 'text', 'stream', 'file', 'inner']


@st.composite
def case(draw):
    kind = draw(st.sampled_from(KINDS))
    ops = draw(st.lists(op, min_size=1, max_size=9))
    if kind == 'text':
        ops = [o for o in ops if o[0] not in ('write', 'tell', 'seek')]
    if kind == 'stream':
        ops = [o for o in ops if o[0] in ('chunks', 'lines', 'default', 'partial', 'take')]
    if kind in ('real', 'file', 'inner'):
        ops = [o for o in ops if o[0] != 'write']
    return {'kind': kind, 'content': draw(textual if kind == 'text' else content), 'ops': ops, 'name': draw(st.sampled_from([None, None, '', 'n.txt', 'dir/n.txt'])), 'end': draw(st.sampled_from(['close', 'with'])),
            'mode': draw(st.sampled_from([None, 'rb']))}


def lines(t):
    """Lines end with LF, CR LF, or CR alone."""
    return re.findall(r'[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+' if isinstance(t, str) else rb'[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+', t)


def joined(x, empty):
    return empty.join(x)


def check(ctx, c):
    data, kind = c['content'], c['kind']
    empty = data[:0]
    s = Script()
    args = [] if c['name'] is None else [c['name'].encode()]
    own = None
    if kind in ('content', 'text'):
        f = s.new(FB + 'ContentFile', data, *args)
    else:
        if kind == 'stream':
            under = s.new('h.chunks', chunks_of(data, [3, 9]))
        elif kind == 'temp':
            under = s.new('h.namedtemp', data)
            own = s.get(under, 'name')
        else:
            under = s.new('h.realfile' if kind in ('real', 'file') else 'h.bytesio', data)
            own = s.get(under, 'name') if kind in ('real', 'file') else None
            if kind in ('file', 'inner'):
                # a file around a file, with a name or without
                under = s.new(FB + 'File', under)
        f = s.new(FB + 'File', under, *args)
    todo = []
    still = [s.get(f, 'closed'), s.call(f, 'readable')] if kind != 'stream' else []
    pos, known, default = 0, True, 65536
    names = [s.get(f, 'name'), s.func('h.truth', f), s.func('__builtin__.str', f), s.func('__builtin__.repr', f)]

    def want(step, value, what):
        todo.append((step, value, what))
    once = False        # a stream can be read once
    for o, a in c['ops']:
        n = len(data)
        if kind == 'stream' and o in ('chunks', 'lines', 'partial', 'take'):
            if once:
                break
            once = True
        if o in ('read', 'readline', 'tell', 'write') and not known:
            continue
        if o == 'read':
            v = data[pos:] if a is None else data[pos:pos + a]
            pos += len(v)
            want(s.call(f, 'read', *([] if a is None else [a])), v, 'read(%s)' % a)
        elif o == 'readline':
            v = (re.findall('[^\n]*\n|[^\n]+', data[pos:]) if kind == 'text' else lf_lines(data[pos:])) or [empty]
            pos += len(v[0])
            want(s.call(f, 'readline'), v[0], 'readline()')
        elif o == 'seek':
            s.call(f, 'seek', min(a, n))
            pos, known = min(a, n), True
        elif o == 'tell':
            want(s.call(f, 'tell'), pos, 'tell()')
        elif o == 'write':
            if kind == 'temp':
                s.call(f, 'seek', pos)
            s.call(f, 'write', a)
            if kind == 'temp':
                s.call(f, 'flush')
            data = data[:pos] + a + data[pos + len(a):]
            pos += len(a)
            if kind == 'temp':
                s.call(f, 'seek', pos)
            want(s.get(f, 'size'), len(data), 'size after writing')
            want(s.call(f, 'tell'), pos, 'tell() after size')
        elif o == 'chunks':
            k = a or default
            step = s.call(f, 'chunks', *([] if a is None else [a]))
            want(step, (data, k) if kind == 'stream' else [data[i:i + k] for i in range(0, n, k)], 'chunks(%s)' % a)
            pos, known = n, True
        elif o == 'partial':
            it = s.callnew(f, 'chunks', a)
            if kind != 'stream':
                want(s.func('h.take', it, 1), [data[:a]] if n else [], 'the first of chunks(%s)' % a)
            else:
                want(s.func('h.items', it), (data, a), 'chunks(%s)' % a)
            known = False
        elif o == 'lines':
            want(s.func('h.items', f), lines(data), 'iteration with chunks of %d' % default)
            known = False
        elif o == 'take':
            want(s.func('h.take', f, a), lines(data)[:a], 'the first %d of iteration with chunks of %d' % (a, default))
            known = False
        elif o == 'open':
            want(s.func('h.same', s.callnew(f, 'open'), f), True, 'open()')
            pos, known = 0, True
        elif o == 'size':
            want(s.get(f, 'size'), n, 'size')
            want(s.func('h.length', f), n, 'len()')
        elif o == 'multiple':
            want(s.call(f, 'multiple_chunks', *([] if a is None else [a])), n > (a or default), 'multiple_chunks(%s)' % a)
        elif o == 'default':
            s.set(f, 'DEFAULT_CHUNK_SIZE', a)
            default = a
    nosize = s.get(f, 'size') if kind == 'stream' else None
    if kind != 'stream':
        s.call(f, 'seek', 0)
        want(s.call(f, 'read'), data, 'reading all after seek(0)')
        if c['end'] == 'with':
            want(s.func('h.with_', f), True, 'use in a with statement')
        else:
            s.call(f, 'close')
    closed = s.get(f, 'closed')
    reopened = s.callnew(f, 'open', *([c['mode']] if c['mode'] else []))
    rename = c['name'] is None and kind in ('real', 'file')
    again = s.call(f, 'read') if kind in ('content', 'text') or rename else None
    s.call(f, 'close')
    res = ctx.run(s)
    for step, value, what in todo:
        if isinstance(value, tuple):
            got = ctx.ok(res[step], what)
            if b''.join(got) != value[0] or any(not 0 < len(x) <= value[1] for x in got):
                ctx.fail('%s: got %r, content %r', what, got, value[0])
        else:
            got = ctx.ok(res[step], what)
            if value == '' and got == b'':
                got = ''
            ctx.eq(got, value, what)
    name = c['name'] if c['name'] is not None else as_str(res[own]) if own is not None else None
    got = [as_str(ctx.ok(res[x], 'name, truth value and texts')) if isinstance(res[x], (bytes, str)) else res[x] for x in names]
    cls = 'ContentFile' if kind in ('content', 'text') else 'File'
    if cls == 'ContentFile':
        ctx.eq(got, [name, True, 'Raw content', '<ContentFile: Raw content>'], 'name, truth value and texts')
    else:
        ctx.eq(got, [name, bool(name), name or '', '<File: %s>' % (name or 'None')], 'name, truth value and texts')
    if kind == 'stream':
        if not (isinstance(res[nosize], Exc) and res[nosize].isa('AttributeError')):
            ctx.fail('size of a stream: %r', res[nosize])
    else:
        ctx.eq(ctx.ok(res[closed], 'closed'), cls == 'File', 'closed after close()')
        if cls == 'ContentFile' or rename:
            ctx.ok(res[reopened], 'reopening')
            got = ctx.ok(res[again], 'reading after reopening')
            ctx.eq(got if len(data) else empty, data, 'reading after reopening')
        elif not (isinstance(res[reopened], Exc) and res[reopened].isa('ValueError')):
            ctx.fail('reopening a closed file without a path: %r', res[reopened])
    ctx.eq([res[x] for x in still], [False, True][:len(still)], 'closed and readable() while open')
    kinds = {o for o, _ in c['ops']}
    ctx.label(kind, 'named' if name else 'nameless', *kinds)
    ctx.nt(len(c['content']) > 1 and len(kinds) > 1)


PARTS = [
    Part('model', case(), check, 'sequences of reads, writes, iteration, chunks, seeks and reopening on files made over byte streams, open files, temporary files, other files and content, against a model; '
         'non-trivial: two or more bytes and kinds of operation', 2500, 40000),
]
