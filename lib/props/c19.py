import re
from hypothesis import assume, strategies as st
from core import Part
from gen import *
from jy import Exc, Script

piece = st.sampled_from([b'\r', b'\n', b'\r\n', b'\r', b'\n', b'\r\n', b'a', b'bc', b'\x00', b'\xff', b'\x0b', b'\x0c', b'\x1c', b'\x85', b'\xe2\x80\xa8', b'\n\r', b'\r\r'])
content = st.one_of(st.lists(piece, max_size=25).map(b''.join), st.lists(piece, max_size=25).map(b''.join), st.binary(max_size=30))
size = st.one_of(st.integers(1, 9), st.integers(1, 60))
op = st.one_of(
    st.tuples(st.just('read'), st.one_of(st.none(), st.integers(0, 40))), st.tuples(st.just('readline'), st.one_of(st.none(), st.integers(0, 20))),
    st.tuples(st.just('readlines'), st.none()), st.tuples(st.just('seek'), st.integers(0, 40)), st.tuples(st.just('seek'), st.just(0)), st.tuples(st.just('seekend'), st.none()), st.tuples(st.just('tell'), st.none()),
    st.tuples(st.just('chunks'), st.one_of(st.none(), size)), st.tuples(st.just('chunks'), size), st.tuples(st.just('lines'), st.none()), st.tuples(st.just('lines'), st.none()), st.tuples(st.just('take'), st.integers(1, 3)),
    st.tuples(st.just('open'), st.none()), st.tuples(st.just('size'), st.none()), st.tuples(st.just('multiple'), st.one_of(st.none(), st.integers(1, 60))), st.tuples(st.just('default'), size), st.tuples(st.just('partial'), size))


@st.composite
def case(draw):
    return {'content': draw(content), 'how': draw(st.sampled_from(['upload-mem', 'upload-disk', 'upload-disk', 'upload-temp', 'simple', 'dict', 'temp'])), 'ops': draw(st.lists(op, min_size=1, max_size=10)),
            'end': draw(st.sampled_from(['close', 'close', 'with'])), 'reopen': draw(st.sampled_from([(), ('rb',), ('w+b',)])), 'split': draw(st.sampled_from([65536, 1, 3, 50]))}


def make(s, c):
    U = 'request_parser.files.uploadedfile.'
    d = s.new('h.tmpdir')
    if c['how'] == 'simple':
        return s.new(U + 'SimpleUploadedFile', b'n', c['content']), False
    if c['how'] == 'dict':
        return s.new(U + 'SimpleUploadedFile.from_dict', {b'filename': b'n', b'content': c['content'], b'content-type': b'x/y'}), False
    if c['how'] == 'temp':
        f = s.new(U + 'TemporaryUploadedFile', b'n.txt', b'text/plain', len(c['content']), None, s.new('h.settings', None, FILE_UPLOAD_TEMP_DIR=d))
        s.call(f, 'write', c['content'])
        s.call(f, 'seek', 0)
        return f, True
    s.func('jyhandlers.set_chunk', c['split'])
    handlers = ['jyhandlers.TempC'] if c['how'] == 'upload-temp' else ['jyhandlers.ConvC']
    limit = {'upload-mem': 10 ** 7, 'upload-disk': max(0, len(c['content']) - 1), 'upload-temp': 0}[c['how']]
    cfg = s.new('h.settings', None, FILE_UPLOAD_TEMP_DIR=d, FILE_UPLOAD_HANDLERS=handlers, FILE_UPLOAD_MAX_MEMORY_SIZE=limit)
    body = body_bytes(b'BOUND-ARY', [{'kind': 'file', 'name': b'f', 'content': c['content'], 'ctype': None, 'params': [], 'cte': None, 'style': 0, 'filename': b'n.txt'}])
    r, _ = fast_parse(s, form_request(b'BOUND-ARY', body), cfg)
    disk = c['how'] == 'upload-temp' or c['how'] == 'upload-disk' and bool(c['content'])
    return s.new('h.getitem', s.getnew(r, 'FILES'), b'f'), disk


def lines(b):
    """Lines end with LF, CR LF, or CR alone."""
    return re.findall(rb'[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+', b)


def lf_lines(b):
    return re.findall(rb'[^\n]*\n|[^\n]+', b)


def check(ctx, c):
    data = c['content']
    n = len(data)
    s = Script()
    f, disk = make(s, c)
    todo = []
    pos, known, default = 0, True, 65536

    def want(step, value, what):
        todo.append((step, value, what))

    want(s.get(f, 'size'), n, 'size')
    for o, a in c['ops']:
        if o in ('read', 'readline', 'readlines', 'tell') and not known:
            continue
        if o == 'read':
            step = s.call(f, 'read', *([] if a is None else [a]))
            v = data[pos:] if a is None else data[pos:pos + a]
            pos = min(max(pos, n), max(pos, pos + len(v))) if v else pos
            want(step, v, 'read(%s)' % a)
        elif o == 'readline':
            l = (lf_lines(data[pos:]) or [b''])[0]
            v = l if a is None else l[:a]
            pos += len(v)
            want(s.call(f, 'readline', *([] if a is None else [a])), v, 'readline(%s)' % a)
        elif o == 'readlines':
            want(s.call(f, 'readlines'), lf_lines(data[pos:]), 'readlines()')
            pos = max(pos, n)
        elif o == 'seek':
            s.call(f, 'seek', min(a, n))
            pos, known = min(a, n), True
        elif o == 'seekend':
            s.call(f, 'seek', 0, 2)
            pos, known = n, True
        elif o == 'tell':
            want(s.call(f, 'tell'), pos, 'tell()')
        elif o == 'chunks':
            step = s.call(f, 'chunks', *([] if a is None else [a]))
            k = a or default
            todo.append((step, ('chunks', [data[i:i + k] for i in range(0, n, k)] if disk else data), 'chunks(%s)' % a))
            pos, known = n, True
        elif o == 'partial':
            it = s.callnew(f, 'chunks', a)
            step = s.func('h.take', it, 1)
            want(step, [data[:a] if disk else data] if n else [] if disk else [b''], 'the first of chunks(%s)' % a)
            known = False
        elif o == 'lines':
            want(s.func('h.items', f), lines(data), 'iteration with chunks of %d' % default)
            known = False
        elif o == 'take':
            want(s.func('h.take', f, a), lines(data)[:a], 'the first %d of iteration with chunks of %d' % (a, default))
            known = False
        elif o == 'open':
            todo.append((s.func('h.same', s.callnew(f, 'open'), f), True, 'open()'))
            pos, known = 0, True
        elif o == 'size':
            want(s.get(f, 'size'), n, 'size')
            want(s.func('h.length', f), n, 'len()')
        elif o == 'multiple':
            want(s.call(f, 'multiple_chunks', *([] if a is None else [a])), disk and n > (a or default), 'multiple_chunks(%s)' % a)
        elif o == 'default':
            s.set(f, 'DEFAULT_CHUNK_SIZE', a)
            default = a
    s.call(f, 'seek', 0)
    want(s.call(f, 'read'), data, 'reading all after seek(0)')
    able = [s.func('h.truth', f)] + [s.call(f, x) for x in ('readable', 'writable', 'seekable')]
    kept = b'a file that happens to be called like the upload'
    name = b'n.txt' if c['how'].startswith(('upload', 'temp')) else b'n'
    s.func('h.putfile', name, kept)
    if c.get('end') == 'with':
        want(s.func('h.with_', f), True, 'use in a with statement')
    else:
        s.call(f, 'close')
    closed = [s.get(f, 'closed')] + [s.call(f, x) for x in ('readable', 'writable', 'seekable')]
    reopened = s.call(f, 'open', *c.get('reopen', ()))
    s.call(f, 'close')
    want(s.func('h.readfile', name), kept, 'a file with the name of the upload, after it was reopened')
    s.func('h.unlink', name)
    res = ctx.run(s)
    for step, value, what in todo:
        if isinstance(value, tuple):
            got = ctx.ok(res[step], what)
            if b''.join(got) != data or disk and got != value[1]:
                ctx.fail('%s: got %r, content %r', what, got, data)
        else:
            ctx.eq(res[step], value, what)
    ctx.eq([res[x] for x in able], [True] * 4, 'truth value, readable(), writable() and seekable()')
    ctx.eq([res[x] for x in closed], [True] + [False] * 3, 'after closing: closed, readable(), writable() and seekable()')
    if not (isinstance(res[reopened], Exc) and res[reopened].isa('ValueError')):
        ctx.fail('reopening the closed file: %r', res[reopened])
    kinds = {o for o, _ in c['ops']}
    ctx.label(c['how'], 'on disk' if disk else 'in memory', *kinds)
    ctx.nt(n > 1 and len(kinds) > 1)


@st.composite
def bigcase(draw):
    n = draw(st.sampled_from([65536, 131072, 200000, 500000])) + draw(st.integers(-3, 3))
    unit = draw(st.sampled_from([b'x', b'x', b'x' * 150000 + b'\n', b'x' * 150000 + b'\r', b'line\n', b'abc\r\n', b'ab\r', b'\r\n', b'x' * 5000 + b'\r\n']))
    data = (unit * (n // len(unit) + 1))[:n]
    at = draw(st.integers(65532, 65538))
    mark = draw(st.sampled_from([b'\r\n', b'\r', b'\n', b'\r\r\n', b'\n\r', b'']))
    data = data[:at] + mark + data[at + len(mark):]
    return {'content': data + draw(st.sampled_from([b'', b'\r', b'\n', b'end'])), 'how': draw(st.sampled_from(['upload-disk', 'temp', 'upload-mem'])), 'split': 65536,
            'ops': draw(st.lists(st.sampled_from([('chunks', None), ('lines', None), ('read', None), ('multiple', None), ('chunks', 65536), ('chunks', 1000), ('size', None)]), min_size=2, max_size=4))}


PARTS = [
    Part('model', case(), check, 'sequences of reads, iteration, chunks, seeks and reopening on every kind of uploaded file, against a byte string; non-trivial: two or more bytes and kinds of operation', 3000, 50000),
    Part('big', bigcase(), check, 'contents with line ends around the 64 KiB chunk edge; non-trivial as above', 60, 1200),
]
