from hypothesis import assume, strategies as st
from core import Part
from gen import *
from jy import Exc, Script
from props import c10, c12, c13

HANDLERS = [['ConvC'], ['ConvC'], ['TempC'], ['MemC', 'TempC']]


@st.composite
def case(draw):
    b = draw(boundaries).encode()
    ps = draw(st.lists(st.one_of(part(b, ('file', 'file', 'field'), big=False), c13.b64part(b, ('file',))), min_size=1, max_size=5))
    body = body_bytes(b, ps, b'', draw(c10.EPI))
    assume(c10.usable(b, body, ps))
    c = {'boundary': b, 'parts': ps, 'body': body, 'handlers': draw(st.sampled_from(HANDLERS)), 'chunk': draw(st.sampled_from([65536, 64, 5])), 'before': None, 'fields': None, 'max': None, 'fail': None}
    nfiles = len([p for p in ps if p['kind'] == 'file'])
    c['trouble'] = draw(st.sampled_from(['none', 'none', 'handler', 'handler', 'damage', 'limits', 'stream', 'base64']))
    if c['trouble'] == 'handler':
        acts = [[draw(st.integers(0, max(0, nfiles - 1))), draw(st.sampled_from(['new', 'data', 'data'])), draw(st.sampled_from(['skip', 'stop', 'reset', 'error']))] for _ in range(draw(st.integers(1, 2)))]
        c['before'] = {'acts': acts, 'chunk_size': c['chunk']}
        c['after'] = draw(st.booleans())
    elif c['trouble'] == 'damage':
        c['body'] = c12.mutate(draw, body, b, draw(st.integers(1, 3)))
    elif c['trouble'] == 'limits':
        c['fields'] = draw(st.sampled_from([None, 0, 1, 2]))
        c['max'] = draw(st.sampled_from([None, 0, 10, 30]))
    elif c['trouble'] == 'stream':
        c['fail'] = draw(st.integers(0, 1000))
    elif c['trouble'] == 'base64':
        q = draw(c13.b64part(b, ('file',), True))
        c['parts'] = ps = ps + [q]
        c['body'] = body_bytes(b, ps)
        assume(c10.usable(b, c['body'], ps))
    c['limit'] = draw(st.sampled_from([0, 0, 5, 20, 10 ** 6]))
    c['close'] = draw(st.lists(st.one_of(st.integers(0, 6), st.just('request')), min_size=1, max_size=5))
    c['sub'] = draw(st.booleans())
    return c


def check(ctx, c):
    data = form_request(c['boundary'], c['body'], length=max(1, len(c['body'])))
    s = Script()
    s.func('jyhandlers.set_chunk', c['chunk'])
    d = s.new('h.tmpdir')
    up = s.new('os.path.join', d, 'sub') if c['sub'] else d
    hs = ['jyhandlers.' + h for h in c['handlers']]
    if c['before']:
        s.func('h.configure_handlers', [c['before']])
        hs = hs + ['jyhandlers.H0'] if c['after'] and c['handlers'] != ['MemC', 'TempC'] else ['jyhandlers.H0'] + hs
    cfg = s.new('h.settings', None, FILE_UPLOAD_HANDLERS=hs, FILE_UPLOAD_TEMP_DIR=up, FILE_UPLOAD_MAX_MEMORY_SIZE=c['limit'],
                DATA_UPLOAD_MAX_NUMBER_FIELDS=c['fields'], DATA_UPLOAD_MAX_MEMORY_SIZE=c['max'])
    if c['fail'] is None:
        stream = s.new('h.bytesio', data)
    else:
        head = data.index(b'\r\n\r\n') + 4
        rest = data[head:]
        n = max(1, len(rest) // 7)
        pieces = [rest[i:i + n] for i in range(0, len(rest), n)]
        stream = s.new('h.chunks', [data[:head]] + pieces, 1 + c['fail'] * len(pieces) // 1000, ['IOError', [b'gone']])
    r = s.new(HR, stream, cfg)
    p = s.call(r, 'parse')
    ls0 = s.func('h.walk', d)
    v = s.func('h.view_form', r)
    lists = s.new('h.all_files', r)
    steps = []
    for what in c['close']:
        if what == 'request':
            done = s.call(r, 'close')
        else:
            done = s.call(s.new('h.nth', lists, what), 'close')
        steps.append((what, done, s.func('h.walk', d)))
    last = s.call(r, 'close'), s.call(r, 'close'), s.func('h.walk', d)
    res = ctx.run(s)
    form = ctx.ok(res[v], 'reading')
    files = [f for k, l in form['FILES'] for f in l]
    if isinstance(res[p], Exc):
        ctx.eq(files, [], 'files of a refused upload')
    elif c['trouble'] in ('none',):
        expect_form(ctx, form, c['parts'])
    disk = {i: name(f) for i, f in enumerate(files) if f['disk']}
    ctx.eq(sorted(map(base, res[ls0])), sorted(disk.values()), 'files in the directory after parsing (%r)' % (res[p],))
    for i, f in enumerate(files):
        if f['size'] != len(f['content']):
            ctx.fail('file %d has %d bytes, reported size %d', i, len(f['content']), f['size'])
    gone = False
    for what, done, ls in steps:
        if what == 'request':
            ctx.ok(res[done], 'closing the request')
            disk = {}
        elif what < len(files):
            ctx.ok(res[done], 'closing file %d' % what)
            disk.pop(what, None)
        ctx.eq(sorted(map(base, res[ls])), sorted(disk.values()), 'files in the directory after closing %r' % (what,))
    ctx.ok(res[last[0]], 'closing the request')
    ctx.ok(res[last[1]], 'closing the request again')
    ctx.eq(res[last[2]], [], 'files in the directory at the end')
    nd = len([f for f in files if f['disk']])
    ctx.label(c['trouble'], 'refused: ' + res[p].type if isinstance(res[p], Exc) else 'accepted', 'on disk' if nd else '', 'some on disk, some in memory' if 0 < nd < len(files) else '')
    ctx.nt(nd > 0 or c['trouble'] != 'none' and any(q['kind'] == 'file' for q in c['parts']))


def base(n):
    return as_str(n).rpartition('/')[2]


def name(f):
    return base(f['path'])


PARTS = [Part('lifetime', case(), check, 'uploads with limits, interfering handlers, damaged bodies, failing streams, and sequences of closing; non-trivial: a file on disk, or an interfered upload with a file',
              3000, 50000)]
