from hypothesis import assume, strategies as st
from core import Part
from gen import *
from jy import Exc, Script
from props import c10, c13

FILE_CHUNKS = st.sampled_from([65536, 65536, 1000, 100, 13, 4])


@st.composite
def case(draw):
    b = draw(boundaries).encode()
    ps = []
    for _ in range(draw(st.integers(1, 5))):
        p = draw(part(b, ('file', 'file', 'file', 'field'), big=False) if draw(st.integers(0, 4)) else c13.b64part(b, ('file',)))
        if p['kind'] == 'file' and 'wire' not in p and draw(st.booleans()):
            p['content'] = scrub(draw(st.sampled_from([b'x', b'\r\n', b'abc\r\n--'])) * draw(st.integers(0, 600)), b)
        ps.append(p)
    c = {'boundary': b, 'parts': ps, 'pre': b'', 'epi': b'\r\n'}
    assume(c10.usable(b, body_bytes(b, ps), ps))
    sums = [0]
    for p in ps:
        if p['kind'] == 'file':
            sums.append(sums[-1] + len(p['content']))
    c['chain'] = draw(st.sampled_from(['default', 'conv', 'conv', 'conv', 'chain', 'chain', 'temp', 'mem']))
    n = len(body_bytes(b, ps))
    c['length'] = n if draw(st.booleans()) else draw(st.integers(1, 6000))
    at = draw(st.sampled_from(sums)) if c['chain'] in ('default', 'conv') else c['length']
    c['limit'] = max(0, draw(st.one_of(st.integers(-2, 2).map(lambda d: at + d), st.integers(0, 5000), st.just(0))))
    c['chunk'] = draw(FILE_CHUNKS) if c['chain'] != 'default' else None
    c['sub'] = draw(st.sampled_from([None, None, 'new', 'new/deeper']))
    c['kind'], c['cuts'] = draw(STREAMS), draw(CUTS)
    return c


CH = {'default': None, 'conv': ['jyhandlers.ConvC'], 'chain': ['jyhandlers.MemC', 'jyhandlers.TempC'], 'temp': ['jyhandlers.TempC'], 'mem': ['jyhandlers.MemC']}


def check(ctx, c):
    data = form_request(c['boundary'], body_bytes(c['boundary'], c['parts']), length=c['length'])
    s = Script()
    s.func('jyhandlers.set_chunk', c['chunk'] or 65536)
    d = s.new('h.tmpdir')
    up = d if c['sub'] is None else s.new('os.path.join', d, c['sub'])
    real = s.func('os.path.realpath', up)
    kw = {'FILE_UPLOAD_HANDLERS': CH[c['chain']]} if CH[c['chain']] else {}
    cfg = s.new('h.settings', None, FILE_UPLOAD_TEMP_DIR=up, FILE_UPLOAD_MAX_MEMORY_SIZE=c['limit'], **kw)
    r = s.new(HR, add_stream(s, data, c['kind'], c['cuts']), cfg)
    p = s.call(r, 'parse')
    v = s.func('h.view_form', r)
    names = s.func('h.walk', d)
    s.call(r, 'close')
    res = ctx.run(s)
    ctx.ok(res[p], 'parsing %r' % data[:2000])
    form = ctx.ok(res[v], 'reading the form')
    parts = c['parts']
    if c['chain'] == 'mem' and c['length'] > c['limit']:    # nobody takes the files
        parts = [q for q in parts if q['kind'] != 'file']
    expect_form(ctx, form, parts)
    got = {key_of(k): list(l) for k, l in form['FILES']}
    received = 0
    disk = []
    for q in parts:
        if q['kind'] != 'file':
            continue
        f = got[q['name']].pop(0)
        received += len(q['content'])
        if c['chain'] in ('default', 'conv'):
            want = received > c['limit']
        elif c['chain'] == 'chain':
            want = c['length'] > c['limit']
        else:
            want = c['chain'] == 'temp'
        if f['disk'] != want:
            ctx.fail('%s: file of %d bytes, %d received so far, content length %d, limit %d: %s', c['chain'], len(q['content']), received, c['length'], c['limit'],
                     'on disk' if f['disk'] else 'in memory')
        if f['disk']:
            path = f['path'] if isinstance(f['path'], str) else f['path'].decode()
            root = res[real] if isinstance(res[real], str) else res[real].decode()
            if path.rsplit('/', 1)[0] != root:
                ctx.fail('temporary file %r is not in the configured directory %r', path, root)
            disk.append((c['sub'] + '/' if c['sub'] else '') + path.rsplit('/', 1)[1])
    ctx.eq(sorted(n if isinstance(n, str) else n.decode() for n in res[names]), sorted(disk), 'files in the configured directory')
    n = len([q for q in parts if q['kind'] == 'file'])
    ctx.label(c['chain'], 'on disk' if disk else '', 'switched between files' if 0 < len(disk) < n else '', 'directory made' if c['sub'] and disk else '', 'several files' if n > 1 else '',
              'exactly at the limit' if c['chain'] in ('default', 'conv') and received == c['limit'] else '')
    ctx.nt(n > 0 and c['chain'] not in ('temp', 'mem'))


@st.composite
def bigcase(draw):
    b = b'BB'
    ps = []
    for _ in range(draw(st.integers(1, 3))):
        p = draw(part(b, ('file',), big=False))
        p['content'] = (draw(st.sampled_from([b'x', b'\r\n', b'abc\r\n--'])) * 200000)[:draw(st.sampled_from([65536, 131072, 70000, 2621440 // 20, 262144, 300000, 524288, 600000])) + draw(st.integers(-2, 2))]
        ps.append(p)
    c = {'boundary': b, 'parts': ps, 'pre': b'', 'epi': b'\r\n', 'chain': draw(st.sampled_from(['default', 'chain'])), 'chunk': 65536, 'sub': None, 'kind': draw(STREAMS), 'cuts': draw(CUTS)}
    c['length'] = len(body_bytes(b, ps))
    at = sum(len(q['content']) for q in ps[:draw(st.integers(1, len(ps)))]) if c['chain'] == 'default' else c['length']
    c['limit'] = at + draw(st.integers(-1, 1))
    return c


PARTS = [
    Part('placement', case(), check, 'forms with files, generated limits, chains and chunk sizes; non-trivial: a file, and a chain that decides by size', 2500, 40000),
    Part('big', bigcase(), check, 'files of some 64 KiB chunks with limits next to their sizes; non-trivial as above', 60, 1200),
]
