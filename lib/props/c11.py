from hypothesis import assume, strategies as st
from core import Part
from gen import *
from jy import Exc, Script
from props import c10

UP = 'request_parser.files.uploadhandler.'
HANDLERS = {'default': None, 'memory+temporary': [UP + 'MemoryFileUploadHandler', UP + 'TemporaryFileUploadHandler'],
            'temporary': [UP + 'TemporaryFileUploadHandler'], 'convenient': [UP + 'ConvenientFileUploadHandler']}


@st.composite
def case(draw):
    c = draw(c10.case(('file', 'file', 'file', 'field')))
    c['handlers'] = draw(st.sampled_from(['default', 'default', 'memory+temporary', 'temporary', 'convenient']))
    total = sum(len(p['content']) for p in c['parts'] if p['kind'] == 'file')
    c['limit'] = draw(st.one_of(st.sampled_from([None, None, 0, 1, 10]), st.integers(-2, 2).map(lambda d: max(0, total + d)), st.integers(0, 200)))
    c['late'] = draw(st.booleans())
    return c


def setup(s, c):
    d = s.new('h.tmpdir')
    attrs = {'FILE_UPLOAD_TEMP_DIR': d}
    if c['limit'] is not None:
        attrs['FILE_UPLOAD_MAX_MEMORY_SIZE'] = c['limit']
    if HANDLERS[c['handlers']]:
        attrs['FILE_UPLOAD_HANDLERS'] = HANDLERS[c['handlers']]
    return d, s.new('h.settings', None, **attrs)


def check(ctx, c):
    data = c10.request(c)
    s = Script()
    d, cfg = setup(s, c)
    r, p = fast_parse(s, data, cfg)
    if c['late']:       # other requests in between do not matter
        fast_parse(s, form_request(b'zz', body_bytes(b'zz', [])), cfg)
    v = s.func('h.view_form', r)
    v2 = s.func('h.view_form', r)
    s.call(r, 'close')
    res = ctx.run(s)
    ctx.ok(res[p], 'parsing %r' % data[:2000])
    expect_form(ctx, ctx.ok(res[v], 'reading the form'), c['parts'], c.get('charset') or c10.CTX)
    expect_form(ctx, ctx.ok(res[v2], 'reading the form again'), c['parts'], c.get('charset') or c10.CTX)
    c10.labels(ctx, c)
    files = [p for p in c['parts'] if p['kind'] == 'file']
    ctx.label(c['handlers'], 'empty file' if any(not p['content'] for p in files) else '', 'extended name' if any(p.get('ext') for p in files) else '',
              'non-ASCII name' if any(not p['filename'].isascii() for p in files) else '', 'several files' if len(files) > 1 else '',
              'on disk' if any(f['disk'] for _, l in res[v]['FILES'] for f in l) else '')
    ctx.nontrivial = bool(files) and (len(c['parts']) > 1 or any(b'\n' in p['content'] for p in files))


@st.composite
def bigcase(draw):
    c = draw(c10.bigcase())
    for p in c['parts']:
        p['kind'] = draw(st.sampled_from(['file', 'file', 'field']))
        p['filename'] = draw(safe_filenames)
    assume(c10.usable(c['boundary'], body_bytes(c['boundary'], c['parts'], c['pre'], c['epi']), c['parts']))
    c['handlers'] = draw(st.sampled_from(list(HANDLERS)))
    c['limit'] = draw(st.sampled_from([None, 1000, 65536, 70000]))
    c['late'] = False
    return c


PARTS = [
    Part('files', case(), check, 'well-formed multipart forms with files and fields, all built-in handlers and memory limits; non-trivial: a file, and several parts or line breaks in it', 2500, 40000),
    Part('big', bigcase(), check, 'files whose size puts boundaries near the 1 KiB and 64 KiB read edges; non-trivial as above', 120, 2000),
]
