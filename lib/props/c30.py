import os
from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Script

SET = 'request_parser.conf.settings.Settings'
# name in the dictionary -> attribute, default
KEYS = {'MAX_HEADER_SIZE': ('MAX_HEADER_SIZE', 16), 'FILE_UPLOAD_MAX_MEMORY': ('FILE_UPLOAD_MAX_MEMORY_SIZE', 30 * 2 ** 20), 'DATA_UPLOAD_MAX_MEMORY': ('DATA_UPLOAD_MAX_MEMORY_SIZE', 5 * 2 ** 20),
        'DATA_UPLOAD_MAX_FIELDS': ('DATA_UPLOAD_MAX_NUMBER_FIELDS', 4096), 'DEFAULT_CHARSET': ('DEFAULT_CHARSET', 'ISO-8859-1')}
HANDLERS = ['request_parser.files.uploadhandler.ConvenientFileUploadHandler']
REPO = os.environ.get('VP_REPO', '/repo')
DEFAULT_DIR = os.path.join(REPO, 'request_parser', 'files', 'file_uploads')
num = st.one_of(st.none(), st.integers(0, 5), st.integers(0, 2 ** 40), st.sampled_from([0, 16, -1, 4096, 2 ** 20]), st.booleans())
SHAPES = ['existing', 'existing', 'new', 'new', 'slash', 'dots', 'relative', 'relative-deep', 'relative-new', 'full', 'link', 'unicode']
BAD = ['file', 'below-file', 'no-parent', 'dangling', 'long', '/proc', 'relative-file', 'non-ascii-no-parent', 'loop']


@st.composite
def one(draw):
    keys = draw(st.lists(st.sampled_from(sorted(KEYS)), unique=True, max_size=5))
    d = {}
    for k in keys:
        d[k] = draw(st.sampled_from(['utf-8', 'koi8-r', 'x', '', None])) if k == 'DEFAULT_CHARSET' else draw(num)
    extra = draw(st.lists(st.sampled_from(['UNKNOWN', 'FILE_UPLOAD_MAX_MEMORY_SIZE', 'FILE_UPLOAD_HANDLERS', 'max_header_size', '']), unique=True, max_size=1))
    return {'given': d, 'extra': extra, 'dir': draw(st.one_of(st.none(), st.sampled_from(SHAPES))), 'attr': draw(st.booleans())}


@st.composite
def case(draw):
    seq = draw(st.lists(st.one_of(one(), one(), st.just('default')), min_size=1, max_size=4))
    return {'seq': seq}


def place(s, shape):
    """-> (Ref with the directory as it's given, Ref of the absolute one, expected listing or None)"""
    base = s.new('h.tmpdir')
    j = lambda *a: s.new('os.path.join', base, *a)
    listing = []
    if shape == 'existing':
        return base, base, []
    if shape == 'full':
        s.func('h.touch', j('kept'))
        return base, base, ['kept']
    if shape == 'new':
        return j('up'), j('up'), []
    if shape == 'unicode':
        return s.new('h.text', j('up')), j('up'), []
    if shape == 'slash':
        return j('up', ''), j('up'), []
    if shape == 'dots':
        return j('x', '..', '.', 'up'), j('up'), []
    if shape == 'link':
        s.func('os.mkdir', j('real'))
        s.func('os.symlink', j('real'), j('link'))
        return j('link'), j('link'), []
    rel = s.new('h.relative', base, shape == 'relative-deep')
    if shape in ('relative', 'relative-deep'):
        return rel, base, []
    return s.new('os.path.join', rel, 'up'), j('up'), []


def bad_place(s, shape):
    if shape == '/proc':
        return '/proc', None
    base = s.new('h.tmpdir')
    j = lambda *a: s.new('os.path.join', base, *a)
    s.func('h.touch', j('f'))
    if shape == 'file':
        return j('f'), base
    if shape == 'below-file':
        return j('f', 'x'), base
    if shape == 'no-parent':
        return j('no', 'parent'), base
    if shape == 'non-ascii-no-parent':
        return s.new('os.path.join', s.new('h.text', base), 'n\u00e9', 'x'), base
    if shape == 'dangling':
        s.func('os.symlink', j('nowhere'), j('d'))
        return j('d'), base
    if shape == 'loop':
        s.func('os.symlink', j('l'), j('l'))
        return j('l'), base
    if shape == 'long':
        return j('x' * 300), base
    return s.new('os.path.join', s.new('h.relative', base), 'f'), base


def check(ctx, c):
    s = Script()
    made = []
    todo = []
    for o in c['seq']:
        if o == 'default':
            made.append((s.new(SET + '.default'), {}, None, None, []))
            continue
        d = dict(o['given'])
        d.update({k: 'ignored' for k in o['extra']})
        where = None
        ls = []
        if o['dir']:
            given, where, ls = place(s, o['dir'])
            d['FILE_UPLOAD_TEMP_DIR'] = given
        arg = s.new('h.mkdict', d)
        x = s.new(SET, arg)
        made.append((x, o['given'], where, o['dir'], ls))
        todo.append((s.func('h.length', arg), len(d)))
        if o['attr']:
            # what's then changed in one is not changed in others
            y = s.new(SET, {'MAX_HEADER_SIZE': 7})
            for a, _ in KEYS.values():
                s.set(y, a, 12345)
            s.set(s.new(SET + '.default'), 'DEFAULT_CHARSET', 'changed')
    views = []
    for x, given, where, shape, ls in made:
        v = s.func('h.settings_view', x)
        views.append((v, given, where, shape, ls, s.func('os.path.abspath', where) if where is not None else None, s.func('h.listdir', where) if where is not None else None))
    last = s.func('h.settings_view', s.new(SET + '.default'))
    res = ctx.run(s)
    for i, n in todo:
        ctx.eq(res[i], n, 'size of the given dictionary afterwards')
    for v, given, where, shape, ls, path, listing in views:
        compare(ctx, res[v], given, 'settings %r' % given, as_str(res[path]) if where is not None else DEFAULT_DIR)
        if where is not None:
            ctx.eq([as_str(x) for x in ctx.ok(res[listing], 'listing the directory (%s)' % shape)], ls, 'what is in the directory (%s)' % shape)
            ctx.label(shape)
    compare(ctx, res[last], {}, 'the default settings afterwards', DEFAULT_DIR)
    ctx.label('sequence' if len(c['seq']) > 1 else None)
    ctx.nt(any(o != 'default' and (o['given'] or o['dir']) for o in c['seq']))


def compare(ctx, v, given, what, where):
    v = dict(ctx.ok(v, what))
    got = {k: as_str(x) if isinstance(x, bytes) else x for k, x in v.items() if k not in ('FILE_UPLOAD_HANDLERS', 'FILE_UPLOAD_TEMP_DIR')}
    want = {a: given.get(k, d) for k, (a, d) in KEYS.items()}
    ctx.eq(got, want, what)
    for k in got:
        if type(got[k]) is not type(want[k]):
            ctx.fail('%s: %s is %r, expected %r', what, k, got[k], want[k])
    ctx.eq([as_str(x) for x in v['FILE_UPLOAD_HANDLERS']], HANDLERS, 'handlers of ' + what)
    ctx.eq(as_str(v['FILE_UPLOAD_TEMP_DIR']), where, 'directory of ' + what)


@st.composite
def bcase(draw):
    return {'shape': draw(st.sampled_from(BAD)), 'more': draw(st.sampled_from([{}, {'MAX_HEADER_SIZE': 3}]))}


def check_bad(ctx, c):
    s = Script()
    given, base = bad_place(s, c['shape'])
    before = s.func('h.tree', base) if base is not None else None
    d = dict(c['more'], FILE_UPLOAD_TEMP_DIR=given)
    i = s.func(SET, s.new('h.mkdict', d))
    after = s.func('h.tree', base) if base is not None else None
    ok = s.func(SET + '.default')
    view = s.func('h.settings_view', s.new(SET + '.default'))
    res = ctx.run(s)
    got = res[i]
    if not (isinstance(got, Exc) and got.isa('InvalidDirectory')):
        ctx.fail('upload directory %s: %r, expected an InvalidDirectory', c['shape'], got)
    if base is not None and c['shape'] != 'no-parent':
        ctx.eq(res[after], ctx.ok(res[before], 'listing'), 'files after the refusal (%s)' % c['shape'])
    compare(ctx, res[view], {}, 'default settings afterwards', DEFAULT_DIR)
    ctx.label(c['shape'])
    ctx.nt()


PARTS = [
    Part('values', case(), check, 'sequences of settings made from generated dictionaries; non-trivial: something is given', 900, 15000),
    Part('refused', bcase(), check_bad, 'directories that cannot be used; all count as non-trivial', 150, 1000),
]
