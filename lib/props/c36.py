import posixpath
from hypothesis import strategies as st
from core import Part
from gen import *
from jy import Exc, Py, Script

IMP = 'request_parser.utils.module_loading.import_string'
LOAD = 'request_parser.files.uploadhandler.load_handler'
name = st.one_of(st.sampled_from(['aa', 'ab', 'b', 'a_1', 'Z9', 'handlers', 'request_parser', 'os']), st.builds(lambda a, b: a + b, st.sampled_from('abcXYZ_'), txt(ALNUM + '_', 0, 4))).filter(
    lambda n: n not in ('as', 'is', 'if', 'in', 'or', 'not', 'and', 'def', 'del', 'for', 'try', 'None', 'from', 'with', 'pass', 'exec', 'else', 'elif') and not n.startswith('__'))
top = name.map(lambda n: 'zq' + n)
value = st.one_of(st.sampled_from(['None', '0', "''", 'False', '[]', '()', "'x'", '[1, {}]', '3.5', "u'\\xe9'"]), st.just('FUNC'), st.just('CLASS'))


@st.composite
def tree(draw):
    """{module path: (is package, {attribute: value})}"""
    mods = {}

    def grow(path, depth):
        pkg = depth < 3 and draw(st.booleans())
        mods[path] = (pkg, dict(draw(st.lists(st.tuples(name, value), min_size=1, max_size=4))))
        if pkg:
            for n in draw(st.lists(name, max_size=3, unique=True)):
                grow(path + '.' + n, depth + 1)
    for t in draw(st.lists(top, min_size=1, max_size=2, unique=True)):
        grow(t, 0)
    return mods


def source(attrs):
    out = []
    for n, v in attrs.items():
        if v == 'FUNC':
            out.append('def %s(*a, **k):\n    return [%r, list(a), k]' % (n, n))
        elif v == 'CLASS':
            out.append('class %s(object):\n    def __init__(self, *a, **k):\n        self.seen = [%r, list(a), k]' % (n, n))
        else:
            out.append('%s = %s' % (n, v))
    return '\n'.join(out) + '\n'


def files(mods):
    return {m.replace('.', '/') + ('/__init__.py' if pkg else '.py'): source(attrs) for m, (pkg, attrs) in mods.items()}


def valid(mods):
    return [m + '.' + a for m, (_, attrs) in mods.items() for a in attrs]


@st.composite
def damaged(draw, p):
    how = draw(st.sampled_from(['drop', 'add', 'case', 'nodot', 'swap', 'component', 'extra', 'last', 'module', 'empty', 'nonascii', 'parent']))
    parts = p.split('.')
    i = draw(st.integers(0, len(p) - 1))
    if how == 'drop':
        return p[:i] + p[i + 1:]
    if how == 'add':
        return p[:i] + draw(st.sampled_from(['.', 'x', '_', ' ', '/', '..', '-', '\n', '0'])) + p[i:]
    if how == 'case':
        return p.swapcase()
    if how == 'nodot':
        return p.replace('.', draw(st.sampled_from(['', '_', '/', ':'])))
    if how == 'swap':
        return '.'.join(reversed(parts))
    if how == 'component':
        k = draw(st.integers(0, len(parts) - 1))
        return '.'.join(parts[:k] + [draw(name)] + parts[k + 1:])
    if how == 'extra':
        return p + '.' + draw(name)
    if how == 'last':
        return '.'.join(parts[:-1] + [draw(st.one_of(name, st.just('')))])
    if how == 'module':
        return '.'.join(parts[:-1])
    if how == 'empty':
        return draw(st.sampled_from(['.' + p, '..' + p, p.replace('.', '..', 1), '', '.', '..', p + '..']))
    if how == 'nonascii':
        return p[:i] + draw(st.sampled_from(['\xe9', '\u20ac', '\u0436'])) + p[i:]
    return 'zqnope.' + p


@st.composite
def case(draw):
    mods = draw(tree())
    good = valid(mods)
    paths = []
    for _ in range(draw(st.integers(1, 6))):
        p = draw(st.sampled_from(good))
        paths.append(p if draw(st.booleans()) else draw(damaged(p)))
    return {'mods': mods, 'paths': paths, 'args': draw(st.lists(st.one_of(st.integers(-5, 5), txt(ALNUM, 0, 4), st.none()), max_size=3)),
            'kwargs': draw(st.dictionaries(st.sampled_from(['a', 'b', 'request', 'path', 'name']), st.integers(0, 9), max_size=2))}


def kind(mods, p):
    """'attribute', 'unsure' (a submodule, or what every module has) or 'nothing'"""
    m, _, a = p.rpartition('.')
    if m in mods and a in mods[m][1]:
        return 'attribute' if p not in mods else 'unsure'
    if p in mods or m in mods and a.startswith('__'):
        return 'unsure'
    return 'nothing'


def check(ctx, c):
    mods = c['mods']
    s = Script()
    s.func('h.write_tree', files(mods))
    runs = []
    for p in c['paths']:
        k = kind(mods, p)
        m, _, a = p.rpartition('.')
        x = s.new(IMP, p)
        x2 = s.func(IMP, p) if k != 'attribute' else None
        same = s.func('h.same', x, s.new('h.attribute', m, a)) if k == 'attribute' else None
        v = mods[m][1][a] if k == 'attribute' else None
        h = s.new(LOAD, p, *c['args'], **kw(c)) if 'path' not in c['kwargs'] else None
        seen = None
        if h is not None and v in ('FUNC', 'CLASS'):
            seen = s.get(h, 'seen') if v == 'CLASS' else s.func('__builtin__.list', h)
        h2 = s.func(LOAD, p, *c['args'], **kw(c)) if h is not None and k == 'nothing' else None
        runs.append((p, k, v, x2, same, seen, h2))
    res = ctx.run(s)
    for p, k, v, x2, same, seen, h2 in runs:
        if k == 'attribute':
            ctx.eq(res[same], True, 'importing %r gives the attribute of the module' % p)
            if seen is not None:
                got = ctx.ok(res[seen], 'loading %r' % p)
                if not (plain(got) == [p.rpartition('.')[2], plain(c['args']), {k_: v_ for k_, v_ in c['kwargs'].items()}]):
                    ctx.fail('loading the handler %r with %r, %r calls it with %r', p, c['args'], c['kwargs'], got)
        elif k == 'nothing':
            for i, what in ((x2, 'importing'), (h2, 'loading')):
                if i is not None and not (isinstance(res[i], Exc) and res[i].isa('ImportError')):
                    ctx.fail('%s %r, which does not exist: %r', what, p, res[i])
        ctx.label(k, 'called' if seen is not None else '', 'falsy value' if v in ('None', '0', "''", 'False', '[]', '()') else '')
    ctx.nt(any(r[1] == 'attribute' for r in runs) or any(r[1] == 'nothing' and '.' in r[0] for r in runs))


def kw(c):
    return c['kwargs']


def plain(v):
    if isinstance(v, bytes):
        return v.decode('latin-1')
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {plain(k): plain(x) for k, x in v.items()}
    return v


UP = 'request_parser.files.uploadhandler.'
REAL = [UP + n for n in ('FileUploadHandler', 'TemporaryFileUploadHandler', 'MemoryFileUploadHandler', 'ConvenientFileUploadHandler', 'StopUpload', 'load_handler')] + [
    'os.path.join', 'collections.OrderedDict', 'os.sep', 'string.ascii_letters', 'request_parser.http.request.HttpRequest', 'request_parser.http.constants.MetaDict',
    'request_parser.utils.http.limited_parse_qsl', 'sys.modules', 'json.dumps', 'xml.dom.minidom.parse', 'email.message.Message', 'logging.handlers.MemoryHandler']


@st.composite
def rcase(draw):
    p = draw(st.sampled_from(REAL))
    return {'path': p if draw(st.integers(0, 2)) else draw(damaged(p))}


def rcheck(ctx, c):
    p = c['path']
    s = Script()
    x = s.new(IMP, p)
    e = s.func(IMP, p) if p not in REAL else None
    m, _, a = p.rpartition('.')
    same = s.func('h.same', x, s.new('h.attribute', m, a)) if p in REAL else None
    t = None
    if p in REAL[:4]:
        r = s.new(HR)
        t1, t2 = s.new(LOAD, p, r), s.new(LOAD, p, r)
        t = (s.func('h.typename', t1), s.func('h.same', r if 'Conv' in p else s.getnew(t1, 'request'), r), s.func('h.same', t1, t2))
    res = ctx.run(s)
    if p in REAL:
        ctx.eq(res[same], True, 'importing %r' % p)
        if t:
            ctx.eq((as_str(res[t[0]]), res[t[1]], res[t[2]]), (a, True, False), 'the loaded handler: its type, whether it has the request, whether a second one is the same')
    elif isinstance(res[e], Exc) and not res[e].isa('ImportError'):
        ctx.fail('importing %r: %r', p, res[e])
    elif not isinstance(res[e], Exc) and m.split('.')[0] not in ('os', 'collections', 'string', 'sys', 'json', 'xml', 'email', 'logging', 'request_parser'):
        ctx.fail('importing %r gives %r', p, res[e])
    ctx.label('real' if p in REAL else 'damaged')
    ctx.nt()


@st.composite
def scase(draw):
    mods = draw(tree())
    asks = []
    pkgs = sorted(mods)
    for _ in range(draw(st.integers(1, 5))):
        m = draw(st.sampled_from(pkgs))
        below = [x[len(m) + 1:] for x in mods if x.startswith(m + '.')]
        asks.append((m, draw(st.one_of(st.sampled_from(below), name) if below else name)))
    return {'mods': mods, 'asks': asks}


def scheck(ctx, c):
    """Submodules are found exactly if they exist; the directory of a module is the one it lies in."""
    mods = c['mods']
    s = Script()
    d = s.new('h.write_tree', files(mods))
    dd = s.func('h.text', d)
    runs = []
    for m, n in c['asks']:
        mod = s.new('importlib.import_module', m)
        runs.append((m, n, s.func('request_parser.utils.module_loading.module_has_submodule', mod, n), s.func('request_parser.utils.module_loading.module_dir', mod)))
    res = ctx.run(s)
    base = as_str(ctx.ok(res[dd], 'writing the modules'))
    for m, n, i, j in runs:
        ctx.eq(res[i], m + '.' + n in mods, 'whether %s has the submodule %s, of %s' % (m, n, sorted(mods)))
        want = posixpath.join(base, m.replace('.', '/'))
        ctx.eq(as_str(ctx.ok(res[j], 'module_dir')), want if mods[m][0] else posixpath.dirname(want), 'directory of %s' % m)
    ctx.label('existing' if any(m + '.' + n in mods for m, n, _, _ in runs) else '', 'not a package' if any(not mods[m][0] for m, _, _, _ in runs) else '')
    ctx.nt(any(mods[m][0] for m, _ in c['asks']))


@st.composite
def dcase(draw):
    """Modules as objects: where they say they lie."""
    d = st.lists(txt(ALNUM, 1, 4), min_size=1, max_size=3).map(lambda l: '/' + '/'.join(l))
    return {'path': draw(st.one_of(st.none(), st.lists(d, max_size=3, unique=True))), 'file': draw(st.one_of(st.none(), d.map(lambda x: x + '/' + '__init__.py'))), 'none': draw(st.booleans()),
            'iter': draw(st.booleans())}


def dcheck(ctx, c):
    """One directory, or else that of the file; without either, or with several directories and no file, a ValueError."""
    s = Script()
    m = s.new('h.module_like', c['path'], c['file'], c['none'], c['iter'])
    i = s.func('request_parser.utils.module_loading.module_dir', m)
    res = ctx.run(s)
    if c['path'] is not None and len(c['path']) == 1:
        want = c['path'][0]
    elif c['file'] is not None:
        want = posixpath.dirname(c['file'])
    else:
        want = None
    if want is None:
        if not (isinstance(res[i], Exc) and res[i].isa('ValueError')):
            ctx.fail('the directory of a module with the directories %r and no file is %r', c['path'], res[i])
    else:
        ctx.eq(as_str(ctx.ok(res[i], 'module_dir')), want, 'directory of a module with the directories %r and the file %r' % (c['path'], c['file']))
    ctx.label('nowhere' if want is None else '', '%s directories' % (len(c['path']) if c['path'] is not None else 'no'))
    ctx.nt(c['path'] is None or len(c['path']) != 1)


PARTS = [
    Part('generated', case(), check, 'dotted paths, whole or damaged, over generated packages; non-trivial: an existing attribute or a dotted path to nothing', 500, 10000),
    Part('installed', rcase(), rcheck, 'paths to installed objects and damaged ones', 400, 6000),
    Part('submodules', scase(), scheck, 'submodule and directory queries over generated packages; non-trivial: a package is asked', 300, 6000),
    Part('places', dcase(), dcheck, 'objects that say where they lie, as modules and packages do; non-trivial: not in one directory', 300, 4000),
]
