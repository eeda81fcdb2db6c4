# -*- coding: utf-8 -*-
"""Jython 2.7 side: executes scripts of steps against /repo's code, one JSON line in, one out.

A script is a list of steps [as, verb, ...]:
  [as, "func", "dotted.path", args, kwargs]     call anything importable (or "h.name": a helper below)
  [as, "call", obj, "method", args, kwargs]
  [as, "get", obj, "attr"]
  [as, "set", obj, "attr", value]
"as" names the result for later steps (it's then not sent back) or is None.
Outcomes: ["ok", value], ["exc", {...}] or ["skip"] (a name was never bound).
Only public names of the code under test are used here, so that refactorings don't matter.
"""
import json
import os
import shutil
import sys
import tempfile
import threading

REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, REPO)
HERE = os.path.dirname(os.path.abspath(sys.argv[0]))
sys.path.insert(1, HERE)

OUT = sys.stdout
sys.stdout = sys.stderr

from io import BytesIO

from java.lang import Error, StackOverflowError, Throwable

text = type(u'')


class Budget(BaseException):
    pass


# ---------------------------------------------------------------- codec

def enc(v, depth=0):
    if v is None or v is True or v is False:
        return v
    if isinstance(v, (int, long)):
        return {'i': str(v)} if abs(v) > 2 ** 52 else int(v)
    if isinstance(v, float):
        return {'f': repr(v)}
    if isinstance(v, text):
        return 'u' + text.__str__(v) if type(v) is not text else 'u' + v
    if isinstance(v, str):
        return 'b' + v.decode('latin-1')
    if isinstance(v, (list, tuple)):
        return [enc(x, depth + 1) for x in v]
    if isinstance(v, View):
        return {'d': [['u' + k, enc(x)] for k, x in v.items()]}
    if isinstance(v, dict):
        if hasattr(v, 'lists'):
            return {'m': [[enc(k), enc(list(l))] for k, l in dict.items(v)]}
        return {'d': [[enc(k), enc(x)] for k, x in v.items()]}
    if isinstance(v, (set, frozenset)):
        return {'s': [enc(x) for x in v]}
    return {'o': v.__class__.__name__}


def enc_str(v):
    return enc(v)


def dec(v, env):
    if isinstance(v, text):
        return v[1:].encode('latin-1') if v[0] == u'b' else v[1:]
    if isinstance(v, list):
        return [dec(x, env) for x in v]
    if isinstance(v, dict):
        if 'r' in v:
            return env[v['r']]
        if 'd' in v:
            return dict((dec(k, env), dec(x, env)) for k, x in v['d'])
        if 't' in v:
            return tuple(dec(x, env) for x in v['t'])
        if 'i' in v:
            return int(v['i'])
        if 'f' in v:
            return float(v['f'])
        if 's' in v:
            return set(dec(x, env) for x in v['s'])
        if 'py' in v:
            return resolve(v['py'])
        raise ValueError('bad value %r' % (v,))
    return v


class View(dict):
    """A dict made here, with names as keys (sent as text)."""


class Missing(Exception):
    pass


class Env(dict):
    def __missing__(self, k):
        raise Missing(k)


# ---------------------------------------------------------------- streams

class Chunks(object):
    """A stream that delivers its data in given chunks, and can fail; usable as iterator and as file."""

    def __init__(self, chunks, fail_at=None, exc=None):
        self.chunks = list(chunks)
        self.i = 0
        self.taken = 0
        self.once = False
        self.fail_at = fail_at
        self.exc = exc
        self.buf = b''

    def __iter__(self):
        return self

    def next(self):
        if self.fail_at is not None and self.i >= self.fail_at:
            if self.once:
                self.fail_at = None
            raise make_exc(self.exc)
        if self.buf:
            c, self.buf = self.buf, b''
        elif self.i < len(self.chunks):
            c = self.chunks[self.i]
            self.i += 1
        else:
            raise StopIteration()
        self.taken += len(c)
        return c

    def read(self, size=-1):
        if size is None or size < 0:
            return b''.join(self)
        if not self.buf:
            c = b''
            try:
                while not c:  # what a file reads as nothing is its end
                    c = self.next()
            except StopIteration:
                return b''
            self.taken -= len(c)
        else:
            c = self.buf
        out, self.buf = c[:size], c[size:]
        self.taken += len(out)
        return out


def make_exc(spec):
    kind, args = spec
    cls = {'IOError': IOError, 'OSError': OSError, 'ValueError': ValueError, 'RuntimeError': RuntimeError}[kind]
    return cls(*args)


class Like(object):
    pass


class ListLike(object):
    def __init__(self, l):
        self.l = list(l)

    def __iter__(self):
        return iter(self.l)


class Helpers(object):
    def __init__(self):
        self.dirs = []
        self.open = []

    # -- streams
    def bytesio(self, data):
        return BytesIO(data)

    def chunks(self, chunks, fail_at=None, exc=None):
        return Chunks(chunks, fail_at, exc)

    def generator(self, chunks):
        def g():
            for c in chunks:
                yield c
        return g()

    def failing(self, kind, chunks, fail_at, exc):
        """A stream that fails before chunk number fail_at: for ever, once, or as generators do (and then ends)."""
        if kind == 'chunks':
            return Chunks(chunks, fail_at, exc)
        if kind == 'once':
            c = Chunks(chunks, fail_at, exc)
            c.once = True
            return c

        def g():
            for i, x in enumerate(chunks):
                if i == fail_at:
                    raise make_exc(exc)
                yield x
            raise make_exc(exc)
        return g()

    def realfile(self, data):
        d = self.tmpdir()
        p = os.path.join(d, 'stream')
        f = open(p, 'wb')
        f.write(data)
        f.close()
        f = open(p, 'rb')
        self.open.append(f)
        return f

    def namedtemp(self, data):
        f = tempfile.NamedTemporaryFile(dir=self.tmpdir())
        f.write(data)
        f.flush()
        f.seek(0)
        self.open.append(f)
        return f

    # -- environment
    def tmpdir(self):
        d = tempfile.mkdtemp(prefix='vpc', dir=SCRATCH)
        self.dirs.append(d)
        return d

    def listdir(self, d):
        return sorted(os.listdir(d))

    def walk(self, d):
        return sorted(os.path.relpath(os.path.join(a, x), d) for a, _, fs in os.walk(d) for x in fs)

    def settings(self, d=None, **attrs):
        from request_parser.conf.settings import Settings
        s = Settings(d) if d else Settings.default()
        for k, v in attrs.items():
            setattr(s, k, v)
        return s

    def settings_view(self, s):
        return View((k, getattr(s, k, 'MISSING')) for k in (
            'FILE_UPLOAD_TEMP_DIR', 'MAX_HEADER_SIZE', 'FILE_UPLOAD_MAX_MEMORY_SIZE',
            'DATA_UPLOAD_MAX_MEMORY_SIZE', 'DATA_UPLOAD_MAX_NUMBER_FIELDS', 'DEFAULT_CHARSET',
            'FILE_UPLOAD_HANDLERS'))

    # -- views
    def view_head(self, r):
        from request_parser.http.constants import MetaDict
        v = View()
        for k in ('method', 'scheme', 'host', 'port', 'path', 'protocol_info', 'content_type', 'encoding'):
            v[k] = getattr(r, k)
        v['query'] = r.META.get(MetaDict.Info.QUERY_STRING)
        h = r.META.get(MetaDict.Info.REQ_HEADERS)
        v['headers'] = None if h is None else [[k, list(l)] for k, l in h.lists()]
        v['GET'] = r.GET
        return v

    def view_accessors(self, r):
        v = View()
        for k in ('get_host', 'get_port', 'get_method', 'get_scheme', 'get_path', 'get_protocol_info',
                  'get_full_path', 'get_uri', 'is_ajax', 'is_secure', 'is_plain_text'):
            v[k] = getattr(r, k)()
        v['raw_full_path'] = r.get_full_path(raw=True)
        v['slash_full_path'] = r.get_full_path(force_append_slash=True)
        v['raw_uri'] = r.get_uri(raw=True)
        v['repr'] = repr(r)
        return v

    def file_meta(self, f):
        v = View(type=f.__class__.__name__)
        for k in ('name', 'size', 'content_type', 'charset', 'content_type_extra', 'transfer_encoding'):
            v[k] = getattr(f, k)
        v['disk'] = hasattr(f, 'temporary_file_path')
        if v['disk']:
            v['path'] = f.temporary_file_path()
        return v

    def view_file(self, f):
        v = self.file_meta(f)
        f.seek(0)
        v['content'] = f.read()
        f.seek(0)
        return v

    def view_form(self, r):
        return View(POST=[[k, list(l)] for k, l in r.POST.lists()],
                    FILES=[[k, [self.view_file(f) for f in l]] for k, l in r.FILES.lists()])

    def parse_multipart(self, meta, stream, handlers, settings, encoding):
        """The form parser used on its own: what it gives, and closes the files."""
        from request_parser.files.uploadhandler import load_handler
        from request_parser.http.multipartparser import MultiPartParser
        post, files = MultiPartParser(meta, stream, [load_handler(h, None) for h in handlers], settings, encoding).parse()
        v = View(POST=[[k, list(l)] for k, l in post.lists()],
                 FILES=[[k, [self.view_file(f) for f in l]] for k, l in files.lists()])
        for _, l in files.lists():
            for f in l:
                f.close()
        return v

    def close_request(self, r):
        r.close()

    def full(self, r, accessors=True):
        """Everything a parsed request reports, for comparisons."""
        v = self.view_head(r)
        v.update(self.view_form(r))
        if accessors:
            v['acc'] = self.view_accessors(r)
        return v

    # -- small adapters
    def items(self, x):
        return list(x)

    def take(self, it, n):
        out = []
        for x in it:
            out.append(x)
            if len(out) >= n:
                break
        return out

    def setitem(self, d, k, v):
        d[k] = v

    def delitem(self, d, k):
        del d[k]

    def getitem(self, d, k):
        return d[k]

    def contains(self, d, k):
        return k in d

    def setslice(self, d, i, j, v):
        d[i:j] = v

    def delslice(self, d, i, j):
        del d[i:j]

    def iadd(self, d, v):
        d += v
        return d

    def imul(self, d, v):
        d *= v
        return d

    def same(self, a, b):
        return a is b

    def all_files(self, r):
        return [f for _, l in r.FILES.lists() for f in l]

    def spoil(self, x, depth=0):
        """Changes all of x that its owner may change: entries are added to whatever dictionaries and lists there are."""
        if depth > 6:
            return
        if hasattr(x, 'content_type_extra') and isinstance(x.content_type_extra, dict):
            x.content_type_extra['spoilt'] = 'x'
        if isinstance(x, dict):
            for k in list(x):
                v = dict.__getitem__(x, k)
                if hasattr(x, 'getlist'):
                    v = list(v) if isinstance(v, list) else v
                    for y in v:
                        self.spoil(y, depth + 1)
                else:
                    self.spoil(v, depth + 1)
            try:
                if hasattr(x, 'setlist'):
                    x.setlist('spoilt', ['x'])
                else:
                    x['spoilt'] = 'x'
            except AttributeError:
                pass        # not to be changed
        elif isinstance(x, list):
            for y in x:
                self.spoil(y, depth + 1)
            x.append('spoilt')

    def module_like(self, path, file, none, as_iter):
        o = Like()
        if path is not None:
            o.__path__ = ListLike(path) if as_iter else list(path)
        if file is not None or none:
            o.__file__ = file
        return o

    def nth(self, l, i):
        return l[i]

    def mklist(self, l):
        return list(l)

    def headers(self, r):
        from request_parser.http.constants import MetaDict
        return r.META.get(MetaDict.Info.REQ_HEADERS)

    def exception(self, kind, *args):
        return make_exc([kind, args])

    def length(self, o):
        return len(o)

    def mkdict(self, d):
        return dict(d)

    def text(self, s):
        return text(s)

    def touch(self, p):
        p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        if not p.startswith(os.path.realpath(SCRATCH) + os.sep):
            raise ValueError('not a scratch file')
        open(p, 'wb').close()

    def relative(self, p, deep=False):
        # relative upload directories are below the package
        if not deep:
            return os.path.relpath(p, os.path.join(REPO, 'request_parser'))
        # this one is also relative to any other directory
        return os.path.join(*['..'] * 12 + [os.path.abspath(p).lstrip('/')])

    def tree(self, d):
        return sorted(os.path.relpath(os.path.join(a, x), d) for a, ds, fs in os.walk(d) for x in ds + fs)

    def exists(self, p):
        return os.path.exists(p)

    def unlink(self, p):
        # only ever a file of this case's scratch directories
        p = os.path.realpath(p)
        if not p.startswith(os.path.realpath(SCRATCH) + os.sep):
            raise ValueError('not a scratch file')
        os.unlink(p)

    def putfile(self, p, data):
        p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        if not p.startswith(os.path.realpath(SCRATCH) + os.sep):
            raise ValueError('not a scratch file')
        f = open(p, 'wb')
        f.write(data)
        f.close()

    def pickled(self, o, protocol, module):
        m = __import__(module)
        return m.loads(m.dumps(o, protocol))

    def truth(self, o):
        return bool(o)

    def with_(self, o):
        with o as x:
            return x is o and not o.closed

    def readfile(self, p):
        f = open(p, 'rb')
        try:
            return f.read()
        finally:
            f.close()

    def isdir(self, p):
        return os.path.isdir(p)

    def isabs(self, p):
        return os.path.isabs(p)

    def decode(self, b, charset):
        # the interpreter's own decoding of bytes, malformed or not
        return b.decode(charset, 'replace')

    def typename(self, o):
        return o.__class__.__name__

    def configure_handlers(self, specs):
        import jyhandlers
        jyhandlers.configure(specs)
        return ['jyhandlers.H%d' % i for i in range(len(specs))]

    def handler_log(self):
        import jyhandlers
        return jyhandlers.take_log()

    def handler_objects(self):
        import jyhandlers
        return list(jyhandlers.INSTANCES)

    def write_module(self, name, source):
        d = self.tmpdir()
        f = open(os.path.join(d, name + '.py'), 'wb')
        f.write(source)
        f.close()
        sys.path.append(d)
        self.paths = getattr(self, 'paths', []) + [d]
        self.mods = getattr(self, 'mods', []) + [name]

    def write_tree(self, files):
        """Modules of packages, {relative path: source}, importable until the end of the script; the directory."""
        d = self.tmpdir()
        tops = set()
        for p, source in files.items():
            f = os.path.join(d, *str(p).split('/'))
            if not os.path.isdir(os.path.dirname(f)):
                os.makedirs(os.path.dirname(f))
            f = open(f, 'wb')
            f.write(str(source))
            f.close()
            tops.add(str(p).split('/')[0].split('.')[0])
        sys.path.insert(0, d)
        self.paths = getattr(self, 'paths', []) + [d]
        self.mods = getattr(self, 'mods', []) + list(tops)
        return d

    def attribute(self, module, name):
        return getattr(__import__(str(module), {}, {}, ['x']), str(name))

    def call_it(self, f, *a, **k):
        return f(*a, **k)

    def cleanup(self):
        for f in self.open:
            try:
                f.close()
            except Exception:
                pass
        self.open = []
        for d in getattr(self, 'paths', []):
            if d in sys.path:
                sys.path.remove(d)
        for m in getattr(self, 'mods', []):
            for n in list(sys.modules):
                if n == m or n.startswith(m + '.'):
                    del sys.modules[n]
        self.paths = self.mods = []
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)
        self.dirs = []


SCRATCH = os.environ['VP_SCRATCH']
RESOLVED = {}


def resolve(path):
    if path in RESOLVED:
        return RESOLVED[path]
    parts = path.split('.')
    for n in range(len(parts) - 1, 0, -1):
        try:
            o = __import__('.'.join(parts[:n]), fromlist=['x'])
        except ImportError:
            if n == 1:
                raise
            continue
        for p in parts[n:]:
            o = getattr(o, p)
        RESOLVED[path] = o
        return o
    raise ImportError(path)


def exc_info(e):
    tb = sys.exc_info()[2]
    where = []
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        where.append([os.path.basename(fn), tb.tb_frame.f_code.co_name])
        tb = tb.tb_next
    try:
        args = enc(list(getattr(e, 'args', ())))
    except Exception:
        args = None
    c = e.__class__
    return {'type': c.__name__, 'mro': [k.__name__ for k in getattr(c, '__mro__', (c,))], 'args': args,
            'where': where[-4:]}


def run(script):
    env = Env()
    h = Helpers()
    out = []
    try:
        for step in script:
            name, verb = step[0], step[1]
            try:
                if verb == 'func':
                    p = step[2]
                    f = getattr(h, p[2:]) if p.startswith('h.') else resolve(p)
                    kw = dict((str(k), dec(v, env)) for k, v in (step[4] if len(step) > 4 else {}).items())
                    a = [dec(x, env) for x in (step[3] if len(step) > 3 else [])]
                    res = f(*a, **kw)
                elif verb == 'call':
                    o = dec(step[2], env)
                    kw = dict((str(k), dec(v, env)) for k, v in (step[5] if len(step) > 5 else {}).items())
                    a = [dec(x, env) for x in (step[4] if len(step) > 4 else [])]
                    res = getattr(o, step[3])(*a, **kw)
                elif verb == 'get':
                    res = getattr(dec(step[2], env), step[3])
                elif verb == 'set':
                    setattr(dec(step[2], env), step[3], dec(step[4], env))
                    res = None
                else:
                    raise ValueError('bad verb ' + verb)
                if name is not None:
                    env[name] = res
                    out.append(['ok', None])
                else:
                    if hasattr(res, 'next') and not isinstance(res, (str, text)):
                        res = list(res)
                    out.append(['ok', enc(res)])
            except Missing:
                out.append(['skip'])
            except Budget:
                raise
            except BaseException as e:
                if e.__class__.__name__ in ('OutOfMemoryError', 'MemoryError', 'KeyboardInterrupt', 'SystemExit'):
                    if e.__class__.__name__ == 'OutOfMemoryError':
                        raise
                out.append(['exc', exc_info(e)])
            except Throwable as e:
                # an error of Java's own
                if isinstance(e, Error) and not isinstance(e, StackOverflowError):
                    raise
                out.append(['exc', exc_info(e)])
    finally:
        h.cleanup()
    return out


COUNT = [0, 0, None]


def tracer(frame, event, arg):
    fn = frame.f_code.co_filename
    if fn.startswith(COUNT[2]) or 'request_parser' in fn:
        return local_tracer
    return None


def local_tracer(frame, event, arg):
    if event == 'line':
        COUNT[0] += 1
        if COUNT[0] > COUNT[1]:
            raise Budget('step budget exceeded')
    return local_tracer


def run_counted(script, budget):
    COUNT[0], COUNT[1], COUNT[2] = 0, budget, REPO
    sys.settrace(tracer)
    try:
        res = run(script)
    finally:
        sys.settrace(None)
    return res


def main():
    OUT.write(json.dumps({'ready': True}) + '\n')
    OUT.flush()
    while True:
        line = sys.stdin.readline()
        if not line:
            break
        req = json.loads(line)
        reply = {}
        try:
            if req.get('budget'):
                try:
                    reply['res'] = run_counted(req['script'], req['budget'])
                except Budget:
                    reply['budget'] = True
                reply['steps'] = COUNT[0]
            else:
                reply['res'] = run(req['script'])
        except BaseException as e:
            import traceback
            reply = {'error': traceback.format_exc()}
        OUT.write(json.dumps(reply) + '\n')
        OUT.flush()


main()
