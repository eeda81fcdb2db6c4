"""Python 3 side of worker.py: codec, script builder, worker process with hang detection."""
import json, os, select, signal, shutil, subprocess, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
CALL_TIMEOUT = 40.0       # wall time after which a call is suspected to hang
BUDGET_TIMEOUT = 240.0
STEP_BUDGET = 3000000     # lines of the code under test executed by one script


class HarnessError(Exception):
    pass


class Hang(BaseException):
    """The script does not terminate within the step budget."""


def enc(v):
    if v is None or v is True or v is False:
        return v
    if isinstance(v, int):
        return {'i': str(v)} if abs(v) > 2 ** 52 else v
    if isinstance(v, float):
        return {'f': repr(v)}
    if isinstance(v, str):
        return 'u' + v
    if isinstance(v, (bytes, bytearray)):
        return 'b' + bytes(v).decode('latin-1')
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, tuple):
        return {'t': [enc(x) for x in v]}
    if isinstance(v, dict):
        return {'d': [[enc(k), enc(x)] for k, x in v.items()]}
    if isinstance(v, (set, frozenset)):
        return {'s': [enc(x) for x in sorted(v)]}
    if isinstance(v, Ref):
        return {'r': v.name}
    if isinstance(v, Py):
        return {'py': v.path}
    raise TypeError(repr(v))


def dec(v):
    if isinstance(v, str):
        return v[1:].encode('latin-1') if v[0] == 'b' else v[1:]
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        if 'd' in v:
            return {dec(k): dec(x) for k, x in v['d']}
        if 'm' in v:
            return MVD((dec(k), dec(x)) for k, x in v['m'])
        if 't' in v:
            return tuple(dec(x) for x in v['t'])
        if 's' in v:
            return {dec(x) for x in v['s']}
        if 'i' in v:
            return int(v['i'])
        if 'f' in v:
            return float(v['f'])
        if 'o' in v:
            return Opaque(v['o'])
        raise ValueError(v)
    return v


class MVD(dict):
    """A MultiValueDict as reported: key -> list of values."""


class Opaque:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Ref:
    def __init__(self, name):
        self.name = name


class Py:
    """A dotted path, resolved in the worker."""

    def __init__(self, path):
        self.path = path


class Exc:
    """An exception a step ended with."""

    def __init__(self, d):
        self.type, self.mro, self.where = d['type'], d['mro'], d['where']
        self.args = dec(d['args']) if d['args'] is not None else None

    def isa(self, *names):
        return any(n in self.mro for n in names)

    def __repr__(self):
        return '%s%r at %s' % (self.type, tuple(self.args) if self.args is not None else '?',
                               ' > '.join('%s:%s' % tuple(w) for w in self.where))


class Skipped:
    def __repr__(self):
        return '<not reached>'


SKIPPED = Skipped()


class Script:
    """Builds a list of steps; each method returns the index of its step (or a Ref for named results)."""

    def __init__(self):
        self.steps = []
        self.n = 0

    def _add(self, keep, rest):
        name = None
        if keep:
            self.n += 1
            name = 'v%d' % self.n
        self.steps.append([name] + rest)
        if keep:
            r = Ref(name)
            r.step = len(self.steps) - 1
            return r
        return len(self.steps) - 1

    def func(self, path, *a, **kw):
        return self._add(False, ['func', path, [enc(x) for x in a], {k: enc(v) for k, v in kw.items()}])

    def new(self, path, *a, **kw):
        return self._add(True, ['func', path, [enc(x) for x in a], {k: enc(v) for k, v in kw.items()}])

    def call(self, o, m, *a, **kw):
        return self._add(False, ['call', enc(o), m, [enc(x) for x in a], {k: enc(v) for k, v in kw.items()}])

    def callnew(self, o, m, *a, **kw):
        return self._add(True, ['call', enc(o), m, [enc(x) for x in a], {k: enc(v) for k, v in kw.items()}])

    def get(self, o, attr):
        return self._add(False, ['get', enc(o), attr])

    def getnew(self, o, attr):
        return self._add(True, ['get', enc(o), attr])

    def set(self, o, attr, v):
        return self._add(False, ['set', enc(o), attr, enc(v)])


class Results:
    def __init__(self, raw):
        self.raw = raw

    def __getitem__(self, i):
        if isinstance(i, Ref):
            i = i.step
        o = self.raw[i]
        if o[0] == 'ok':
            return dec(o[1])
        if o[0] == 'exc':
            return Exc(o[1])
        return SKIPPED

    def __len__(self):
        return len(self.raw)


class Worker:
    def __init__(self):
        self.p = None
        self.history = []       # scripts run since the start of the process
        self.calls = 0
        self.dead = False

    def start(self):
        self.scratch = tempfile.mkdtemp(prefix='vpscratch')
        env = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': '/root',
               'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': 'America/St_Johns', 'JYTHONPATH': '/opt/jylib',
               'VP_SCRATCH': self.scratch, 'VP_REPO': REPO}
        self.p = subprocess.Popen(
            ['java', '-XX:+UseSerialGC', '-Xmx1500m', '-Xss4m', '-Djava.io.tmpdir=' + self.scratch,
             '-jar', '/usr/share/java/jython.jar', '-Dpython.home=/usr', '-Dpython.console=', '-B', '-s',
             '-Dpython.cachedir.skip=true', os.path.join(HERE, 'worker.py')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=open(os.environ.get('VP_WORKER_STDERR', '/dev/null'), 'ab'), env=env, cwd=self.scratch,
            start_new_session=True)
        self.buf = b''
        self.history = []
        r = self._read(120)
        if not r or not r.get('ready'):
            self.stop()
            raise HarnessError('the Jython worker did not start')

    def _read(self, timeout):
        end = time.monotonic() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return None
            d = os.read(fd, 1 << 20)
            if not d:
                self.dead = True
                return None
            self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None
            shutil.rmtree(self.scratch, ignore_errors=True)
        self.dead = False

    def request(self, req, timeout):
        if self.p is None:
            self.start()
        self.calls += 1
        try:
            self.p.stdin.write(json.dumps(req).encode() + b'\n')
            self.p.stdin.flush()
        except OSError:
            self.dead = True
            return None
        return self._read(timeout)

    def run(self, script):
        """Run a Script; raises Hang when it does not terminate."""
        if self.p is None:
            self.start()
        self.history.append(script.steps)
        r = self.request({'script': script.steps}, CALL_TIMEOUT)
        if r is None:
            # no answer: decide by counting executed lines in a new process
            self.stop()
            r = self.request({'script': script.steps, 'budget': STEP_BUDGET}, BUDGET_TIMEOUT)
            if r is None:
                died = self.dead
                self.stop()
                raise HarnessError('a script ended the worker' if died else 'no answer, and no step count either')
            if r.get('budget'):
                self.stop()
                raise Hang('more than %d lines of code executed' % STEP_BUDGET)
        if 'res' not in r:
            raise HarnessError('worker: ' + r.get('error', '?'))
        return Results(r['res'])

    def run_counted(self, script, budget):
        """-> (Results or None if the budget was exceeded, lines executed)"""
        if self.p is None:
            self.start()
        self.history.append(script.steps)
        r = self.request({'script': script.steps, 'budget': budget}, BUDGET_TIMEOUT)
        if r is None:
            self.stop()
            raise HarnessError('no answer to a counted run')
        if r.get('budget'):
            return None, r['steps']
        if 'res' not in r:
            raise HarnessError('worker: ' + r.get('error', '?'))
        return Results(r['res']), r['steps']
