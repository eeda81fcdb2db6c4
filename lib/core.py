"""Driver: generated-input search with Hypothesis, sharded over processes; evidence; replay."""
import hashlib, importlib, json, os, random, subprocess, sys, tempfile, time, traceback

import hypothesis
from hypothesis import HealthCheck, Phase, given, seed as hseed, settings as hsettings

import jy

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(ROOT, 'replays')
FINDINGS = os.path.join(ROOT, 'KNOWN_FINDINGS')


class Violation(Exception):
    pass


class StopSearch(BaseException):
    pass


class Part:
    """One executable statement of a property: a strategy for cases, and a check of one case."""

    def __init__(self, name, strategy, check, rule, quick, thorough, examples=()):
        self.name, self.strategy, self.check, self.rule = name, strategy, check, rule
        self.quick, self.thorough, self.examples = quick, thorough, list(examples)


class Ctx:
    """What a check gets besides its case."""

    def __init__(self, worker):
        self.w = worker
        self.labels = []
        self.nontrivial = False

    def run(self, script):
        return self.w.run(script)

    def label(self, *names):
        self.labels += [n for n in names if n]

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def fail(self, msg, *a):
        raise Violation(msg % a if a else msg)

    def eq(self, got, want, what):
        if isinstance(got, (jy.Exc, jy.Skipped)):
            raise Violation('%s: raised %r, expected %s' % (what, got, short(want)))
        if got != want:
            raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)))

    def ok(self, got, what):
        if isinstance(got, (jy.Exc, jy.Skipped)):
            raise Violation('%s: raised %r' % (what, got))
        return got


def short(v, n=700):
    s = repr(v)
    return s if len(s) <= n else s[:n // 2] + ' ... ' + s[-n // 2:]


def canon(case):
    return json.dumps(jy.enc(case), sort_keys=True)


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []

    def add(self, case, ctx):
        self.evaluations += 1
        for l in set(ctx.labels):
            self.labels[l] = self.labels.get(l, 0) + 1
        if ctx.nontrivial:
            h = hashlib.sha1(canon(case).encode('utf-8', 'surrogatepass')).hexdigest()[:16]
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 3 or len(self.distinct) in (40, 160):
                    self.samples.append(short(case, 500))


def load(pid):
    return importlib.import_module('props.' + pid.lower())


def run_case(part, case, worker):
    """-> (Ctx, message or None). Hang counts as a violation."""
    ctx = Ctx(worker)
    try:
        part.check(ctx, case)
    except Violation as v:
        return ctx, str(v)
    except jy.Hang as h:
        return ctx, 'does not terminate: %s' % h
    except (jy.HarnessError, hypothesis.errors.HypothesisException):
        raise
    except Exception:
        # what the code reported does not even have the expected shape
        return ctx, 'result cannot be interpreted: %s' % traceback.format_exc(limit=-3)
    return ctx, None


class Found(Exception):
    def __init__(self, part, case, msg, history=None):
        self.part, self.case, self.msg, self.history = part, case, msg, history


class Runner:
    """Runs the parts of a property in one process."""

    def __init__(self, pid, tier, seed, shard, shards, deadline):
        self.pid, self.tier, self.seed, self.shard, self.shards = pid, tier, seed, shard, shards
        self.deadline = deadline
        self.mod = load(pid)
        self.worker = jy.Worker()
        self.stats = {}
        self.past = []      # cases run in the current worker process: (part name, case)
        self.pid_of_worker = None

    def note(self, part, case):
        if self.worker.p is None or self.pid_of_worker != self.worker.p.pid:
            self.past = []
            if self.worker.p is not None:
                self.pid_of_worker = self.worker.p.pid
        self.past.append((part.name, case))

    def go(self):
        for part in self.mod.PARTS:
            st = self.stats[part.name] = Stats()
            n = part.quick if self.tier == 'quick' else part.thorough
            n = max(1, -(-n // self.shards)) if n else 0
            self.part(part, st, n)
            if len(self.past) > 1500:
                self.worker.stop()

    def part(self, part, st, n):
        best = []
        shrink_end = [None]
        if self.worker.p is None:
            self.worker.start()

        def one(case):
            if time.monotonic() > self.deadline:
                if best:
                    raise StopSearch()
                st.skipped += 1
                return
            if shrink_end[0] and time.monotonic() > shrink_end[0]:
                raise StopSearch()
            self.note(part, case)
            ctx, msg = run_case(part, case, self.worker)
            if msg is not None:
                size = len(canon(case))
                if not best or size <= best[0][0]:
                    best[:] = [(size, case, msg)]
                if not shrink_end[0]:
                    self.first_history = list(self.past)
                    shrink_end[0] = time.monotonic() + (45 if self.tier == 'quick' else 120)
                if msg.startswith('does not terminate'):
                    raise StopSearch()
                raise Violation('violated')     # one class of failure: shrink to the smallest of any kind
            if not shrink_end[0]:
                st.add(case, ctx)

        mine = [c for i, c in enumerate(part.examples) if i % self.shards == self.shard]
        for case in mine:
            try:
                one(case)
            except (Violation, StopSearch):
                self.confirm(part, best[0][1], best[0][2])
        if n:
            test = given(part.strategy)(one)
            test = hsettings(max_examples=n, database=None, deadline=None, derandomize=False,
                             report_multiple_bugs=False, print_blob=False,
                             phases=(Phase.generate, Phase.shrink),
                             suppress_health_check=list(HealthCheck))(test)
            s = int(hashlib.sha1(('%s/%s/%d/%d' % (self.pid, part.name, self.seed, self.shard)).encode()).hexdigest()[:12], 16)
            test = hseed(s)(test)
            try:
                test()
            except (Violation, StopSearch):
                pass
            except jy.HarnessError:
                raise
            except BaseException as e:
                # Flaky: the failure depends on what ran before it in the worker; confirmed below
                if not best:
                    raise
                if not type(e).__module__.startswith('hypothesis') and not isinstance(e, BaseExceptionGroup):
                    raise
            if best:
                self.confirm(part, best[0][1], best[0][2])

    def confirm(self, part, case, msg):
        """A failure counts when it is seen again in a new process, alone or after what preceded it."""
        self.worker.stop()
        ctx, m = run_case(part, case, self.worker)
        if m is not None:
            raise Found(part, case, m)
        byname = {p.name: p for p in self.mod.PARTS}
        hist = self.first_history

        def fails(seq):
            self.worker.stop()
            for i, (pn, c) in enumerate(seq):
                _, m = run_case(byname[pn], c, self.worker)
                if m is not None and i == len(seq) - 1:
                    return m
            return None
        m = fails(hist)
        if m is None:
            raise jy.HarnessError('a failure was not seen again: part %s, %s\n%s' % (part.name, msg, short(case, 4000)))
        end = time.monotonic() + 90
        chunk = max(1, (len(hist) - 1) // 2)
        while chunk >= 1 and time.monotonic() < end and len(hist) > 2:
            i = 0
            changed = False
            while i < len(hist) - 1 and time.monotonic() < end:
                cand = hist[:i] + hist[min(i + chunk, len(hist) - 1):]
                m2 = fails(cand)
                if m2 is not None:
                    hist, m, changed = cand, m2, True
                else:
                    i += chunk
            if chunk == 1 and not changed:
                break
            chunk = max(1, chunk // 2) if chunk > 1 else 0
        raise Found(part, hist[-1][1], 'after %d earlier cases in the same process: %s' % (len(hist) - 1, m), hist[:-1])


def write_replay(pid, f, seed):
    os.makedirs(REPLAYS, exist_ok=True)
    d = {'property': pid, 'part': f.part.name, 'message': f.msg, 'seed': seed, 'case': jy.enc(f.case),
         'before': [[n, jy.enc(c)] for n, c in (f.history or [])]}
    h = hashlib.sha1(json.dumps(d, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(REPLAYS, '%s-%s-%s.json' % (pid, f.part.name, h))
    with open(p, 'w') as o:
        json.dump(d, o, indent=1)
    return p


def shard_main(pid, tier, seed, shard, shards, deadline_s, out):
    r = Runner(pid, tier, seed, shard, shards, time.monotonic() + deadline_s)
    res = {'violation': None, 'error': None}
    try:
        r.go()
    except Found as f:
        res['violation'] = {'part': f.part.name, 'message': f.msg, 'replay': write_replay(pid, f, seed),
                            'case': short(f.case, 3000)}
    except BaseException:
        res['error'] = traceback.format_exc()
    finally:
        r.worker.stop()
    res['parts'] = {n: {'evaluations': s.evaluations, 'skipped': s.skipped, 'distinct': sorted(s.distinct),
                        'labels': s.labels, 'samples': s.samples} for n, s in r.stats.items()}
    with open(out, 'w') as o:
        json.dump(res, o)


def findings(pid):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(line.strip())
    return out


def main(pid, tier, seed, shards=None, scale=1.0):
    t0 = time.time()
    mod = load(pid)
    shards = shards or getattr(mod, 'SHARDS', 4 if tier == 'quick' else 7)
    budget = 420 if tier == 'quick' else 780
    tmp = tempfile.mkdtemp(prefix='vpshards')
    procs = []
    try:
        for i in range(shards):
            out = os.path.join(tmp, '%d.json' % i)
            procs.append((subprocess.Popen([sys.executable, os.path.join(ROOT, 'lib', 'main.py'), '--shard', pid, tier,
                                            str(seed), str(i), str(shards), str(budget), out],
                                           stdin=subprocess.DEVNULL), out))
        results = []
        first_bad = None
        pending = dict(enumerate(procs))
        while pending:
            time.sleep(0.05)
            for i, (p, out) in list(pending.items()):
                if p.poll() is not None:
                    del pending[i]
                    try:
                        results.append(json.load(open(out)))
                    except (OSError, ValueError):
                        results.append({'violation': None, 'error': 'shard %d ended with %s' % (i, p.returncode), 'parts': {}})
    finally:
        for p, _ in procs:
            if p.poll() is None:
                p.kill()
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    parts = []
    total = nontriv = 0
    samples = []
    for part in mod.PARTS:
        d, labels, ev, sk, sm = set(), {}, 0, 0, []
        for r in results:
            q = r['parts'].get(part.name)
            if not q:
                continue
            ev += q['evaluations']
            sk += q['skipped']
            d |= set(q['distinct'])
            for k, v in q['labels'].items():
                labels[k] = labels.get(k, 0) + v
            sm += q['samples']
        total += ev
        nontriv += len(d)
        samples += [{'part': part.name, 'case': s} for s in sm[:3]]
        parts.append({'part': part.name, 'evaluations': ev, 'distinct_nontrivial': len(d), 'not_run_out_of_time': sk,
                      'rule': part.rule, 'labels': dict(sorted(labels.items()))})
    viol = [r['violation'] for r in results if r['violation']]
    errors = [r['error'] for r in results if r['error']]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total, 'distinct_nontrivial': nontriv,
            'rule': ' | '.join('%s: %s' % (p.name, p.rule) for p in mod.PARTS),
            'samples': samples or ['none: the run ended before a non-trivial case'],
            'parts': parts, 'shards': shards,
        },
        'assumptions': ['the code runs under Jython 2.7 as in the project\'s own test run',
                        'the reference models and generators of lib/ state the property correctly'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
    for line in findings(pid):
        print(line)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (pid, tier, seed, total, nontriv, time.time() - t0))
    if viol:
        v = viol[0]
        print('part %s: %s' % (v['part'], v['message']))
        print('case: %s' % v['case'])
        print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
        return 1
    if errors:
        sys.stderr.write('\n'.join(errors) + '\n')
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    mod = load(d['property'])
    byname = {p.name: p for p in mod.PARTS}
    w = jy.Worker()
    try:
        for n, c in d['before']:
            run_case(byname[n], jy.dec(c), w)
        case = jy.dec(d['case'])
        print('case: %s' % short(case, 6000))
        _, msg = run_case(byname[d['part']], case, w)
    finally:
        w.stop()
    if msg is None:
        print('the property holds on this case')
        return 0
    print(msg)
    print('VIOLATION property=%s replay=%s' % (d['property'], path))
    return 1
