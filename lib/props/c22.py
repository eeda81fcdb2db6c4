import copy
from hypothesis import assume, strategies as st
from core import Part
from gen import *
from jy import Exc, Script

MVD_ = 'request_parser.utils.datastructures.MultiValueDict'
QD = 'request_parser.http.request.QueryDict'
keys = st.sampled_from(['a', 'b', 'c', 'a', 'b', '', 'x y', '\u00e9'])
tvals = st.sampled_from(['1', '2', '', 'v', '\u00e9\u20ac', 'a&b=c'])
mvals = st.one_of(tvals, st.integers(0, 3), st.none(), st.sampled_from([b'\xff', True, ['p', 'q'], ['p']]))


def ops_of(vals, q):
    vl = st.lists(vals, max_size=4)
    d = st.dictionaries(keys, vals, max_size=3)
    m = st.dictionaries(keys, vl, max_size=3)
    return st.one_of(
        st.tuples(st.just('setitem'), keys, vals), st.tuples(st.just('setlist'), keys, vl), st.tuples(st.just('setlist'), keys, vl), st.tuples(st.just('appendlist'), keys, vals), st.tuples(st.just('appendlist'), keys, vals),
        st.tuples(st.just('getitem'), keys), st.tuples(st.just('get'), keys), st.tuples(st.just('getd'), keys, vals), st.tuples(st.just('getlist'), keys), st.tuples(st.just('getlistd'), keys, vl), st.tuples(st.just('getlist-mutate'), keys, vals),
        st.tuples(st.just('delitem'), keys), st.tuples(st.just('setdefault'), keys, vals), st.tuples(st.just('setlistdefault'), keys, st.one_of(st.none(), vl)), st.tuples(st.just('setlist-mutate'), keys, vl, vals),
        st.tuples(st.just('pop'), keys), st.tuples(st.just('popd'), keys, vals), st.tuples(st.just('contains'), keys),
        st.tuples(st.sampled_from(['len', 'items', 'lists', 'values', 'keys', 'dict', 'clear', 'popitem', 'two'])), st.tuples(st.sampled_from(['items', 'lists', 'values', 'keys', 'dict', 'iter'])),
        st.tuples(st.just('update-dict'), d), st.tuples(st.just('update-mvd'), m, vals), st.tuples(st.just('update-mvd'), m, vals), st.tuples(st.just('update-kw'), st.dictionaries(st.sampled_from(['a', 'b', 'zz']), vals, max_size=2)),
        st.tuples(st.just('update-both'), d, st.dictionaries(st.sampled_from(['a', 'b']), vals, max_size=2)), st.tuples(st.just('update-self')),
        st.tuples(st.sampled_from(['copy', 'copy.copy', 'copy.deepcopy'])), st.tuples(st.just('back')))


@st.composite
def case(draw):
    q = draw(st.booleans())
    vals = tvals if q else mvals
    init = draw(st.dictionaries(keys, st.lists(vals, max_size=3), max_size=3))
    return {'query': q, 'init': init, 'ops': draw(st.lists(ops_of(vals, q), min_size=1, max_size=20))}


def last(l):
    return l[-1] if l else []


def get(l, default):
    return default if not l else l[-1]


def order(pairs):
    return sorted(pairs, key=repr)


def check(ctx, c):
    s = Script()
    if c['query']:
        d = s.new(QD, s.new('h.settings'), None, True, 'utf-8')
        for k, l in c['init'].items():
            s.call(d, 'setlist', k, l)
    else:
        d = s.new(MVD_, c['init'])
    model = {k: list(l) for k, l in c['init'].items()}
    others = []     # (ref, model) of copies left behind
    todo = []

    def expect(step, want, what, how=None):
        todo.append((step, want, what, how))

    for op in c['ops']:
        o, a = op[0], op[1:]
        what = '%s%r' % (o, tuple(a))
        if o == 'setitem':
            expect(s.func('h.setitem', d, *a), None, what)
            model[a[0]] = [a[1]]
        elif o == 'setlist':
            expect(s.call(d, 'setlist', *a), None, what)
            model[a[0]] = list(a[1])
        elif o == 'setlist-mutate':
            l = s.new('h.mklist', a[1])
            expect(s.call(d, 'setlist', a[0], l), None, what)
            expect(s.call(l, 'append', a[2]), None, what)
            model[a[0]] = list(a[1])
        elif o == 'appendlist':
            expect(s.call(d, 'appendlist', *a), None, what)
            model.setdefault(a[0], []).append(a[1])
        elif o == 'getitem':
            expect(s.func('h.getitem', d, a[0]), last(model[a[0]]) if a[0] in model else KeyError, what)
        elif o == 'get':
            expect(s.call(d, 'get', a[0]), get(model.get(a[0]), None), what)
        elif o == 'getd':
            expect(s.call(d, 'get', *a), get(model.get(a[0]), a[1]), what)
        elif o == 'getlist':
            expect(s.call(d, 'getlist', a[0]), list(model.get(a[0], [])), what)
        elif o == 'getlistd':
            expect(s.call(d, 'getlist', *a), list(model.get(a[0], a[1])), what)
        elif o == 'getlist-mutate':
            l = s.callnew(d, 'getlist', a[0])
            expect(s.call(l, 'append', a[1]), None, what)
        elif o == 'delitem':
            expect(s.func('h.delitem', d, a[0]), None if a[0] in model else KeyError, what)
            model.pop(a[0], None)
        elif o == 'setdefault':
            model.setdefault(a[0], [a[1]])
            expect(s.call(d, 'setdefault', *a), last(model[a[0]]), what)
        elif o == 'setlistdefault':
            model.setdefault(a[0], list(a[1] or []))
            expect(s.call(d, 'setlistdefault', *(a if a[1] is not None else a[:1])), list(model[a[0]]), what)
        elif o == 'pop':
            expect(s.call(d, 'pop', a[0]), model.pop(a[0], KeyError), what)
        elif o == 'popd':
            expect(s.call(d, 'pop', *a), model.pop(a[0], a[1]), what)
        elif o == 'popitem':
            if len(model) == 1:
                expect(s.call(d, 'popitem'), list(model.popitem()), what)
            elif not model:
                expect(s.call(d, 'popitem'), KeyError, what)
        elif o == 'contains':
            expect(s.func('h.contains', d, a[0]), a[0] in model, what)
        elif o == 'len':
            expect(s.func('h.length', d), len(model), what)
        elif o == 'items':
            expect(s.call(d, 'items'), [[k, last(l)] for k, l in model.items()], what, order)
        elif o == 'lists':
            expect(s.call(d, 'lists'), [[k, list(l)] for k, l in model.items()], what, order)
        elif o == 'values':
            expect(s.call(d, 'values'), [last(l) for l in model.values()], what, order)
        elif o in ('keys', 'iter'):
            expect(s.call(d, 'keys') if o == 'keys' else s.func('h.items', d), list(model), what, order)
        elif o == 'dict':
            expect(s.call(d, 'dict'), {k: last(l) for k, l in model.items()}, what)
        elif o == 'clear':
            expect(s.call(d, 'clear'), None, what)
            model = {}
        elif o == 'two':
            expect(s.call(d, 'update', {}, {}), TypeError, 'update with two arguments')
        elif o in ('update-dict', 'update-kw', 'update-both'):
            kw = a[-1] if o != 'update-dict' else {}
            expect(s.call(d, 'update', *([] if o == 'update-kw' else [a[0]]), **kw), None, what)
            for part in ([] if o == 'update-kw' else [a[0]]) + [kw]:
                for k, v in part.items():
                    model.setdefault(k, []).append(v)
        elif o == 'update-mvd':
            other = s.new(MVD_, a[0])
            expect(s.call(d, 'update', other), None, what)
            for k in a[0]:      # what the other one gets later does not matter
                s.call(other, 'appendlist', k, a[1])
            for k, l in a[0].items():
                model.setdefault(k, []).extend(l)
        elif o == 'update-self':
            other = s.callnew(d, 'copy')
            expect(s.call(d, 'update', other), None, what)
            for k in model:
                model[k] = model[k] * 2
        elif o in ('copy', 'copy.copy', 'copy.deepcopy'):
            new = s.callnew(d, 'copy') if o == 'copy' else s.new(o, d)
            expect(s.func('h.typename', new), b'QueryDict' if c['query'] else b'MultiValueDict', what)
            others.append((d, model))
            d, model = new, {k: list(l) for k, l in model.items()}
        elif o == 'back' and others:
            # go on with the original
            o_ = others.pop(0)
            others.append((d, model))
            d, model = o_
    for ref, m in others + [(d, model)]:
        expect(s.call(ref, 'lists'), [[k, list(l)] for k, l in m.items()], 'content at the end', order)
    res = ctx.run(s)
    for step, want, what, how in todo:
        got = res[step]
        if isinstance(want, type) and issubclass(want, Exception):
            if not (isinstance(got, Exc) and got.isa(want.__name__)):
                ctx.fail('%s: got %r, expected a %s', what, got, want.__name__)
        else:
            if not isinstance(got, Exc) and how:
                got, want = how(norm_(got)), how(norm_(want))
            ctx.eq(norm_(got), norm_(want), what)
    kinds = {o[0] for o in c['ops']}
    ctx.label('QueryDict' if c['query'] else 'MultiValueDict', *kinds)
    ctx.nt(len(kinds) > 3 and bool(c['init'] or any(k in kinds for k in ('setlist', 'setitem', 'appendlist', 'update-mvd', 'update-dict'))))


def norm_(v):
    """'' is the same as text and as bytes, and so is ASCII."""
    if isinstance(v, bytes) and v.isascii():
        return v.decode()
    if isinstance(v, (list, tuple)):
        return [norm_(x) for x in v]
    if isinstance(v, dict):
        return {norm_(k): norm_(x) for k, x in v.items()}
    return v


@st.composite
def nested(draw):
    return {'query': draw(st.booleans()), 'how': draw(st.sampled_from(['copy', 'copy.copy', 'copy.deepcopy'])), 'init': draw(st.dictionaries(st.sampled_from(['a', 'b']), st.lists(st.integers(0, 5), min_size=1, max_size=3), min_size=1, max_size=2))}


def check_nested(ctx, c):
    """Values that can change themselves: shared by shallow copies, not by deep ones."""
    s = Script()
    d = s.new(QD, s.new('h.settings'), None, True, 'utf-8') if c['query'] else s.new(MVD_)
    k, inner = sorted(c['init'].items())[0]
    for n, l in c['init'].items():
        s.call(d, 'appendlist', n, s.new('h.mklist', l))
    new = s.callnew(d, 'copy') if c['how'] == 'copy' else s.new(c['how'], d)
    v = s.new('h.getitem', new, k)
    s.call(v, 'append', 99)
    a, b = s.func('h.getitem', d, k), s.func('h.getitem', new, k)
    deep = c['how'] == 'copy.deepcopy' or c['how'] == 'copy' and c['query']
    res = ctx.run(s)
    ctx.eq(res[b], inner + [99], 'the value in the copy')
    if deep:
        ctx.eq(res[a], inner, 'the value in the original after %s' % c['how'])
    ctx.label(c['how'], 'deep' if deep else 'shallow')
    ctx.nt(deep)


@st.composite
def cyclic(draw):
    return {'query': draw(st.booleans()), 'how': draw(st.sampled_from(['copy', 'copy.copy', 'copy.deepcopy'])), 'at': draw(st.integers(0, 2)),
            'through': draw(st.sampled_from(['itself', 'a list'])), 'init': draw(st.dictionaries(st.sampled_from(['a', 'b']), st.lists(st.integers(0, 5), max_size=3), max_size=2))}


def check_cyclic(ctx, c):
    """A dictionary that contains itself."""
    s = Script()
    d = s.new(QD, s.new('h.settings'), None, True, 'utf-8') if c['query'] else s.new(MVD_)
    for n, l in c['init'].items():
        s.call(d, 'setlist', n, l)
    inner = d if c['through'] == 'itself' else s.new('h.mklist', [d])
    s.call(d, 'setlist', 'me', [1] * c['at'] + [inner])
    new = s.callnew(d, 'copy') if c['how'] == 'copy' else s.new(c['how'], d)
    deep = c['how'] == 'copy.deepcopy' or c['how'] == 'copy' and c['query']
    v = s.new('h.getitem', new, 'me')
    if c['through'] != 'itself':
        v = s.new('h.getitem', v, 0)
    a, b = s.func('h.same', v, new), s.func('h.same', v, d)
    s.call(d, 'appendlist', 'a', 77)
    rest = [s.call(new, 'getlist', k) for k in ('a', 'b')]
    res = ctx.run(s)
    ctx.eq((res[a], res[b]), (deep, not deep), 'whether the dictionary in the copy made by %s is the copy, and the original' % c['how'])
    ctx.eq([res[x] for x in rest], [c['init'].get(k, []) for k in ('a', 'b')], 'the other values of the copy')
    ctx.label(c['how'], 'deep' if deep else 'shallow')
    ctx.nt(deep)


PARTS = [
    Part('model', case(), check, 'sequences of operations against a dict of lists; non-trivial: four kinds of operation, and something to operate on', 3500, 60000),
    Part('nested', nested(), check_nested, 'copies of dictionaries with mutable values; non-trivial: a deep copy', 200, 1500),
    Part('cyclic', cyclic(), check_cyclic, 'copies of dictionaries that contain themselves; non-trivial: a deep copy', 100, 1500),
]
