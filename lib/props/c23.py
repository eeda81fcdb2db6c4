from hypothesis import assume, strategies as st
from core import Part
from gen import *
from jy import Exc, Script
from props import c10, c22

DS = 'request_parser.utils.datastructures.'
keys = st.sampled_from(['a', 'b', 'c', 'zz'])
vals = st.sampled_from(['1', '2', '', 'v w', '\u00e9'])
vl = st.lists(vals, max_size=3)
op = st.one_of(
    st.tuples(st.just('setitem'), keys, vals), st.tuples(st.just('setlist'), keys, vl), st.tuples(st.just('appendlist'), keys, vals), st.tuples(st.just('delitem'), keys), st.tuples(st.just('setdefault'), keys, vals),
    st.tuples(st.just('setdefault1'), keys), st.tuples(st.just('setlistdefault'), keys, vl), st.tuples(st.just('setlistdefault1'), keys), st.tuples(st.just('pop'), keys), st.tuples(st.just('popd'), keys, vals), st.tuples(st.just('popitem')), st.tuples(st.just('clear')),
    st.tuples(st.just('update'), st.dictionaries(keys, vals, min_size=1, max_size=2)), st.tuples(st.just('update-mvd'), st.dictionaries(keys, vl, min_size=1, max_size=2)), st.tuples(st.just('update-kw'), keys, vals))
READS = ['getitem', 'get', 'getlist', 'lists', 'items', 'values', 'keys', 'dict', 'len', 'contains', 'getlist-mutate', 'copy-mutate', 'deepcopy-mutate', 'urlencode']
read = st.tuples(st.sampled_from(READS), keys)
KINDS = ['query', 'query', 'post', 'headers', 'parsed-get', 'parsed-form', 'parsed-multipart', 'imvd', 'imvd', 'fromkeys']


@st.composite
def case(draw):
    kind = draw(st.sampled_from(KINDS))
    content = draw(st.dictionaries(st.sampled_from(['a', 'b', 'c']), st.lists(st.sampled_from(['1', '2', 'v', 'x-y']), min_size=1, max_size=3), max_size=3))
    if kind == 'parsed-get' and not content:
        content = {'a': ['1']}
    return {'kind': kind, 'content': content, 'ops': draw(st.lists(st.one_of(op, op, read), min_size=1, max_size=14))}


def qs(content):
    return '&'.join('%s=%s' % (k, v) for k, l in content.items() for v in l)


def make(s, c):
    """-> (Ref, model or None: as found)"""
    k, m = c['kind'], c['content']
    if k == 'query':
        return s.new(c22.QD, s.new('h.settings'), qs(m)), m
    if k == 'imvd':
        return s.new(DS + 'ImmutableMultiValueDict', m), m
    if k == 'fromkeys':
        return s.new(c22.QD + '.fromkeys', [x for x in m for _ in m[x]], 'v'), {x: ['v'] * len(m[x]) for x in m}
    if k == 'post':
        data = form_request(b'BOUND-ARY', b'')
        r, _ = fast_parse(s, data)
        return s.getnew(r, 'POST'), None
    if k == 'parsed-multipart':
        ps = [{'kind': 'field', 'name': n.encode(), 'content': v.encode(), 'ctype': None, 'params': [], 'cte': None, 'style': 0} for n, l in m.items() for v in l]
        r, _ = fast_parse(s, form_request(b'BOUND-ARY', body_bytes(b'BOUND-ARY', ps)))
        return s.getnew(r, 'POST'), None
    q = qs(m)
    hs = [('Host', 'h', ' ', '')]
    body = ''
    if k == 'parsed-form':
        hs += [('Content-Type', 'application/x-www-form-urlencoded', ' ', ''), ('Content-Length', str(len(q)), ' ', '')]
        body = q
    if k == 'headers':
        hs += [(n, v, ' ', '') for n, l in m.items() for v in l]
    target = '/p' + ('?' + q if k == 'parsed-get' else '')
    r, _ = fast_parse(s, head_text('GET %s HTTP/1.1' % target, hs).encode() + body.encode())
    if k == 'parsed-get':
        return s.getnew(r, 'GET'), m
    if k == 'parsed-form':
        return s.getnew(r, 'POST'), m if m else None
    return s.new('h.headers', r), m if m else None


def check(ctx, c):
    s = Script()
    d, m = make(s, c)
    first = s.call(d, 'lists')
    todo = []
    for o in c['ops']:
        name, a = o[0], o[1:]
        if name == 'setitem':
            todo.append((o, s.func('h.setitem', d, *a)))
        elif name == 'delitem':
            todo.append((o, s.func('h.delitem', d, *a)))
        elif name in ('setlist', 'appendlist', 'setdefault', 'setlistdefault', 'pop', 'popitem', 'clear', 'update'):
            todo.append((o, s.call(d, name, *a)))
        elif name in ('setdefault1', 'setlistdefault1'):
            todo.append((o, s.call(d, name[:-1], *a)))
        elif name == 'popd':
            todo.append((o, s.call(d, 'pop', *a)))
        elif name == 'update-mvd':
            todo.append((o, s.call(d, 'update', s.new(DS + 'MultiValueDict', a[0]))))
        elif name == 'update-kw':
            todo.append((o, s.call(d, 'update', **{a[0]: a[1]})))
        elif name == 'getitem':
            todo.append((o, s.func('h.getitem', d, a[0])))
        elif name in ('get', 'getlist'):
            todo.append((o, s.call(d, name, a[0])))
        elif name in ('lists', 'items', 'values', 'keys', 'dict'):
            todo.append((o, s.call(d, name)))
        elif name == 'len':
            todo.append((o, s.func('h.length', d)))
        elif name == 'contains':
            todo.append((o, s.func('h.contains', d, a[0])))
        elif name == 'urlencode':
            if c['kind'] in ('query', 'parsed-get', 'fromkeys', 'parsed-form'):
                todo.append((o, s.call(d, 'urlencode')))
        else:
            new = s.callnew(d, 'getlist', a[0]) if name == 'getlist-mutate' else s.callnew(d, 'copy') if name == 'copy-mutate' else s.new('copy.deepcopy', d)
            s.call(new, 'append', 'more') if name == 'getlist-mutate' else s.call(new, 'appendlist', a[0], 'more')
            todo.append((o, None))
        todo.append((('content', name), s.call(d, 'lists')))
    res = ctx.run(s)
    n = c22.norm_
    content = {k: l for k, l in n(ctx.ok(res[first], 'reading'))}
    if m is not None:
        if c['kind'] == 'headers':
            ctx.eq({k: v for k, v in content.items() if k != 'Host'}, m, 'content')
        else:
            ctx.eq(content, m, 'content')
    hit = set()
    for o, step in todo:
        name = o[0]
        if step is None:
            continue
        got = res[step]
        if name == 'content':
            ctx.eq(dict(n(ctx.ok(got, 'reading'))), content, 'content after %s' % o[1])
        elif name in READS:
            k = o[1]
            have = content.get(k)
            if name == 'getitem' and have is None:
                if not (isinstance(got, Exc) and got.isa('KeyError')):
                    ctx.fail('[%r]: %r', k, got)
                continue
            got = n(ctx.ok(got, name))
            want = {'getitem': lambda: have[-1], 'get': lambda: None if have is None else have[-1], 'getlist': lambda: have or [], 'len': lambda: len(content), 'contains': lambda: k in content,
                    'dict': lambda: {x: l[-1] for x, l in content.items()}}.get(name)
            if want:
                ctx.eq(got, want(), '%s(%r)' % (name, k))
            elif name == 'urlencode':
                pairs = sorted(tuple(p.split('=')) for p in got.split('&')) if got else []
                ctx.eq(pairs, sorted((x, v) for x, l in content.items() for v in l), 'urlencode()')
            else:
                want = {'lists': [[x, l] for x, l in content.items()], 'items': [[x, l[-1]] for x, l in content.items()], 'values': [l[-1] for l in content.values()], 'keys': list(content)}[name]
                ctx.eq(c22.order(got), c22.order(want), name)
        else:
            hit.add(name)
            if not (isinstance(got, Exc) and got.isa('AttributeError')):
                ctx.fail('%s%r on an immutable %s: %r, expected an AttributeError', name, o[1:], c['kind'], got)
    ctx.label(c['kind'], *hit)
    ctx.nt(bool(hit) and bool(content))


LOPS = ['append', 'extend', 'insert', 'pop0', 'pop', 'remove', 'sort', 'reverse', 'setitem', 'delitem', 'setslice', 'delslice', 'iadd', 'imul']


@st.composite
def lcase(draw):
    return {'items': draw(st.lists(st.integers(0, 5), max_size=6)), 'warning': draw(st.sampled_from([None, 'no changes', 'exc'])), 'ops': draw(st.lists(st.tuples(st.sampled_from(LOPS + ['read']), st.integers(-2, 6)), min_size=1, max_size=10))}


def check_list(ctx, c):
    s = Script()
    kw = {}
    if c['warning'] == 'exc':
        kw['warning'] = s.new('h.exception', 'ValueError', 'stop')
    elif c['warning']:
        kw['warning'] = c['warning'].encode()
    l = s.new(DS + 'ImmutableList', c['items'], **kw)
    todo = []
    for o, i in c['ops']:
        if o in ('append', 'remove'):
            st_ = s.call(l, o, i)
        elif o == 'extend':
            st_ = s.call(l, o, [i])
        elif o == 'insert':
            st_ = s.call(l, o, i, 7)
        elif o == 'pop':
            st_ = s.call(l, 'pop', i)
        elif o == 'pop0':
            st_ = s.call(l, 'pop')
        elif o in ('sort', 'reverse'):
            st_ = s.call(l, o)
        elif o == 'setitem':
            st_ = s.func('h.setitem', l, i, 7)
        elif o == 'delitem':
            st_ = s.func('h.delitem', l, i)
        elif o == 'setslice':
            st_ = s.func('h.setslice', l, 0, i, [7])
        elif o == 'delslice':
            st_ = s.func('h.delslice', l, 0, i)
        elif o in ('iadd', 'imul'):
            st_ = s.func('h.' + o, l, [7] if o == 'iadd' else 2)
        else:
            st_ = None
            todo.append(('len', s.func('h.length', l), len(c['items'])))
            todo.append(('in', s.func('h.contains', l, i), i in c['items']))
            todo.append(('count', s.call(l, 'count', i), c['items'].count(i)))
            if i in range(-len(c['items']), len(c['items'])):
                todo.append(('[%d]' % i, s.func('h.getitem', l, i), c['items'][i]))
        if st_ is not None:
            todo.append((o, st_, Exc))
        todo.append(('content after ' + o, s.func('h.items', l), c['items']))
    res = ctx.run(s)
    for what, step, want in todo:
        got = res[step]
        if want is Exc:
            ok = isinstance(got, Exc) and (got.type == 'ValueError' and c22.norm_(got.args) == ['stop'] if c['warning'] == 'exc' else got.isa('AttributeError'))
            if ok and c['warning'] == 'no changes':
                ok = c22.norm_(got.args) == ['no changes']
            if not ok:
                ctx.fail('%s on an immutable list: %r', what, got)
        else:
            ctx.eq(got, want, what)
    ctx.label(*[o for o, _ in c['ops']])
    ctx.nt(bool(c['items']))


PARTS = [
    Part('dict', case(), check, 'mutating and reading operations on every kind of immutable dictionary; non-trivial: a mutation is tried on a non-empty one', 2500, 40000),
    Part('list', lcase(), check_list, 'mutating and reading operations on immutable lists; non-trivial: a non-empty list', 800, 8000),
]
