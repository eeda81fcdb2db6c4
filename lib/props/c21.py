from hypothesis import assume, strategies as st
from core import Part
from gen import *
from jy import Exc, Script

DS = 'request_parser.utils.datastructures.'
chunk = st.one_of(st.binary(min_size=1, max_size=6), st.binary(min_size=1, max_size=40), st.sampled_from([b'x', b'\r\n', b'--B', b'a' * 300, b'ab' * 3000]))
op = st.one_of(
    st.tuples(st.just('read'), st.integers(0, 12)), st.tuples(st.just('read'), st.integers(0, 100)), st.tuples(st.just('readall'), st.none()), st.tuples(st.just('next'), st.none()), st.tuples(st.just('next'), st.none()),
    st.tuples(st.just('unget'), st.binary(max_size=8)), st.tuples(st.just('back'), st.integers(0, 20)), st.tuples(st.just('back'), st.integers(0, 20)), st.tuples(st.just('tell'), st.none()), st.tuples(st.just('tell'), st.none()),
    st.tuples(st.just('iter'), st.none()), st.tuples(st.just('take'), st.integers(1, 3)), st.tuples(st.just('close'), st.none()))
ops = st.one_of(st.lists(op.filter(lambda o: o[0] not in ('readall', 'iter', 'close')), max_size=30), st.lists(op, max_size=38))


@st.composite
def case(draw):
    c = {'chunks': draw(st.lists(chunk, max_size=12)), 'producer': draw(st.sampled_from(['generator', 'chunks', 'lazy', 'chunkiter', 'nested'])), 'n': draw(st.integers(1, 30)), 'ops': draw(ops)}
    if draw(st.integers(0, 3)) == 0:
        # closed while more or less is buffered
        c['chunks'].insert(draw(st.integers(0, len(c['chunks']))), draw(st.sampled_from([b'y' * 4200, b'z' * 9000, b'w' * 70000, b'v' * 40])))
        c['ops'] = c['ops'][:20] + [('next', None)] * draw(st.integers(0, 3)) + [('read', draw(st.integers(1, 9))), ('close', None), ('tell', None)] + draw(st.lists(op, max_size=6))
    if not any(o in ('next', 'take') for o, _ in c['ops']):
        for i in draw(st.lists(st.integers(0, len(c['chunks'])), max_size=2)):
            c['chunks'].insert(i, b'')
    return c


def producer(s, c):
    """-> (Ref, how the producer splits the data)"""
    data = b''.join(c['chunks'])
    k = c['producer']
    if k in ('generator', 'chunks'):
        return s.new('h.' + k, c['chunks']), list(c['chunks'])
    if k == 'lazy':
        return s.new(DS + 'LazyStream', s.new('h.chunks', c['chunks'])), list(c['chunks'])
    split = [data[i:i + c['n']] for i in range(0, len(data), c['n'])]
    if k == 'chunkiter':
        return s.new(DS + 'ChunkIter', s.new('h.bytesio', data), c['n']), split
    return s.new(DS + 'ChunkIter', s.new(DS + 'LazyStream', s.new('h.chunks', c['chunks'])), c['n']), split


def check(ctx, c):
    s = Script()
    p, src = producer(s, c)
    f = s.new(DS + 'LazyStream', p)
    left, pos, closed = b'', 0, False
    last = b''          # what was read last, from which pieces can be pushed back
    todo = []

    def pull():
        if src and not closed:
            return src.pop(0)
        return None

    for o, a in c['ops']:
        if o == 'read':
            while len(left) < a:
                k = pull()
                if k is None:
                    break
                left += k
            v, left = left[:a], left[a:]
            pos += len(v)
            last = v
            todo.append((s.call(f, 'read', a), v, 'read(%d)' % a))
        elif o in ('readall', 'iter'):
            v = left + (b'' if closed else b''.join(src))
            left = b''
            if not closed:
                src.clear()
            pos += len(v)
            last = v
            todo.append((s.call(f, 'read') if o == 'readall' else s.func('h.items', f), v, o))
        elif o in ('next', 'take'):
            got = []
            for _ in range(a or 1):
                if left:
                    v, left = left, b''
                else:
                    v = pull()
                    if v is None:
                        break
                pos += len(v)
                got.append(v)
            last = b''.join(got)
            if o == 'next':
                todo.append((s.call(f, 'next'), got[0] if got else StopIteration, 'next()'))
            else:
                todo.append((s.func('h.take', f, a), got, 'the next %d pieces' % a))
        elif o in ('unget', 'back'):
            v = a if o == 'unget' else last[max(0, len(last) - a):]
            if o == 'back':
                last = last[:max(0, len(last) - a)]
            else:
                last = b''
            left = v + left
            pos -= len(v)
            todo.append((s.call(f, 'unget', v), None, 'unget(%r)' % v))
        elif o == 'tell':
            todo.append((s.call(f, 'tell'), pos, 'tell()'))
        else:
            closed = True
            todo.append((s.call(f, 'close'), None, 'close()'))
    v = left + (b'' if closed else b''.join(src))
    todo.append((s.call(f, 'tell'), pos, 'tell()'))
    todo.append((s.call(f, 'read'), v, 'reading the rest'))
    todo.append((s.call(f, 'read'), b'', 'reading at the end'))
    todo.append((s.call(f, 'read', 5), b'', 'reading 5 at the end'))
    todo.append((s.call(f, 'tell'), pos + len(v), 'tell() at the end'))
    res = ctx.run(s)
    for i, (step, want, what) in enumerate(todo):
        if want is StopIteration:
            if not (isinstance(res[step], Exc) and res[step].type == 'StopIteration'):
                ctx.fail('step %d, %s: %r at the end of the stream', i, what, res[step])
        elif what == 'iter':
            got = ctx.ok(res[step], what)
            ctx.eq(b''.join(got), want, 'step %d, iteration' % i)
        else:
            ctx.eq(res[step], want, 'step %d, %s' % (i, what))
    kinds = {o for o, _ in c['ops']}
    ctx.label(c['producer'], *kinds)
    ctx.nt(len(c['chunks']) > 1 and len(kinds) > 2 and ('unget' in kinds or 'back' in kinds))


@st.composite
def stuck(draw):
    return {'n': draw(st.sampled_from([1, 5, 20, 39, 40, 40, 41, 41, 42, 45, 60, 80])), 'piece': draw(st.integers(1, 8)), 'how': draw(st.sampled_from(['unget', 'next', 'varied', 'refilled', 'unget'])),
            'extra': draw(st.integers(0, 3))}


def check_stuck(ctx, c):
    s = Script()
    n, k = c['n'], c['piece']
    chunks = [b'abcdefgh'[:k]] * 300
    f = s.new(DS + 'LazyStream', s.new('h.chunks', chunks))
    first = s.call(f, 'read', k)
    steps = []
    for i in range(n):
        if c['how'] == 'unget':
            steps.append(s.call(f, 'unget', b'abcdefgh'[:k]))
        elif c['how'] == 'next':
            steps.append(s.call(f, 'unget', b'abcdefgh'[:k]))
            steps.append(s.call(f, 'next'))
        elif c['how'] == 'varied':      # never more than forty of one size without new input
            steps.append(s.call(f, 'unget', b'x' * (1 + i % 3)))
        else:                           # new input in between
            steps.append(s.call(f, 'read', k))
            steps.append(s.call(f, 'unget', b'abcdefgh'[:k]))
            steps.append(s.call(f, 'read', k))
    res = ctx.run(s)
    ctx.ok(res[first], 'read')
    raised = [res[i] for i in steps if isinstance(res[i], Exc)]
    for e in raised:
        if e.type != 'SuspiciousMultipartForm':
            ctx.fail('%r', e)
    must = c['how'] in ('unget', 'next') and n > 40
    if must != bool(raised):
        ctx.fail('%d times %s of %d bytes: %s', n, c['how'], k, 'reported as suspicious' if raised else 'not reported')
    ctx.label(c['how'], 'reported' if raised else 'fine')
    ctx.nt(n > 5)


PARTS = [
    Part('model', case(), check, 'sequences of reads, push-backs, iteration and close over several kinds of producer, against a byte queue; non-trivial: several chunks, a push-back and three kinds of operation', 3500, 60000),
    Part('stuck', stuck(), check_stuck, 'repeated push-backs with and without new input, around forty; non-trivial: more than five', 150, 1500),
]
