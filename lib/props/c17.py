from hypothesis import assume, strategies as st
from core import Part
from gen import *
from jy import Exc, Script
from props import c10, c13, c15

BUILTIN = ['ConvC', 'MemC', 'TempC']


@st.composite
def case(draw):
    b = draw(boundaries).encode()
    ps = []
    for _ in range(draw(st.integers(1, 6))):
        p = draw(part(b, ('file', 'file', 'field'), big=False) if draw(st.integers(0, 4)) else c13.b64part(b, ('file',)))
        if p['kind'] == 'file' and 'wire' not in p and draw(st.booleans()):
            p['content'] = scrub(draw(st.sampled_from([b'a', b'banana\r\n', b'\r\n--'])) * draw(st.integers(0, 300)), b)
        ps.append(p)
    c = {'boundary': b, 'parts': ps, 'pre': draw(c10.PRE), 'epi': draw(c10.EPI)}
    assume(c10.usable(b, body_bytes(b, ps, c['pre'], c['epi']), ps))
    builtin = draw(st.sampled_from([None, None, None] + BUILTIN))
    n = draw(st.integers(1, 4 if not builtin else 3))
    nfiles = len([p for p in ps if p['kind'] == 'file'])
    specs = []
    takes = draw(st.integers(0, n - 1)) if draw(st.integers(0, 14)) == 0 else None
    for i in range(n):
        acts = []
        for _ in range(draw(st.integers(0, 3))):
            at = draw(st.one_of(st.none(), st.integers(0, max(0, nfiles - 1))))
            when, what = draw(st.sampled_from(
                [('data', 'consume'), ('data', 'consume'), ('data', 'upper'), ('data', 'upper'), ('complete', 'obj'), ('complete', 'obj'), ('complete', 'empty'), ('new', 'stopfuture'), ('new', 'stopfuture'),
                 ('new', 'skip'), ('data', 'skip'), ('new', 'stop'), ('data', 'stop'), ('new', 'reset'), ('data', 'reset'), ('new', 'error'), ('data', 'error')]))
            if what in ('stop', 'reset', 'error') and draw(st.integers(0, 2)):
                continue
            if what == 'stopfuture' and (builtin or draw(st.booleans())):
                # a handler that takes the file altogether
                acts = [a for a in acts if at is not None and a[0] is not None and a[0] != at]
                acts += [[at, 'data', 'consume'], [at, 'complete', 'obj']]
            acts.append([at, when, what])
        specs.append({'acts': acts, 'chunk_size': draw(st.one_of(st.sampled_from([65536, 4, 100]), st.integers(3, 300)))})
        if takes == i:
            specs[-1]['raw'] = 'take'
    if draw(st.booleans()) and not builtin:
        specs[-1]['end'] = draw(st.sampled_from([True, 'value']))
    if not builtin and not any(a[1:] == ['complete', 'obj'] for sp in specs for a in sp['acts']):
        specs[-1]['acts'].append([None, 'complete', 'obj'])
    # the chain is named in the settings, or set on the request, before or after its head is parsed
    c['given'] = draw(st.sampled_from(['settings', 'settings', 'request', 'after head', 'extended']))
    c.update(specs=specs, builtin=builtin, limit=draw(st.sampled_from([10 ** 6, 50])), cuts=draw(CUTS))
    return c


class Stop(Exception):
    pass


def simulate(ctx, c, log, length):
    """What the chain should be told and give, with the data split as the first handler was given it."""
    specs, n = c['specs'], len(c['specs'])
    exp, post, files = [], [], []
    how = 'complete'
    pos = [0]

    def peek():
        return log[pos[0]] if pos[0] < len(log) else None

    def event(i, kind, *args):
        got = peek()
        if got is None or got[0] != i or got[1] != kind:
            ctx.fail('handler %d should get %r, but the next event is %r (events so far: %r)', i, (kind,) + args, got, log[:pos[0]][-8:])
        pos[0] += 1
        return got[2:]

    def match(i, kind, got, want, what):
        if got != want:
            ctx.fail('%s of handler %d: got %r, expected %r', kind + ' ' + what, i, got, want)

    def act(i, when):
        for at, w, what in specs[i]['acts']:
            if w == when and (at is None or at == nfile[i]):
                return what

    for i in range(n):
        got = event(i, 'raw')
        match(i, 'raw', got, [length, c['boundary']], 'length and boundary')
        if specs[i].get('raw') == 'take':
            if peek() is not None:
                ctx.fail('after handler %d took the raw input: %r', i, peek())
            return 'taken', i, [], []
    nfile, data = [-1] * n, [b''] * n
    tail = b''
    seen = set()
    for p in c['parts']:
        if p['kind'] == 'field':
            post.append(p)
            continue
        counters, tailcount, tail = [0] * n, 0, b''
        act_now = None
        for i in range(n):
            fn, name, ctype, clen, charset, extra, te = event(i, 'new')
            if not same(fn, p['name']) or not same(name, p['filename']):
                ctx.fail('handler %d: start of file %r/%r, submitted %r/%r', i, fn, name, p['name'], p['filename'])
            match(i, 'new', clen, p.get('clen'), 'content length')
            expect_meta(ctx, i, p, ctype, charset, extra, te)
            nfile[i] += 1
            data[i] = b''
            act_now = act(i, 'new')
            seen.add(act_now)
            if act_now:
                break
        if act_now in ('stopfuture', None):
            act_now = None
            given = b''
            while peek() is not None and peek()[:2] == [0, 'data']:
                chunk = peek()[2]
                given += chunk
                if not p['content'].startswith(given):
                    ctx.fail('data of %r given to the first handler: %r, submitted %r', p['filename'], given, p['content'])
                for i in range(n):
                    d, start = event(i, 'data')
                    match(i, 'data', d, chunk, '')
                    match(i, 'data', start, counters[i], 'offset')
                    data[i] += chunk
                    act_now = act(i, 'data')
                    seen.add(act_now)
                    if act_now in ('skip', 'stop', 'reset', 'error'):
                        break
                    counters[i] += len(chunk)
                    if act_now == 'consume':
                        break
                    if act_now == 'upper':
                        chunk = chunk.replace(b'a', b'bb')
                else:
                    tail += chunk
                if act_now in ('skip', 'stop', 'reset', 'error'):
                    break
                act_now = None
            else:
                if given != p['content']:
                    ctx.fail('data of %r given to the first handler: %r, submitted %r', p['filename'], given, p['content'])
        if act_now == 'skip':
            continue
        if act_now:
            how = act_now
            break
        for i in range(n):
            size, = event(i, 'complete')
            match(i, 'complete', size, counters[i], 'size')
            if act(i, 'complete') in ('obj', 'empty'):
                files.append((p, '%d/%d' % (i, nfile[i]), data[i]))
                break
        else:
            if c['builtin'] == 'MemC' and length > c['limit']:
                pass
            elif c['builtin']:
                files.append((p, None, tail))
    if how != 'error':
        for i in range(n):
            event(i, 'end')
    if peek() is not None:
        ctx.fail('unexpected event %r', peek())
    return how, seen, post, files


def expect_meta(ctx, i, p, ctype, charset, extra, te):
    what = 'start given to handler %d' % i
    if not same(ctype, (p['ctype'] or '').lower().encode()):
        ctx.fail('%s: content type %r, submitted %r', what, ctype, p['ctype'])
    if not (te in (None, '', b'') if p['cte'] is None else same(te, p['cte'].lower().encode())):
        ctx.fail('%s: transfer encoding %r, submitted %r', what, te, p['cte'])
    cs = dict(p['params']).get('charset')
    if not (charset is None if cs is None else same(charset, cs)):
        ctx.fail('%s: charset %r, submitted %r', what, charset, cs)
    expect_params(ctx, extra, p, 'iso-8859-1', what)


def check(ctx, c):
    body = body_bytes(c['boundary'], c['parts'], c['pre'], c['epi'])
    tailing = b'T' * 40000     # after the last boundary: what stopping leaves unread
    data = form_request(c['boundary'], body + tailing)
    s = Script()
    s.func('jyhandlers.set_chunk', 512)
    s.func('h.configure_handlers', c['specs'])
    names = ['jyhandlers.H%d' % i for i in range(len(c['specs']))] + (['jyhandlers.' + c['builtin']] if c['builtin'] else [])
    stream = s.new('h.chunks', [data[i:i + 997] for i in range(0, len(data), 997)])
    own = c['given'] in ('request', 'after head')
    cfg = s.new('h.settings', None, FILE_UPLOAD_HANDLERS=['jyhandlers.Unwanted'] if own else names[:-1] or names if c['given'] == 'extended' else names, FILE_UPLOAD_TEMP_DIR=s.new('h.tmpdir'), FILE_UPLOAD_MAX_MEMORY_SIZE=c['limit'],
                DATA_UPLOAD_MAX_MEMORY_SIZE=c15.total(c))
    r = s.new(HR, stream, cfg)
    if c['given'] == 'after head':
        s.call(r, 'parse_request_header')
    chain = None
    if own:
        chain = [s.new('request_parser.files.uploadhandler.load_handler', n, r) for n in names]
        s.set(r, 'upload_handlers', chain)
    elif c['given'] == 'extended':
        # the configured ones and one more
        l = s.getnew(r, 'upload_handlers')
        if len(names) > 1:
            s.call(l, 'append', s.new('request_parser.files.uploadhandler.load_handler', names[-1], r))
    p = s.call(r, 'parse')
    late = s.set(r, 'upload_handlers', [])
    log = s.func('h.handler_log')
    taken = s.get(stream, 'taken')
    v = s.func('h.view_form', r)
    raw = s.get(r, 'POST')
    files = s.get(r, 'FILES')
    s.call(r, 'close')
    res = ctx.run(s)
    how, seen, post, stored = simulate(ctx, c, [[e[0], as_str(e[1])] + e[2:] for e in ctx.ok(res[log], 'the event log')], len(body) + len(tailing))
    if how == 'taken':
        ctx.ok(res[p], 'parsing')
        ctx.eq(res[raw], {b'taken': seen}, 'POST of a form taken over by a handler')
        ctx.eq(res[files], {}, 'FILES of a form taken over by a handler')
        ctx.label('raw input taken')
        ctx.nt()
        return
    if how == 'error':
        if not (isinstance(res[p], Exc) and res[p].type == 'RuntimeError' and res[p].args == [b'handler failed']):
            ctx.fail('after a handler failed: %r', res[p])
        ctx.eq(res[v], {'POST': [], 'FILES': []}, 'form data after a handler failed')
    else:
        ctx.ok(res[p], 'parsing')
        form = ctx.ok(res[v], 'reading')
        expect_form(ctx, form, post, files=False)
        want = {}
        for q, tag, content in stored:
            want.setdefault(q['name'], []).append((q, tag, content))
        got = {}
        for k, l in form['FILES']:
            got.setdefault(key_of(k), []).extend(l)
        ctx.eq({k: len(l) for k, l in got.items()}, {k: len(l) for k, l in want.items()}, 'number of stored files by name')
        for k in want:
            for (q, tag, content), f in zip(want[k], got[k]):
                if tag is None:
                    expect_file(ctx, f, dict(q, content=content), 'iso-8859-1', 'file %r' % k)
                else:
                    ctx.eq((as_str(f['name']), f['content']), (tag, content), 'object stored for %r' % k)
        if how == 'reset':
            if res[taken] >= len(data) and min(sp['chunk_size'] for sp in c['specs']) <= 512:
                ctx.fail('the upload was stopped without consuming the rest, but all of it was read')
        else:
            ctx.eq(res[taken], len(data), 'bytes read from the input')
    if not (isinstance(res[late], Exc) and res[late].isa('AttributeError')):
        ctx.fail('the upload handlers can be set after the upload: %r', res[late])
    ctx.label('chain from the ' + c['given'])
    ctx.label(how, *['does ' + x for x in seen if x])
    ctx.label('built-in last' if c['builtin'] else '', '%d handlers' % len(c['specs']))
    ctx.nt(any(p['kind'] == 'file' for p in c['parts']) and (len(c['specs']) > 1 or how != 'complete' or bool(seen - {None})))


PARTS = [Part('chain', case(), check, 'forms given to chains of recording handlers with generated behaviours; non-trivial: a file, and several handlers or any special behaviour', 1800, 40000)]
