"""What the application sends and receives is what is recorded: forwarding and copying on the abstract paths of the recording wrappers."""
from ..core import *
from .util import *
from ..engine import BOUNDARY
from .c18 import M, REQR, CONN

RS = M + 'RecordingStream'
RESP = M + 'RecordingHTTPResponse'
DATA = ('read', 'readinto', 'readline')


def buffers(ctx):
    """(request attr, response attr, started attr) of the recorder"""
    if hasattr(ctx, '_recbufs'):
        return ctx._recbufs
    out = []
    started = set()
    for m in ('write_request', 'write_response'):
        q = ctx.method(REQR, m)
        b = ctx.prog.funcs[q].posargs[1]
        found = set()
        for p in ctx.run(q, self_cls=REQR):
            ws = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'write']
            for e in ws:
                r = core(e.recv)
                if is_fld(r) and r[1] == SELF:
                    found.add(r[2])
                for t, v in p.state.null.items():
                    if is_fld(t) and t[1] == SELF and v == T_ and t != r:
                        started.add(t[2])
        if len(found) != 1:
            raise AnalysisBroken('%s writes to %s' % (q, sorted(found)))
        out.append(found.pop())
    ctx._recbufs = (out[0], out[1], started.pop() if len(started) == 1 else None)
    return ctx._recbufs


def check_record_write(ctx):
    """write_request/write_response append exactly what they get, once, when a request has begun"""
    ctx.cur = 'append'
    rq, rs, started = buffers(ctx)
    ctx.ob(rq != rs, REQR, 'request and response have their own buffer', key='own')
    for m, attr in (('write_request', rq), ('write_response', rs)):
        q = ctx.method(REQR, m)
        b = sym(ctx.prog.funcs[q].posargs[1])
        for p in ctx.run(q, self_cls=REQR):
            if p.kind == 'x':
                continue
            ws = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'write']
            on = truthy(p.state, ('fld', SELF, started, 0)) if started else None
            if on is True:
                ok = len(ws) == 1 and is_fld(core(ws[0].recv), attr) and core(ws[0].arg(0)) == b
                ctx.ob(ok or (True if not ws and truthy(p.state, b) is False else False), ws[0] if ws else q, 'the block is appended once', path=p, key=m)
            elif on is False:
                ctx.ob(not ws, ws[0] if ws else q, 'nothing is recorded before a request begins', path=p, key=m + ':off')
            else:
                ctx.ob(None, q, 'recording not tied to the start of a request')


def wrapped(ctx):
    """attribute of the wrapped stream"""
    q = ctx.method(RS, '__init__')
    names = ctx.prog.funcs[q].posargs
    out = {}
    for p in ctx.run(q, self_cls=RS):
        for e in p.events():
            if e.kind == 'store' and e.recv == SELF and core(e.args[0]) in (sym(names[1]), sym(names[2])):
                out[e.name] = names.index(core(e.args[0])[1])
    fp = [k for k, v in out.items() if v == 1]
    rec = [k for k, v in out.items() if v == 2]
    if len(fp) != 1 or len(rec) != 1:
        raise AnalysisBroken('RecordingStream does not keep its stream and recorder')
    return fp[0], rec[0]


def check_address(ctx):
    """the address of the server may be unknown by now: the response is read all the same"""
    ctx.cur = 'wrapped'
    q = ctx.method(RS, '__init__')
    n = 0
    for p in ctx.run(q, self_cls=RS, raise_pred=lambda name, recv, excs, eng: ('OSError',) if tail(name) == 'getpeername' else False):
        ev = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'getpeername' and e.raised]
        if not ev:
            continue
        n += 1
        ctx.ob(p.kind != 'x', ev[-1], 'a response is read though the address of the server cannot be told', path=p, key='address')
    if not n:
        ctx.ob(True, q, 'the address is not asked for')


def check_stream(ctx):
    fp, rec = wrapped(ctx)
    rq, rs, started = buffers(ctx)
    REC = ('fld', SELF, rec, 0)
    opaque = BOUNDARY - {ctx.method(REQR, 'write_request'), ctx.method(REQR, 'write_response')}
    cls = ctx.prog.classes[RS]
    names = [m for m in cls.methods if not m.startswith('_') and m not in ('close', 'flush')]
    for m in sorted(set(names) | set(DATA)):
        ctx.cur = 'copied'
        q = ctx.method(RS, m)
        f = ctx.prog.funcs[q]
        for p in ctx.run(q, self_cls=RS, boundary=opaque):
            if p.kind == 'x':
                ctx.ob(False, q, 'reading raises only what the stream raises', path=p, key=m + ':raises')
                continue
            st = p.state
            ev = p.events()
            cs = [e for e in ev if e.kind == 'call' and is_fld(core(e.recv), fp) and core(e.recv)[1] == SELF]
            ws = [e for e in ev if e.kind == 'call' and tail(e.name) == 'write' and is_fld(core(e.recv)) and core(e.recv)[2] in (rq, rs)]
            rw = [e for e in ev if e.kind == 'call' and tail(e.name) in ('write_response', 'write_request')]
            if rw:
                ctx.ob(None, rw[0], 'recording not analysed')
                continue
            if not cs:
                if m in DATA:
                    ctx.ob(False, q, 'the stream is read', path=p, key=m + ':read')
                continue
            if m not in DATA and tail(cs[0].name) not in ('read1', 'readinto1', 'peek', 'readlines', '__next__', 'readall'):
                continue
            if m == 'peek':
                ctx.ob(not ws, cs[0], 'peeking is not recorded', path=p, key=m)
                continue
            c = cs[0]
            ok = len(cs) == 1 and tail(c.name) == m
            ctx.ob(ok or (None if len(cs) == 1 else False), c, 'one %s of the stream' % m, path=p, key=m + ':once')
            ctx.ob([core(a) for a in c.args] + [core(v) for v in (c.kw or {}).values()] == [sym(a) for a in f.posargs[1:]], c, 'with the arguments given', path=p, key=m + ':args')
            ctx.ob(core(p.value) == c.result, c, 'its result is the result', path=p, key=m + ':result')
            ctx.cur = 'recorded'
            on = None
            for t, v in st.null.items():
                if is_fld(core(t), started) and core(core(t)[1]) == REC:
                    on = True if v == T_ else False if 'T' not in v else None
            got = truthy(st, c.result)
            into = 'into' in m
            if on is False:
                ctx.ob(not ws, ws[0] if ws else q, 'nothing is recorded before a request begins', path=p, key=m + ':off')
                continue
            ws2 = [e for e in ws if not (e.args and is_k(core(e.args[0]), 'bytes') and core(e.args[0])[2] == b'')]
            if got is False:
                ctx.ob(not ws2 or not into and [core(e.args[0]) for e in ws2] == [c.result], c, 'nothing read, nothing recorded', path=p, key=m + ':nothing')
                continue
            if on is None:
                ctx.ob(False if not ws2 else None, c, 'what is read is recorded', path=p, key=m + ':rec')
                continue
            ok = len(ws2) == 1 and core(ws2[0].recv)[2] == rs and core(core(ws2[0].recv)[1]) == REC and ev.index(ws2[0]) > ev.index(c)
            x = core(ws2[0].args[0]) if ws2 else None
            if into and ok:
                ok = is_prefix(x, sym(f.posargs[1]), c.result)
            elif ok:
                ok = x == c.result
            ctx.ob(ok, ws2[0] if ws2 else c, 'exactly the bytes delivered are recorded, once, as response', path=p, key=m + ':exact')
    if '__getattr__' in cls.methods or '__getattribute__' in cls.methods:
        ctx.ob(None, RS, 'other reads of the stream may pass unrecorded')
    # ---- close and flush
    ctx.cur = 'close'
    q = ctx.method(RS, 'close')
    FP = ('fld', SELF, fp, 0)
    for p in ctx.run(q, self_cls=RS, boundary=opaque, raise_pred=lambda name, recv, excs, eng: True if tail(name) == 'done' else None):
        ev = p.events()
        ds = [e for e in ev if e.kind == 'call' and tail(e.name) == 'done']
        cl = [e for e in ev if e.kind == 'call' and tail(e.name) == 'close' and core(e.recv) is not None and is_fld(core(e.recv), fp)]
        ctx.ob(len(ds) == 1, ds[0] if ds else q, 'closing ends the record, once', path=p, key='done')
        there = truthy(p.state, FP)
        if there is not False and not any(truthy(p.state, t) is False for t in p.state.null if is_fld(core(t), fp)):
            ctx.ob(len(cl) == 1, cl[0] if cl else q, 'the stream is closed on every way out', path=p, key='closed')
        if ds and ds[0].raised:
            ctx.ob(p.kind == 'x', ds[0], 'a failure to record comes out', path=p, key='failure')
    q = ctx.method(RS, 'flush')
    for p in ctx.run(q, self_cls=RS, boundary=opaque):
        if p.kind != 'x':
            fl = [e for e in p.events() if e.kind == 'call' and is_fld(core(e.recv), fp) and tail(e.name) == 'flush']
            ctx.ob(len(fl) == 1, q, 'flush is forwarded', path=p, key='flush')


def is_prefix(x, buf, n):
    """buf[:n] (also of a memoryview of it)"""
    if x is None:
        return False
    while x[0] == 'op' and x[1] in ('bytes', 'memoryview', 'bytearray') and len(x[2]) == 1 or x[0] == 'm' and x[1] == 'tobytes':
        x = x[2][0] if x[0] == 'op' else x[2]
    parts = x[1:] if x[0] in ('slice', 'sub') else x[2] if x[0] == 'op' and x[1] == 'slice' else None
    if parts is None:
        return False
    if len(parts) == 2 and isinstance(parts[1], tuple) and parts[1] and parts[1][0] == 'slice':
        parts = (parts[0],) + tuple(parts[1][1:])
    b = parts[0]
    while b[0] == 'op' and b[1] in ('memoryview', 'bytes') and len(b[2]) == 1:
        b = b[2][0]
    lo, hi = parts[1], parts[2]
    return b == buf and (lo in (None, NONE) or lo == K(0)) and hi == n and (len(parts) < 4 or parts[3] in (None, NONE))


def check_send(ctx):
    rq, rs, started = buffers(ctx)
    q = ctx.method(CONN, 'send')
    data = sym(ctx.prog.funcs[q].posargs[1])
    ex = ctx.prog.lookup(REQR, 'extract_url')
    opaque = BOUNDARY | ({ex[1].q} if ex and ex[0] == 'fn' else set())
    for p in ctx.run(q, self_cls=CONN, boundary=opaque):
        if p.kind == 'x':
            continue
        ctx.cur = 'sent'
        total = 0
        # a block handed on to the next round is not followed
        carried = False
        for seg in segments(p.items, set()):
            rs_ = {x.result for x in seg if isinstance(x, Event) and x.kind == 'call' and core(x.recv) == data}
            for x in seg:
                if isinstance(x, Event) and x.kind == 'call' and (x.name or '').endswith('HTTPConnection.send'):
                    a = x.args if x.args and show(x.args[0]) != 'self' else x.args[1:]
                    if a and core(a[0]) not in rs_ | {data}:
                        carried = True
        for seg in segments(p.items, set()):
            ev = [x for x in seg if isinstance(x, Event)]
            end = seg[-1].state if seg and isinstance(seg[-1], SegEnd) else p.state
            sends = [e for e in ev if e.kind == 'call' and tail(e.name) == 'send' and (e.name or '').endswith('HTTPConnection.send')]
            reads = [e for e in ev if e.kind == 'call' and tail(e.name) in ('read', 'readblocks', 'readinto') and core(e.recv) == data]
            ws = [e for e in ev if e.kind == 'call' and tail(e.name) == 'write' and is_fld(core(e.recv)) and core(e.recv)[2] in (rq, rs)]
            ok_all = not carried
            used = []
            for s in sends:
                a = s.args if s.args and show(s.args[0]) != 'self' else s.args[1:]
                x = core(a[0]) if a else None
                mine = [r for r in reads if r.result == x]
                if x == data:
                    total += 1
                elif not mine:
                    ctx.ob(None, s, 'block sent: %s' % show(x)[:40])
                    ok_all = False
                    continue
                used.append(x)
                # recorded once, after it
                rec_on = recorder_on(end, ev, s)
                w = [e for e in ws if core(e.args[0]) == x]
                ctx.cur = 'recorded'
                if rec_on is False:
                    ctx.ob(not w, s, 'nothing is recorded without a recorder or before a request begins', path=p, key='off')
                elif rec_on is True:
                    ok = len(w) == 1 and core(w[0].recv)[2] == rq and ev.index(w[0]) > ev.index(s)
                    ctx.ob(ok, s, 'the block sent is recorded, once, after it was sent, as request', path=p, key='recorded')
                else:
                    ctx.ob(False if not w else None, s, 'the block sent is recorded', path=p, key='recorded')
                ctx.cur = 'sent'
            ctx.cur = 'recorded'
            for w in ws:
                if ok_all:
                    ctx.ob(core(w.args[0]) in used, w, 'only what was sent is recorded', path=p, key='only')
            ctx.cur = 'sent'
            for r in reads:
                n = truthy(end, r.result)
                k = len([x for x in used if x == r.result])
                if n is False:
                    ctx.ob(not k, r, 'an empty block ends the body', path=p, key='end')
                elif ok_all:
                    ctx.ob(k == 1, r, 'each block read of a body is sent, once', path=p, key='block')
        ctx.cur = 'sent'
        stream = any(isinstance(x, LoopRef) for x in p.items) or any(e.kind == 'call' and tail(e.name) == 'read' and core(e.recv) == data for e in p.events())
        if stream:
            ctx.ob(total == 0, q, 'a body read in blocks is not sent again', path=p, key='twice')
            last = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'read' and core(e.recv) == data]
            if last:
                t = truthy(p.state, last[-1].result)
                short = t is None and any(x == ('op', 'len', (last[-1].result,)) or x[0] == 'len' and last[-1].result in x[1:]
                                          for f in p.state.nums for x in subterms(f) if isinstance(x, tuple))
                ctx.ob(True if t is False else None if carried or t is None and not short else False, last[-1], 'the body is read to its end', path=p, key='all')
        else:
            ctx.ob(total == 1, q, 'the data is sent once', path=p, key='once')


def recorder_on(st, ev, s):
    """is there a recorder and has its request begun, on this stretch"""
    r = b = None
    for t, v in st.null.items():
        t = core(t)
        if is_fld(t) and t[1] == SELF and t[2] == 'recorder':
            r = False if 'T' not in v else True if 'N' not in v else r
        elif is_fld(t) and is_fld(core(t[1])) and core(t[1])[1] == SELF and t[2] != 'recorder':
            b = True if v == T_ else False if 'T' not in v else b
    if r is False:
        return False
    if r is True:
        return b
    return None


def check_response(ctx):
    """responses of a recorded connection are read through a RecordingStream"""
    ctx.cur = 'wrapped'
    q = ctx.method(RESP, '__init__')
    for p in ctx.run(q, self_cls=RESP):
        if p.kind == 'x':
            continue
        ev = p.events()
        base = [e for e in ev if e.kind == 'call' and tail(e.name) == '__init__' and 'HTTPResponse' in str(e.name)]
        ns = [e for e in ev if e.kind == 'new' and e.name == RS]
        ss = [e for e in ev if e.kind == 'store' and e.recv == SELF and e.name == 'fp']
        ok = len(base) == 1 and len(ns) == 1 and len(ss) == 1 and core(ss[0].args[0]) == ns[0].result and ev.index(base[0]) < ev.index(ns[0])
        ctx.ob(ok, ss[0] if ss else q, 'the stream of the response is wrapped, once, after it is set up', path=p, key='wrap')
        if ok:
            ctx.ob(is_fld(core(ns[0].arg(0, 'fp')), 'fp') and core(ns[0].arg(1, 'recorder')) == sym(ctx.prog.funcs[q].posargs[1]), ns[0], 'around its own stream, for the recorder given', path=p, key='around')
    # the response class of a recorded connection
    for p in ctx.run(ctx.method(CONN, '__init__'), self_cls=CONN):
        for e in p.events():
            if e.kind == 'store' and e.recv == SELF and e.name == 'response_class':
                ctx.ob('make_' in show(e.args[0]) or 'closure' in show(e.args[0]) or 'partial' in show(e.args[0]) or RESP in show(e.args[0]) or None, e, 'responses are recording ones', path=p, key='class')
    for qn, f in sorted(ctx.prog.funcs.items()):
        if qn.startswith(CONN + '.__init__.'):
            for p in ctx.run(qn):
                if p.kind == 'x':
                    continue
                ns = [e for e in p.events() if e.kind == 'new' and e.name == RESP]
                if ns:
                    ctx.ob(core(p.value) == ns[0].result and any(a[0] == 'star' for a in ns[0].args[1:]) and '**' in (ns[0].kw or {}), ns[0], 'a recording response of the same arguments', path=p, key='make')


def check(ctx):
    ctx.rule('append', 'a block is appended to its own buffer once a request has begun')
    ctx.rule('copied', 'a read is forwarded once and its result returned')
    ctx.rule('recorded', 'exactly the bytes delivered are recorded, once')
    ctx.rule('close', 'closing ends the record and closes the stream on every way out')
    ctx.rule('sent', 'every block is sent once, as without recording')
    ctx.rule('wrapped', 'responses are read through the recording stream')
    for f in (check_record_write, check_address, check_stream, check_send, check_response):
        ctx.guarded(f)
