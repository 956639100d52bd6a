"""Scope of a capture: the recorder set and restored around the body, what is closed and what is not."""
import ast
from ..core import *
from .util import *

M = 'warcio.capture_http:'
ENTRY = M + 'capture_http'
REQR = M + 'RequestRecorder'
CONN = M + 'RecordingHTTPConnection'
WRITERS = ('warcio.warcwriter:WARCWriter', 'warcio.warcwriter:BufferWARCWriter')
OPENS = ('open', 'io.open')


def is_local(t):
    """the module's threading.local() object"""
    t = core(t)
    return t is not None and 'threading.local()' in show(t) and t[0] in ('const', 'cst', 'gbl', 'pure', 'k') or t is not None and show(t) == 'const:threading.local()'


def paths(ctx):
    if ENTRY not in ctx.prog.funcs:
        raise AnalysisBroken('capture_http is gone')
    return ctx.run(ENTRY, known_raises=True, yield_raises=True, raise_pred=lambda name, recv, excs, eng: False if name == 'getattr' else None)


def check_scope(ctx):
    ps = paths(ctx)
    n = 0
    for p in ps:
        st = p.state
        ev = p.events()
        ys = [e for e in ev if e.kind == 'yield']
        stores = [e for e in ev if e.kind == 'store' and is_local(e.recv)]
        dels = [e for e in ev if e.kind == 'call' and e.name in ('delattr',) and e.args and is_local(e.args[0]) or e.kind == 'delattr' and is_local(e.recv)]
        recs = [e for e in ev if e.kind == 'new' and e.name == REQR]
        opened = [e for e in ev if e.kind == 'call' and e.name in OPENS and not e.raised]
        closes = [e for e in ev if e.kind == 'call' and tail(e.name) == 'close' or e.kind == 'exit']
        # ---- the body
        ctx.cur = 'body'
        if not ys:
            if p.kind != 'x':
                ctx.ob(False, ENTRY, 'the body runs once', path=p, key='runs')
        else:
            n += 1
            y = ys[0]
            iy = ev.index(y)
            ctx.ob(len(ys) == 1, y, 'the body runs once', path=p, key='runs')
            before = [e for e in stores if ev.index(e) < iy]
            ctx.ob(bool(before), y, 'recording is switched on before the body', path=p, key='on')
            w = core(y.args[0])
            if before:
                r = core(before[-1].args[0])
                mine = [e for e in recs if e.result == r]
                if not mine:
                    ctx.ob(False if r == NONE or r[0] == 'fld' else None, before[-1], 'the recorder of the body is a new one', path=p, key='new')
                else:
                    e = mine[0]
                    ctx.ob(core(e.arg(0, 'writer')) == w, y, 'the body gets the writer the recorder writes to', path=p, key='same')
                    ctx.ob(core(e.arg(1, 'filter_func')) == sym('filter_func'), e, 'the filter is handed to the recorder', path=p, key='filter')
                    ctx.ob(core(e.arg(2, 'record_ip')) == sym('record_ip'), e, 'record_ip is handed to the recorder', path=p, key='ip')
                    own = {a for k, a in ctx.slots(REQR)[0].items() if k in ('writer', 'filter_func', 'record_ip')}
                    late = [x for x in ev[:iy] if x.kind == 'store' and x.name in own and not (x.func is not None and x.func.cls == REQR) and core(x.recv) == r and core(x.args[0]) not in [core(a) for a in list(e.args or ()) + list((e.kw or {}).values())]]
                    for x in late:
                        ctx.ob(False, x, 'the recorder keeps what it was given', path=p, key='late:' + x.name)
            # ---- which writer
            ctx.cur = 'writer'
            W_ = sym('warc_writer')
            mk = [e for e in ev if e.kind == 'new' and e.name in WRITERS]
            isstr = cond_known(st, lambda t: t[0] == 'op' and t[1] == 'isinstance' and t[2][0] == W_)
            none = is_none(st, W_)
            if w == W_:
                ctx.ob(none is not True and True not in isstr, y, 'a writer is made when none is given', path=p, key='given')
                ctx.ob(not mk and not opened, y, 'a writer that is given is used as it is', path=p, key='asis')
            elif not mk or mk[-1].result != w:
                ctx.ob(None, y, 'the writer of the body')
            else:
                e = mk[-1]
                buf = tail(e.name.replace(':', '.')) == 'BufferWARCWriter'
                ctx.ob(buf == (none is True), e, 'in memory exactly when no writer is given', path=p, key='memory')
                ctx.ob('**' in (e.kw or {}), e, 'the options go to the writer', path=p, key='options')
                has = cond_known(st, lambda t: 'gzip' in show(t) and 'kwargs' in show(t))
                given = any("'gzip'" in show(k) and v == T_ for k, v in st.null.items()) or True in has
                missing = any("'gzip'" in show(k) and 'T' not in v for k, v in st.null.items()) or False in has
                g = (e.kw or {}).get('gzip')
                kwc = core(e.kw.get('**')) if e.kw else None
                sd = [x for x in ev if x.kind in ('call', 'setitem') and core(x.recv) == kwc and x.name in ('setdefault', 'setitem', 'update') and ev.index(x) < ev.index(e)]
                extra = [x for x in sd if x.name in ('setdefault', 'setitem') and x.args and is_k(x.args[0], 'str') and x.args[0][2] != 'gzip']
                for x in extra:
                    ctx.ob(False, x, 'no option is set that was not given', path=p, key='extra')
                if buf:
                    if g is None and any(x.name == 'setdefault' and list(x.args) == [K('gzip'), K(False)] for x in sd):
                        ctx.ob(True, e, 'compression in memory is off unless asked for', path=p, key='gzip')
                    elif any(x.name != 'setitem' for x in sd) or kwc is None or show(kwc) != '**kwargs':
                        ctx.ob(None, e, 'options of the writer')
                    elif given:
                        ctx.ob(g is None, e, 'compression in memory is as asked for', path=p, key='gzip-given')
                    else:
                        ctx.ob(missing and g == K(False), e, 'compression in memory is off unless asked for', path=p, key='gzip')
                else:
                    ctx.ob(g is None, e, 'compression of a file is as asked for', path=p, key='gzip-file')
                    ctx.ob(any(core(e.arg(0, 'filebuf')) == o.result for o in opened) or None, e, 'the file writer writes to the file', path=p, key='file')
        # ---- the file
        ctx.cur = 'file'
        for o in opened:
            ctx.ob(core(o.arg(0, 'file')) == sym('warc_writer'), o, 'the file named is opened', path=p, key='name')
            m = o.arg(1, 'mode')
            app = truthy(st, sym('append'))
            if not is_k(m, 'str'):
                ctx.ob(None, o, 'mode %s' % show(m))
            else:
                mm = ''.join(sorted(m[2].replace('b', '')))
                ctx.ob('b' in m[2], o, 'opened for bytes', path=p, key='binary')
                ctx.ob(app is not None and (mm == 'a') == app and mm in ('a', 'x'), o, 'an existing file is appended to when asked to and never overwritten', path=p, key='mode')
        # ---- the way out
        ctx.cur = 'restored'
        if stores or dels:
            s0 = stores[0] if stores else None
            attr = s0.name if s0 else 'recorder'
            was = ('fld', s0.recv, attr, 0) if s0 else None
            last = max(stores + dels, key=ev.index)
            after = ys and ev.index(last) > ev.index(ys[-1])
            if recs and core(last.args[0] if last in stores else NONE) in [e.result for e in recs]:
                ctx.ob(False, last, 'the recorder in place before is back on every way out', path=p, key='back')
            elif last in stores:
                v = core(last.args[0])
                has = cond_known(st, lambda t: t[0] == 'op' and t[1] == 'hasattr' and is_local(t[2][0]))
                if v == NONE:
                    ctx.ob(True not in has or is_none(st, was) is True, last, 'the recorder in place before is back on every way out', path=p, key='back')
                elif is_fld(v) and is_local(v[1]):
                    ctx.ob(True, last, 'the recorder in place before is back on every way out', path=p, key='back')
                else:
                    ctx.ob(None, last, 'restored to %s' % show(v)[:40])
            else:
                has = cond_known(st, lambda t: t[0] == 'op' and t[1] == 'hasattr' and is_local(t[2][0]))
                ctx.ob(False in has or None, last, 'the recorder in place before is back on every way out', path=p, key='back')
        ctx.cur = 'closed'
        for o in opened:
            c = [e for e in closes if core(e.recv) == o.result]
            failed_before = p.kind == 'x' and not ys
            if not c and failed_before:
                continue
            if not c and any('T' in v and v == T_ and (is_fld(k, 'closed') and core(k[1]) == o.result or "'closed'" in repr(k) and contains(k, o.result)) for k, v in st.null.items()):
                continue
            if not c and True in cond_known(st, lambda t: "'closed'" in repr(t) and contains(t, o.result)):
                continue
            ctx.ob(bool(c) and (not ys or ev.index(c[-1]) > ev.index(ys[-1])), o, 'the file is closed after the body on every way out', path=p, key='closed')
        for e in closes:
            r = core(e.recv)
            ctx.ob(r in [o.result for o in opened] or (None if not (r == sym('warc_writer') or contains(r, sym('warc_writer')) or any(e2.result == r for e2 in ev if e2.kind == 'new')) else False),
                   e, 'nothing that was handed in is closed', path=p, key='notmine')
        if p.kind == 'x' and ys:
            ctx.ob(True, ENTRY, 'an exception of the body comes out', path=p, key='exc')
        elif ys and p.kind != 'x':
            ctx.cur = 'restored'
            caught = [e for e in ev if e.kind == 'catch' and e.args and e.args[0] is not None and str(ys[-1].eid) in str(e.args[0])]
            ctx.ob(not caught, ys[-1], 'an exception of the body comes out', path=p, key='swallow')
    if not n:
        ctx.ob(None, ENTRY, 'no path reaches the body')
    f = ctx.prog.funcs[ENTRY]
    ctx.cur = 'body'
    decos = [ast.unparse(d) for d in f.node.decorator_list]
    ctx.ob(any('contextmanager' in d for d in decos) or None, ENTRY, 'a context manager: %s' % decos, key='cm')


def check_close_fails(ctx):
    """closing the file may fail (disk full): the recorder is restored all the same"""
    ctx.cur = 'restored'
    for p in ctx.run(ENTRY, yield_raises=True, raise_pred=lambda name, recv, excs, eng: tail(name) == 'close'):
        ev = p.events()
        bad = [e for e in ev if e.kind in ('call', 'exit') and tail(e.name or '') in ('close', '__exit__') and e.raised]
        ys = [e for e in ev if e.kind == 'yield']
        if not bad or not ys:
            continue
        stores = [e for e in ev if e.kind in ('store', 'delattr') and is_local(e.recv) and ev.index(e) > ev.index(ys[-1])
                  or e.kind == 'call' and e.name == 'delattr' and e.args and is_local(e.args[0])]
        ctx.ob(bool(stores), bad[-1], 'the recorder in place before is back though the file cannot be closed', path=p, key='close-fails')


def check_connection(ctx):
    """connections record exactly when they are opened while a recorder is set in their thread"""
    q = ctx.method(CONN, '__init__')
    ctx.cur = 'connection'
    shared = []
    for p in ctx.run(q, self_cls=CONN):
        if p.kind == 'x':
            continue
        st = p.state
        ev = p.events()
        base = [e for e in ev if e.kind == 'call' and tail(e.name) == '__init__' and 'HTTPConnection' in str(e.name) and not e.raised]
        ctx.ob(len(base) == 1 and show(base[0].args[0] if base[0].args else base[0].recv) == 'self', base[0] if base else q, 'the connection is set up as the original one', path=p, key='base')
        if base:
            ctx.ob('**' in (base[0].kw or {}) and any(a[0] == 'star' for a in base[0].args), base[0], 'with the arguments given', path=p, key='args')
        has = cond_known(st, lambda t: t[0] == 'op' and t[1] == 'hasattr' and is_local(t[2][0]))
        ss = [e for e in ev if e.kind == 'store' and e.recv == SELF]
        rc = [e for e in ss if e.name == 'response_class']
        final = {}
        for e in ss:
            final[e.name] = e
        loc = lambda t: is_fld(t) and is_local(t[1])
        own = {e.result for e in ev if e.kind == 'new' and e.name == REQR}
        mine = None
        for nm, e in final.items():
            v = core(e.args[0])
            if loc(v):
                mine = (e, v)
            elif v in own:
                w = [x.args[0] for x in ev if x.kind == 'store' and x.recv == v and x.name == 'writer']
                src = core(w[-1]) if w else None
                mine = (e, core(src[1]) if is_fld(src, 'writer') and loc(core(src[1])) else None)
        if has == {False}:
            ctx.ob(mine is None and not rc, q, 'no recorder in this thread: nothing is recorded', path=p, key='none')
            continue
        asked = [t for t in list(st.null) if loc(t)]
        off = bool(asked) and all(truthy(st, t) is False for t in asked)
        if off:
            ctx.ob(not rc, q, 'no recorder: responses are not touched', path=p, key='untouched')
            continue
        if mine is None:
            ctx.ob(False if has == {True} else None, q, 'the recorder of this thread is taken', path=p, key='take')
            continue
        e, src = mine
        if src is None:
            ctx.ob(False, e, 'to the writer of the recorder of this thread', path=p, key='take')
            continue
        t = truthy(st, src)
        if t is True:
            ctx.ob(bool(rc), e, 'responses are recorded', path=p, key='response')
        else:
            ctx.ob(None, e, 'recorder not asked for')
    for m in ctx.prog.classes[CONN].methods:
        for p in ctx.run(ctx.method(CONN, m), self_cls=CONN):
            for e in p.events():
                if e.kind in ('store', 'delattr') and is_local(e.recv) or e.kind == 'call' and e.name in ('delattr', 'setattr') and e.args and is_local(e.args[0]):
                    ctx.ob(False, e, 'the recorder stays set for the connections to come', path=p, key='stays')
    # one object per thread
    f = ctx.prog.classes[CONN]
    loc = [e for e in [x for p in ctx.run(ENTRY, known_raises=True) for x in p.events()] if e.kind == 'store' and is_local(e.recv)]
    st2 = [x for p in ctx.run(ENTRY, known_raises=True) for x in p.events() if x.kind == 'store' and is_k(x.args[0] if x.args else None) is False and x.recv is not None and not is_local(x.recv) and x.recv[0] in ('cls', 'gbl', 'const', 'mod')]
    ctx.ob(bool(loc) and not st2 if loc or st2 else None, loc[0] if loc else ENTRY, 'the recorder is set for this thread only', key='thread')


def check(ctx):
    ctx.rule('body', 'the body runs once, recording to the writer it gets')
    ctx.rule('writer', 'a writer is made exactly when none is given, with the options given')
    ctx.rule('file', 'a file name is opened to append or exclusively')
    ctx.rule('restored', 'the recorder in place before is back on every way out')
    ctx.rule('closed', 'the file opened here is closed on every way out, nothing else is')
    ctx.rule('connection', 'connections take the recorder of their thread when they are made')
    for f in (check_scope, check_close_fails, check_connection):
        ctx.guarded(f)
