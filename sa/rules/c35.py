"""The buffering writer: get_contents and get_stream give everything written, and writing goes on at the end."""
import re
from ..core import *
from .util import *

BW = 'warcio.warcwriter:BufferWARCWriter'
WW = 'warcio.warcwriter:WARCWriter'
SELF = sym('self')


def out_slot(ctx):
    """the attribute that records are written to"""
    q = WW + '.__init__'
    ctx.need(q)
    sl = ctx.slots(WW, inline={q})[0]
    first = ctx.prog.funcs[q].posargs[1]
    if first not in sl:
        raise AnalysisBroken('where a writer writes')
    return first, sl[first]


def is_start(e):
    a = [core(x) for x in e.args]
    return bool(a) and a[0] == K(0) and (len(a) == 1 or a[1] in (K(0), ))


def is_end(e):
    a = [core(x) for x in e.args]
    return len(a) > 1 and a[0] == K(0) and a[1] == K(2)


def check_contents(ctx, slot):
    ctx.cur = 'contents'
    q = ctx.method(BW, 'get_contents')
    n = 0
    for p in ctx.run(q, self_cls=BW, inline={q}):
        if p.kind == 'x':
            continue
        n += 1
        ev = [e for e in p.events() if e.kind == 'call' and not e.raised and e.recv is not None and is_fld(core(e.recv), slot) and core(core(e.recv)[1]) == SELF]
        where = 'as before'       # position: as before / end / start / read
        got, told = None, {}
        for e in ev:
            t = tail(e.name)
            if t == 'tell':
                told[core(e.result)] = where
            elif t == 'seek':
                a = [core(x) for x in e.args]
                where = 'start' if is_start(e) else 'end' if is_end(e) else told[a[0]] if len(a) == 1 and a[0] in told else 'unknown'
                if where == 'unknown' and all(is_k(core(a)) for a in e.args):
                    ctx.ob(False, e, 'contents are taken from the beginning, writing goes on at the end', path=p, key='seek')
            elif t == 'read':
                a = core(e.arg(0)) if e.args or e.kw else NONE
                whole = a == NONE or is_k(a, 'int') and a[2] < 0
                ctx.ob(True if whole else False if is_k(a) else None, e, 'all of it is read', path=p, key='all')
                ctx.ob(where == 'start' or (None if where == 'unknown' else False), e, 'contents are taken from the beginning; at: %s' % where, path=p, key='start')
                got = core(e.result)
                where = 'end' if where == 'start' and whole else 'read'
            elif t == 'getvalue':
                got = core(e.result)
            elif t == 'flush':
                pass
            elif t in ('truncate', 'close', 'write'):
                ctx.ob(False, e, 'asking for the contents does not change them', path=p, key=t)
            else:
                ctx.ob(None, e, 'what is done to the file')
        v = core(p.value)
        ctx.ob(v == got if got is not None else (None if not is_k(v) else False), q, 'what was read is given', path=p, key='given')
        ctx.ob(where == 'as before' or (None if where == 'unknown' else False), q, 'the position is left where it was; at: %s' % where, path=p, key='end')
        for e in p.events():
            if e.kind == 'store' and core(e.recv) == SELF:
                ctx.ob(False if e.name == slot else None, e, 'the file stays', path=p, key='stays')
    ctx.ob(n > 0, q, 'contents can be asked for', key='any')


def check_stream(ctx, slot):
    ctx.cur = 'stream'
    q = ctx.method(BW, 'get_stream')
    n = 0
    for p in ctx.run(q, self_cls=BW, inline={q}):
        if p.kind == 'x':
            continue
        n += 1
        v = core(p.value)
        mine = is_fld(v, slot) and core(v[1]) == SELF
        ev = [e for e in p.events() if e.kind == 'call' and not e.raised and e.recv is not None and is_fld(core(e.recv), slot)]
        if mine:
            moves = [e for e in ev if tail(e.name) not in ('tell', 'flush')]
            ctx.ob(bool(moves) and tail(moves[-1].name) == 'seek' and is_start(moves[-1]), q, 'the stream is at its beginning', path=p, key='begin')
            for e in moves:
                if tail(e.name) in ('truncate', 'close', 'write'):
                    ctx.ob(False, e, 'the stream holds all that was written', path=p, key='changed')
        else:
            ctx.ob(None if not is_k(v) else False, q, 'the stream that was written to is given; got %s' % show(v), path=p, key='given')
        for e in p.events():
            if e.kind == 'store' and core(e.recv) == SELF:
                ctx.ob(False if e.name == slot else None, e, 'the file stays', path=p, key='stays')
    ctx.ob(n > 0, q, 'a stream can be asked for', key='any')


def check_own(ctx, first, slot):
    ctx.cur = 'own'
    q = ctx.method(BW, '__init__')
    n = 0
    binds = []
    for p in ctx.run(q, self_cls=BW, inline={q}, boundary=frozenset({WW + '.__init__', 'warcio.warcwriter:BaseWARCWriter.__init__'})):
        if p.kind == 'x':
            continue
        n += 1
        files = {core(e.result): e for e in p.events() if e.kind in ('call', 'new') and not e.raised and
                 tail(e.name) in ('SpooledTemporaryFile', 'TemporaryFile', 'NamedTemporaryFile', 'BytesIO')}
        sup = [e for e in p.events() if e.kind == 'call' and tail(e.name) == '__init__']
        if not sup:
            ctx.ob(None, q, 'the file of the writer')
            continue
        e = sup[-1]
        b = e.bound or {}
        v = core(b[first]) if first in b else core(e.args[0]) if e.args else None
        ctx.ob(v in files or (None if v is not None and not (v[0] == 'fld' and v[1][0] in ('sym', 'cls')) and v[0] not in ('sym', 'k', 'dct', 'lst') and not show(v).startswith('const:') else False), e, 'each writer has a file of its own; got %s' % (show(v) if v else 'none'), path=p, key='own')
        f = files.get(v)
        if f is not None:
            m = f.kw.get('mode')
            ctx.ob(m is None or (True if is_k(core(m)) and set('wb+') <= set(core(m)[2]) else False if is_k(core(m)) else None), f, 'the file takes bytes, and gives them', path=p, key='mode')
            if tail(f.name) == 'BytesIO':
                ctx.ob(not f.args or core(f.args[0]) == K(b''), f, 'the file is empty at first', path=p, key='empty')
        text = ' '.join(show(a) for a in e.args if isinstance(a, tuple)) + ' ' + ' '.join(show(x) if isinstance(x, tuple) else str(x) for x in (e.kw or {}).values())
        fn = ctx.prog.funcs[q].node.args
        for a in (fn.vararg, fn.kwarg):
            if a is not None:
                ctx.ob(re.search(r'(?<!\w)%s\b' % a.arg, text) is not None, e, 'the options of the writer are passed on: %s' % a.arg, path=p, key='options:' + a.arg)
    ctx.ob(n > 0, q, 'a writer can be made', key='any')
    # what is given to write to is what is written to
    q = WW + '.__init__'
    for p in ctx.run(q, self_cls=WW, inline={q}, boundary=frozenset({'warcio.warcwriter:BaseWARCWriter.__init__'})):
        if p.kind == 'x':
            continue
        h = p.state.heap(SELF, slot)
        ctx.ob(h is not None and core(h) == sym(first), q, 'the file given is the one written to', path=p, key='given')


def check(ctx):
    ctx.rule('contents', 'get_contents gives all that was written, and writing goes on at the end')
    ctx.rule('stream', 'get_stream gives the file, at its beginning')
    ctx.rule('own', 'each buffering writer writes to an empty file of its own')
    first, slot = out_slot(ctx)
    ctx.guarded(check_contents, slot)
    ctx.guarded(check_stream, slot)
    ctx.guarded(check_own, first, slot)
