"""Files: what is opened for a name, who closes it and when.  Typestate of every handle (opened, entered, closed) on
every path of the functions that open files, each call on it being able to raise."""
import ast
from ..core import *
from .util import *
from ..engine import BOUNDARY

U = 'warcio.utils:'
FO = U + 'fsspec_open'
CAP = 'warcio.capture_http:capture_http'
CLASSES = ('warcio.indexer:Indexer', 'warcio.checker:Checker', 'warcio.extractor:Extractor', 'warcio.recompressor:Recompressor')
RAW = ('open', 'io.open', 'fsspec.open', 'os.fdopen')
TEMP = ('TemporaryFile', 'SpooledTemporaryFile', 'NamedTemporaryFile')
WRAPPED = ('fsspec_open', 'open_or_default')
# these stay until they are deleted
MADE = ('mkstemp', 'mkdtemp')
DELETES = ('remove', 'unlink', 'rmtree', 'removedirs', 'rmdir')
DASH = (K('-'), K(b'-'))


def opened(e):
    return e.kind == 'call' and not e.raised and e.result is not None and (e.name in RAW or tail(e.name) in TEMP or tail(e.name) in WRAPPED)


def says(st, t, k):
    for a, v in st.lits.items():
        if a[0] == 'eq' and t in a[1:] and k in a[1:]:
            return v
    return None


def is_str(st, t):
    for a, v in st.lits.items():
        if a[0] == 'cond' and a[1][0] == 'op' and a[1][1] == 'isinstance' and a[1][2][0] == t:
            return v
    return None


def check_open(ctx, q):
    f = ctx.prog.funcs[q]
    names = f.posargs
    if len(names) < 3:
        raise AnalysisBroken('%s takes a name, a mode and a default' % q)
    F, M, D = (sym(x) for x in names[:3])
    n = 0
    for p in ctx.run(q, known_raises=True, yield_raises=True, inline={q, FO}):
        st = p.state
        ev = p.events()
        ys = [(i, e) for i, e in enumerate(ev) if e.kind == 'yield']
        ops = [(i, e) for i, e in enumerate(ev) if opened(e)]
        ctx.cur = 'selects'
        if not ys:
            ctx.ob(p.kind == 'x', q, 'every call gives a handle', path=p, key='none')
            continue
        n += 1
        ctx.ob(len(ys) == 1, q, 'gives one handle', path=p, key='one')
        i, y = ys[0]
        v = y.args[0] if y.args else NONE
        dash = any(says(st, F, k) is True for k in DASH)
        null = st.nullness(F)
        strs = is_str(st, F)
        given = 'N' not in null and 'E' not in null
        if v == D:
            ctx.ob(dash or 'T' not in null or (None if not given and strs is None else False), y, 'the default is given for no name and for "-" only', path=p, key='default')
        elif v == F:
            ctx.ob(given and strs is False or (None if strs is None else False), y, 'what is no name is given as it is', path=p, key='same')
            ctx.ob(says(st, F, K(b'-')) is False, y, '"-" is the default, as bytes too', path=p, key='dash')
        elif any(v == e.result for j, e in ops):
            a = [e for j, e in ops if e.result == v][0]
            ctx.ob(a.arg(0) == F, a, 'the file of that name is opened; got %s' % (show(a.arg(0)) if a.arg(0) else None), path=p, key='name')
            m = a.arg(1, 'mode')
            ctx.ob(m == M, a, 'in the mode asked for; got %s' % (show(m) if m else 'the default'), path=p, key='mode')
            for k in DASH:
                ctx.ob(says(st, F, k) is False or strs is True and k[1] == 'bytes', a, '"-" is no file name', path=p, key='dash')
            ctx.ob('N' not in null and 'E' not in null or None, a, 'an empty name is no file name', path=p, key='empty')
            ctx.ob(strs is True or None, a, 'a name is text', path=p, key='text')
            if a.name == 'fsspec.open':
                ent = [e for e in ev[:i] if e.kind == 'enter' and e.recv == v]
                ctx.ob(bool(ent), y, 'the file of fsspec is entered before it is given', path=p, key='entered')
                ctx.ob('**kwargs' in str({k: show(x) for k, x in a.kw.items()}) or f.node.args.kwarg is None, a, 'further options are passed on', path=p, key='kw')
        else:
            ctx.ob(False if is_k(v) or v == M else None, y, 'gives %s' % show(v), path=p, key='other')
        ctx.cur = 'closed'
        for j, a in ops:
            rel = [k for k, e in enumerate(ev) if k > j and releases(e, a.result)]
            ctx.ob(len(rel) >= 1, a, 'what was opened is closed, however the body ends', path=p, key='closed')
            ctx.ob(not any(k < i for k in rel), a, 'not before the body is done', path=p, key='early')
        ctx.cur = 'left-open'
        for e in ev:
            if releases(e, F) or releases(e, D):
                ctx.ob(False, e, 'a handle that was passed in stays open', path=p, key='mine')
        ctx.ob(True, q, 'handles that were passed in stay open', path=p)
        if not ops and v not in (D, F) and not is_k(v):
            ctx.ob(None, q, 'where the handle comes from')
    ctx.ob(n > 0, q, 'gives handles', key='any', rule='selects')


def releases(e, t):
    if t is None or e.recv is None:
        return False
    return e.kind == 'exit' and core(e.recv) == core(t) or e.kind == 'call' and tail(e.name) == 'close' and core(e.recv) == core(t)


def openers(ctx):
    names = set(WRAPPED) | {'open'} | set(TEMP) | set(MADE)
    out = []
    for f in ctx.prog.funcs.values():
        if f.cls in CLASSES and f.outer is None:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and (getattr(n.func, 'id', None) in names or getattr(n.func, 'attr', None) in names):
                    out.append(f.q)
                    break
    return out


def check_user(ctx, q, others):
    f = ctx.prog.funcs[q]
    ps = ctx.run(q, self_cls=f.cls, all_raises=True, boundary=(BOUNDARY | others | {FO, U + 'open_or_default'}) - {q})
    n = 0
    for p in ps:
        held, closed = {}, {}
        for e in p.events():
            if opened(e):
                n += 1
                held[core(e.result)] = e
                closed.pop(core(e.result), None)
                check_mode(ctx, f, e, p)
                continue
            for t in list(held):
                if releases(e, t):
                    closed[t] = held.pop(t)
            ctx.cur = 'after-close'
            if e.kind in ('call', 'new'):
                for t in closed:
                    if core(e.recv) == t and tail(e.name) != 'close' or any(isinstance(a, tuple) and core(a) == t for a in e.args):
                        ctx.ob(False, e, 'a handle is not used after it was closed', path=p, key='after')
            ctx.cur = 'left-open'
            if e.kind == 'call' and tail(e.name) == 'close' and ('sys.std' in e.name or e.recv is not None and 'sys.std' in show(e.recv)):
                ctx.ob(False, e, 'standard streams stay open', path=p, key='std')
        ctx.cur = 'closed'
        left = None
        for e in p.events():
            if e.kind != 'call':
                continue
            if tail(e.name) in DELETES:
                left = None
            elif not e.raised and (tail(e.name) in MADE or tail(e.name) == 'NamedTemporaryFile' and e.kw.get('delete') == K(False)):
                left = e
                n += 1
        ctx.ob(left is None, left or q, 'no temporary file is left behind', path=p, key='behind')
        for t, e in held.items():
            if p.kind == 'r' and p.value is not None and contains(p.value, t):
                continue
            if any(contains(v, t) for k, v in p.state.store.items() if k[0] == 'h' and isinstance(v, tuple)):
                ctx.ob(None, e, 'kept in an attribute')
                continue
            lazily = tail(e.name) in WRAPPED and not any(x.kind == 'enter' and core(x.recv) == t for x in p.events())
            ctx.ob(None if lazily else False, e, 'what was opened is closed on every way out, errors included', path=p, key='leak')
        ctx.ob(True, q, 'closed', path=p)
    ctx.ob(n > 0 or None, q, 'opens files')


def check_mode(ctx, f, e, p):
    ctx.cur = 'modes'
    if tail(e.name) in TEMP:
        m = e.arg(0, 'mode')
        ctx.ob(m is None or is_k(m, 'str') and 'b' in m[2], e, 'a temporary copy is binary', path=p, key='temp')
        return
    m, name = e.arg(1, 'mod') or e.kw.get('mode'), e.arg(0)
    if m is None or not is_k(m, 'str') or name is None:
        ctx.ob(None if m is not None else False, e, 'mode')
        return
    outs = {t for t in [ctx.outs.get(f.cls)] if t}
    out = core(name) in outs or self_fld(core(name), 'output') or core(name) == sym('output')
    if out:
        ctx.ob('w' in m[2] and '+' not in m[2], e, 'the output starts out empty; got mode %r' % m[2], path=p, key='out')
        if f.cls.endswith('Recompressor'):
            ctx.ob('b' in m[2], e, 'an archive is written as bytes', path=p, key='outb')
        if f.cls.endswith('Indexer'):
            d = e.arg(2, 'default_fh')
            ctx.ob(d is not None and show(d) == 'sys.stdout', e, 'without a name the index goes to the standard output', path=p, key='stdout')
            ctx.ob('b' not in m[2], e, 'the index is text', path=p, key='text')
    else:
        ctx.ob('r' in m[2] and 'b' in m[2] and '+' not in m[2], e, 'an input is read as bytes; got mode %r' % m[2], path=p, key='in')
        if f.cls.endswith('Indexer'):
            d = e.arg(2, 'default_fh')
            ctx.ob(d is not None and show(d) in ('sys.stdin.buffer', 'sys.stdin'), e, '"-" is the standard input', path=p, key='stdin')


def check_capture(ctx):
    ctx.cur = 'append'
    f = ctx.prog.funcs[CAP]
    A, Wr = sym('append'), sym('warc_writer')
    n = 0
    for p in ctx.run(CAP, known_raises=True, yield_raises=True):
        for e in p.events():
            if opened(e) and tail(e.name) not in TEMP:
                n += 1
                st = e.state
                ctx.ob(e.arg(0) == Wr, e, 'the file named is opened', path=p, key='name')
                m = e.arg(1, 'mode')
                app = p.state.nullness(A)
                ks = None
                if m is not None and is_k(m, 'str'):
                    ks = {app == T_: m[2]} if app == T_ or 'T' not in app else {True: m[2], False: m[2]}
                elif m is not None and m[0] == 'op' and m[1] == 'ifexp':
                    ks = None
                if ks is None:
                    ctx.ob(None if m is not None else False, e, 'mode %s' % (show(m) if m else 'default'))
                    continue
                for a, x in ks.items():
                    ctx.ob(sorted(x) == (['a', 'b'] if a else ['b', 'x']), e,
                           'an archive that is there is appended to if asked for, and never overwritten otherwise; append %s: mode %r' % (a, x), path=p, key='mode%s' % a)
    ctx.ob(n > 0 or None, CAP, 'opens the archive')


def check_exclusive(ctx):
    ctx.cur = 'append'
    q = U + 'open'
    if q not in ctx.prog.funcs:
        return
    f = ctx.prog.funcs[q]
    N, M = sym(f.posargs[0]), sym(f.posargs[1])
    for p in ctx.run(q):
        if p.kind == 'x':
            continue
        es = [e for e in p.events() if e.kind == 'call' and e.name in ('open', 'io.open')]
        ok = len(es) == 1 and es[0].arg(0) == N and es[0].arg(1, 'mode') == M and p.value == es[0].result
        ctx.ob(ok or (None if any(e.name == 'os.open' for e in p.events()) else False), q, 'opens that file in that mode', path=p, key='open')
        if es:
            ctx.ob('**kwargs' in str({k: show(x) for k, x in es[0].kw.items()}) or f.node.args.kwarg is None, es[0], 'with the options given', path=p, key='kw')


def check(ctx):
    ctx.rule('selects', 'a name is opened in the mode asked for; none, empty and "-" are the default; anything else is the handle itself')
    ctx.rule('closed', 'what was opened is closed on every way out and not before')
    ctx.rule('left-open', 'handles passed in, defaults and standard streams are not closed')
    ctx.rule('modes', 'the commands read their inputs as bytes and write their output anew; standard streams by default')
    ctx.rule('after-close', 'no handle is used after it was closed')
    ctx.rule('append', 'a capture appends to the archive named, or creates it and fails if it is there')
    for q in (FO, U + 'open_or_default'):
        if q not in ctx.prog.funcs:
            raise AnalysisBroken('%s is gone' % q)
        ctx.guarded(lambda c, q=q: check_open(c, q))
    ctx.outs = {}
    for c in CLASSES:
        slot, _ = ctx.slots(c)
        if slot.get('output'):
            ctx.outs[c] = ('fld', sym('self'), slot['output'], 0)
    us = set(openers(ctx))
    for c in CLASSES:
        if not any(q.startswith(c + '.') for q in us):
            ctx.ob(None, c, 'opens no file itself')
    public = {f.q for f in ctx.prog.funcs.values() if f.cls in CLASSES and f.outer is None and not f.q.rpartition('.')[2].startswith('_')}
    for q in sorted(us):
        ctx.guarded(lambda c, q=q: check_user(c, q, us | public))
    ctx.guarded(check_capture)
    ctx.guarded(check_exclusive)
