"""Obligations on every abstract path of the length-limited readers: bounds of the size passed to the
underlying stream, exact accounting of what it returned, and who may write the limit."""
import ast
from ..core import *

BASE = 'warcio.limitreader:LimitReader'


def ctor_slots(ctx, cls=BASE):
    """attributes the first two constructor parameters are stored in"""
    f = ctx.prog.funcs[ctx.method(cls, '__init__')]
    ps = [p for p in f.posargs[1:]]
    if len(ps) < 2:
        raise AnalysisBroken('LimitReader constructor takes a stream and a limit')
    m, paths = {}, ctx.run(cls, construct=True)
    for p in paths:
        if p.kind == 'x':
            continue
        for k, v in p.state.store.items():
            if k[0] == 'h' and k[1] == sym('self') and v in (sym(ps[0]), sym(ps[1])):
                m.setdefault(v[1], set()).add(k[2])
    return m.get(ps[0], set()), m.get(ps[1], set())


def limit_attr(ctx):
    """the attribute that read() decreases; the other one keeps the original limit"""
    streams, limits = ctor_slots(ctx)
    wr = set()
    for p in ctx.run(ctx.method(BASE, 'read'), self_cls=BASE):
        for e in p.events():
            if e.kind == 'store' and e.recv == sym('self') and e.name in limits:
                wr.add(e.name)
    if len(streams) < 1:
        raise AnalysisBroken('no stream attribute')
    if len(wr) != 1:
        return sorted(streams)[0], sorted(limits)[0] if limits else None, limits
    return sorted(streams)[0], wr.pop(), limits


def check_read(ctx, cls, name, stream, limit):
    q = ctx.method(cls, name)
    lim = ('fld', sym('self'), limit, 0)
    State.nonneg_terms = frozenset([lim])
    st = State()
    st.null[lim] = ET           # the limit is an integer
    for p in ctx.run(q, self_cls=cls, st=st):
        reads = []
        for e in p.events():
            if e.kind in ('call', 'ext') and e.recv is not None and is_fld(e.recv, stream) and e.recv[1] == sym('self') \
                    and tail(e.name) in ('read', 'readline', 'readinto', 'readlines', 'read1'):
                reads.append(e)
        if p.kind == 'x':
            continue
        State.nonneg_terms = frozenset([lim])
        for i, e in enumerate(reads):
            st = e.state
            ctx.cur = 'bounded-read'
            n = e.arg(0)
            if n is None and e.kw:
                n = list(e.kw.values())[0]
            if n is None or is_k(n, 'NoneType'):
                ctx.ob(False, e, 'underlying %s called without a size: may read past the limit' % tail(e.name), path=p)
                continue
            nn = st.nullness(n)
            # what remains: the limit at the start less all that was read since
            cur = lim
            for r in reads[:i]:
                cur = lin_add(cur, mk_len(r.result), -1)
            if n != cur and 'N' in nn and ttype(n) != 'int' and n[0] != 'lin':
                ctx.ob(False, e, 'size passed to the underlying stream may be None', path=p)
                continue
            ctx.ob(st.prove_le(lin_add(n, cur, -1)), e,
                   'size %s passed to the underlying %s is at most the remaining limit' % (show(n), tail(e.name)), path=p)
            ctx.ob(n == cur or st.prove_le(lin_scale(n, -1)), e,
                   'size %s passed to the underlying %s is not negative' % (show(n), tail(e.name)), path=p,
                   key='neg:' + q)
            # the length asked for by the caller bounds it too
            a = [x for x in (ctx.prog.funcs[q].posargs[1:2])]
            if a:
                L = sym(a[0])
                ln = st.nullness(L)
                asked = 'N' not in ln or len(ln) < 3 and 'N' not in ln
                if asked and n != L and st.prove_le(lin_scale(L, -1)):
                    ctx.ob(st.prove_le(lin_add(n, L, -1)), e, 'size passed is at most the size asked for', path=p,
                           key='asked:' + q)
        ctx.cur = 'exact-accounting'
        final = p.state.heap(sym('self'), limit) or lim
        got = ZERO
        for e in reads:
            got = lin_add(got, mk_len(e.result))
        want = lin_add(lim, got, -1)
        w = reads[-1] if reads else q
        ctx.ob(p.state.prove_eq(final, want), w, 'remaining limit drops by exactly the bytes returned (%s)' % show(final), path=p)
        ctx.cur = 'returned-data'
        if reads:
            data = [unstr(e.result) for e in reads]
            v = unstr(p.value)
            ok = cat_parts(v) == data or (v == data[-1] and len(data) == 1)
            if not ok and len(data) == 1 and v[0] == 'k' and not v[2]:
                ok = p.state.nullness(data[0]) == E_
            ctx.ob(ok, w, 'the caller gets the bytes read, unchanged', path=p)
        else:
            ctx.ob(p.value[0] == 'k' and p.value[2] == b'' or p.state.nullness(p.value) == E_, q,
                   'without reading the result is empty', path=p)
            # an empty result without a read claims the end of the record
            L = [sym(x) for x in ctx.prog.funcs[q].posargs[1:2]]
            at_end = p.state.nullness(lim) == E_ or any(p.state.nullness(x) == E_ for x in L) \
                or p.state.prove_le(lim)
            ctx.ob(at_end, q, 'an empty result without reading only at the limit or for size 0', path=p, key='end:' + q)


def check_wrap(ctx, stream, limit, limits, origs):
    q = ctx.method(BASE, 'wrap_stream')
    f = ctx.prog.funcs[q]
    s, n = [sym(a) for a in f.posargs if a not in ('self', 'cls')][:2]
    State.nonneg_terms = frozenset()
    for p in ctx.run(q):
        ctx.cur = 'wrap-limits'
        if p.kind == 'x':
            ctx.ob(False, q, 'wrapping raises for a content length that is not a number', path=p, key='raise')
            continue
        conv = [e for e in p.events() if e.kind == 'pure' and e.name == 'int']
        N = ('op', 'int', (n,))
        failed = any(e.raised for e in conv)
        neg = p.state.prove_le(lin_add(N, K(1)))
        if failed or neg:
            ctx.ob(p.value == s and not any(e.kind == 'store' and e.name in limits for e in p.events()), q,
                   'not a length: the stream is returned unchanged', path=p, key='unchanged')
            continue
        v = p.value
        lim = p.state.heap(v, limit)
        if lim is None and v == s and any(val and 'isinstance' in repr(a) for a, val in p.state.lits.items()):
            lim = ('fld', s, limit, 0)
        if lim is None:
            ctx.ob(False, q, 'a stream with a valid content length is returned without a limit', path=p, key='nolimit')
            continue
        ctx.ob(p.state.prove_le(lin_add(lim, N, -1)), q, 'limit %s is at most the content length' % show(lim), path=p, key='len')
        old = ('fld', s, limit, 0)
        if v == s:
            ctx.ob(p.state.prove_le(lin_add(lim, old, -1)), q, 'an existing limit is never raised', path=p, key='raise-limit')
            ctx.ob(lim == N or lim == old, q, 'the new limit is one of the two', path=p, key='either')
            ctx.cur = 'tell'
            for o in sorted(origs):
                # position = original limit - what remains, and no byte was handed over here
                pos = lin_add(p.state.heap(v, o) or ('fld', s, o, 0), lim, -1)
                ctx.ob(p.state.prove_eq(pos, lin_add(('fld', s, o, 0), old, -1)), q, 'a new limit does not move the position', path=p, key='moved')
            ctx.cur = 'wrap-limits'
        else:
            ctx.ob(p.state.heap(v, stream) == s, q, 'the new reader reads the wrapped stream', path=p, key='stream')
            ctx.ob(p.state.prove_eq(lim, N), q, 'the new reader is limited to the content length', path=p, key='eq')


def check_tell(ctx, limit, limits, used):
    ctx.cur = 'tell'
    q = ctx.method(BASE, 'tell')
    origs = set(limits) - {limit}
    for p in ctx.run(q, self_cls=BASE):
        if p.kind == 'x':
            continue
        by = [o for o in sorted(origs) if p.state.prove_eq(p.value, lin_add(('fld', sym('self'), o, 0), ('fld', sym('self'), limit, 0), -1))]
        used.update(by)
        ok = bool(by)
        # a separate counter of bytes read would be as good
        told = {e.result for e in p.events() if e.kind in ('call', 'ext') and e.recv is not None and e.recv != sym('self')}
        uses = is_k(p.value) or any(x in told for x in subterms(p.value) if isinstance(x, tuple)) or any(is_fld(x) and x[2] in limits for x in subterms(p.value))
        ctx.ob(True if ok else (False if uses else None), q, 'position %s is the original limit minus what remains' % show(p.value), path=p)


def check_writers(ctx, limit):
    ctx.cur = 'limit-writers'
    owners = {BASE} | set(ctx.prog.subclasses(BASE))
    n = 0
    for q, f in ctx.prog.funcs.items():
        own = f.cls in owners
        for x in ast.walk(f.node):
            t = []
            if isinstance(x, ast.Assign):
                t = x.targets
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                t = [x.target]
            for y in t:
                for z in ast.walk(y):
                    if isinstance(z, ast.Attribute) and z.attr == limit and isinstance(z.ctx, ast.Store):
                        n += 1
                        foreign_self = isinstance(z.value, ast.Name) and z.value.id == 'self' and not own
                        if foreign_self:
                            continue
                        if own:
                            ctx.ob(True, '%s:%d' % (f.mod.relpath, z.lineno), 'limit written by its owner')
                        else:
                            ctx.ob(False, '%s:%d in %s' % (f.mod.relpath, z.lineno, q.split(':')[1]),
                                   'the limit of a reader is changed from outside', key='writer:' + q)


def check_record(ctx):
    """the loader reads each record of known length through a reader limited to it"""
    ctx.cur = 'record-limited'
    PRS = 'warcio.recordloader:ArcWarcRecordLoader.parse_record_stream'
    REC = 'warcio.recordloader:ArcWarcRecord'
    for p in ctx.run(ctx.need(PRS), self_cls='warcio.recordloader:ArcWarcRecordLoader'):
        if p.kind == 'x':
            continue
        recs = [e for e in p.events() if e.kind == 'new' and e.name == REC]
        if not recs:
            continue
        r = recs[-1]
        raw, length = r.arg(3), r.arg(6)
        lims = [e for e in p.events() if not e.raised and (e.kind == 'call' and e.name == 'wrap_stream' or
                                                           e.kind == 'new' and (e.name == BASE or e.name in ctx.prog.subclasses(BASE)))]
        over = {e.result: e for e in lims}
        n, chain = raw, []
        while n in over and len(chain) < 6:
            chain.append(over[n])
            n = over[n].arg(0, 'stream')
        if length is None or raw is None:
            ctx.ob(None, r, 'record without stream or length')
        elif p.state.nullness(length) == N_:
            ctx.ob(True, r, 'length unknown: not limited')
        elif 'N' in p.state.nullness(length) and not chain:
            ctx.ob(None, r, 'length %s may be unknown' % show(length))
        else:
            ls = [e.arg(1, 'content_length') if e.name == 'wrap_stream' else e.arg(1, 'limit') for e in chain]
            ctx.ob(bool(chain) and length in ls, r, 'a record of known length is read through a reader limited to that length', path=p, key='record')


def check(ctx):
    ctx.rule('record-limited', 'the stream of every record whose length is known is wrapped with exactly that limit')
    ctx.rule('bounded-read', 'every read of the underlying stream passes a size proven <= the remaining limit and >= 0')
    ctx.rule('exact-accounting', 'on every return path limit\' = limit - len(bytes read)')
    ctx.rule('returned-data', 'every return path returns exactly the bytes read')
    ctx.rule('wrap-limits', 'wrap_stream: result limited by min(existing limit, content length) iff that is a number >= 0')
    ctx.rule('tell', 'tell() = original limit - remaining limit')
    ctx.rule('limit-writers', 'only the reader classes write the limit attribute')
    ctx.need(BASE)
    stream, limit, limits = limit_attr(ctx)
    if limit is None:
        ctx.ob(False, BASE, 'no attribute holds the limit', rule='exact-accounting')
        return
    for cls in [BASE] + sorted(ctx.prog.subclasses(BASE)):
        for name in ('read', 'readline'):
            ctx.guarded(lambda c: check_read(c, cls, name, stream, limit))
    origs = set()
    ctx.guarded(lambda c: check_tell(c, limit, limits, origs))
    ctx.guarded(lambda c: check_wrap(c, stream, limit, limits, origs))
    ctx.guarded(lambda c: check_writers(c, limit))
    ctx.guarded(check_record)
    State.nonneg_terms = frozenset()
