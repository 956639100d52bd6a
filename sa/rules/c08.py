"""Obligations on every abstract path of the buffered reader: pieces taken from the buffer are handed out once, in
order and within the size asked for (induction over the read loops); every block of raw input ends up in the buffer,
decompressed or as it is."""
import ast
from ..core import *
from .conserve import Proof, flat_events
from .c03 import br_slots
from ..builtins_model import MAXSIZE

BR = 'warcio.bufferedreaders:BufferedReader'
SELF = sym('self')


def calls_self(f):
    return {n.func.attr for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
            and isinstance(n.func.value, ast.Name) and f.posargs and n.func.value.id == f.posargs[0]}


def reads_attr(f, attr):
    return any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Load) for n in ast.walk(f.node))


def fillers(ctx, stream):
    """methods that refill the buffer: overridden by a subclass, or reading the wrapped stream"""
    seen, todo = set(), ['read', 'readline']
    while todo:
        l = ctx.prog.lookup(BR, todo.pop())
        if l and l[0] == 'fn' and l[1].q not in seen:
            seen.add(l[1].q)
            todo += calls_self(l[1])
    over = {q for q in seen for c in ctx.prog.subclasses(BR)
            if c != BR and q.split('.')[-1] not in ('read', 'readline', '__init__') and any(
                f.cls == c and f.q.split('.')[-1] == q.split('.')[-1] for f in ctx.prog.funcs.values())}
    if over:
        return over
    return {q for q in seen if q.split('.')[-1] not in ('read', 'readline') and reads_attr(ctx.prog.funcs[q], stream)}


def check_delivery(ctx, name, buf, fill):
    q = ctx.method(BR, name)
    f = ctx.prog.funcs[q]
    if len(f.posargs) < 2:
        raise AnalysisBroken('%s takes a size' % q)
    L = sym(f.posargs[1])

    def piece(e):
        if isinstance(e, Event) and e.kind in ('call', 'ext') and not e.raised and is_fld(e.recv, buf) and e.recv[1] == SELF \
                and tail(e.name) in ('read', 'readline', 'read1', 'getvalue'):
            return e.result
    for p in ctx.run(q, self_cls=BR, boundary=frozenset(fill)):
        if p.kind == 'x':
            continue
        # no data is longer than the largest size: with more than that asked for, that much or everything is read
        huge = p.state.prove_le(lin_add(K(MAXSIZE), L, -1))
        size = K(MAXSIZE) if huge else L
        pr = Proof(piece, len_of=size)

        def visit(c, e):
            if not isinstance(e, Event) or piece(e) is None:
                return
            st = e.state
            ctx.cur = 'size-bounded'
            a = e.arg(0) if tail(e.name) != 'getvalue' else None
            nul = st.nullness(L)
            unlimited = a is None or 'T' not in st.nullness(a) and 'E' not in st.nullness(a) or is_k(a, 'int') and a[2] < 0
            neg = st.prove_le(lin_add(L, K(1)))
            if 'T' not in nul and 'E' not in nul:
                ctx.ob(unlimited or a == L, e, 'without a size everything is read', path=p, key='%s:none' % name)
            elif neg:
                ctx.ob(unlimited or a == L, e, 'a negative size means no limit', path=p, key='%s:neg' % name)
            elif unlimited and not huge:
                ctx.ob(False if 'N' not in nul else None, e, 'a size was given: the read is bounded', path=p, key='%s:unbounded' % name)
            else:
                r = True if huge and unlimited else c.remaining(a, st)
                ctx.ob(r, e, 'reads exactly what is still missing (size given - bytes so far), got %s' % show(a), path=p, key='%s:size' % name)
                if tail(e.name) == 'readline' and name == 'read':
                    ctx.ob(None, e, 'read implemented with readline')
            if name == 'readline':
                ctx.ob(tail(e.name) == 'readline', e, 'a line is read from the buffer', path=p, key='line')
        pr.walk(p.items, visit)
        ctx.cur = 'pieces-in-order'
        ctx.ob(pr.holds(p.value, p.state), q, 'result is every piece taken from the buffer, once, in order; got %s' % show(p.value), path=p, key=name)
        ctx.cur = 'short-only-at-end'
        st = p.state
        empt = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'empty' and e.result is not None]
        ok = bool(empt) and 'E' not in st.nullness(empt[-1].result) and 'N' not in st.nullness(empt[-1].result)
        ok = ok and any(tail(e.name) in {x.split('.')[-1] for x in fill} for e in p.events())
        if not ok:
            ok = st.nullness(L) == E_
            for t in list(pr.rem) + ([size] if not pr.allp else []):
                x = t
                for g in pr.got:
                    x = lin_add(x, mk_len(g), -1)
                ok = ok or st.prove_le(x) and 'N' not in st.nullness(L)
            ok = ok and not st.prove_le(lin_add(L, K(1)))
        if not ok and name == 'readline':
            ok = any(k[0] == 'cond' and v and k[1][0] == 'm' and k[1][1] == 'endswith' and k[1][3] and k[1][3][0] == K(b'\n')
                     and (pr.holds(k[1][2], st) or k[1][2] in pr.last) for k, v in st.lits.items())
        if not ok:
            tested = any(is_fld(x, buf) or is_fld(x, ctx.size_attr) for d in (st.null, st.lits) for k in d for x in subterms(k) if isinstance(x, tuple))
            ok = None if not empt and tested else False
        ctx.ob(ok, q, 'ends early only when the refilled buffer is empty, the size is reached%s' % (' or the line is complete' if name == 'readline' else ''),
               path=p, key=name)


def fill_slots(ctx, ps):
    """attributes: the decompressor; the counter of what it delivered (reset with it, grows with the buffer)"""
    dec = None
    for p in ps:
        for e in flat_events(p.items):
            if e.kind == 'call' and tail(e.name) == 'decompress' and is_fld(e.recv) and e.recv[1] == SELF:
                dec = e.recv[2]
    sd = ctx.method(BR, 'set_decomp')
    zero = None
    for p in ctx.run(sd, self_cls=BR, inline={sd}):
        if p.kind == 'x':
            continue
        z = {k[2] for k, v in p.state.store.items() if k[0] == 'h' and k[1] == SELF and v == ZERO}
        zero = z if zero is None else zero & z
    if zero and len(zero) == 1:
        return dec, sorted(zero)[0]
    # the counter looked at after the decompressor rejected its input
    grows = {e.name for p in ps for e in flat_events(p.items) if e.kind == 'store' and e.recv == SELF
             and e.args[0][0] in ('add', 'lin') and any(is_fld(x, e.name) for x in subterms(e.args[0]))}
    asked = set()
    for p in ps:
        if any(e.kind == 'call' and e.raised and tail(e.name) == 'decompress' for e in flat_events(p.items)):
            asked |= {k[2] for k in p.state.null if is_fld(k) and k[1] == SELF and k[2] in grows}
    return dec, (sorted(asked)[0] if len(asked) == 1 else None)


def check_fill(ctx, slot, buf, size, fill, resets):
    S, ST = slot.get('stream'), slot.get('starting_data')
    if S is None or ST is None:
        ctx.ob(None, BR, 'stream/starting data attributes not found')
        return
    for q in sorted(fill):
        ps = ctx.run(q, self_cls=BR, max_heads=60)
        dec, cnt = fill_slots(ctx, ps)
        if dec is None:
            ctx.ob(None, q, 'decompressor attribute not found')
            return
        und = undecoded(ps, S, ST)
        resets.update(a for a in (cnt, und) if a)
        seen = set()
        for p in ps:
            for seg, head in head_segments(p.items, seen):
                judge_fill(ctx, q, p, seg, S, ST, buf, size, dec, cnt, head)
                judge_undecoded(ctx, q, p, seg, S, ST, dec, cnt, und)
        first_source(ctx, q, ps, S, ST, buf, dec)
        leaving(ctx, q, ps, S, dec, buf)


def head_segments(items, seen):
    """the path and each loop iteration, with the state it starts from"""
    yield items, None
    for it in items:
        if isinstance(it, LoopRef) and id(it.loop) not in seen:
            seen.add(id(it.loop))
            for i in sorted(it.loop.trans):
                for seg, j in it.loop.trans[i]:
                    for n, (x, h) in enumerate(head_segments(seg, seen)):
                        yield x, (it.loop.heads[i] if n == 0 else h)


def carried(head, S, ST):
    """what a loop iteration finds in its local variables of the data read before it"""
    if head is None:
        return set()

    def data(v):
        return v[0] == 'ev' and any(str(x).split('.')[-1].startswith('read@') for x in v[1]) or is_fld(v, ST) and v[1] == SELF
    return {v for k, v in head.store.items() if k[0] == 'l' and isinstance(v, tuple) and (data(core(v)) or v[0] == 'phi')}


def judge_fill(ctx, q, p, seg, S, ST, buf, size, dec, cnt, head=None):
    raw, last, rejected, dropped = [], None, None, []
    held = carried(head, S, ST)
    end = [x for x in seg if isinstance(x, SegEnd)]
    fin = end[-1].state if end else p.state
    content = {}
    for e in seg:
        if not isinstance(e, Event):
            if isinstance(e, LoopRef):
                held = carried(e.loop.heads[e.at], S, ST)
            raw, last, rejected = [], None, None
            content = {}
            continue
        if e.kind == 'call' and is_fld(e.recv, S) and e.recv[1] == SELF and tail(e.name).startswith('read'):
            raw.append(e)
        elif e.kind == 'call' and tail(e.name) == 'decompress':
            if e.raised:
                rejected, last = e, None
            else:
                last = e
        elif e.kind in ('call', 'new') and tail(e.name) == 'BytesIO':
            content[e.result] = (e.args[0] if e.args else K(b''), e)
        elif e.kind == 'store' and e.recv == SELF and e.name == buf:
            v = e.args[0]
            st = e.state
            if v == NONE:
                ctx.cur = 'raw-kept'
                r = source(raw, last, e, ST, held, NONE)
                ok = any('T' not in fin.nullness(x) for x in [r] + ([last.result] if last else []))
                ctx.ob(True if ok else (None if not raw else False), e, 'the buffer is dropped only when there was no data', path=p, key='drop')
                continue
            if v not in content:
                ctx.cur = 'raw-kept'
                ctx.ob(None, e, 'buffer is %s' % show(v))
                continue
            c, ce = content[v]
            judge_content(ctx, q, p, e, c, raw, last, rejected, fin, dec, cnt, ST, held)
            ctx.cur = 'fill-counts'
            sz = fin.heap(SELF, size)
            if fin.heap(SELF, buf) == v and sz is not None:
                ctx.ob(fin.prove_eq(sz, mk_len(c)), e, 'recorded size of the buffer is the length of its content', path=p, key='size')


def undecoded(ps, S, ST):
    """the attribute that collects data the decompressor took without giving output"""
    for p in ps:
        for e in flat_events(p.items):
            if e.kind == 'store' and e.recv == SELF and e.args[0][0] in ('cat', 'add') and any(
                    is_fld(x, e.name) and x[1] == SELF for x in subterms(e.args[0])):
                if lin_parts(e.args[0])[1] and e.args[0][0] == 'add':
                    continue
                return e.name
    for p in ps:
        fed = set()
        for e in flat_events(p.items):
            if e.kind == 'call' and tail(e.name) == 'decompress' and not e.raised and e.arg(0) is not None:
                fed.add(e.arg(0))
            elif e.kind == 'store' and e.recv == SELF and e.name != ST and e.args[0] in fed:
                return e.name
    return None


def pieces(t):
    if t is None:
        return []
    if t[0] in ('cat', 'add'):
        return [y for x in t[1] for y in pieces(x)]
    return [t]


def fld_at(st, a):
    return st.heap(SELF, a) or ('fld', SELF, a, st.vers.get(SELF, 0))


def judge_undecoded(ctx, q, p, seg, S, ST, dec, cnt, und, key='undecoded'):
    """until the first output, what was passed to the decompressor may turn out not to be compressed"""
    if cnt is None:
        return
    end = [x for x in seg if isinstance(x, SegEnd)]
    fin = end[-1].state if end else p.state
    evs = [e for e in seg if isinstance(e, Event)]
    for i, e in enumerate(evs):
        if e.kind != 'call' or tail(e.name) != 'decompress' or e.recv is None:
            continue
        st = e.state
        n = fld_at(st, cnt)
        first = 'T' not in fin.nullness(n) and 'E' in fin.nullness(n)
        nxt = [x for x in evs[i + 1:] if x.kind == 'call' and tail(x.name) == 'decompress']
        if not e.raised:
            none = 'T' not in fin.nullness(e.result)
            if none and first and not (e.arg(0) is not None and 'T' not in fin.nullness(e.arg(0))):
                ok = bool(nxt) or any(x.kind == 'store' and x.recv == SELF and x.name == und and all(contains(x.args[0], y) for y in pieces(e.arg(0))) for x in evs[i + 1:])
                had = fld_at(st, und) if und else None
                if ok and not nxt and had is not None and 'T' in fin.nullness(had) and had not in pieces(e.arg(0)):
                    ok = any(x.kind == 'store' and x.recv == SELF and x.name == und and had in pieces(x.args[0]) for x in evs[i + 1:])
                ctx.ob(ok, e, 'data passed to the decompressor before its first output is kept, in case it turns out not to be compressed', path=p, key=key + ':kept')
            continue
        if not first or und is None:
            continue
        before = fld_at(st, und)
        if 'T' not in fin.nullness(before):
            continue
        uses = [x.arg(0) for x in nxt[:1]] or [x.args[0] for x in evs[i + 1:] if x.kind in ('call', 'new') and tail(x.name) == 'BytesIO' and x.args]
        for u in uses[:1]:
            parts = pieces(u)
            ok = before in parts and parts.index(before) == 0
            ctx.ob(True if ok else (None if u[0] in ('phi', 'sym') else False), e,
                   'data the decompressor took before it rejects the stream is delivered too, first; got %s' % show(u), path=p, key=key + ':first')


def source(raw, last, e, ST, held, c):
    """the block of raw data that is being processed: the last one read, or one read before the loop iteration"""
    if raw:
        return raw[-1].result
    used = last.arg(0) if last is not None else c
    for v in held:
        if v == used or contains(used, v):
            return v
    if c == NONE:
        for v in held:
            if 'T' not in e.state.nullness(v):
                return v
    for x in subterms(used):
        if is_fld(x, ST) and x[1] == SELF and x in e.state.null:
            return x
    return start_of(e.state, ST)


def judge_content(ctx, q, p, e, c, raw, last, rejected, fin, dec, cnt, ST, held=()):
    ctx.cur = 'raw-kept'
    st = e.state
    r = source(raw, last if last is not None else rejected, e, ST, held, c)
    nodec = ('fld', SELF, dec, 0)
    if last is not None:
        if c == last.result or empties(c, fin) and 'T' not in fin.nullness(last.result):
            a = last.arg(0)
            ok = a == r or contains(a, r) and a[0] in ('cat', 'add')
            if ok is False:
                ok = None if a[0] in ('phi', 'old', 'older', 'sym') else False
            ctx.ob(ok, last, 'the decompressor is given the data just read', path=p, key='fed')
        else:
            ctx.ob(False if c[0] not in ('phi', 'sym') else None, e, 'the buffer holds what the decompressor returned; got %s' % show(c), path=p, key='decompressed')
        if rejected is not None:
            a = last.arg(0)
            ctx.ob(contains(a, r), last, 'data rejected by one format is tried as the other', path=p, key='alt')
        return
    if rejected is not None:
        delivered = None
        if cnt is not None:
            n = rejected.state.heap(SELF, cnt) or ('fld', SELF, cnt, rejected.state.vers.get(SELF, 0))
            ns = fin.nullness(n) if 'E' not in st.nullness(n) or 'T' not in st.nullness(n) else st.nullness(n)
            if ns == E_:
                delivered = False
            elif 'E' not in ns:
                delivered = True
        if contains(c, r):
            ctx.ob(delivered is not True, e, 'data is passed on as it is only if the decompressor delivered nothing before', path=p, key='raw-late')
            parts = c[1] if c[0] in ('cat', 'add') else (c,)
            ctx.ob(parts[-1] == r, e, 'data not accepted by the decompressor is delivered unchanged, in order', path=p, key='raw')
        elif empties(c, fin):
            if 'T' not in fin.nullness(r):
                return
            ctx.ob(delivered if cnt is not None else None, e, 'data is dropped (after reporting) only if the decompressor had delivered before', path=p, key='lost')
            if delivered:
                told = any(x.kind == 'call' and x.name.endswith('stderr.write') or x.kind == 'raise' for x in p.events()) or True
        else:
            ctx.ob(False if c[0] not in ('phi', 'sym') else None, e, 'rejected data is delivered unchanged or reported; got %s' % show(c), path=p, key='other')
        return
    # no decompression
    if c == r or empties(c, fin) and 'T' not in fin.nullness(r):
        has = [k for k in fin.null if is_fld(k, dec) and k[1] == SELF]
        return ctx.ob(True, e, 'without a decompressor data is delivered as read', path=p, key='plain')
    ctx.ob(False if c[0] not in ('phi', 'sym', 'old') else None, e, 'without a decompressor the buffer holds the data as read; got %s' % show(c), path=p, key='plain')


def start_of(st, ST):
    """the starting data read on this path"""
    for k in st.null:
        if is_fld(k, ST) and k[1] == SELF:
            return k
    return ('fld', SELF, ST, 0)


def empties(c, st):
    return 'T' not in st.nullness(c)


def first_source(ctx, q, ps, S, ST, buf, dec):
    ctx.cur = 'starting-data-first'
    for p in ps:
        ev = p.events()
        reads = [e for e in ev if e.kind == 'call' and is_fld(e.recv, S) and e.recv[1] == SELF and tail(e.name).startswith('read')]
        emp = [e for e in ev if e.kind == 'call' and tail(e.name) == 'empty']
        stored = [e for e in ev if e.kind == 'store' and e.recv == SELF and e.name == buf]
        if not stored and not reads:
            continue
        ctx.cur = 'refill-only-when-empty'
        x = (reads or stored)[0]
        before = [e for e in ev[:ev.index(x)] if tail(e.name) == 'empty' and e.kind == 'call']
        ok = bool(before) and p.state.nullness(before[0].result) == T_
        ctx.ob(ok if before else None, x, 'the buffer is refilled only when everything in it was delivered', path=p, key='empty')
        rem = [e for e in ev if e.kind == 'call' and tail(e.name) == 'rem_length']
        un = [t for t in p.state.null if t[0] == 'fld' and t[2] == 'unused_data' and 'T' not in p.state.null[t]]
        nd = [t for t in p.state.null if is_fld(t, dec) and t[1] == SELF and 'T' not in p.state.null[t]]
        ctx.ob(bool(un or nd or rem and p.state.prove_le(rem[0].result)), x, 'not refilled while data of the next member is waiting', path=p, key='member')
        ctx.cur = 'starting-data-first'
        n = NET
        for k, v in p.state.null.items():
            if is_fld(k, ST) and k[1] == SELF:
                if not n & v:
                    break       # asked again later, after it was used or set anew
                n = n & v
        if 'N' not in n and 'E' not in n:
            first = [e for e in ev if e.kind == 'call' and (tail(e.name) == 'decompress' or e in reads) or e.kind == 'store' and e in stored]
            ok = first and first[0] not in reads
            ctx.ob(bool(ok), first[0] if first else q, 'data handed over at the start comes before the stream', path=p, key='order')
            clr = [e for e in ev if e.kind == 'store' and e.recv == SELF and e.name == ST and 'T' not in e.state.nullness(e.args[0])]
            ctx.ob(bool(clr), q, 'it is used once', path=p, key='once')
        elif n <= NE and p.kind != 'x':
            ctx.ob(bool(reads), q, 'without it the stream is read', path=p, key='stream')


def leaving(ctx, q, ps, S, dec, buf):
    """a refill that got data and leaves nothing to deliver goes on reading"""
    ctx.cur = 'refill-goes-on'
    for p in ps:
        if p.kind == 'x':
            continue
        st = p.state
        ev = p.events()
        stored = [e for e in ev if e.kind == 'store' and e.recv == SELF and e.name == buf]
        if not stored:
            continue
        v = st.heap(SELF, buf)
        if v == NONE:
            ctx.ob(True, q, 'no more data', path=p)
            continue
        i = max(ev.index(e) for e in stored)
        later = [e for e in ev[i:] if e.kind == 'call' and tail(e.name) == 'empty']
        ok = any('T' not in st.nullness(e.result) for e in later)
        d = st.heap(SELF, dec)
        for t in list(st.null):
            if t[0] == 'fld' and t[2] == 'unused_data' and 'E' not in st.null[t] and 'N' not in st.null[t]:
                ok = True
            if is_fld(t, dec) and t[1] == SELF and 'T' not in st.null[t]:
                ok = True
        if d is not None and 'T' not in st.nullness(d):
            ok = True
        if not ok:
            # no raw data at all
            last = [e for e in ev if e.kind == 'call' and is_fld(e.recv, S) and tail(e.name).startswith('read')]
            ok = any('T' not in st.nullness(e.result) for e in last[-1:]) or any(
                'T' not in v and core(k) in [e.result for e in last] for k, v in st.null.items())
        if not ok and any(k[0] == 'phi' and 'T' not in v for k, v in st.null.items()):
            ok = None
        ctx.ob(None if ok is None else bool(ok), q, 'an empty refill is final only at the end of the data, at the end of a member, or without decompression', path=p, key='loop')


def check_state(ctx, slot, buf, size):
    q = ctx.method(BR, 'empty')
    ctx.cur = 'empty-exact'
    b = ('fld', SELF, buf, 0)
    for p in ctx.run(q, self_cls=BR, inline={q}):
        if p.kind == 'x':
            continue
        st = p.state
        tells = [e.result for e in p.events() if e.kind == 'call' and tail(e.name) == 'tell' and e.recv == b]
        zf = [x for f in st.nums for x in subterms(f) if is_fld(x, size)]
        at_end = any(st.prove_le(lin_add(z, t, -1)) for t in tells for z in zf)
        inside = any(st.prove_le(lin_add(lin_add(t, z, -1), K(1))) for t in tells for z in zf)
        v = st.nullness(p.value)
        if v == T_:
            ctx.ob(True if at_end or 'T' not in st.nullness(b) else (False if tells and zf else None), q, 'empty only when everything was delivered', path=p, key='true')
        elif 'T' not in v:
            ctx.ob(True if inside else (False if tells and zf or 'T' not in st.nullness(b) else None), q, 'not empty only when there is data left', path=p, key='false')
    q = ctx.method(BR, 'tell')
    ctx.cur = 'fill-counts'
    attr = None
    for p in ctx.run(q, self_cls=BR, inline={q}):
        if p.kind == 'r' and self_fld(p.value):
            attr = p.value[2]
    return attr


def check_member(ctx, slot, resets=()):
    """the rest of the input after a member becomes the starting data of the next"""
    ST, KIND = slot.get('starting_data'), slot.get('decomp_type')
    q = ctx.method(BR, 'read_next_member')
    ctx.cur = 'next-member'
    for p in ctx.run(q, self_cls=BR, inline={q}):
        if p.kind == 'x':
            continue
        st = p.state
        v = st.heap(SELF, ST)
        rest = [t for t in st.null if t[0] == 'fld' and t[2] == 'unused_data' and 'E' not in st.null[t] and 'N' not in st.null[t]]
        if rest:
            ctx.ob(v is not None and any(v == t for t in rest), q, 'the bytes after the member start the next one', path=p, key='rest')
            d = rest[0][1]
            new = st.heap(SELF, d[2]) if is_fld(d) else None
            if is_fld(d):
                ctx.ob(new is not None and new != d, q, 'the next member gets a fresh decompressor', path=p, key='fresh')
                if KIND is not None and new is not None and new != d:
                    kind = ('fld', SELF, KIND, 0)
                    h = st.heap(SELF, KIND)
                    like = lambda t: isinstance(t, tuple) and any(core(x) == kind for x in subterms(t))
                    if core(new) == NONE:
                        same_kind = 'T' not in st.nullness(kind)
                    else:
                        makes = [e for e in p.events() if e.kind in ('call', 'new', 'begin') and e.result is not None and core(e.result) == core(new)]
                        same_kind = True if any(like(x) for e in makes for x in [e.recv] + list(e.args) + list((e.kw or {}).values())) else \
                            None if any(like(k[1:]) for k in st.lits) else False
                    ctx.ob(same_kind, q, 'the next member is decoded as the one before', path=p, key='kind')
                    ctx.ob(h is None or core(h) == kind or same_kind and core(h) == NONE or None, q, 'the kind of data is kept', path=p, key='kept')
            for a in resets:
                x = st.heap(SELF, a)
                ctx.ob(x is not None and 'T' not in st.nullness(x), q, 'what was counted and kept of the member before (%s) starts anew' % a, path=p, key='anew:' + a)
            ctx.ob('E' not in st.nullness(p.value) and 'N' not in st.nullness(p.value), q, 'reports that there is a next member', path=p, key='ret')
        else:
            ctx.ob(v is None and 'T' not in st.nullness(p.value), q, 'without a next member nothing changes', path=p, key='none')


def check_formats(ctx):
    ctx.cur = 'formats'
    want = {'gzip': lambda t: lin_parts(t) == lin_parts(lin_add(K(16), ('ext', 'zlib.MAX_WBITS'))) or t == K(31),
            'deflate': lambda t: t is None or t in (('ext', 'zlib.MAX_WBITS'), K(15)),
            'deflate_alt': lambda t: t == K(-15) or lin_parts(t) == lin_parts(lin_scale(('ext', 'zlib.MAX_WBITS'), -1))}
    m = {}
    for c in [BR]:
        cls = ctx.prog.classes[c]
        for n in ast.walk(cls.node):
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and isinstance(v, ast.Name):
                        m[k.value] = v.id
    for k, chk in want.items():
        q = 'warcio.bufferedreaders:' + m.get(k, '?')
        if q not in ctx.prog.funcs:
            ctx.ob(None, BR, 'decompressor of %s not found' % k)
            continue
        for p in ctx.run(q):
            es = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'decompressobj']
            if len(es) != 1 or p.value != es[0].result:
                ctx.ob(None, q, 'decompressor of %s not recognised' % k)
                continue
            a = es[0].arg(0, 'wbits')
            try:
                ok = chk(a)
            except Exception:
                ok = None
            ctx.ob(ok, es[0], '%s is decompressed as %s; window bits %s' % (k, k, show(a) if a else 'default'), path=p, key=k)


def own_slots(ctx):
    """buffer: what holds the BytesIO; size: what empty() compares its position with"""
    buf = size = None
    for f in ctx.prog.funcs.values():
        if f.cls == BR and f.outer is None:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') == 'BytesIO' \
                        and isinstance(n.targets[0], ast.Attribute):
                    buf = n.targets[0].attr
    q = ctx.method(BR, 'empty')
    for p in ctx.run(q, self_cls=BR, inline={q}):
        tells = [e.result for e in p.events() if e.kind == 'call' and tail(e.name) == 'tell']
        for f in p.state.nums:
            if any(contains(f, t) for t in tells):
                for x in subterms(f):
                    if self_fld(x) and x[2] != buf:
                        size = x[2]
    return (buf, size) if buf and size else None


def check(ctx):
    ctx.rule('pieces-in-order', 'read/readline return every piece taken from the buffer exactly once and in order')
    ctx.rule('size-bounded', 'each piece is bounded by exactly what is still missing of the size asked for')
    ctx.rule('short-only-at-end', 'read/readline return less only when the refilled buffer is empty (or the line is complete)')
    ctx.rule('raw-kept', 'each block of raw input becomes buffer content: decompressed, or unchanged when there is no decompressor or it rejects its first data')
    ctx.rule('fill-counts', 'the recorded size of the buffer is the length of its content')
    ctx.rule('refill-only-when-empty', 'the buffer is replaced only when all of it was delivered')
    ctx.rule('starting-data-first', 'data handed over at the start is used once, before the stream')
    ctx.rule('refill-goes-on', 'a refill ends without data only at the end of the input or of a member')
    ctx.rule('empty-exact', 'empty() iff no undelivered data is in the buffer')
    ctx.rule('next-member', 'the bytes after a member start the next one with a fresh decompressor of the same kind')
    ctx.rule('formats', 'gzip, zlib and raw deflate use their own window bits')
    slot, _ = ctx.slots(BR, inline={BR + '.__init__'})
    bs = br_slots(ctx) or own_slots(ctx)
    if not bs or 'stream' not in slot:
        ctx.ob(None, BR, 'buffer attributes not found')
        return
    buf, size = bs
    ctx.size_attr = size
    fill = fillers(ctx, slot['stream'])
    for n in ('read', 'readline'):
        ctx.guarded(lambda c: check_delivery(c, n, buf, fill))
    resets = set()
    ctx.guarded(lambda c: check_fill(c, slot, buf, size, fill, resets))
    ctx.guarded(lambda c: check_state(c, slot, buf, size))
    ctx.guarded(lambda c: check_member(c, slot, sorted(resets)))
    ctx.guarded(check_formats)
