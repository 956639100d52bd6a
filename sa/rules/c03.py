"""Linear forms of the reported record offset and length on every abstract path of the draining operation,
the raw-position formula of the buffered reader, and the accessors."""
from ..core import *
from .iterslots import *

BR = 'warcio.bufferedreaders:BufferedReader'


def terms_of(t):
    c, d = lin_parts(t)
    return c, d


def last_index(items, pred):
    """index of the last top-level item that is/contains a matching event"""
    r = -1
    for i, it in enumerate(items):
        if isinstance(it, Event):
            if pred(it):
                r = i
        elif isinstance(it, LoopRef):
            if any(pred(e) for e in flat([it])):
                r = i
    return r


def is_line(e):
    return e.kind == 'call' and tail(e.name) == 'readline'


def blank_sum(ctx, p, B, where):
    """is B the total length of the lines skipped before the kept one"""
    loops = [it for it in p.items if isinstance(it, LoopRef) and any(is_line(e) for e in flat([it]))]
    nloop = len(loops)
    s = iter_slots(ctx)
    # lines read on the path outside loops
    top = [e for e in p.items if isinstance(e, Event) and is_line(e)]
    if nloop == 0:
        want = ZERO
        for e in top:
            want = lin_add(want, mk_len(e.result))
        nl = p.state.heap(SELF, s.next)
        if nl is not None and nl[0] != 'k':
            want = lin_add(want, mk_len(nl), -1)
        return p.state.prove_eq(B, want)
    if nloop > 1:
        return None
    L = loops[0]
    return accumulate(p, L, B, top, s)


def accumulate(p, L, B, top, s):
    """B counts len() of every line read except the last (kept or empty) one.

    Induction over the loop heads: with c(i) the counter at head i and h(i) the line held (read, not yet
    counted) at head i, every iteration i -> j must satisfy  c(j) + |h(j)| = c(i) + |h(i)| + sum of |lines read|;
    a held line is one still in a local variable at the head."""
    loop = L.loop
    at = loop.heads[L.at]
    c, d = lin_parts(B)
    keys = set()
    # candidate counters: locals whose value at the exit head occurs in B
    for k, v in at.store.items():
        if k[0] == 'l' and not isinstance(v, tuple):
            continue
        if k[0] in ('l',) or (k[0] == 'h' and k[1] == SELF):
            if v == B or (not is_k(v) and v in d):
                keys.add(k)
    if is_k(B):
        for k, v in at.store.items():
            if k[0] == 'l' and v == B and B[1] == 'int':
                keys.add(k)
    verdicts = []
    for k in keys:
        verdicts.append(induct(loop, L, k, top, p, B))
    if any(v is True for v in verdicts):
        return True
    if not keys:
        # constant or unrelated term: wrong as soon as a line was skipped
        if is_k(B) and L.at != L.entry:
            return False
        return None if not is_k(B) else True
    return False if all(v is False for v in verdicts) else None


def lines_in(t):
    return t[0] in ('ev', 'old', 'older') and 'readline' in repr(core(t))


def line_vars(loop):
    """locals that hold a line at some loop head"""
    out = {None}
    for h in loop.heads:
        for k, v in h.store.items():
            if k[0] == 'l' and isinstance(v, tuple) and lines_in(v):
                out.add(k)
    return out


def induct(loop, L, k, top, p, B):
    """for one choice of the variable holding the uncounted line, counter + |held| grows by exactly what is read"""
    res = [induct1(loop, k, h) for h in line_vars(loop)]
    if any(r is True for r in res):
        return True
    return False if all(r is False for r in res) else None


def induct1(loop, k, h):
    def val(st):
        v = st.store.get(k)
        if v is None or v[0] not in ('k', 'lin', 'phi', 'len', 'op', 'old', 'add'):
            return None
        return v

    def hold(st):
        if h is None:
            return ZERO
        v = st.store.get(h)
        return mk_len(v) if v is not None and v[0] != 'k' else (ZERO if v is None else None)
    good = True
    for i in range(len(loop.heads)):
        ci, hi = val(loop.heads[i]), hold(loop.heads[i])
        if ci is None or hi is None:
            return None
        for seg, j in loop.trans.get(i, ()):
            end = seg[-1].state if seg and isinstance(seg[-1], SegEnd) else None
            if end is None:
                return None
            cj, hj = end.store.get(k), hold(end)
            if cj is None or hj is None:
                return None
            sm = ZERO
            for e in evs(seg, 'call'):
                if is_line(e):
                    sm = lin_add(sm, mk_len(e.result))
            if not end.prove_eq(lin_add(cj, hj), lin_add(lin_add(ci, hi), sm)):
                good = False
    return good


def check_forms(ctx):
    s = iter_slots(ctx)
    q = s.rte
    ctx.cur = 'offset-form'
    if s.done is None or s.offset is None:
        ctx.ob(None, q, 'the (offset, length) result was not found')
        return
    for p in s.drained:
        fin = p.state.heap(SELF, s.done)
        if fin is None or fin[0] not in ('tup', 'lst'):
            ctx.ob(False, q, 'a drained record has no offset and length', path=p)
            continue
        off0, length = fin[1]
        old = ('fld', SELF, s.offset, 0)
        ctx.cur = 'offset-form'
        ctx.ob(off0 == old, q, 'the offset reported is where the record began, not where the stream is now', path=p, key='begin')
        new = p.state.heap(SELF, s.offset)
        if new is None:
            ctx.ob(False, q, 'the start of the next record is not computed', path=p, key='next')
            continue
        tells = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'tell']
        rems = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'rem_length']
        c, d = terms_of(new)
        T = [e for e in tells if d.get(e.result) == 1]
        R = [e for e in rems if d.get(e.result) == -1]
        nl = p.state.heap(SELF, s.next) if s.next else None
        has_line = nl is not None and 'T' in p.state.nullness(nl)
        want = None
        if T and R:
            want = lin_add(T[-1].result, R[-1].result, -1)
            if has_line:
                want = lin_add(want, mk_len(nl), -1)
        ctx.ob(want is not None and p.state.prove_eq(new, want), q,
               'next offset %s = raw position - bytes still buffered - length of the read-ahead line' % show(new), path=p, key='form')
        if want is None:
            continue
        # nothing may be read between measuring and the end
        il = max(last_index(p.items, is_line), last_index(p.items, lambda e: e in drain_reads(p)))
        im = min(p.items.index(T[-1]) if T[-1] in p.items else -1, p.items.index(R[-1]) if R[-1] in p.items else -1)
        ctx.ob(im > il, T[-1], 'the position is measured after the last read', path=p, key='order')
        # tell() is asked of the stream the reader reads
        ins = input_slots(ctx)
        rat = set.intersection(*[x[2] or set() for x in ins]) if ins else set()
        sat = set.intersection(*[x[3] or set() for x in ins]) if ins else set()
        if self_fld(T[-1].recv) and rat and sat:
            ctx.ob(T[-1].recv[2] in sat, T[-1], 'raw position comes from the input stream', path=p, key='tell-of')
            ctx.ob(R[-1].recv[2] in rat if self_fld(R[-1].recv) else None, R[-1], 'buffered bytes are those of its reader', path=p, key='rem-of')
        else:
            ctx.ob(None, T[-1], 'raw position comes from the input stream')
        ctx.cur = 'length-form'
        base = lin_add(new, old, -1)
        B = lin_add(base, length, -1)
        comp = compressed(p)
        if comp is None:
            # whether the input is compressed was not asked: right only if it makes no difference
            z = p.state.prove_eq(B, ZERO)
            n = any(isinstance(it, LoopRef) and it.at != it.entry and any(is_line(e) for e in flat([it])) for it in p.items)
            ctx.ob(False if n and not asked(p) else None, q, 'length depends on whether the input is compressed', path=p, key='ask')
            continue
        if comp:
            ctx.ob(p.state.prove_eq(B, ZERO), q, 'compressed: length %s = next offset - offset' % show(length), path=p, key='comp')
        else:
            r = blank_sum(ctx, p, B, q)
            ctx.ob(r, q, 'uncompressed: length = next offset - offset - the blank lines after the record', path=p, key='plain')


def compressed(p):
    for k, v in p.state.null.items():
        if is_fld(k) and is_fld(k[1]) and k[1][1] == SELF and 'decomp' in k[2]:
            if v == T_:
                return True
            if 'T' not in v:
                return False
    return None


def asked(p):
    return any('decomp' in repr(k) for k in p.state.null)


def check_accessors(ctx):
    s = iter_slots(ctx)
    ctx.cur = 'accessors'
    for name, i in (('get_record_offset', 0), ('get_record_length', 1)):
        q = ctx.method(IT, name)
        for p in ctx.run(q, self_cls=IT):
            if p.kind == 'x':
                continue
            v = p.value
            ok = v[0] == 'idx' and is_fld(v[1], s.done) and v[2] == K(i)
            called = any(e.kind == 'call' and e.name == 'read_to_end' for e in p.events())
            have = 'N' not in p.state.null.get(('fld', SELF, s.done, 0), 'N')
            other = v[0] == 'idx' and is_fld(v[1], s.done)
            ctx.ob(True if ok else (False if other or is_k(v) or self_fld(v) else None), q, 'returns the %s of the record' % name[11:], path=p)
            ctx.ob(called or have, q, 'the record is drained before its %s is reported' % name[11:], path=p, key='drain:' + q)


def check_initial(ctx):
    """the first record starts where the stream was when the iterator was made"""
    s = iter_slots(ctx)
    ctx.cur = 'first-offset'
    q = ctx.method(IT, '__init__')
    for p, S, rattr, sattr in input_slots(ctx):
        off = p.state.heap(SELF, s.offset)
        if S is None or off is None:
            ctx.ob(None, q, 'first offset %s' % (show(off) if off else 'unset'))
            continue
        tells = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'tell' and e.result == off and not e.raised]
        if tells:
            same = core(tells[0].recv) == core(S) or wraps(p, S, tells[0].recv)
            ctx.ob(same, tells[0], 'the reader reads the stream whose position is reported', path=p, key='same')
        elif S[0] == 'sym':
            ctx.ob(False if is_k(off) else None, q, 'first offset is the position of the input stream', path=p)
        else:
            vals = [v for k, v in p.state.store.items() if k[0] == 'h' and k[1] == S]
            ctx.ob(True if off in vals else (False if is_k(off) and vals else None), q,
                   'first offset is the position of the stand-in', path=p)


def check_untold(ctx):
    """an input whose position cannot be asked for (a pipe, a socket) is counted from its beginning"""
    ctx.cur = 'first-offset'
    q = ctx.method(IT, '__init__')
    for exc in ('OSError', 'AttributeError'):
        for p in ctx.run(IT, construct=True, raise_pred=lambda name, recv, excs, eng: (exc,) if tail(name) == 'tell' and recv is not None and recv[0] == 'sym' else None):
            ev = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'tell' and e.raised and e.recv[0] == 'sym']
            if not ev:
                continue
            out = p.kind == 'x' and p.value[0] == 'exc' and p.value[1] == (exc,)
            ctx.ob(not out, ev[-1], 'an input that has no position (%s) can be read' % exc, path=p, key='untold')


def wraps(p, S, inner):
    return any(k[0] == 'h' and k[1] == S and v == inner for k, v in p.state.store.items())


def input_slots(ctx):
    """per construction path: (path, stream given to the reader, reader attribute, attribute with that stream)"""
    out = []
    for p in ctx.run(IT, construct=True):
        if p.kind == 'x':
            continue
        new = [e for e in p.events() if e.kind == 'new' and ctx.prog.is_subclass(e.name, BR)] \
            if hasattr(ctx.prog, 'is_subclass') else \
            [e for e in p.events() if e.kind == 'new' and (e.name == BR or e.name in ctx.prog.subclasses(BR))]
        if len(new) != 1:
            out.append((p, None, None, None))
            continue
        S = new[0].arg(0, 'stream')
        rattr = {k[2] for k, v in p.state.store.items() if k[0] == 'h' and k[1] == SELF and v == new[0].result}
        sattr = {k[2] for k, v in p.state.store.items() if k[0] == 'h' and k[1] == SELF and v == S}
        out.append((p, S, rattr, sattr))
    return out


def check_other_writers(ctx):
    s = iter_slots(ctx)
    ctx.cur = 'offset-writers'
    for q in s.gens + [ctx.method(IT, n) for n in ('get_record_offset', 'get_record_length')]:
        for p in ctx.run(q, self_cls=IT, max_heads=80):
            for e in p.events():
                if e.kind == 'store' and e.recv == SELF and e.name == s.offset:
                    ctx.ob(False, e, 'the record offset is changed outside draining', path=p)
        ctx.ob(True, q, 'does not change the offset')


def check_rem(ctx):
    """unread bytes of the buffered reader = rest of the buffer + input kept by the decompressor"""
    ctx.cur = 'buffered-bytes'
    q = ctx.method(BR, 'rem_length')
    slots = br_slots(ctx)
    if slots is None:
        ctx.ob(None, q, 'buffer attributes not found')
        return
    buf, size = slots
    for p in ctx.run(q, self_cls=BR):
        if p.kind == 'x':
            continue
        c, d = lin_parts(p.value)
        bufn = p.state.nullness(('fld', SELF, buf, 0))
        dec = [k for k, v in p.state.null.items() if is_fld(k) and 'decomp' in k[2] and k[1] == SELF]
        un = [k for k, v in p.state.null.items() if k[0] in ('fld', 'op') and 'unused_data' in repr(k) and v == T_]
        want_buf = 'T' in bufn
        tells = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'tell' and e.recv == ('fld', SELF, buf, 0)]
        want = ZERO
        if want_buf:
            if not tells:
                ctx.ob(False, q, 'bytes left in the buffer are not counted', path=p, key='buf')
                continue
            want = lin_add(('fld', SELF, size, 0), tells[-1].result, -1)
        for k in un:
            want = lin_add(want, mk_len(k))
        ctx.ob(p.state.prove_eq(p.value, want), q, 'rest of the buffer plus the data the decompressor did not use: %s' % show(p.value), path=p)


def br_slots(ctx):
    """(buffer attribute, attribute with the length of its contents), from the operation that fills it"""
    best = None
    for f in sorted(ctx.prog.funcs.values(), key=lambda f: f.q):
        if f.cls != BR or f.outer or 'BytesIO' not in src_names(f):
            continue
        try:
            ps = ctx.run(f.q, self_cls=BR)
        except Undecided:
            continue
        for p in ps:
            if p.kind == 'x':
                continue
            content = {e.result: (e.args[0] if e.args else K(b'')) for e in p.events()
                       if e.kind in ('call', 'new') and tail(e.name) == 'BytesIO'}
            for k, v in p.state.store.items():
                if k[0] == 'h' and k[1] == SELF and v in content:
                    buf, c = k[2], content[v]
                    zs = set()
                    for k2, v2 in p.state.store.items():
                        if k2[0] == 'h' and k2[1] == SELF and k2[2][0] != '@' and p.state.prove_eq(v2, mk_len(c)):
                            zs.add(k2[2])
                    best = (buf, zs if best is None or best[0] != buf else best[1] & zs)
    if best and len(best[1]) == 1:
        return best[0], sorted(best[1])[0]
    return None


def src_names(f):
    import ast
    return {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}


def check_wrapper(ctx):
    """input streams without tell(): the stand-in counts what it delivers"""
    ctx.cur = 'counted-position'
    for c in list(ctx.prog.classes.values()):
        if c.mod.name != 'warcio.archiveiterator' or c.q in [IT] + list(ctx.prog.subclasses(IT)):
            continue
        if not (ctx.prog.lookup(c.q, 'tell') and ctx.prog.lookup(c.q, 'read')):
            continue
        tq, rq = ctx.method(c.q, 'tell'), ctx.method(c.q, 'read')
        attr = None
        for p in ctx.run(tq, self_cls=c.q):
            if p.kind == 'r' and self_fld(p.value):
                attr = p.value[2]
        if attr is None:
            ctx.ob(None, tq, 'no counter')
            continue
        for p in ctx.run(rq, self_cls=c.q):
            if p.kind == 'x':
                continue
            got = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'read']
            want = ('fld', SELF, attr, 0)
            for e in got:
                want = lin_add(want, mk_len(e.result))
            have = p.state.heap(SELF, attr) or ('fld', SELF, attr, 0)
            ctx.ob(p.state.prove_eq(have, want), rq, 'position advances by the bytes delivered', path=p)
            ctx.ob(len(got) == 1 and p.value == got[0].result, rq, 'the bytes read are delivered', path=p, key='deliver')
            if got:
                n = got[0].arg(0)
                ctx.ob(n is not None, got[0], 'the size is passed on', path=p, key='size')
        for p in ctx.run(c.q, construct=True):
            if p.kind != 'x':
                v = p.state.heap(SELF, attr)
                ctx.ob(v == ZERO, c.q, 'position starts at 0', path=p, key='start')


def check(ctx):
    ctx.rule('offset-form', 'offset = value before draining; next offset = tell - rem_length - len(read-ahead line), measured after the last read')
    ctx.rule('length-form', 'length = next offset - offset, minus exactly the skipped lines for uncompressed input (induction over the loop)')
    ctx.rule('accessors', 'offset and length accessors return the two parts of the drained result')
    ctx.rule('first-offset', 'the first offset is the stream position at construction; the reader reads that stream')
    ctx.rule('offset-writers', 'no other operation changes the offset')
    ctx.rule('buffered-bytes', 'rem_length = rest of the decoded buffer + data unused by the decompressor')
    ctx.rule('counted-position', 'stand-in for unseekable input counts exactly the bytes it delivers')
    ctx.need(IT)
    for f in (check_forms, check_accessors, check_initial, check_untold, check_other_writers, check_rem, check_wrapper):
        ctx.guarded(f)
