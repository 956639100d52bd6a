"""Obligations on every abstract path of the de-chunking reader: what is read for a chunk, what of it is delivered,
and what happens to data that is not valid chunked data."""
import ast
from ..core import *
from .conserve import Proof, flat_events, ALL
from .c08 import BR, SELF, calls_self, fillers, br_slots, own_slots

CDR = 'warcio.bufferedreaders:ChunkedDataReader'
CDE = 'warcio.bufferedreaders:ChunkedDataException'
CRLF = K(b'\r\n')


def no_source_errors(name, recv, excs, eng):
    if tail(name) in ('read', 'readline', 'empty', '__init__') or name.endswith('_fillbuff') or tail(name) in no_source_errors.sinks:
        return False
    return None


no_source_errors.sinks = set()


def sinks(ctx, buf):
    """operations of the base class that put data into the buffer"""
    out = set()
    for f in ctx.prog.funcs.values():
        if f.cls == BR and f.outer is None and len(f.posargs) > 1 and any(
                isinstance(n, ast.Attribute) and n.attr == buf and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)) \
                and not f.q.endswith('__init__'):
            out.add(f.q)
    return out


class Flags(dict):
    bufs = ()


def flags(ctx, q, ps):
    """(no more chunks, not chunked): attributes set to True on the way"""
    out = {}
    for p in ps:
        for e in flat_events(p.items):
            if e.kind == 'store' and e.recv == SELF and e.args[0] == TRUE:
                out.setdefault(e.name, []).append(e)
    return out


def falsy_flag(st, a):
    v = st.heap(SELF, a)
    if v is None:
        v = ('fld', SELF, a, st.vers.get(SELF, 0))
    if 'T' not in st.nullness(v):
        return True
    return any(is_fld(t, a) and t[1] == SELF and 'T' not in st.null[t] for t in st.null)


def check_fill(ctx):
    bs = br_slots(ctx) or own_slots(ctx)
    slot, _ = ctx.slots(BR, inline={BR + '.__init__'})
    S = slot.get('stream')
    if not bs or S is None:
        return ctx.ob(None, CDR, 'buffer attributes not found')
    fill = fillers(ctx, S)
    sk = sinks(ctx, bs[0])
    if not sk:
        return ctx.ob(None, CDR, 'no operation that fills the buffer found')
    no_source_errors.sinks = {x.split('.')[-1] for x in sk}
    cslot, _ = ctx.slots(CDR, inline={CDR + '.__init__'})
    strict = cslot.get('raise_exceptions')
    bound = frozenset(fill | sk | {BR + '.empty'})
    for base in sorted(fill):
        l = ctx.prog.lookup(CDR, base.split('.')[-1])
        if not l or l[0] != 'fn' or l[1].cls != CDR:
            ctx.ob(None, CDR, 'no refill of its own')
            continue
        q = l[1].q
        ps = ctx.run(q, self_cls=CDR, boundary=bound - {q}, inline={CDE + '.__init__'}, raise_pred=no_source_errors)
        fl = Flags(flags(ctx, q, ps))
        fl.bufs = bs
        seen = set()
        for p in ps:
            for seg in segments(p.items, seen):
                judge(ctx, q, p, seg, S, sk, fill, fl, strict, seg is p.items)
        check_exits(ctx, q, ps, strict, fl, fill)


def judge(ctx, q, p, seg, S, sk, fill, fl, strict, top):
    """one piece of straight-line work (an iteration or a whole path)"""
    end = [x for x in seg if isinstance(x, SegEnd)]
    fin = end[-1].state if end else p.state
    H = None
    caught = None
    reads = []
    nsink = 0
    stores = []
    dataproof = None
    n = None

    def is_src(e):
        return isinstance(e, Event) and e.kind == 'call' and is_fld(e.recv, S) and e.recv[1] == SELF and not e.raised

    def data(e):
        if is_src(e) and tail(e.name) == 'read' and not is_k(e.arg(0) or NONE, 'int'):
            return e.result

    def size_of(t):
        for x in subterms(t):
            if x[0] == 'op' and x[1] == 'int' and H is not None and contains(x, H.result):
                return x
        return None

    def visit(c, e):
        if not isinstance(e, Event) or data(e) is None:
            return
        ctx.cur = 'chunk-exact'
        a = e.arg(0)
        st = e.state
        if a is None:
            ctx.ob(False, e, 'the rest of the stream is not read as one chunk', path=p, key='unbounded')
            return
        r = c.remaining(a, st)
        if all_set(st, fl):
            return
        if r is not None or size_of(a) is not None:
            ctx.ob(r, e, 'reads what is missing of the chunk; got %s' % show(a), path=p, key='size')
        if not c.allp and not c.got:
            ctx.cur = 'size-line'
            ctx.ob(st.prove_le(lin_scale(n, -1)) if n is not None else None, e, 'a chunk size is never negative', path=p, key='negative')
    for idx, e in enumerate(seg):
        if is_src(e) and tail(e.name) == 'readline':
            H, reads, n, dataproof, caught, stores = e, [], None, None, None, []
            ctx.cur = 'stops-at-end'
            st = e.state
            emp = [x for x in seg[:idx] if isinstance(x, Event) and tail(x.name) == 'empty']
            ctx.ob(bool(emp) and 'E' not in st.nullness(emp[-1].result) if emp or not any(is_fld(t) and t[2] in fl.bufs for d in (st.null, st.lits) for k in d for t in subterms(k)) else None, e, 'the next chunk is read only when everything was delivered', path=p, key='empty')
            a = e.arg(0)
            if a is not None and is_k(a, 'int'):
                ctx.ob(a[2] < 0 or a[2] >= 64, e, 'a size line of up to 64 bytes, extensions included, is read whole', path=p, key='line-limit')
            for a in fl:
                ctx.ob(falsy_flag(st, a), e, 'nothing is read as a chunk after the last one or after data that is not chunked (%s)' % a, path=p, key='flag')
            continue
        if H is None:
            continue
        if n is None:
            n = chunk_size(seg, idx, H)
        if isinstance(e, LoopRef):
            if dataproof is None:
                dataproof = Proof(data, len_of=n)
            dataproof.walk([e], visit)
            continue
        if not isinstance(e, Event):
            continue
        if e.kind == 'catch':
            caught = e
        if e.kind == 'store' and e.recv == SELF:
            stores.append(e)
        if is_src(e):
            reads.append(e)
            if data(e) is not None:
                if dataproof is None:
                    dataproof = Proof(data, len_of=n)
                dataproof.walk([e], visit)
        if e.kind == 'call' and e.target is not None and e.target.q in sk or e.kind == 'call' and tail(e.name) in {x.split('.')[-1] for x in sk}:
            nsink += 1
            arg = e.arg(0)
            if arg is None and e.kw:
                arg = list(e.kw.values())[0]
            if caught is not None:
                malformed(ctx, q, p, e, arg, H, reads, dataproof, fin, n)
            elif dataproof is not None:
                chunk(ctx, q, p, e, arg, H, reads, dataproof, fin, n, strict, fl)
            else:
                last(ctx, q, p, e, arg, H, reads, fin, fl, stores)
    if H is not None and (end or p.kind == 'r'):
        ctx.cur = 'chunk-data'
        ctx.ob(nsink == 1, H, 'what was read is delivered, once', path=p, key='once')


def all_set(st, fl):
    """the chunk was already found cut off"""
    return any(st.heap(SELF, a) == TRUE for a in fl)


def chunk_size(seg, idx, H):
    """the number a size line stands for: what int() makes of it"""
    out = set()
    for e in seg[idx:]:
        it = [e] if isinstance(e, Event) else list(flat_events([e]))
        for x in it:
            for a in (x.args or ()):
                for t in subterms(a):
                    if t[0] == 'op' and t[1] == 'int' and contains_now(t, H.result):
                        out.add(t)
    for x in seg:
        if isinstance(x, SegEnd):
            for k in list(x.state.null) + list(x.state.lits) + list(x.state.nums):
                for t in subterms(k):
                    if t[0] == 'op' and t[1] == 'int' and contains_now(t, H.result):
                        out.add(t)
    return sorted(out, key=repr)[0] if len(out) == 1 else None


def crlf_end(st, h):
    for k, v in st.lits.items():
        if v and k[0] == 'eq' and CRLF in k[1:] and any(contains(x, h) for x in k[1:]):
            return True
        if v and k[0] == 'cond' and k[1][0] == 'm' and k[1][1] == 'endswith' and k[1][2] == h and k[1][3] and k[1][3][0] == CRLF:
            return True
    return False


def size_line(ctx, p, e, H, st, n):
    ctx.cur = 'size-line'
    ctx.ob(crlf_end(st, H.result), e, 'a size line ends with CRLF', path=p, key='crlf')
    if n is not None:
        a = n[2]
        ctx.ob(len(a) > 1 and a[1] == K(16) if contains(a[0], H.result) else None, e, 'the size is hexadecimal', path=p, key='hex')
        ms = {t[1] for t in subterms(a[0]) if t[0] == 'm'} - {'split', 'partition', 'strip', 'rstrip', 'lstrip', 'decode', 'readline'}
        ctx.ob(False if 'replace' in ms or 'translate' in ms else (True if not ms else None), e, 'the digits of the size are taken as they are', path=p, key='digits')
        cut = [t for t in subterms(a[0]) if t[0] == 'm' and t[1] in ('split', 'partition')]
        ctx.ob(bool(cut) and all(t[3] and t[3][0] == K(b';') for t in cut), e, 'chunk extensions are not part of the size', path=p, key='ext')
        for t in subterms(a[0]):
            if t[0] == 'idx' and t[1] in cut:
                ctx.ob(t[2] == K(0) or (False if is_k(t[2]) else None), e, 'the size comes before any extension', path=p, key='ext')
            if t[0] == 'm' and t[1] in ('strip', 'rstrip', 'lstrip') and t[3]:
                w = t[3][0]
                ctx.ob(False if is_k(w) and w[2] is not None and not set(w[2]) <= set(b' \t\r\n\x0b\x0c') else True if is_k(w) else None, e, 'the digits of the size are taken as they are', path=p, key='digits')


def chunk(ctx, q, p, e, arg, H, reads, pr, fin, n, strict, fl):
    st = e.state
    size_line(ctx, p, e, H, fin, n)
    framing = [x for x in reads if is_k(x.arg(0) or NONE, 'int')]
    ctx.cur = 'chunk-data'
    ok = pr.holds(arg, fin)
    if ok is None and any(contains(arg, x.result) for x in framing):
        ok = False
    ctx.ob(ok, e, 'the data of the chunk, and nothing else, is delivered; got %s' % show(arg), path=p, key='data')
    cut = all_set(st, fl)
    if cut:
        ctx.cur = 'cut-off'
        s = [t for t in fin.null if is_fld(t, strict) and t[1] == SELF]
        ctx.ob(not any('T' in fin.null[t] and fin.null[t] == T_ for t in s), e, 'strict mode reports a chunk that is cut off', path=p, key='strict')
        return
    ctx.cur = 'chunk-exact'
    ctx.ob(len(framing) == 1 and framing[0].arg(0) == K(2), e, 'exactly the line end after the chunk is read', path=p, key='crlf')
    if framing:
        ctx.ob(crlf_end(fin, framing[0].result), e, 'a chunk ends with CRLF', path=p, key='crlf2')
    ctx.ob(None if n is None or not pr.missing() else any(fin.prove_le(r) for r in pr.missing()), e, 'all of the chunk was read', path=p, key='all')


def last(ctx, q, p, e, arg, H, reads, fin, fl, stores):
    size_line(ctx, p, e, H, fin, None)
    ctx.cur = 'stops-at-end'
    ctx.ob(arg is not None and 'T' not in fin.nullness(arg), e, 'nothing is delivered for the last chunk', path=p, key='last')
    ctx.ob(any(x.args[0] == TRUE for x in stores), e, 'the last chunk ends the data', path=p, key='flag')
    ctx.ob([x.arg(0) for x in reads] == [K(2)], e, 'the line end of the last chunk is read', path=p, key='crlf')


def malformed(ctx, q, p, e, arg, H, reads, pr, fin, n=None):
    """delivered as it is: the line and everything read after it"""
    if n is None:
        ns = {t for d in (fin.nums, fin.null, fin.lits) for k in d for t in subterms(k)
              if t[0] == 'op' and t[1] == 'int' and contains_now(t, H.result)}
        n = ns.pop() if len(ns) == 1 else None
    if pr is None and n is not None and crlf_end(fin, H.result):
        ctx.cur = 'size-line'
        good = fin.prove_eq(n, K(0)) or fin.prove_le(lin_add(n, K(1))) or fin.prove_le(lin_add(K(2 ** 31), n, -1)) \
            or 'T' not in fin.nullness(n)
        tried = any(n in subterms(k) for d in (fin.nums, fin.null, fin.lits) for k in d)
        ctx.ob(True if good else (False if tried else None), e, 'a chunk size below 2 GiB is taken for one', path=p, key='size-max')
    ctx.cur = 'fallback-raw'
    parts = list(arg[1]) if arg[0] in ('cat', 'add') else [arg]
    ctx.ob(parts[0] == H.result, e, 'the line that is not a size is delivered unchanged; got %s' % show(arg), path=p, key='line')
    rest = parts[1:]
    framing = [x for x in reads if is_k(x.arg(0) or NONE, 'int')]
    if pr is not None:
        t = rest[0] if rest else K(b'')
        ctx.ob(pr.holds(t, fin), e, 'so is the data read after it', path=p, key='data')
        if n is not None and pr.missing():
            ctx.ob(any(fin.prove_le(r) for r in pr.missing()) or False, e, 'a chunk that is cut off is delivered without its size line', path=p, key='cutoff')
        lost = [x for x in framing if x.result not in rest[1:] and 'T' in fin.nullness(x.result)]
        ctx.cur = 'terminator-kept'
        ctx.ob(not lost, e, 'and the two bytes that are not a line end', path=p, key='terminator')
    else:
        ctx.ob(all('T' not in fin.nullness(x.result) or x.result in rest for x in framing) and len([x for x in rest if 'T' in fin.nullness(x)]) <= len(framing), e,
               'so are the bytes read after it', path=p, key='rest')


def check_exits(ctx, q, ps, strict, fl, fill):
    for p in ps:
        ctx.cur = 'strict-reports'
        ev = p.events()
        caught = [e for e in ev if e.kind == 'catch' and contains_cde(p, e)]
        if p.kind == 'x':
            v = p.value
            bad = v[0] == 'exc' and v[1] and any(str(x).split(':')[-1] in ('ValueError', 'AssertionError') for x in v[1])
            ctx.ob(not bad, q, 'malformed chunk data never raises %s' % (v[1] if v[0] == 'exc' else '',), path=p, key='type')
            if v[0] == 'obj' and strict is not None:
                ns = [p.state.null[t] for t in p.state.null if is_fld(t, strict) and t[1] == SELF]
                ctx.ob(any(x == T_ for x in ns), q, 'malformed chunk data raises only in strict mode', path=p, key='lenient')
        elif caught and strict is not None:
            ns = [p.state.null[t] for t in p.state.null if is_fld(t, strict) and t[1] == SELF]
            ctx.ob(any('T' not in x for x in ns), q, 'strict mode reports malformed chunk data', path=p, key='strict')
            ctx.cur = 'fallback-raw'
            i = ev.index(caught[-1])
            ctx.ob(any(e.kind == 'store' and e.recv == SELF and e.args[0] == TRUE for e in ev[i:]), q, 'from there on the data is not treated as chunked', path=p, key='flag')
            ctx.ob(any(e.kind == 'call' and e.target is not None and e.target.q in fill or tail(e.name or '') in {x.split('.')[-1] for x in fill} for e in ev[i:])
                   or any('_process' in (e.name or '') for e in ev[i:]), q, 'and delivered', path=p, key='go-on')


def contains_cde(p, e):
    return 'ChunkedDataException' in repr(e.args)


def check(ctx):
    ctx.rule('size-line', 'a chunk size is a hexadecimal number >= 0 before any ";", on a line that ends with CRLF')
    ctx.rule('chunk-exact', 'exactly the announced number of bytes, then one line end, is read')
    ctx.rule('chunk-data', 'delivered: exactly the bytes of the chunk, once, in order')
    ctx.rule('cut-off', 'a chunk that is cut off is delivered as far as it goes, or reported in strict mode')
    ctx.rule('stops-at-end', 'after the last chunk nothing is read or delivered; the next chunk only when all was delivered')
    ctx.rule('fallback-raw', 'data that is not chunked is delivered unchanged from the offending line on')
    ctx.rule('terminator-kept', 'the bytes found in place of the line end after a chunk are delivered')
    ctx.rule('strict-reports', 'ChunkedDataException exactly in strict mode; no other error')
    ctx.need(CDR)
    ctx.guarded(check_fill)
