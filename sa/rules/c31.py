"""Streaming: what the reading and copying code asks of a stream (effects on the wrapped streams on every path), and
that no loop keeps the pieces it reads."""
import ast
from ..core import *
from .util import *
from .iterslots import iter_slots, IT
from .c08 import fillers, own_slots
from .c14 import record_writers
from .c18 import REQR

BR = 'warcio.bufferedreaders:BufferedReader'
CR = 'warcio.bufferedreaders:ChunkedDataReader'
LR = 'warcio.limitreader:LimitReader'
DV = 'warcio.digestverifyingreader:DigestVerifyingReader'
L = 'warcio.recordloader:ArcWarcRecordLoader'
SELF = sym('self')
MAXB = 1 << 26
BACK = ('seek', 'truncate', 'readlines', 'getvalue', 'getbuffer', 'writelines', 'write', 'peek', 'fileno', 'detach', 'readall', 'seekable')


def all_events(p):
    seen = set()
    for seg in segments(p.items):
        for e in seg:
            if isinstance(e, Event) and id(e) not in seen:
                seen.add(id(e))
                yield e


def local_buffer(st, t):
    t = core(t)
    return t is not None and ('BytesIO' in show(t) or 'StringIO' in show(t) or 'TemporaryFile' in show(t)) and t[0] in ('ev', 'obj', 'op', 'new', 'res')


def made_here(p):
    """results of calls that make an in-memory or temporary file"""
    return {core(e.result) for e in all_events(p) if e.kind in ('call', 'new') and e.result is not None
            and (tail(e.name) in ('BytesIO', 'StringIO') or 'emp' in tail(e.name) and 'file' in tail(e.name).lower())}


def check_forward(ctx):
    ctx.cur = 'forward'
    sl = ctx.slots(BR, inline={BR + '.__init__'})[0]
    fill = fillers(ctx, sl['stream'])
    own = own_slots(ctx)
    s = iter_slots(ctx)
    P = 'warcio.statusandheaders:StatusAndHeadersParser'
    todo = [(ctx.method(BR, 'read'), BR, frozenset(fill)), (ctx.method(BR, 'readline'), BR, frozenset(fill))]
    todo += [(q, BR, None) for q in sorted(fill)]
    todo += [(ctx.method(CR, q.rpartition('.')[2]), CR, frozenset(f.q for f in ctx.prog.funcs.values() if f.cls == BR and f.q.rpartition('.')[2] not in ('read', 'readline'))) for q in sorted(fill) if ctx.method(CR, q.rpartition('.')[2]) != q]
    todo += [(ctx.method(c, m), c, None) for c in (LR, DV) for m in ('read', 'readline')]
    todo += [(ctx.method(P, 'parse'), P, None)]
    todo += [(ctx.method(c, 'parse'), c, None) for c in ('warcio.recordloader:ARCHeadersParser', 'warcio.recordloader:ARC2WARCHeadersParser')]
    todo += [(ctx.method(L, m), L, None) for m in ('parse_record_stream', 'load_http_headers')]
    todo += [(s.rte, IT, None), (ctx.method(IT, '__init__'), IT, None), (ctx.method(IT, 'close'), IT, None)] + [(q, IT, None) for q in s.gens]
    for q, cls, bnd in todo:
        def one(c, q=q, cls=cls, bnd=bnd):
            n = 0
            done = set()
            for p in ctx.run(q, self_cls=cls, **({'boundary': bnd} if bnd is not None else {})):
                mine = made_here(p)
                for e in all_events(p):
                    if e.kind != 'call' or e.recv is None or id(e) in done:
                        continue
                    done.add(id(e))
                    n += 1
                    r = core(e.recv)
                    if tail(e.name) in BACK:
                        if r in mine or own and is_fld(r, own[0]) or 'stderr' in show(r) or 'stdout' in show(r):
                            continue
                        src = is_stream(ctx, r, cls, q, sl, s)
                        ctx.ob(False if src else (None if src is None else True), e, 'a source is only read forwards: %s' % tail(e.name), path=p, key='back:' + tail(e.name))
                    if tail(e.name) == 'close' and not q.endswith('.close'):
                        src = is_stream(ctx, r, cls, q, sl, s)
                        if src:
                            ctx.ob(False, e, 'reading does not close the source', path=p, key='close')
            ctx.ob(True, q, 'only reads forwards')
            ctx.ob(n > 0 or None, q, 'calls')
        ctx.guarded(one)


def is_stream(ctx, r, cls, q, sl, s):
    """is r a source: the wrapped stream, the file of the iterator, its reader, the stream parameter"""
    f = ctx.prog.funcs[q]
    if r[0] == 'sym':
        return r[1] in ('stream', 'fileobj', 'fh') or None
    if self_fld(r):
        return True
    if is_fld(r, 'raw_stream'):
        return True
    return None


def check_iterator(ctx):
    """a file without a position is counted"""
    ctx.cur = 'counts'
    q = ctx.method(IT, '__init__')
    names = ctx.prog.funcs[q].posargs
    if 'fileobj' not in names:
        raise AnalysisBroken('ArchiveIterator(fileobj)')
    F = sym('fileobj')
    wrappers = set()
    n = 0
    # the attribute the position is taken from later on
    s = iter_slots(ctx)
    posf = {e.recv[2] for p in s.paths for e in all_events(p) if e.kind == 'call' and tail(e.name) == 'tell' and self_fld(e.recv)}
    for p in ctx.run(q, self_cls=IT, all_raises=True):
        tells = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'tell' and core(e.recv) == F]
        readers = [e for e in p.events() if e.kind == 'new' and tail(e.name).endswith('Reader')]
        if p.kind == 'x':
            if tells and tells[-1].raised and p.value is not None and p.value[0] == 'exc' and any('tell' in str(x) for x in p.value[1:]):
                ctx.ob(False, tells[-1], 'a source without a position can be read', path=p, key='raises')
            continue
        n += 1
        bad = [e for e in tells if e.raised]
        held = {a: p.state.heap(SELF, a) for a in posf}
        for e in readers:
            src = e.arg(0, 'stream')
            if bad:
                w = [x for x in p.events() if x.kind == 'new' and x.args and core(x.args[0]) == F and x.name != e.name]
                ctx.ob(bool(w) and core(src) == core(w[-1].result), e, 'a source without a position is counted while it is read', path=p, key='wrapped')
                for x in w:
                    wrappers.add(x.name)
                for a, v in held.items():
                    if v is not None and w:
                        ctx.ob(core(v) == core(w[-1].result), e, 'positions come from the count', path=p, key='pos')
            else:
                ctx.ob(core(src) == F, e, 'the source is read directly', path=p, key='direct')
                for a, v in held.items():
                    if v is not None:
                        ctx.ob(core(v) == F, e, 'positions come from the source', path=p, key='pos')
            b = e.arg(1, 'block_size')
            ctx.ob(b == sym('block_size'), e, 'blocks have the size asked for', path=p, key='block')
        ctx.ob(bool(readers) or None, q, 'reader made')
    ctx.ob(n > 0, q, 'can be made', key='any')
    for w in wrappers:
        ctx.guarded(lambda c, w=w.rpartition('.')[0] if w.endswith('.__init__') else w: check_counter(c, w))
    ctx.ob(bool(wrappers) or None, q, 'the counting reader')


def check_counter(ctx, cls):
    q = ctx.method(cls, '__init__')
    sl, ps = ctx.slots(cls)
    src = [a for a in sl.values()]
    zero = {k[2] for p in ps for k, v in p.state.store.items() if k[0] == 'h' and k[1] == SELF and v == K(0)}
    q = ctx.method(cls, 'tell')
    pos = None
    for p in ctx.run(q, self_cls=cls, inline={q}):
        if p.kind == 'r' and self_fld(p.value):
            pos = p.value[2]
    ctx.ob(pos in zero if pos else None, q, 'counts from zero; got %s' % pos, key='zero')
    q = ctx.method(cls, 'read')
    size = ctx.prog.funcs[q].posargs[1:2]
    for p in ctx.run(q, self_cls=cls, inline={q}):
        if p.kind == 'x':
            continue
        rs = [e for e in p.events() if e.kind == 'call' and self_fld(e.recv) and e.recv[2] in src and tail(e.name) == 'read']
        ok = len(rs) == 1 and core(p.value) == rs[0].result
        ctx.ob(ok or (None if not rs and p.value[0] != 'k' else False), q, 'gives what was read', path=p, key='same')
        for e in rs:
            if size:
                ctx.ob(e.arg(0) == sym(size[0]), e, 'reads the size asked for', path=p, key='size')
        if ok and pos:
            new = p.state.heap(SELF, pos)
            ctx.ob(new is not None and p.state.prove_eq(new, lin_add(('fld', SELF, pos, 0), mk_len(rs[0].result))), q,
                   'counts the bytes read; got %s' % (show(new) if new else 'nothing'), path=p, key='count')


def bounded(a, st, also=()):
    if a is None or a == NONE:
        return False
    if is_k(a, 'int'):
        return 0 < a[2] <= MAXB
    if a in also:
        return True
    if st.prove_le(lin_add(a, K(MAXB), -1)) and (st.prove_le(lin_add(K(1), a, -1)) or st.prove_le(lin_scale(a, -1))):
        return True
    return None


def check_blocks(ctx):
    ctx.cur = 'blocks'
    sl = ctx.slots(BR, inline={BR + '.__init__'})[0]
    fill = fillers(ctx, sl['stream'])
    bs = sl.get('block_size')
    for q in sorted(fill):
        f = ctx.prog.funcs[q]
        own = {sym(a) for a in f.posargs[1:]}
        for p in ctx.run(q, self_cls=BR):
            for e in all_events(p):
                if e.kind == 'call' and is_fld(e.recv, sl['stream']) and tail(e.name).startswith('read'):
                    a = core(e.arg(0)) if e.arg(0) is not None else None
                    ok = bounded(a, e.state, own) if a is None or a not in own else ('T' in e.state.nullness(a) and 'N' not in e.state.nullness(a))
                    if ok is None and bs and is_fld(a, bs):
                        ok = True
                    if a is not None and a in own and not ok:
                        ok = False if a == K(0) else None
                    ctx.ob(ok, e, 'the source is read in blocks; got %s' % (show(a) if a else 'everything'), path=p, key='source')
    s = iter_slots(ctx)
    for p in s.paths:
        for e in all_events(p):
            if e.kind == 'call' and is_fld(core(e.recv), 'raw_stream') and tail(e.name) == 'read':
                a = core(e.arg(0)) if e.arg(0) is not None else None
                ok = bounded(e.arg(0), e.state)
                if ok is None and a[0] == 'fld' and a[2] in ('length', 'payload_length', 'limit', '_orig_limit'):
                    ok = False          # as much as the record says it has
                ctx.ob(ok, e, 'the rest of a record is passed over in blocks; got %s' % (show(e.arg(0)) if e.arg(0) else 'everything'), path=p, key='rest')


GROW = ('append', 'extend', 'add', 'insert', 'appendleft', 'write', 'setdefault', 'update')
SHRINK = ('clear', 'pop', 'popleft', 'popitem', 'remove', 'truncate')


def check_keeps(ctx):
    """the iterator and what it parses with hold nothing of the records they passed"""
    ctx.cur = 'nothing-held'
    s = iter_slots(ctx)
    P = 'warcio.statusandheaders:StatusAndHeadersParser'
    todo = [(s.rte, IT)] + [(q, IT) for q in s.gens] + [(ctx.method(L, 'parse_record_stream'), L), (ctx.method(P, 'parse'), P)]
    todo += [(ctx.method(c, 'parse'), c) for c in ('warcio.recordloader:ARCHeadersParser', 'warcio.recordloader:ARC2WARCHeadersParser')]
    grown, freed = {}, set()
    for q, cls in todo:
        f = ctx.prog.funcs[q]
        for p in ctx.run(q, self_cls=cls):
            for e in all_events(p):
                if e.kind == 'store' and core(e.recv) == SELF:
                    v = core(e.args[0])
                    old = [x for x in v[1] if held(x, e.name)] if v[0] in ('add', 'cat') and isinstance(v[1], tuple) else []
                    if old and any(core(x)[0] in ('obj', 'lst', 'tup') or is_k(core(x), 'bytes') or from_stream(core(x)) for x in v[1] if x not in old):
                        grown.setdefault((cls, e.name), (e, p))
                    elif not any(held(x, e.name) for x in subterms(v)) and not (v[0] == 'lst' and len(v[1]) > 0):
                        if v[0] != 'lin':
                            freed.add((cls, e.name))
                elif e.kind in ('call', 'append', 'setitem') and e.recv is not None and self_fld(e.recv):
                    a = core(e.recv)[2]
                    if e.kind == 'append' or e.kind == 'call' and tail(e.name) in GROW:
                        grown.setdefault((cls, a), (e, p))
                    elif e.kind == 'call' and tail(e.name) in SHRINK:
                        freed.add((cls, a))
                elif e.kind == 'delitem' and e.recv is not None and self_fld(e.recv):
                    freed.add((cls, core(e.recv)[2]))
        ctx.ob(True, q, 'nothing of the records passed is kept')
    for (cls, a), (e, p) in sorted(grown.items(), key=lambda x: x[0]):
        ctx.ob(None if (cls, a) in freed else False, e, 'nothing of the records passed is kept: self.%s grows' % a, path=p, key='grows:' + a)


def held(x, a):
    return isinstance(x, tuple) and (is_fld(core(x), a) and core(core(x)[1]) == SELF or x[0] == 'phi' and len(x) > 2 and x[2] == ('h', SELF, a))


def from_stream(x):
    return x[0] == 'ev' and any(str(y).split('.')[-1].startswith('read') and not str(y).startswith('read_') for y in x[1][-1:])


USERS = [('warcio.checker:Checker', 'process_one'), ('warcio.extractor:Extractor', 'extract'),
         ('warcio.warcwriter:WARCWriter', 'write_record'), ('warcio.recordbuilder:RecordBuilder', 'ensure_digest'),
         ('warcio.recompressor:Recompressor', 'decompress_and_recompress'), ('warcio.recompressor:Recompressor', 'load_and_write'),
         ('warcio.indexer:Indexer', 'process_one')]


def reading_gen(ctx, t):
    """a generator of pieces read, taken as a whole in t"""
    found = []

    def go(t):
        if not isinstance(t, tuple):
            return
        if t and t[0] == 'op' and len(t) > 2 and t[1] not in ('iter', 'next', 'iter2') or t and t[0] == 'm' and len(t) > 3:
            for x in t[2] if t[0] == 'op' else t[3]:
                if isinstance(x, tuple) and x and x[0] == 'op' and x[1] == 'iter':
                    x = x[2][0]
                if isinstance(x, tuple) and x and x[0] == 'gen' and x[1] in ctx.prog.funcs:
                    if any(isinstance(n, ast.Attribute) and n.attr in ('read', 'readline', 'read1') for n in ast.walk(ctx.prog.funcs[x[1]].node)):
                        found.append(x[1])
        for x in t:
            go(x)
    go(t)
    return found


def check_users(ctx):
    ws = []
    ctx.guarded(lambda c: ws.extend(('warcio.warcwriter:WARCWriter', q.rpartition('.')[2]) for q in sorted(record_writers(c))))
    for cls, m in USERS + [w for w in ws if w not in USERS]:
        def one(c, cls=cls, m=m):
            ctx.cur = 'blocks'
            q = ctx.method(cls, m)
            n = 0
            done = set()
            for p in ctx.run(q, self_cls=cls, inline={q}, max_heads=30, hazards=None):
                memory = {core(e.result) for e in all_events(p) if e.kind in ('call', 'new') and e.result is not None and tail(e.name) in ('BytesIO', 'StringIO') and not e.args}
                for seg in segments(p.items):
                    got = {}
                    for e in seg:
                        if isinstance(e, Event) and e.kind == 'call' and not e.raised and tail(e.name) in ('read', 'readline', 'read1') and e.recv is not None:
                            n += 1
                            r = core(e.recv)
                            got[core(e.result)] = e
                            if tail(e.name) == 'read' and 'header' not in show(r):
                                ctx.cur = 'blocks'
                                ok = bounded(e.arg(0), e.state)
                                if ok is None and e.arg(0) is not None and e.arg(0)[0] in ('sym', 'phi', 'fld'):
                                    ok = None
                                if ok and id(e) in done:
                                    continue
                                done.add(id(e))
                                ctx.ob(ok, e, 'content is read in blocks; got %s' % (show(e.arg(0)) if e.arg(0) else 'everything'), path=p, key=m)
                        if isinstance(e, Event):
                            ctx.cur = 'not-kept'
                            for a in [e.recv] + list(e.args or ()) + list((e.kw or {}).values()):
                                for g in reading_gen(ctx, a):
                                    ctx.ob(False, e, 'pieces read are passed on, not kept: all of %s' % g, path=p, key=m + ':all')
                        if isinstance(e, Event) and e.kind == 'call' and tail(e.name) == 'write' and core(e.recv) in memory and e.args and \
                                any(contains(e.args[0], g) for g in got):
                            ctx.ob(False, e, 'pieces read are not kept in memory', path=p, key=m + ':mem')
                        if isinstance(e, Event) and e.kind == 'call' and tail(e.name) == 'copyfileobj':
                            ctx.ob(core(e.arg(1)) not in memory, e, 'what is copied aside is not kept in memory', path=p, key=m + ':mem')
                            ctx.cur = 'blocks'
                            a = e.arg(2, 'length')
                            ctx.ob(True if a is None or a == K(0) else bounded(a, e.state), e, 'copied in blocks; got %s' % (show(a) if a else 'the default'), path=p, key=m + ':copy')
                        if isinstance(e, Event) and tail(e.name or '') in ('readlines', 'readall', 'getvalue'):
                            ctx.ob(False, e, 'content is read in blocks', path=p, key=m + ':all')
                        if isinstance(e, Event) and e.kind == 'append' or isinstance(e, Event) and e.kind == 'call' and tail(e.name) in ('append', 'extend'):
                            ctx.cur = 'not-kept'
                            for a in e.args:
                                if isinstance(a, tuple) and any(contains(a, g) for g in got):
                                    ctx.ob(False, e, 'pieces read are passed on, not kept', path=p, key=m + ':kept')
                    ctx.cur = 'not-kept'
                    end = [x for x in seg if isinstance(x, SegEnd)]
                    for x in end:
                        for k, v in x.state.store.items():
                            if isinstance(v, tuple) and v and v[0] in ('cat', 'add', 'lst') and any(contains(v, g) for g in got) and k[0] in ('l', 'h'):
                                ctx.ob(False, q, 'pieces read are passed on, not kept: %s' % show(v), path=p, key=m + ':kept')
                    if end and id(seg) not in done:
                        done.add(id(seg))
                        ctx.ob(True, q, 'not kept', path=p)
        ctx.guarded(one)


def check_spool(ctx):
    ctx.cur = 'spooled'
    n = 0
    for f in sorted(ctx.prog.funcs.values(), key=lambda f: f.q):
        if f.outer is not None or not any(getattr(x, 'attr', getattr(x, 'id', '')) == 'SpooledTemporaryFile' for x in ast.walk(f.node)):
            continue
        for p in ctx.run(f.q, self_cls=f.cls):
            for e in all_events(p):
                if e.kind in ('call', 'new') and tail(e.name) == 'SpooledTemporaryFile':
                    n += 1
                    a = e.arg(0, 'max_size')
                    ctx.ob(False if a is None else bounded(a, e.state), e, 'what is kept aside goes to disk beyond some size; got %s' % (show(a) if a else 'never'), path=p, key='spool')
    ctx.ob(n > 0 or None, BR, 'spooled files')
    check_recorder(ctx)


def check_recorder(ctx):
    """what a recorder is given is not put into an in-memory file"""
    written, mem = set(), []
    for f in sorted(ctx.prog.funcs.values(), key=lambda f: f.q):
        if f.cls != REQR or f.outer is not None:
            continue
        for p in ctx.run(f.q, self_cls=REQR):
            made = {core(e.result): e for e in all_events(p) if e.kind in ('call', 'new') and e.result is not None
                    and tail(e.name) in ('BytesIO', 'StringIO') and not e.args}
            for e in all_events(p):
                if e.kind == 'call' and tail(e.name) == 'write' and self_fld(e.recv):
                    written.add(e.recv[2])
            mem += [(k[2], made[core(v)], p) for k, v in p.state.store.items()
                    if k[0] == 'h' and k[1] == SELF and isinstance(v, tuple) and core(v) in made]
    for a, e, p in mem:
        ctx.ob(a not in written, e, 'exchanges are not kept in memory: %s' % a, path=p, key='mem:' + a)
    ctx.ob(len(written) > 0 or None, REQR, 'what is recorded')


def check(ctx):
    ctx.rule('forward', 'sources are only read, never moved, closed or written to')
    ctx.rule('counts', 'a source without a position is counted exactly while it is read, in blocks of the size asked for')
    ctx.rule('blocks', 'everything is read in blocks of bounded size')
    ctx.rule('nothing-held', 'the iterator, the loader and the parsers hold nothing of the records passed')
    ctx.rule('not-kept', 'no loop keeps the pieces it reads')
    ctx.rule('spooled', 'what has to be kept aside is spooled to disk')
    ctx.guarded(check_forward)
    ctx.guarded(check_iterator)
    ctx.guarded(check_blocks)
    ctx.guarded(check_keeps)
    check_users(ctx)
    ctx.guarded(check_spool)
