"""Which exceptions come out of reading malformed input: every use of a value that may be None, every conversion,
every index into pieces of a line, every raise and every handler, on every abstract path of each entry point."""
import ast
from ..core import *
from .util import *
from ..interp import Undecided
from ..engine import BOUNDARY
from .iterslots import iter_slots
from .c14 import record_writers
from .c08 import own_slots, fillers
from .conserve import AtMost
from . import c07
from ..builtins_model import MAXSIZE

ALF = 'warcio.exceptions:ArchiveLoadFailed'
SHE = 'warcio.statusandheaders:StatusAndHeadersParserException'
NULLABLE = frozenset({'http_headers', 'content_type', 'rec_type', 'length'})
P = 'warcio.statusandheaders:StatusAndHeadersParser'
L = 'warcio.recordloader:ArcWarcRecordLoader'
D = 'warcio.digestverifyingreader:DigestVerifyingReader'
AI = 'warcio.archiveiterator:ArchiveIterator'

# what a call that is not looked into raises (its own analysis shows it raises nothing else)
RAISES = {
    'parse': ('EOFError', SHE), 'load_http_headers': ('EOFError', SHE),
    'parse_record_stream': ('EOFError', ALF, SHE), 'problem': (ALF,), 'begin_payload': (ALF,),
    'create_warc_record': ('EOFError', SHE),
    'new:' + D: (ALF,), 'new:warcio.utils:Digester': ('ValueError', 'TypeError'),
    'decompress': ('zlib.error',),
}

# parameters that a record without that header passes as None
MAYBE_NONE = {'load_http_headers': ('rec_type', 'uri', 'length'), 'default_http_headers': ('length', 'content_type')}

# (rule, class, method, what may come out of it, further methods to look into)
READ = [
    ('header', P, 'parse', {'EOFError', SHE}),
    ('header', P, 'split_prefix', set()),
    ('header', P, 'decode_header', set()),
    ('header', 'warcio.recordloader:ARCHeadersParser', 'parse', {'EOFError', SHE}),
    ('header', 'warcio.recordloader:ARC2WARCHeadersParser', 'parse', {'EOFError', SHE}),
    ('record', L, 'load_http_headers', {'EOFError', SHE}),
    ('record', L, 'default_http_headers', set()),
    ('record', L, 'parse_record_stream', {'EOFError', ALF, SHE}),
    ('record', 'warcio.recordloader:ArcWarcRecord', 'content_stream', set()),
    ('iteration', AI, 'read_to_end', set()),
    ('iteration', AI, 'close', set()),
    ('digest', D, '__init__', {ALF}),
    ('digest', D, 'begin_payload', {ALF}),
    ('digest', D, 'read', {ALF}),
    ('digest', D, 'readline', {ALF}),
    ('buffer', 'warcio.bufferedreaders:BufferedReader', 'close_decompressor', set()),
    ('block', 'warcio.limitreader:LimitReader', 'read', set()),
    ('block', 'warcio.limitreader:LimitReader', 'readline', set()),
    ('header-map', 'warcio.statusandheaders:StatusAndHeaders', 'get_header', set()),
    ('header-map', 'warcio.statusandheaders:StatusAndHeaders', 'replace_header', set()),
    ('header-map', 'warcio.statusandheaders:StatusAndHeaders', 'remove_header', set()),
    ('header-map', 'warcio.statusandheaders:StatusAndHeaders', 'get_statuscode', set()),
    ('header-map', 'warcio.statusandheaders:StatusAndHeaders', 'validate_statusline', set()),
    ('index', 'warcio.indexer:Indexer', 'process_one', {ALF, SHE}),
    ('check', 'warcio.checker:Checker', 'process_all', {ALF, SHE}),
    ('extract', 'warcio.extractor:Extractor', 'extract', {'ValueError', 'StopIteration', ALF, SHE}),
    ('write', 'warcio.recordbuilder:RecordBuilder', 'create_warc_record', {'EOFError', SHE}),
    ('write', 'warcio.recordbuilder:RecordBuilder', 'create_warcinfo_record', {'EOFError', SHE}),
    ('write', 'warcio.recordbuilder:RecordBuilder', 'create_revisit_record', {'AssertionError', 'ValueError', 'EOFError', SHE}),
    ('write', 'warcio.recordbuilder:RecordBuilder', 'ensure_digest', set()),
    ('write', 'warcio.warcwriter:WARCWriter', 'write_record', set()),
    ('write', 'warcio.warcwriter:WARCWriter', 'write_request_response_pair', set()),
]


class Keep(dict):
    """no opaque call takes these attributes from a record"""

    def get(self, k, d=None):
        return tuple(sorted(NULLABLE))

    def __repr__(self):
        return 'Keep'


def raises(name, recv, excs, eng):
    t = name if name.startswith('new:') else tail(name)
    if t in RAISES:
        return RAISES[t]
    if t in ('next', '__next__') and recv is not None and excs != ():
        return tuple(excs) if excs else False
    return tuple(excs) if excs else False


def raises_writing(name, recv, excs, eng):
    # the writer's own digest algorithm is there
    return False if name == 'new:warcio.utils:Digester' else raises(name, recv, excs, eng)


def names_of(ctx, p):
    v = p.value
    if v[0] == 'exc':
        return v[1]
    ty = p.state.heap(v, '@class') if v[0] == 'obj' else None
    if ty is not None and ty[0] == 'cls':
        return (ty[1],)
    return None


def check_one(ctx, rule, cls, name, allowed, **kw):
    ctx.cur = rule
    q = ctx.method(cls, name)
    tops = [cls, name]
    inline = {q}
    if name == 'split_prefix' or name == 'decode_header':
        inline |= {'warcio.utils:to_native_str'}
    static = ctx.prog.funcs[q].kind == 'static'
    nul = NULLABLE | frozenset('sym:' + x for x in MAYBE_NONE.get(name, ()))
    ps = ctx.run(q, self_cls=None if static else cls, inline=inline, hazards=nul, raise_pred=raises_writing if rule == 'write' else raises, keeps=Keep(), known_raises=True, **kw)
    n = 0
    for p in ps:
        n += 1
        if p.kind != 'x':
            ctx.ob(True, q, 'ends without an exception', path=p)
            continue
        ns = names_of(ctx, p)
        if ns is None:
            ctx.ob(None, q, 'an exception of a kind that is not known')
            continue
        for x in ns:
            anc = ctx.prog.exc_ancestors(x)
            ok = any(a in allowed for a in anc)
            at = [e for e in p.events() if e.raised or e.kind == 'raise']
            ctx.ob(ok, at[-1] if at else q, '%s comes out of %s' % (x.split(':')[-1], name), path=p, key='%s %s %s' % (cls.split(':')[1], name, x))
    ctx.ob(n > 0, q, 'there are paths through it', key='none ' + name)


BR = 'warcio.bufferedreaders:BufferedReader'


def src_has(f, name):
    return any(getattr(n, 'attr', getattr(n, 'id', None)) == name for n in ast.walk(f.node))


def check_decompress(ctx):
    """what the decompressor does not accept, in the methods that pass data to it"""
    fs = [f for f in ctx.prog.funcs.values() if f.cls == BR and f.outer is None]
    # a format that was accepted once is accepted again
    choose = {f.q for f in fs if src_has(f, 'DECOMPRESSORS') and f.kind != 'class'}
    feed = [f for f in fs if src_has(f, 'decompress')]
    ctx.ob(bool(feed) or None, BR, 'data is passed to a decompressor')
    for f in feed:
        check_one(ctx, 'buffer', BR, f.q.rpartition('.')[2], set(), boundary=BOUNDARY | choose)


def check_sizes(ctx):
    """a size that comes from a declared length is not passed on unless the buffer can take it"""
    own = own_slots(ctx)
    if own is None:
        raise AnalysisBroken('the buffer of the buffered reader')
    buf, size = own
    fill = fillers(ctx, ctx.slots(BR, inline={BR + '.__init__'})[0]['stream'])
    for name in ('read', 'readline'):
        q = ctx.method(BR, name)
        n = 0
        for p in ctx.run(q, self_cls=BR, boundary=frozenset(fill), hazards=NULLABLE, raise_pred=raises, keeps=Keep(), known_raises=True):
            def visit(c, e, p=p):
                if e.kind != 'call' or not is_fld(e.recv, buf) or tail(e.name) not in ('read', 'readline', 'read1'):
                    return
                ctx.ob(c.holds(e.arg(0), e.state), e, 'the size passed on is one the buffer accepts (a declared length may be any number); got %s'
                       % (show(e.arg(0)) if e.arg(0) else 'all'), path=p, key='size ' + name)
            AtMost(MAXSIZE, [('fld', sym('self'), size, v) for v in range(3)]).walk(p.items, visit)
            n += 1
            if p.kind == 'x':
                # of its own: what the buffer and the decompressor are given is looked at above
                ctx.cur = 'buffer'
                ctx.ob(False, q, 'raises nothing', path=p, key='raise ' + name)
                ctx.cur = 'size'
        ctx.ob(n > 0 or None, q, 'reads from the buffer')


def check_chunks(ctx):
    """damaged chunks raise nothing unless asked for"""
    slot, _ = ctx.slots(BR, inline={BR + '.__init__'})
    own = own_slots(ctx)
    cslot, _ = ctx.slots(c07.CDR, inline={c07.CDR + '.__init__'})
    strict = cslot.get('raise_exceptions')
    if own is None or slot.get('stream') is None or strict is None:
        return ctx.ob(None, c07.CDR, 'attributes of the dechunking reader not found')
    fill = fillers(ctx, slot['stream'])
    sk = c07.sinks(ctx, own[0])
    c07.no_source_errors.sinks = {x.split('.')[-1] for x in sk}
    n = 0
    for base in sorted(fill):
        l = ctx.prog.lookup(c07.CDR, base.split('.')[-1])
        if not l or l[0] != 'fn' or l[1].cls != c07.CDR:
            continue
        q = l[1].q
        for p in ctx.run(q, self_cls=c07.CDR, boundary=frozenset(fill | sk | {BR + '.empty'}) - {q}, inline={c07.CDE + '.__init__'}, hazards=NULLABLE, raise_pred=c07.no_source_errors):
            n += 1
            if p.kind != 'x':
                ctx.ob(True, q, 'ends without an exception', path=p)
                continue
            ns = names_of(ctx, p)
            asked = any(is_fld(t, strict) and t[1] == sym('self') and x == T_ for t, x in p.state.null.items())
            at = [e for e in p.events() if e.raised or e.kind == 'raise']
            ok = None if ns is None else asked and all(c07.CDE in ctx.prog.exc_ancestors(x) for x in ns)
            ctx.ob(ok, at[-1] if at else q, '%s comes out of reading chunks%s' % ('/'.join(x.split(':')[-1] for x in ns or ()), '' if asked else ', unasked'), path=p, key='chunks ' + ' '.join(ns or ()))
    ctx.ob(n > 0 or None, c07.CDR, 'chunks are read')


def check(ctx):
    ctx.rule('chunks', 'damaged chunks raise nothing, or ChunkedDataException if asked for')
    ctx.rule('size', 'a declared length of any size can be read')
    ctx.rule('header', 'parsing header lines raises EOFError or StatusAndHeadersParserException only')
    ctx.rule('record', 'parsing a record raises EOFError, ArchiveLoadFailed or StatusAndHeadersParserException only; taking its content stream nothing')
    ctx.rule('iteration', 'the iterator raises ArchiveLoadFailed or StatusAndHeadersParserException only')
    ctx.rule('digest', 'digest checking raises ArchiveLoadFailed only')
    ctx.rule('buffer', 'data that can not be decompressed raises nothing')
    ctx.rule('block', 'reading the block raises nothing of its own')
    ctx.rule('header-map', 'looking up and changing headers raises nothing')
    ctx.rule('index', 'indexing raises only what iterating does')
    ctx.rule('check', 'checking raises only what iterating does')
    ctx.rule('extract', 'extracting raises only what iterating does, for an offset that is none ValueError, on an empty file StopIteration')
    ctx.rule('write', 'creating and writing a record raises nothing but what parsing its http headers does')
    for rule, cls, name, allowed in READ:
        kw = {}
        if name == 'write_request_response_pair':
            # the two records are written by methods that are analysed themselves
            kw['boundary'] = BOUNDARY | set(record_writers(ctx))
        ctx.guarded(lambda c, a=(rule, cls, name, allowed), k=kw: check_one(c, *a, **k))
    ctx.cur = 'size'
    ctx.guarded(check_sizes)
    ctx.cur = 'buffer'
    ctx.guarded(check_decompress)
    ctx.cur = 'chunks'
    ctx.guarded(check_chunks)
    s = iter_slots(ctx)
    if not s.gens:
        raise AnalysisBroken('no generator method in the iterator')
    for q in s.gens:
        ctx.guarded(lambda c, q=q: check_one(c, 'iteration', AI, q.rpartition('.')[2], {ALF, SHE}, max_heads=80))
