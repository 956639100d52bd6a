"""Obligations on every abstract path of the record's content stream: which reader, over what, with which decoding."""
from ..core import *
from .util import *
from .c05 import hdr_get, REC
from .c08 import BR, fillers, fill_slots, undecoded, judge_undecoded
from .c03 import br_slots

CDR = 'warcio.bufferedreaders:ChunkedDataReader'
KNOWN = ('gzip', 'deflate')
ARGS = ('format', 'rec_type', 'rec_headers', 'raw_stream', 'http_headers', 'content_type', 'length')


def lowered(t):
    """(header name, lower-cased?) of a header value term"""
    low = False
    while t is not None and t[0] == 'm' and t[1] in ('lower', 'strip', 'casefold', 'rstrip', 'lstrip'):
        low = low or t[1] in ('lower', 'casefold')
        t = t[2]
    for n in ('content-encoding', 'transfer-encoding'):
        if hdr_get(t, n):
            return n, low, t
    return None


def tests(st, name):
    """{constant: (asked value is lower-cased, outcome)}"""
    out = {}
    for k, v in st.lits.items():
        if k[0] == 'eq':
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                l = lowered(a)
                if l and l[0] == name and is_k(b, 'str'):
                    out[b[2]] = (l[1], v)
        elif k[0] == 'cond' and k[1][0] == 'op' and k[1][1] == 'in':
            l = lowered(k[1][2][0])
            if l and l[0] == name:
                ss = const_strs(k[1][2][1])
                for x in ss or [None]:
                    if x is None or not v:
                        out[x] = (l[1], v)
                    else:
                        out.setdefault(x, (l[1], None))
                if v:
                    out['*'] = (l[1], True)
    return out


def check_content(ctx):
    q = ctx.method(REC, 'content_stream')
    ctx.cur = 'decoding'
    given = set(ARGS)
    for p in ctx.run(q, self_cls=REC, inline={q}):
        st = p.state
        made = [e for e in p.events() if e.kind == 'new' and e.name.startswith('warcio.bufferedreaders:')]
        if p.kind == 'x':
            ctx.ob(None, q, 'raises %s' % show(p.value))
            continue
        for k, v in st.store.items():
            if k[0] == 'h' and k[1] == SELF and k[2] in given:
                ctx.ob(core(v) == ('fld', SELF, k[2], 0) or is_fld(core(v), k[2]) and core(v)[1] == SELF, q,
                       'asking for the content leaves the record as it is: %s is %s' % (k[2], show(v)), path=p, key='unchanged:' + k[2])
        hds = [t for t in st.null if is_fld(t, 'http_headers') and t[1] == SELF]
        if hds and all('T' not in st.nullness(t) for t in hds):
            ctx.ob(is_fld(p.value, 'raw_stream'), q, 'without http headers the content is the block', path=p, key='raw')
            continue
        ce, te = tests(st, 'content-encoding'), tests(st, 'transfer-encoding')
        cget = [t for t in st.null if hdr_get(t, 'content-encoding')]
        tget = [t for t in st.null if hdr_get(t, 'transfer-encoding')]
        for nm, d in (('Content-Encoding', ce), ('Transfer-Encoding', te)):
            for c, (low, v) in d.items():
                ctx.ob(low, q, '%s is compared without regard to case' % nm, path=p, key='case:' + nm)
        chunk = te.get('chunked', (True, None))[1]
        for c in te:
            if c is not None and c != '*' and c.lower() not in ('chunked', 'identity', ''):
                ctx.ob(False, q, 'Transfer-Encoding %r is not something else' % c, path=p, key='te-other')
        tnone = bool(tget) and all('T' not in st.nullness(t) for t in tget)
        is_chunk = True if chunk is True else False if chunk is False or tnone else None
        cnone = bool(cget) and all('T' not in st.nullness(t) for t in cget)
        hit = [c for c, (l, v) in ce.items() if v is True]
        miss = all(ce.get(c, (True, None))[1] is False for c in KNOWN)
        v = p.value
        wrap = [e for e in made if e.result == v]
        if is_fld(v, 'raw_stream') and v[1] == SELF:
            ctx.ob(not made, q, 'the block itself is delivered', path=p, key='unused')
            ctx.ob(is_chunk is False, q, 'chunked content is de-chunked', path=p, key='chunked')
            ctx.ob(cnone or miss, q, 'content with a supported Content-Encoding is decoded', path=p, key='encoded')
            continue
        if not wrap:
            ctx.ob(None, q, 'content stream is %s' % show(v)[:80])
            continue
        e = wrap[0]
        ctx.ob(len(made) == 1, e, 'one decoding reader', path=p, key='one')
        s = e.arg(0, 'stream')
        ctx.ob(is_fld(s, 'raw_stream') and s[1] == SELF, e, 'over the block', path=p, key='source')
        if e.name == CDR or CDR in ctx.prog.mro(e.name):
            ctx.ob(is_chunk is True, e, 'only chunked content is de-chunked', path=p, key='dechunk')
        else:
            ctx.ob(is_chunk is False, e, 'chunked content is de-chunked', path=p, key='chunked')
        rest = [a for i, a in enumerate(e.args[1:]) ] + [val for k2, val in (e.kw or {}).items() if k2 not in ('decomp_type', 'stream')]
        d = (e.kw or {}).get('decomp_type')
        if d is None and len(e.args) > 2 and e.name == BR:
            d, rest = e.args[2], [e.args[1]]
        if tail(e.name) == 'DecompressingBufferedReader' and d is None:
            d = K('gzip')
        dn = NONE if d is None else d
        for k2, val in (e.kw or {}).items():
            if k2 in ('raise_exceptions', 'read_all_members', 'starting_data') and k2 != 'decomp_type':
                ctx.ob('T' not in st.nullness(val), e, 'decoding options as documented', path=p, key='opt:' + k2)
        off = 'T' not in st.nullness(dn)
        if cnone:
            ctx.ob(off, e, 'content without Content-Encoding is not decompressed', path=p, key='none')
        elif off:
            ctx.ob(miss, e, 'content with a supported Content-Encoding is decoded', path=p, key='encoded')
        else:
            l = lowered(dn)
            if l:
                ctx.ob(l[0] == 'content-encoding', e, 'decoded as the Content-Encoding says', path=p, key='which')
                ctx.ob(bool(hit), e, 'only supported encodings are handed to the decoder', path=p, key='unsupported')
            elif is_k(dn, 'str'):
                ctx.ob(ce.get(dn[2], (True, None))[1] is True, e, 'decoded as the Content-Encoding says', path=p, key='which')
            else:
                ctx.ob(None, e, 'decoding %s' % show(dn)[:60])


def check_fallback(ctx):
    """deflate data without zlib header"""
    ctx.cur = 'raw-deflate'
    m = ctx.slots(BR, inline={BR + '.__init__'})[0]
    if 'stream' not in m:
        return ctx.ob(None, BR, 'stream attribute not found')
    neg = lin_scale(('ext', 'zlib.MAX_WBITS'), -1)

    def alt(e):
        return e.kind == 'call' and tail(e.name) == 'decompressobj' and e.args and (e.args[0] == K(-15) or lin_parts(e.args[0]) == lin_parts(neg))
    n = 0
    for q in sorted(fillers(ctx, m['stream'])):
        ps = ctx.run(q, self_cls=BR, max_heads=60)
        found = False
        dec, cnt = fill_slots(ctx, ps)
        und = undecoded(ps, m['stream'], None)
        seen = set()
        for p in ps:
            for seg in segments(p.items, seen):
                judge_undecoded(ctx, q, p, seg, m['stream'], None, dec, cnt, und)
        for p in ps:
            for seg in segments(p.items, set()):
                rej = made = None
                done = False
                for e in seg:
                    if not isinstance(e, Event):
                        continue
                    if e.kind == 'call' and tail(e.name) == 'decompress' and e.raised:
                        if rej is not None and made is not None:
                            made = None
                            continue
                        rej = e
                        made = None
                    if rej is not None and alt(e) and not e.raised:
                        found = True
                        made = e
                    if rej is not None and e.kind == 'call' and tail(e.name) == 'decompress' and not e.raised and e is not rej and made is not None:
                        n += 1
                        done = True
                        ctx.ob(e.recv == made.result, e, 'rejected deflate data is retried as raw deflate', path=p, key='retry')
                        ctx.ob(e.arg(0) is not None and contains(mk_cat([e.arg(0)]), rej.arg(0)), e, 'with the same data', path=p, key='same')
                if made is not None and not done:
                    ctx.ob(False, made, 'rejected deflate data is retried as raw deflate', path=p, key='retry')
        ctx.ob(found, q, 'deflate data without zlib header is retried as raw deflate', key='retry')


def check(ctx):
    ctx.rule('decoding', 'content_stream: block itself, de-chunked and/or decompressed exactly as Transfer-Encoding and Content-Encoding say, case ignored, supported encodings only')
    ctx.rule('raw-deflate', 'deflate data that is not zlib data is retried as raw deflate, from its first byte')
    for f in (check_content, check_fallback):
        ctx.guarded(f)
