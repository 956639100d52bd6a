"""The Content-Length written against the bytes written, on every abstract path of write_record."""
from ..core import *
from .util import *
from .writer import *


def length_headers(p):
    """events that set the Content-Length of the record header"""
    return [e for e in p.events() if e.kind == 'call' and tail(e.name) in ('replace_header', 'add_header') and is_rec(e.recv, 'rec_headers')
            and is_k(e.arg(0), 'str') and e.arg(0)[2].lower() == 'content-length']


def check_length(ctx):
    w = writer(ctx)
    for p in w.paths:
        if p.kind == 'x':
            continue
        st = p.state
        index_events(w, p)
        ev = p.events()
        ls = length_headers(p)
        tb = [e for e in ev if e.kind == 'call' and e.name == 'to_bytes' and is_rec(e.recv, 'rec_headers')]
        ctx.cur = 'length-set'
        if not tb:
            ctx.ob(None, w.q, 'serialised record header not found')
            continue
        ctx.ob(bool(ls) and ev.index(ls[-1]) < ev.index(tb[0]), ls[-1] if ls else w.q, 'Content-Length is set before the header is written', path=p, key='set')
        if not ls:
            continue
        ctx.ob(tail(ls[-1].name) == 'replace_header', ls[-1], 'Content-Length replaces the one there was', path=p, key='replace')
        v = unstr(ls[-1].arg(1))
        if v is not None and v[0] == 'obs' and is_rec(v[2], 'rec_headers'):
            ctx.ob(False, ls[-1], 'Content-Length is not an earlier header value', path=p, key='stale')
            continue
        if is_k(v) and not (isinstance(v[2], int) and not isinstance(v[2], bool) or str(v[2]).isdigit()):
            ctx.ob(False, ls[-1], 'Content-Length is a number; got %s' % show(v), path=p, key='number')
            continue
        if v is None or v[0] not in ('lin', 'len', 'fld', 'k', 'old', 'op', 'phi', 'ev'):
            ctx.ob(None, ls[-1], 'Content-Length %s' % show(v)[:60])
            continue
        writes = [e for e in ev if e.kind == 'call' and tail(e.name) == 'write' and not e.raised and not (e.recv is not None and is_rec(e.recv, 'rec_headers'))]
        http = [t[1] for e in writes for t in tokens(e, w, p) if t[0] == 'http']
        reads = [e for e in ev if e.kind == 'call' and is_rec(e.recv, 'raw_stream') and tail(e.name) == 'read' or
                 e.kind == 'call' and tail(e.name) == 'copyfileobj']
        c, d = coeffs(v)
        lens = [a for a in d if a[0] == 'len']
        pays = [a for a in d if is_rec(a, 'payload_length')]
        tot = [a for a in d if is_rec(a, 'length')]
        rest = [a for a in d if a not in lens and a not in pays and a not in tot]
        ctx.cur = 'length-exact'
        hh = truthy(st, rec('http_headers'))
        none = is_none(st, rec('http_headers'))
        if rest:
            ctx.ob(None, ls[-1], 'Content-Length %s' % show(v)[:60])
            continue
        # payload_length < 0 : no payload of its own was told apart, the length covers the whole block
        pneg = [t for t in subterms_of_nums(st) if is_rec(t, 'payload_length')]
        known_neg = any(st.prove_le(lin_add(t, K(1))) for t in pneg)
        known_pos = any(st.prove_le(lin_scale(t, -1)) for t in pneg)
        if none is True:
            # block only
            absent = is_none(st, rec('length'))
            if absent is True:
                ctx.ob(not lens and c == 0 and len(pays) == 1 and d[pays[0]] == 1 and not tot, ls[-1], 'a block of unknown length is measured', path=p, key='measured')
            else:
                ok = not lens and c == 0 and len(pays) + len(tot) == 1 and all(x == 1 for x in d.values())
                ctx.ob(ok and (bool(tot) or known_pos), ls[-1], 'Content-Length is the length of the block', path=p, key='block')
        elif known_neg or (not known_pos and tot):
            if none is None or not known_neg:
                ctx.ob(False, ls[-1], 'the length is computed for every record with http headers and a payload length', path=p, key='asked')
            else:
                ctx.ob(True, ls[-1], 'no payload length')
        else:
            ctx.ob(c == 0 and not tot, ls[-1], 'Content-Length is made of the parts written', path=p, key='parts')
            hb = bool(http)
            ctx.ob(len(lens) == (1 if hb else 0) and all(d[a] == 1 for a in lens) or (not hb and not lens), ls[-1],
                   'the http header block counts exactly when it is written', path=p, key='http')
            for a in lens:
                ctx.ob(hb and core(a[1]) == core(http[0]), ls[-1], 'with the length of the very bytes written', path=p, key='same')
            zero = any('T' not in st.nullness(x) for x in pneg)
            ctx.ob((len(pays) == 1 and all(d[a] == 1 for a in pays)) if reads and not zero else (not pays or bool(reads)), ls[-1], 'the payload counts exactly when it is written', path=p, key='payload')
        ctx.cur = 'length-kept'
        ctx.ob(p.state.heap(REC, 'length') is None and tot != [] or core(p.state.heap(REC, 'length') or rec('length')) == core(v) or
               bool(tot), w.q, "the record's length is what was written", path=p, key='record')


def subterms_of_nums(st):
    out = set()
    for t in list(st.nums) + list(st.null):
        for x in subterms(t):
            if x[0] == 'fld':
                out.add(x)
    return out


def check_fresh(ctx):
    """http header block written = computed in this call with the writer's filter"""
    w = writer(ctx)
    ctx.cur = 'header-block-computed'
    for p in w.paths:
        if p.kind == 'x':
            continue
        index_events(w, p)
        ev = p.events()
        writes = [e for e in ev if e.kind == 'call' and tail(e.name) == 'write' and not e.raised and any(t[0] == 'http' for t in tokens(e, w, p))]
        comp = [e for e in ev if e.kind == 'call' and tail(e.name) == 'compute_headers_buffer' and is_rec(e.recv, 'http_headers')]
        ens = [e for e in ev if e.kind == 'call' and tail(e.name) == 'ensure_digest']
        for e in writes:
            ctx.ob(bool(comp) and ev.index(comp[0]) < ev.index(e), e, 'the http header block is computed before it is written', path=p, key='computed')
        for e in comp:
            a = core(e.arg(0, 'header_filter'))
            ctx.ob(a is not None and w.filter is not None and is_fld(a, w.filter), e, "with the writer's header filter", path=p, key='filter')
            for x in ens:
                ctx.ob(ev.index(e) < ev.index(x), e, 'before the digests are computed over it', path=p, key='order')


def check(ctx):
    ctx.rule('length-set', 'Content-Length is set, replacing any there was, before the header is written')
    ctx.rule('length-exact', 'its value is the sum of the lengths of exactly the parts written: http header block and/or payload')
    ctx.rule('length-kept', 'the length of the record object is the one written')
    ctx.rule('header-block-computed', 'the http header block written is computed in the same call, with the header filter, before digests and length')
    for f in (check_length, check_fresh):
        ctx.guarded(f)
