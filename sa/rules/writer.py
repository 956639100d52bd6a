"""What a record writer writes: tokens of the abstract paths of write_record, shared by C10, C11, C12."""
from ..core import *
from .util import *
from .c08 import calls_self

WW = 'warcio.warcwriter:WARCWriter'
GZ = 'warcio.warcwriter:GzippingWrapper'
RB = 'warcio.recordbuilder:RecordBuilder'
ENSURE = RB + '.ensure_digest'
REC = sym('record')
KEEPS = ('rec_type', 'http_headers', 'content_type', 'format', 'rec_headers', 'length', 'digest_checker')


class W(object):
    pass


def rec(attr, ver=0):
    return ('fld', REC, attr, ver)


def is_rec(t, attr):
    t = core(t)
    return t is not None and is_fld(t, attr) and t[1] == REC


def writer(ctx):
    if hasattr(ctx, '_writer'):
        return ctx._writer
    w = W()
    w.q = ctx.method(WW, 'write_record')
    ctx.method(WW, 'ensure_digest')
    sl, _ = ctx.slots(WW, inline={WW + '.__init__', 'warcio.warcwriter:BaseWARCWriter.__init__'})
    w.out = sl.get('filebuf')
    w.gzip = sl.get('gzip')
    w.filter = ctx.slots(RB, inline={RB + '.__init__'})[0].get('header_filter')
    w.paths = ctx.run(w.q, self_cls=WW, inline={w.q}, keeps={'ensure_digest': KEEPS}, max_heads=30)
    if ctx.prog.funcs[w.q].posargs[1:2] != ['record']:
        raise AnalysisBroken('write_record takes the record as first parameter')
    ctx._writer = w
    return w


def sinks_of(w, p):
    """objects that stand for the output on this path"""
    out = [('fld', SELF, w.out, 0)]
    gz = news(p, GZ)
    return out[0], gz


def is_out(t, w):
    return is_fld(core(t), w.out) and core(t)[1] == SELF


def hdr_buff(t):
    t = core(t)
    return t is not None and is_fld(t, 'headers_buff') and is_rec(t[1], 'http_headers')


def stream_of(p):
    return p.state.heap(REC, 'raw_stream')


def tokens(e, w, p):
    """[(kind, value)] written by one event: 'rec' record header, 'http' http header block, 'data' bytes read from the
    block, 'const' literal, '?' anything else"""
    a = e.arg(0)
    parts = list(a[1]) if a is not None and a[0] in ('cat', 'add') else [a]
    out = []
    for t in parts:
        c = core(t)
        if c is None:
            out.append(('?', t))
        elif is_k(c, 'bytes'):
            out.append(('const', c[2]))
        elif hdr_buff(c):
            out.append(('http', c))
        elif c[0] == 'ev' and w.evname.get(c) == 'to_bytes':
            ev = w.events[c]
            out.append(('rec' if is_rec(ev.recv, 'rec_headers') else '?', ev))
        elif c[0] == 'ev' and w.evname.get(c) == 'read':
            out.append(('data', c))
        else:
            out.append(('?', t))
    return out


def index_events(w, p):
    w.evname, w.events = {}, {}
    for e in p.events():
        if e.result is not None and e.result[0] == 'ev' and not e.raised:
            w.evname[e.result] = tail(e.name)
            w.events[e.result] = e
