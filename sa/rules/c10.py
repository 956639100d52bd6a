"""Order and extent of what is written for a record, on every abstract path of write_record and of the gzip wrapper."""
from ..core import *
from .util import *
from .writer import *

CRLF2 = b'\r\n\r\n'
START = ('start', None, b'', 0, False)


def make_step(ctx, w, p, isout):
    """state: (stage, pending read, trailing constant bytes, http blocks written, all of the stream read)"""
    def step(s, e):
        if not isinstance(e, Event) or s[0] in ('bad', '?'):
            return [s]
        stage, pend, tailb, nh, full = s
        if e.kind == 'call' and e.raised is None:
            nm = tail(e.name)
            if nm == 'write' and isout(e.recv):
                for kind, v in tokens(e, w, p):
                    if kind == 'rec':
                        if stage != 'start':
                            return [('bad', 'the record header is written once, first', e.eid)]
                        stage = 'rec'
                    elif stage == 'start' and kind in ('http', 'data', 'const'):
                        return [('bad', 'the record header is written first', e.eid)]
                    elif kind == 'http':
                        if stage != 'rec':
                            return [('bad', 'the http header block is written once, right after the record header', e.eid)]
                        stage, nh = 'http', nh + 1
                    elif kind == 'data':
                        if stage == 'end':
                            return [('bad', 'the block is written before the closing blank lines', e.eid)]
                        if pend is None or pend != v:
                            return [('bad', 'every piece of the block is written once, in order', e.eid)]
                        stage, pend = 'data', None
                    elif kind == 'const':
                        stage = 'end'
                        tailb = tailb + v
                        if not CRLF2.startswith(tailb):
                            return [('bad', 'a record is closed by two line ends', e.eid)]
                    else:
                        return [('?', show(v)[:60], e.eid)]
                return [(stage, pend, tailb, nh, full)]
            if nm == 'writelines' and isout(e.recv):
                return [('?', 'writelines', e.eid)]
            if nm == 'flush' and isout(e.recv):
                if stage != 'end' or tailb != CRLF2:
                    return [('bad', 'the output is flushed after the whole record was written', e.eid)]
                return [('flushed', pend, tailb, nh, full)]
            if nm in ('seek', 'truncate', 'close') and isout(e.recv):
                return [('bad', 'nothing but writes and a flush on the output', e.eid)]
            if nm == 'read' and is_rec(e.recv, 'raw_stream'):
                if pend is not None and 'T' in e.state.nullness(pend):
                    return [('bad', 'every piece of the block is written', e.eid)]
                a = e.arg(0)
                allof = a is None or a == NONE or (is_k(a, 'int') and a[2] < 0)
                return [(stage, e.result, tailb, nh, allof)]
            if nm == 'copyfileobj' and len(e.args or []) >= 2 and is_rec(e.args[0], 'raw_stream') and isout(e.args[1]):
                if stage not in ('rec', 'http'):
                    return [('bad', 'the block is written after the headers, once', e.eid)]
                return [('data', None, tailb, nh, True)]
        return [s]
    return step


def check_frame(ctx):
    w = writer(ctx)
    if w.out is None or w.gzip is None:
        return ctx.ob(None, w.q, 'output attributes not found', rule='frame')
    for p in w.paths:
        st = p.state
        index_events(w, p)
        gz = news(p, GZ)
        ons = {truthy(st, k) for k in st.null if k[0] == 'fld' and k[1] == SELF and k[2] == w.gzip} - {None}
        on = ons.pop() if len(ons) == 1 else None
        ctx.cur = 'member-per-record'
        raw = [e for e in p.events() if e.kind == 'call' and is_out(e.recv, w) and tail(e.name) in ('write', 'flush', 'writelines')]
        if on is True:
            ctx.ob(len(gz) == 1 or p.kind == 'x', gz[0] if gz else w.q, 'a compressed record is one gzip member of its own', path=p, key='one')
            ctx.ob(not raw, raw[0] if raw else w.q, 'everything of a compressed record goes through its compressor', path=p, key='bypass')
            for e in gz:
                ctx.ob(is_out(e.arg(0, 'out'), w), e, 'the compressor writes to the output', path=p, key='target')
        elif on is False:
            ctx.ob(not gz, gz[0] if gz else w.q, 'no compression unless asked for', path=p, key='plain')
        else:
            if not gz and not raw:
                if p.kind != 'x':
                    ctx.ob(False, w.q, 'every record given is written', path=p, key='skipped')
                continue
            ctx.ob(False, gz[0] if gz else w.q, 'compression only as the writer was told', path=p, key='asked')
            continue
        if p.kind == 'x':
            continue
        objs = {e.result for e in gz}

        def isout(t):
            return core(t) in objs if on else is_out(t, w)
        ctx.cur = 'frame'
        hh = rec('http_headers')
        hset = truthy(st, hh)
        rev = eq_known(st, rec('rec_type'), K('revisit'))
        for s in run_monitor(p.items, [START], make_step(ctx, w, p, isout)):
            if s[0] == '?':
                ctx.ob(None, w.q, 'written: %s' % s[1])
                continue
            if s[0] == 'bad':
                ctx.ob(False, w.q, s[1], path=p, key=s[1])
                continue
            stage, pend, tailb, nh, full = s
            ctx.ob(stage == 'flushed', w.q, 'header, block, two line ends, flush', path=p, key='whole')
            if stage != 'flushed':
                continue
            if hset is True:
                ctx.ob(nh == 1, w.q, 'the http headers of the record are written', path=p, key='http')
            elif hset is False:
                ctx.ob(nh == 0, w.q, 'no http headers are written for a record without', path=p, key='nohttp')
            # block
            reads = [e for e in p.events() if e.kind == 'call' and is_rec(e.recv, 'raw_stream') and tail(e.name) in ('read', 'copyfileobj')]
            copies = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'copyfileobj']
            if rev is True and hset is True:
                ctx.ob(not reads and not copies, reads[0] if reads else w.q, 'a revisit record with http headers has no payload', path=p, key='revisit')
            else:
                ends = full or (pend is not None and 'T' not in st.nullness(pend)) or falsy_now(st, [e.result for e in reads]) \
                    if (reads or copies) else False
                if rev is False or hset is False:
                    ctx.ob(ends, w.q, 'the block is written to its end', path=p, key='toend')
                elif reads or copies:
                    ctx.ob(False, w.q, 'a revisit record with http headers has no payload', path=p, key='revisit')
                else:
                    ctx.ob(False, w.q, 'the block is written', path=p, key='dropped')
                if pend is not None:
                    ctx.ob('T' not in st.nullness(pend) or falsy_now(st, [pend]), w.q, 'the last piece is written', path=p, key='last')
        tb = [e for e in p.events() if e.kind == 'call' and e.name == 'to_bytes' and is_rec(e.recv, 'rec_headers')]
        for e in tb:
            enc = (e.kw or {}).get('encoding')
            if enc is None and len(e.args or []) > 1:
                enc = e.args[1]
            ft = e.arg(0, 'filter_func')
            ctx.ob(ft is None or 'T' not in p.state.nullness(ft), e, 'every record header is written', path=p, key='filter')
            ctx.ob(enc is None or is_k(enc, 'str') and enc[2].lower().replace('_', '-') in ('utf-8', 'utf8'), e, 'record headers are written as UTF-8', path=p, key='enc')


def check_gzip(ctx):
    ctx.cur = 'gzip-stream'
    q = ctx.method(GZ, '__init__')
    sl, ps = ctx.slots(GZ, inline={q})
    out = sl.get('out')
    comp = None
    for p in ps:
        for e in p.events():
            if e.kind == 'call' and tail(e.name) == 'compressobj' and not e.raised:
                for k, v in p.state.store.items():
                    if k[0] == 'h' and k[1] == SELF and v == e.result:
                        comp = k[2]
                wb = e.arg(2, 'wbits')
                good = wb is not None and (wb == K(31) or lin_parts(wb) == lin_parts(lin_add(('ext', 'zlib.MAX_WBITS'), K(16))))
                ctx.ob(good, e, 'gzip format', path=p, key='wbits')
    if out is None or comp is None:
        return ctx.ob(None, q, 'compressor or output attribute not found')
    for name in ('write', 'flush'):
        q = ctx.method(GZ, name)
        pn = ctx.prog.funcs[q].posargs[1:2]
        for p in ctx.run(q, self_cls=GZ, inline={q}):
            if p.kind == 'x':
                continue
            cs = [e for e in p.events() if e.kind == 'call' and is_fld(e.recv, comp) and tail(e.name) in ('compress', 'flush')]
            ws = [e for e in p.events() if e.kind == 'call' and is_fld(e.recv, out) and tail(e.name) == 'write']
            fl = [e for e in p.events() if e.kind == 'call' and is_fld(e.recv, out) and tail(e.name) == 'flush']
            got = [c for e in ws for c in (list(e.arg(0)[1]) if e.arg(0)[0] in ('cat', 'add') else [e.arg(0)])]
            want = [e.result for e in cs]
            miss = [r for r in want if r not in got and 'T' in p.state.nullness(r)]
            ctx.ob(not miss and [g for g in got if g in want] == got, ws[0] if ws else q, 'all compressed data is written, in order', path=p, key='all:' + name)
            if name == 'write':
                d = sym(pn[0])
                comps = [e for e in cs if tail(e.name) == 'compress']
                if 'T' in p.state.nullness(d):
                    ctx.ob([e.arg(0) for e in comps] == [d], cs[0] if cs else q, 'all data is compressed', path=p, key='data')
                for e in cs:
                    if tail(e.name) == 'flush':
                        m = e.arg(0)
                        ctx.ob(m is not None and 'FINISH' not in show(m), e, 'the member is not finished by a write', path=p, key='finish-early')
            else:
                f = [e for e in cs if tail(e.name) == 'flush']
                ctx.ob(bool(f) and (f[-1].arg(0) is None or 'Z_FINISH' in show(f[-1].arg(0))), f[-1] if f else q, 'flush finishes the gzip member', path=p, key='finish')
                ev = p.events()
                ctx.ob(bool(fl) and all(ev.index(fl[-1]) > ev.index(x) for x in ws), fl[0] if fl else q, 'then the output is flushed', path=p, key='flush')


def check(ctx):
    ctx.rule('member-per-record', 'with gzip every record goes completely through a compressor of its own, which writes to the output')
    ctx.rule('frame', 'record header, http header block, every piece of the block once and in order to its end, two line ends, flush')
    ctx.rule('gzip-stream', 'all data is compressed, all compressed data written, flush finishes the member')
    for f in (check_frame, check_gzip):
        ctx.guarded(f)
