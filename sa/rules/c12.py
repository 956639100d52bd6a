"""Digest headers a writer adds against the bytes digested, on every abstract path of ensure_digest and write_record."""
import ast
from ..core import *
from .util import *
from .writer import *
from .c05 import hdr_get

DIG = 'warcio.utils:Digester'
NAMES = {'block': 'warc-block-digest', 'payload': 'warc-payload-digest'}
NO_PAYLOAD = ('warcinfo', 'revisit')


def hdr_truth(st, name):
    """is the record's header known (non-empty) on this path, before any change"""
    for t, n in st.null.items():
        if t[0] == 'obs' and is_rec(t[2], 'rec_headers') and hdr_get(t, name):
            if n == T_:
                return True
            if 'T' not in n:
                return False
    return None


def type_is(st, *names):
    rs = [eq_known(st, rec('rec_type'), K(n)) for n in names]
    return True if True in rs else False if all(r is False for r in rs) else None


def needed(st, kind):
    """True: the digest must be added on this path; False: it must not; None: the path does not tell"""
    rs = [truthy(st, sym(kind)), neg(hdr_truth(st, NAMES[kind]))]
    if kind == 'payload':
        rs.append(neg(type_is(st, *NO_PAYLOAD)))
    return False if False in rs else True if all(r is True for r in rs) else None


def neg(b):
    return None if b is None else not b


def facts(p):
    ev = [e for e in p.events() if not e.raised]
    f = S()
    f.dig = {}
    f.adds = {}
    digs = {e.result: e for e in ev if e.kind == 'new' and e.name == DIG}
    strs = {e.result: e.recv for e in ev if e.kind == 'call' and tail(e.name) in ('__str__', '__format__') and e.recv in digs}
    for e in ev:
        if e.kind == 'call' and tail(e.name) in ('add_header', 'replace_header') and is_rec(e.recv, 'rec_headers'):
            nm = e.arg(0)[2].lower() if is_k(e.arg(0), 'str') else None
            f.adds.setdefault(nm, []).append(e)
            v = e.arg(1)
            d = strs.get(v)
            if d is None and v is not None and v[0] == 'op' and v[1] == 'str' and v[2][0] in digs:
                d = v[2][0]
            for kind in NAMES:
                if nm == NAMES[kind] and d is not None:
                    f.dig[kind] = d
    f.digs = digs
    f.temp = None
    f.orig = None
    for e in ev:
        if e.kind == 'store' and e.recv == REC:
            if e.name == 'raw_stream':
                f.temp = core(e.args[0])
    return f


class S(object):
    pass


def make_step(f, req, hdr_dig):
    """state: (header block fed, pending chunk, objects it went to, chunks read, phase)"""
    def same(v, pend):
        # a piece read in an earlier turn of the loop is seen as an older value
        if pend is not None and pend[0] == 'earlier':
            return core(v) == core(pend[1])
        return v == pend

    def settle(s, e):
        n, pend, done, k, bad = s
        st = e.state
        if pend is not None and pend[0] == 'earlier':
            pend = pend[1]
            if falsy_now(st, [core(pend)]):
                pend = None
        if pend is not None and 'T' in st.nullness(pend):
            miss = [o for o in req if o not in done]
            if miss:
                return 'every piece read goes to the digests and the buffer'
        return None

    def step(s, e):
        if isinstance(e, SegEnd) and s[1] is not None and s[1][0] != 'earlier':
            return [(s[0], ('earlier', s[1])) + s[2:]]
        if not isinstance(e, Event) or s[4]:
            return [s]
        n, pend, done, k, bad = s
        if e.kind != 'call' or e.raised:
            return [s]
        nm = tail(e.name)
        if nm == 'read' and is_rec(e.recv, 'raw_stream'):
            b = settle(s, e)
            if b:
                return [(n, pend, done, k, (b, e.eid))]
            a = e.arg(0)
            full = a is None or a == NONE or (is_k(a, 'int') and a[2] < 0)
            return [(n, e.result, (), 'all' if full else k or 'some', None)]
        if nm == 'update' and core(e.recv) in f.digs:
            d, v = core(e.recv), e.arg(0)
            if hdr_buff(v):
                if d != hdr_dig:
                    return [(n, pend, done, k, ('the http header block belongs to the block digest only', e.eid))]
                if n or k:
                    return [(n, pend, done, k, ('the http header block is digested once, before the payload', e.eid))]
                return [(1, pend, done, k, None)]
            if same(v, pend) and d not in done:
                if d not in req:
                    return [(n, pend, done, k, ('only what is written of the record is digested', e.eid))]
                return [(n, pend, done + (d,), k, None)]
            return [(n, pend, done, k, ('every piece read is digested once', e.eid))]
        if f.temp is not None and core(e.recv) == f.temp and nm == 'write':
            v = e.arg(0)
            if same(v, pend) and f.temp not in done:
                return [(n, pend, done + (f.temp,), k, None)]
            return [(n, pend, done, k, ('every piece read is buffered once', e.eid))]
        return [s]
    return step, settle


def check_ensure(ctx):
    q = ctx.method(RB, 'ensure_digest')
    fn = ctx.prog.funcs[q]
    if fn.posargs[1:4] != ['record', 'block', 'payload']:
        raise AnalysisBroken('ensure_digest(record, block, payload)')
    for d in fn.node.args.defaults:
        ctx.ob(isinstance(d, ast.Constant) and d.value is True, q, 'both digests by default', key='default', rule='digest-needed')
    for p in ctx.run(q, self_cls=RB, inline={q}, raise_pred=lambda name, recv, excs, eng: False if tail(name) in ('update', '__str__', 'add_header', 'get_header', 'compute_headers_buffer') else None, max_heads=30):
        st = p.state
        if p.kind == 'x':
            # the stream's own errors; anything a stream without tell/seek raises is not one
            src = [e for e in p.events() if e.kind == 'call' and e.raised and tail(e.name) in ('tell', 'seek') and is_rec(e.recv, 'raw_stream')]
            ctx.cur = 'digest-buffered'
            reads = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'read']
            ctx.ob(not (src and not reads), src[0] if src else q, 'a stream that cannot seek is buffered', path=p, key='noseek')
            continue
        f = facts(p)
        ev = [e for e in p.events() if not e.raised]
        for e in ev:
            if e.kind == 'store' and e.recv == REC:
                ctx.ob(e.name in ('payload_length', 'raw_stream', '_orig_stream'), e, 'only stream and payload length of the record change', path=p, key='store:' + e.name, rule='digest-buffered')
        need = {}
        ctx.cur = 'digest-needed'
        for kind, h in NAMES.items():
            need[kind] = needed(st, kind)
            got = f.adds.get(h, [])
            if got:
                ctx.ob(need[kind] is True and len(got) == 1, got[0], '%s digest is added only when asked for, not there yet and of use' % kind, path=p, key='extra:' + kind)
                ctx.ob(kind in f.dig, got[0], 'the digest declared is the one computed', path=p, key='value:' + kind)
            else:
                ctx.ob(need[kind] is False, q, '%s digest is added when it is missing' % kind, path=p, key='missing:' + kind)
        for h, es in f.adds.items():
            ctx.ob(h in NAMES.values(), es[0], 'no other header is added', path=p, key='other')
        if len(f.dig) == 2:
            ctx.ob(f.dig['block'] != f.dig['payload'], q, 'a digest of each', path=p, key='two')
        # ---- bytes
        ctx.cur = 'digest-bytes'
        hh = truthy(st, rec('http_headers'))
        rev = type_is(st, 'revisit')
        only = True if rev and hh else False if rev is False or hh is False else None
        b, d = f.dig.get('block'), f.dig.get('payload')
        req = []
        if b is not None:
            if only is None:
                ctx.ob(False, q, 'the payload of a revisit record with http headers is not written, so not in its block digest', path=p, key='revisit')
                continue
            if hh is None:
                ctx.ob(False, q, 'http headers are part of the block', path=p, key='http-asked')
                continue
            if not only:
                req.append(b)
        if d is not None:
            req.append(d)
        if f.temp is not None:
            req.append(f.temp)
        step, settle = make_step(f, req, b)
        for s in run_monitor(p.items, [(0, None, (), None, None)], step):
            n, pend, done, k, bad = s
            if pend is not None and pend[0] == 'earlier':
                pend = core(pend[1])
            if bad:
                ctx.ob(False, q, bad[0], path=p, key=bad[0])
                continue
            if b is not None:
                ctx.ob(n == (1 if hh else 0), q, 'the http header block is in the block digest exactly when there is one', path=p, key='http')
            if req:
                ctx.ob(k is not None, q, 'the block is read', path=p, key='read')
                if k is not None:
                    okend = k == 'all' or (pend is not None and 'T' not in st.nullness(pend)) or falsy_now(st, [pend])
                    ctx.ob(okend, q, 'the block is read to its end', path=p, key='end')
                    if pend is not None and 'T' in st.nullness(pend) and not falsy_now(st, [pend]):
                        ctx.ob(not [o for o in req if o not in done], q, 'the last piece goes to the digests and the buffer', path=p, key='last')
        for e in ev:
            if e.kind == 'call' and tail(e.name) == 'compute_headers_buffer':
                ctx.ob(is_fld(e.arg(0, 'header_filter'), None) and core(e.arg(0, 'header_filter'))[1] == SELF, e, 'the header block digested is the filtered one', path=p, key='filter')
        # ---- position of the stream
        ctx.cur = 'digest-buffered'
        reads = [e for e in ev if e.kind == 'call' and tail(e.name) == 'read' and is_rec(e.recv, 'raw_stream')]
        if is_none(st, rec('length')) is not False:
            ctx.ob(f.temp is not None, q, 'a block of unknown length is buffered and measured', path=p, key='measured')
        pos = [e for e in ev if e.kind == 'call' and tail(e.name) in ('seek',) and is_rec(e.recv, 'raw_stream')]
        tells = {e.result for e in ev if e.kind == 'call' and tail(e.name) == 'tell' and is_rec(e.recv, 'raw_stream') and (not reads or ev.index(e) < ev.index(reads[0]))}
        if f.temp is None:
            if reads:
                ok = bool(pos) and ev.index(pos[-1]) > ev.index(reads[-1]) and pos[-1].arg(0) in tells and pos[-1].arg(1) in (None, K(0))
                ctx.ob(ok, pos[-1] if pos else q, 'the stream is put back to where it was', path=p, key='back')
            ctx.ob(not any(e.kind == 'store' and e.recv == REC for e in ev), q, 'the record keeps its stream and payload length', path=p, key='kept')
        else:
            tw = [e for e in ev if e.kind == 'call' and core(e.recv) == f.temp]
            sk = [e for e in tw if tail(e.name) == 'seek']
            ws = [e for e in tw if tail(e.name) == 'write']
            ok = bool(sk) and sk[-1].arg(0) == K(0) and sk[-1].arg(1) in (None, K(0)) and all(ev.index(sk[-1]) > ev.index(x) for x in ws)
            ctx.ob(ok, sk[-1] if sk else q, 'the buffer is read from its start', path=p, key='rewind')
            ctx.ob(f.temp[0] == 'ev' and not is_rec(f.temp, 'raw_stream'), q, 'a buffer of its own', path=p, key='temp')
            pl = p.state.heap(REC, 'payload_length')
            tl = [e for e in tw if tail(e.name) == 'tell' and e.result == core(pl)]
            if pl is None:
                ctx.ob(False, q, 'the payload length is the measured one', path=p, key='plen')
            elif tl:
                first_seek = [e for e in sk if ev.index(e) < ev.index(tl[0])]
                ctx.ob((not first_seek or first_seek[-1].arg(1) in (K(2), ('ext', 'os.SEEK_END'))) and all(ev.index(tl[0]) > ev.index(x) for x in ws), tl[0], 'the payload length is the measured one', path=p, key='plen')
            elif is_fld(core(pl)) and core(pl)[1] == REC:
                ctx.ob(False, q, 'the payload length is the measured one', path=p, key='plen')
            else:
                ctx.ob(None, q, 'payload length %s' % show(pl)[:60])
            o = p.state.heap(REC, '_orig_stream')
            ctx.ob(o is not None and is_rec(o, 'raw_stream'), q, "the record's own stream is kept", path=p, key='orig')


def check_digester(ctx):
    """type:base32 of the hash of everything fed"""
    ctx.cur = 'digest-form'
    ps = [p for p in ctx.run(DIG, construct=True) if p.kind != 'x']
    ctx.method(DIG, '__init__')
    hattr = tattr = None
    for p in ps:
        hs = {e.result: e for e in p.events() if e.kind == 'call' and e.name and e.name.startswith('hashlib.') and not e.raised}
        for k, v in p.state.store.items():
            if k[0] == 'h' and k[1] == SELF and k[2][0] != '@':
                if v in hs:
                    hattr = k[2]
                    a = hs[v].arg(0)
                    ctx.ob(tail(hs[v].name) == 'new' and a == sym(ctx.prog.funcs[DIG + '.__init__'].posargs[1]), hs[v], 'the hash is of the type asked for', path=p, key='type')
                elif v == sym(ctx.prog.funcs[DIG + '.__init__'].posargs[1]):
                    tattr = k[2]
    if hattr is None or tattr is None:
        return ctx.ob(None, DIG, 'hash object or type attribute not found')
    q = ctx.method(DIG, 'update')
    for p in ctx.run(q, self_cls=DIG):
        if p.kind == 'x':
            continue
        us = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'update' and is_fld(e.recv, hattr)]
        ctx.ob([e.arg(0) for e in us] == [sym(ctx.prog.funcs[q].posargs[1])] or truthy(p.state, sym(ctx.prog.funcs[q].posargs[1])) is False and not us, us[0] if us else q, 'everything is hashed once', path=p, key='update')
    q = ctx.method(DIG, '__str__')
    for p in ctx.run(q, self_cls=DIG):
        if p.kind == 'x':
            continue
        dg = [e for e in p.events() if e.kind == 'call' and tail(e.name) in ('digest', 'hexdigest') and is_fld(e.recv, hattr)]
        b = {e.result: e.arg(0) for e in p.events() if e.kind == 'call' and tail(e.name) == 'to_native_str'}
        v = p.value
        ctx.ob(len(dg) == 1 and tail(dg[0].name) == 'digest', dg[0] if dg else q, 'the value is the digest of the hash', path=p, key='digest')
        parts = list(v[1]) if v is not None and v[0] in ('cat', 'fmt') else None
        if parts is None or len(dg) != 1:
            ctx.ob(None, q, 'form %s' % show(v)[:60])
            continue
        ctx.ob(len(parts) >= 3 and unstr(parts[0]) == ('fld', SELF, tattr, 0) and parts[1] == K(':'), q, 'type:value', path=p, key='form')
        rest = parts[2:]
        ctx.ob(b32_whole(rest[0], dg[0].result, b) if len(rest) == 1 else False if rest else None, q, 'all of the digest in base32', path=p, key='b32')


def b32_whole(t, dg, via):
    """the text is the base32 of the whole digest"""
    t = unstr(core(t))
    if t in via:
        return b32_whole(via[t], dg, via)
    if t[0] == 'm' and t[1] in ('decode', 'encode', 'upper'):
        return b32_whole(t[2], dg, via)
    if t[0] == 'op' and tail(t[1]) == 'b32encode':
        return t[2][0] == dg
    if t[0] in ('slice', 'm', 'cat', 'fmt') or t[0] == 'op' and tail(t[1]) in ('b64encode', 'b16encode', 'hexlify', 'b85encode'):
        return False
    return False if t == dg else None


def check_write(ctx):
    """the digests are settled before the record header is written, and a buffered record gets its stream back"""
    w = writer(ctx)
    for p in w.paths:
        st = p.state
        ev = [e for e in p.events() if not e.raised]
        ens = [e for e in ev if e.kind == 'call' and e.name and tail(e.name) == 'ensure_digest']
        tb = [e for e in ev if e.kind == 'call' and e.name == 'to_bytes' and is_rec(e.recv, 'rec_headers')]
        ctx.cur = 'digest-written'
        if p.kind != 'x' and tb:
            ctx.ob(len(ens) == 1 and ev.index(ens[0]) < ev.index(tb[0]), ens[0] if ens else w.q, 'digests are settled before the header is written', path=p, key='before')
            for e in ens:
                ctx.ob(e.arg(0, 'record') == REC and all(a in (None, K(True)) for a in (e.arg(1, 'block'), e.arg(2, 'payload'))), e, 'both digests of the record', path=p, key='both')
        rm = {}
        for e in ev:
            if e.kind == 'call' and is_rec(e.recv, 'rec_headers') and tail(e.name) == 'remove_header' and is_k(e.arg(0), 'str'):
                rm.setdefault(e.arg(0)[2].lower(), []).append(e)
        ctx.cur = 'digest-unknown-length'
        if ens:
            unk = is_none(st, rec('length'))
            rev = type_is(st, 'revisit')
            for kind, h in NAMES.items():
                es = rm.get(h, [])
                before = [e for e in es if ev.index(e) < ev.index(ens[0])]
                if unk is True:
                    if kind == 'block' or rev is False:
                        ctx.ob(bool(before), ens[0], 'an earlier %s digest of a block of unknown length is recomputed' % kind, path=p, key='recompute:' + kind)
                    else:
                        ctx.ob(rev is True and not es, es[0] if es else ens[0], 'the payload digest of a revisit record is kept', path=p, key='revisit')
                elif unk is False:
                    ctx.ob(not es, es[0] if es else ens[0], 'a digest of a block of known length is kept', path=p, key='kept:' + kind)
                else:
                    ctx.ob(False if es else None, ens[0], 'digests are recomputed only for an unknown length', path=p, key='asked')


def check_restore(ctx):
    w = writer(ctx)
    ctx.cur = 'stream-restored'
    ps = ctx.run(w.q, self_cls=WW, inline={w.q}, keeps={'ensure_digest': KEEPS}, max_heads=30,
                 raise_pred=lambda name, recv, excs, eng: tail(name) in ('read', 'write', 'copyfileobj'))
    for p in ps:
        st = p.state
        ev = [e for e in p.events() if not e.raised]
        reads = [e for e in p.events() if e.kind == 'call' and tail(e.name) in ('read', 'copyfileobj') and (is_rec(e.recv, 'raw_stream') or e.args and is_rec(e.args[0], 'raw_stream'))]
        if not reads:
            continue
        has = None
        for k, v in st.lits.items():
            if k[0] == 'cond' and k[1][0] == 'op' and k[1][1] == 'hasattr' and k[1][2][0] == REC and k[1][2][1] == K('_orig_stream'):
                has = v
        if has is None:
            for t in st.null:
                if '_orig_stream' in show(t) and (t[0] in ('obs', 'op', 'fld')):
                    has = {True: True, False: False}.get(truthy(st, t), has)
        if has and '_orig_stream' in ''.join(show(t) for t, n in st.null.items() if 'N' in n and 'T' not in n and t[0] == 'fld'):
            has = False
        cl = [e for e in ev if e.kind == 'call' and tail(e.name) == 'close' and is_rec(e.recv, 'raw_stream')]
        sr = [e for e in ev if e.kind == 'store' and e.recv == REC and e.name == 'raw_stream']
        if has is False:
            ctx.ob(not cl and not sr, (cl + sr)[0] if cl + sr else w.q, "the record's own stream is left alone", path=p, key='own')
        else:
            ctx.ob(bool(cl) and has is True, cl[0] if cl else w.q, 'the buffer is closed, whether or not writing succeeded', path=p, key='closed')
            ctx.ob(bool(sr) and '_orig_stream' in show(sr[-1].args[0]), sr[-1] if sr else w.q, "the record gets its own stream back, whether or not writing succeeded", path=p, key='back')


def check(ctx):
    ctx.rule('digest-needed', 'a digest header is added exactly when it is missing (no payload digest for warcinfo and revisit), and never overwritten')
    ctx.rule('digest-bytes', 'the block digest covers the http header block and the payload, as written; the payload digest the payload alone, to its end')
    ctx.rule('digest-buffered', 'a stream without seek or of unknown length is buffered completely and measured, any other put back where it was')
    ctx.rule('digest-form', 'type:base32 of the hash of everything fed')
    ctx.rule('digest-written', 'digests are settled before the record header is written')
    ctx.rule('digest-unknown-length', 'digests are recomputed exactly when the length was unknown')
    ctx.rule('stream-restored', "the temporary buffer is closed and the record's stream restored, on errors too")
    for f in (check_ensure, check_digester, check_write, check_restore):
        ctx.guarded(f)
