"""Linking of a request to its response, on every abstract path of write_request_response_pair."""
import ast
from ..core import *
from .util import *
from .writer import *
from .c13 import header_ops
from .c05 import hdr_get
from ..engine import BOUNDARY


def record_writers(ctx):
    """methods through which write_record writes a record: [q], and the position of the record argument"""
    q = ctx.method(WW, 'write_record')
    f = ctx.prog.funcs[q]
    rec_name = f.posargs[1]
    out = {q: 0}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == f.posargs[0]:
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Name) and a.id == rec_name:
                    l = ctx.prog.lookup(WW, n.func.attr)
                    if l and l[0] == 'fn':
                        out[l[1].q] = i
    return out


def check_pair(ctx):
    q = ctx.method(WW, 'write_request_response_pair')
    if ctx.prog.funcs[q].posargs[1:3] != ['req', 'resp']:
        raise AnalysisBroken('write_request_response_pair(req, resp)')
    wr = record_writers(ctx)
    names = {k.split('.')[-1]: i for k, i in wr.items()}
    REQ, RESP = sym('req'), sym('resp')
    rh, sh = ('fld', REQ, 'rec_headers', 0), ('fld', RESP, 'rec_headers', 0)
    for p in ctx.run(q, self_cls=WW, inline={q}, boundary=BOUNDARY | set(wr)):
        if p.kind == 'x':
            continue
        st = p.state
        ev = p.events()
        ws = [e for e in ev if e.kind == 'call' and tail(e.name) in names and e.recv == SELF and not e.raised]
        order = [core(e.args[names[tail(e.name)]]) if len(e.args or []) > names[tail(e.name)] else None for e in ws]
        ctx.cur = 'pair-order'
        if not ws or None in order:
            ctx.ob(False if not ws else None, ws[0] if ws else q, 'both records are written', path=p, key='both')
            continue
        ctx.ob(order == [RESP, REQ], ws[0], 'the response is written, then its request, each once', path=p, key='order')
        for e in ws:
            if names[tail(e.name)]:
                o = e.args[0]
                w = writer(ctx)
                ctx.ob(is_out(o, w), e, 'to the output of the writer', path=p, key='out')
        first = min([ev.index(e) for e in ws if core(e.args[names[tail(e.name)]]) == REQ] or [0])
        ctx.cur = 'pair-link'
        ops = {}
        for e in ev:
            if e.kind == 'call' and tail(e.name) in ('add_header', 'replace_header', 'remove_header') and not e.raised:
                r = core(e.recv)
                if is_fld(r, 'rec_headers'):
                    n = e.arg(0)[2].lower() if is_k(e.arg(0), 'str') else None
                    ops.setdefault((r[1], n), []).append(e)
        ctx.ob(not [k for k in ops if k[0] != REQ], q, 'the response is not changed', path=p, key='resp')
        ctx.ob({k[1] for k in ops} <= {'warc-target-uri', 'warc-date', 'warc-concurrent-to'}, q, 'no other header of the request changes', path=p, key='others')
        for n in ('warc-target-uri', 'warc-date'):
            es = ops.get((REQ, n), [])
            ok = len(es) == 1 and tail(es[0].name) == 'replace_header' and is_resp(es[0].arg(1), RESP, n) and ev.index(es[0]) < first
            had = truth_of(st, RESP, n)
            ctx.ob(ok or (had is False and not es), es[0] if es else q, '%s of the request is set to that of the response before it is written' % n, path=p, key=n)
        es = ops.get((REQ, 'warc-concurrent-to'), [])
        had = truth_of(st, RESP, 'warc-record-id')
        if had is False:
            ctx.ob(not es, es[0] if es else q, 'no link to a response without id', path=p, key='noid')
        else:
            ok = had is True and len(es) == 1 and is_resp(es[0].arg(1), RESP, 'warc-record-id') and ev.index(es[0]) < first
            ctx.ob(ok, es[0] if es else q, 'the request refers to the id of the response before it is written', path=p, key='concurrent')
            if ok:
                ctx.ob(tail(es[0].name) == 'add_header', es[0], 'what else the request refers to is kept', path=p, key='kept')


def is_resp(t, RESP, name):
    t = core(t)
    return t is not None and t[0] == 'obs' and is_fld(core(t[2]), 'rec_headers') and core(t[2])[1] == RESP and hdr_get(t, name)


def truth_of(st, RESP, name):
    for t, n in st.null.items():
        if is_resp(t, RESP, name):
            return True if n == T_ else False if 'T' not in n else None
    return None


def check(ctx):
    ctx.rule('pair-order', 'the response is written, then the request, each once')
    ctx.rule('pair-link', "target uri and date of the response replace the request's and its id is referred to, before the request is written")
    ctx.guarded(check_pair)
