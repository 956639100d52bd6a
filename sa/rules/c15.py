"""Revisit records, on every abstract path of create_revisit_record."""
from ..core import *
from .util import *
from .writer import *
from .c13 import version_attr

P0 = K('http://netpreserve.org/warc/1.0/revisit/identical-payload-digest')
P1 = K('http://netpreserve.org/warc/1.1/revisit/identical-payload-digest')
WANT = {'warc-refers-to-target-uri': sym('refers_to_uri'), 'warc-refers-to-date': sym('refers_to_date'), 'warc-payload-digest': sym('digest')}


def ver_is(st, v):
    """is the version known to be v: comparisons of the builder's version on this path"""
    for k, val in st.lits.items():
        if k[0] == 'eq':
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if is_fld(core(a)) and core(a)[1] == SELF and is_k(b, 'str'):
                    if b[2] == v:
                        return val
                    if val:
                        return False
        if k[0] == 'le' or k[0] == 'lt' or k[0] == 'cond' and k[1][0] == 'op' and k[1][1] in ('lt', 'le'):
            a, b = (k[1], k[2]) if len(k) == 3 else k[1][2]
            if is_k(a) and a[2] == v and not val:
                return False
            if is_k(a) and a[2] == v and val:
                return True
    return None


def check_revisit(ctx):
    q = ctx.method(RB, 'create_revisit_record')
    for a in ('uri', 'digest', 'refers_to_uri', 'refers_to_date', 'http_headers', 'warc_headers_dict'):
        if a not in ctx.prog.funcs[q].posargs:
            raise AnalysisBroken('create_revisit_record(%s)' % a)
    D = sym('digest')
    for p in ctx.run(q, self_cls=RB, inline={q}):
        st = p.state
        made = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'create_warc_record' and not e.raised]
        ctx.cur = 'revisit-digest'
        if 'T' not in st.nullness(D):
            ctx.ob(p.kind == 'x' and not made, made[0] if made else q, 'a revisit record needs a digest', path=p, key='empty')
            continue
        if p.kind == 'x':
            continue
        ctx.ob(truthy(st, D) is True, q, 'a revisit record needs a digest', path=p, key='empty')
        ctx.cur = 'revisit-record'
        if len(made) != 1 or core(p.value) != made[0].result:
            ctx.ob(None, q, 'creation of the record not found')
            continue
        c = made[0]
        R = c.result
        ctx.ob(c.arg(0, 'uri') == sym('uri') and c.arg(1, 'record_type') == K('revisit'), c, 'a revisit record of the uri', path=p, key='type')
        ctx.ob(c.arg(7, 'http_headers') == sym('http_headers'), c, 'with the http headers given', path=p, key='http')
        wd = c.arg(5, 'warc_headers_dict')
        ctx.ob(wd == sym('warc_headers_dict') or wd is not None and contains(wd, sym('warc_headers_dict')) or 'T' not in st.nullness(sym('warc_headers_dict')), c, 'and the WARC headers given', path=p, key='dict')
        ctx.ob(c.arg(2, 'payload') in (None, NONE), c, 'without payload', path=p, key='payload')
        # headers may also be given through the dict; only header calls are followed
        ops = {}
        for e in p.events():
            if e.kind == 'call' and tail(e.name) in ('add_header', 'replace_header', 'remove_header') and not e.raised:
                r = core(e.recv)
                if is_fld(r, 'rec_headers') and r[1] == R:
                    ops.setdefault(e.arg(0)[2].lower() if is_k(e.arg(0), 'str') else None, []).append(e)
        if not ops:
            ctx.ob(None, c, 'headers set in another way')
            continue
        ctx.cur = 'revisit-headers'
        for n, v in WANT.items():
            es = ops.get(n, [])
            if not es and truthy(st, v) is False:
                ctx.ob(True, c, '%s empty' % n)
                continue
            ctx.ob(len(es) == 1 and tail(es[0].name) != 'remove_header' and unstr(es[0].arg(1)) == v, es[0] if es else c, '%s is the one given' % n, path=p, key=n)
        es = ops.get('warc-profile', [])
        ctx.ob(len(es) == 1 and tail(es[0].name) != 'remove_header', es[0] if es else c, 'WARC-Profile is set', path=p, key='profile')
        for e in es:
            k11 = ver_is(st, 'WARC/1.1')
            v = e.arg(1)
            if k11 is None:
                ctx.ob(False if v in (P0, P1) or is_k(v) else None, e, 'WARC-Profile of the version', path=p, key='profile-asked')
            else:
                ctx.ob(v == (P1 if k11 else P0) if is_k(v) else None, e, 'WARC-Profile of the version', path=p, key='profile-value')
        ctx.ob(set(ops) <= set(WANT) | {'warc-profile'}, c, 'no other headers', path=p, key='others')


def check(ctx):
    ctx.rule('revisit-digest', 'no revisit record without a digest')
    ctx.rule('revisit-record', 'type revisit, uri, http and WARC headers given, no payload')
    ctx.rule('revisit-headers', 'profile of the WARC version, and the uri, date and payload digest referred to')
    ctx.guarded(check_revisit)
