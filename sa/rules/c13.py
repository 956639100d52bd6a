"""Headers and fields of the records the builder creates, on every abstract path."""
from ..core import *
from .util import *
from .writer import *
from .c05 import hdr_get

AWR = 'warcio.recordloader:ArcWarcRecord'
TYPES = {'warcinfo': 'application/warc-fields', 'response': 'application/http; msgtype=response', 'revisit': 'application/http; msgtype=response',
         'request': 'application/http; msgtype=request', 'metadata': 'application/warc-fields'}
HTTP = ('response', 'request', 'revisit')
RTYPE, URI, DICT, PAY, LEN, HH, WH, CT = (sym(x) for x in ('record_type', 'uri', 'warc_headers_dict', 'payload', 'length', 'http_headers', 'warc_headers', 'warc_content_type'))


def header_ops(p, h, names=('add_header', 'replace_header', 'remove_header')):
    """{lower header name: [events]} on the headers h"""
    out = {}
    for e in p.events():
        if e.kind == 'call' and tail(e.name) in names and core(e.recv) == h and not e.raised:
            nm = e.arg(0)[2].lower() if is_k(e.arg(0), 'str') else None
            out.setdefault(nm, []).append(e)
    return out


def had(st, h, name):
    """was the header in h before it was changed"""
    for t, n in st.null.items():
        if t[0] == 'obs' and core(t[2]) == h and hdr_get(t, name):
            return True if n == T_ else False if 'T' not in n else None
    return None


def result_of(p, name):
    return {e.result: e for e in p.events() if e.kind == 'call' and tail(e.name) == name and not e.raised}


def version_attr(ctx):
    ps = [p for p in ctx.run(RB, construct=True) if p.kind != 'x']
    q = ctx.method(RB, '_parse_warc_version') if ctx.prog.funcs.get(RB + '._parse_warc_version') else None
    attr = None
    V = sym('warc_version')
    ctx.cur = 'version'
    for p in ps:
        st = p.state
        for k, v in st.store.items():
            if k[0] == 'h' and k[1] == SELF and (contains(v, V) or v == K('WARC/1.0')) and k[2][0] != '@':
                attr = k[2]
    if attr is None:
        ctx.ob(None, RB, 'version attribute not found')
        return None
    for p in ps:
        st = p.state
        v = st.heap(SELF, attr)
        tv = truthy(st, V)
        if tv is False:
            ctx.ob(v == K('WARC/1.0'), RB + '.__init__', 'WARC/1.0 unless told otherwise', path=p, key='default')
            continue
        pre = cond_known(st, lambda t: t[0] == 'm' and t[1] == 'startswith' or 'startswith' in show(t))
        if pre == {True}:
            ctx.ob(unstr(v) == V, RB + '.__init__', 'a full version is used as given', path=p, key='full')
        elif pre == {False}:
            ctx.ob(v[0] in ('cat', 'fmt') and v[1][0] == K('WARC/') and unstr(v[1][1]) == V and len(v[1]) == 2, RB + '.__init__', 'WARC/ and the version number', path=p, key='number')
        else:
            ctx.ob(False if v == V or v[0] in ('cat', 'k') else None, RB + '.__init__', 'version is a number or a full version', path=p, key='asked')
    return attr


def make_rec(p):
    es = news(p, AWR)
    return es[0] if len(es) == 1 else None


def check_create(ctx):
    ver = version_attr(ctx)
    q = ctx.method(RB, 'create_warc_record')
    for a in ('uri', 'record_type', 'payload', 'length', 'warc_content_type', 'warc_headers_dict', 'warc_headers', 'http_headers'):
        if a not in ctx.prog.funcs[q].posargs:
            raise AnalysisBroken('create_warc_record(%s)' % a)
    for p in ctx.run(q, self_cls=RB, inline={q}, max_heads=30):
        if p.kind == 'x':
            continue
        st = p.state
        r = make_rec(p)
        if r is None or p.value != r.result:
            ctx.ob(None, q, 'record created not found', rule='record-fields')
            continue
        R = r.result
        last = {e.name: e.args[0] for e in p.events() if e.kind == 'store' and e.recv == R}
        fld = last.get
        # ---- WARC headers
        h = fld('rec_headers')
        given = truthy(st, WH)
        ctx.cur = 'record-headers'
        if given is True:
            ctx.ob(h == WH, r, 'the WARC headers given are the headers of the record', path=p, key='given')
            ctx.ob(not header_ops(p, WH), r, 'and are not changed', path=p, key='given-kept')
        elif given is False:
            mk = [e for e in p.events() if e.kind == 'new' and e.name == SAH and e.result == h]
            if not mk:
                ctx.ob(h != WH and None, r, 'headers %s' % show(h)[:60])
                continue
            init = mk[0].arg(1, 'headers')
            dn = st.nullness(DICT)
            ctx.ob(contains(init, DICT) or 'T' not in dn, mk[0], "the caller's headers are kept", path=p, key='dict')
            if contains(init, DICT):
                ctx.ob('N' not in dn, mk[0], 'headers may be left out', path=p, key='dict-none')
                ctx.ob(init != DICT, mk[0], "the caller's headers are copied", path=p, key='copied')
            ctx.ob(mk[0].arg(0, 'statusline') == K('') and ver is not None and is_fld(mk[0].arg(2, 'protocol'), ver), mk[0], 'the version is the one of the writer', path=p, key='version')
            ops = header_ops(p, h)
            kn = {'warc-type', 'warc-record-id', 'warc-target-uri', 'warc-date'}
            ctx.ob(set(ops) <= kn, r, 'no other headers', path=p, key='others')
            o = ops.get('warc-type', [])
            ctx.ob(len(o) == 1 and tail(o[0].name) == 'replace_header' and unstr(o[0].arg(1)) == RTYPE, o[0] if o else r, 'WARC-Type is the record type', path=p, key='type')
            o = ops.get('warc-target-uri', [])
            u = truthy(st, URI)
            if u is True:
                ctx.ob(len(o) == 1 and tail(o[0].name) == 'replace_header' and o[0].arg(1) == URI, o[0] if o else r, 'WARC-Target-URI is the uri', path=p, key='uri')
            else:
                ctx.ob(u is False and not o, o[0] if o else r, 'no WARC-Target-URI without a uri', path=p, key='nouri')
            for nm, fn in (('warc-record-id', 'make_warc_id'), ('warc-date', 'datetime_to_iso_date')):
                o = ops.get(nm, [])
                was = had(st, h, nm)
                mkd = result_of(p, fn)
                if o:
                    ctx.ob(len(o) == 1 and was is False, o[0], '%s is added only when the caller gave none' % nm, path=p, key='once:' + nm)
                    v = o[0].arg(1)
                    ctx.ob(v in mkd, o[0], '%s is a new one' % nm, path=p, key='value:' + nm)
                    if fn == 'make_warc_id' and v in mkd:
                        a = mkd[v].arg(0)
                        ctx.ob(a in (None, NONE), mkd[v], 'a new id for every record', path=p, key='fresh')
                else:
                    ctx.ob(was is True, r, '%s is there' % nm, path=p, key='present:' + nm)
        else:
            ctx.ob(None, r, 'warc_headers not asked about')
            continue
        # ---- content type
        ctx.cur = 'content-type'
        ct = fld('content_type')
        if truthy(st, CT) is True:
            ctx.ob(ct == CT, r, 'the content type given', path=p, key='given')
        else:
            ctx.ob(truthy(st, CT) is False, r, 'the content type given is used if there is one', path=p, key='given-asked')
            hct = had(st, h, 'content-type')
            if hct is True:
                ctx.ob(ct[0] == 'obs' and core(ct[2]) == h and hdr_get(ct, 'content-type'), r, 'the Content-Type of the headers', path=p, key='header')
            else:
                ctx.ob(hct is False, r, 'the Content-Type of the headers is used if there is one', path=p, key='asked')
                t = [n for n in TYPES if eq_known(st, RTYPE, K(n)) is True]
                if t:
                    ctx.ob(ct == K(TYPES[t[0]]), r, 'content type of %s records' % t[0], path=p, key='table:' + t[0])
                else:
                    left = [n for n in TYPES if eq_known(st, RTYPE, K(n)) is not False]
                    vals = {TYPES[n] for n in left} | {'application/warc-record'}
                    ctx.ob((is_k(ct) and vals == {ct[2]}) if is_k(ct) else None, r, 'content type of other records', path=p, key='table')
        # ---- fields
        ctx.cur = 'record-fields'
        ctx.ob(fld('format') == K('warc') and fld('rec_type') == RTYPE, r, 'format and type', path=p, key='type')
        has = truthy(st, PAY)
        loads = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'load_http_headers' and not e.raised]
        L, PL = fld('length'), fld('payload_length')
        if has is False:
            s = fld('raw_stream')
            mk = [e for e in p.events() if e.result == s and e.kind == 'call' and tail(e.name) == 'BytesIO']
            empty = bool(mk) and (mk[0].arg(0) is None or mk[0].arg(0) == K(b''))
            ctx.ob(empty, r, 'an empty payload is an empty stream', path=p, key='empty')
            ctx.ob(L == K(0) and PL == K(0), r, 'of length 0', path=p, key='zero')
        else:
            ctx.ob(has is True, r, 'payload may be left out', path=p, key='asked')
            ctx.ob(fld('raw_stream') == PAY, r, 'the payload given', path=p, key='payload')
        hh = truthy(st, HH)
        if hh is True or has is False:
            ctx.ob(same(st, fld('http_headers'), HH), r, 'the http headers given', path=p, key='http')
            ctx.ob(not loads, loads[0] if loads else r, 'http headers given are not read from the payload', path=p, key='noload')
            if has is True:
                ctx.ob(same(st, L, LEN) and same(st, PL, LEN), r, 'the length given is the one of the payload', path=p, key='length')
        elif has is True:
            ctx.ob(len(loads) == 1 and hh is False, r, 'http headers are read from the payload when none are given', path=p, key='load')
            if len(loads) != 1:
                continue
            l = loads[0]
            ctx.ob([l.arg(i, n) for i, n in enumerate(('rec_type', 'uri', 'stream', 'length'))] == [RTYPE, URI, PAY, LEN], l, 'http headers are read for this record', path=p, key='loadargs')
            ctx.ob(same(st, fld('http_headers'), l.result), r, 'the http headers read', path=p, key='loaded')
            got = truthy(st, l.result)
            ev = p.events()
            ctx.ob(same(st, L, PL), r, 'one length', path=p, key='one')
            if got is False or is_none(st, LEN) is True:
                ctx.ob(same(st, L, LEN), r, 'the length given', path=p, key='lengthkept')
            elif got is True and is_none(st, LEN) is False:
                c, d = coeffs(L)
                tells = [e for e in ev if e.kind == 'call' and tail(e.name) == 'tell' and e.recv == PAY and not e.raised]
                bef = [e.result for e in tells if ev.index(e) < ev.index(l)]
                aft = [e.result for e in tells if ev.index(e) > ev.index(l)]
                nothttp = all(eq_known(st, RTYPE, K(n)) is False for n in HTTP)
                ok = c == 0 and d.pop(LEN, None) == 1 and any(d.pop(x, None) == -1 for x in aft) and (any(d.pop(x, None) == 1 for x in bef) or nothttp) and not d
                ctx.ob(ok, r, 'http headers read from the payload are not part of its length', path=p, key='rest')
            else:
                ctx.ob(None if L != LEN else False, r, 'http headers read from the payload are not part of its length', path=p, key='restasked')
        ens = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'ensure_digest']
        ctx.ob(len(ens) == 1 and ens[0].arg(0) == R and ens[0].arg(2, 'payload') in (None, K(True)), ens[0] if ens else r, 'the payload digest is settled', path=p, key='digest')


def initial_headers(p, h):
    """[(lower name, value)] of the list new headers were made from, None if not known"""
    mk = [e for e in p.events() if e.kind == 'new' and e.name == SAH and e.result == h]
    if len(mk) != 1:
        return None
    l = mk[0].arg(1, 'headers')
    its = list_items(l, mk[0])
    if its is None:
        return None
    out = []
    for t in its:
        if t[0] != 'tup' or len(t[1]) != 2 or not is_k(t[1][0], 'str'):
            return None
        out.append((t[1][0][2].lower(), t[1][1]))
    return out


def comps(t, info):
    """comprehensions over the fields in a term"""
    out = []
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'op' and t[1] in ('listcomp', 'genexp') and contains(t[2][1], info):
            return [t]
        for x in t:
            out += comps(x, info)
    return out


def comp_fields(ctx, p, e, whole, t):
    elt, src, conds = t[2]
    enc = whole is not None and whole[0] == 'm' and whole[1] == 'encode'
    ctx.ob(enc and 'utf' in show(whole) and len(whole) > 3, e, 'fields are UTF-8', path=p, key='utf8')
    if not enc:
        return
    j = whole[2]
    ctx.ob(j[0] == 'm' and j[1] == 'join' and j[2] == K('') and j[3] == (t,), e, 'the lines follow each other', path=p, key='join')
    it = ('item', src)
    ps = list(elt[1]) if elt[0] in ('cat', 'fmt') else []
    val = unstr(ps[2]) if len(ps) == 4 else None
    ok = len(ps) == 4 and ps[1] == K(': ') and ps[3] == K('\r\n') and contains(ps[0], it) and contains(val, it) and ps[0] != val
    ctx.ob(ok, e, 'name: value', path=p, key='line')
    ctx.ob(all(c == val for c in conds[1]) if conds[0] == 'tup' else None, e, 'every field with a value is written, once', path=p, key='each')


def summed(p, ln, pay):
    """a length that is added up while the payload is written: each turn adds the length of the bytes it writes"""
    seen = None
    for x in p.items:
        if not isinstance(x, LoopRef):
            continue
        if ln == K(0) and x.at == x.entry:
            seen = True if seen is None else seen
        for i in x.loop.trans:
            for seg, j in x.loop.trans[i]:
                w = [e for e in seg if isinstance(e, Event) and e.kind == 'call' and tail(e.name) == 'write' and core(e.recv) == pay]
                if not w or not isinstance(seg[-1], SegEnd) or ln[0] != 'phi':
                    continue
                a, b = seg[0].state.store.get(ln[2]), seg[-1].state.store.get(ln[2])
                if a is None or b is None:
                    return None
                c, d = lin_parts(lin_add(b, a, -1))
                want = [('len', core(e.arg(0))) for e in w]
                have = {core(k): v for k, v in d.items()}
                if c == 0 and (have == {k: 1 for k in want} or have == {core(e.result): 1 for e in w}):
                    seen = True if seen is None else seen
                elif all(k[0] == 'len' for k in have):
                    return False
                else:
                    return None
    return seen


def check_warcinfo(ctx):
    q = ctx.method(RB, 'create_warcinfo_record')
    fn, info = (sym(x) for x in ctx.prog.funcs[q].posargs[1:3])
    for p in ctx.run(q, self_cls=RB, inline={q}):
        if p.kind == 'x':
            continue
        st = p.state
        ctx.cur = 'warcinfo'
        cs = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'create_warc_record' and not e.raised]
        if len(cs) != 1 or p.value != cs[0].result:
            ctx.ob(None, q, 'creation of the record not found')
            continue
        c = cs[0]
        ctx.ob(c.arg(0, 'uri') in (K(''), NONE) and c.arg(1, 'record_type') == K('warcinfo'), c, 'a warcinfo record without uri', path=p, key='type')
        h = c.arg(6, 'warc_headers')
        if h is None or h == NONE:
            d = c.arg(5, 'warc_headers_dict')
            ctx.ob(None, c, 'headers passed another way: %s' % show(d)[:60])
        else:
            ops = header_ops(p, h)
            init = initial_headers(p, h)
            if init is None:
                ctx.ob(None, c, 'headers the record starts with')
                continue
            val = lambda n: [v for k, v in init if k == n] + [e.arg(1) for e in ops.get(n, [])]
            ctx.ob(val('warc-type') == [K('warcinfo')], c, 'WARC-Type', path=p, key='wtype')
            ctx.ob(len(val('warc-record-id')) == 1 and val('warc-record-id')[0] in result_of(p, 'make_warc_id'), c, 'WARC-Record-ID', path=p, key='id')
            ctx.ob(len(val('warc-date')) == 1 and val('warc-date')[0] in result_of(p, 'datetime_to_iso_date'), c, 'WARC-Date', path=p, key='date')
            f = truthy(st, fn)
            ctx.ob(val('warc-filename') == [fn] if f else f is False and not val('warc-filename'), c, 'WARC-Filename exactly when there is a file name', path=p, key='filename')
        pay, ln = c.arg(2, 'payload'), c.arg(3, 'length')
        ev = p.events()
        ws = [e for e in ev if e.kind == 'call' and tail(e.name) == 'write' and core(e.recv) == pay]
        made = [e for e in ev if e.result == pay and tail(e.name) == 'BytesIO']
        if not made:
            ctx.ob(None, c, 'payload %s' % show(pay)[:60])
            continue
        sk = [e for e in ev if e.kind == 'call' and tail(e.name) == 'seek' and core(e.recv) == pay]
        if ws or made[0].arg(0) is None:
            ctx.ob(bool(sk) and sk[-1].arg(0) == K(0) and all(ev.index(sk[-1]) > ev.index(x) for x in ws), c, 'the fields are read from the start', path=p, key='rewind')
            tl = [e for e in ev if e.result == ln and tail(e.name) == 'tell' and core(e.recv) == pay]
            if tl:
                ctx.ob(all(ev.index(tl[0]) > ev.index(x) for x in ws) and not [s for s in sk if ev.index(s) < ev.index(tl[0])], tl[0], 'their length is measured', path=p, key='length')
            elif ln in (None, NONE):
                ctx.ob(True, c, 'unknown length is measured when written')
            else:
                ctx.ob(summed(p, ln, pay) if ln == K(0) or ln[0] == 'phi' else lossy_len(ln), c, 'their length is measured in bytes, all of them; got %s' % show(ln)[:60], path=p, key='length')
        # each pair
        ctx.cur = 'warcinfo-fields'
        for e in ws + made:
            for t in comps(e.arg(0), info):
                comp_fields(ctx, p, e, e.arg(0), t)
        nx = [e for e in ev if e.kind == 'next']
        src = [e for e in nx if contains(e.recv, info)]
        for e in ws:
            t = e.arg(0)
            if comps(t, info):
                continue
            enc = t is not None and t[0] == 'm' and t[1] == 'encode'
            body = t[2] if enc else None
            if body is None or body[0] not in ('cat', 'fmt'):
                ctx.ob(None, e, 'field line %s' % show(t)[:60])
                continue
            ctx.ob(len(t) > 3 and 'utf' in show(t), e, 'fields are UTF-8', path=p, key='utf8')
            ps = list(body[1])
            ok = len(ps) == 4 and ps[1] == K(': ') and ps[3] == K('\r\n') and any(contains(ps[0], x.result) and contains(ps[2], x.result) for x in src) and ps[0] != unstr(ps[2])
            ctx.ob(ok, e, 'name: value', path=p, key='line')

    ctx.cur = 'warcinfo-fields'
    seen = set()
    for p in ctx.run(q, self_cls=RB, inline={q}):
        if p.kind == 'x':
            continue
        for seg in segments(p.items, seen):
            es = [e for e in seg if isinstance(e, Event)]
            n = [e for e in es if e.kind == 'next' and contains(e.recv, info)]
            if seg is p.items:
                if any(e.kind == 'call' and tail(e.name) in ('write', 'BytesIO') and comps(e.arg(0), info) for e in es):
                    continue
                stop = [e for e in es if e.kind == 'stop' and contains(e.recv, info)]
                ctx.ob(bool(stop) and not n, q, 'all fields are gone through', path=p, key='all')
                continue
            ends = [x.state for x in seg if isinstance(x, SegEnd)]
            if len(n) != 1 or not ends:
                continue
            w = [e for e in es if e.kind == 'call' and tail(e.name) == 'write']
            end = ends[-1]
            v = [t for t in end.null if contains(t, n[0].result) and t != n[0].result]
            falsy = any('T' not in end.nullness(t) for t in v)
            ctx.ob(len(w) == 1 or falsy and not w, n[0], 'every field with a value is written, once', path=p, key='each')


def check_id(ctx):
    ctx.cur = 'record-id'
    q = ctx.method(SHP, 'make_warc_id')
    idp = sym('id_')
    for p in ctx.run(q, inline={q}):
        if p.kind == 'x':
            continue
        us = {e.result: e for e in p.events() if e.kind == 'call' and e.name and e.name.startswith('uuid.') and not e.raised}
        v = p.value
        if v[0] not in ('cat', 'fmt'):
            ctx.ob(None, q, 'id %s' % show(v)[:60])
            continue
        ps = list(v[1])
        t = truthy(p.state, idp)
        ctx.ob(ps[0] == K('<urn:uuid:') and ps[-1] == K('>') and len(ps) == 3, q, '<urn:uuid:...>', path=p, key='form')
        if len(ps) == 3:
            x = unstr(ps[1])
            if t is True:
                ctx.ob(x == idp, q, 'the id given', path=p, key='given')
            else:
                ctx.ob(x in us and tail(us[x].name) in ('uuid4', 'uuid1') and t is False, q, 'a new unique id', path=p, key='uuid')


def check(ctx):
    ctx.rule('version', 'WARC/1.0 unless told otherwise; a number gets the WARC/ prefix')
    ctx.rule('record-headers', "type, id, date and uri headers; the caller's own id, date and other headers are kept")
    ctx.rule('content-type', 'given, from the headers, or the one of the record type')
    ctx.rule('record-fields', 'fields of the record are those given; lengths exclude http headers read from the payload')
    ctx.rule('warcinfo', 'warcinfo record: headers and measured payload')
    ctx.rule('warcinfo-fields', 'every field with a value is written as name: value in UTF-8')
    ctx.rule('record-id', 'a record id is a fresh uuid in urn form')
    for f in (check_create, check_warcinfo, check_id):
        ctx.guarded(f)
