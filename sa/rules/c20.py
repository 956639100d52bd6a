"""One request, one pair of records: the life of a recorded request on the abstract paths of the recorder."""
from ..core import *
from .util import *
from ..engine import BOUNDARY
from .c18 import M, REQR, CONN, is_local
from .c19 import buffers, wrapped, RS

AWR = 'warcio.recordloader:ArcWarcRecord'

PROXY = 'warc-proxy-host'


def own(t, attr=None):
    t = core(t)
    return is_fld(t, attr) and t[1] == SELF if attr else is_fld(t) and t[1] == SELF


def check_start(ctx):
    ctx.cur = 'start'
    rq, rs, started = buffers(ctx)
    q = ctx.method(REQR, 'start')
    for p in ctx.run(q, self_cls=REQR):
        if p.kind == 'x':
            continue
        st = p.state
        ev = p.events()
        made = [e for e in ev if e.kind in ('call', 'new') and (e.name or '').split('.')[-1].split(':')[-1] in ('SpooledTemporaryFile', 'TemporaryFile', 'BytesIO', 'NamedTemporaryFile')]
        res = {e.result for e in made}
        a, b = st.heap(SELF, rq), st.heap(SELF, rs)
        for v, n in ((a, 'request'), (b, 'response')):
            ctx.ob(True if v in res else False if v is None or is_fld(v) or v == NONE else None, q, 'a new %s buffer' % n, path=p, key='new:' + n)
        ctx.ob(a != b or len({id(e) for e in made}) < 1, q, 'one for each', path=p, key='two')
        for attr, want in (('url', NONE), ('first_line_read', None), (started, None)):
            if attr is None:
                continue
            v = st.heap(SELF, attr)
            if v is None:
                ctx.ob(False, q, '%s is set anew' % attr, path=p, key='anew:' + attr)
                continue
            if attr == 'url':
                ctx.ob(v == NONE, q, 'the url of the request before is gone', path=p, key='url')
            elif attr == started:
                ctx.ob(truthy(st, v) is True, q, 'recording begins', path=p, key='started')
            else:
                ctx.ob(truthy(st, v) is False, q, 'the first line is read anew', path=p, key='first')
        for e in ev:
            if e.kind == 'store' and own(('fld', e.recv, e.name, 0)) and e.name in ('connect_host', 'connect_port'):
                ctx.ob(False, e, 'the tunnel lasts for the connection', path=p, key='tunnel')
    q = ctx.method(REQR, 'start_tunnel')
    for p in ctx.run(q, self_cls=REQR):
        if p.kind == 'x':
            continue
        st = p.state
        for attr, msg in ((started, 'the request for the tunnel is not recorded'), ('first_line_read', 'its first line is read'), ('connect_host', 'the tunnel before is forgotten'), ('connect_port', 'the tunnel before is forgotten')):
            v = st.heap(SELF, attr) if attr else None
            ctx.ob(v is not None and truthy(st, v) is False, q, msg, path=p, key='tunnel:' + str(attr))
    # the connection says so
    for m, want in (('putrequest', 'start'), ('_tunnel', 'start_tunnel')):
        q = ctx.method(CONN, m)
        wq = ctx.method(REQR, want)
        for p in ctx.run(q, self_cls=CONN, boundary=BOUNDARY | {wq}):
            if p.kind == 'x':
                continue
            ev = p.events()
            base = [e for e in ev if e.kind == 'call' and (e.name or '').endswith('HTTPConnection.' + m)]
            ss = [e for e in ev if e.kind == 'call' and tail(e.name) == want]
            r = None
            for t, v in p.state.null.items():
                if own(t, 'recorder'):
                    r = False if 'T' not in v else True if 'N' not in v else r
            ctx.ob(len(base) == 1 and core(p.value) == base[0].result and any(a[0] == 'star' for a in base[0].args) and '**' in (base[0].kw or {}), base[0] if base else q, 'as without recording', path=p, key=m + ':base')
            if r is False:
                ctx.ob(not ss, q, 'no recorder, nothing to begin', path=p, key=m + ':off')
            elif r is True:
                ctx.ob(len(ss) == 1 and (not base or ev.index(ss[0]) < ev.index(base[0])), ss[0] if ss else q, '%s begins a request' % m, path=p, key=m)
            else:
                ctx.ob(False if not ss else None, q, '%s begins a request' % m, path=p, key=m)


def check_done(ctx):
    rq, rs, started = buffers(ctx)
    q = ctx.method(REQR, 'done')
    always = not any(AWR + '.' + m in ctx.prog.funcs for m in ('__bool__', '__len__', '__nonzero__'))
    for p in ctx.run(q, self_cls=REQR, known_raises=True):
        st = p.state
        ev = p.events()
        cs = [e for e in ev if e.kind == 'call' and tail(e.name) == 'create_warc_record']
        ws = [e for e in ev if e.kind == 'call' and tail(e.name) == 'write_request_response_pair']
        other = [e for e in ev if e.kind == 'call' and tail(e.name) in ('write_record', '_write_warc_record')]
        if always and any(truthy(st, e.result) is False for e in cs if not e.raised):
            continue   # a record is always true
        on = truthy(st, ('fld', SELF, started, 0)) if started else None
        ctx.cur = 'records'
        if on is None and cs:
            ctx.ob(None if asked_about(st, lambda t: own(t) and t[2] != 'filter_func') else False, cs[0], 'only what began is recorded', path=p, key='began')
        if on is False:
            ctx.ob(not cs and not ws and not other, q, 'no request, no records', path=p, key='off')
            continue
        kinds = {}
        for e in cs:
            ty = e.arg(1, 'record_type')
            kinds.setdefault(ty[2] if is_k(ty, 'str') else show(ty), []).append(e)
        want = {'request': rq, 'response': rs}
        if p.kind != 'x':
            ctx.ob(set(kinds) == set(want) and all(len(v) == 1 for v in kinds.values()), cs[0] if cs else q, 'one request and one response record', path=p, key='both')
        for k, es in sorted(kinds.items()):
            if k not in want:
                ctx.ob(False, es[0], 'one request and one response record', path=p, key='both')
                continue
            e = es[0]
            ctx.ob(own(e.arg(0, 'uri'), 'url'), e, '%s: the url of the request' % k, path=p, key=k + ':url')
            ctx.ob(own(core(e.arg(2, 'payload')), want[k]), e, '%s: what was recorded of it' % k, path=p, key=k + ':payload')
            h = e.arg(5, 'warc_headers_dict')
            ctx.ob(h is not None and own(h, 'warc_headers'), e, '%s: with the headers collected' % k, path=p, key=k + ':headers')
            ln = e.arg(3, 'length')
            i = ev.index(e)
            pos = [x for x in ev[:i] if x.kind == 'call' and own(core(x.recv), want[k])]
            tells = [x for x in pos if tail(x.name) == 'tell']
            seeks = [x for x in pos if tail(x.name) == 'seek']
            rew = bool(seeks) and [core(a) for a in seeks[-1].args] == [K(0)] or bool(seeks) and [core(a) for a in seeks[-1].args] == [K(0), K(0)]
            after = [x for x in pos if seeks and pos.index(x) > pos.index(seeks[-1]) and tail(x.name) not in ('tell',)]
            ctx.ob(rew and not after, e, '%s: from its beginning' % k, path=p, key=k + ':rewound')
            if ln in (None, NONE):
                ctx.ob(True, e, '%s: all of it' % k, path=p, key=k + ':length')
            elif any(x.result == core(ln) for x in tells):
                t = [x for x in tells if x.result == core(ln)][0]
                moved = [x for x in pos[:pos.index(t)] if tail(x.name) in ('seek', 'read', 'truncate')]
                okm = not moved or [core(a) for a in moved[-1].args] in ([K(0), K(2)],) and tail(moved[-1].name) == 'seek'
                ctx.ob(okm, t, '%s: all of it' % k, path=p, key=k + ':length')
            else:
                part = [x for x in pos if tail(x.name) == 'read' and x.args and x.arg(0) != K(-1) and x.arg(0) != NONE and contains(ln, x.result)]
                ctx.ob(False if part else lossy_len(ln), e, '%s: all of it; got %s' % (k, show(ln)[:40]), path=p, key=k + ':length')
        req = kinds['request'][0].result if len(kinds.get('request', ())) == 1 else None
        resp = kinds['response'][0].result if len(kinds.get('response', ())) == 1 else None
        # ---- filter
        fs = [e for e in ev if e.kind == 'call' and (tail(e.name) == 'filter_func' or own(core(e.recv), 'filter_func') and e.name in ('__call__', 'call'))]
        ctx.cur = 'filter'
        has = truthy(st, ('fld', SELF, 'filter_func', 0))
        if has is None:
            n = is_none(st, ('fld', SELF, 'filter_func', 0))
            has = None if n is None else not n
        out = (req, resp)
        if req and resp and (p.kind != 'x' or ws):
            if has is False:
                ctx.ob(not fs, q, 'no filter to ask', path=p, key='none')
            elif has is True:
                ctx.ob(len(fs) == 1, fs[0] if fs else q, 'the filter is asked once', path=p, key='asked')
            else:
                ctx.ob(False if not fs else None, q, 'the filter is asked', path=p, key='asked')
            if fs:
                f = fs[0]
                ctx.ob([core(a) for a in f.args] == [req, resp, SELF], f, 'about the request, the response and the recorder', path=p, key='args')
                out = (('idx', f.result, K(0)), ('idx', f.result, K(1)))
        # ---- writing
        ctx.cur = 'written'
        ctx.ob(not other, other[0] if other else q, 'records are written as a pair', path=p, key='pair')
        if req and resp and not any(f.raised for f in fs):
            drop = False
            if fs:
                a, b = (truthy(st, t) for t in out)
                drop = True if a is False or b is False else False if a and b else None
                if drop is None:
                    n1, n2 = (is_none(st, t) for t in out)
                    drop = True if n1 or n2 else False if n1 is False and n2 is False else None
            locked = None
            depth = 0
            for e in ev:
                if e.kind == 'enter' and 'lock' in show(e.recv):
                    depth += 1
                elif e.kind == 'call' and tail(e.name) == 'acquire' and not e.raised:
                    depth += 1
                elif e.kind == 'exit' and 'lock' in show(e.recv) or e.kind == 'call' and tail(e.name) == 'release':
                    depth -= 1
                elif e in ws:
                    locked = depth > 0
            early = p.kind == 'x' and not ws
            if drop is True:
                ctx.ob(not ws, ws[0] if ws else q, 'what the filter drops is not written', path=p, key='drop')
            elif drop is False and not early:
                ctx.ob(len(ws) == 1 and [core(a) for a in ws[0].args[:2]] == list(out), ws[0] if ws else q, 'the request and the response are written, once', path=p, key='write')
            elif drop is None and not early:
                unasked = fs and any(not any(contains(x, t) for x in list(st.null) + [y for k in st.lits for y in k[1:] if isinstance(y, tuple)]) for t in out) and \
                    fs[0].result not in st.null and any(x is True for x in (a, b))
                ctx.ob((False if unasked else None) if ws else False, q, 'what the filter says is not looked at', path=p, key='asked-half')
            if ws:
                ctx.ob(bool(locked), ws[0], 'under the lock of the capture', path=p, key='lock')
        elif ws:
            ctx.ob(False if p.kind != 'x' else None, ws[0], 'both records are there when they are written', path=p, key='incomplete')
        # ---- cleaning up
        ctx.cur = 'released'
        if cs:
            for attr in (rq, rs):
                cl = [e for e in ev if e.kind == 'call' and tail(e.name) == 'close' and core(e.recv) is not None and is_fld(core(e.recv), attr)]
                ctx.ob(bool(cl), q, 'the buffers are closed on every way out', path=p, key='close:' + attr)
                for e in cl:
                    ctx.ob(not any(ev.index(w) > ev.index(e) for w in ws), e, 'after writing', path=p, key='late:' + attr)


def asked_about(st, pred):
    return any(pred(core(t)) for k in list(st.null) + list(st.lits) for t in subterms(k) if isinstance(t, tuple) and t and t[0] == 'fld')


def pieces(t):
    t = core(t)
    return list(t[1]) if t is not None and t[0] in ('cat', 'fmt', 'add') else [t]


def template(t, names):
    """url string with the terms replaced by letters"""
    out = ''
    for x in pieces(t):
        x = core(x)
        if is_k(x, 'str'):
            out += x[2]
        elif unstr(x) in names:
            out += names[unstr(x)]
        elif x in names:
            out += names[x]
        else:
            return None
    return out


def colon(st, t):
    """(has a colon, is in brackets) as known on the path"""
    a = b = None
    for k, v in list(st.null.items()):
        s = show(k)
        if "':'" in s and 'in(' in s and contains(k, t):
            a = True if v == T_ else False if 'T' not in v else a
    for k, v in st.lits.items():
        if k[0] != 'cond':
            continue
        s = show(k[1])
        if "':'" in s and 'in(' in s and contains(k[1], t):
            a = v
        elif 'startswith' in s and "'['" in s and contains(k[1], t):
            b = v
    return a, b


def host_text(st, t):
    """'H' or '[H]': how the host t is to be written in a url; None: not known"""
    a, b = colon(st, t)
    if a is False or b is True:
        return ('H',)
    if a is True and b is False:
        return ('[H]',)
    if a is True:
        return ('[H]',)
    if not any(contains(k, t) for k in st.lits) and not any(k != t and contains(k, t) for k in st.null):
        return ('[H] if it is an IPv6 address',)
    return ('H', '?')


def check_url(ctx):
    q = ctx.method(REQR, 'extract_url')
    names = ctx.prog.funcs[q].posargs
    data, host, port, dport = (sym(n) for n in names[1:5])
    CH, CP = ('fld', SELF, 'connect_host', 0), ('fld', SELF, 'connect_port', 0)
    FL = ('fld', SELF, 'first_line_read', 0)
    for p in ctx.run(q, self_cls=REQR, raise_pred=lambda *a: False):
        if p.kind == 'x':
            continue
        st = p.state
        ev = p.events()
        stores = [e for e in ev if e.kind == 'store' and e.recv == SELF]
        fin = {e.name: core(e.args[0]) for e in stores}
        prox = [e for e in ev if e.kind == 'setitem' and own(e.recv, 'warc_headers') and is_k(e.args[0], 'str') and e.args[0][2].lower() == PROXY]
        ctx.cur = 'first-line'
        seen = truthy(st, FL)
        if seen is True:
            ctx.ob(not stores and not prox, q, 'only the first line counts', path=p, key='first')
            continue
        if seen is None and stores:
            ctx.ob(None if asked_about(st, lambda t: own(t) and t[2] not in ('connect_host', 'connect_port')) else False, stores[0], 'only the first line counts', path=p, key='first')
        ctx.ob(fin.get('first_line_read') == K(True), q, 'the first line is read once', path=p, key='once')
        # the words of the line
        words = {}
        for k in list(st.lits) + list(fin.values()) + list(st.null):
            for t in subterms(k if not isinstance(k, tuple) or k[0] not in ('eq', 'cond', 'le', 'lt') else k):
                if isinstance(t, tuple) and t and t[0] == 'idx' and is_k(t[2], 'int') and isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][1] == 'split' \
                        and not any(isinstance(x, tuple) and x and x[0] == 'idx' for x in subterms(t[1][2])):
                    words[t[2][2]] = t
        verb, path = words.get(0), words.get(1)
        if verb is None:
            ctx.ob(None, q, 'the words of the first line')
            continue
        if path is None:
            path = ('idx', verb[1], K(1))
        src = line_source(ev, verb[1][2])
        if src is not None:
            ctx.ob(src == data, q, 'of the data sent', path=p, key='data')
        enc = decoded_as(ev, verb[1][2])
        lat = {x.lower().replace('_', '-') in ('latin-1', 'iso-8859-1', 'latin1', 'iso8859-1', 'l1') for x in enc if x}
        ctx.ob(None if None in enc or not enc else lat == {True}, q, 'any bytes sent have a url', path=p, key='bytes')
        conn = eq_known(st, verb, K('CONNECT'))
        ctx.cur = 'connect'
        if conn is None:
            ctx.ob(None, q, 'CONNECT not asked for')
            continue
        if conn:
            ctx.ob('url' not in fin, q, 'the address of a tunnel is not a url', path=p, key='url')
            h = fin.get('connect_host')
            ctx.ob(h is not None and contains(h, path), q, 'the host of the tunnel is remembered', path=p, key='host')
            pt = fin.get('connect_port')
            ctx.ob(pt is not None and (pt == dport or contains(pt, path)), q, 'the port of the tunnel is remembered', path=p, key='port')
            if h is not None and contains(h, path):
                raw = [t for t in subterms(h) if isinstance(t, tuple) and t and t[0] == 'idx' and isinstance(t[1], tuple) and t[1][0] in ('m', 'op') and t != path and contains(t, path)]
                for v, ok0, what in ((raw[0] if raw else None, (0,), 'host'), (pt, (1, -1, 2), 'port')):
                    cut = [t for t in subterms(v or NONE) if isinstance(t, tuple) and t and t[0] == 'idx' and isinstance(t[1], tuple) and t[1][0] == 'm' and core(t[1][2]) == path]
                    if cut and cut[0][1][1] in ('split', 'partition', 'rsplit', 'rpartition') and is_k(cut[0][2], 'int'):
                        m, i, a = cut[0][1][1], cut[0][2][2], cut[0][1][3]
                        if not a or a[0] != K(':'):
                            continue
                        if what == 'host' and m == 'rpartition' and i == 2 and truthy(st, ('idx', cut[0][1], K(1))) is False:
                            continue      # no colon: all of it
                        last = m in ('rsplit', 'rpartition') and (m != 'rsplit' or len(a) > 1 and a[1] == K(1)) or what == 'port' and m == 'split' and len(a) == 1 and i == -1
                        ctx.ob(last and i in ok0, q, 'the port of a tunnel comes after the last colon', path=p, key='last-colon:' + what)
                if raw:
                    want = host_text(st, raw[0])
                    got = template(h, {raw[0]: 'H'})
                    if '?' not in want:
                        ctx.ob(got in want if got is not None else None, q, 'its host as in a url', path=p, key='bracket')
            if pt == dport:
                ctx.ob(True, q, 'without port: the default one', key='defport')
            check_proxy(ctx, st, prox, 'https', host, port, q, p)
            continue
        ctx.cur = 'url'
        ctx.ob('connect_host' not in fin and 'connect_port' not in fin, q, 'a request leaves the tunnel as it is', path=p, key='tunnel')
        absol = None
        out = set()
        for k, v in st.lits.items():
            if k[0] == 'cond' and 'startswith' in show(k[1]) and contains(k[1], path):
                pre = [t[2] for t in subterms(k[1]) if is_k(t, 'str') and t[2].lower().startswith('http')]
                if v and pre:
                    absol = True
                elif not v:
                    out |= {x for x in ('http:', 'https:') if any(x.startswith(y) for y in pre)}
        if absol is None and out:
            absol = False
            if len(out) < 2:
                ctx.ob(False, q, 'http and https urls are told from paths', path=p, key='absolute')
                continue
        h = CH if truthy(st, CH) is True else host if truthy(st, CH) is False else None
        pt = CP if truthy(st, CP) is True else port if truthy(st, CP) is False else None
        if absol is None:
            ctx.ob(None, q, 'absolute urls not told apart')
            continue
        u = fin.get('url')
        if absol:
            ctx.ob(u == path, q, 'an absolute url is the url', path=p, key='absolute')
            check_proxy(ctx, st, prox, 'http', h or host, pt or port, q, p)
            continue
        ctx.ob(not prox, prox[0] if prox else q, 'no proxy without absolute url or tunnel', path=p, key='noproxy')
        if u is not None and (h is None or pt is None):
            plain = template(u, {host: 'H', port: 'P', path: 'U', CH: 'C', CP: 'c'})
            if plain is not None and ('H' in plain and h is None or 'P' in plain and pt is None):
                ctx.ob(False, q, 'in a tunnel host and port are those of the tunnel', path=p, key='through')
                continue
        if u is None or h is None or pt is None:
            ctx.ob(False if u is None else None, q, 'the url is made of host, port and path', path=p, key='made')
            continue
        d443 = eq_known(st, dport, K(443))
        same = eq_known(st, pt, dport)
        got = template(u, {h: 'H', pt: 'P', path: 'U'})
        if d443 is None or same is None:
            ctx.ob(None if d443 is None and same is None else False, q, 'scheme and port depend on the default port', path=p, key='port')
            continue
        if got is None:
            other = template(u, {host: 'H', CH: 'H', port: 'P', CP: 'P', path: 'U', dport: 'P'})
            ctx.ob(False if other is not None else None, q, 'the url is made of host, port and path', path=p, key='made')
            continue
        hs = host_text(st, h) if h == host else ('H',)
        want = {('https://' if d443 else 'http://') + x + ('' if same else ':P') + 'U' for x in hs}
        ctx.ob(got in want, q, 'scheme://host[:port]path: %s' % got, path=p, key='form')


def check_proxy(ctx, st, prox, scheme, h, pt, q, p):
    ctx.cur = 'proxy'
    if len(prox) != 1:
        ctx.ob(False, prox[0] if prox else q, 'the proxy is noted', path=p, key='noted')
        return
    got = template(prox[0].args[1], {h: 'H', pt: 'P'})
    hs = host_text(st, h) if h[0] == 'sym' else ('H',)
    ctx.ob(got in [scheme + '://' + x + ':P' for x in hs] if got is not None else None, prox[0], 'the proxy is scheme://host:port: %s' % got, path=p, key='form')


def line_source(ev, line):
    """the data the line was read from, None when not followed"""
    t = core(line)
    for _ in range(6):
        if t[0] == 'ev':
            e = [x for x in ev if x.result == t]
            if not e:
                return None
            e = e[0]
            if tail(e.name) in ('to_native_str',):
                t = core(e.arg(0, 'value'))
            elif tail(e.name) == 'readline':
                t = core(e.recv)
            elif tail(e.name) == 'BytesIO':
                t = core(e.args[0])
            elif tail(e.name) == 'decode':
                t = core(e.recv)
            else:
                return None
        elif t[0] == 'm' and t[1] in ('decode', 'split', 'partition', 'rstrip', 'strip'):
            t = core(t[2])
        elif t[0] == 'idx' and t[2] == K(0):
            t = core(t[1])
        elif t[0] == 'sym':
            return t
        else:
            return None
    return None


def decoded_as(ev, line):
    """the encodings the request line goes through; None: not followed"""
    out = set()
    seen = set()
    todo = [line]
    while todo:
        for t in subterms(core(todo.pop())):
            if t[0] == 'm' and t[1] == 'decode':
                out |= {x[2] for x in t[3] if is_k(x, 'str')} if t[3] else {'utf-8'}
                if len(t[3]) > 1:
                    out.add(None)
            if t[0] == 'ev' and t not in seen:
                seen.add(t)
                for e in ev:
                    if e.result != t:
                        continue
                    if tail(e.name) in ('to_native_str', 'decode'):
                        enc = e.arg(1, 'encoding') if tail(e.name) == 'to_native_str' else (e.args[0] if e.args else K('utf-8'))
                        err = len(e.args) > (2 if tail(e.name) == 'to_native_str' else 1) or 'errors' in (e.kw or {})
                        out.add(None if err or not is_k(enc, 'str') else enc[2])
                    todo += [a for a in e.args if isinstance(a, tuple)] + ([e.recv] if e.recv is not None else [])
    return out


def check_own(ctx):
    """every connection has a recorder of its own, all share one lock"""
    ctx.cur = 'own'
    q = ctx.method(CONN, '__init__')
    for p in ctx.run(q, self_cls=CONN):
        if p.kind == 'x':
            continue
        st = p.state
        ev = p.events()
        fin = {e.name: e for e in ev if e.kind == 'store' and e.recv == SELF}
        for nm, e in sorted(fin.items()):
            v = core(e.args[0])
            if is_fld(v) and is_local(v[1]) and truthy(st, v) is not False:
                ctx.ob(False, e, 'the recorder is of this connection alone', path=p, key='own')
            news = [x for x in ev if x.kind == 'new' and x.name == REQR and x.result == v]
            if not news:
                continue
            ctx.ob(True, e, 'the recorder is of this connection alone', path=p, key='own')
            f = {x.name: core(x.args[0]) for x in ev if x.kind == 'store' and x.recv == v}
            for a in ('writer', 'filter_func', 'record_ip', 'lock'):
                src = f.get(a)
                ctx.ob(is_fld(src, a) and is_fld(core(src[1])) and is_local(core(src[1])[1]), news[0], '%s is that of the capture' % a, path=p, key=a)
            h = f.get('warc_headers')
            ctx.ob(False if is_fld(h) else True if h is not None and show(h).startswith(('new<dict', 'new<OrderedDict')) or h[0] in ('dct', 'dict') else None, news[0], 'headers are of this connection alone', path=p, key='headers')


def check_ip(ctx):
    ctx.cur = 'ip'
    q = ctx.method(REQR, 'set_remote_ip')
    ip = sym(ctx.prog.funcs[q].posargs[1])
    for p in ctx.run(q, self_cls=REQR):
        if p.kind == 'x':
            continue
        si = [e for e in p.events() if e.kind == 'setitem' and own(e.recv, 'warc_headers')]
        w = truthy(p.state, ('fld', SELF, 'record_ip', 0))
        g = truthy(p.state, ip)
        if w is False or g is False:
            ctx.ob(not si, q, 'no address unless wanted and known', path=p, key='off')
        elif w and g:
            ctx.ob(len(si) == 1 and is_k(si[0].args[0], 'str') and si[0].args[0][2].lower() == 'warc-ip-address' and core(si[0].args[1]) == ip, si[0] if si else q, 'the address of the server is noted', path=p, key='on')
        else:
            ctx.ob(False, si[0] if si else q, 'the address is noted when it is wanted and known', path=p, key='on')
    fp, rec = wrapped(ctx)
    q = ctx.method(RS, '__init__')
    n = 0
    for p in ctx.run(q, self_cls=RS, boundary=BOUNDARY | {ctx.method(REQR, 'set_remote_ip')}):
        if p.kind != 'x':
            n += 1
            es = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'set_remote_ip']
            ctx.ob(len(es) == 1, q, 'the address is taken when the response begins', path=p, key='taken')


def check(ctx):
    ctx.rule('start', 'each request begins with new buffers and no url')
    ctx.rule('records', 'one request and one response record of what was recorded')
    ctx.rule('filter', 'the filter is asked once, about both')
    ctx.rule('written', 'both are written once as a pair under the lock, or dropped')
    ctx.rule('released', 'the buffers are closed on every way out')
    ctx.rule('first-line', 'the url comes from the first line sent')
    ctx.rule('connect', 'a tunnel is remembered, not recorded')
    ctx.rule('url', 'the url is that of the request')
    ctx.rule('proxy', 'the proxy is noted')
    ctx.rule('own', 'request state belongs to one connection')
    ctx.rule('ip', 'the address of the server')
    for f in (check_start, check_done, check_url, check_own, check_ip):
        ctx.guarded(f)
