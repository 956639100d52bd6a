"""Obligations on every abstract path from the parsed header block to the record object, and of the http header
step."""
from ..core import *
from .util import *
from .c05 import hdr_get, PRS, REC
from .iterslots import iter_slots, IT

ARC = 'warcio.recordloader:ARCHeadersParser'
A2W = 'warcio.recordloader:ARC2WARCHeadersParser'
LHH = LD + '.load_http_headers'


def prs_paths(ctx, cls):
    m, _ = parsers(ctx)
    return ctx.run(ctx.need(PRS), self_cls=LD, types={('fld', SELF, m.get('arc', 'arc_parser'), 0): cls}, raise_pred=parse_raises)


def on_attr(e, attr):
    return attr is not None and core(e.recv) is not None and is_fld(core(e.recv), attr) and core(e.recv)[1] == SELF


def field(p, obj, name):
    return p.state.heap(obj, name)


def conv(name, t):
    """int(x) atoms of a term: the x"""
    out = []
    for a in coeffs(t)[1]:
        if a[0] == 'op' and a[1] == 'int':
            out.append(a[2][0])
    return out


def check_parsers(ctx):
    m, ps = parsers(ctx)
    q = ctx.method(LD, '__init__')
    ctx.cur = 'parsers'
    want = {'warc': ['WARC/1.0', 'WARC/1.1'], 'response': ['HTTP/1.0', 'HTTP/1.1'],
            'request': ['GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'TRACE', 'OPTIONS', 'CONNECT', 'PATCH']}
    for p in ps:
        new = {e.result: e for e in p.events() if e.kind == 'new'}
        a2w = truthy(p.state, sym('arc2warc'))
        for k in ('warc', 'response', 'request'):
            if k not in m:
                ctx.ob(None, q, 'parser for %s headers not found' % k)
                continue
            e = new.get(p.state.heap(SELF, m[k]))
            if e is None or e.name != SHP:
                ctx.ob(None, q, 'parser for %s headers' % k)
                continue
            ss = const_strs(e.arg(0, 'statuslist'))
            if ss is None:
                ctx.ob(None, e, 'start lines of %s headers' % k)
                continue
            ctx.ob(all(x in ss for x in want[k]), e, 'the %s parser recognises %s' % (k, ', '.join(want[k])), path=p, key='list:' + k)
            v = e.arg(1, 'verify')
            if k == 'warc':
                ctx.ob(v is None or v == TRUE, e, 'WARC version lines are verified', path=p, key='verify:warc')
            else:
                ctx.ob(v == sym('verify_http'), e, 'verify_http decides whether http start lines are verified', path=p, key='verify:' + k)
        if 'arc' in m:
            e = new.get(p.state.heap(SELF, m['arc']))
            if e is not None and a2w is not None:
                ctx.ob(e.name == (A2W if a2w else ARC), e, 'arc2warc chooses the converting parser', path=p, key='arc')


def target_uri(ctx, p, e, h):
    """the uri handed to the http step, for a WARC header"""
    st = p.state
    u = e.arg(1, 'uri')
    gets = [t for t in subterms(u) if hdr_get(t, 'warc-target-uri') and t[2] == h]
    reps = [x for x in calls(p, 'replace_header') if x.recv == h and is_k(x.arg(0), 'str') and x.arg(0)[2].lower() == 'warc-target-uri']
    if is_k(u) and any(hdr_get(t, 'warc-target-uri') and t[2] == h and 'T' not in n for t, n in st.null.items()):
        return ctx.ob(True, e, 'no uri')
    if not gets:
        return ctx.ob(False, e, 'http headers are looked for according to the WARC-Target-URI', path=p, key='uri')
    base = gets[0]
    if base == u and base[4] and reps:
        u = reps[-1].arg(1)          # read back after the correction
        gets = [t for t in subterms(u) if hdr_get(t, 'warc-target-uri')]
        base = gets[0] if gets else base
    sliced = [t for t in subterms(u) if t[0] == 'slice' and t[1] == base]
    spaced = [t for t in subterms(u) if t[0] == 'm' and t[1] == 'replace' and t[3] == (K(' '), K('%20'))]
    if 'T' not in st.nullness(base):
        return ctx.ob(u == base, e, 'nothing to correct', path=p, key='uri')
    known = u == base or all(t[0] in ('slice', 'm', 'obs') for t in [u])
    lt = cond_known(st, lambda t: t[0] == 'm' and t[1] == 'startswith' and t[2] == base and t[3] == (K('<'),))
    gt = cond_known(st, lambda t: t[0] == 'm' and t[1] == 'endswith' and t[2] == base and t[3] == (K('>'),))
    sp = cond_known(st, lambda t: t[0] == 'op' and t[1] == 'in' and t[2][0] == K(' ') and contains(t[2][1], base))
    ctx.cur = 'uri-corrected'
    if not lt and not gt and u == base and not any(contains(k, base) and k[0] in ('cond', 'eq') for k in st.lits) and 'T' in st.nullness(base) \
            and 'N' not in st.nullness(base):
        ctx.ob(False, e, 'an enclosing <> is looked for', path=p, key='ask<')
    if lt == {True} and gt == {True}:
        ctx.ob(bool(sliced) and all(t[2:] == (K(1), K(-1), NONE) for t in sliced), e, 'an enclosing <> is removed from the uri', path=p, key='strip')
    elif lt == {False} or gt == {False}:
        ctx.ob(not sliced, e, 'only an enclosing <> is removed', path=p, key='strip-only')
    elif any(t[0] == 'm' and t[1] in ('strip', 'lstrip', 'rstrip') and t[2] == base and any(is_k(a, 'str') and set(a[2]) & set('<>') for a in t[3]) for t in subterms(u)):
        ctx.ob(False, e, 'only an enclosing <> is removed', path=p, key='strip-only')
    elif sliced and (lt or gt) and not any(x[0] in ('idx', 'slice') and x[1] == base and x not in sliced for k in st.lits for y in k[1:]
                                           if isinstance(y, tuple) for x in subterms(y)):
        ctx.ob(False, e, 'only an enclosing <> is removed', path=p, key='strip-only')
    if sp == {True}:
        ctx.ob(bool(spaced), e, 'spaces in the uri are percent-encoded', path=p, key='space')
    elif not sp and not spaced and 'N' not in st.nullness(base) and 'T' in st.nullness(base) and u[0] in ('obs', 'slice'):
        ctx.ob(False, e, 'spaces are looked for in the uri', path=p, key='ask ')
    if u != base and known:
        same = any(k[0] == 'eq' and v and {core(k[1]), core(k[2])} == {core(u), core(base)} for k, v in st.lits.items() if len(k) == 3)
        ctx.ob(same or bool(reps) and reps[-1].arg(1) == u, reps[-1] if reps else e, 'the corrected uri is put back into the header', path=p, key='putback')
    ctx.ob(True, e, 'uri of the record')


def check_record(ctx):
    q = ctx.need(PRS)
    m, _ = parsers(ctx)
    for cls in (ARC, A2W):
        for p in prs_paths(ctx, cls):
            st = p.state
            tries = [e for e in p.events() if e.kind == 'call' and e.name == 'parse' and (on_attr(e, m.get('warc')) or on_attr(e, m.get('arc')))]
            ctx.cur = 'format'
            if p.kind == 'x':
                ty = exc_types(p.value)
                if tries and ty and any('StatusAndHeadersParserException' in x for x in ty) and not calls(p, 'load_http_headers'):
                    ctx.ob(False, q, 'a header that is neither WARC nor ARC is reported as ArchiveLoadFailed', path=p, key='unrecognised')
                continue
            recs = news(p, REC)
            if not recs:
                ctx.ob(False, q, 'a record is returned', path=p, key='none')
                continue
            r = recs[-1]
            ctx.ob(p.value == r.result, r, 'the record built is returned', path=p, key='ret')
            o = r.result
            h = field(p, o, 'rec_headers')
            good = [e for e in tries if e.result == h and not e.raised]
            if not good:
                ctx.ob(False if tries else None, r, 'the record keeps the header block that was parsed', path=p, key='headers')
                continue
            g = good[0]
            iswarc = on_attr(g, m.get('warc'))
            # order and restriction of the attempts
            kf = sym('known_format')
            for i, e in enumerate(tries):
                w = on_attr(e, m.get('warc'))
                ctx.ob(e.arg(0, 'stream') == sym('stream'), e, 'headers are read from the stream given', path=p, key='stream')
                line = e.arg(1, 'statusline') or e.arg(1, 'headerline')
                if i == 0:
                    ctx.ob(line == sym('statusline'), e, 'a line already read is the first header line', path=p, key='line')
                else:
                    okline = line is not None and is_fld(line, 'statusline') and line[1][0] == 'exc'
                    ctx.ob(okline, e, 'the second format is tried with the line already read', path=p, key='line2')
                other = eq_known(st, kf, K('arc' if w else 'warc'))
                ctx.ob(other is False, e, 'known_format restricts the formats tried', path=p, key='known:' + ('warc' if w else 'arc'))
                if not w and i == 0:
                    ctx.ob(eq_known(st, kf, K('arc')) is True, e, 'WARC is tried first', path=p, key='first')
            fmt = field(p, o, 'format')
            arc = not iswarc and cls == ARC
            ctx.ob(fmt == K('arc' if arc else 'warc'), r, 'format of the record is %s' % ('arc' if arc else 'warc'), path=p, key='format')
            # type
            ctx.cur = 'type-and-headers'
            ty = field(p, o, 'rec_type')
            if arc:
                fd = cond_known(st, lambda t: any(is_k(x, 'str') and x[2].startswith('filedesc:') for x in subterms(t)))
                uget = [t for t in st.null if hdr_get(t, 'uri') and t[2] == h]
                if fd == {True}:
                    ctx.ob(ty == K('arc_header'), r, 'filedesc:// is the ARC file header', path=p, key='arctype')
                elif fd == {False} or (not fd and uget and all('T' not in st.nullness(t) for t in uget)):
                    ctx.ob(ty == K('response'), r, 'other ARC records are responses', path=p, key='arctype2')
                elif not fd and is_k(ty):
                    ctx.ob(False, r, 'the ARC file header is told from responses', path=p, key='arctype3')
            else:
                ctx.ob(hdr_get(ty, 'warc-type') and ty[2] == h, r, 'record type is the WARC-Type header', path=p, key='type')
            ct = field(p, o, 'content_type')
            ctx.ob(hdr_get(ct, 'content-type') and ct[2] == h, r, 'content type is the Content-Type header', path=p, key='ctype')
            # length
            ctx.cur = 'length'
            ln = field(p, o, 'length')
            name = 'length' if arc else 'content-length'
            c, d = coeffs(ln) if ln is not None else (0, {})
            gets = [t for t in st.null if hdr_get(t, name) and t[2] == h]
            absent = bool(gets) and all(st.nullness(t) == N_ for t in gets)
            maybe_absent = not gets or any('N' in st.nullness(t) for t in gets)
            bad = any(e.kind == 'catch' and (exc_types(e.args[0]) or set()) & {'ValueError', 'TypeError'} for e in p.events())
            ints = conv('int', ln) if ln is not None else []
            if absent:
                ctx.ob(st.nullness(ln) == N_, r, 'length is unknown when the header has none', path=p, key='absent')
            elif ints:
                atoms = {a: n for a, n in d.items()}
                tot = [a for a in atoms if is_fld(a, 'total_len') and a[1] == h]
                form = c == 0 and sum(1 for a in atoms if a[0] == 'op' and a[1] == 'int' and atoms[a] == 1) == 1 and \
                    all(hdr_get(x, name) and x[2] == h for x in ints) and \
                    ((iswarc and len(atoms) == 1) or (not iswarc and len(atoms) == 2 and len(tot) == 1 and atoms[tot[0]] == -1))
                ctx.ob(form, r, 'length is the declared length%s' % ('' if iswarc else ' less the header lines it includes'), path=p, key='value')
                ctx.ob(st.prove_le(lin_scale(ln, -1)), r, 'a negative length counts as empty', path=p, key='negative')
            elif ln == ZERO:
                neg = any(conv('int', t) and st.prove_le(lin_add(t, K(1))) for t in length_terms(st, h, name))
                zero = any(conv('int', t) and 'T' not in st.nullness(t) for t in length_terms(st, h, name))
                nul = any('T' not in st.nullness(t) for t in gets)
                ctx.ob(bad or neg or zero or nul, r, 'only a negative or malformed length counts as empty', path=p, key='zero')
            elif ln is not None and st.nullness(ln) == N_:
                ctx.ob(False, r, 'a declared length is not ignored', path=p, key='ignored')
            else:
                ctx.ob(None, r, 'length %s' % show(ln)[:80])
            # http step
            ctx.cur = 'http-step'
            ev = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'load_http_headers']
            off = truthy(st, sym('no_record_parse'))
            hh = field(p, o, 'http_headers')
            if off is True:
                ctx.ob(not ev, ev[0] if ev else q, 'no http parsing when asked for none', path=p, key='off')
            else:
                ctx.ob(len(ev) == 1 and off is False, ev[0] if ev else q, 'http headers are looked for once unless switched off', path=p, key='once')
            for e in ev:
                ctx.ob(e.arg(0, 'rec_type') == ty, e, 'by record type', path=p, key='a0')
                ctx.ob(e.arg(2, 'stream') == field(p, o, 'raw_stream'), e, "from the record's own stream", path=p, key='a2')
                a3 = e.arg(3, 'length')
                ctx.ob(a3 == ln or st.nullness(a3) == st.nullness(ln) == N_, e, 'with its length', path=p, key='a3')
                if arc:
                    u = e.arg(1, 'uri')
                    ctx.ob(hdr_get(u, 'uri') and u[2] == h, e, 'by uri', path=p, key='uri')
                else:
                    target_uri(ctx, p, e, h)
                    ctx.cur = 'http-step'
            dflt = news(p, SAH)
            ens = truthy(st, sym('ensure_http_headers'))
            got = ev[0].result if len(ev) == 1 else NONE
            if truthy(st, got) is False and (ens is not False or dflt):
                ctx.ob(bool(dflt) and hh == dflt[-1].result and ens is True, r, 'default http headers are provided when asked for', path=p, key='ensure')
            elif truthy(st, got) is True or ens is False:
                ctx.ob(hh == got or (is_k(got) and st.nullness(hh) == N_), r, 'http headers of the record are those parsed', path=p, key='hh')
            if dflt and hh == dflt[-1].result:
                default_headers(ctx, p, dflt[-1], ct, ln)
            # payload length
            ctx.cur = 'payload-length'
            pl = field(p, o, 'payload_length')
            tells = calls(p, 'tell', field(p, o, 'raw_stream'))
            order = [e for e in p.events() if e in tells or e in ev]
            before = [e for e in order[:order.index(ev[0])]] if ev else []
            after = [e for e in order[order.index(ev[0]) + 1:]] if ev else []
            lt = truthy(st, ln) if ln is not None else None
            if ev and truthy(st, got) is None:
                pass
            elif ev and is_none(st, got) is False and lt is True:
                want = None
                for a in before:
                    for b in after:
                        taken = lin_add(lin_add(ln, b.result, -1), a.result)
                        if pl == taken:
                            want = True
                        # (never: no more than the length is read)
                        if pl == ln and st.prove_le(lin_add(taken, K(1))):
                            want = True
                ctx.ob(bool(want), r, 'payload length is the length less the http headers read', path=p, key='parsed')
            elif pl is not None and any(x.result in coeffs(pl)[1] for x in tells):
                ctx.ob(None, r, 'payload length %s' % show(pl)[:60])
            elif dflt and hh == dflt[-1].result and is_none(st, ln) is False:
                ctx.ob(pl == ln, r, 'payload length is the whole length when the http headers were made up', path=p, key='made')
            elif ev and lt is True and 'E' in st.nullness(got) and pl == K(-1):
                ctx.ob(False, r, 'an empty block of http headers was read too', path=p, key='empty')
            else:
                ctx.ob(pl == K(-1), r, 'payload length is unknown without http headers', path=p, key='unknown')


def length_terms(st, h, name):
    out = set()
    for t in list(st.null) + list(st.nums):
        for x in subterms(t):
            if (x[0] == 'lin' or (x[0] == 'op' and x[1] == 'int')) and any(hdr_get(y, name) and y[2] == h for y in subterms(x)):
                x = lin_add(x, K(-lin_parts(x)[0]))
                out.add(x)
                out.add(lin_scale(x, -1))
    return out


def default_headers(ctx, p, e, ct, ln):
    st = p.state
    ctx.cur = 'default-headers'
    sl = e.arg(0, 'statusline')
    pr = e.arg(2, 'protocol')
    ctx.ob(is_k(sl, 'str') and sl[2].startswith('200') and is_k(pr, 'str') and pr[2].startswith('HTTP/'), e, 'made-up headers say 200', path=p, key='200')
    v = e.arg(1, 'headers')
    items = st.heap(v, '@items') if v is not None and v[0] == 'obj' else v
    if items is None or items[0] not in ('lst', 'tup'):
        return ctx.ob(None, e, 'made-up headers')
    pairs = {}
    for x in items[1]:
        if x[0] == 'tup' and len(x[1]) == 2 and is_k(x[1][0], 'str'):
            pairs[x[1][0][2].lower()] = x[1][1]
    if truthy(st, ct) is True:
        ctx.ob(pairs.get('content-type') == ct, e, "made-up Content-Type is the record's", path=p, key='ct')
    if is_none(st, ln) is False:
        cl = pairs.get('content-length')
        ctx.ob(cl is not None and contains(cl, ln) or cl == K('0') == K(str(ln[2]) if is_k(ln) else None), e, "made-up Content-Length is the record's", path=p, key='cl')
    elif is_none(st, ln) is True:
        ctx.ob('content-length' not in pairs, e, 'no made-up Content-Length for an unknown length', path=p, key='nocl')


def check_http(ctx):
    q = ctx.method(LD, 'load_http_headers')
    m, _ = parsers(ctx)
    ty, uri, ln = sym('rec_type'), sym('uri'), sym('length')
    schemes = set()
    for p in ctx.run(q, self_cls=LD, inline={q}, raise_pred=parse_raises):
        st = p.state
        ps = [e for e in p.events() if e.kind == 'call' and e.name == 'parse']
        ctx.cur = 'http-parse'
        zero = any('E' in st.nullness(ln) and 'T' not in st.nullness(ln) and 'N' not in st.nullness(ln) for _ in [0]) or eq_known(st, ln, ZERO) is True
        isreq, isresp, isrev = (eq_known(st, ty, K(x)) for x in ('request', 'response', 'revisit'))
        types = [isreq, isresp, isrev]
        member = cond_known(st, lambda t: t[0] == 'op' and t[1] == 'in' and t[2][0] == ty)
        wanted = [t for t in st.lits if t[0] == 'cond' and t[1][0] == 'op' and t[1][1] == 'in' and t[1][2][0] == ty]
        for t in wanted:
            ss = const_strs(t[1][2][1])
            if ss is not None:
                ctx.ob(set(ss) == {'response', 'request', 'revisit'}, q, 'response, request and revisit records have http headers', key='types')
        known = isreq is True or isresp is True or isrev is True or member == {True}
        none = all(x is False for x in types) or member == {False}
        sch = cond_known(st, lambda t: t[0] == 'm' and t[1] == 'startswith' and core(t[2]) in (uri,) or
                         (t[0] == 'm' and t[1] == 'startswith' and contains(t[2], uri)))
        for k in st.lits:
            if k[0] == 'cond' and k[1][0] == 'm' and k[1][1] == 'startswith' and contains(k[1][2], uri):
                a = k[1][3][0] if k[1][3] else None
                ss = const_strs(a) or ([a[2]] if a is not None and is_k(a, 'str') else None)
                if ss is not None:
                    ctx.ob(all(x.lower().startswith('http') and not 'https://x'.startswith(x + 'x') and ('http://'.startswith(x) or 'https://'.startswith(x))
                               for x in ss), q, 'http headers are looked for under http(s) uris', key='scheme')
                    schemes.update(ss)
        if ps:
            e = ps[0]
            ctx.ob(len(ps) == 1, e, 'headers are parsed once', path=p, key='one')
            ctx.ob(e.arg(0, 'stream') == sym('stream') and e.arg(1, 'statusline') in (None, NONE), e, "from the record's stream", path=p, key='stream')
            ctx.ob('E' not in st.nullness(ln), e, 'an empty record has no http headers', path=p, key='empty')
            ctx.ob(known, e, 'only response, request and revisit records have http headers', path=p, key='type')
            ctx.ob(True in sch, e, 'only http(s) uris have http headers', path=p, key='uri')
            want = 'request' if isreq is True else 'response' if isreq is False else None
            if want is None:
                ctx.ob(False, e, 'requests are told from responses', path=p, key='which')
            elif want in m:
                ctx.ob(on_attr(e, m[want]), e, '%s headers are parsed as such' % want, path=p, key='parser:' + want)
            ctx.cur = 'http-errors'
            if e.raised:
                sw = p.kind != 'x'
                if sw:
                    eof = any(c.kind == 'catch' and (exc_types(c.args[0]) or {'*'}) <= {'EOFError'} for c in p.events())
                    ctx.ob(isrev is True and eof, e, 'only the missing headers of a revisit are tolerated', path=p, key='swallow')
                    ctx.ob(st.nullness(p.value) == N_, e, 'no http headers then', path=p, key='none')
                else:
                    t = exc_types(p.value)
                    if t and 'EOFError' in t:
                        ctx.ob(isrev is not True, e, 'a revisit without http headers is fine', path=p, key='revisit')
            else:
                ctx.ob(p.value == e.result, e, 'the headers parsed are returned', path=p, key='ret')
        elif p.kind != 'x':
            why = zero or none or 'T' not in st.nullness(uri) or (False in sch and True not in sch) or st.nullness(ln) == E_
            ctx.ob(why, q, 'http headers are parsed whenever length, type and uri allow', path=p, key='skipped')
            ctx.ob(st.nullness(p.value) == N_, q, 'no http headers otherwise', path=p, key='noneret')
    if schemes:
        ctx.ob(any('http://'.startswith(x) for x in schemes) and any('https://'.startswith(x) for x in schemes), q, 'both http: and https: uris', key='scheme2')


def check_iter(ctx):
    s = iter_slots(ctx)
    q = ctx.method(IT, '__init__')
    ctx.cur = 'options-passed'
    sl, ps = ctx.slots(IT)
    for p in ps:
        if p.kind == 'x':
            continue
        made = [e for e in p.events() if e.kind == 'new' and e.name == LD]
        ctx.ob(bool(made), q, 'the iterator makes its loader', path=p, key='loader')
        for e in made:
            for n, i in (('verify_http', 0), ('arc2warc', 1)):
                ctx.ob(e.arg(i, n) == sym(n), e, '%s reaches the loader' % n, path=p, key=n)
    names = {'no_record_parse': 3, 'ensure_http_headers': 4}
    kfs = set()
    n = 0
    for g in s.gens:
        for p in ctx.run(g, self_cls=IT, max_heads=80):
            for e in p.events():
                if e.kind == 'call' and e.name == 'parse_record_stream':
                    n += 1
                    for nm, i in names.items():
                        a = core(e.arg(i, nm))
                        ctx.ob(nm in sl and a is not None and is_fld(a, sl[nm]), e, '%s reaches the loader' % nm, key=nm)
                    a = core(e.arg(2, 'known_format'))
                    if a is not None and is_fld(a):
                        kfs.add(a[2])
                    elif a is None or a == NONE:
                        ctx.ob(False, e, 'the format known so far is passed on', key='known')
    ctx.ob(n > 0 or None, IT, 'records are parsed')
    for cls, v in (('WARCIterator', 'warc'), ('ARCIterator', 'arc')):
        c = IT.rsplit(':', 1)[0] + ':' + cls
        if c not in ctx.prog.classes:
            raise AnalysisBroken('public class %s is gone' % cls)
        if len(kfs) != 1:
            continue
        a = list(kfs)[0]
        for p in ctx.run(c, construct=True, inline={IT + '.__init__'}):
            if p.kind != 'x':
                ctx.ob(p.state.heap(SELF, a) == K(v), c, '%s accepts only %s' % (cls, v), path=p, key='fmt:' + v)


def check(ctx):
    ctx.rule('parsers', 'start lines recognised by the WARC, http response and http request parsers; verify_http and arc2warc choose')
    ctx.rule('format', 'WARC first, then ARC with the line already read; known_format restricts; anything else is ArchiveLoadFailed')
    ctx.rule('type-and-headers', 'record type, header block and content type come from the parsed header')
    ctx.rule('uri-corrected', 'enclosing <> and spaces of WARC-Target-URI are corrected, in the header too')
    ctx.rule('length', 'length is the declared length (less included header lines for ARC), None without, 0 when malformed')
    ctx.rule('http-step', 'http headers are looked for once, unless switched off, with type, uri, stream and length of the record')
    ctx.rule('default-headers', 'made-up http headers have the type and length of the record')
    ctx.rule('payload-length', 'payload length is the length less the bytes of the http headers')
    ctx.rule('http-parse', 'http headers are parsed exactly for non-empty request/response/revisit records with http(s) uris, by the right parser')
    ctx.rule('http-errors', 'only missing http headers of a revisit are tolerated')
    ctx.rule('options-passed', 'options of the iterator reach the loader')
    for f in (check_parsers, check_record, check_http, check_iter):
        ctx.guarded(f)
