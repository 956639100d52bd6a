"""Obligations on every abstract path of the digest verifying reader (construction, start of the payload, read,
readline) and of the record loader that sets it up."""
from ..core import *
from .digests import *

PRS = 'warcio.recordloader:ArcWarcRecordLoader.parse_record_stream'
IT = 'warcio.archiveiterator:ArchiveIterator'
REC = 'warcio.recordloader:ArcWarcRecord'


def check_setup(ctx):
    s = slots(ctx)
    q = ctx.method(DVR, '__init__')
    for p in s.ctor:
        if p.kind == 'x':
            continue
        st = p.state
        made = {k: [] for k in KINDS}
        for e in new_digesters(p):
            for k in KINDS:
                if contains(e.arg(0, 'type_'), sym(HDR[k])):
                    made[k].append(e)
        revisit = any(k[0] == 'eq' and sym('record_type') in k[1:] and K('revisit') in k[1:] and v for k, v in st.lits.items())
        seg = 'T' in st.nullness(sym('segment_number'))
        noseg = 'T' not in st.nullness(sym('segment_number'))
        problems = [x for x in checker_evs(p, s) if x[0] == 'problem']
        nprob = len(problems)
        for k in KINDS:
            ctx.cur = 'digest-setup'
            attr = s.made.get(k)
            val = st.heap(SELF, attr) if attr else None
            have = [e for e in made[k] if val == e.result]
            if revisit or (k == 'payload' and seg):
                if have:
                    ctx.ob(False, have[0], 'the %s digest of a %s is not checked against this block' % (k, 'revisit' if revisit else 'segment'), path=p, key='skip:' + k)
                else:
                    ctx.ob(True, q, 'no %s digest check for revisit/segment records' % k)
                continue
            if 'T' not in st.nullness(sym(HDR[k])) or (k == 'payload' and not noseg and not have):
                continue
            if st.nullness(sym(HDR[k])) != T_ and not have:
                ctx.ob(False, q, 'a declared %s digest is set up' % k, path=p, key='setup:' + k)
                continue
            if have:
                a = have[0].arg(0, 'type_')
                good = a[0] == 'idx' and a[2] == ZERO
                ctx.ob(True if good else None, have[0], 'algorithm is the part before the colon of the declared %s digest' % k, path=p)
            else:
                # unknown algorithm or malformed: reported
                ctx.ob(nprob > 0, q, 'a %s digest that can not be checked is reported' % k, path=p, key='report:' + k)
    if s.fed.get('payload') and s.fed['payload'] != s.made.get('payload'):
        ctx.cur = 'payload-start'
        for p in s.ctor:
            if p.kind != 'x':
                v = p.state.heap(SELF, s.fed['payload'])
                ctx.ob(v is not None and 'T' not in p.state.nullness(v), q, 'nothing is fed to the payload digest before the payload starts', path=p, key='init')


def check_begin(ctx):
    s = slots(ctx)
    ctx.cur = 'payload-start'
    q = s.begin_q
    if not s.fed.get('payload') or not s.made.get('payload'):
        ctx.ob(False if s.made.get('payload') else None, q, 'payload bytes are fed to the payload digest', key='nofeed')
        return
    feed, obj = s.fed['payload'], s.made['payload']
    for p in s.begin:
        for e in p.events():
            if e.kind == 'call' and tail(e.name) in ('update', 'read', 'readline'):
                ctx.ob(False, e, 'starting the payload neither reads nor feeds data', path=p)
        if p.kind == 'x' or feed == obj:
            continue
        v = p.state.heap(SELF, feed)
        failed = any(x[0] == 'problem' for x in checker_evs(p, s))
        stored = [e for e in p.events() if e.kind == 'store' and e.recv == SELF and e.name == feed]
        ok = v == fld0(obj) or (v == NONE and failed and any(e.args[0] == fld0(obj) for e in stored)) or \
            ('T' not in p.state.nullness(fld0(obj)))
        ctx.ob(ok, q, 'from here on delivered bytes are fed to the payload digest', path=p, key='switch')


def check_feed(ctx):
    s = slots(ctx)
    n = 0
    for q, paths in s.read.items():
        for p in paths:
            got = [e for e in p.events() if e.kind == 'call' and tail(e.name) in ('read', 'readline') and self_fld(e.recv)]
            ups = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'update']
            ctx.cur = 'feed-exact'
            for k in KINDS:
                a = s.fed.get(k)
                if a is None:
                    ctx.ob(False if s.made.get(k) else None, q, 'delivered bytes are fed to the %s digest' % k, key='nofeed:' + k)
                    continue
                on = p.state.nullness(fld0(a))
                mine = [e for e in ups if e.recv == fld0(a)]
                if p.kind == 'x' and not mine:
                    continue
                datas = [mk_b(e.arg(0)) for e in mine]
                want = [e.result for e in got]
                if on == T_:
                    ctx.ob(datas == want, mine[0] if mine else q, 'every byte delivered is fed once, in order, to the %s digest' % k, path=p, key='feed:' + k)
                elif 'T' in on and want:
                    ctx.ob(bool(mine), q, 'bytes are delivered without asking for the %s digest' % k, path=p, key='feed:' + k)
                else:
                    ctx.ob(True, q, 'no %s digest to feed' % k)
                n += 1
            if p.kind != 'x':
                for e in ups:
                    if not any(e.arg(0) == g.result for g in got):
                        ctx.ob(False, e, 'only bytes read from the record are fed', path=p)


def mk_b(t):
    return t


def check_when(ctx):
    """comparison happens when, and only when, the record's last byte was delivered"""
    s = slots(ctx)
    if s.limit is None:
        ctx.ob(None, DVR, 'limit attribute not found', rule='compare-at-end')
        return
    todo = [(q, ps, 'read') for q, ps in s.read.items()] + [(s.begin_q, s.begin, 'begin')]
    for q, ps, how in todo:
        for p in ps:
            ctx.cur = 'compare-at-end'
            evts = checker_evs(p, s)
            lim = p.state.heap(SELF, s.limit) or fld0(s.limit)
            ln = p.state.nullness(lim)
            if how == 'read':
                got = any(e.kind == 'call' and tail(e.name) in ('read', 'readline') for e in p.events())
                if not got:
                    ctx.ob(not evts, evts[0][1] if evts else q, 'nothing delivered: verdict unchanged', path=p, key='idle')
                    continue
                end = {'block': 'E' in ln and 'T' not in ln, 'payload': 'E' in ln and 'T' not in ln}
                may = {k: 'E' in ln for k in KINDS}
            else:
                on = p.state.nullness(fld0(s.orig)) if s.orig else NET
                l0 = p.state.nullness(fld0(s.limit))
                end = {'block': 'T' not in on, 'payload': 'T' not in l0}
                may = {'block': True, 'payload': 'E' in l0}
            if p.kind == 'x':
                continue
            for k in KINDS:
                a = s.fed.get(k)
                if a is None:
                    continue
                d = fld0(a) if how == 'read' or k == 'block' else fld0(s.made.get(k))
                o = Outcome(p, d, fld0(s.expect.get(k)))
                if o.compared and not may[k]:
                    ctx.ob(False, q, 'the %s digest is compared before the end of the record' % k, path=p, key='early:' + k)
                elif end[k] and not o.off and not o.compared:
                    ctx.ob(False, q, 'the %s digest is compared at the end of the record' % k, path=p, key='miss:' + k)
                elif how == 'begin' and not o.compared and not o.off and 'E' in l0 and (k == 'payload' or 'E' in on):
                    ctx.ob(False, q, 'an empty %s is compared at once' % k, path=p, key='empty:' + k)
                else:
                    ctx.ob(True, q, '%s digest compared exactly at the end of the record' % k)
            if how == 'read' and 'E' not in ln:
                ctx.ob(not evts, evts[0][1] if evts else q, 'no verdict before the end of the record', path=p, key='early')
            elif how == 'read' and 'T' in ln:
                o = [Outcome(p, fld0(s.fed[k]), fld0(s.expect.get(k))) for k in KINDS if k in s.fed]
                if any(not x.off for x in o):
                    ctx.ob(False, q, 'whether the record ended is not asked', path=p, key='ask')


def hdr_get(t, name):
    t = core(t)
    return t is not None and t[0] == 'obs' and len(t[3]) >= 1 and is_k(t[3][0], 'str') and t[3][0][2].lower() == name


def check_loader(ctx):
    q = ctx.need(PRS)
    for p in ctx.run(q, self_cls='warcio.recordloader:ArcWarcRecordLoader'):
        if p.kind == 'x':
            continue
        st = p.state
        on = st.nullness(sym('check_digests'))
        readers = [e for e in p.events() if e.kind == 'new' and e.name == DVR]
        recs = [e for e in p.events() if e.kind == 'new' and e.name == REC]
        wraps = [e for e in p.events() if (e.kind == 'call' and e.name == 'wrap_stream') or (e.kind == 'new' and e.name == LIM)]
        if not recs:
            continue
        r = recs[-1]
        ctx.cur = 'reader-set-up'
        if not readers:
            off = 'T' not in on or any(k[0] == 'eq' and v and sym('check_digests') in k[1:] and
                                       (FALSE in k[1:] or NONE in k[1:]) for k, v in st.lits.items())
            if not wraps and not off:
                ln = r.arg(6)
                ctx.ob(ln is not None and st.nullness(ln) == N_, r, 'a record of known length is read through a limited stream', path=p, key='unlimited')
            elif not off and wraps:
                hs = [t for t in st.null if hdr_get(t, 'warc-payload-digest') or hdr_get(t, 'warc-block-digest')]
                names = {t[3][0][2].lower() for t in hs if 'T' not in st.null[t]}
                ctx.ob(len(names) == 2, q, 'a record with a declared digest is read through a verifying reader', path=p, key='absent')
            continue
        e = readers[0]
        ctx.ob(len(readers) == 1, e, 'one verifying reader per record', path=p, key='one')
        ctx.ob(any(e.arg(0, 'stream') == w.result for w in wraps), e, 'it reads the length-limited stream', path=p, key='stream')
        for n, h in (('payload_digest', 'warc-payload-digest'), ('block_digest', 'warc-block-digest'), ('segment_number', 'warc-segment-number')):
            ctx.ob(hdr_get(e.arg(None, n), h), e, '%s is the value of %s' % (n, h), path=p, key='arg:' + n)
        i = 1
        ctx.ob(e.arg(None, 'record_type') == r.arg(1, 'rec_type'), e, 'record type of the record', path=p, key='arg:type')
        ctx.ob(e.arg(2, 'digest_checker') == (r.kw or {}).get('digest_checker'), e, "the record's verdict is the one the reader sets", path=p, key='arg:checker')
        ctx.ob(r.arg(3) == e.result, r, 'the record delivers its block through the verifying reader', path=p, key='raw')
        lim = e.arg(1, 'limit')
        wl = [w.arg(1, 'content_length') or w.arg(1, 'limit') for w in wraps]
        ctx.ob(lim in wl, e, 'its limit is the length of the block', path=p, key='limit')
        ctx.cur = 'payload-marked'
        top = [x for x in p.events()]
        bp = [i for i, x in enumerate(top) if x.kind == 'call' and x.name == 'begin_payload' and x.recv == e.result]
        ctx.ob(len(bp) == 1, e, 'the start of the payload is marked exactly once', path=p, key='once')
        hp = [i for i, x in enumerate(top) if x.kind == 'call' and x.name == 'load_http_headers']
        if bp and hp:
            ctx.ob(bp[0] > max(hp), top[bp[0]], 'the payload starts after the http headers', path=p, key='order')
            ctx.ob(top[hp[-1]].arg(2, 'stream') == e.result, top[hp[-1]], 'http headers are read through the verifying reader', path=p, key='hdr')
        ck = [x for x in top if x.kind == 'new' and x.name == CHK]
        if ck:
            ctx.ob(ck[0].arg(0, 'kind') == sym('check_digests'), ck[0], 'reports in the mode asked for', path=p, key='kind')


def check_option(ctx):
    ctx.cur = 'option-passed'
    attr = None
    for p in ctx.run(IT, construct=True):
        if p.kind != 'x':
            for k, v in p.state.store.items():
                if k[0] == 'h' and k[1] == SELF and v == sym('check_digests'):
                    attr = k[2]
    from .iterslots import iter_slots
    n = 0
    for q in iter_slots(ctx).gens:
        for p in ctx.run(q, self_cls=IT, max_heads=80):
            for e in p.events():
                if e.kind == 'call' and e.name == 'parse_record_stream':
                    a = e.arg(5, 'check_digests')
                    n += 1
                    ctx.ob(attr is not None and core(a) is not None and is_fld(core(a), attr), e, 'the check_digests option reaches the loader', key='opt')
    ctx.ob(n > 0 or None, IT, 'records are parsed')


def check(ctx):
    ctx.rule('digest-setup', 'a declared digest gets a digester of its own algorithm, or is reported; none for revisits, no payload digest for segments')
    ctx.rule('payload-start', 'payload digester is fed from the start of the payload on, not before; starting it reads nothing')
    ctx.rule('feed-exact', 'on every path of read/readline each active digester receives exactly the bytes delivered, once')
    ctx.rule('compare-at-end', 'comparison on every path that exhausts the limit, on none that does not; at once for empty block/payload')
    ctx.rule('reader-set-up', 'the loader wraps the limited stream with the declared digests, type and verdict of the record')
    ctx.rule('payload-marked', 'begin_payload exactly once, after the http headers were read through the reader')
    ctx.rule('option-passed', 'the iterator hands its check_digests option to the loader')
    ctx.rule('digest-form', 'type:base32 of the hash of everything fed')
    from .c12 import check_digester
    for f in (check_setup, check_begin, check_feed, check_when, check_loader, check_option, check_digester):
        ctx.guarded(f)
