"""warcio recompress: both passes and the way from one to the other, on every abstract path including every exception."""
import re
from ..core import *
from .util import *
from ..interp import Undecided
from ..engine import BOUNDARY

RC = 'warcio.recompressor:Recompressor'
READS = {'read', 'readline', 'readlines', 'content_stream', 'readinto', 'close', 'add_header', 'replace_header', 'remove_header', 'read_to_end'}


def quiet_calls(name, recv, excs, eng):
    if tail(name) in ('print', 'print_exc', 'str', 'repr', 'format_exc'):
        return False
    return None


def rc_paths(ctx):
    if not hasattr(ctx, '_rc'):
        q = ctx.method(RC, 'recompress')
        ctx._rc = (q, ctx.run(q, self_cls=RC, raise_pred=quiet_calls))
    return ctx._rc


def evl_of(p):
    return [e for e in flat(p.items) if isinstance(e, Event) and e.kind not in ('begin', 'end')]


def opens(evl, attr):
    return [e for e in evl if e.kind == 'call' and tail(e.name) in ('fsspec_open', 'open', 'open_or_default') and e.args and is_fld(core(e.args[0]), attr) and core(e.args[0])[1] == SELF]


def flag(e, pos, name, default):
    v = e.arg(pos, name)
    if v is None:
        return default
    return truthy(e.state, v)


def check_setup(ctx):
    q, ps = rc_paths(ctx)
    n = 0
    given = ctx.slots(RC)[0]
    for p in ps:
        evl = evl_of(p)
        for i, e in enumerate(evl):
            if e.kind == 'new' and tail(e.name) == 'WARCWriter':
                ctx.cur = 'output'
                n += 1
                fb = e.arg(0, 'filebuf')
                src = [o for o in opens(evl[:i], 'output') if not o.raised]
                ctx.ob(True if src and core(fb) == src[-1].result else False if fb is None or not src else None, e, 'the output file is what is written', path=p, key='file')
                if src:
                    m = src[-1].arg(1, 'mod')
                    ok = is_k(m, 'str') and 'w' in m[2] and 'b' in m[2] if m is not None else False
                    ctx.ob(ok if m is None or is_k(m) else None, src[-1], 'from its beginning', path=p, key='mode')
                    gone = [x for x in evl[evl.index(src[-1]):i] if x.kind == 'exit' and x.recv == src[-1].result]
                    ctx.ob(not gone, e, 'while it is open', path=p, key='open')
                ctx.ob(flag(e, 1, 'gzip', True), e, 'compressed record by record', path=p, key='gzip')
            elif e.kind == 'new' and tail(e.name) == 'ArchiveIterator':
                ctx.cur = 'input'
                v = flag(e, 3, 'arc2warc', False)
                ctx.ob(False if v is None and varies(e.arg(3, 'arc2warc'), given) else v, e, 'ARC records are converted', path=p, key='arc')
                plain_iterator(ctx, e, p)
                v = flag(e, 2, 'verify_http', True)
                ctx.ob(None if v is None else not v, e, 'malformed http headers do not keep a record from being copied', path=p, key='http')
                v = flag(e, 1, 'no_record_parse', False)
                ctx.ob(None if v is None else not v, e, 'records are parsed', path=p, key='parse')
    ctx.cur = 'output'
    ctx.ob(n > 0, q, 'the output file is written', key='none')


def check_copy(ctx):
    q, ps = rc_paths(ctx)
    ctx.cur = 'each-record'
    done = set()
    n = 0
    for p in ps:
        evl = evl_of(p)
        its = {e.result for e in evl if e.kind == 'new' and tail(e.name) == 'ArchiveIterator'}
        ws = {e.result for e in evl if e.kind == 'new' and tail(e.name) == 'WARCWriter'}
        for seg in segments(p.items, done):
            end = seg[-1] if seg and isinstance(seg[-1], SegEnd) else None
            sl = [e for e in seg if isinstance(e, Event)]
            for k, nx in enumerate(sl):
                if nx.kind != 'next' or core(nx.recv) not in its or nx.raised:
                    continue
                n += 1
                rest = sl[k + 1:]
                rec = nx.result
                wr = [e for e in rest if e.kind == 'call' and tail(e.name) == 'write_record']
                threw = [e for e in rest if e.raised or e.kind in ('raise', 'catch')]
                if wr and wr[0].raised:
                    continue
                if end is None and threw and not wr:
                    continue    # a failure before the record is written: second pass
                if end is not None or wr:
                    ok = len(wr) == 1 and core(wr[0].recv) in ws and wr[0].args and core(wr[0].args[0]) == core(rec)
                    ctx.ob(ok, wr[0] if wr else nx, 'each record is written, once', path=p, key='once')
                if end is None and not threw:
                    ctx.ob(False, nx, 'the copy goes on to the next record', path=p, key='leaves')
                touched = [e for e in rest if (e.kind == 'store' and e.recv is not None and root_of(e.recv) == core(rec)) or
                           (e.kind == 'call' and e.recv is not None and root_of(e.recv) == core(rec) and tail(e.name) in READS)]
                ctx.ob(not touched, touched[0] if touched else nx, 'as it was read', path=p, key='touched')
                caught = [e for e in rest if e.kind == 'catch']
                if end is not None:
                    ctx.ob(not caught, caught[0] if caught else nx, 'a record that cannot be written is not skipped', path=p, key='skipped')
    ctx.ob(n > 0, q, 'the records are copied', key='none')


def root_of(t):
    t = core(t)
    while t is not None and t[0] == 'fld':
        t = core(t[1])
    return t


def check_second(ctx):
    q, ps = rc_paths(ctx)
    ctx.cur = 'second-pass'
    n = 0
    for p in ps:
        evl = evl_of(p)
        its = [e for e in evl if e.kind == 'new' and tail(e.name) == 'ArchiveIterator']
        stream = [o.result for o in opens(evl, 'filename') if not o.raised]
        if not its or not stream:
            continue
        e = its[-1]
        i = evl.index(e)
        f0 = [k for k, x in enumerate(evl) if x.kind == 'enter' and x.recv == stream[0]]
        f0 = f0[0] if f0 else 0
        failed = [x for x in evl[f0:i] if x.kind == 'catch']
        if not failed:
            ctx.ob(True if core(e.arg(0, 'fileobj')) == stream[0] else None, e, 'the input file is read', path=p, key='first')
            continue
        n += 1
        src = core(e.arg(0, 'fileobj'))
        dec = [x for x in evl[f0:i] if x.kind == 'new' and tail(x.name) in ('DecompressingBufferedReader', 'BufferedReader')]
        tmp = {x.result for x in evl[f0:i] if x.kind == 'call' and tail(x.name) in ('TemporaryFile', 'SpooledTemporaryFile', 'NamedTemporaryFile', 'BytesIO')}
        copies = [x for x in evl[f0:i] if x.kind == 'call' and tail(x.name) == 'copyfileobj' and not x.raised]
        if src == stream[0]:
            ctx.ob(False, e, 'the second pass reads the decompressed input', path=p, key='src')
            continue
        if not copies or not dec or src not in tmp:
            ctx.ob(False if not dec else None, e, 'the second pass reads the decompressed input', path=p, key='dec')
            continue
        c, d = copies[-1], dec[-1]
        ci = evl.index(c)
        a = [core(x) for x in c.args]
        ctx.ob(a[:2] == [d.result, src], c, 'all of the decompressed input is copied for the second pass', path=p, key='copy')
        if len(c.args) > 2 or c.kw:
            pass    # buffer size
        ctx.ob(core(d.arg(0, 'stream')) == stream[0], d, 'it is the input that is decompressed', path=p, key='in')
        ctx.ob(flag(d, 6, 'read_all_members', False) if 'read_all_members' in (d.kw or {}) or len(d.args or []) > 4 else False, d, 'every gzip member of it', path=p, key='members')
        # position of the input: 0 when the copy begins
        mv = [x for x in evl[f0:ci] if x.kind == 'call' and core(x.recv) == stream[0] and tail(x.name) in ('seek', 'read', 'readline')]
        ctx.ob(bool(mv) and tail(mv[-1].name) == 'seek' and rewinds(mv[-1]), mv[-1] if mv else c, 'from its beginning', path=p, key='rewind')
        early = [x for x in evl[f0:ci] if x.kind == 'call' and core(x.recv) == d.result and tail(x.name) in ('read', 'readline') and (not mv or evl.index(x) < evl.index(mv[-1]))]
        ctx.ob(not early, early[0] if early else d, 'nothing is decompressed before that', path=p, key='early')
        # position of the copy
        mv = [x for x in evl[ci:i] if x.kind == 'call' and core(x.recv) == src and tail(x.name) in ('seek', 'read', 'truncate', 'write')]
        ctx.ob(bool(mv) and tail(mv[-1].name) == 'seek' and rewinds(mv[-1]) and not [x for x in mv if tail(x.name) == 'truncate'], mv[-1] if mv else c, 'the copy is read from its beginning', path=p, key='copy-rewind')
        gone = [x for x in evl[ci:i] if x.kind in ('exit', 'call') and core(x.recv) == src and (x.kind == 'exit' or tail(x.name) == 'close')]
        ctx.ob(not gone, e, 'while it is open', path=p, key='copy-open')
    ctx.ob(n > 0, q, 'a failure while copying leads to a second pass over the decompressed input', key='none')


def rewinds(e):
    a = [core(x) for x in e.args]
    return a in ([K(0)], [K(0), K(0)])


def check_status(ctx):
    q, ps = rc_paths(ctx)
    for p in ps:
        ctx.cur = 'status'
        evl = evl_of(p)
        its = [e for e in evl if e.kind == 'new' and tail(e.name) == 'ArchiveIterator']
        ex = [e for e in evl if e.kind == 'call' and tail(e.name) in ('exit', '_exit')]
        if p.kind == 'x':
            continue
        threw = [e for e in evl if e.raised]
        en = [k for k, e in enumerate(evl) if e.kind == 'enter' and is_input(e, evl)]
        if en:
            r = [k for k, e in enumerate(evl) if e.raised and k > en[0]]
            if r and not [e for e in evl[:r[0]] if e.kind == 'stop' and its and core(e.recv) in {x.result for x in its}]:
                again = [e for e in evl[r[0] + 1:] if e.raised and e.kind != 'exit' or e.kind == 'new' and tail(e.name) in ('DecompressingBufferedReader', 'ArchiveIterator')]
                ctx.ob(bool(again), evl[r[0]], 'whatever fails in the first pass, the second is tried', path=p, key='tried')
        if ex:
            a = ex[0].args
            t = truthy(ex[0].state, a[0]) if a else False
            ctx.ob(t, ex[0], 'a failure ends with a non-zero status', path=p, key='nonzero')
            ctx.ob(bool(threw), ex[0], 'only a failure does', path=p, key='spurious')
            continue
        ok = bool(its)
        if ok:
            i = evl.index(its[-1])
            stops = [k for k, e in enumerate(evl) if k > i and e.kind == 'stop' and core(e.recv) == its[-1].result]
            after = [e for e in evl[i:] if e.raised]
            ok = bool(stops) and not after
        ctx.ob(ok, q, 'it ends normally only if all records have been copied', path=p, key='normal')
        if ok and its:
            check_count(ctx, q, p, its[-1])


def is_input(e, evl):
    return e.recv in [o.result for o in opens(evl, 'filename')]


def check_count(ctx, q, p, it):
    """the number reported, for an archive of no record and of one"""
    ctx.cur = 'count'
    loops = []

    def walk(items):
        for x in items:
            if isinstance(x, LoopRef):
                if any(isinstance(e, Event) and e.kind == 'next' and core(e.recv) == it.result for i in x.loop.trans for seg, j in x.loop.trans[i] for e in seg):
                    loops.append(x)
    walk(p.items)
    if not loops:
        return
    l = loops[-1]
    into = {j for i in l.loop.trans for seg, j in l.loop.trans[i]}
    if l.entry in into:
        return
    for e in evl_of(p):
        if e.kind == 'call' and tail(e.name) == 'print' and e.args and 'records read' in ' '.join(flat_text(e.args[0])):
            for k in (x for x in subterms(e.args[0]) if x[0] == 'phi'):
                for i in l.loop.trans:
                    for seg, j in l.loop.trans[i]:
                        if isinstance(seg[-1], SegEnd) and seg[0].state is not None:
                            a, b = seg[0].state.store.get(k[2]), seg[-1].state.store.get(k[2])
                            if a is not None and b is not None:
                                c, d = lin_parts(lin_add(b, a, -1))
                                ctx.ob(None if d else c == 1, e, 'each record counts once', path=p, key='step')
    if l.at == l.entry:
        want = 0
    elif all(i == l.entry for i in l.loop.trans for seg, j in l.loop.trans[i] if j == l.at):
        want = 1
    else:
        return
    for e in evl_of(p):
        if e.kind == 'call' and tail(e.name) == 'print' and e.args:
            txt = ' '.join(flat_text(e.args[0]))
            if 'records read' in txt:
                m = re.findall(r'(?<![\w.])(\d+)(?![\w.])', txt)
                if m:
                    ctx.ob(int(m[0]) == want, e, 'the number of records copied is reported', path=p, key='count')


def flat_text(t):
    if not isinstance(t, tuple):
        return
    if t and t[0] == 'k':
        yield str(t[2])
        return
    if t and t[0] in ('cat', 'fmt', 'add'):
        for x in t[1]:
            for y in flat_text(x):
                yield y
        return
    if t and t[0] == 'op' and len(t) > 2:
        for x in t[2]:
            for y in flat_text(x):
                yield y


def check_command(ctx):
    ctx.cur = 'command'
    q = ctx.need('warcio.cli:recompressor')
    m = ctx.method(RC, 'recompress')
    for p in ctx.run(q, boundary=BOUNDARY | {m}, raise_pred=lambda *a: False):
        cs = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'recompress']
        ctx.ob(len(cs) == 1, cs[0] if cs else q, 'the command recompresses', path=p, key='run')
        if cs:
            for attr in ('filename', 'output'):
                v = cs[0].state.heap(cs[0].recv, attr)
                ctx.ob(v is not None and is_fld(core(v), attr) and core(v)[1] == sym('cmd') if v is not None else None, cs[0], 'its %s' % attr, path=p, key=attr)


def check(ctx):
    ctx.rule('output', 'each pass writes the output file from its beginning with a gzipping writer')
    ctx.rule('input', 'ARC records are converted, records are parsed, malformed http headers do not stop it')
    ctx.rule('each-record', 'each record of the iterator is written once, unchanged, none skipped')
    ctx.rule('second-pass', 'after any failure: the input decompressed from its beginning, all members, into a temporary file which is read from its beginning')
    ctx.rule('status', 'it ends normally exactly if the last pass came to its end, otherwise with a non-zero status')
    ctx.rule('count', 'the number of records reported for none and for one')
    ctx.rule('command', 'the command line passes its two arguments on')
    for f in (check_setup, check_copy, check_second, check_status, check_command):
        ctx.guarded(f)
