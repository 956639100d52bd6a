"""warcio extract: what is written, block by block, on every abstract path."""
from ..core import *
from .util import *
from ..interp import Undecided
from ..engine import BOUNDARY
from .c22 import root_of

EX = 'warcio.extractor:Extractor'


def is_write(e):
    if e.kind != 'call' or tail(e.name) not in ('write', 'writelines'):
        return False
    r = show(e.recv) if e.recv is not None else e.name
    return 'stdout' in r or 'stdout' in (e.name or '')


def is_print(e):
    return e.kind == 'call' and e.name in ('print', 'builtins.print') and 'file' not in (e.kw or {})


def check_extract(ctx):
    q = ctx.method(EX, 'extract')
    if ctx.prog.funcs[q].posargs[1:3] != ['payload_only', 'headers_only']:
        raise AnalysisBroken('extract(payload_only, headers_only)')
    m, _ = ctx.slots(EX)
    fn, off = m.get('filename'), m.get('offset')
    for p in ctx.run(q, self_cls=EX, raise_pred=lambda *a: False):
        if p.kind == 'x':
            continue
        st = p.state
        evl = [e for e in flat(p.items) if isinstance(e, Event) and e.kind not in ('begin', 'end')]
        # ---- which record
        ctx.cur = 'record'
        its = [e for e in evl if e.kind == 'new' and tail(e.name) == 'ArchiveIterator']
        op = [e for e in evl if e.kind == 'call' and tail(e.name) in ('fsspec_open', 'open', 'open_or_default')]
        nx = [e for e in evl if e.kind == 'next' or e.kind == 'call' and tail(e.name) in ('__next__', 'next')]
        if len(its) != 1 or len(op) != 1:
            ctx.ob(False if not its else None, q, 'the file is opened and read', path=p, key='its')
            continue
        ctx.ob(op[0].args and (is_fld(core(op[0].args[0]), fn) if fn else None), op[0], 'the file named is opened', path=p, key='file')
        ctx.ob(core(its[0].arg(0, 'fileobj')) == op[0].result, its[0], 'and read', path=p, key='read')
        mv = [e for e in evl[:evl.index(its[0])] if e.kind == 'call' and core(e.recv) == op[0].result and tail(e.name) in ('seek', 'read', 'readline')]
        late = [e for e in evl[evl.index(its[0]):] if e.kind == 'call' and core(e.recv) == op[0].result and tail(e.name) in ('seek', 'read', 'readline')]
        ok = len(mv) == 1 and tail(mv[0].name) == 'seek' and mv[0].args and is_offset(mv[0].args[0], off) and (len(mv[0].args) < 2 or core(mv[0].args[1]) == K(0)) and not late
        if not mv and not late:
            z = truthy(st, ('fld', SELF, off, 0)) if off else None
            ok = False
        ctx.ob(ok, mv[0] if mv else its[0], 'from the offset given', path=p, key='offset')
        v = its[0].arg(3, 'arc2warc')
        ctx.ob(v is None or truthy(st, v) is False, its[0], 'as it is stored', path=p, key='arc')
        v = its[0].arg(1, 'no_record_parse')
        ctx.ob(v is None or truthy(st, v) is False, its[0], 'with its http headers', path=p, key='parse')
        plain_iterator(ctx, its[0], p, ('ensure_http_headers', 'verify_http'))
        if not nx:
            ctx.ob(False, q, 'the first record is taken', path=p, key='first')
            continue
        rec = core(nx[0].result)
        ctx.ob(len(nx) == 1, nx[-1], 'the first record is taken', path=p, key='first')
        # ---- what is written
        pay = truthy(st, sym('payload_only'))
        hdr = truthy(st, sym('headers_only'))
        ctx.cur = 'output'
        for e in evl:
            if is_print(e):
                ctx.ob(False, e, 'nothing else is written', path=p, key='print')
        cs = {core(e.result) for e in evl if e.kind == 'call' and tail(e.name) == 'content_stream' and core(e.recv) == rec}

        # a record of an archive has a stream
        if any(('T' not in n) and (core(t) in cs or is_fld(core(t), 'raw_stream') and core(core(t)[1]) == rec) for t, n in st.null.items()):
            continue

        def kind(t):
            t = core(t)
            if t in cs:
                return 'payload'
            if is_fld(t, 'raw_stream') and core(t[1]) == rec:
                return 'raw'
            return None
        whole = {}
        for e in evl:
            if e.kind == 'call' and tail(e.name) == 'to_bytes' and is_fld(core(e.recv)) and core(core(e.recv)[1]) == rec:
                whole[core(e.result)] = core(e.recv)[2]
                ff = e.arg(0, 'filter_func')
                if ff is not None and ff != NONE:
                    ctx.ob(False if ff[0] in ('clo', 'fn', 'bm') else None, e, 'no header is left out', path=p, key='filter')
                enc = e.arg(1, 'encoding')
                if enc is not None:
                    ctx.ob(enc[2].lower().replace('-', '').replace('_', '') == 'utf8' if is_k(enc, 'str') else None, e, 'any header can be written', path=p, key='encoding')
        order = []
        problems = []

        def step(s, e):
            if isinstance(e, SegEnd):
                return [s]
            if e.kind == 'call' and tail(e.name) in ('read', 'readline') and kind(e.recv):
                k = kind(e.recv)
                if s[0] is not None and may(e.state, s[0]):
                    problems.append((False, e, 'a block that was read is written before the next is read', 'lost'))
                size = e.arg(0, 'size')
                if size is not None and is_k(core(size), 'int'):
                    problems.append((size[2] != 0, e, 'something is read', 'zero'))
                whole_read = not e.args and not e.kw or e.args and core(e.args[0]) in (K(None), K(-1))
                return [(core(e.result), s[1] + ((k,) if not s[1] or s[1][-1] != k else ()), whole_read or s[2])]
            if e.kind == 'call' and tail(e.name) == 'copyfileobj' and e.args and kind(e.args[0]):
                return [(None, s[1] + (kind(e.args[0]),), True)]
            if is_write(e) and e.args:
                a = core(e.args[0])
                if a in whole:
                    return [(s[0], s[1] + (whole[a],), s[2])]
                if s[0] is not None and a == s[0]:
                    return [(None, s[1], s[2])]
                problems.append((False if a[0] in ('ev', 'k', 'slice') or is_k(a) else None, e, 'only what the record holds is written, each block once (%s)' % show(a)[:60], 'other'))
            return [s]

        def may(stt, r):
            for t, n in stt.null.items():
                if core(t) == r and 'T' not in n:
                    return False
            return True
        final = run_monitor(p.items, [(None, (), False)], step)
        for ok, e, msg, key in problems:
            ctx.ob(ok, e, msg, path=p, key=key)
        http = None
        # a record of an archive has headers
        if any(is_fld(core(t), 'rec_headers') and core(core(t)[1]) == rec and 'T' not in n for t, n in st.null.items()):
            continue
        for t, n in st.null.items():
            if is_fld(core(t), 'http_headers') and core(core(t)[1]) == rec:
                http = True if n == T_ else False if 'T' not in n else None
        for s in final:
            pend, seq, all_ = s
            if pend is not None:
                ctx.ob(not may(st, pend) or False, q, 'the last block read is written', path=p, key='last')
            if seq and seq[-1] in ('payload', 'raw') and not all_:
                ctx.ob(pend is not None and not may(st, pend), q, 'it is read to its end', path=p, key='end')
            if pay is True:
                ctx.ob(seq == ('payload',), q, '--payload writes the decoded content and nothing else', path=p, key='payload')
            elif pay is False:
                head = ('rec_headers',) + (('http_headers',) if http else ())
                if http is None:
                    ctx.ob(False if 'http_headers' not in seq else None, q, 'http headers are written if there are any', path=p, key='http')
                elif hdr is True:
                    ctx.ob(seq == head, q, '--headers writes the headers and nothing else', path=p, key='headers')
                elif hdr is False:
                    ctx.ob(seq == head + ('raw',), q, 'headers and stored content are written', path=p, key='record')
                else:
                    ctx.ob(False, q, '--headers is looked at', path=p, key='flag')
            else:
                ctx.ob(False, q, '--payload is looked at', path=p, key='flag')


def is_offset(t, off):
    t = core(t)
    if is_fld(t, off) and t[1] == SELF:
        return True
    return t is not None and t[0] == 'op' and t[1] == 'int' and len(t[2]) == 1 and is_offset(t[2][0], off)


def check_command(ctx):
    ctx.cur = 'command'
    q = ctx.need('warcio.cli:extractor')
    m = ctx.method(EX, 'extract')
    for p in ctx.run(q, boundary=BOUNDARY | {m, EX + '.__init__'}, raise_pred=lambda *a: False):
        ev = p.events()
        n = [e for e in ev if e.kind == 'new' and tail(e.name) == 'Extractor']
        c = [e for e in ev if e.kind == 'call' and tail(e.name) == 'extract']
        ctx.ob(len(n) == 1 and len(c) == 1, c[0] if c else q, 'one record is extracted', path=p, key='run')
        if len(n) == 1 and len(c) == 1:
            for e, pos, name, attr in ((n[0], 0, 'filename', 'filename'), (n[0], 1, 'offset', 'offset'), (c[0], 0, 'payload_only', 'payload'), (c[0], 1, 'headers_only', 'headers')):
                v = e.arg(pos, name)
                ctx.ob(v is not None and is_fld(core(v), attr), e, '%s is passed on' % attr, path=p, key=attr)


def check(ctx):
    ctx.rule('record', 'the first record from the offset given, as stored, with its http headers')
    ctx.rule('output', 'the parts asked for, in order; each block read is written once before the next is read, to the end')
    ctx.rule('command', 'the command line passes its arguments on')
    for f in (check_extract, check_command):
        ctx.guarded(f)
