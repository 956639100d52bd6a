"""The text form of status line and headers: nothing lost, nothing added, in order, CRLF after every line."""
import itertools
import re
from ..core import *
from .util import *
from ..interp import Undecided
from .c25 import is_list, span, body, changes, pair_of, method

CRLF = '\r\n'


def text(t):
    """parts of a text, constants merged; ': '.join of a pair spelled out"""
    out = []
    t = core(t)
    if t[0] in ('cat', 'fmt', 'add'):
        for x in t[1]:
            out += text(x)
    elif t[0] == 'm' and t[1] == 'join' and is_k(t[2], 'str') and len(t[3]) == 1:
        h = core(t[3][0])
        xs = h[1] if h[0] in ('tup', 'lst') else None
        xs = [('idx', h, K(0)), ('idx', h, K(1))] if xs is None else xs
        for i, x in enumerate(xs):
            out += ([t[2]] if i else []) + text(x)
    else:
        out = [t]
    res = []
    for x in out:
        if is_k(x, 'str') and res and is_k(res[-1], 'str'):
            res[-1] = K(res[-1][2] + x[2])
        elif not (is_k(x, 'str') and not x[2]):
            res.append(x)
    return res


def line_of(h):
    return [('idx', h, K(0)), K(': '), ('idx', h, K(1)), K(CRLF)]


def is_line(parts, h):
    parts = [core(x) for x in parts]
    want = line_of(h)
    if parts == want:
        return True
    return False


def check_text(ctx):
    ctx.cur = 'lines'
    q = method(ctx, 'to_str')
    FF = sym('filter_func')
    if not ctx.prog.funcs.get(q):
        raise Undecided('no to_str')
    seen = set()
    n = 0
    for p in ctx.run(q, self_cls=SAH, raise_pred=lambda *a: False):
        if p.kind == 'x':
            continue
        refs = [x for x in p.items if isinstance(x, LoopRef)]
        if len(refs) != 1:
            ctx.ob(None, q, 'how the headers are written')
            continue
        ref = refs[0]
        acc, kinds = set(), set()
        for i in sorted(ref.loop.trans):
            h0 = ref.loop.heads[i]
            h0 = getattr(h0, 'state', h0)
            for seg, j in ref.loop.trans[i]:
                nx = [e for e in seg if isinstance(e, Event) and e.kind == 'next' and span(e.recv)]
                if len(nx) != 1:
                    ctx.ob(None, q, 'how the headers are written')
                    continue
                n += 1
                e = nx[0]
                sp = span(e.recv)
                ctx.ob(True if sp == ('fwd', 'item') else False if sp[0] in ('bwd', 'part') else None, e, 'the headers in their order', path=p, key='order')
                st = seg[-1].state
                item = core(e.result)
                fc = [x for x in seg if isinstance(x, Event) and x.kind == 'call' and core(x.recv) == FF]
                hdr = core(fc[-1].result) if fc else item
                if fc:
                    ctx.ob(len(fc) == 1 and len(fc[0].args) == 1 and core(fc[0].args[0]) == item, fc[0], 'the filter is asked about the header', path=p, key='filter')
                    ctx.ob(True if truthy(fc[0].state, FF) is not False else False, fc[0], 'only if there is one', path=p, key='nofilter')
                elif truthy(st, FF) is True:
                    ctx.ob(False, e, 'every header goes through the filter, if there is one', path=p, key='filtered')
                grown = []
                for k, v in st.store.items():
                    o = h0.store.get(k)
                    if o is None or o == v:
                        continue
                    if v[0] in ('cat', 'fmt', 'add') or o[0] == 'phi':
                        a, b = text(o), text(v)
                        if a and b[:len(a)] == a:
                            grown.append((k, b[len(a):]))
                        elif a and is_k(a[-1], 'str') and b[:len(a) - 1] == a[:-1] and len(b) >= len(a) and is_k(b[len(a) - 1], 'str') and b[len(a) - 1][2].startswith(a[-1][2]):
                            rest = b[len(a) - 1][2][len(a[-1][2]):]
                            grown.append((k, ([K(rest)] if rest else []) + b[len(a):]))
                        elif not a:
                            grown.append((k, b))
                app = [x for x in seg if isinstance(x, Event) and x.kind == 'append']
                for x in app:
                    grown.append((('obj', core(x.recv)), text(x.args[0])))
                rejected = bool(fc) and truthy(st, hdr) is False
                if len(grown) > 1:
                    ctx.ob(None, e, 'one line for each header')
                elif not grown:
                    if rejected:
                        ctx.ob(True, e, 'a header the filter rejects is left out', path=p)
                    elif not fc and truthy(st, item) is False:
                        pass        # a header is a pair, never empty
                    else:
                        if any(v != h0.store.get(k) and (k[0] == 'h' or isinstance(k[-1], str) and k[-1].startswith('@')) for k, v in st.store.items()):
                            ctx.ob(None, e, 'one line for each header')
                            continue
                        ctx.ob(False, e, 'one line for each header', path=p, key='dropped')
                else:
                    k, extra = grown[0]
                    acc.add(k)
                    if rejected:
                        ctx.ob(False, e, 'a header the filter rejects is left out', path=p, key='rejected')
                    ok = is_line(extra, hdr)
                    if not ok and not all(is_k(x) or any(core(y) in (hdr, item) for y in subterms(x)) for x in extra):
                        ok = None
                    if k[0] == 'obj' and not ok:
                        ok = None
                    ctx.ob(ok, e, 'its line is the name, a colon and a space, the value and CRLF', path=p, key='line')
        for e in p.items:
            if isinstance(e, Event) and e.kind == 'next' and span(e.recv):
                ctx.ob(False, e, 'the next header follows', path=p, key='leaves')
        # what comes before and after the headers
        ctx.cur = 'status'
        if len(acc) != 1:
            ctx.ob(None if acc else False, q, 'the headers are written', path=p, key='none')
            ctx.cur = 'lines'
            continue
        k = list(acc)[0]
        v = core(p.value)
        if k[0] == 'obj':
            ctx.ob(None, q, 'what is written besides the headers')
            ctx.cur = 'lines'
            continue
        ent = ref.loop.heads[ref.entry]
        ent = getattr(ent, 'state', ent)
        pre = ent.store.get(k)
        at = ref.loop.heads[ref.at]
        at = getattr(at, 'state', at)
        ctx.ob(core(at.store.get(k)) == v, q, 'nothing follows the headers', path=p, key='after')
        if pre is None:
            ctx.ob(None, q, 'what is written before the headers')
        else:
            P, S = ('fld', SELF, 'protocol', 0), ('fld', SELF, 'statusline', 0)
            st = ent
            got = [core(x) for x in text(pre)]
            ok = True
            for tp in (True, False):
                for ts in (True, False):
                    if truthy(st, P) == (not tp) or truthy(st, S) == (not ts):
                        continue
                    g = [x for x in got if not (x == P and not tp) and not (x == S and not ts)]
                    want = ([P] if tp else []) + ([K(' ')] if tp and ts else []) + ([S] if ts else []) + ([K(CRLF)] if tp or ts else [])
                    if g != want:
                        ok = False
            if not ok and any(x not in (P, S) and not is_k(x) for x in got):
                ok = None
            ctx.ob(ok, q, 'the status line is the protocol, a space and the status, whichever there are, and CRLF', path=p, key='status')
        ctx.cur = 'lines'
    if not n:
        raise Undecided('no loop over the headers in ' + q)


def encoded(t):
    """(text, encoding) of the bytes t; the encoding a term"""
    t = core(t)
    if t[0] == 'm' and t[1] == 'encode':
        a = t[3]
        return core(t[2]), (core(a[0]) if a else K('utf-8')), len(a)
    return None


def joined(v):
    v = core(v)
    return [core(x) for x in v[1]] if v[0] in ('cat', 'add') else [v]


def check_bytes(ctx):
    ctx.cur = 'bytes'
    q = method(ctx, 'to_bytes')
    ts = method(ctx, 'to_str')
    for p in ctx.run(q, self_cls=SAH, raise_pred=lambda *a: False):
        if p.kind == 'x':
            continue
        got = joined(p.value)
        tc = [e for e in p.events() if e.kind == 'call' and tail(e.name) == tail(ts)]
        if len(tc) != 1:
            ctx.ob(None if tc or True else False, q, 'the text of the headers, encoded')
            continue
        ctx.ob(core(tc[0].arg(0, 'filter_func')) == sym('filter_func'), tc[0], 'the filter is passed on', path=p, key='filter')
        en = encoded(got[0])
        if en is None:
            one = encoded(p.value)
            ctx.ob(None, q, 'the text of the headers, encoded')
            continue
        ctx.ob(en[0] == core(tc[0].result) and en[1] == sym('encoding') and en[2] == 1, q, 'the text of the headers in the encoding asked for', path=p, key='encoded')
        ctx.ob(got[1:] == [K(b'\r\n')], q, 'and the empty line', path=p, key='end')


def pattern_covers(e):
    """a replacement by pattern: (the first character beyond ascii it leaves, the first ascii one it takes)"""
    r = core(e.recv) if e.recv is not None else None
    c = r[2][0] if r is not None and r[0] == 'op' and tail(str(r[1])) == 'compile' and len(r[2]) == 1 else \
        core(e.args[0]) if tail(str(e.name)) == 'sub' and (r is None or r[0] != 'op') and e.args else None
    if c is None or not is_k(c, 'str'):
        return None, None
    try:
        rx = re.compile(c[2])
    except re.error:
        return None, None
    left = next((i for i in itertools.chain(range(128, 0x3000), (0xd800, 0xdc80, 0xffff, 0x1f600, 0x10ffff)) if not rx.search(chr(i))), 0)
    hit = next((chr(i) for i in range(128) if rx.search(chr(i))), '')
    return left, hit


def check_ascii(ctx):
    ctx.cur = 'ascii'
    q = method(ctx, 'to_ascii_bytes')
    ts = method(ctx, 'to_str')
    pe = method(ctx, 'percent_encode_non_ascii_headers')
    n = 0
    for p in ctx.run(q, self_cls=SAH, all_raises=True):
        evl = p.events()
        evl = list(evl)
        tc = [e for e in evl if e.kind == 'call' and tail(e.name) == tail(ts)]
        if p.kind == 'x':
            last = evl[-1] if evl else None
            if last is not None and last.kind == 'pure' and tail(last.name) == 'encode' and last.raised and any(core(last.recv) == core(e.result) for e in tc):
                ctx.ob(False, last, 'text that is not ascii can be written', path=p, key='unhandled')
            continue
        n += 1
        got = joined(p.value)
        en = encoded(got[0])
        if en is None or not is_k(en[1], 'str'):
            ctx.ob(None, q, 'the text of the headers in ascii')
            continue
        ctx.ob(en[1][2].lower().replace('-', '').replace('_', '') in ('ascii', 'usascii'), q, 'the text of the headers in ascii', path=p, key='encoding')
        ctx.ob(en[2] == 1, q, 'nothing is dropped or replaced by the encoding', path=p, key='errors')
        ctx.ob(got[1:] == [K(b'\r\n')], q, 'and the empty line', path=p, key='end')
        for e in tc:
            ctx.ob(core(e.arg(0, 'filter_func')) == sym('filter_func'), e, 'the filter is passed on', path=p, key='filter')
        if tc:
            r = core(tc[-1].result)
            src = en[0]
            ok = contains(src, r)
            if not ok:
                for e in reversed(evl):
                    if e.kind == 'call' and e.result is not None and core(e.result) == src:
                        ok = any(contains(core(a), r) for a in e.args) or None
                        break
            ctx.ob(ok, q, 'it is the text of the headers as they are now', path=p, key='text')
            for e in evl:
                if e.kind == 'call' and tail(e.name) == 'sub' and not e.raised and core(e.result) == src:
                    left, hit = pattern_covers(e)
                    if left is None:
                        continue
                    ctx.ob(not left, e, 'whatever is not ascii is encoded; U+%04X is not' % (left or 0), path=p, key='all-non-ascii')
                    ctx.ob(not hit, e, 'what is ascii stays; %r does not' % hit, path=p, key='ascii-stays')
        failed = [i for i, e in enumerate(evl) if e.raised and e.kind == 'pure' and tail(e.name) == 'encode' and tc and any(core(e.recv) == core(x.result) for x in tc)]
        if failed:
            pes = [i for i, e in enumerate(evl) if e.kind == 'call' and tail(e.name) == tail(pe) and i > failed[0]]
            tss = [i for i, e in enumerate(evl) if e.kind == 'call' and tail(e.name) == tail(ts) and pes and i > pes[0]]
            ctx.ob(bool(pes) and bool(tss), evl[failed[0]], 'headers that are not ascii are encoded and written again', path=p, key='again')
    if not n:
        ctx.ob(None, q, 'the text of the headers in ascii')


def check_percent(ctx):
    ctx.cur = 'percent'
    q = method(ctx, 'percent_encode_non_ascii_headers')
    n = 0
    for kind, p, seg, ss, st in body(ctx, q, all_raises=True):
        ch = changes(seg)
        nx = [s for s in ss if s.e.kind == 'next']
        if not nx:
            continue
        s = nx[-1]
        if kind == 'exit':
            ctx.ob(False, s.e, 'every header is looked at', path=p, key='early')
            continue
        if s.dir == 'part':
            ctx.ob(False, s.e, 'every header is looked at', path=p, key='part')
        n += 1
        for e in seg:
            # which values need it: those that are not ascii
            if isinstance(e, Event) and e.kind in ('call', 'pure') and tail(e.name) == 'encode' and e.recv is not None and s.is_value(e.recv) and e.args and is_k(core(e.args[0]), 'str'):
                ctx.ob(core(e.args[0])[2].lower().replace('-', '').replace('_', '') in ('ascii', 'usascii'), e, 'every value that is not ascii is encoded', path=p, key='which')
        for c in ch:
            if c.kind != 'setitem' or len(ch) > 1:
                ctx.ob(False, c, 'headers are only changed where they are', path=p, key='place')
                continue
            pr = pair_of(c.args[1])
            ctx.ob(s.is_index(c.args[0]), c, 'the header is changed where it is', path=p, key='index')
            if pr is None:
                ctx.ob(None, c, 'the header keeps its name')
                continue
            ctx.ob(s.is_name(pr[0]), c, 'the header keeps its name', path=p, key='name')
            v = core(pr[1])
            if s.is_value(v):
                ctx.ob(False, c, 'its value is encoded', path=p, key='same')
            ctx.ob(derived(v, s, seg), c, 'its value is encoded from what it was', path=p, key='value')
    if not n:
        raise Undecided('no scan in ' + q)


def derived(v, s, seg):
    if any(s.is_value(x) for x in subterms(v)):
        return True
    for e in seg:
        if isinstance(e, Event) and e.kind in ('call', 'pure') and e.result is not None and contains(v, core(e.result)):
            if any(s.is_value(x) for a in e.args for x in subterms(core(a))):
                return True
            if any(s.is_name(x) for a in e.args for x in subterms(core(a))):
                return False
    return False if is_k(v) or any(s.is_name(x) for x in subterms(v)) else None


def check_buffer(ctx):
    ctx.cur = 'buffer'
    q = method(ctx, 'compute_headers_buffer')
    for p in ctx.run(q, self_cls=SAH, raise_pred=lambda *a: False):
        if p.kind == 'x':
            continue
        ta = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'to_ascii_bytes']
        v = [e for e in p.events() if e.kind == 'store' and e.name == 'headers_buff']
        ok = len(ta) == 1 and v and core(v[-1].args[0]) == core(ta[0].result)
        if not ta and v:
            ok = None
        ctx.ob(ok, v[-1] if v else q, 'the buffer is the ascii form of the headers', path=p, key='buffer')
        if ta:
            ctx.ob(core(ta[0].arg(0, 'filter_func')) == sym('header_filter'), ta[0], 'through the filter given', path=p, key='filter')


def check(ctx):
    ctx.rule('lines', 'to_str writes, for every header in order, exactly "name: value" CRLF; only what the filter rejects is left out')
    ctx.rule('status', 'before them the protocol, a space and the status line, whichever are there, and CRLF if any is; nothing after them')
    ctx.rule('bytes', 'to_bytes is to_str with the filter given, in the encoding given, and an empty line')
    ctx.rule('ascii', 'to_ascii_bytes is to_str encoded strictly as ascii and an empty line; when that fails the headers are percent-encoded and written again, never unencoded')
    ctx.rule('percent', 'percent-encoding looks at every header and only changes values, in place, to something made from the value')
    ctx.rule('buffer', 'the header buffer is the ascii form through the filter')
    for fn in (check_text, check_bytes, check_ascii, check_percent, check_buffer):
        ctx.guarded(fn)
