"""The header map: lookups, replacement, addition and removal over the list of (name, value) pairs."""
from ..core import *
from .util import *
from ..interp import Undecided


LIST = 'headers'


def is_list(t):
    return is_fld(core(t), LIST) and core(t)[1] == SELF


def span(t):
    """(direction, 'item'|'index') of an iterable over the whole header list; None: another iterable"""
    t = core(t)
    if is_list(t):
        return 'fwd', 'item'
    if t[0] in ('op', 'ev', 'm') and len(t) > 2:
        name = tail(str(t[1]))
        args = t[2] if t[0] == 'op' else ()
        if name in ('list', 'tuple', 'iter') and len(args) == 1:
            return span(args[0])
        if name == 'enumerate' and len(args) == 1 and is_list(args[0]):
            return 'fwd', 'pair'
        if name == 'reversed' and len(args) == 1:
            s = span(args[0])
            return ('bwd' if s[0] == 'fwd' else 'fwd', s[1]) if s else None
        if name in ('range', 'xrange'):
            vals = [lin_parts(a) for a in args]
            n = ('op', 'len', None)
            def length(p):
                c, d = p
                d = dict(d)
                if len(d) == 1:
                    k, v = list(d.items())[0]
                    if v == 1 and k[0] in ('op', 'len') and any(is_list(x) for x in subterms(k)):
                        return c
                return None
            def num(p):
                return p[0] if not dict(p[1]) else None
            if len(vals) == 1 and length(vals[0]) == 0:
                return 'fwd', 'index'
            if len(vals) in (2, 3) and num(vals[0]) == 0 and length(vals[1]) == 0 and (len(vals) == 2 or num(vals[2]) == 1):
                return 'fwd', 'index'
            if len(vals) == 3 and length(vals[0]) == -1 and num(vals[1]) == -1 and num(vals[2]) == -1:
                return 'bwd', 'index'
            if all(length(v) is not None or num(v) is not None for v in vals):
                return 'part', 'index'
    return None


class Step(object):
    """one header of a scan: its item, index and whether its name matched"""
    def __init__(self, e, how):
        r = core(e.result)
        self.i = None
        if how[1] == 'pair':
            if e.result is not None and r[0] == 'tup' and len(r[1]) == 2:
                self.i, r = core(r[1][0]), core(r[1][1])
            else:
                self.i, r = ('idx', r, K(0)), ('idx', r, K(1))
        self.e, self.dir, self.how, self.r = e, how[0], how[1], r

    def is_item(self, t):
        t = core(t)
        if self.how == 'item':
            return t == self.r
        if self.how == 'index':
            return t is not None and t[0] in ('obs', 'm', 'idx') and any(is_list(x) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)) and any(core(x) == self.r for x in subterms(t)) and not any(x[0] == 'lin' for x in subterms(t))
        return t == self.r

    def is_name(self, t):
        return self.part(t, 0)

    def is_value(self, t):
        return self.part(t, 1)

    def part(self, t, i):
        t = core(t)
        return t is not None and t[0] == 'idx' and self.is_item(t[1]) and t[2] == K(i)

    def is_index(self, t):
        t = core(t)
        if self.how == 'index':
            return t == self.r
        at = (self.e.kw or {}).get('index')
        if at is not None and t == core(at) and self.dir == 'fwd':
            return True
        return self.how == 'pair' and t == self.i

    def match(self, st, name):
        """True/False: compared with the wanted name, ignoring case; None: not compared; 'case' compared as written"""
        out = set()
        for k, v in st.lits.items():
            if k[0] != 'eq':
                continue
            a, b = lower_of(k[1]), lower_of(k[2])
            for x, y in ((a, b), (b, a)):
                if self.is_name(x[0]) and core(y[0]) == name:
                    out.add(v if x[1] and y[1] and x[1] == y[1] else 'case')
        if len(out) == 1:
            return out.pop()
        return 'case' if 'case' in out else None


def lower_of(t):
    t = core(t)
    if t[0] == 'm' and t[1] in ('lower', 'upper', 'casefold'):
        return t[2], t[1]
    return t, None


def method(ctx, name):
    return ctx.method(SAH, name)


def steps(seg, ctx, q):
    out = []
    for e in seg:
        if isinstance(e, Event) and e.kind in ('next', 'stop'):
            s = span(e.recv)
            if s is None:
                if any(is_list(x) for x in subterms(e.recv)):
                    raise Undecided('scan of the headers in ' + q)
                continue
            out.append(Step(e, s))
    return out


def changes(seg):
    """what a straight line does to the header list"""
    out = []
    for e in seg:
        if not isinstance(e, Event):
            continue
        if e.kind in ('append', 'setitem', 'delitem') and is_list(e.recv):
            out.append(e)
        elif e.kind == 'call' and e.recv is not None and (is_list(e.recv) or tail(e.name) == 'add_header' and core(e.recv) == SELF):
            out.append(e)
        elif e.kind == 'store' and e.name == LIST:
            out.append(e)
    return out


def pair_of(t):
    t = core(t)
    return t[1] if t and t[0] in ('tup', 'lst') and len(t[1]) == 2 else None


def appended(e):
    if e.kind in ('append',) or (e.kind == 'call' and tail(e.name) == 'append'):
        return pair_of(e.args[0])
    if e.kind == 'call' and tail(e.name) == 'add_header':
        return e.arg(0, 'name'), e.arg(1, 'value')
    return None


def shape(ctx, q, st, key, direction=None):
    """the scan visits every header"""
    if st.dir == 'part':
        return ctx.ob(False, st.e, 'every header is looked at', key=key)
    return ctx.ob(True if direction is None or st.dir == direction else False, st.e, 'every header is looked at' if direction is None else 'the headers are looked at from the %s' % ('first' if direction == 'fwd' else 'last'), key=key)


def body(ctx, q, **cfg):
    """(kind, path or None, seg, step, end state) for every straight line of a scanning method"""
    done = set()
    out = []
    cfg = cfg or {'raise_pred': lambda *a: False}
    for p in ctx.run(q, self_cls=SAH, **cfg):
        if p.kind == 'x':
            continue
        for seg in segments(p.items, done):
            top = seg is p.items
            end = seg[-1] if seg and isinstance(seg[-1], SegEnd) else None
            if end is None and not top:
                end = None
            ss = steps(seg, ctx, q)
            state = p.state if top else end.state if end else None
            out.append(('exit' if top else 'iter', p, seg, ss, state))
    return out


def check_get(ctx):
    ctx.cur = 'lookup'
    q = method(ctx, 'get_header')
    name = sym('name')
    n = 0
    b = body(ctx, q)
    for kind, p, seg, ss, st in b:
        if kind == 'exit':
            # only p.items' own events
            ch = changes(seg)
            ctx.ob(not ch, ch[0] if ch else q, 'a lookup changes no header', path=p, key='change')
            last = [s for s in ss if s.e.kind in ('next', 'stop')]
            if not last:
                ctx.ob(None, q, 'how the headers are looked at')
                continue
            s = last[-1]
            shape(ctx, q, s, 'scan', 'fwd')
            n += 1
            if s.e.kind == 'stop':
                ctx.ob(core(p.value) == sym('default_value'), s.e, 'the default when no header has the name', path=p, key='default')
            else:
                m = s.match(st, name)
                ctx.ob(None if m is None else m is True, s.e, 'the first header whose name matches, ignoring case, ends the lookup', path=p, key='match')
                ctx.ob(s.is_value(p.value), s.e, 'its value is returned', path=p, key='value')
        else:
            for s in ss:
                if s.e.kind != 'next':
                    continue
                m = s.match(st, name)
                ctx.ob(None if m is None else m is False, s.e, 'only a header of another name is passed over', path=p, key='passed')
                ch = changes(seg)
                ctx.ob(not ch, ch[0] if ch else s.e, 'a lookup changes no header', path=p, key='change')
    if not n:
        raise Undecided('no scan in ' + q)


def check_replace(ctx):
    ctx.cur = 'replace'
    q = method(ctx, 'replace_header')
    name, value = sym('name'), sym('value')
    n = 0
    for kind, p, seg, ss, st in body(ctx, q):
        ch = changes(seg)
        nx = [s for s in ss if s.e.kind in ('next', 'stop')]
        if kind == 'iter':
            for s in nx:
                if s.e.kind != 'next':
                    continue
                m = s.match(st, name)
                ctx.ob(None if m is None else m is False, s.e, 'the first header of that name is replaced', path=p, key='passed')
                ctx.ob(not ch, ch[0] if ch else s.e, 'other headers are left alone', path=p, key='others')
            continue
        if not nx:
            ctx.ob(None, q, 'how the headers are looked at')
            continue
        s = nx[-1]
        shape(ctx, q, s, 'scan', 'fwd')
        n += 1
        if s.e.kind == 'stop':
            pr = appended(ch[0]) if len(ch) == 1 else None
            ctx.ob(pr is not None and core(pr[0]) == name and core(pr[1]) == value, ch[0] if ch else s.e, 'a new header is added once, with the given name and value, when none has the name', path=p, key='append')
            ctx.ob(is_none(p.state, p.value) is True, s.e, 'there is no old value then', path=p, key='none')
        else:
            m = s.match(st, name)
            ctx.ob(None if m is None else m is True, s.e, 'only a header of that name, ignoring case, is replaced', path=p, key='match')
            ok = len(ch) == 1 and ch[0].kind == 'setitem' and is_list(ch[0].recv) and s.is_index(ch[0].args[0])
            ctx.ob(ok, ch[0] if ch else s.e, 'the header is replaced where it is', path=p, key='place')
            if ok:
                pr = pair_of(ch[0].args[1])
                ctx.ob(pr is not None and s.is_name(pr[0]) and core(pr[1]) == value, ch[0], 'it keeps its name and gets the given value', path=p, key='pair')
            ctx.ob(s.is_value(p.value), s.e, 'the old value is returned', path=p, key='old')
    if not n:
        raise Undecided('no scan in ' + q)


def check_remove(ctx):
    ctx.cur = 'remove'
    q = method(ctx, 'remove_header')
    name = sym('name')
    n = 0
    for kind, p, seg, ss, st in body(ctx, q):
        ch = changes(seg)
        nx = [s for s in ss if s.e.kind in ('next', 'stop')]
        for s in nx:
            if s.e.kind != 'next':
                continue
            if kind == 'exit':
                ctx.ob(False, s.e, 'the headers after a removed one are looked at too', path=p, key='early')
                continue
            n += 1
            shape(ctx, q, s, 'scan')
            m = s.match(st, name)
            if m is True:
                ok = len(ch) == 1 and (ch[0].kind == 'delitem' or ch[0].kind == 'call' and tail(ch[0].name) == 'pop')
                ctx.ob(ok and bool(ch[0].args) and s.is_index(ch[0].args[0]), ch[0] if ch else s.e, 'a header of that name is removed', path=p, key='removed')
                if ok:
                    ctx.ob(s.dir == 'bwd', s.e, 'removal does not move the headers still to be looked at', path=p, key='direction')
            elif m is False:
                ctx.ob(not ch, ch[0] if ch else s.e, 'headers of another name stay', path=p, key='kept')
            else:
                ctx.ob(False if m == 'case' else None, s.e, 'names are compared ignoring case', path=p, key='case')
        if kind == 'exit' and not ss:
            ctx.ob(None, q, 'how the headers are looked at')
    if not n:
        raise Undecided('no scan in ' + q)
    # the result tells whether something was removed: automaton over each path
    for p in ctx.run(q, self_cls=SAH, raise_pred=lambda *a: False):
        if p.kind == 'x':
            continue
        def step(s, e):
            if isinstance(e, Event) and e.kind in ('delitem', 'call') and e.recv is not None and is_list(e.recv):
                return (True,)
            return (s,)
        got = run_monitor(p.items, [False], step)
        t = truthy(p.state, p.value)
        if t is None or len(got) != 1:
            ctx.ob(None, q, 'the result tells whether a header was removed')
        else:
            ctx.ob(got == {t}, q, 'the result tells whether a header was removed', path=p, key='result')


def check_add(ctx):
    ctx.cur = 'add'
    q = method(ctx, 'add_header')
    for p in ctx.run(q, self_cls=SAH, raise_pred=lambda *a: False):
        if p.kind == 'x':
            continue
        ch = changes(p.items)
        pr = appended(ch[0]) if len(ch) == 1 else None
        ok = pr is not None and core(pr[0]) == sym('name') and core(pr[1]) == sym('value')
        ctx.ob(ok, ch[0] if ch else q, 'the header is added at the end, as given', path=p, key='append')


def check_dict(ctx):
    ctx.cur = 'mapping'
    c = ctx.prog.classes[SAH]
    for a, b in (('get', 'get_header'), ('__getitem__', 'get_header'), ('__setitem__', 'replace_header'), ('__delitem__', 'remove_header')):
        if a not in c.methods:
            ctx.ob(False, SAH, 'has the mapping operation %s' % a, key=a)
            continue
        qa, qb = c.methods[a], ctx.method(SAH, b)
        if getattr(qa, 'q', qa) == getattr(qb, 'q', qb):
            ctx.ob(True, SAH, '%s is %s' % (a, b))
            continue
        fa = ctx.prog.funcs[getattr(qa, 'q', qa)]
        ps = [p for p in ctx.run(fa.q, self_cls=SAH, boundary=frozenset([getattr(qb, 'q', qb)]), raise_pred=lambda *x: False) if p.kind != 'x']
        params = [x for x in fa.posargs if x != 'self']
        for p in ps:
            ev = [e for e in p.events() if e.kind == 'call' and tail(e.name) == b]
            t = p.value
            if b == 'get_header':
                g = [x for x in subterms(t) if x[0] in ('obs', 'm', 'ev')] if t else []
                ctx.ob(None if not ev else core(ev[0].result) == core(t), fa.q, '%s is the lookup' % a, path=p, key=a)
            else:
                adds = changes(p.items)
            ctx.ob((False if adds else None) if not ev else [core(x) for x in ev[0].args] == [sym(x) for x in params], fa.q, '%s does what %s does' % (a, b), path=p, key=a)
    q = ctx.method(SAH, '__contains__')
    for p in ctx.run(q, self_cls=SAH, raise_pred=lambda *a: False):
        if p.kind == 'x':
            continue
        got = None
        for k, v in p.state.null.items():
            k = core(k)
            if k[0] == 'obs' and k[1] == 'get' and k[2] == SELF and k[3] and core(k[3][0]) in (sym('key'), sym('name'), ('m', 'lower', sym('key'), ())):
                got = False if v == N_ else True if 'N' not in v else 'both'
        t = truthy(p.state, p.value)
        if got is None or t is None:
            ctx.ob(None, q, 'membership is that a header has the name')
        else:
            ctx.ob(got == t, q, 'membership is that a header has the name', path=p, key='in')


def check_ctor(ctx):
    ctx.cur = 'construct'
    h2 = [q for q in ctx.prog.funcs if q.endswith(':headers_to_str_headers')]
    init = ctx.method(SAH, '__init__')
    n = 0
    for p in ctx.run(SAH, construct=True, boundary=frozenset(h2), raise_pred=lambda *a: False):
        if p.kind == 'x':
            continue
        stores = [e for e in p.events() if e.kind == 'store' and e.name == LIST and core(e.recv) == SELF]
        if not stores:
            ctx.ob(False, init, 'the headers are kept', path=p, key='kept')
            continue
        v = core(stores[-1].args[0])
        conv = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'headers_to_str_headers']
        if v == sym('headers'):
            ctx.ob(False, stores[-1], 'the caller\'s list is not shared', path=p, key='shared')
        else:
            ok = conv and core(conv[-1].result) == v and core(conv[-1].args[0]) == sym('headers')
            ctx.ob(True if ok else None, stores[-1], 'the headers are the given ones as text', path=p, key='given')
        n += 1
        f = {a: core(p.state.store.get(('h', SELF, a), ('none',))) for a in ('protocol', 'total_len', 'statusline')}
        req = truthy(p.state, sym('is_http_request'))
        ctx.ob(f['total_len'] == sym('total_len'), init, 'the length read is kept', path=p, key='len')
        if req is not True:
            ctx.ob(f['protocol'] == sym('protocol') and f['statusline'] == sym('statusline'), init, 'protocol and status line are kept as given', path=p, key='line')
        else:
            a, b = f['protocol'], f['statusline']
            def part(t, i):
                return t[0] == 'idx' and t[2] == K(i) and t[1][0] == 'm' and t[1][1] == 'split' and core(t[1][2]) == sym('statusline') and list(t[1][3]) == [K(' '), K(1)]
            ctx.ob(True if part(a, 0) and part(b, 1) else False if part(a, 1) and part(b, 0) or any(t[0] == 'idx' and t[1][0] == 'm' and t[1][1] in ('rsplit', 'rpartition') and core(t[1][2]) == sym('statusline') for t in (a, b)) else None, init, 'the verb of a request is its protocol', path=p, key='request')
    # conversion: each pair, in order, bytes read as latin-1
    for q in h2:
        done = set()
        n = 0
        for p in ctx.run(q, raise_pred=lambda *a: False):
            if p.kind == 'x' or 'PY2' in str([k for k, v in p.state.lits.items() if v]) or any('PY2' in str(k) and v == T_ for k, v in p.state.null.items()):
                continue
            n += convert_loop(ctx, q, p, done)
            ap = {core(e.recv) for e in flat(p.items) if isinstance(e, Event) and is_append(e)}
            v = core(p.value)
            if len(ap) == 1:
                ctx.ob(True if v in ap else False if v == sym('headers') or is_k(v) else None, q, 'the list of the pairs is returned', path=p, key='returned')
            elif v == sym('headers'):
                ctx.ob(False, q, 'the list of the pairs is returned', path=p, key='returned')
        if not n:
            ctx.ob(None, q, 'how the pairs are converted')


def is_append(e):
    return e.kind == 'append' or e.kind == 'call' and tail(e.name) in ('append', 'insert', 'extend')


def convert_loop(ctx, q, p, done):
    """a loop over the pairs that appends one pair each"""
    H = sym('headers')
    n = 0
    for seg in segments(p.items, done):
        end = seg[-1] if seg and isinstance(seg[-1], SegEnd) else None
        nx = [e for e in seg if isinstance(e, Event) and e.kind == 'next']
        nx = [e for e in nx if any(core(x) == H for x in subterms(e.recv))]
        if not nx:
            continue
        n += 1
        if end is None:
            ctx.ob(False, nx[0], 'every pair is taken', path=p, key='leaves')
            continue
        src = core(nx[0].recv)
        ordered = src == H or (src[0] in ('op', 'm', 'obs') and tail(str(src[1])) in ('items', 'iteritems', 'list', 'iter', 'tuple'))
        ctx.ob(True if ordered else False if tail(str(src[1])) in ('sorted', 'reversed', 'set', 'dict') else None, nx[0], 'in the given order', path=p, key='order')
        ap = [e for e in seg if isinstance(e, Event) and is_append(e)]
        pr = appended(ap[0]) if len(ap) == 1 else None
        if len(ap) > 1 or not ap:
            ctx.ob(False, ap[-1] if ap else nx[0], 'one pair for each given one', path=p, key='one')
            continue
        if pr is None:
            ctx.ob(None, ap[0], 'one pair for each given one')
            continue
        item = core(nx[0].result)
        for i in (0, 1):
            t = core(pr[i])
            src = ('idx', item, K(i))
            if core(t) == src:
                isb = [vv for k, vv in end.state.lits.items() if k[0] == 'cond' and 'isinstance' in str(k[1]) and any(core(x) == src for x in subterms(k[1]))]
                ctx.ob(True, ap[0], 'text as it is', path=p)
                continue
            enc = [x for x in subterms(t) if is_k(x, 'str')]
            has = any(core(x) == src for x in subterms(t))
            lat = [x[2].lower().replace('_', '-') for x in enc]
            ok = has and (not lat or all(x in ('iso-8859-1', 'latin-1', 'latin1') for x in lat))
            other = any(core(x) == ('idx', item, K(1 - i)) for x in subterms(t))
            ctx.ob(True if ok else False if other or any(x in ('utf-8', 'ascii', 'utf8') for x in lat) else None, ap[0], 'bytes are read as latin-1, which loses nothing', path=p, key='latin%d' % i)
    return n


def check(ctx):
    ctx.rule('lookup', 'get_header goes over the whole list from the first header, passes over only headers whose name differs ignoring case, returns the value of the first that matches, and the default when the list ends; it changes nothing')
    ctx.rule('replace', 'replace_header goes over the whole list from the first header; the first match is set in place to the given value and its old value returned; without a match exactly one header is appended')
    ctx.rule('remove', 'remove_header goes over the whole list without an early exit, in an order in which deleting does not skip a header, deletes each match and nothing else, and tells whether it did')
    ctx.rule('add', 'add_header appends the pair as given')
    ctx.rule('mapping', 'the mapping operations are the lookup, replacement and removal; membership is a lookup that is not None')
    ctx.rule('construct', 'a StatusAndHeaders keeps its own list of the given pairs, in order, bytes read as latin-1, with status line, protocol and length as given')
    for fn in (check_get, check_replace, check_remove, check_add, check_dict, check_ctor):
        ctx.guarded(fn)
