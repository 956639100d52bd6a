"""The header parser: exactly the header block is read, every header of it is kept, in order."""
from ..core import *
from .util import *
from ..interp import Undecided
from .c26 import text

STRIPS = ('rstrip', 'strip')


class Walk(object):
    """which values are the line read last (raw: as read or decoded; stripped: without the end of line)"""

    def __init__(self, ctx, stream, quiet=False):
        self.ctx, self.stream, self.quiet = ctx, stream, quiet
        self.terms = set()       # values that are the last line
        self.strip = set()       # ... without its end
        self.nread = 0

    def copy(self):
        w = Walk(self.ctx, self.stream, self.quiet)
        w.terms, w.strip, w.nread = set(self.terms), set(self.strip), self.nread
        return w

    def stripped(self, t):
        if t in self.strip:
            return True
        return t is not None and t[0] == 'm' and t[1] in STRIPS and self.last(t[2])

    def last(self, t):
        if t is None:
            return False
        if t in self.terms or t in self.strip:
            return True
        if t[0] == 'm' and t[1] in STRIPS + ('decode',) and self.last(t[2]):
            return True
        return False

    def blank(self, st):
        """is the last line known to be empty"""
        out = set()
        for t in st.null:
            if self.stripped(t) or t in self.strip or (self.last(t) and 'T' not in st.nullness(t)):
                out.add(truthy(st, t))
        for t in self.strip:
            out.add(truthy(st, t))
        out.discard(None)
        if len(out) == 1:
            return not out.pop()
        return None

    def event(self, e, path):
        if e.kind == 'call' and e.recv is not None and core(e.recv) == self.stream:
            if tail(e.name) != 'readline':
                if not self.quiet:
                    self.ctx.ob(None, e, 'how the stream is read')
                return
            if self.nread and not self.quiet:
                b = self.blank(e.state)
                self.ctx.ob(None if b is None else not b, e, 'no line is read after the empty one', path=path, key='past')
            self.nread += 1
            self.terms, self.strip = {e.result}, set()
        elif e.kind in ('call', 'pure') and e.result is not None and any(self.last(a) for a in e.args):
            if tail(e.name) in ('decode_header', 'to_native_str', 'decode'):
                if any(self.stripped(a) for a in e.args):
                    self.strip.add(e.result)
                else:
                    self.terms.add(e.result)

    def walk(self, items, path):
        for it in items:
            if isinstance(it, Event):
                self.event(it, path)
            elif isinstance(it, LoopRef):
                self.loop(it, path)
        return self

    def at(self, head, keys, nread):
        w = Walk(self.ctx, self.stream, self.quiet)
        for k, cls in keys.items():
            t = head.store.get(k)
            if t is not None:
                (w.strip if cls == 's' else w.terms).add(t)
        w.nread = nread
        return w

    def loop(self, ref, path):
        heads = {i: getattr(h, 'state', h) for i, h in enumerate_heads(ref.loop)}
        ent = heads[ref.entry]
        keys = {}
        for k, t in ent.store.items():
            if self.stripped(t):
                keys[k] = 's'
            elif self.last(t):
                keys[k] = 'r'
        n = self.nread or 1
        reads = any(isinstance(e, Event) and e.kind == 'call' and e.recv is not None and core(e.recv) == self.stream
                    for i in ref.loop.trans for seg, j in ref.loop.trans[i] for e in flat(seg))
        if not reads:
            return
        changed = True
        while changed:
            changed = False
            for i in sorted(ref.loop.trans):
                for seg, j in ref.loop.trans[i]:
                    w = self.at(heads[i], keys, n)
                    w.quiet = True
                    w.walk(seg, path)
                    end = seg[-1].state
                    for k in list(keys):
                        t = end.store.get(k)
                        ok = w.stripped(t) if keys[k] == 's' else w.last(t)
                        if not ok:
                            del keys[k]
                            changed = True
        if not self.quiet:
            mark = (id(ref.loop), tuple(sorted(map(str, keys.items()))))
            seen = self.ctx.__dict__.setdefault('_walked', {})
            if mark not in seen:
                seen[mark] = ref.loop
                for i in sorted(ref.loop.trans):
                    for seg, j in ref.loop.trans[i]:
                        self.at(heads[i], keys, n).walk(seg, path)
        w = self.at(heads[ref.at], keys, n)
        self.terms, self.strip = w.terms, w.strip


def enumerate_heads(loop):
    h = loop.heads
    return list(h.items()) if isinstance(h, dict) else list(enumerate(h))


def parse_paths(ctx):
    if not hasattr(ctx, '_parsepaths'):
        q = ctx.method(SHP, 'parse')
        ctx._parsepaths = (q, ctx.run(q, self_cls=SHP, raise_pred=lambda *a: False))
    return ctx._parsepaths


def check_block(ctx):
    ctx.cur = 'block'
    q, ps = parse_paths(ctx)
    for p in ps:
        if p.kind == 'x':
            continue
        w = Walk(ctx, sym('stream'))
        fs = sym('full_statusline')
        w.terms = {fs}
        w.nread = 1 if is_none(p.state, fs) is not True else 0
        w.walk(p.items, p)
        b = w.blank(p.state)
        ctx.ob(b, q, 'reading ends with the empty line', path=p, key='end')


# -- headers of a block ------------------------------------------------------
def part_of(t):
    """(line, 'name'|'value') when t is a part of line split at its first colon, whitespace around it removed"""
    t = core(t)
    ok = True
    while t[0] == 'm' and t[1] in ('strip', 'rstrip', 'lstrip', 'lower', 'upper', 'title', 'capitalize', 'swapcase', 'casefold', 'replace'):
        if t[1] not in ('strip', 'rstrip', 'lstrip') or t[3] and not (is_k(t[3][0], 'str') and not t[3][0][2].strip(' \t\r\n')):
            ok = False
        t = core(t[2])
    if t[0] != 'idx' or t[2][0] != 'k' or not isinstance(t[2][2], int):
        return None
    s, i = core(t[1]), t[2][2]
    if s[0] != 'm' or not s[3] or s[3][0] != K(':'):
        return None
    if s[1] == 'split' and len(s[3]) == 2 and s[3][1] == K(1) and i in (0, 1, -1):
        return s[2], ('name', 'value')[1 if i else 0] if ok else 'bad'
    if s[1] == 'partition' and i in (0, 2, -1):
        return s[2], ('name' if i == 0 else 'value') if ok else 'bad'
    if s[1] in ('split', 'rsplit', 'rpartition'):
        return s[2], 'bad'
    return None


def colon(st, line):
    """does the line have a colon"""
    out = set()
    for k, v in st.lits.items():
        if k[0] == 'eq':
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if a[0] == 'len' and is_k(b, 'int') and a[1][0] == 'm' and a[1][1] == 'split' and a[1][2] == line and a[1][3] and a[1][3][0] == K(':'):
                    out.add(v if b[2] == 2 else not v if b[2] == 1 else None)
        if k[0] == 'cond' and k[1][0] == 'op' and k[1][1] == 'in' and k[1][2] == (K(':'), line):
            out.add(v)
        if k[0] in ('le', 'lt') and any(x[0] == 'len' and x[1][0] == 'm' and x[1][1] == 'split' and x[1][2] == line for x in subterms(k[1:]) if isinstance(x, tuple) and len(x) > 1 and isinstance(x[1], tuple) and len(x[1]) > 2):
            return None
    for t in st.null:
        if t[0] == 'idx' and t[2] == K(1) and t[1][0] == 'm' and t[1][1] == 'partition' and t[1][2] == line:
            out.add(truthy(st, t))
    return out.pop() if len(out) == 1 else None


def split_lines(items, st):
    out = set()
    for t in list(st.null) + [x for k in st.lits for x in k[1:] if isinstance(x, tuple)] + list(st.store.values()):
        for x in subterms(t):
            if x[0] == 'm' and x[1] in ('split', 'partition') and x[3] and x[3][0] == K(':'):
                out.add(x[2])
    return out


def check_headers(ctx):
    ctx.cur = 'headers'
    q, ps = parse_paths(ctx)
    seen, done = set(), set()
    n = 0
    for p in ps:
        if p.kind == 'x':
            continue
        made = [e for e in p.events() if e.kind == 'new' and e.name == SAH]
        if len(made) != 1:
            ctx.ob(None, q, 'the headers read are the result')
            continue
        hl = core(made[0].arg(1, 'headers'))
        for ref in [x for x in p.items if isinstance(x, LoopRef)]:
            if id(ref.loop) in seen:
                continue
            seen.add(id(ref.loop))
            for i in sorted(ref.loop.trans):
                for seg, j in ref.loop.trans[i]:
                    n += 1
                    one_header(ctx, q, p, seg, hl, getattr(ref.loop.heads[i], 'state', ref.loop.heads[i]), done)
        for e in p.items:
            if isinstance(e, Event) and e.kind in ('append', 'setitem', 'delitem') and core(e.recv) == hl:
                ctx.ob(None, e, 'how the headers are collected')
    if not n:
        ctx.ob(None, q, 'how the headers are collected')


def one_header(ctx, q, p, seg, hl, head, done):
    end = seg[-1].state
    own = [e for e in flat(seg) if isinstance(e, Event)]
    ap = [e for e in seg if isinstance(e, Event) and core(e.recv or ('none',)) == hl and e.kind in ('append', 'setitem', 'delitem', 'call')]
    inner = [x for x in seg if isinstance(x, LoopRef)]
    if any(isinstance(e, Event) and e.kind == 'append' and core(e.recv) == hl for x in inner for i in x.loop.trans for s, j in x.loop.trans[i] for e in flat(s)):
        ctx.ob(None, q, 'how the headers are collected')
        return
    where = [e for e in own if e.kind == 'call'][0] if [e for e in own if e.kind == 'call'] else q
    lines = {t for t in head.store.values() if any(x[0] == 'm' and x[1] in ('split', 'partition') and x[2] == t for s in [end] for k in s.lits for y in k[1:] if isinstance(y, tuple) for x in subterms(y))}
    lines |= {x[2] for e in ap if e.args for x in subterms(e.args[0]) if x[0] == 'm' and x[1] in ('split', 'partition', 'rsplit', 'rpartition')}
    if len(lines) != 1:
        lines = {t for t in lines if t in set(head.store.values())}
    if len(lines) != 1:
        ctx.ob(None, where, 'one header for each line with a colon')
        return
    line = lines.pop()
    c = colon(end, line)
    seps = {x[3][0][2] for k in end.lits for y in k[1:] if isinstance(y, tuple) for x in subterms(y) if x[0] == 'm' and x[1] in ('split', 'partition') and x[2] == line and x[3] and is_k(x[3][0], 'str')}
    if c is None and seps and ':' not in seps:
        ctx.ob(False, where, 'one header for each line with a colon', path=p, key='colon')
    elif c is None:
        ctx.ob(None, where, 'one header for each line with a colon')
    elif c is False:
        ctx.ob(not ap, ap[0] if ap else where, 'a line without a colon is no header', path=p, key='nocolon')
    else:
        ok = len(ap) == 1 and ap[0].kind == 'append' and tail(ap[0].name) != 'insert'
        ctx.ob(ok, ap[0] if ap else where, 'one header, at the end of the list, for each line with a colon', path=p, key='one')
    if len(ap) != 1 or ap[0].kind != 'append' or tail(ap[0].name) == 'insert':
        return
    e = ap[0]
    t = core(e.args[0])
    if t[0] != 'tup' or len(t[1]) != 2:
        ctx.ob(None, e, 'the name and value of the header')
        return
    nm, v = t[1]
    pn = part_of(nm)
    if pn == (line, 'name'):
        next_line(ctx, p, seg, head, e)
    ctx.ob(None if pn is None else pn == (line, 'name'), e, 'the name is what comes before the first colon', path=p, key='name')
    # the value, with what continuation lines add
    parts = text(v)
    first = parts[0] if parts else None
    if first is None:
        ctx.ob(False, e, 'the value is what follows the first colon', path=p, key='value')
        return
    if core(first)[0] == 'phi':
        k = core(first)[2]
        src = None
        for x in inner:
            ent = getattr(x.loop.heads[x.entry], 'state', x.loop.heads[x.entry])
            src = ent.store.get(k, src)
        pv = part_of(src) if src is not None else None
    else:
        pv = part_of(first)
    ctx.ob(None if pv is None else pv == (line, 'value'), e, 'the value is what follows the first colon', path=p, key='value')
    for x in inner:
        if id(x.loop) in done:
            continue
        done.add(id(x.loop))
        continuation(ctx, q, p, x)


def now(t, pred):
    """is there such a value in the term, of this round of the loop"""
    if not isinstance(t, tuple) or t[:1] == ('old',):
        return False
    return t and isinstance(t[0], str) and pred(t) or any(now(x, pred) for x in t[1:])


def next_line(ctx, p, seg, head, e):
    """the header is complete: the line read after it is empty or does not continue it"""
    w = Walk(ctx, sym('stream'), quiet=True)
    w.nread = 1
    w.walk(seg, p)
    if w.nread < 2 and not any(isinstance(x, LoopRef) for x in seg):
        return
    st = seg[-1].state
    if w.blank(st) is True:
        return
    got = set()
    other = False       # what the line starts with is decided in another way
    for k, v in st.lits.items():
        t = k[1]
        if k[0] == 'cond' and t[0] in ('m', 'op') and t[1] == 'startswith':
            subj, cs = (t[2], t[3]) if t[0] == 'm' else (t[2][0], t[2][1:])
            pre = [x for x in ([cs[0]] if is_k(cs[0]) else cs[0][1] if cs[0][0] in ('tup', 'lst') else [cs[0]])] if cs else []
            if pre and all(is_k(x, 'str') for x in pre):
                if w.last(subj) and not v:
                    got |= {x[2] for x in pre}
                continue
        elif k[0] == 'cond' and t[0] == 'op' and t[1] == 'in' and len(t[2]) == 2:
            subj, cs = t[2]
            if subj[0] == 'idx' and subj[2] == K(0) and (is_k(cs, 'str') or cs[0] in ('tup', 'lst', 'set') and all(is_k(x, 'str') for x in cs[1])):
                if w.last(subj[1]) and not v:
                    got |= set(cs[2]) if is_k(cs) else {x[2] for x in cs[1]}
                continue
        other = other or any(w.last(core(x)) for y in k[1:] if isinstance(y, tuple) for x in subterms(y))
    if {' ', '\t'} <= got:
        ctx.ob(True, e, 'the lines that continue a header are added to it')
        return
    other = other or any(now(t, w.last) for t in st.null if not w.last(t) and truthy(st, t) is not None)
    ctx.ob(None if other else False, e, 'all lines that continue a header are added to it', path=p, key='more')


def continuation(ctx, q, p, ref):
    ctx.cur = 'continuation'
    heads = {i: getattr(h, 'state', h) for i, h in enumerate_heads(ref.loop)}
    ent = heads[ref.entry]
    kv = [k for k, t in ent.store.items() if part_of(t) is not None and part_of(t)[1] == 'value']
    none = not kv
    for i in sorted(ref.loop.trans):
        for seg, j in ref.loop.trans[i]:
            reads = [e for e in seg if isinstance(e, Event) and e.kind == 'call' and tail(e.name) == 'readline']
            if not reads:
                continue
            e = reads[0]
            sw = [(k[1], v) for k, v in e.state.lits.items() if k[0] == 'cond' and k[1][0] in ('m', 'op') and k[1][1] == 'startswith']
            for t, v in sw:
                cs = t[3] if t[0] == 'm' else t[2][1:]
                pre = [x[2] for a in cs for x in ([a] if is_k(a) else a[1]) if is_k(x, 'str')] if all(is_k(a) or a[0] in ('tup', 'lst') for a in cs) else None
                if v and pre is not None and len(cs) == 1 and not is_k(cs[0]):
                    ctx.ob(set(pre) == {' ', '\t'}, e, 'a continuation line starts with a space or a tab', path=p, key='start')
            if not kv or len(kv) > 1:
                continue
            k = kv[0]
            a, b = text(heads[i].store[k]), text(seg[-1].state.store.get(k, K(None)))
            extra = b[len(a):] if b[:len(a)] == a else None
            if extra is None:
                ctx.ob(None if len(b) > 1 else False, e, 'a continuation line is added to the value', path=p, key='lost')
                continue
            last = set(heads[i].store.values()) | {x for t in heads[i].store.values() for x in subterms(t)}
            def is_prev(t):
                t = core(t)
                return t in last or t[0] == 'm' and t[1] in ('strip', 'rstrip', 'lstrip') and is_prev(t[2])
            rest = [x for x in extra if not (is_k(x, 'str') and not x[2].strip())]
            if not rest and any(isinstance(x, Event) and x.kind == 'append' for x in seg):
                ctx.ob(None, e, 'a continuation line is added to the value')
                continue
            glued = [x for n_, x in enumerate(extra) if core(x)[0] == 'm' and core(x)[1] in ('strip', 'lstrip') and not core(x)[3] and is_prev(x) and
                     not (n_ and is_k(extra[n_ - 1], 'str') and extra[n_ - 1][2][-1:] in (' ', '\t'))]
            if glued and len(rest) == 1:
                ctx.ob(False, e, 'a continuation line is separated from what it continues', path=p, key='glued')
            ctx.ob(len(rest) == 1 and (is_prev(rest[0]) or None) if rest else False, e, 'a continuation line is added to the value', path=p, key='added')
    ctx.cur = 'headers'


def check_status(ctx):
    ctx.cur = 'status'
    q, ps = parse_paths(ctx)
    FS = sym('full_statusline')
    VER = ctx.slots(SHP)[0].get('verify', 'verify')
    for p in ps:
        evl = list(p.events())
        reads = [e for e in evl if e.kind == 'call' and tail(e.name) == 'readline' and core(e.recv or ('none',)) == sym('stream')]
        given = is_none(p.state, FS)
        top = [e for e in p.items if isinstance(e, Event) and e.kind == 'call' and tail(e.name) == 'readline']
        w = Walk(ctx, sym('stream'), quiet=True)
        if given is True:
            if not top:
                ctx.ob(False, q, 'the first line is the status line', path=p, key='first')
                continue
            w.terms = {top[0].result}
        elif given is False:
            w.terms = {FS}
        else:
            ctx.ob(None, q, 'the status line')
            continue
        for e in p.items:
            if isinstance(e, Event) and e.kind in ('call', 'pure') and e.result is not None and tail(e.name) != 'readline' and any(w.last(a) for a in e.args) and tail(e.name) in ('decode_header', 'to_native_str', 'decode'):
                (w.strip if any(w.stripped(a) for a in e.args) else w.terms).add(e.result)
        st = p.state
        raw = [truthy(st, t) for t in st.null if w.last(t) and not w.stripped(t) and truthy(st, t) is not None]
        empty = None if not raw else not raw[0] if len(set(raw)) == 1 else None
        if any(truthy(st, t) for t in list(st.null) if w.stripped(t)):
            empty = False
        for k, v in st.lits.items():
            if k[0] == 'eq' and K(0) in k[1:] and any(x[0] == 'len' and w.last(x[1]) for x in k[1:]):
                empty = v
        sts = {truthy(st, t) for t in st.null if w.stripped(t)} - {None}
        blank = True if sts == {False} else False if sts == {True} else None
        if empty is None and blank is True and not any(w.last(x) for k in st.lits for y in k[1:] if isinstance(y, tuple) for x in subterms(y)):
            empty = 'either'
        if p.kind == 'x':
            kind = exc_types(p.value)
            if kind and any('EOFError' in k for k in kind):
                ctx.ob(None if empty is None else empty is True, q, 'EOFError means nothing was left', path=p, key='eof')
                continue
            sp = [e for e in evl if e.kind == 'call' and tail(e.name) == 'split_prefix']
            ver = truthy(st, ('fld', SELF, VER, 0))
            if sp:
                ctx.ob(truthy(st, sp[0].result) is not True, q, 'only a status line that matches no prefix is refused', path=p, key='refused')
                ctx.ob(ver is True, q, 'only if verifying', path=p, key='verify')
            continue
        if empty in (True, 'either'):
            ctx.ob(False, q, 'EOFError when nothing was left', path=p, key='eof')
            continue
        made = [e for e in evl if e.kind == 'new' and e.name == SAH]
        if len(made) != 1:
            continue
        m = made[0]
        if blank is True:
            ctx.ob(not any(isinstance(x, LoopRef) for x in p.items) and (len(top) <= (1 if given else 0)), m, 'an empty status line ends the block', path=p, key='blank')
            continue
        sp = [e for e in evl if e.kind == 'call' and tail(e.name) == 'split_prefix']
        ver = truthy(st, ('fld', SELF, VER, 0))
        if ver is True:
            if not sp:
                ctx.ob(None, m, 'the status line is verified')
                continue
            ctx.ob(truthy(st, sp[0].result) is True, m, 'a status line that matches no prefix is refused', path=p, key='accepted')
            ctx.ob(w.last(sp[0].args[0]) and is_fld(core(sp[0].args[1]), 'statuslist'), sp[0], 'the status line is matched against the prefixes', path=p, key='matched')
            src = sp[0].result
        else:
            src = None
        pr, sl = core(m.arg(2, 'protocol')), core(m.arg(0, 'statusline'))
        if pr is None or sl is None:
            ctx.ob(False, m, 'protocol and status line are kept', path=p, key='kept')
            continue
        def idx(t, i):
            while t[0] == 'm' and t[1] in ('strip', 'rstrip', 'lstrip'):
                t = core(t[2])
            return core(t[1]) if t[0] == 'idx' and t[2] == K(i) else None
        a, b = idx(pr, 0), idx(sl, 1)
        if src is not None:
            ctx.ob(a == src if a is not None else None, m, 'the protocol is the prefix', path=p, key='protocol')
            ctx.ob(b == src if b is not None else False if idx(sl, 0) == src or cut(sl, src) else (None if not is_k(sl) else short(st, src)), m, 'the status line is the rest', path=p, key='rest')
        else:
            ok = a is not None and a[0] == 'm' and a[1] == 'split' and w.last(a[2]) and a[3] == (K(' '), K(1))
            ctx.ob(True if ok else False if a is not None and a[0] == 'm' and a[1] == 'rsplit' and w.last(a[2]) else None, m, 'the protocol is the first word', path=p, key='word')
            if b is not None:
                ctx.ob(b == a, m, 'the status line is the rest', path=p, key='rest')
            elif cut(sl, a):
                ctx.ob(False, m, 'the status line is the rest', path=p, key='rest')


def cut(t, src):
    """only a part of what is left, or something else made of it"""
    return src is not None and t[0] in ('idx', 'slice', 'm') and contains(t, src)


def short(st, src):
    """is the pair known to have no second part"""
    num = [k for k in st.nums if isinstance(k, tuple) and any(x == ('len', src) for x in subterms(k))] if hasattr(st, 'nums') else []
    return bool(num) or any(x == ('len', src) for k in st.lits for y in k[1:] if isinstance(y, tuple) for x in subterms(y))


def check_prefix(ctx):
    ctx.cur = 'prefix'
    q = ctx.method(SHP, 'split_prefix')
    f = ctx.prog.funcs[q]
    key, pres = [sym(x) for x in f.posargs if x != 'self'][:2]
    n = 0
    done = set()
    for p in ctx.run(q, raise_pred=lambda *a: False):
        if p.kind == 'x':
            continue
        for seg in segments(p.items, done):
            nx = [e for e in seg if isinstance(e, Event) and e.kind == 'next' and core(e.recv) == pres]
            st = p.state if seg is p.items else seg[-1].state if isinstance(seg[-1], SegEnd) else None
            if not nx or st is None:
                continue
            n += 1
            pre = core(nx[0].result)
            sw = set()
            for k, v in st.lits.items():
                if k[0] == 'cond' and k[1][0] == 'm' and k[1][1] == 'startswith':
                    subj = k[1][2]
                    plain = subj == key
                    up = subj[0] == 'm' and subj[1] == 'upper' and subj[2] == key
                    if (plain or up) and len(k[1][3]) == 1:
                        a = core(k[1][3][0])
                        if up and (a == pre or a == ('m', 'upper', pre, ())):
                            sw.add(v)
                        elif plain:
                            ctx.ob(None if a[0] == 'm' else False, nx[0], 'the case of the status line does not matter', path=p, key='case')
            m = sw.pop() if len(sw) == 1 else None
            if seg is p.items:
                ctx.ob(None if m is None else m, nx[0], 'the prefix the line starts with', path=p, key='match')
                t = core(p.value)
                if t[0] != 'tup' or len(t[1]) != 2:
                    ctx.ob(None, nx[0], 'the prefix and the rest are returned')
                    continue
                a, b = core(t[1][0]), core(t[1][1])
                ln = ('len', pre)
                ctx.ob(True if a == pre or any(x == ('m', 'upper', key, ()) for x in subterms(a)) or a[0] == 'm' and a[1] == 'upper' else False if a[0] == 'slice' and core(a[1]) == key or a == key else None, nx[0], 'the protocol is the prefix as it is listed', path=p, key='listed')
                if b[0] == 'slice':
                    lo = b[2] if len(b) > 2 else None
                    ctx.ob(b[1] == key and core(lo) == ln, nx[0], 'the rest is what follows the prefix, as written', path=p, key='rest')
                else:
                    ctx.ob(None, nx[0], 'the rest is what follows the prefix, as written')
            else:
                ctx.ob(None if m is None else not m, nx[0], 'the first matching prefix', path=p, key='first')
    if not n:
        ctx.ob(None, q, 'how the prefixes are tried')


def check_decode(ctx):
    ctx.cur = 'decode'
    q = ctx.method(SHP, 'decode_header')
    n = 0
    for p in ctx.run(q, all_raises=True):
        evl = list(p.events())
        ds = [e for e in evl if e.kind in ('call', 'pure') and tail(e.name) in ('to_native_str', 'decode')]
        v = core(p.value) if p.kind != 'x' and p.value is not None else NONE
        if v[0] == 'm' and v[1] == 'decode' and len(v[3]) > 1 and is_k(v[3][1]) and v[3][1][2] != 'strict':
            ctx.ob(False, q, 'no byte of the line is replaced or dropped', path=p, key='lossy')
        if not ds:
            continue
        n += 1
        enc = []
        for e in ds:
            a = e.arg(1, 'encoding') if tail(e.name) == 'to_native_str' else (e.args[0] if e.args else None)
            enc.append(a[2].lower().replace('_', '-') if a is not None and is_k(a, 'str') else None)
        total = ('iso-8859-1', 'latin-1', 'latin1', 'iso8859-1')
        if p.kind == 'x':
            ctx.ob(enc[-1] in total if enc[-1] is not None else None, ds[-1], 'bytes of any encoding are read', path=p, key='refused')
            continue
        ctx.ob(enc[0] in ('utf-8', 'utf8', None) if enc[0] is not None else None, ds[0], 'utf-8 is tried first', path=p, key='utf8')
        if len(ds) > 1:
            ctx.ob(enc[-1] in total if enc[-1] is not None else None, ds[-1], 'otherwise latin-1', path=p, key='latin')
    if not n:
        ctx.ob(None, q, 'how a line is decoded')


def check(ctx):
    ctx.rule('block', 'the parser stops reading exactly at the first empty line (or the end): no line is read after it, and none before it is left')
    ctx.rule('headers', 'each line with a colon becomes exactly one header, in order: name before the first colon, value after it; others none')
    ctx.rule('continuation', 'lines that start with a space or a tab are added to the value of the header before')
    ctx.rule('status', 'the first line is the status line: EOFError iff nothing is left, an empty one ends the block, one without a known prefix is refused when verifying; protocol and rest are kept')
    ctx.rule('prefix', 'the first prefix the line starts with, ignoring the case of the line, and the rest as written')
    ctx.rule('decode', 'a line is utf-8 if it can be, otherwise latin-1, which takes any bytes')
    for fn in (check_block, check_headers, check_status, check_prefix, check_decode):
        ctx.guarded(fn)
