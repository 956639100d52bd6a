"""ARC header lines: what is read of them, and the WARC headers they become."""
from ..core import *
from .util import *
from ..interp import Undecided
from .c26 import text

M = 'warcio.recordloader:'
ARC, A2W = M + 'ARCHeadersParser', M + 'ARC2WARCHeadersParser'
FIELDS = {ARC: ['uri', 'ip-address', 'archive-date', 'content-type', 'length'],
          A2W: ['WARC-Target-URI', 'WARC-IP-Address', 'WARC-Date', 'Content-Type', 'Content-Length']}
FD = 'filedesc://'
HTTP = 'application/http'


def stripped(t, lines):
    t = core(t)
    while t[0] == 'm' and t[1] in ('strip', 'rstrip'):
        t = core(t[2])
    return t in lines


def lines_of(p, given):
    """values that are the header line of a path"""
    out = {sym('headerline')} if given else set()
    for e in p.items:
        if not isinstance(e, Event) or e.kind not in ('call', 'pure') or e.result is None:
            continue
        if tail(e.name) == 'readline' and not out:
            out.add(core(e.result))
        elif tail(e.name) in ('decode_header', 'to_native_str', 'decode') and any(core(a) in out for a in list(e.args) + [e.recv or ('none',)]):
            out.add(core(e.result))
    return out


def is_filedesc(st, lines):
    out = set()
    for k, v in st.lits.items():
        t = k[1]
        if k[0] == 'cond' and t[0] == 'm' and t[1] == 'startswith' and (stripped(t[2], lines) or t[2][0] == 'idx') and t[3] and is_k(t[3][0], 'str') and FD.startswith(t[3][0][2][:8]) and t[3][0][2]:
            out.add(v)
    return out.pop() if len(out) == 1 else None


def check_parse(ctx):
    q = ctx.method(ARC, 'parse')
    for cls in (ARC, A2W):
        attr = names_attr(ctx, cls)
        done = set()
        n = 0
        for p in ctx.run(q, self_cls=cls, raise_pred=lambda *a: False):
            ctx.cur = 'line'
            st = p.state
            given = is_none(st, sym('headerline'))
            if given is None:
                ctx.ob(None, q, 'where the header line comes from')
                continue
            reads = [e for e in p.items if isinstance(e, Event) and e.kind == 'call' and tail(e.name) == 'readline']
            lines = lines_of(p, not given)
            raw = [truthy(st, t) for t in st.null if core(t) in lines and truthy(st, t) is not None]
            if p.kind == 'x' and any('EOFError' in x for x in exc_types(p.value) or ()):
                ctx.ob(False if raw and all(raw) else True if raw and not any(raw) else None if raw else False, q, 'EOFError means nothing was left', path=p, key='eof')
                continue
            decoded = [t for t in lines if t[0] == 'ev']
            if decoded and not any(truthy(st, t) for t in decoded) and not any(truthy(st, t) for t in st.null if stripped(t, lines)):
                ctx.ob(False if not any(core(x) in lines for k in st.lits for y in k[1:] if isinstance(y, tuple) for x in subterms(y) if k[0] == 'eq') else None, q, 'EOFError when nothing was left', path=p, key='noeof')
            for x in set(allterms(st)):
                if x[0] == 'm' and x[1] in ('lower', 'upper', 'casefold', 'title', 'replace', 'translate') and stripped(x[2], lines) and any(y[0] == 'm' and y[1] in ('split', 'rsplit') and contains(y[2], x) for y in allterms(st)):
                    ctx.ob(False, q, 'the fields are taken from the line as it is', path=p, key='changed')
            fd = is_filedesc(st, lines)
            own = reads[1:] if given else reads
            if fd is None:
                ctx.ob(None, q, 'what belongs to the file header')
            else:
                ctx.ob(len(own) == (2 if fd else 0), own[-1] if own else q, 'the two lines after a file header, and none after another, are read', path=p, key='lines')
            # number of fields
            rs = [x for t in list(st.null) + [y for k in st.lits for y in k[1:] if isinstance(y, tuple)] + list(st.store.values()) for x in subterms(t) if x[0] == 'm' and x[1] in ('rsplit', 'split') and stripped(x[2], lines)]
            parts = set(rs)
            if p.kind == 'x':
                continue
            made = [e for e in p.events() if e.kind == 'new' and e.name == SAH]
            if len(made) != 1:
                ctx.ob(None, q, 'what a header line becomes')
                continue
            n += 1
            m = made[0]
            ctx.cur = 'length'
            tl = m.arg(3, 'total_len')
            if fd is not None:
                c, at = lin_parts(tl) if tl is not None else (0, ())
                got = dict(at)
                want = {('len', e.result): 1 for e in own} if fd else {}
                ok = c == 0 and got == want
                over = any(k[0] == 'len' and any(core(x) in {core(e.result) for e in own} for x in subterms(k)) and k not in want for k in got)
                ctx.ob(True if ok else False if all(k[0] == 'len' for k in got) or over else None, m, 'the bytes of the file header lines are part of the record', path=p, key='total')
            ctx.cur = 'fields'
            if len(parts) != 1:
                ctx.ob(None, q, 'how the fields are separated')
                continue
            part = parts.pop()
            nm = ('fld', SELF, attr, 0)
            a = part[3]
            ok = part[1] == 'rsplit' and len(a) == 2 and a[0] == K(' ')
            if ok:
                c, at = lin_parts(a[1])
                at = dict(at)
                ok = c == -1 and list(at.values()) == [1] and list(at)[0] == ('len', nm) or (is_k(a[1]) and a[1][2] == 4)
            ctx.ob(ok, q, 'the last four fields are separated from the url, which may have spaces', path=p, key='separate')
            same = False
            for t, v in st.null.items():
                if 'T' not in v and any(x == ('len', part) for x in subterms(t)):
                    same = True
            for k, v in st.lits.items():
                if k[0] == 'eq' and v and any(x == ('len', part) for x in subterms(k[1:]) if True):
                    same = True
                if k[0] == 'eq' and v and (('len', part) in k[1:]):
                    same = True
            ctx.ob(True if same else False if not any(x == ('len', part) for k in list(st.lits) + list(st.null) for x in subterms(k if isinstance(k[0], str) and k[0] != 'eq' else k[1])) else None, q, 'a line with another number of fields is refused', path=p, key='count')
            ctx.ob(is_k(core(m.arg(0, 'statusline')), 'str') and not core(m.arg(0, 'statusline'))[2], m, 'there is no status line', path=p, key='status')
            check_pairs(ctx, q, cls, p, core(m.arg(1, 'headers')), part, nm, fd, done)
        if not n:
            ctx.ob(None, q, 'what a header line becomes')


def allterms(st):
    return [x for t in list(st.null) + [y for k in st.lits for y in k[1:] if isinstance(y, tuple)] + list(st.store.values()) for x in subterms(t)]


def names_attr(ctx, cls):
    """the attribute that holds the field names"""
    ctx.cur = 'names'
    found = set()
    for p in ctx.run(cls, construct=True, raise_pred=lambda *a: False):
        if p.kind == 'x':
            continue
        for k, v in p.state.store.items():
            if k[0] == 'h' and k[1] == SELF:
                cs = const_strs(v)
                if cs is not None:
                    found.add(k[2])
                    ctx.ob(cs == FIELDS[cls], cls, 'the fields of a header line in their order', path=p, key='names' + tail(cls))
    if len(found) != 1:
        raise Undecided('field names of ' + cls)
    return found.pop()


def setitem_of(p, part):
    return [e for e in flat(p.items) if isinstance(e, Event) and e.kind == 'setitem' and core(e.recv) == part]


def check_pairs(ctx, q, cls, p, hl, part, nm, fd, done):
    ctx.cur = 'mapping'
    if hl[0] != 'obj':
        ctx.ob(None, q, 'how the headers are collected')
        return
    sets = setitem_of(p, part)
    for e in sets:
        i = e.args[0]
        ok = cls == A2W and fd is False and is_k(i) and FIELDS[cls][i[2]] == 'Content-Type' and is_k(e.args[1], 'str') and e.args[1][2].startswith(HTTP)
        ctx.ob(ok, e, 'only the content type of a response is replaced, by that of an http response', path=p, key='type')
    first = []
    refs = [x for x in p.items if isinstance(x, LoopRef)]
    for e in p.items:
        if isinstance(e, Alloc) and e.obj == hl and e.items is not None and e.items[1]:
            for t in map(core, e.items[1]):
                if t[0] != 'tup' or len(t[1]) != 2 or not is_k(t[1][0], 'str'):
                    ctx.ob(None, q, 'how the headers are collected')
                    return
                first.append((t[1][0][2], core(t[1][1]), q))
        if isinstance(e, Event) and e.kind in ('append', 'setitem', 'delitem') and core(e.recv) == hl:
            t = core(e.args[-1])
            if e.kind != 'append' or t[0] != 'tup' or len(t[1]) != 2 or not is_k(t[1][0], 'str'):
                ctx.ob(None, e, 'how the headers are collected')
                return
            first.append((t[1][0][2], core(t[1][1]), e))
    names = [x[0] for x in first]
    if cls == ARC:
        ctx.ob(not names, q, 'only the fields of the line', path=p, key='extra')
    else:
        ctx.ob(sorted(names) == ['WARC-Record-ID', 'WARC-Type'], first[0][2] if first else q, 'a type and a record id are added', path=p, key='added')
        for nme, v, e in first:
            if nme == 'WARC-Type':
                ctx.ob(v == K('warcinfo' if fd else 'response') if is_k(v) and fd is not None else None, e, 'the file header is a warcinfo record, others are responses', path=p, key='type2')
            elif nme == 'WARC-Record-ID':
                ctx.ob(True if 'make_warc_id' in str(v) else False if is_k(v) else None, e, 'each with an id of its own', path=p, key='id')
    if len(refs) != 1:
        ctx.ob(None, q, 'how the headers are collected')
        return
    ref = refs[0]
    for e in p.items:
        if isinstance(e, Event) and e.kind == 'next' and any(x == part for x in subterms(e.recv)):
            ctx.ob(False, e, 'every field is taken', path=p, key='leaves')
    if (id(ref.loop), bool(sets)) in done:
        return
    done.add((id(ref.loop), bool(sets)))
    ctx._typed = bool(sets)
    for i in sorted(ref.loop.trans):
        for seg, j in ref.loop.trans[i]:
            nx = [e for e in seg if isinstance(e, Event) and e.kind == 'next']
            if len(nx) != 1:
                ctx.ob(None, q, 'how the headers are collected')
                continue
            e, r = nx[0], core(nx[0].recv)
            if r[0] == 'op' and tail(str(r[1])) in ('zip', 'izip') and [core(x) for x in r[2]] == [nm, part]:
                a, b = ('idx', core(e.result), K(0)), ('idx', core(e.result), K(1))
                if core(e.result)[0] == 'tup':
                    a, b = core(e.result)[1]
            else:
                ctx.ob(False if r[0] == 'op' and tail(str(r[1])) in ('zip', 'izip') and {core(x) for x in r[2]} == {nm, part} else None, e, 'each field under its name', path=p, key='zip')
                continue
            st = seg[-1].state
            f = is_filedesc(st, {core(part[2])} | {core(x) for x in subterms(part[2])})
            ap = [x for x in seg if isinstance(x, Event) and x.kind in ('append', 'setitem', 'delitem') and core(x.recv) == hl]
            if len(ap) != 1 or ap[0].kind != 'append' or tail(ap[0].name) == 'insert':
                poss = [n for n in FIELDS[cls] if compatible(st, a, n)]
                ctx.ob(False if poss else True, ap[-1] if ap else e, 'one header for each field', path=p, key='one')
                continue
            t = core(ap[0].args[-1])
            if t[0] != 'tup' or len(t[1]) != 2:
                ctx.ob(None, ap[0], 'each field under its name')
                continue
            gn, gv = core(t[1][0]), core(t[1][1])
            for n in FIELDS[cls]:
                if not compatible(st, a, n):
                    continue
                expect(ctx, cls, p, ap[0], n, a, b, gn, gv, f if f is not None else fd, seg)


def compatible(st, a, n):
    for k, v in st.lits.items():
        if k[0] == 'eq' and a in (core(k[1]), core(k[2])):
            o = core(k[2]) if core(k[1]) == a else core(k[1])
            if is_k(o) and (o[2] == n) != v:
                return False
        if k[0] == 'cond' and k[1][0] == 'op' and k[1][1] == 'in' and len(k[1][2]) == 2 and core(k[1][2][0]) == a:
            cs = const_strs(k[1][2][1])
            if cs is not None and (n in cs) != v:
                return False
    return True


def expect(ctx, cls, p, e, n, a, b, gn, gv, fd, seg):
    want, how = n, 'as it is'
    if cls == A2W:
        if n == 'WARC-Date':
            how = 'date'
        elif n == 'WARC-Target-URI':
            if fd is None:
                ctx.ob(None, e, 'the name of the file')
                return
            if fd:
                want, how = 'WARC-Filename', 'name'
    ctx.ob(gn == K(want) or (gn == a and want == n) if is_k(gn) or gn == a else None, e, 'the field %s is the header %s' % (n, want), path=p, key='name ' + n)
    if how == 'as it is':
        if cls == A2W and n == 'Content-Type' and fd is False and gv == b and not ctx._typed:
            ctx.ob(False, e, 'every record but the file header is an http response', path=p, key='typed')
        elif cls == A2W and n == 'Content-Type' and is_k(gv, 'str'):
            ctx.ob(fd is False and gv[2].startswith(HTTP), e, 'with its value', path=p, key='value ' + n)
        else:
            ctx.ob(gv == b if gv == b or is_k(gv) or not contains(gv, b) else None if gv[0] in ('m', 'ev') else False, e, 'with its value', path=p, key='value ' + n)
    elif how == 'date':
        cs = [x for x in seg if isinstance(x, Event) and x.kind == 'call' and core(x.result or ('none',)) == gv]
        if gv == b:
            ctx.ob(False, e, 'the date as iso date', path=p, key='date')
        else:
            ok = cs and tail(cs[0].name) == 'timestamp_to_iso_date' and core(cs[0].args[0]) == b
            part = cs and tail(cs[0].name) == 'timestamp_to_iso_date' and core(cs[0].args[0])[0] in ('slice', 'm', 'cat') and contains(core(cs[0].args[0]), b) and core(cs[0].args[0])[1] not in ('strip', 'rstrip')
            ctx.ob(True if ok else False if part else None, e, 'the date as iso date', path=p, key='date')
    else:
        if gv == b:
            ctx.ob(False, e, 'without the scheme', path=p, key='file')
        elif gv[0] == 'slice':
            ctx.ob(core(gv[1]) == b and gv[2] == K(len(FD)) and all(is_k(x) and x[2] is None for x in gv[3:]), e, 'without the scheme', path=p, key='file')
        else:
            wrong = gv[0] == 'm' and (gv[1] in ('lstrip', 'strip', 'rstrip') or gv[1] in ('removeprefix',) and gv[3] != (K(FD),)) and contains(gv, b)
            wrong = wrong or contains(gv, b) and any(cut_at_slash(x) for x in subterms(gv))
            ctx.ob(False if wrong else None, e, 'without the scheme', path=p, key='file')


def cut_at_slash(t):
    """the text around some '/' of a name that may have others"""
    if t[0] == 'm' and t[1] in ('split', 'rsplit', 'rpartition', 'partition') and t[3] and t[3][0] == K('/'):
        return t[1].startswith('r') or len(t[3]) < 2
    return t[0] in ('m', 'op', 'ev') and str(t[1][-1] if t[0] == 'ev' else t[1]).split('@')[0].split('.')[-1] in ('basename', 'rfind', 'rindex')


def check_type(ctx):
    ctx.cur = 'format'
    for cls, want in ((ARC, 'arc'), (A2W, 'arc2warc')):
        q = ctx.method(cls, 'get_rec_type')
        for p in ctx.run(q, self_cls=cls, raise_pred=lambda *a: False):
            if p.kind != 'x':
                ctx.ob(core(p.value) == K(want) if is_k(core(p.value)) else None, q, 'the format is %s' % want, path=p, key=want)


def check(ctx):
    ctx.rule('names', 'the five fields of an ARC header line in their order, and the WARC headers they become')
    ctx.rule('line', 'EOFError iff nothing is left; after a file header line, and only then, exactly the two lines that belong to it are read')
    ctx.rule('length', 'the length of those two lines, in bytes, is what the record content is shorter by')
    ctx.rule('fields', 'the line is separated from its end into exactly as many fields as there are, else refused')
    ctx.rule('mapping', 'each field becomes one header under its name with its value; as WARC the date is an iso date, the file header a warcinfo record with the file name, others responses with http content')
    ctx.rule('format', 'the format reported is the one of the headers')
    for fn in (check_parse, check_type):
        ctx.guarded(fn)
