"""The status line operations of StatusAndHeaders: code, validation, range, equality, truth."""
from ..core import *
from .util import *

SAH = 'warcio.statusandheaders:StatusAndHeaders'
SELF = sym('self')
LINE = ('fld', SELF, 'statusline', 0)


def code_of(t):
    """is t the first word of the status line: True / False / None"""
    t = core(t)
    if t[0] == 'idx' and core(t[1])[0] == 'm':
        m = core(t[1])
        if core(m[2]) != LINE:
            return None
        a = list(m[3])
        if m[1] == 'split' and a and a[0] == K(' ') and (len(a) == 1 or is_k(a[1], 'int') and (a[1][2] >= 1 or a[1][2] < 0)) or m[1] == 'partition' and a == [K(' ')]:
            return t[2] == K(0)
        if m[1] in ('rsplit', 'rpartition', 'split', 'partition'):
            return m[1] == 'rsplit' and a == [K(' ')] and t[2] == K(0)
    if t == LINE or is_k(t):
        return False
    return None


def check_code(ctx):
    ctx.cur = 'code'
    q = ctx.method(SAH, 'get_statuscode')
    n = 0
    for p in ctx.run(q, self_cls=SAH, inline={q}):
        if p.kind == 'x':
            ctx.ob(False, q, 'a code can always be asked for', path=p, key='raises')
            continue
        n += 1
        ok = code_of(p.value)
        if ok is not True and core(p.value) == LINE and any(k[0] == 'in' and not v for k, v in p.state.lits.items()):
            ok = True           # no space in it
        ctx.ob(ok, q, 'the code is what comes before the first space; got %s' % show(p.value), path=p, key='code')
        stores = [e for e in p.events() if e.kind == 'store']
        ctx.ob(not stores, q, 'asking changes nothing', path=p, key='store')
    ctx.ob(n > 0, q, 'a code is given', key='any')


def check_validate(ctx):
    ctx.cur = 'validate'
    q = ctx.method(SAH, 'validate_statusline')
    g = ctx.method(SAH, 'get_statuscode')
    new = sym(ctx.prog.funcs[q].posargs[1])
    good = 0
    for p in ctx.run(q, self_cls=SAH, inline={q, g}):
        ints = [e for e in p.events() if e.kind in ('pure', 'call') and e.name == 'int' and e.args]
        failed = [e for e in ints if e.raised]
        if p.kind == 'x':
            if p.value and p.value[0] == 'exc' and any(x in ('ValueError', 'AssertionError') for x in p.value[1]):
                ctx.ob(False, q, 'a bad status line is replaced, not reported', path=p, key='raises')
            continue
        stores = [e for e in p.events() if e.kind == 'store']
        code = None
        for t in list(p.state.null) + list(p.state.nums if hasattr(p.state, 'nums') else []):
            for x in subterms(t):
                if x[0] in ('op', 'int') and x[1] == 'int' and code_of(x[2][0]):
                    code = x
        num = code
        v = p.value
        if v[0] == 'k' and v[2] is True:
            good += 1
            ctx.ob(not stores, q, 'a valid status line stays', path=p, key='stays')
            pos = num is not None and p.state.prove_le(lin_add(K(1), num, -1))
            bad = bool(failed) or num is not None and p.state.prove_le(num)
            ctx.ob(True if pos and not failed else False if bad or num is None and not ints else False if num is not None and not pos else None, q,
                   'valid means a number above zero before the first space', path=p, key='number')
        elif v[0] == 'k' and v[2] is False:
            ctx.ob(len(stores) == 1 and stores[0].name == 'statusline' and core(stores[0].args[0]) == new, q, 'what is not valid is replaced by what was passed', path=p, key='replaced')
            ok = bool(failed) or num is not None and p.state.prove_le(num)
            pos = num is not None and p.state.prove_le(lin_add(K(1), num, -1))
            ctx.ob(True if ok else False if pos or num is not None and not p.state.lits else None, q, 'only what is no number above zero is replaced', path=p, key='only')
        else:
            ctx.ob(None if not is_k(v) else False, q, 'tells if it was valid; got %s' % show(v), path=p, key='value')
    ctx.ob(good > 0, q, 'some status line is valid', key='any')


def text_parts(t):
    """the pieces of a text: constants joined, str() dropped"""
    t = core(t)
    if t[0] == 'cat':
        ps = [y for x in t[1] for y in text_parts(x)]
    elif t[0] == 'op' and t[1] == 'str':
        ps = [core(t[2][0])]
    else:
        ps = [t]
    out = []
    for x in ps:
        if is_k(x, 'int'):
            x = K(str(x[2]))
        if is_k(x, 'str') and out and is_k(out[-1], 'str'):
            out[-1] = K(out[-1][2] + x[2])
        else:
            out.append(x)
    return out


def check_range(ctx):
    ctx.cur = 'range'
    q = ctx.method(SAH, 'add_range')
    f = ctx.prog.funcs[q]
    if len(f.posargs) < 4:
        raise AnalysisBroken('add_range(start, part_len, total_len)')
    st, part, total = [sym(a) for a in f.posargs[1:4]]
    rep = {ctx.method(SAH, 'replace_header'), ctx.method(SAH, '__setitem__')}
    want = {'content-range': [K('bytes '), st, K('-'), None, K('/'), total], 'content-length': [part], 'accept-ranges': [K('bytes')]}
    n = 0
    for p in ctx.run(q, self_cls=SAH, inline={q}):
        if p.kind == 'x':
            ctx.ob(False if not p.value or p.value[0] != 'exc' or 'TypeError' not in p.value[1] else None, q, 'a range can be set', path=p, key='raises')
            continue
        n += 1
        ctx.ob(core(p.value) == SELF, q, 'gives the headers themselves', path=p, key='self')
        lines = [e for e in p.events() if e.kind == 'store' and e.name == 'statusline']
        ctx.ob(bool(lines) and lines[-1].args[0] == K('206 Partial Content'), q, 'the status is partial content', path=p, key='status')
        for e in p.events():
            if e.kind == 'store' and e.name != 'statusline':
                ctx.ob(False, e, 'nothing else is changed', path=p, key='other')
        seen = {}
        for e in p.events():
            if e.kind == 'setitem' and core(e.recv) == SELF or e.kind == 'call' and core(e.recv) == SELF and tail(e.name) in ('replace_header', '__setitem__', 'add_header', 'remove_header', '__delitem__'):
                a = list(e.args) + list((e.kw or {}).values())
                k = core(a[0])
                if not is_k(k, 'str'):
                    ctx.ob(None, e, 'which header', path=p)
                    continue
                nm = k[2].lower()
                if tail(e.name) in ('remove_header', '__delitem__'):
                    seen.pop(nm, None)
                    if nm not in want:
                        ctx.ob(False, e, 'other headers stay', path=p, key='removed')
                    seen[nm + '!'] = True
                    continue
                if tail(e.name) == 'add_header' and not seen.get(nm + '!'):
                    ctx.ob(False, e, 'a header that is there is replaced', path=p, key='added')
                if nm not in want:
                    ctx.ob(False, e, 'no other header is set', path=p, key='extra')
                    continue
                seen[nm] = True
                got = text_parts(a[1])
                w = want[nm]
                if nm == 'content-range':
                    last = lin_add(lin_add(st, part), K(-1))
                    ok = len(got) == 6 and all(b is None or a == b for a, b in zip(got, w)) and p.state.prove_eq(got[3], last)
                else:
                    ok = got == w
                ctx.ob(ok or (False if all(x[0] in ('k', 'sym', 'lin') for x in got) else None), e, '%s is right; got %s' % (k[2], [show(x) for x in got]), path=p, key=nm)
        for nm in want:
            ctx.ob(seen.get(nm, False), q, '%s is set' % nm, path=p, key='set:' + nm)
    ctx.ob(n > 0, q, 'a range can be set', key='any')


def check_equal(ctx):
    ctx.cur = 'equal'
    q = ctx.method(SAH, '__eq__')
    o = sym(ctx.prog.funcs[q].posargs[1])
    pairs = {a: tuple(sorted([('fld', o, a, 0), ('fld', SELF, a, 0)], key=repr)) for a in ('statusline', 'headers', 'protocol')}
    yes = 0

    def parts(k):
        a, b = core(k[1]), core(k[2])
        if a[0] == b[0] == 'tup' and len(a[1]) == len(b[1]):
            return [tuple(sorted((core(x), core(y)), key=repr)) for x, y in zip(a[1], b[1])]
        return [tuple(sorted((a, b), key=repr))]

    def known(p, a):
        for k, v in p.state.lits.items():
            if k[0] == 'eq' and pairs[a] in parts(k) and (v or len(parts(k)) == 1):
                return v
        return None
    for p in ctx.run(q, self_cls=SAH, inline={q}):
        if p.kind == 'x':
            ctx.ob(False, q, 'anything can be compared', path=p, key='raises')
            continue
        v = core(p.value)
        if is_k(v, 'bool'):
            facts = {a: known(p, a) for a in pairs}
            extra = [k for k, x in p.state.lits.items() if k[0] == 'eq' and not any(tuple(sorted(map(core, k[1:3]), key=repr)) == w for w in pairs.values())]
            if v[2]:
                yes += 1
                same = any(k[0] in ('is', 'eq') and set(map(core, k[1:3])) == {o, SELF} and x for k, x in p.state.lits.items())
                ctx.ob(same or all(facts.values()), q, 'equal only with the same status line, headers and protocol; known: %s' % facts, path=p, key='true')
            else:
                none = 'T' not in p.state.nullness(o)
                inst = any('isinstance' in str(k) and not x for k, x in p.state.lits.items())
                differs = any(x is False for x in facts.values()) or \
                    any(k[0] == 'eq' and not x and all(w in pairs.values() for w in parts(k)) for k, x in p.state.lits.items())
                ctx.ob(True if none or inst or differs else None if extra else False, q, 'different only if something differs', path=p, key='false')
        else:
            ctx.ob(None, q, 'equality; got %s' % show(v))
    ctx.ob(yes > 0, q, 'headers can be equal', key='any')
    q = ctx.method(SAH, '__ne__')
    o = sym(ctx.prog.funcs[q].posargs[1])
    for p in ctx.run(q, self_cls=SAH, inline={q}):
        if p.kind == 'x':
            continue
        v = core(p.value)
        eq = [x for k, x in p.state.lits.items() if k[0] == 'eq' and set(map(core, k[1:3])) == {o, SELF}]
        if is_k(v, 'bool') and len(eq) == 1:
            ctx.ob(v[2] == (not eq[0]), q, 'unequal is not equal', path=p, key='ne')
        else:
            ctx.ob(None, q, 'unequal is not equal')


def check_truth(ctx):
    ctx.cur = 'truth'
    q = ctx.method(SAH, '__bool__')
    H = ('fld', SELF, 'headers', 0)
    n = 0
    for p in ctx.run(q, self_cls=SAH, inline={q}):
        if p.kind == 'x':
            continue
        n += 1
        v = core(p.value)
        a, b = p.state.nullness(LINE), p.state.nullness(H)
        if is_k(v, 'bool'):
            yes = a == frozenset('T') or b == frozenset('T')
            no = 'T' not in a and 'T' not in b
            ctx.ob((yes if v[2] else no) or (None if any('len' in str(k) for k in list(p.state.lits) + list(p.state.nums if hasattr(p.state, 'nums') else [])) else False), q, 'true if there is a status line or a header, false if neither', path=p, key='truth')
        else:
            ctx.ob(None, q, 'truth; got %s' % show(v))
    ctx.ob(n > 0, q, 'truth', key='any')


def check(ctx):
    ctx.rule('code', 'the status code is what comes before the first space')
    ctx.rule('validate', 'a status line stays exactly if its code is a number above zero')
    ctx.rule('range', 'a range sets the status and the three headers, each once')
    ctx.rule('equal', 'equality is that of status line, headers and protocol')
    ctx.rule('truth', 'empty headers are false')
    for f in (check_code, check_validate, check_range, check_equal, check_truth):
        ctx.guarded(f)
