"""Every timestamp string gives a date: value ranges of the abstract paths of timestamp_to_datetime."""
from ..core import *
from .util import *
from .c16 import is_utc, T

ENTRY = T + 'timestamp_to_datetime'
FIELDS = [('year', 0, 4, 1900, 2999), ('month', 4, 6, 1, 12), ('day', 6, 8, 1, None), ('hour', 8, 10, 0, 23), ('minute', 10, 12, 0, 59), ('second', 12, 14, 0, 59)]


def leaves(eng, t, nums=frozenset()):
    """[(value, facts)] a joined value can be"""
    if t is not None and t[0] == 'alt' and t in eng.alts:
        out = []
        for v, n in eng.alts[t]:
            out.extend(leaves(eng, v, nums | n))
        return out
    return [(t, nums)]


def proves(st, nums, lin):
    s = st.copy()
    s.nums = frozenset(s.nums) | nums
    return s.prove_le(lin)


def check_fields(ctx):
    if ENTRY not in ctx.prog.funcs or T + 'pad_timestamp' not in ctx.prog.funcs:
        raise AnalysisBroken('timestamp_to_datetime / pad_timestamp is gone')
    S = sym(ctx.prog.funcs[ENTRY].posargs[0])
    join = {q for q in ctx.prog.funcs if q.startswith(T) and q != ENTRY}
    eng, ps = ctx.run(ENTRY, inline={ENTRY} | join, join=join, known_raises=True, eng=True, raise_pred=lambda name, recv, excs, e: False if name in ('datetime.datetime', 'calendar.monthrange') else ('ValueError',) if name == 'int' else None)
    for p in ps:
        st = p.state
        ctx.cur = 'total'
        if p.kind == 'x':
            ctx.ob(False, ENTRY, 'no string is an error: ' + show(p.value)[:50], path=p, key='raises')
            continue
        ds = [e for e in p.events() if e.kind == 'call' and e.name == 'datetime.datetime' and not e.raised]
        if len(ds) != 1 or core(p.value) != ds[0].result:
            ctx.ob(None, ENTRY, 'construction of the date not found')
            continue
        d = ds[0]
        ctx.cur = 'zone'
        z = d.arg(7, 'tzinfo')
        aware = truthy(st, sym('tz_aware'))
        ctx.ob(is_utc(z) if aware else aware is False and z in (None, NONE), d, 'UTC zone exactly when asked for', path=p, key='tz')
        vals = {}
        for i, (name, a, b, lo, hi) in enumerate(FIELDS):
            vals[name] = d.arg(i, name)
        for i, (name, a, b, lo, hi) in enumerate(FIELDS):
            v = vals[name]
            if v is None:
                ctx.ob(False, d, '%s is given' % name, path=p, key='given:' + name, rule='digits')
                continue
            for x, nums in leaves(eng, v):
                ctx.cur = 'range'
                maxday = is_monthrange(x, vals)
                s = slice_int(x)
                if is_k(x, 'int'):
                    if hi is None:
                        ok = lo <= x[2] <= 28
                    else:
                        ok = lo <= x[2] <= hi
                    ctx.ob(ok, d, '%s is in range' % name, path=p, key='range:' + name)
                elif maxday:
                    ctx.ob(name == 'day', d, '%s is in range' % name, path=p, key='range:' + name)
                elif s is not None:
                    low = proves(st, nums, lin_add(K(lo), lin_scale(x, -1)))
                    if hi is None:
                        up = any(is_monthrange(h, vals) and proves(st, nums, lin_add(x, lin_scale(h, -1))) for h in atoms(nums))
                    else:
                        up = proves(st, nums, lin_add(x, K(-hi)))
                    ctx.ob(low and up, d, '%s is in range' % name, path=p, key='range:' + name)
                else:
                    ctx.ob(None, d, '%s: %s' % (name, show(x)[:60]))
                    continue
                if any(is_monthrange(h, vals) and proves(st, nums, lin_add(h, K(-27))) for h in atoms(nums)):
                    continue      # no month is that short
                # which digits, and what takes their place
                ctx.cur = 'digits'
                ints = [t for t in atoms(nums) if slice_int(t) is not None]
                if s is not None:
                    str_, i0, i1 = s
                    ctx.ob((i0 or 0) == a and i1 == b, d, '%s is digits %d to %d' % (name, a, b), path=p, key='place:' + name)
                    ctx.ob(is_padded(eng, str_, S), d, 'of the timestamp given', path=p, key='string:' + name)
                    ctx.ob(proves(st, nums, lin_add(K(b), lin_scale(mk_len(str_), -1))), d, '%s is used only when all its digits are there' % name, path=p, key='full:' + name)
                elif ints:
                    it = ints[0]
                    above = proves(st, nums, lin_add(x, lin_scale(it, -1)))
                    below = proves(st, nums, lin_add(it, lin_scale(x, -1)))
                    top = maxday or hi is not None and is_k(x) and x[2] == hi
                    bot = is_k(x) and x[2] == lo
                    ctx.ob(top and above or bot and below, d, '%s out of range is the nearest one in range' % name, path=p, key='clamp:' + name)
                else:
                    for L in atoms(nums):
                        # as many characters as end with the field, and yet it counts as missing
                        if L[0] == 'len' and is_padded(eng, L[1], S) and proves(st, nums, lin_add(L, K(-b))) and \
                                not proves(st, nums, lin_add(L, K(1 - b))) and not proves(st, nums, lin_add(K(b), lin_scale(L, -1))):
                            ctx.ob(False, d, '%s that ends the timestamp is read' % name, path=p, key='last:' + name)
                    ctx.ob(maxday or hi is not None and is_k(x) and x[2] == hi, d, '%s that is missing or no number is the latest' % name, path=p, key='missing:' + name)


def atoms(nums):
    out = []
    for f in nums:
        for t in coeffs(f)[1]:
            if t not in out:
                out.append(t)
    return sorted(out, key=repr)


def slice_int(t):
    """(string, start, end) of int(string[start:end])"""
    if t is None or t[0] != 'op' or t[1] != 'int' or len(t[2]) != 1:
        return None
    x = t[2][0]
    if x[0] not in ('slice', 'sub') and not (x[0] == 'op' and x[1] == 'slice'):
        return None
    parts = x[1:] if x[0] != 'op' else x[2]
    if len(parts) == 2 and isinstance(parts[1], tuple) and parts[1] and parts[1][0] == 'slice':
        parts = (parts[0],) + tuple(parts[1][1:])
    if len(parts) < 3:
        return None
    v = [None if y is None or y == NONE else y[2] if is_k(y, 'int') else 'x' for y in parts[1:3]]
    if 'x' in v:
        return None
    return parts[0], v[0], v[1]


def is_monthrange(t, vals):
    """monthrange(year, month)[1]"""
    if t is None or t[0] != 'idx' or t[2] != K(1):
        return False
    m = t[1]
    if m[0] != 'op' or m[1] != 'calendar.monthrange':
        return False
    return list(m[2]) == [vals['year'], vals['month']]


def is_padded(eng, t, S):
    """the timestamp, padded on the right if at all"""
    for v, _ in leaves(eng, t):
        if v == S:
            continue
        if v[0] in ('cat', 'add', 'fmt') and v[1][0] == S:
            continue
        return False
    return True


def check_pad(ctx):
    """padding keeps what there is and fills up from the pattern"""
    ctx.cur = 'padding'
    q = T + 'pad_timestamp'
    f = ctx.prog.funcs[q]
    S, P = sym(f.posargs[0]), sym(f.posargs[1])
    for p in ctx.run(q, inline={q}):
        if p.kind == 'x':
            ctx.ob(False, q, 'no string is an error', path=p, key='raises')
            continue
        v, st = p.value, p.state
        enough = st.prove_le(lin_add(mk_len(P), lin_scale(mk_len(S), -1)))
        if v == S:
            ctx.ob(enough, q, 'a short timestamp is padded', path=p, key='pad')
        elif v[0] in ('cat', 'add', 'fmt') and len(v[1]) == 2:
            ok = v[1][0] == S and show(v[1][1]).startswith('%s[len(%s):' % (show(P), show(S)))
            ctx.ob(ok, q, 'with the rest of the pattern', path=p, key='rest')
        else:
            ctx.ob(None, q, 'padded value %s' % show(v)[:60])


def check(ctx):
    ctx.rule('total', 'no string raises')
    ctx.rule('zone', 'UTC zone exactly when asked for')
    ctx.rule('range', 'every field is in its range; the day in that of the month')
    ctx.rule('digits', 'each field is read from its digits; out of range is clamped, missing or no number is the latest')
    ctx.rule('padding', 'a timestamp shorter than the pattern is filled up from it')
    for f in (check_fields, check_pad):
        ctx.guarded(f)
