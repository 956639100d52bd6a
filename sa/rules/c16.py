"""Dates: clock, zone and precision."""
import ast
from ..core import *
from .util import *
from .writer import *
from .c13 import version_attr

T = 'warcio.timeutils:'
UTC = ('datetime.timezone.utc', 'datetime.UTC')


def is_utc(t):
    t = core(t)
    return t is not None and t[0] == 'ext' and t[1] in UTC


def clock(p):
    """{value: True} of the current UTC times taken on this path; False when taken without zone"""
    out = {}
    for e in p.events():
        if e.kind == 'call' and not e.raised and e.name:
            if e.name == 'datetime.datetime.now':
                z = e.arg(0, 'tz')
                out[e.result] = 'aware' if is_utc(z) else False
            elif e.name == 'datetime.datetime.utcnow':
                out[e.result] = 'naive'
            elif e.name in ('datetime.datetime.today', 'time.time', 'time.localtime'):
                out[e.result] = False
            elif e.name == 'datetime.datetime.fromtimestamp':
                out[e.result] = 'aware' if is_utc(e.arg(1, 'tz')) else False
            elif e.name == 'datetime.datetime.utcfromtimestamp':
                out[e.result] = 'naive'
            elif tail(e.name) == 'astimezone' and e.recv in out:
                out[e.result] = 'aware' if is_utc(e.arg(0, 'tz')) and out[e.recv] else False
            elif tail(e.name) == 'replace' and e.recv in out:
                z = (e.kw or {}).get('tzinfo')
                if set(e.kw or {}) - {'tzinfo', 'microsecond'} or e.args:
                    out[e.result] = False
                else:
                    out[e.result] = out[e.recv] if z is None else 'naive' if z == NONE and out[e.recv] else 'aware' if is_utc(z) and out[e.recv] else False
                if 'microsecond' in (e.kw or {}):
                    out[e.result] = out[e.result] and 'nomicros'
    return out


def ver_ge_11(st):
    """is the version WARC/1.1 or later; None if the path does not tell"""
    sv = lambda t: t is not None and (is_fld(core(t)) and core(t)[1] == SELF)
    not11 = notgt = False
    for k, v in st.lits.items():
        args = None
        if k[0] in ('eq', 'le', 'lt'):
            op, args = k[0], k[1:]
        elif k[0] == 'cond' and k[1][0] == 'op' and k[1][1] in ('le', 'lt'):
            op, args = k[1][1], k[1][2]
        if args is None:
            continue
        a, b = args
        if op == 'eq':
            x = a if is_k(a, 'str') else b if is_k(b, 'str') else None
            if x is None or not (sv(a) or sv(b)):
                continue
            if v:
                return x[2] >= 'WARC/1.1'
            if x[2] == 'WARC/1.1':
                not11 = True
        elif is_k(a, 'str') and sv(b):
            if op == 'le' and a[2] == 'WARC/1.1':
                return v
            if op == 'lt' and v and a[2] >= 'WARC/1.1':
                return True
            if op == 'lt' and not v and a[2] == 'WARC/1.1':
                notgt = True
        elif is_k(b, 'str') and sv(a):
            if op == 'lt' and b[2] == 'WARC/1.1':
                return not v
            if op == 'le' and not v and b[2] >= 'WARC/1.1':
                return True
            if op == 'le' and v and b[2] == 'WARC/1.1':
                notgt = True
    return False if not11 and notgt else None


def check_now(ctx):
    q = ctx.method(RB, 'curr_warc_date')
    for p in ctx.run(q, self_cls=RB, inline={q}):
        if p.kind == 'x':
            continue
        c = clock(p)
        ctx.cur = 'clock'
        fs = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'datetime_to_iso_date' and not e.raised]
        if len(fs) != 1 or p.value != fs[0].result:
            ctx.ob(None, q, 'conversion of the date not found')
            continue
        e = fs[0]
        d = e.arg(0, 'the_datetime')
        if core(d) not in c:
            ctx.ob(None if d is not None and d[0] in ('ev', 'm') else False, e, 'a record date is the current time', path=p, key='now')
            continue
        kind = c[core(d)]
        ctx.ob(bool(kind), e, 'a record date is the current time in UTC', path=p, key='utc')
        m = e.arg(1, 'use_micros')
        on = m is not None and m != K(False) and m != NONE
        if on and m != K(True):
            if 'T' not in p.state.nullness(m):
                on = False
            elif p.state.nullness(m) != T_:
                ctx.ob(None, e, 'precision %s' % show(m)[:60])
                continue
        ctx.ob(not (on and kind == 'aware'), e, 'a date with microseconds has no offset besides the Z', path=p, key='offset')
        ctx.cur = 'precision'
        ge = ver_ge_11(p.state)
        ctx.ob(on == ge if ge is not None else False, e, 'microseconds exactly from WARC/1.1 on', path=p, key='micros')
        ctx.ob(kind != 'nomicros' or not on, e, 'the microseconds are those of the clock', path=p, key='cut')


def check_iso(ctx):
    ctx.cur = 'iso-form'
    q = ctx.method('warcio.timeutils', 'datetime_to_iso_date') if False else T + 'datetime_to_iso_date'
    if q not in ctx.prog.funcs:
        raise AnalysisBroken('datetime_to_iso_date is gone')
    f = ctx.prog.funcs[q]
    D, M = sym(f.posargs[0]), sym(f.posargs[1])
    ctx.ob(isinstance(f.node.args.defaults[-1], ast.Constant) and f.node.args.defaults[-1].value is False, q, 'seconds unless asked', key='default')
    for p in ctx.run(q, inline={q}):
        if p.kind == 'x':
            continue
        v = p.value
        m = truthy(p.state, M)
        secs = is_strftime(v, D, '%Y-%m-%dT%H:%M:%SZ')
        mic = v is not None and v[0] in ('cat', 'fmt') and len(v[1]) == 2 and v[1][1] == K('Z') and v[1][0][0] == 'm' and v[1][0][1] == 'isoformat' and v[1][0][2] == D and len(v[1][0]) < 4 or \
            v is not None and v[0] in ('cat', 'fmt') and v[1][-1] == K('Z') and len(v[1]) == 2 and show(v[1][0]) == show(D) + '.isoformat()'
        if not secs and not mic:
            ctx.ob(False if is_strftime(v, D) or v[0] in ('cat', 'k') or show(v) == show(D) + '.isoformat()' else None, q, 'date form %s' % show(v)[:60], path=p, key='form')
        elif m is None:
            ctx.ob(False, q, 'microseconds as asked', path=p, key='asked')
        else:
            ctx.ob(mic if m else secs, q, 'seconds, or microseconds when asked', path=p, key='micros')


def is_strftime(v, d, fmt=None):
    s = show(v) if v is not None else ''
    if not s.startswith(show(d) + '.strftime('):
        return False
    return fmt is None or s == '%s.strftime(%r)' % (show(d), fmt)


def check_convert(ctx):
    """conversions between seconds, timestamps and dates stay in UTC"""
    ctx.cur = 'utc-conversion'
    for name in ('timestamp_now', 'timestamp20_now', 'sec_to_timestamp'):
        q = T + name
        if q not in ctx.prog.funcs:
            raise AnalysisBroken(name + ' is gone')
        for p in ctx.run(q, inline={q}):
            if p.kind == 'x':
                continue
            c = clock(p)
            ctx.ob(bool(c) and all(c.values()), q, 'UTC time', path=p, key=name)
    q = T + 'timestamp_to_sec'
    for p in ctx.run(q, inline={q}):
        if p.kind == 'x':
            continue
        v = show(p.value)
        ds = [e for e in p.events() if tail(e.name) == 'timestamp_to_datetime']
        if 'timegm' not in v and 'timestamp()' not in v and 'mktime' not in v:
            ctx.ob(None, q, v[:80])
            continue
        aware = bool(ds) and ds[0].arg(1, 'tz_aware') == K(True)
        ctx.ob('mktime' not in v and ('timegm' in v or aware), q, 'UTC seconds', path=p, key='sec')
    q = T + 'datetime_to_http_date'
    for p in ctx.run(q, inline={q}):
        if p.kind == 'x':
            continue
        v = show(p.value)
        if 'formatdate' in v:
            ctx.ob("('usegmt', True)" in v and "('localtime', True)" not in v and 'mktime' not in v, q, 'GMT date', path=p, key='http')
        else:
            ctx.ob(None, q, v[:80])


LOCAL = {'time.localtime', 'time.mktime', 'time.ctime', 'time.asctime', 'datetime.date.today', 'datetime.datetime.today', 'email.utils.localtime'}


def ext_name(ctx, mod, node):
    """external dotted name an expression refers to, None when it is not one"""
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if not isinstance(node, ast.Name):
        return None
    r = ctx.prog.module_name(mod, node.id)
    if r is None or r[0] != 'ext':
        return None
    return '.'.join([r[1]] + parts[::-1])


def check_local(ctx):
    ctx.cur = 'no-local-time'
    n = 0
    for mn, m in sorted(ctx.prog.modules.items()):
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.Call):
                continue
            nm = ext_name(ctx, mn, node.func)
            if nm is None:
                continue
            n += 1
            where = '%s:%d' % (mn.replace('.', '/') + '.py', node.lineno)
            kw = {k.arg: k.value for k in node.keywords}
            if nm in LOCAL:
                ctx.ob(False, where, 'local time: %s' % nm, key='%s:%s' % (mn, nm))
            elif nm == 'datetime.datetime.now':
                ctx.ob(bool(node.args or kw.get('tz')), where, 'the clock is read in UTC', key=mn + ':now')
            elif nm == 'datetime.datetime.fromtimestamp':
                ctx.ob(len(node.args) > 1 or 'tz' in kw, where, 'seconds are converted in UTC', key=mn + ':fromtimestamp')
            elif nm == 'time.strftime' or nm == 'time.gmtime':
                ctx.ob(nm == 'time.gmtime' or len(node.args) > 1, where, 'the time formatted is given', key=mn + ':strftime')
    ctx.ob(True if n > 20 else None, 'warcio', '%d calls of library functions looked at' % n)


def check(ctx):
    ctx.rule('clock', 'a record date is the current UTC time')
    ctx.rule('precision', 'microseconds exactly from WARC/1.1 on')
    ctx.rule('iso-form', 'YYYY-MM-DDTHH:MM:SSZ, or with microseconds')
    ctx.rule('utc-conversion', 'timestamps, seconds and http dates are converted in UTC')
    ctx.rule('no-local-time', 'no library function is used that depends on the local time zone')
    for f in (check_now, check_iso, check_convert, check_local):
        ctx.guarded(f)
