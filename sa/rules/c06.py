"""Outcome of every digest comparison on every abstract path of the verifying reader, and of the verdict object."""
import ast
import re
from ..core import *
from .digests import *


def check_checker(ctx):
    ctx.need(CHK)
    q = ctx.method(CHK, 'problem')
    ctx.cur = 'problem-sets-verdict'
    pq, lq = ctx.method(CHK, 'passed'), ctx.method(CHK, 'problems')
    attr = lst = None
    for p in ctx.run(pq, self_cls=CHK):
        if p.kind == 'r':
            if self_fld(p.value):
                attr = p.value[2]
            elif is_k(p.value):
                ctx.ob(False, pq, 'the verdict is what was recorded', path=p)
    for p in ctx.run(lq, self_cls=CHK):
        if p.kind == 'r' and self_fld(core(p.value)):
            lst = core(p.value)[2]
        elif p.kind == 'r' and p.value[0] == 'obj':
            for e in p.events():
                for a in e.args or ():
                    if self_fld(a):
                        lst = a[2]
    if attr is None:
        ctx.ob(None, pq, 'verdict attribute not found')
        return
    f = ctx.prog.funcs[q]
    params = f.posargs[1:]
    vp = params[1] if len(params) > 1 else None
    for p in ctx.run(q, self_cls=CHK):
        if p.kind == 'x' and not (p.value[0] == 'obj'):
            continue
        ev = p.events()
        v = p.state.heap(SELF, attr)
        ctx.ob(v == FALSE or (vp is not None and v == sym(vp)), q, 'a problem makes the verdict False, also when it is raised', path=p, key='verdict')
        added = [e for e in ev if e.kind in ('append', 'call') and tail(e.name) in ('append', 'insert', 'extend') and contains(('tup', tuple(e.args or ())), sym(params[0]))]
        stored = [e for e in ev if e.kind == 'store' and e.recv == SELF and e.name == lst and contains(e.args[0], sym(params[0]))]
        ctx.ob(bool(added or stored), q, 'the description of the problem is kept', path=p, key='kept')
        kind = ('fld', SELF, 'kind', 0)
        israise = [x for k, x in p.state.lits.items() if k[0] == 'eq' and K('raise') in k[1:]]
        islog = [x for k, x in p.state.lits.items() if k[0] == 'eq' and K('log') in k[1:]]
        if p.kind == 'x':
            ctx.ob(israise != [False], q, 'raises only in raise mode', path=p, key='raise-only')
        else:
            if not israise:
                # another literal decided it
                other = [k for k, x in p.state.lits.items() if k[0] == 'eq' and x and 'kind' in repr(k)]
                ctx.ob(bool(other), q, 'raise mode is asked for on every path', path=p, key='raise-ask')
            else:
                ctx.ob(israise != [True], q, 'raise mode raises', path=p, key='raise')
            wrote = [e for e in ev if e.kind == 'call' and e.name == 'sys.stderr.write']
            if islog == [True]:
                ctx.ob(bool(wrote), q, 'log mode writes the problem to stderr', path=p, key='log')
    for p in ctx.run(q, self_cls=CHK):
        for e in p.events():
            if e.kind == 'raise':
                ctx.ob('ArchiveLoadFailed' in repr(e.args), e, 'raises ArchiveLoadFailed', path=p, key='type')
    if vp is not None:
        d = f.defaults_of(vp) if hasattr(f, 'defaults_of') else None
        for n, dn in zip(reversed(f.node.args.args), reversed(f.node.args.defaults)):
            if n.arg == vp:
                ctx.ob(isinstance(dn, ast.Constant) and dn.value is False, q, 'a problem means failure unless stated otherwise', key='default')
    for p in ctx.run(CHK, construct=True):
        if p.kind != 'x':
            ctx.ob(p.state.heap(SELF, attr) == NONE, CHK, 'no verdict before anything was compared', path=p, key='start')
    sq = ctx.prog.setter(CHK, 'passed')
    if sq is not None:
        sf = sq.q if hasattr(sq, 'q') else sq
        fn = ctx.prog.funcs[sf] if sf in ctx.prog.funcs else sq
        for p in ctx.run(fn.q, self_cls=CHK):
            if p.kind != 'x':
                v = p.state.heap(SELF, attr)
                ctx.ob(v == sym(fn.posargs[1]), fn.q, 'setting the verdict stores it', path=p, key='setter')


def slot_outcomes(p, s, how):
    out = {}
    for k in KINDS:
        a = s.fed.get(k)
        if a is None or s.expect.get(k) is None:
            continue
        d = fld0(a) if how == 'read' or k == 'block' or s.made.get(k) is None else fld0(s.made[k])
        out[k] = Outcome(p, d, fld0(s.expect[k]))
    return out


def check_paths(ctx):
    s = slots(ctx)
    for q, ps, how in [(q, ps, 'read') for q, ps in s.read.items()] + [(s.begin_q, s.begin, 'begin')]:
        for p in ps:
            evts = checker_evs(p, s)
            outs = slot_outcomes(p, s, how)
            comp = {k: o for k, o in outs.items() if o.compared and not o.off}
            matched = [k for k, o in comp.items() if o.match is not None]
            partial = [k for k, o in comp.items() if o.partial]
            bad = [k for k, o in comp.items() if o.match is None]
            problems = [e for t, e, v in evts if t == 'problem']
            sets = [(i, e, v) for i, (t, e, v) in enumerate(evts) if t == 'set']
            ctx.cur = 'verdict-sticky'
            for i, e, v in sets:
                if v == TRUE:
                    ctx.ob(guarded(p, evts, i, s), e, 'the verdict becomes True only if it is not False', path=p, key='sticky')
                    ctx.cur = 'pass-needs-match'
                    ctx.ob(bool(matched) if not partial or matched else False, e, 'True only after a declared digest equalled the computed one', path=p, key='match')
                    ctx.cur = 'verdict-sticky'
                elif v == FALSE:
                    pass
                elif is_k(v):
                    ctx.ob(False, e, 'a verdict is not withdrawn', path=p, key='withdraw')
                else:
                    ctx.ob(None, e, 'verdict set to %s' % show(v))
            for e in problems:
                a = e.arg(1, 'passed')
                ctx.ob(a is None or a == FALSE, e, 'a reported problem is a failure', path=p, key='soft')
            if p.kind == 'x':
                continue
            ctx.cur = 'mismatch-reported'
            nfalse = len(problems) + sum(1 for i, e, v in sets if v == FALSE)
            ctx.ob(nfalse >= len(bad) and (nfalse > 0) == bool(bad), q, 'each digest that does not match is reported, no other', path=p,
                   key='report:%s' % ('missing' if nfalse < len(bad) else 'spurious'))
            ctx.cur = 'match-recorded'
            if matched and not bad:
                ok = any(v == TRUE for i, e, v in sets) or known_verdict(p, evts, s)
                ctx.ob(ok, q, 'a match is recorded unless the verdict is already False', path=p, key='record')


def passed_fld(s):
    return ('fld', fld0(s.checker), 'passed', 0)


def guarded(p, evts, i, s):
    for j in range(i - 1, -1, -1):
        t, e, v = evts[j]
        if t == 'set' and v == TRUE:
            return True
        if t == 'set':
            return False
        if t == 'problem':
            vers = {k[3] for x in list(p.state.lits) + [('n', n) for n in p.state.null] for k in x[1:]
                    if is_fld(k) and k[2] in ('passed', '_passed')}
            for ver in vers:
                if ver != 0 and repr(e.eid) in repr(ver) and any(not_failed(p, ('fld', fld0(s.checker), n), ver) for n in ('passed', '_passed')):
                    return True
            return False
    return any(not_failed(p, ('fld', fld0(s.checker), n), 0) for n in ('passed', '_passed'))


def known_verdict(p, evts, s):
    """the path established that the verdict is False or True already"""
    for k, v in p.state.lits.items():
        if k[0] == 'eq' and v and (FALSE in k[1:] or TRUE in k[1:]) and any(is_fld(x) and x[2] in ('passed', '_passed') for x in k[1:]):
            return True
    for t, n in p.state.null.items():
        if is_fld(t) and t[2] in ('passed', '_passed') and 'N' not in n:
            return True
    return False


def std_alphabet(ctx, e, p):
    """decoding with the standard alphabet skips the characters of the other one"""
    if e.arg(1, 'altchars') is not None and not is_k(e.arg(1, 'altchars'), 'NoneType') or 'validate' in (e.kw or {}):
        return
    v = e.arg(0)
    if any(isinstance(t, tuple) and t[0] == 'm' and t[1] in ('replace', 'translate') for t in subterms(v)):
        return
    out = {}
    for k, val in e.state.lits.items():
        if k[0] == 'cond' and k[1][0] == 'op' and k[1][1] == 'in' and len(k[1][2]) == 2 and is_k(k[1][2][0]):
            out[k[1][2][0][2]] = val
    told = any(out.get(c, out.get(c.encode())) is not None for c in '-_')
    if not told and not out:
        sets = [k for k in e.state.lits if contains(k, v)]
        if not sets and 'rsafe' not in repr(p.events()):
            ctx.ob(None, e, 'the alphabet of a base64 value is not asked for')
        return
    for c in '-_':
        got = out.get(c, out.get(c.encode()))
        ctx.ob(got is False, e, 'the standard base64 alphabet is used only without characters of the url-safe one (%r)' % c, path=p, key='alphabet')


def check_encodings(ctx):
    """base16, base32 and both base64 alphabets are understood"""
    s = slots(ctx)
    ctx.cur = 'encodings'
    seen = set()
    for q, ps in s.read.items():
        for p in ps:
            for e in p.events():
                if e.kind in ('call', 'pure', 'ext') and tail(e.name or '') in ('b64decode', 'standard_b64decode', 'a2b_base64'):
                    std_alphabet(ctx, e, p)
            outs = slot_outcomes(p, s, 'read')
            for k, o in outs.items():
                if o.match is None:
                    continue
                txt = repr(o.match)
                for e in p.events():
                    if e.kind in ('call', 'pure') and e.result is not None and any(x == e.result for x in subterms(o.match)):
                        txt += repr(e.args) + repr(e.kw)
                if 'b16decode' in txt or 'unhexlify' in txt or 'fromhex' in txt:
                    seen.add('base16')
                    if 'b16decode' in txt:
                        ctx.ob(('casefold' in txt and not re.search(r"casefold.{0,30}?False", txt)) or "'upper'" in txt or "('k', 'bool', True)" in txt, q, 'base16 in either case', key='case')
                elif 'urlsafe_b64decode' in txt or 'altchars' in txt or ("b64decode" in txt and "b'-_'" in txt):
                    seen.add('base64url')
                elif 'b64decode' in txt or 'a2b_base64' in txt:
                    seen.add('base64')
                elif 'b32decode' in txt or not any(x in txt for x in ('decode',)):
                    seen.add('base32')
    want = {'base16', 'base32', 'base64', 'base64url'}
    if not seen:
        ctx.ob(None, DVR, 'comparison not recognised')
        return
    for w in sorted(want):
        ctx.ob(w in seen, DVR, 'a matching digest in %s can be recognised' % w, key=w)


def check_writers(ctx):
    ctx.cur = 'verdict-writers'
    s = slots(ctx)
    mods = {'warcio.digestverifyingreader'}
    n = 0
    for f in ctx.prog.funcs.values():
        n += 1
        if f.mod.name in mods:
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in ('passed', '_passed'):
                ctx.ob(False, f.q, 'only the verifying reader decides the verdict', key='w:' + f.q)
    ctx.ob(True, 'warcio', 'no other module writes the verdict (%d functions)' % n)


def check(ctx):
    ctx.rule('problem-sets-verdict', 'problem(): verdict False set on every exit, description kept, ArchiveLoadFailed in raise mode, stderr in log mode; the verdict starts as None')
    ctx.rule('verdict-sticky', 'the verdict is set True only where the path established it is not False; never withdrawn')
    ctx.rule('pass-needs-match', 'the verdict is set True only where the full computed digest equals the declared one')
    ctx.rule('mismatch-reported', 'a compared digest without equality is reported; a matching one is not')
    ctx.rule('match-recorded', 'a matching digest makes the verdict True unless it is False')
    ctx.rule('encodings', 'declared digests in base16, base32, base64 and url-safe base64 can match')
    ctx.rule('verdict-writers', 'no other module writes the verdict')
    for f in (check_checker, check_paths, check_encodings, check_writers):
        ctx.guarded(f)
