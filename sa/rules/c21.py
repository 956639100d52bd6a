"""warcio check: what its exit status depends on, on the abstract paths of the checker."""
from ..core import *
from .util import *
from ..engine import BOUNDARY
from ..interp import Undecided

CK = 'warcio.checker:Checker'
ALF_NAME = 'ArchiveLoadFailed'


def verdict_effects():
    """reading the content of a record changes what its digest checker knows"""
    owner = {}

    def eff(name, recv, args, res, st, eng):
        n = tail(name)
        if n == 'content_stream':
            owner[res] = recv
        elif n in ('read', 'readline', 'readlines', 'copyfileobj'):
            out = []
            for r in [recv] + list(args or []):
                if r is None:
                    continue
                rec = owner.get(core(r))
                if rec is None and is_fld(core(r)) and core(r)[2] == 'raw_stream':
                    rec = core(r)[1]
                if rec is not None:
                    out.append(st.heap(rec, 'digest_checker') or ('fld', rec, 'digest_checker', st.vers.get(rec, 0)))
            return out
        return []
    return eff


def checker_slots(ctx):
    if hasattr(ctx, '_ck'):
        return ctx._ck
    one = CK + '.process_one'
    q = ctx.method(CK, 'process_all')
    has = one in ctx.prog.funcs
    if not has:
        raise Undecided('no process_one to follow')

    def rp(name, recv, excs, eng):
        if tail(name) == 'process_one':
            return ('warcio.exceptions:ArchiveLoadFailed', 'OSError')
        return False
    ps = ctx.run(q, self_cls=CK, boundary=BOUNDARY | {one}, raise_pred=rp)
    attr = set()
    for p in ps:
        if p.kind == 'r':
            # the attribute whose value is returned: known from the paths without stores
            v = core(p.value)
            if is_fld(v) and v[1] == SELF:
                attr.add(v[2])
    if not attr:
        attr = {e.name for p in ps + one_paths(ctx) for e in p.events() if e.kind == 'store' and e.recv == SELF}
    ctx._ck = (q, ps, attr.pop() if len(attr) == 1 else None)
    return ctx._ck


def check_files(ctx):
    q, ps, attr = checker_slots(ctx)
    ctx.cur = 'every-file'
    if attr is None:
        rs = [core(p.value) for p in ps if p.kind == 'r']
        const = [v is None or is_k(v) and not v[2] for v in rs]
        ctx.ob(False if const and all(const) else None, q, 'the exit status is returned', key='returned')
        return
    # starts with success
    for p in ctx.run(CK, construct=True):
        if p.kind == 'x':
            continue
        v = p.state.heap(SELF, attr)
        ctx.ob(v is not None and truthy(p.state, v) is False, CK + '.__init__', 'the exit status begins as success', path=p, key='begin')
    rets = 0
    for p in ps:
        if p.kind != 'x':
            rets += 1
            v = core(p.value)
            cur = p.state.heap(SELF, attr)
            ctx.ob(True if is_fld(v, attr) and v[1] == SELF or v is not None and v == cur else status_like(p.state, v, cur or ('fld', SELF, attr, p.state.vers.get(SELF, 0))), q, 'the exit status is returned', path=p, key='returned')
        seen = set()
        for seg in segments(p.items, seen):
            check_file_segment(ctx, q, p, seg, attr)
    ctx.ob(rets > 0, q, 'the exit status is returned', key='returned')
    # a file that cannot be read ends neither the loop nor the process
    for p in ps:
        if p.kind == 'x':
            last = [e for e in p.events() if e.kind == 'raise']
            ts = exc_types(p.value)
            if ts and any(ALF_NAME in t for t in ts):
                ctx.ob(False, q, 'a file that cannot be parsed does not end the check', path=p, key='ends')


def status_like(st, v, cur):
    """is the value returned zero exactly when the status kept is"""
    if v is None or v == NONE:
        return False
    if v[0] == 'op' and v[1] in ('int', 'bool', 'str', 'not') and len(v[2]) == 1 and v[1] != 'not':
        return True if core(v[2][0]) == core(cur) else status_like(st, core(v[2][0]), cur)
    if v[0] == 'op' and v[1] in ('min', 'max', 'and', 'sub', 'mul', 'mod', 'bitand'):
        return False
    if v[0] in ('lin', 'len') and not contains_pred(v, lambda t: is_fld(t, core(cur)[2]) or t[:1] in (('phi',), ('ev',))):
        return False
    if is_k(v):
        t = truthy(st, cur)
        return t is bool(v[2]) if t is not None else None
    return None


def check_file_segment(ctx, q, p, seg, attr):
    evl = [e for e in seg if isinstance(e, Event)]
    ones = [e for e in evl if e.kind == 'call' and tail(e.name) == 'process_one']
    end = seg[-1] if seg and isinstance(seg[-1], SegEnd) else None
    nx = [e for e in evl if e.kind == 'next' and is_fld(core(e.recv)) and core(e.recv)[2] == 'inputs']
    if nx and end is None and p.kind != 'x':
        ctx.ob(False, nx[0], 'the check goes on to the next input', path=p, key='leaves')
    if nx and end is not None:
        ctx.ob(len(ones) == 1 and core(ones[0].arg(0, 'filename')) == core(nx[0].result), ones[0] if ones else nx[0], 'each input is checked', path=p, key='each')
    for e in evl:
        if e.kind == 'catch':
            after = evl[evl.index(e):]
            ts = exc_types(e.args[0]) if e.args else None
            failed = [o for o in ones if o.raised and evl.index(o) < evl.index(e)]
            if failed and (end is not None or p.kind != 'x'):
                sets = [s for s in after if s.kind == 'store' and s.recv == SELF and s.name == attr]
                st = (end.state if end is not None else p.state)
                ctx.ob(bool(sets) and truthy(sets[-1].state, sets[-1].args[0]) is True, e, 'a file that could not be parsed is reported in the exit status', path=p, key='unparsable')
    for o in ones:
        if o.raised and end is None and p.kind != 'x' and not [e for e in evl if e.kind == 'catch' and evl.index(e) > evl.index(o)]:
            ctx.ob(None, o, 'where did the failure of a file go')


def check_monotone(ctx):
    """once set, the exit status is never taken back"""
    q, ps, attr = checker_slots(ctx)
    if attr is None:
        return
    ctx.cur = 'verdict-stays'
    n = 0
    for fq in sorted(ctx.prog.classes[CK].methods.values()):
        if fq.endswith('.__init__'):
            continue
        done = set()
        for p in one_paths(ctx) if fq.endswith('.process_one') else ps if fq == q else ctx.run(fq, self_cls=CK):
            for seg in segments(p.items, done):
                for e in seg:
                    if isinstance(e, Event) and e.kind == 'store' and e.recv == SELF and e.name == attr:
                        n += 1
                        v = e.args[0]
                        t = truthy(e.state, v)
                        same = core(v) == core(e.state.heap(SELF, attr)) or is_fld(core(v), attr)
                        keepsit = v[0] == 'op' and v[1] in ('or', 'bitor', '|', 'max') or v[0] in ('alt', 'add') 
                        ctx.ob(True if t is True or same else None if keepsit else False if t is False else None, e, 'a failure found is not taken back', path=p, key='taken')
    ctx.ob(n > 0, q, 'failures reach the exit status', key='none')


def one_paths(ctx):
    one = ctx.need(CK + '.process_one')
    if not hasattr(ctx, '_one'):
        ctx._one = ctx.run(one, self_cls=CK, effects=verdict_effects())
    return ctx._one


def made_true(ctx, attr):
    """is the attribute set to something true by the constructor, whatever it is given"""
    vs = [p.state.heap(SELF, attr) for p in ctx.run(CK, construct=True) if p.kind != 'x']
    if not vs or any(v is None for v in vs):
        return None
    if all(is_k(v) and v[2] for v in vs):
        return True
    return False if any(is_k(v) or contains_pred(v, lambda t: t[:1] == ('sym',) and t != SELF) for v in vs) else None


def check_records(ctx):
    q, ps, attr = checker_slots(ctx)
    if attr is None:
        return
    one = CK + '.process_one'
    paths = one_paths(ctx)
    nrec = 0
    done = set()
    for p in paths:
        ctx.cur = 'digests-on'
        for e in p.events():
            if e.kind == 'new' and tail(e.name) == 'ArchiveIterator':
                cd = e.arg(4, 'check_digests')
                t = truthy(e.state, cd) if cd is not None else False
                if t is None and is_fld(core(cd)) and core(cd)[1] == SELF:
                    t = made_true(ctx, core(cd)[2])
                ctx.ob(t, e, 'the records are read with their digests checked', path=p, key='on')
                src = core(e.arg(0, 'fileobj'))
                ctx.ob(src is not None and src != NONE, e, 'from the file', path=p, key='src')
        its = {e.result for e in p.events() if e.kind == 'new' and tail(e.name) == 'ArchiveIterator'}
        for seg in segments(p.items, done):
            end = seg[-1] if seg and isinstance(seg[-1], SegEnd) else None
            nx = [e for e in seg if isinstance(e, Event) and e.kind == 'next' and core(e.recv) in its and not e.raised]
            if not nx:
                continue
            if end is None and p.kind == 'x':
                continue
            nrec += 1
            st = end.state if end is not None else p.state
            # leaving the loop after a record leaves the others unchecked
            ctx.cur = 'every-record'
            if end is None:
                ctx.ob(False, nx[0], 'the check goes on to the next record', path=p, key='leaves')
                continue
            check_record(ctx, one, p, seg, st, nx[0].result, attr)
    ctx.cur = 'every-record'
    ctx.ob(nrec > 0, one, 'the records of a file are checked', key='none')
    ctx.analysed = nrec


def check_record(ctx, q, p, seg, st, rec, attr):
    evl = list(flat(seg))
    cs = [e for e in evl if isinstance(e, Event) and e.kind == 'call' and tail(e.name) == 'content_stream' and core(e.recv) == core(rec) and not e.raised]
    raw = [e for e in evl if isinstance(e, Event) and e.kind == 'call' and tail(e.name) == 'read' and is_fld(core(e.recv), 'raw_stream') and core(core(e.recv)[1]) == core(rec)]
    streams = {core(e.result) for e in cs}
    reads = [e for e in evl if isinstance(e, Event) and e.kind == 'call' and tail(e.name) in ('read', 'readline') and core(e.recv) in streams] + raw
    ctx.cur = 'content-read'
    full = [e for e in reads if (not e.args and not e.kw) or e.args and is_k(core(e.args[0])) and core(e.args[0])[2] in (None, -1)]
    ctx.ob(True if reads else False, cs[0] if cs else q, 'the content of the record is read', path=p, key='read')
    if reads and not full:
        ok = falsy_now(st, {e.result for e in reads})
        ctx.ob(ok, reads[0], 'until nothing is left of it', path=p, key='end')
    # ---- the verdict
    ctx.cur = 'verdict'
    asked = set()
    for k in list(st.lits) + [('x', k) for k in st.null]:
        for t in k[1:]:
            c = core(t) if isinstance(t, tuple) else None
            if is_fld(c, 'passed') and is_fld(core(c[1]), 'digest_checker') and core(core(c[1])[1]) == core(rec):
                asked.add(c)
    stores = [e for e in seg if isinstance(e, Event) and e.kind == 'store' and e.recv == SELF and e.name == attr]
    sets = [e for e in stores if truthy(e.state, e.args[0]) is True]
    vague = [e for e in stores if truthy(e.state, e.args[0]) is None]
    stale = set()
    for e in cs + reads:
        dc = e.state.heap(rec, 'digest_checker') or ('fld', rec, 'digest_checker', e.state.vers.get(rec, 0))
        v = e.state.vers.get(dc, 0)
        if v not in {r.eid for r in reads}:
            stale.add(core(('fld', dc, 'passed', v)))
    fresh = asked - stale
    if asked and not fresh:
        ctx.ob(False, q, 'the verdict on a digest is asked for after its content has been read', path=p, key='early')
        return
    if vague:
        ctx.ob(None, vague[0], 'what the exit status becomes')
        return
    if not asked:
        ctx.ob(bool(sets) and None if sets else False, q, 'the verdict of the digest checker is consulted', path=p, key='consulted')
        return
    can_fail = can_none = can_pass = True
    for t in fresh:
        n = st.nullness(t)
        if 'E' not in n:
            can_fail = False
        if 'N' not in n:
            can_none = False
        if 'T' not in n:
            can_pass = False
        for k, v in st.lits.items():
            if k[0] == 'eq' and t in (core(k[1]), core(k[2])):
                o = k[2] if core(k[1]) == t else k[1]
                if is_k(o):
                    if o[2] is False:
                        if v:
                            can_none = can_pass = False
                        else:
                            can_fail = False
                    elif o[2] is None:
                        if v:
                            can_fail = can_pass = False
                        else:
                            can_none = False
                    elif o[2] is True:
                        if v:
                            can_fail = can_none = False
                        else:
                            can_pass = False
    if not (can_fail or can_none or can_pass):
        return   # no such record
    if can_fail:
        ctx.ob(bool(sets), q, 'a digest that does not match is reported in the exit status', path=p, key='mismatch')
        if sets and (can_pass or can_none):
            ctx.ob(None if can_none and not can_pass and cut_short(st, rec) else False, sets[0], 'only a digest that does not match is', path=p, key='only')
        return
    trunc = cut_short(st, rec)
    if sets:
        ctx.ob(True if can_none and not can_pass and trunc is True else None if trunc is None and asked_limit(st, rec) else False, sets[0], 'only a digest that does not match, or cannot be checked because the record is cut short, is', path=p, key='only')
        return
    if can_pass and not can_none:
        ctx.ob(True, q, 'nothing to report', path=p)
        return
    dig = digest_there(st, rec)
    rev = revisit_known(st, rec)
    if dig is False or rev is True or trunc is False:
        ctx.ob(True, q, 'nothing to report', path=p)
    else:
        ctx.ob(False if trunc == 'some' or not asked_limit(st, rec) else None, q, 'a digest that cannot be checked because the record is cut short is reported', path=p, key='short')


def limit_terms(t, rec):
    """does the term depend on how much of the record is left"""
    if t is None:
        return False
    return contains_pred(t, lambda x: isinstance(x, tuple) and (is_fld(x, 'limit') or x and x[0] == 'op' and x[1] in ('getattr', 'attr', 'hasattr') and any(is_k(a, 'str') and a[2] == 'limit' for a in x[2])))


def contains_pred(t, f):
    if isinstance(t, tuple):
        if f(t):
            return True
        return any(contains_pred(x, f) for x in t)
    return False


def asked_limit(st, rec):
    return any(limit_terms(k, rec) for k in list(st.lits) + list(st.null)) or any(limit_terms(f, rec) for f in st.nums)


def cut_short(st, rec):
    """is the record known to be (not) cut short"""
    for k, v in st.lits.items():
        if limit_terms(k, rec) and k[0] == 'cond' and len(k) > 1 and isinstance(k[1], tuple) and k[1][0] == 'op' and k[1][1] == 'hasattr' and v is False:
            return False
    for k, v in st.lits.items():
        if k[0] in ('le', 'lt') and limit_terms(k, rec):
            a, b = k[1], k[2]
            if limit_terms(b, rec) and is_k(a):        # a < limit, a <= limit
                return v if (k[0] == 'lt' and a[2] == 0 or k[0] == 'le' and a[2] == 1) else None
            if limit_terms(a, rec) and is_k(b):        # limit < b
                return (not v) if (k[0] == 'le' and b[2] == 0 or k[0] == 'lt' and b[2] == 1) else None
    for k, n in st.null.items():
        if limit_terms(k, rec):
            if n == T_:
                return True
            if 'T' not in n:
                return False
    c = [f for f in st.nums if limit_terms(f, rec)]
    r = num_sign(st, c, rec)
    if r is None and c and not [k for k in st.lits if limit_terms(k, rec) and not (k[0] == 'cond' and k[1][:2] == ('op', 'hasattr'))]:
        return 'some'       # the number is known to be above or below some other bound only
    return r


def num_sign(st, facts, rec):
    terms = set()

    def walk(t):
        if isinstance(t, tuple):
            if limit_terms(t, rec) and (is_fld(t, 'limit') or t and t[0] == 'op' and t[1] in ('getattr', 'attr')):
                terms.add(t)
                return
            for x in t:
                walk(x)
    for f in facts:
        walk(f)
    for t in terms:
        if st.prove_le(lin_of(K(1), t)):
            return True
        if st.prove_le(lin_of(t, K(0))):
            return False
    return None


def lin_of(a, b):
    """a - b <= 0 as the number facts write it"""
    return lin_add(a, b, -1)


def digest_there(st, rec):
    vals = []
    for n in ('warc-payload-digest', 'warc-block-digest'):
        v = None
        for t, nn in st.null.items():
            c = core(t)
            if c is not None and c[0] == 'obs' and is_fld(core(c[2]), 'rec_headers') and hdr(c, n):
                v = True if nn == T_ else False if 'T' not in nn else v
        vals.append(v)
    if True in vals:
        return True
    return False if vals == [False, False] else None


def hdr(t, name):
    from .c05 import hdr_get
    return hdr_get(t, name)


def revisit_known(st, rec):
    for k, v in st.lits.items():
        if k[0] == 'eq':
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if is_k(b, 'str') and b[2] == 'revisit':
                    c = core(a)
                    if is_fld(c, 'rec_type') or c is not None and c[0] == 'obs' and hdr(c, 'warc-type'):
                        return v
    return None


def check_command(ctx):
    ctx.cur = 'exit-status'
    q = ctx.need('warcio.cli:checker')
    pa = ctx.method(CK, 'process_all')
    for p in ctx.run(q, boundary=BOUNDARY | {pa, CK + '.__init__'}, raise_pred=lambda *a: False):
        ev = p.events()
        pc = [e for e in ev if e.kind == 'call' and tail(e.name) == 'process_all']
        ex = [e for e in ev if e.kind == 'call' and tail(e.name) in ('exit', '_exit')]
        r = [e for e in ev if e.kind == 'raise']
        ctx.ob(len(pc) == 1, pc[0] if pc else q, 'the inputs are checked', path=p, key='run')
        if not pc:
            continue
        if ex:
            ctx.ob(ex[0].args and core(ex[0].args[0]) == pc[0].result, ex[0], 'the process ends with the status of the check', path=p, key='exit')
        elif p.kind == 'x':
            ctx.ob(None, q, 'how the process ends')
        else:
            # returned through main
            ctx.ob(None if p.value is not None and core(p.value) == pc[0].result else False, q, 'the process ends with the status of the check', path=p, key='exit')


def check(ctx):
    ctx.rule('every-file', 'the exit status begins as success and is returned; each input is processed, also after one that cannot be parsed, which sets it')
    ctx.rule('verdict-stays', 'no store turns a failure back into success')
    ctx.rule('digests-on', 'the files are iterated with digest checking on')
    ctx.rule('every-record', 'each record is checked and the loop goes on to the next')
    ctx.rule('content-read', 'the content of each record is read to its end')
    ctx.rule('verdict', 'the verdict is asked for after that; mismatch, or a digest left unchecked by truncation, sets the exit status, nothing else does')
    ctx.rule('exit-status', 'the process exits with the status')
    for f in (check_files, check_monotone, check_records, check_command):
        ctx.guarded(f)
