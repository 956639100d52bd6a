"""Typestate of the record iterator (record parsed -> drained -> next record parsed) on every abstract path of
its generator, plus a summary of the draining operation it relies on."""
from ..core import *
from .iterslots import *


def check_drain(ctx):
    s = iter_slots(ctx)
    ctx.cur = 'drain-complete'
    q = s.rte
    if not s.drained:
        ctx.ob(False, q, 'no path reads the rest of the current record', key='nodrain')
        return
    for p in s.drained:
        reads = drain_reads(p)
        ctx.cur = 'drain-complete'
        ctx.ob(falsy_now(p.state, {e.result for e in reads}), reads[-1], 'the last read of the record stream returned nothing (end of the record)', path=p)
        for e in reads:
            n = e.arg(0)
            bad = n is not None and is_k(n, 'int') and n[2] == 0
            ctx.ob(not bad, e, 'reads ask for more than 0 bytes', path=p, key='zero')
    ctx.cur = 'drain-skipped'
    for p in s.early:
        rec = ('fld', SELF, s.record, 0)
        norec = s.record is not None and 'T' not in p.state.nullness(rec)
        done = s.done is not None and 'N' not in p.state.nullness(('fld', SELF, s.done, 0)) and \
            ('fld', SELF, s.done, 0) in p.state.null
        ctx.ob(norec or done, q, 'draining is skipped only without a record or when it was drained before', path=p)
    # what follows the record is passed over once
    for p in s.drained:
        if s.done is None:
            break
        mark = ('fld', SELF, s.done, 0)
        if mark in p.state.null:
            ctx.ob('T' not in p.state.nullness(mark), q, 'a record that was drained is not drained again: the lines after it would be lost', path=p, key='twice')
        else:
            called_drained(ctx, s, q)
    # the "already drained" mark is only set after draining
    ctx.cur = 'drain-mark'
    for p in s.drained:
        if s.done is None:
            ctx.ob(None, q, 'no mark found')
            break
        seen = False
        reads = drain_reads(p)
        for it in p.items:
            if isinstance(it, LoopRef):
                # (that the last read of the loop found the end is 'drain-complete')
                seen = seen or any(e in reads for e in flat([it]))
            if isinstance(it, Event):
                if it.kind == 'call' and it in reads:
                    seen = True
                if it.kind == 'store' and it.recv == SELF and it.name == s.done and 'T' in it.state.nullness(it.args[0]):
                    ctx.ob(seen, it, 'the record is marked as drained after it was', path=p)
        ctx.ob(p.state.nullness(p.state.heap(SELF, s.done) or NONE) == T_, q, 'draining marks the record as drained', path=p, key='mark')


def called_drained(ctx, s, q):
    """read_to_end does not look at the mark itself: then everybody who calls it must"""
    if hasattr(s, 'called'):
        return
    s.called = True
    for g in s.gens:
        for p in ctx.run(g, self_cls=IT, max_heads=80):
            for e in p.events():
                if e.kind == 'call' and e.name == 'read_to_end' and core(e.recv) == SELF:
                    m = e.state.heap(SELF, s.done) or fld_now(e.state, s.done)
                    ctx.ob('T' not in e.state.nullness(m), e, 'a record that was drained is not drained again: the lines after it would be lost', path=p, key='twice')


def check_lines(ctx):
    s = iter_slots(ctx)
    for p in s.drained:
        ctx.cur = 'line-kept'
        if s.next is None:
            ctx.ob(False, s.rte, 'the first line of the next record is not kept', key='nokeep')
            return
        rl = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'readline']
        fin = p.state.heap(SELF, s.next)
        if fin is None:
            ctx.ob(False, s.rte, 'a line kept for an earlier record is not replaced', path=p, key='stale')
            continue
        if not rl:
            continue
        last = rl[-1]
        res = {e.result for e in rl}
        if falsy_now(p.state, res):
            ctx.ob('T' not in p.state.nullness(fin), last, 'at the end of the file no line is kept', path=p)
        else:
            ctx.ob(core(fin) in res, last, 'the line that ends the blank lines is kept whole', path=p)
            ctx.ob(content(p.state, core(fin)), last, 'a line of white space only is not kept as the start of a record', path=p, key='white')
    for p in s.drained:
        ctx.cur = 'line-skipped'
        bad, good = [], set()

        def step(x, e):
            prev, okay = x
            if e.kind == 'segend':
                return [(prev, okay or (prev is not None and blank(e.state, prev.result)))]
            if e.kind == 'call' and tail(e.name) == 'readline':
                if prev is not None:
                    if okay or blank(e.state, prev.result):
                        good.add(prev)
                    else:
                        bad.append(prev)
                return [(e, False)]
            if is_report(e):
                return [(prev, True)]
            return [x]
        run_monitor(p.items, [(None, False)], step)
        for e in bad:
            ctx.ob(False, e, 'a line between records is skipped though neither blank nor reported', path=p)
        for e in good:
            ctx.ob(True, e, 'a line between records is skipped only if blank, or reported')
        # a line with content is skipped at most once
        ctx.cur = 'one-bad-line'

        def step(x, e, p=p):
            if is_report(e):
                return [min(x + 1, 2)]
            return [x]
        out = run_monitor(p.items, [0], step)
        ctx.ob(max(out or [0]) <= 1, s.rte, 'at most one non-blank line is dropped (and reported)', path=p)


def is_report(e):
    return e.kind == 'call' and tail(e.name or '') in ('write', 'warning', 'warn', 'error', 'print')


def content(st, line):
    """is the line known to hold more than white space"""
    weak = False
    for k, v in st.null.items():
        if k[0] == 'm' and k[1] in ('strip', 'rstrip', 'lstrip') and core(k[2]) == line and v <= T_:
            if not k[3] or is_k(k[3][0], 'bytes') and set(b' \t\r\n') <= set(k[3][0][2]):
                return True
            weak = True
    for k, v in st.lits.items():
        if not v and k[0] == 'cond' and k[1][0] == 'm' and k[1][1] == 'isspace' and core(k[1][2]) == line:
            return True
    return False if weak else None


def blank(st, line):
    """is the line known to be white space only"""
    def same(t):
        return t == line or t[0] == 'old' and t[2] == line
    for k, v in st.null.items():
        if 'T' not in v and (same(k) or k[0] == 'm' and k[1] in ('strip', 'rstrip', 'lstrip') and same(k[2])):
            return True
    for k, v in st.lits.items():
        if v and k[0] in ('eq', 'cond') and any(same(x) for x in subterms(k)):
            return True
    return False


def check_typestate(ctx):
    s = iter_slots(ctx)
    ctx.cur = 'typestate'
    if not s.gens:
        ctx.ob(None, IT, 'no generator method')
        return
    for q in s.gens:
        ps = ctx.run(q, self_cls=IT, max_heads=80)
        if not any(is_parse(e) for p in ps for e in p.events()):
            continue
        for p in ps:
            bad = []

            def step(x, e):
                drain, done, rec, eof, res = x
                if is_parse(e):
                    if drain == 'P':
                        bad.append((e, 'the next record is parsed while the previous one is not fully read', 'parse-undrained'))
                    if e.raised:
                        return [x]
                    # an end met before this record is not the end
                    return [('P', False, False, False, e.result)]
                if e.kind == 'catch':
                    return [(drain, done, rec, True, res)]
                if e.kind == 'store' and e.recv == SELF:
                    if e.name == s.done:
                        nn = e.state.nullness(e.args[0])
                        return [(drain, 'T' not in nn, rec, eof, res)]
                    if e.name == s.record:
                        return [(drain, done, e.args[0] == res, eof, res)]
                if e.kind == 'call' and e.name == 'read_to_end' and e.recv == SELF:
                    if drain == 'P' and not (done and rec):
                        bad.append((e, 'draining is a no-op: the new record or its not-yet-drained mark is not set', 'drain-noop'))
                    return [('D', done, rec, eof, res)]
                if e.kind == 'yield':
                    if drain == 'P' and not (done and rec):
                        bad.append((e, 'the record is handed out before the iterator can drain it', 'yield-early'))
                    v = e.args[0] if e.args else e.result
                    if res is not None and v != res:
                        bad.append((e, 'the record handed out is not the one just parsed', 'yield-other'))
                    return [x]
                return [x]
            out = run_monitor(p.items, [('D', True, False, False, None)], step)
            for e, m, k in bad:
                ctx.ob(False, e, m, path=p, key=k)
            if not bad:
                ctx.ob(True, q, 'every parse is preceded by draining the previous record (%s path)' % p.kind)
            if p.kind in 'rn':
                ctx.ob(all(x[3] for x in out), q, 'iteration ends only after the end of the input was met', path=p, key='ends-early')
            check_swallow(ctx, p)
            check_members(ctx, p)
        # the line read ahead
        ctx.cur = 'line-passed'
        for p in ps:
            for e in p.events():
                if is_parse(e) and s.next:
                    v = e.arg(1, 'statusline')
                    cur = e.state.heap(SELF, s.next)
                    ver = e.state.vers.get(SELF, 0)
                    fresh = v == cur if cur is not None else (v is not None and v[0] == 'fld' and v[1] == SELF and v[2] == s.next)
                    if fresh and cur is None and e.state.vers:
                        want = fld_now(e.state, s.next)
                        fresh = want is None or v == want
                    ctx.ob(fresh, e, 'the line read ahead is the first line of the next record', path=p)


def check_swallow(ctx, p):
    """only the end of the input is taken as the end of the records"""
    ctx.cur = 'errors-come-out'
    bad = []

    def step(x, e):
        if e.kind == 'catch':
            t = e.args[0] if e.args else None
            names = t[1] if t is not None and t[0] == 'exc' else None
            other = names is None or any('EOFError' not in ctx.prog.exc_ancestors(n) for n in names)
            if x and x[0] == 'raised' and other:
                told = any(val and 'isinstance' in repr(k) and 'EOFError' in repr(k) for k, val in e.state.lits.items())
                return [None if told else ('caught', e)]
            return [None]
        if e.kind in ('call', 'next', 'yield') and e.raised:
            return [('raised', e)]
        if x and x[0] == 'caught' and (e.kind in ('yield', 'segend') or e.kind == 'call' and (is_parse(e) or e.name == 'read_to_end')):
            if any(val and 'isinstance' in repr(k) and 'EOFError' in repr(k) for k, val in e.state.lits.items()):
                return [None]
            bad.append(x[1])
            return [None]
        if e.kind == 'raise':
            return [None]
        return [x]
    out = run_monitor(p.items, [None], step)
    if p.kind in 'rn':
        bad += [x[1] for x in out if x and x[0] == 'caught' and
                not any(val and 'isinstance' in repr(k) and 'EOFError' in repr(k) for k, val in p.state.lits.items())]
    for e in bad:
        ctx.ob(False, e, 'an error that is not the end of the input is taken for it', path=p, key='swallow')
    if not bad:
        ctx.ob(True, p.func if hasattr(p, 'func') else IT, 'only EOFError is taken for the end of the input')
    ctx.cur = 'typestate'


def check_members(ctx, p):
    """a record that follows another in the same member is not handed out"""
    ctx.cur = 'one-record-per-member'
    bad, good = [], []

    def step(x, e):
        rnm, parsed = x
        if e.kind == 'call' and e.name == 'read_next_member':
            st = e.state
            dec = [t for t in st.null if is_fld(t, 'decompressor') and is_fld(t[1])]
            known = any(st.null[t] == T_ for t in dec)
            return [((e if known else None), False)]
        if e.kind == 'call' and e.name == 'read_to_end' and core(e.recv) == SELF:
            return [('drained', False)]
        if rnm is None:
            return [x]
        if rnm == 'drained':
            # no next member was asked for: only right when nothing is compressed
            if is_parse(e) and not parsed:
                dec = [t for t in e.state.null if is_fld(t, 'decompressor') and is_fld(t[1])]
                if not dec or any('T' not in e.state.null[t] for t in dec) or not any(e.state.null[t] == T_ for t in dec):
                    return [(None, False)]
                return [(rnm, not e.raised)]
            if e.kind == 'yield' and parsed:
                bad.append(e)
                return [(None, False)]
            if e.kind == 'raise' and parsed:
                return [(None, False)]
            return [x]
        if 'T' in e.state.nullness(rnm.result) and 'E' in e.state.nullness(rnm.result):
            pass
        elif 'T' in e.state.nullness(rnm.result):
            return [(None, False)]
        if any(is_fld(t, 'decompressor') and is_fld(t[1]) and 'T' not in n and (t not in rnm.state.null or t[3] == e.state.vers.get(t[1], 0) != rnm.state.vers.get(t[1], 0)) for t, n in e.state.null.items()) and \
                not any(x.kind == 'call' and tail(x.name) in ('close', 'close_decompressor') and is_fld(core(x.recv)) for x in p.events()):
            return [(None, False)]      # cannot be: asking for a member that is not there changes nothing (C08)
        if is_parse(e):
            return [(rnm, not e.raised)]
        if e.kind == 'yield' and parsed:
            bad.append(e)
            return [(None, False)]
        if e.kind in ('raise',) and parsed:
            good.append(e)
            return [(None, False)]
        return [x]
    run_monitor(p.items, [(None, False)], step)
    for e in bad:
        # a local whose value the loop analysis gave up on may have told
        lost = any(t[0] == 'phi' and any(isinstance(x, tuple) and x and x[0] == 'l' for x in t) and len(n) < 3 for t, n in e.state.null.items())
        ctx.ob(None if lost else False, e, 'a second record in one gzip member is handed out instead of being reported', path=p, key='same-member')
    for e in good:
        ctx.ob(True, e, 'a second record in one gzip member is reported')
    ctx.cur = 'typestate'


def fld_now(st, attr):
    v = st.vers.get(SELF)
    return ('fld', SELF, attr, v if v is not None else 0)


def check(ctx):
    ctx.rule('drain-complete', 'every drained path of read_to_end reads the record stream until it returns nothing')
    ctx.rule('drain-skipped', 'read_to_end returns early only without a record or with the drained mark set')
    ctx.rule('drain-mark', 'the drained mark is set after the stream is exhausted')
    ctx.rule('line-kept', 'the non-blank line that ends the blank lines becomes the read-ahead line')
    ctx.rule('line-skipped', 'lines between records are dropped only if blank or reported')
    ctx.rule('one-bad-line', 'at most one non-blank line is dropped per record')
    ctx.rule('typestate', 'parse; (set record, clear mark); yield; drain -- in this order on every path; ends only at end of input')
    ctx.rule('errors-come-out', 'no exception other than EOFError is taken for the end of the input')
    ctx.rule('one-record-per-member', 'after a member that has no successor no further record is handed out')
    ctx.rule('line-passed', 'parse receives the current read-ahead line')
    ctx.need(IT)
    ctx.need(PARSE)
    ctx.guarded(check_drain)
    ctx.guarded(check_lines)
    ctx.guarded(check_typestate)
