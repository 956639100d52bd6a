"""warcio index: one line per record, each field from its source, on every abstract path of the indexer."""
from ..core import *
from .util import *
from ..interp import Undecided
from ..engine import BOUNDARY
from .c05 import hdr_get

IX = 'warcio.indexer:Indexer'


def opt(ctx, *names):
    return {IX + '.' + n for n in names if IX + '.' + n in ctx.prog.funcs}


def flag(e, pos, name, default):
    v = e.arg(pos, name)
    return default if v is None else truthy(e.state, v)


def check_inputs(ctx):
    ctx.cur = 'inputs'
    q = ctx.method(IX, 'process_all')
    b = opt(ctx, 'process_one')
    if not b:
        raise Undecided('no process_one')
    done = set()
    n = 0
    for p in ctx.run(q, self_cls=IX, boundary=BOUNDARY | b, raise_pred=lambda *a: False):
        if p.kind == 'x':
            continue
        evl = [e for e in flat(p.items) if isinstance(e, Event)]
        outs = [e for e in evl if e.kind == 'call' and tail(e.name) in ('fsspec_open', 'open_or_default', 'open') and e.args and is_fld(core(e.args[0]), 'output')]
        ctx.ob(len(outs) == 1, outs[-1] if outs else q, 'one output for all inputs', path=p, key='output')
        if len(outs) != 1:
            continue
        m = outs[0].arg(1, 'mod')
        ctx.ob(is_k(m, 'str') and 'w' in m[2] if m is not None and is_k(m) else None, outs[0], 'the output is written', path=p, key='mode')
        for seg in segments(p.items, done):
            sl = [e for e in seg if isinstance(e, Event)]
            nx = [e for e in sl if e.kind == 'next' and is_fld(core(e.recv), 'inputs')]
            if not nx:
                continue
            n += 1
            end = seg[-1] if isinstance(seg[-1], SegEnd) else None
            if end is None:
                ctx.ob(False, nx[0], 'the next input follows', path=p, key='leaves')
                continue
            ones = [e for e in sl if e.kind == 'call' and tail(e.name) == 'process_one']
            ins = [e for e in sl if e.kind == 'call' and tail(e.name) in ('fsspec_open', 'open_or_default', 'open')]
            ok = len(ones) == 1 and len(ins) == 1
            ctx.ob(ok, ones[0] if ones else nx[0], 'each input is indexed once', path=p, key='once')
            if ok:
                o, i = ones[0], ins[0]
                ctx.ob(i.args and core(i.args[0]) == core(nx[0].result), i, 'the input is opened', path=p, key='file')
                ctx.ob(core(o.arg(0, 'input_')) == i.result and core(o.arg(1, 'output')) == outs[0].result and core(o.arg(2, 'filename')) == core(nx[0].result), o, 'it is read, and the output written', path=p, key='args')
    ctx.ob(n > 0, q, 'the inputs are indexed', key='none')


def check_lines(ctx):
    q = ctx.need(IX + '.process_one')
    b = opt(ctx, 'get_field')
    if not b:
        raise Undecided('no get_field')
    done = set()
    n = 0
    IN, OUT, FN = sym('input_'), sym('output'), sym('filename')
    for p in ctx.run(q, self_cls=IX, boundary=BOUNDARY | b, raise_pred=lambda *a: False):
        if p.kind == 'x':
            continue
        evl = [e for e in flat(p.items) if isinstance(e, Event)]
        ctx.cur = 'iterator'
        its = [e for e in evl if e.kind == 'new' and tail(e.name) == 'ArchiveIterator']
        if len({e.eid for e in its}) != 1:
            ctx.ob(False if not its else None, q, 'the records of the input are read', path=p, key='its')
            continue
        it = its[0]
        ctx.ob(core(it.arg(0, 'fileobj')) == IN, it, 'of this input', path=p, key='input')
        v = flag(it, 3, 'arc2warc', False)
        ctx.ob(False if v is None and varies(it.arg(3, 'arc2warc'), ctx.slots(IX)[0]) else v, it, 'ARC records have WARC headers', path=p, key='arc')
        plain_iterator(ctx, it, p)
        v = it.arg(1, 'no_record_parse')
        rp = truthy(it.state, ('fld', SELF, 'record_parse', 0))
        if rp is None and v is not None and truthy(it.state, v) is None:
            ctx.ob(False if is_fld(core(v), 'record_parse') else None, it, 'http headers are parsed when a field needs them', path=p, key='parse')
        elif rp is False:
            ctx.ob(True, it, 'http headers are not needed', path=p)
        else:
            t = False if v is None else truthy(it.state, v)
            ctx.ob(True if t is False else False if t is True else None, it, 'http headers are parsed when a field needs them', path=p, key='parse')
        v = it.arg(2, 'verify_http')
        vh = truthy(it.state, ('fld', SELF, 'verify_http', 0))
        t = False if v is None else truthy(it.state, v)
        if v is None or is_k(v) or t is not None and vh is None:
            ctx.ob(None if vh is not None and t == vh else False, it, 'http headers are verified as the indexer was told', path=p, key='verify')
        else:
            ctx.ob(True if is_fld(core(v), 'verify_http') and core(v)[1] == SELF or t is vh and t is not None else None, it, 'http headers are verified as the indexer was told', path=p, key='verify')
        # nothing is taken from the iterator but by the loop that writes the lines
        src = {it.result} | {e.result for e in evl if e.kind == 'call' and tail(e.name) in ('__iter__', 'iter') and core(e.recv) == it.result}
        loops = set()
        for seg in segments(p.items, set()):
            if isinstance(seg[-1], SegEnd):
                loops |= {e.eid for e in flat(seg) if isinstance(e, Event) and e.kind == 'next' and core(e.recv) in src}
        for e in evl:
            if e.kind == 'next' and core(e.recv) in src and e.eid not in loops and loops:
                ctx.ob(False, e, 'every record taken gets its line', path=p, key='taken')
        ctx.cur = 'one-line'
        for seg in segments(p.items, done):
            sl = [e for e in seg if isinstance(e, Event)]
            nx = [e for e in sl if e.kind == 'next' and core(e.recv) in src]
            end = seg[-1] if seg and isinstance(seg[-1], SegEnd) else None
            if nx:
                n += 1
                if end is None:
                    ctx.ob(False, nx[0], 'the next record follows', path=p, key='leaves')
                    continue
                ws = [e for e in flat(seg) if isinstance(e, Event) and e.kind == 'call' and tail(e.name) == 'write' and core(e.recv) == OUT]
                if len(ws) != 1:
                    ctx.ob(False if not ws else None if is_pieces(ws) else False, ws[1] if ws else nx[0], 'one line for each record', path=p, key='line')
                    continue
                line_of(ctx, ws[0], p)
                ix = dumped(ws[0].args[0])
                check_fields(ctx, nx[0], seg, ix, p, it.result, FN)
    ctx.cur = 'one-line'
    ctx.ob(n > 0, q, 'the records are indexed', key='none')


def is_pieces(ws):
    return len(ws) == 2 and is_k(core(ws[1].args[0]), 'str') and ws[1].args[0][2] == '\n'


def dumped(t):
    for x in subterms(t):
        if x[0] == 'op' and tail(str(x[1])) == 'dumps' and x[2]:
            return core(x[2][0])
        if x[0] == 'ev' and 'dumps' in str(x[1]):
            return x
    return None


def line_of(ctx, e, p):
    t = e.args[0]
    d = dumped(t)
    if d is None:
        ctx.ob(None, e, 'what is written for a record')
        return
    for x in subterms(t):
        if x[0] == 'op' and tail(str(x[1])) == 'dumps':
            for k, what in (('sort_keys', 'the fields are in the order requested'), ('indent', 'a line for every record')):
                kw = [a for a in x[2][1:] if a[0] != 'k' and k in repr(a)]
                if kw:
                    ctx.ob(any(is_k(y) and not y[2] for y in kw[0] if isinstance(y, tuple)) or False, e, what, path=p, key=k)
    parts = t[1] if t[0] in ('cat', 'fmt', 'add') else (t,)
    last = parts[-1]
    ctx.ob(is_k(last, 'str') and last[2].endswith('\n') and len([x for x in parts if not is_k(x)]) == 1 and (len(parts) == 2 and last[2] == '\n'), e, 'its fields as json and the end of the line', path=p, key='json')


def check_fields(ctx, nx, seg, ix, p, it, FN):
    """the inner loop: every field, its value under its name unless there is none"""
    ctx.cur = 'fields'
    seen = False
    for s2 in segments(seg, set()):
        sl = [e for e in s2 if isinstance(e, Event)]
        for e in sl:
            if e.kind == 'next' and core(e.recv)[0] == 'op' and tail(str(core(e.recv)[1])) in ('sorted', 'reversed', 'set', 'frozenset') and core(e.recv)[2] and is_fld(core(core(e.recv)[2][0]), 'fields'):
                ctx.ob(False, e, 'the fields are looked up in the order asked for', path=p, key='order')
        fx = [e for e in sl if e.kind == 'next' and is_fld(core(e.recv), 'fields')]
        if not fx:
            continue
        seen = True
        end = s2[-1] if isinstance(s2[-1], SegEnd) else None
        if end is None or s2 is seg:
            ctx.ob(False, fx[0], 'the next field follows', path=p, key='leaves')
            continue
        st = end.state
        gf = [e for e in sl if e.kind == 'call' and tail(e.name) == 'get_field']
        ok = len(gf) == 1 and core(gf[0].arg(0, 'record')) == core(nx.result) and core(gf[0].arg(1, 'name')) == core(fx[0].result) and core(gf[0].arg(2, 'it')) == it and core(gf[0].arg(3, 'filename')) == FN
        ctx.ob(ok, gf[0] if gf else fx[0], 'each field is looked up in its record', path=p, key='lookup')
        if not ok:
            continue
        sets = [e for e in sl if e.kind == 'setitem']
        nn = is_none(st, gf[0].result)
        if nn is True:
            ctx.ob(not sets, sets[0] if sets else gf[0], 'a field without value is left out', path=p, key='none')
        elif nn is False:
            good = len(sets) == 1 and core(sets[0].args[1]) == core(gf[0].result)
            ctx.ob(good, sets[0] if sets else gf[0], 'a value, also an empty one, is entered', path=p, key='value')
            if good and ix is not None and ix[0] != 'ev':
                ctx.ob(True if core(sets[0].recv) == ix or core(sets[0].recv)[0] in ('op', 'obj') else None, sets[0], 'into the line of its record', path=p, key='into')
                k = core(sets[0].args[0])
                ctx.ob(True if k == core(fx[0].result) or contains(k, core(fx[0].result)) else False, sets[0], 'under its name', path=p, key='name')
        else:
            ctx.ob(False if truthy(st, gf[0].result) is not None or sets else False, gf[0], 'a value, also an empty one, is entered', path=p, key='value')
    if not seen:
        for e in flat(seg):
            if isinstance(e, Event) and e.kind in ('next', 'stop') and is_fld(core(e.recv), 'fields'):
                seen = True
    ctx.ob(True if seen else None, nx, 'the fields are looked up', path=p)


def check_sources(ctx):
    ctx.cur = 'sources'
    q = ctx.need(IX + '.get_field')
    REC, IT_, FN = sym('record'), sym('it'), sym('filename')
    HH = ('fld', REC, 'http_headers', 0)
    f = ctx.prog.funcs[q]
    if f.posargs[1:5] != ['record', 'name', 'it', 'filename']:
        raise Undecided('arguments of get_field')

    def num(t, what, evl):
        t = core(t)
        r = {core(e.result) for e in evl if e.kind == 'call' and tail(e.name) == what and core(e.recv) == IT_}
        return t is not None and (t in r or t[0] == 'op' and t[1] == 'str' and core(t[2][0]) in r or t[0] in ('fmt', 'cat') and len(t[1]) == 1 and core(t[1][0]) in r)

    for name in ('offset', 'length', 'filename', 'http:status', 'http:content-type', 'http:a:b', 'http:X-Other', 'warc-type', 'WARC-Target-URI', 'x-custom', 'httpfoo', 'status'):
        for p in ctx.run(q, args={'name': K(name)}, self_cls=IX, raise_pred=lambda *a: False):
            if p.kind == 'x':
                continue
            st = p.state
            v = core(p.value) if p.value is not None else NONE
            evl = p.events()
            hh = truthy(st, HH)
            msg = 'field %s' % name
            if name in ('offset', 'length'):
                ctx.ob(num(v, 'get_record_' + name, evl), q, msg + ' is the %s of the record' % name, path=p, key=name)
            elif name == 'filename':
                ctx.ob(base_name(v, FN), q, msg + ' is the base name of the input', path=p, key=name)
            elif name == 'http:status':
                typed = set()
                for a in ('response', 'revisit'):
                    e1 = eq_known(st, ('fld', REC, 'rec_type', 0), K(a))
                    typed.add(e1)
                if v == NONE:
                    plain = all(k[0] == 'eq' and (is_k(k[1]) or is_k(k[2])) for k in st.lits if any(contains(t, ('fld', REC, 'rec_type', 0)) for t in k[1:] if isinstance(t, tuple)))
                    ctx.ob(True if hh is False or typed == {False} else False if plain else None, q, msg + ' is there for responses with http headers', path=p, key=name)
                else:
                    r = {core(e.result) for e in evl if e.kind == 'call' and tail(e.name) == 'get_statuscode' and is_fld(core(e.recv), 'http_headers')}
                    ctx.ob(v in r if hh is not False else False, q, msg + ' is the status code', path=p, key=name)
                    ctx.ob(True if True in typed else None if None in typed and asked_about_type(st, REC) else False, q, msg + ' is for responses', path=p, key=name + ':type')
            elif name.startswith('http:'):
                if v == NONE:
                    ctx.ob(hh is False, q, msg + ' is looked up in the http headers', path=p, key='http')
                else:
                    ok = v[0] == 'obs' and is_fld(core(v[2]), 'http_headers') and hdr_get(v, name[5:].lower())
                    ctx.ob(ok if hh is not False else False, q, msg + ' is looked up in the http headers', path=p, key='http')
            else:
                ok = v[0] == 'obs' and is_fld(core(v[2]), 'rec_headers') and hdr_get(v, name.lower())
                ctx.ob(ok, q, msg + ' is looked up in the record headers', path=p, key='warc')


def base_name(v, FN):
    if v[0] == 'op' and tail(str(v[1])) == 'basename':
        a = core(v[2][0])
        if a == FN:
            return True
        return False if contains(a, FN) and (a[0] in ('m', 'slice', 'idx', 'cat') or a[0] == 'op' and tail(str(a[1])) not in ('fspath', 'str', 'normpath', 'abspath')) else None
    if any(isinstance(t, tuple) and t and t[0] == 'op' and tail(str(t[1])) == 'splitext' for t in subterms(v)):
        return False
    return None if v[0] in ('op', 'idx', 'ev') else False


def asked_about_type(st, REC):
    return any(contains(t, ('fld', REC, 'rec_type', 0)) for k in st.lits for t in k[1:] if isinstance(t, tuple))


def check_ctor(ctx):
    """http headers are parsed if a field needs them"""
    ctx.cur = 'iterator'
    for fields, want in (('offset,warc-type', False), ('offset,http:status', True), ('http:content-type', True), ('warc-type,http:x,offset', True)):
        for p in ctx.run(IX, {'fields': K(fields)}, construct=True, raise_pred=lambda *a: False):
            if p.kind == 'x':
                continue
            v = p.state.heap(SELF, 'record_parse')
            if v is None:
                return
            t = truthy(p.state, v)
            ctx.ob(True if t is want or not want else False if t is False else None, IX + '.__init__', 'http headers are parsed when a field (%s) needs them' % fields, path=p, key='needs')


    given = ('offset', 'WARC-Type', 'http:X', 'x y')
    for p in ctx.run(IX, {'fields': K(','.join(given))}, construct=True, raise_pred=lambda *a: False):
        v = p.state.heap(SELF, 'fields')
        if p.kind != 'x' and v is not None and v[0] in ('lst', 'tup') and all(is_k(x, 'str') for x in v[1]):
            ctx.ob(tuple(x[2] for x in v[1]) == given, IX + '.__init__', 'the fields are those named, in their order', path=p, key='fields')


def check_command(ctx):
    ctx.cur = 'command'
    q = ctx.need('warcio.cli:indexer')
    m = ctx.method(IX, 'process_all')
    IN = ('fld', sym('cmd'), 'inputs', 0)
    if ctx.prog.funcs[q].posargs[:1] != ['cmd']:
        raise Undecided('cli.indexer(cmd)')
    for p in ctx.run(q, boundary=BOUNDARY | {m, IX + '.__init__'}, raise_pred=lambda *a: False):
        if p.kind == 'x':
            continue
        ev = p.events()
        n = [e for e in ev if e.kind == 'new' and e.name == IX]
        c = [e for e in ev if e.kind == 'call' and tail(e.name) == 'process_all']
        ctx.ob(len(n) == 1 and len(c) == 1, c[0] if c else q, 'the inputs are indexed', path=p, key='run')
        if len(n) != 1:
            continue
        for pos, a in ((0, 'fields'), (2, 'output')):
            v = n[0].arg(pos, a)
            ctx.ob(v is not None and core(v) == ('fld', sym('cmd'), a, 0), n[0], '%s is passed on' % a, path=p, key=a)
        v = core(n[0].arg(1, 'inputs') or NONE)
        t = truthy(p.state, IN)
        if v == IN:
            ctx.ob(t is True, n[0], 'without input standard input is read', path=p, key='stdin')
        elif v[0] in ('tup', 'lst'):
            ctx.ob(t is False and tuple(v[1]) == (K('-'),), n[0], 'the inputs named are indexed', path=p, key='inputs')
        else:
            ctx.ob(False if v[0] == 'op' and contains(v, IN) and tail(str(v[1])) not in ('list', 'tuple') else True if v[0] == 'op' and core(v[2][0]) == IN and t is True else None, n[0], 'the inputs named are indexed, as they are', path=p, key='inputs')


def check(ctx):
    ctx.rule('command', 'the command line passes fields, output and inputs on, standard input without any')
    ctx.rule('inputs', 'each input is opened and indexed once, into one output')
    ctx.rule('iterator', 'the records of the input are iterated, ARC ones with WARC headers, http headers parsed when needed')
    ctx.rule('one-line', 'one json line per record, none skipped')
    ctx.rule('fields', 'each field is looked up; a value that is not None is entered under its name')
    ctx.rule('sources', 'offset, length, file name, status, http and record headers come from where they belong')
    for f in (check_inputs, check_lines, check_sources, check_ctor, check_command):
        ctx.guarded(f)
