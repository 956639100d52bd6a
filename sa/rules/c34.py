"""The command line: which arguments each command takes, and where each of them ends up."""
from ..core import *
from .util import *

CLI = 'warcio.cli:'
MAIN = CLI + 'main'
IX = 'warcio.indexer:Indexer'
CK = 'warcio.checker:Checker'
EX = 'warcio.extractor:Extractor'
RC = 'warcio.recompressor:Recompressor'
SELF = sym('self')

# command: {dest: (positional?, option strings, nargs, action, default)}
WANT = {
    'index': {'inputs': (True, (), '*', None, None), 'fields': (False, ('-f', '--fields'), None, None, 'offset,warc-type,warc-target-uri'),
              'output': (False, ('-o', '--output'), None, None, None)},
    'recompress': {'filename': (True, (), None, None, None), 'output': (True, (), None, None, None), 'verbose': (False, ('-v', '--verbose'), None, 'store_true', None)},
    'extract': {'filename': (True, (), None, None, None), 'offset': (True, (), None, None, None),
                'payload': (False, ('--payload',), None, 'store_true', None), 'headers': (False, ('--headers',), None, 'store_true', None)},
    'check': {'inputs': (True, (), '+', None, None), 'verbose': (False, ('-v', '--verbose'), None, 'store_true', None)},
}
ORDER = {'recompress': ['filename', 'output'], 'extract': ['filename', 'offset']}


def const(t):
    t = core(t) if t is not None else None
    return t[2] if t is not None and t[0] == 'k' else Ellipsis


class Command(object):
    def __init__(self):
        self.args = {}
        self.order = []
        self.func = None
        self.groups = []
        self.where = None


def read_parser(ctx, p):
    """commands of one path of main: {name: Command}, and what is unknown"""
    cmds, owner, top, subs = {}, {}, None, None
    required = None
    odd = []
    for e in p.events():
        if e.raised:
            continue
        t = tail(e.name or '')
        r = core(e.recv) if e.recv is not None else None
        res = core(e.result) if isinstance(e.result, tuple) else None
        if e.kind in ('call', 'new') and t == 'ArgumentParser':
            top = top or res
            if 'parents' in (e.kw or {}) or len(e.args) > 1:
                odd.append(e)
        elif e.kind == 'call' and t == 'add_subparsers':
            subs = res
            if const(e.kw.get('required')) is True:
                required = True
            dest = e.kw.get('dest')
        elif e.kind == 'store' and r == subs and subs is not None and e.name == 'required':
            required = const(e.args[0])
        elif e.kind == 'call' and t == 'add_parser' and r == subs:
            n = const(e.arg(0, 'name'))
            if not isinstance(n, str) or set(e.kw or {}) & {'parents', 'aliases'}:
                odd.append(e)
                continue
            c = cmds[n] = Command()
            c.where = e
            owner[res] = (c, None)
        elif e.kind == 'call' and t in ('add_mutually_exclusive_group', 'add_argument_group') and r in owner:
            c = owner[r][0]
            g = [] if t.startswith('add_mut') else None
            if g is not None:
                c.groups.append(g)
            owner[res] = (c, g)
            if const(e.kw.get('required')) is True:
                odd.append(e)
        elif e.kind == 'call' and t == 'add_argument' and r in owner:
            c, g = owner[r]
            names = [const(a) for a in e.args]
            if not names or not all(isinstance(n, str) for n in names):
                odd.append(e)
                continue
            pos = not names[0].startswith('-')
            long_ = [n for n in names if n.startswith('--')]
            dest = const(e.kw.get('dest')) if 'dest' in e.kw else (names[0] if pos else (long_ or names)[0].lstrip('-').replace('-', '_'))
            ty = e.kw.get('type')
            c.args[dest] = (pos, tuple(names) if not pos else (), const(e.kw['nargs']) if 'nargs' in e.kw else None,
                            const(e.kw['action']) if 'action' in e.kw else None, const(e.kw['default']) if 'default' in e.kw else None,
                            e, ty if ty is None or not show(ty).endswith('str') else None, set(e.kw) - {'help', 'metavar', 'dest', 'nargs', 'action', 'default', 'type'})
            c.order.append(dest)
            if g is not None:
                g.append(dest)
        elif e.kind == 'call' and t == 'set_defaults' and r in owner:
            c = owner[r][0]
            for k, v in e.kw.items():
                v = core(v)
                if v[0] == 'fn':
                    c.func = (k, v[1], e)
                elif k in c.args or k in {d for w in WANT.values() for d in w}:
                    odd.append(e)
    return cmds, top, required, odd


def check_args(ctx):
    ctx.cur = 'arguments'
    if MAIN not in ctx.prog.funcs:
        raise AnalysisBroken('warcio.cli.main is gone')
    handlers = {}
    n = 0
    for p in ctx.run(MAIN, boundary=frozenset(q for q in ctx.prog.funcs if not q.startswith(CLI))):
        if p.kind == 'x':
            continue
        n += 1
        cmds, top, required, odd = read_parser(ctx, p)
        for e in odd:
            ctx.ob(None, e, 'part of the parser that is not understood')
        ctx.ob(required is True if required is not Ellipsis else None, MAIN, 'a command has to be given', path=p, key='required')
        for name, want in WANT.items():
            c = cmds.get(name)
            if c is None:
                ctx.ob(None if odd else False, MAIN, 'there is a command %s' % name, path=p, key='command:' + name)
                continue
            for dest, (pos, opts, nargs, action, dflt) in want.items():
                a = c.args.get(dest)
                if a is None:
                    ctx.ob(None if odd else False, c.where, '%s takes %s' % (name, dest), path=p, key='takes:%s:%s' % (name, dest))
                    continue
                k = '%s:%s' % (name, dest)
                ctx.ob(a[0] == pos and set(opts) <= set(a[1]), a[5], '%s: %s is given as documented' % (name, dest), path=p, key='how:' + k)
                ctx.ob(None if a[2] is Ellipsis else a[2] == nargs, a[5], '%s: how often %s is given; got %s' % (name, dest, a[2]), path=p, key='nargs:' + k)
                ctx.ob(None if a[3] is Ellipsis else a[3] == action or action is None and a[3] == 'store', a[5], '%s: what %s does; got %s' % (name, dest, a[3]), path=p, key='action:' + k)
                same = a[4] == dflt or action == 'store_true' and a[4] is False or nargs == '*' and (a[4] is Ellipsis or a[4] is None)
                ctx.ob(None if a[4] is Ellipsis and not same else same, a[5], '%s: default of %s; got %s' % (name, dest, a[4]), path=p, key='default:' + k)
                ctx.ob(True if a[6] is None or dest == 'offset' else None, a[5], '%s: %s is taken as it is' % (name, dest), path=p, key='type:' + k)
                ctx.ob(None if a[7] else True, a[5], '%s: %s has no other limits' % (name, dest))
            for dest, a in c.args.items():
                if dest not in want and a[0]:
                    ctx.ob(False if a[2] not in ('*', '?') else None, a[5], '%s takes nothing else' % name, path=p, key='more:' + name)
            order = [d for d in c.order if d in want and want[d][0]]
            if name in ORDER and set(order) == set(ORDER[name]):
                ctx.ob(order == ORDER[name], c.where, '%s: the order of the arguments' % name, path=p, key='order:' + name)
            if name == 'extract':
                ctx.ob(any({'payload', 'headers'} <= set(g) for g in c.groups), c.where, 'payload and headers exclude each other', path=p, key='exclusive')
            else:
                ctx.ob(not any(len(set(g) & set(want)) > 1 for g in c.groups), c.where, '%s: nothing excludes anything' % name, path=p, key='exclusive:' + name)
            if c.func:
                handlers.setdefault(name, set()).add(c.func[:2])
            else:
                ctx.ob(None, c.where, 'what %s runs' % name)
        # the arguments are parsed, and the function of the command is called with them
        ctx.cur = 'runs'
        parsed = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'parse_args' and not e.raised]
        known = [e for e in p.events() if e.kind == 'call' and tail(e.name) == 'parse_known_args']
        ctx.ob(not known, MAIN, 'what is not understood is an error', path=p, key='known')
        if len(parsed) != 1:
            ctx.ob(None if known else False, MAIN, 'the arguments are parsed', path=p, key='parsed')
        else:
            a = parsed[0].arg(0, 'args')
            f = ctx.prog.funcs[MAIN]
            if f.posargs:
                ctx.ob(a is not None and core(a) == sym(f.posargs[0]), parsed[0], 'the arguments given are parsed', path=p, key='given')
            ns = core(parsed[0].result)
            attrs = {x[0] for v in handlers.values() for x in v}
            calls = [e for e in p.events() if e.kind == 'call' and (core(e.recv) == ns if e.recv is not None else False) and e.name in attrs or
                     e.kind == 'call' and e.recv is not None and is_fld(core(e.recv)) and core(e.recv)[1] == ns]
            if calls:
                ctx.ob(len(calls) == 1 and [core(x) for x in calls[0].args] == [ns], calls[0], 'the command is run once, with its arguments', path=p, key='run')
            else:
                ctx.ob(None if attrs == set() or any(ns in subterms(x) for e in p.events() for x in e.args if isinstance(x, tuple)) else False, MAIN, 'the command is run', path=p, key='run')
        ctx.cur = 'arguments'
    ctx.ob(n > 0, MAIN, 'commands can be run', key='any')
    for name in WANT:
        hs = {q for _, q in handlers.get(name, ())}
        for q in sorted(hs):
            ctx.guarded(lambda c, name=name, q=q: check_handler(c, name, q))
        if len(hs) > 1:
            ctx.ob(None, MAIN, 'what %s runs' % name)


CLASS = {'index': (IX, {'fields': 'fields', 'inputs': 'inputs', 'output': 'output'}, 'process_all', {}),
         'check': (CK, {}, 'process_all', {}),
         'extract': (EX, {'filename': 'filename', 'offset': 'offset'}, 'extract', {'payload_only': 'payload', 'headers_only': 'headers'}),
         'recompress': (RC, {'filename': 'filename', 'output': 'output', 'verbose': 'verbose'}, 'recompress', {})}


def bound(ctx, e, q, off=1):
    f = ctx.prog.funcs[q]
    b = {}
    for i, a in enumerate(e.args):
        if i + off < len(f.posargs):
            b[f.posargs[i + off]] = core(a)
    for k, v in (e.kw or {}).items():
        b[k] = core(v)
    return b


def check_handler(ctx, name, q):
    ctx.cur = 'passed'
    cls, cargs, meth, margs = CLASS[name]
    f = ctx.prog.funcs[q]
    cmd = sym(f.posargs[0])
    n = 0
    for p in ctx.run(q, boundary=frozenset(x for x in ctx.prog.funcs if not x.startswith(CLI))):
        evs = p.events()
        news = [e for e in evs if e.kind == 'new' and e.name == cls and not e.raised]
        others = [e for e in evs if e.kind == 'new' and e.name in (IX, CK, EX, RC) and e.name != cls]
        for e in others:
            ctx.ob(False, e, '%s runs %s' % (name, cls), path=p, key='class')
        done = [e for e in evs if e.kind == 'call' and tail(e.name) == meth and news and e.recv is not None and core(e.recv) == core(news[-1].result)]
        exits = [e for e in evs if e.kind in ('call', 'raise') and (tail(e.name) == 'exit' or 'SystemExit' in str(e.args))]
        if p.kind == 'x' and not exits:
            continue
        n += 1
        if len(news) != 1 or len(done) != 1:
            ctx.ob(False if not done else None, q, '%s makes one %s and runs it' % (name, cls), path=p, key='once')
            continue
        b = bound(ctx, news[0], ctx.method(cls, '__init__'))
        for par, dest in cargs.items():
            v = b.get(par)
            want = ('fld', cmd, dest)
            ok = v is not None and is_fld(v, dest) and core(v[1]) == cmd
            if name == 'index' and par == 'inputs':
                nul = p.state.nullness(('fld', cmd, 'inputs', 0))
                if ok:
                    ctx.ob('T' == ''.join(sorted(nul)) or (None if nul != frozenset('TEN') else False), news[0], 'without inputs the standard input is read', path=p, key='stdin')
                    continue
                if 'T' not in nul and v is not None:
                    one = v[0] in ('tup', 'lst') and [core(x) for x in v[1]] == [K('-')] or \
                        v[0] == 'obj' and [core(x) for x in (p.state.heap(v, '@items') or ('', ()))[1]] == [K('-')]
                    ctx.ob(one, news[0], 'without inputs the standard input is read; got %s' % show(v), path=p, key='stdin')
                    continue
            if v is None and par == 'verbose':
                ok = False
            ctx.ob(True if ok else False if v is None or is_fld(v) or is_k(v) or v == cmd or v[0] in ('tup', 'lst') and cmd not in subterms(v) else None, news[0], '%s: %s is what was given; got %s' % (name, par, show(v) if v else 'nothing'), path=p, key='%s:%s' % (name, par))
        if name == 'check':
            v = list(b.values())
            ctx.ob(bool(v) and v[0] == cmd or None, news[0], 'check gets its arguments', path=p, key='check')
            # the exit status
            ctx.ob(len(exits) == 1 and bool(exits[0].args) and core(exits[0].args[0]) == core(done[0].result), exits[0] if exits else q, 'the exit status is that of the check', path=p, key='status')
        elif exits:
            ctx.ob(None, exits[0], '%s ends normally' % name)
        m = bound(ctx, done[0], ctx.method(cls, meth))
        for par, dest in margs.items():
            v = m.get(par)
            ok = v is not None and is_fld(v, dest) and core(v[1]) == cmd
            ctx.ob(True if ok else False if v is None or is_fld(v) or is_k(v) else None, done[0], '%s: %s is what was given; got %s' % (name, par, show(v) if v else 'nothing'), path=p, key='%s:%s' % (name, par))
    ctx.ob(n > 0, q, '%s runs' % name, key='any:' + name)


def check_kept(ctx):
    """what the constructors keep is what they were given"""
    ctx.cur = 'kept'
    # Checker(cmd): inputs and verbose
    q = ctx.method(CK, '__init__')
    cmd = sym(ctx.prog.funcs[q].posargs[1])
    for p in ctx.run(q, self_cls=CK):
        if p.kind == 'x':
            continue
        vals = {k[2]: core(v) for k, v in p.state.store.items() if k[0] == 'h' and k[1] == SELF and isinstance(v, tuple)}
        for d in ('inputs', 'verbose'):
            ctx.ob(any(is_fld(v, d) and core(v[1]) == cmd for v in vals.values()), q, 'check keeps its %s' % d, path=p, key=d)
        ex = vals.get('exit_value')
        ctx.ob(True if ex == K(0) else None if ex is None else False, q, 'check starts well', path=p, key='zero')
    for cls, names in ((EX, ('filename', 'offset')), (RC, ('filename', 'output', 'verbose'))):
        q = ctx.method(cls, '__init__')
        for p in ctx.run(q, self_cls=cls):
            if p.kind == 'x':
                continue
            vals = [core(v) for k, v in p.state.store.items() if k[0] == 'h' and k[1] == SELF and isinstance(v, tuple)]
            for d in names:
                got = sym(d) in vals
                conv = any(sym(d) in subterms(v) for v in vals)
                ctx.ob(got or (None if conv else False), q, '%s is kept' % d, path=p, key='%s:%s' % (cls, d))
    # Indexer: fields, inputs, output
    q = ctx.method(IX, '__init__')
    F = sym('fields')
    for p in ctx.run(q, self_cls=IX):
        if p.kind == 'x':
            continue
        vals = {k[2]: core(v) for k, v in p.state.store.items() if k[0] == 'h' and k[1] == SELF and isinstance(v, tuple)}
        for d in ('inputs', 'output', 'verify_http'):
            ctx.ob(sym(d) in vals.values() or (None if any(sym(d) in subterms(v) for v in vals.values()) else False), q, 'index keeps its %s' % d, path=p, key='ix:' + d)
        text = None
        for k, v in p.state.lits.items():
            if 'isinstance' in str(k) and F in subterms(k):
                text = v
        for d, v in vals.items():
            if F in subterms(v) and d == 'fields':
                if v == F:
                    ctx.ob(text is False or (None if text is None and any(F in subterms(k) for k in list(p.state.lits) + list(p.state.null)) else False), q, 'a text of fields is split at commas', path=p, key='split')
                else:
                    sp = [x for x in subterms(v) if x[0] == 'm' and x[1] == 'split' and core(x[2]) == F]
                    ctx.ob(bool(sp) and [core(a) for a in sp[0][3]] == [K(',')] or (False if sp else None), q, 'a text of fields is split at commas; got %s' % show(v), path=p, key='split')
        ctx.ob('fields' in vals or None, q, 'fields kept')


def check(ctx):
    ctx.rule('arguments', 'each command takes exactly the documented arguments and options, with their defaults')
    ctx.rule('runs', 'the arguments are parsed and the function of the command is called with them')
    ctx.rule('passed', 'each argument reaches the parameter it is meant for')
    ctx.rule('kept', 'the constructors keep what they were given')
    ctx.guarded(check_args)
    ctx.guarded(check_kept)
