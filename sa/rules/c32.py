"""Independence: no function changes what outlives the call and is shared (globals, classes, default arguments), and none
changes the mappings a caller passes."""
import ast
from ..core import *
from .util import *

MUT = ('append', 'extend', 'update', 'setdefault', 'pop', 'popitem', 'add', 'insert', 'remove', 'clear', 'sort', 'reverse',
       'discard', 'appendleft', 'popleft', 'write', 'writelines', 'move_to_end', 'subtract', 'feed', 'truncate',
       '__setitem__', '__delitem__', '__setattr__', 'move_to_end', 'setlimit', 'put', 'put_nowait')
DICTMUT = ('update', 'setdefault', 'pop', 'popitem', 'clear', '__setitem__', '__delitem__', 'move_to_end', 'append', 'extend', 'insert', 'remove', 'sort', 'reverse')
SELF = sym('self')
KEEPLESS = {'warcio.recordloader:ArcWarcRecordLoader', 'warcio.recordloader:ARCHeadersParser', 'warcio.recordloader:ARC2WARCHeadersParser',
            'warcio.statusandheaders:StatusAndHeadersParser', 'warcio.recordbuilder:RecordBuilder', 'warcio.warcwriter:BaseWARCWriter',
            'warcio.warcwriter:WARCWriter'}


def at_import(prog):
    """functions that only run while their module is imported"""
    top, other = set(), set()
    for m in prog.modules.values():
        def main_guard(s):
            return isinstance(s, ast.If) and any(isinstance(x, ast.Name) and x.id == '__name__' for x in ast.walk(s.test))

        def go(n, inside):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                inside = True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and not inside:
                top.add((m.name, n.func.id))
                for x in n.args:
                    go(x, inside)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                other.add(n.id)
            if isinstance(n, ast.Attribute):
                other.add(n.attr)
            if isinstance(n, ast.alias):
                other.add(n.name)
            for c in ast.iter_child_nodes(n):
                go(c, inside)
        for s in m.tree.body:
            go(s, main_guard(s))
    return {'%s:%s' % (m, n) for m, n in top if n not in other}


def mutable_expr(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        return n in ('list', 'dict', 'set', 'bytearray', 'OrderedDict', 'defaultdict', 'Counter', 'deque', 'BytesIO', 'StringIO', 'StatusAndHeaders', 'copy')
    return False


def defaults(f):
    a = f.node.args
    out = {}
    pos = list(getattr(a, 'posonlyargs', [])) + a.args
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        out[p.arg] = d
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[p.arg] = d
    return out


def shared(ctx, t):
    """what lasting thing t is, or None"""
    t = core(t)
    if t is None:
        return None
    if t[0] in ('dct', 'lst', 'tup', 'set', 'fset'):
        return 'a constant of a module or class'
    if t[0] in ('cls', 'mod', 'fn'):
        return show(t)
    if t[0] == 'op' and t[1] == 'type' or is_fld(t, '__class__'):
        return 'the class'
    if t[0] == 'op' and str(t[1]).startswith('const:'):
        return None if 'threading.local' in t[1] else t[1][6:] + '()'
    if t[0] == 'ev' and 'globals@' in show(t):
        return 'the globals'
    if t[0] == 'ext':
        return show(t)
    return None


def small(f):
    if isinstance(f.node, ast.Lambda):
        return True
    return len(f.node.body) <= 3 and not any(isinstance(n, (ast.For, ast.While, ast.Yield, ast.Try)) for n in ast.walk(f.node)) or f.outer is not None


def changes(e):
    if e.kind in ('setitem', 'delitem', 'append', 'store', 'del', 'delattr'):
        return True
    if e.recv is not None and core(e.recv)[0] == 'ext':
        return False
    return e.kind in ('call', 'pure') and e.recv is not None and tail(e.name) in MUT


def events(p):
    seen = set()
    for seg in segments(p.items):
        for e in seg:
            if isinstance(e, Event) and id(e) not in seen:
                seen.add(id(e))
                yield e


def check_shared(ctx):
    prog = ctx.prog
    imp = at_import(prog)
    helpers = {f.q for f in prog.funcs.values() if small(f)}
    slots = {}       # (class, attribute) -> where a lasting object was put in it
    touched = {}     # (class, attribute) -> events that change it
    passed, params = [], set()
    for f in sorted(prog.funcs.values(), key=lambda f: f.q):
        if f.outer is not None or f.q in imp:
            continue

        def one(c, f=f):
            ctx.cur = 'global'
            for g in sorted(f.globals_):
                ctx.ob(not stores_global(f, g), f.q, 'no function assigns the module\'s variable %s' % g, key='global:' + g)
            dfl = {n: d for n, d in defaults(f).items() if mutable_expr(d)}
            n = 0
            for p in ctx.run(f.q, self_cls=f.cls, boundary=frozenset(set(prog.funcs) - helpers - {f.q}), max_heads=16):
                for e in events(p):
                    n += 1
                    if e.kind == 'store' and e.recv is not None and core(e.recv) != SELF and shared(ctx, e.recv):
                        ctx.cur = 'class'
                        ctx.ob(False, e, 'changes %s.%s, which others share' % (shared(ctx, e.recv), e.name), path=p, key='store:' + str(e.name))
                        continue
                    if e.kind == 'call' and e.name in ('setattr', 'delattr') and e.args:
                        w = shared(ctx, e.args[0])
                        if w:
                            ctx.ob(False, e, 'changes %s, which others share' % w, path=p, key='setattr')
                    if e.kind == 'store' and core(e.recv) == SELF and f.name != '__init__' and f.cls in KEEPLESS:
                        ctx.cur = 'stateless'
                        ctx.ob(False, e, 'keeps self.%s for the records to come' % e.name, path=p, key='keeps:' + str(e.name))
                        continue
                    if e.kind == 'store' and core(e.recv) == SELF and e.args:
                        v = core(e.args[0])
                        ctx.cur = 'default'
                        if v[0] in ('dct', 'lst', 'set') or v[0] == 'op' and str(v[1]).startswith('const:') and shared(ctx, v):
                            slots.setdefault((f.cls, e.name), (e, p, shared(ctx, v)))
                        if v[0] == 'sym' and v[1] in dfl:
                            slots.setdefault((f.cls, e.name), (e, p, 'the default of %s' % v[1]))
                        continue
                    if e.target is not None and isinstance(e.bound, dict):
                        for a, v in e.bound.items():
                            v = core(v) if isinstance(v, tuple) else None
                            if v and (v[0] in ('dct', 'lst', 'set') and v[1] or v[0] == 'op' and str(v[1]).startswith('const:')) and shared(ctx, v):
                                passed.append((getattr(e.target, 'q', e.target), a, e, p, shared(ctx, v)))
                    if not changes(e):
                        continue
                    if core(e.recv) and core(e.recv)[0] == 'sym' and core(e.recv)[1] in f.posargs:
                        params.add((f.q, core(e.recv)[1]))
                    r = core(e.recv)
                    w = shared(ctx, r)
                    ctx.cur = 'global'
                    ctx.ob(not w, e, 'changes %s, which lasts and is shared' % w, path=p, key='%s:%s' % (e.kind, e.name))
                    if r and r[0] == 'sym' and r[1] in dfl and r[1] in f.posargs:
                        ctx.cur = 'default'
                        ctx.ob(False, e, 'changes the default of %s, which all calls share' % r[1], path=p, key='default:' + r[1])
                    if self_fld(r) and f.name != '__init__' and f.cls in KEEPLESS and tail(e.name) not in ('write', 'feed', 'truncate'):
                        ctx.cur = 'stateless'
                        ctx.ob(False, e, 'changes self.%s for the records to come' % r[2], path=p, key='keeps:' + r[2])
                    if self_fld(r):
                        touched.setdefault((f.cls, r[2]), (e, p))
                if p.kind == 'r' and p.value and core(p.value)[0] == 'sym' and core(p.value)[1] in dfl:
                    ctx.cur = 'default'
                    ctx.ob(None, f.q, 'gives away the default of %s' % core(p.value)[1], key='gives')
            ctx.cur = 'global'
            ctx.ob(True, f.q, 'changes nothing lasting; %d events' % n)
            ctx.cur = 'class'
            ctx.ob(True, f.q, 'changes no class')
            if f.cls in KEEPLESS and f.name != '__init__':
                ctx.cur = 'stateless'
                ctx.ob(True, f.q, 'keeps nothing')
        ctx.guarded(one)
    for q, a, e, p, w in passed:
        ctx.ob((q, a) not in params, e, 'passes %s to %s, which changes it' % (w, q), path=p, key='passed:' + a)
    ctx.cur = 'default'
    for (cls, a), (e, p, w) in sorted(slots.items(), key=lambda x: str(x[0])):
        hit = [k for k in touched if k[1] == a and related(prog, k[0], cls)]
        ctx.ob(not hit, e, 'self.%s is %s, shared by all objects, and is changed' % (a, w), path=p, key='slot:' + a)
    # a list of the class, extended through an object
    ctx.cur = 'class'
    for f in sorted(prog.funcs.values(), key=lambda f: f.q):
        if not f.cls or f.outer is not None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name) and n.target.value.id == 'self':
                a = class_attr(prog, f.cls, n.target.attr)
                if a is not None:
                    ctx.ob(not mutable_expr(a) or owns(prog, f.cls, n.target.attr), f.q, 'self.%s += ... changes the list of the class' % n.target.attr, key='aug:' + n.target.attr)


def stores_global(f, g):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id == g and isinstance(n.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f.node and n.name == g:
            return True
    return False


def mro(prog, c):
    out, todo = [], [c]
    while todo:
        c = todo.pop(0)
        if c in prog.classes and c not in out:
            out.append(c)
            todo += [b[1] for b in prog.classes[c].bases if b[0] == 'cls']
    return out


def related(prog, a, b):
    return a in mro(prog, b) or b in mro(prog, a)


def class_attr(prog, c, a):
    for k in mro(prog, c):
        if a in prog.classes[k].attrs:
            return prog.classes[k].attrs[a]
    return None


def owns(prog, c, a):
    """is the attribute assigned in a constructor"""
    for k in mro(prog, c):
        q = k + '.__init__'
        if q in prog.funcs:
            for n in ast.walk(prog.funcs[q].node):
                if isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Store):
                    return True
    return False


RB = 'warcio.recordbuilder:RecordBuilder'
CALLER = [(RB, 'create_warc_record', ('warc_headers_dict',)), (RB, 'create_revisit_record', ('warc_headers_dict',)),
          (RB, 'create_warcinfo_record', ('info',)),
          ('warcio.statusandheaders:StatusAndHeaders', '__init__', ('headers',)),
          ('warcio.indexer:Indexer', '__init__', ('fields', 'inputs')),
          ('warcio.warcwriter:WARCWriter', 'write_record', ('params',)),
          ('warcio.warcwriter:WARCWriter', 'write_request_response_pair', ('params',))]


def check_caller(ctx):
    helpers = {f.q for f in ctx.prog.funcs.values() if small(f)}
    for cls, m, names in CALLER:
        def one(c, cls=cls, m=m, names=names):
            ctx.cur = 'caller'
            q = ctx.method(cls, m)
            f = ctx.prog.funcs[q]
            for nm in names:
                if nm not in f.posargs:
                    ctx.ob(None, q, 'parameter %s' % nm)
                    continue
                t = sym(nm)
                open_ = {g.q for g in ctx.prog.funcs.values() if g.cls == RB and g.name != 'ensure_digest' or g.name in ('headers_to_str_headers',)} if cls == RB or m == '__init__' else set()
                for p in ctx.run(q, self_cls=cls, boundary=frozenset(set(ctx.prog.funcs) - open_ - helpers - {q}), max_heads=16):
                    for e in events(p):
                        r = core(e.recv) if e.recv is not None else None
                        if r == t and (e.kind in ('setitem', 'delitem', 'append') or e.kind in ('call', 'pure') and tail(e.name) in DICTMUT):
                            ctx.ob(False, e, '%s of the caller is not changed: %s' % (nm, e.name), path=p, key='mut:' + nm)
                        if e.kind == 'store' and e.args and core(e.args[0]) == t and m != '__init__':
                            ctx.ob(False, e, '%s of the caller is not kept' % nm, path=p, key='kept:' + nm)
                        if e.kind == 'new' and m != '__init__' and tail(e.name) == 'StatusAndHeaders':
                            ctx.ob(all(core(a) != t for a in e.args), e, '%s is copied' % nm, path=p, key='kept:' + nm)
                ctx.ob(True, q, '%s is only read' % nm)
        ctx.guarded(one)


def check(ctx):
    ctx.rule('global', 'no function changes a variable or object of a module at run time')
    ctx.rule('class', 'no function changes a class')
    ctx.rule('default', 'default arguments and constants are not changed, nor the attributes they are put in')
    ctx.rule('stateless', 'parsers, loaders, builders and writers keep nothing from one record to the next')
    ctx.rule('caller', 'mappings and lists of the caller are only read')
    ctx.guarded(check_shared)
    check_caller(ctx)
