"""Abstract interpreter over the syntax tree.

Every feasible abstract path of an entry function is enumerated (helpers are
inlined, loops run to a fixpoint of abstract loop-head states, generators and
context managers are woven into their consumers) and reported as a trace of
events.  Nothing of warcio is imported or executed."""
import ast
from .terms import *
from .state import *
from .loader import Program, Func, AnalysisBroken
from . import builtins_model as bm


class Undecided(Exception):
    pass


class Event(object):
    __slots__ = ('kind', 'name', 'recv', 'args', 'kw', 'bound', 'result', 'node', 'func',
                 'stack', 'state', 'raised', 'target', 'eid', 'recvcls')

    def __init__(self, **k):
        for s in Event.__slots__:
            setattr(self, s, k.get(s))

    def arg(self, i=None, name=None, default=None):
        """argument by parameter name (resolved calls) or position / keyword"""
        if name is not None and self.bound and name in self.bound:
            return self.bound[name]
        if name is not None and self.kw and name in self.kw:
            return self.kw[name]
        if i is not None and self.args is not None and i < len(self.args):
            return self.args[i]
        return default

    def where(self):
        ln = getattr(self.node, 'lineno', 0)
        return '%s:%d in %s' % (self.func.mod.relpath, ln, self.func.q.split(':')[1]) if self.func else '?'

    def show(self):
        s = self.kind + ' '
        if self.recv is not None:
            s += show(self.recv) + '.'
        s += str(self.name)
        if self.args is not None:
            s += '(' + ', '.join(show(a) for a in self.args)
            if self.kw:
                s += ', ' + ', '.join('%s=%s' % (k, show(v)) for k, v in self.kw.items())
            s += ')'
        if self.raised:
            s += ' !raises'
        return s + '  @' + self.where()

    def __repr__(self):
        return self.show()


class Loop(object):
    """abstract loop: heads (states) and the iteration segments between them"""
    def __init__(self, node, func):
        self.node = node
        self.func = func
        self.heads = []
        self.trans = {}      # i -> [(segment items, j)]


class LoopRef(object):
    __slots__ = ('loop', 'entry', 'at')

    def __init__(self, loop, entry, at):
        self.loop, self.entry, self.at = loop, entry, at


class Alloc(object):
    __slots__ = ('obj', 'items')

    def __init__(self, obj, items=None):
        self.obj, self.items = obj, items


class SegEnd(object):
    """state at the end of a loop iteration"""
    __slots__ = ('state',)
    kind = 'segend'
    name = recv = args = kw = result = node = func = raised = target = eid = bound = None

    def __init__(self, state):
        self.state = state

    def arg(self, *a, **k):
        return None

    def where(self):
        return 'end of a loop iteration'


class Frame(object):
    def __init__(self, fid, func, outer, selfterm=None, on_yield=None, cls=None):
        self.fid = fid
        self.func = func
        self.outer = outer      # fid of the lexically enclosing frame
        self.selfterm = selfterm
        self.on_yield = on_yield
        self.cls = cls


class Path(object):
    def __init__(self, kind, value, state):
        self.kind = kind        # 'r' return, 'x' exception
        self.value = value
        self.state = state
        self._items = None

    @property
    def items(self):
        if self._items is None:
            self._items = self.state.events()
        return self._items

    def events(self, loops=True):
        return list(flat(self.items, loops))


def flat(items, loops=True, _seen=None):
    seen = set() if _seen is None else _seen
    for it in items:
        if isinstance(it, Event):
            yield it
        elif isinstance(it, LoopRef) and loops:
            if id(it.loop) in seen:
                continue
            seen.add(id(it.loop))
            for i in sorted(it.loop.trans):
                for seg, j in it.loop.trans[i]:
                    for e in flat(seg, loops, seen):
                        yield e


class Config(object):
    def __init__(self, **k):
        self.types = k.pop('types', {})            # term -> class q
        self.boundary = k.pop('boundary', set())   # function q's kept opaque
        self.inline = k.pop('inline', set())       # removed from the default boundary
        self.inline_pred = k.pop('inline_pred', None)
        self.opaque_classes = k.pop('opaque_classes', set())
        self.max_states = k.pop('max_states', 24000)
        self.max_heads = k.pop('max_heads', 14)
        self.depth = k.pop('depth', 14)
        self.yield_raises = k.pop('yield_raises', False)
        self.known_raises = k.pop('known_raises', False)
        self.all_raises = k.pop('all_raises', False)
        self.raise_pred = k.pop('raise_pred', None)
        self.join = k.pop('join', set())
        self.hazards = k.pop('hazards', None)          # attributes that may be None: also model the exceptions of using None, of failing conversions and short sequences
        self.keeps = k.pop('keeps', {})            # opaque call name -> attributes of its arguments it does not change
        self.nonnull = k.pop('nonnull', set())
        self.effects = k.pop('effects', None)          # fn(name, recv, args, result, st, eng) -> further objects an opaque call may change
        if k:
            raise TypeError(k)


class Engine(object):
    def __init__(self, prog, cfg=None, default_boundary=()):
        self.prog = prog
        self.cfg = cfg or Config()
        self.boundary = (set(default_boundary) | self.cfg.boundary) - self.cfg.inline
        self.frames = []
        self.stack = ()
        self.try_depth = 0
        self.active = []
        self.notes = set()
        self.inlined = set()
        self.nstates = 0
        self.evnull = {}
        self.evtype = {}
        self.const_cache = {}
        self.falsy_classes = {}
        self.n_events = 0
        self.tokens = 0
        State.maybe_falsy = staticmethod(self.maybe_falsy)
        State.nonneg_terms = frozenset()

    # ------------------------------------------------------------------
    def maybe_falsy(self, q):
        r = self.falsy_classes.get(q)
        if r is None:
            r = False
            for n in ('__bool__', '__len__', '__nonzero__'):
                l = self.prog.lookup(q, n)
                if l and l[0] == 'fn':
                    r = True
            self.falsy_classes[q] = r
        return r

    def note(self, msg):
        self.notes.add(msg)

    @property
    def fr(self):
        return self.frames[-1]

    def pos(self, node, tag):
        return '%s@%s:%d:%d' % (tag, self.fr.func.mod.name.split('.')[-1], getattr(node, 'lineno', 0),
                                getattr(node, 'col_offset', 0))

    def eid(self, node, tag):
        return self.stack + (self.pos(node, tag),)

    # ------------------------------------------------------------------ entry
    def run(self, q, args=None, self_cls=None, self_term=None, st=None, selfname='self'):
        f = self.prog.funcs.get(q)
        if f is None:
            raise AnalysisBroken('function %s not found' % q)
        st = st or State()
        args = dict(args or {})
        names = list(f.posargs)
        bound = {}
        selfterm = None
        if f.kind in ('method', 'property', 'setter', 'class') and names:
            selfterm = self_term or sym(selfname)
            if f.kind == 'class':
                selfterm = ('cls', self_cls or f.cls)
            else:
                self.cfg.types.setdefault(selfterm, self_cls or f.cls)
            bound[names[0]] = selfterm
            names = names[1:]
        for n in names + f.kwonly:
            bound[n] = args.get(n, sym(n))
        if f.vararg:
            bound[f.vararg] = args.get(f.vararg, sym('*' + f.vararg))
        if f.kwarg:
            bound[f.kwarg] = args.get(f.kwarg, sym('**' + f.kwarg))
        outs = self.exec_function(f, bound, st, selfterm, (), None, f.node, entry=True)
        paths = [Path('r' if c == 'v' else c, v, s) for s, c, v in outs]
        return paths

    def construct_entry(self, clsq, args=None, st=None, objname='self'):
        """run the constructor on symbolic arguments; -> [(state, obj)]"""
        l = self.prog.lookup(clsq, '__init__')
        o = sym(objname)
        self.cfg.types[o] = clsq
        if not l or l[0] != 'fn':
            return [Path('r', o, st or State())]
        f = l[1]
        ps = self.run(f.q, args, self_cls=clsq, self_term=o, st=st)
        return ps

    # ------------------------------------------------------------------ events
    def emit(self, st, kind, name, recv=None, args=None, kw=None, node=None, bound=None, target=None,
             result=None, raised=None, eid=None, bump=True, recvcls=None):
        self.n_events += 1
        ev = Event(kind=kind, name=name, recv=recv, args=args, kw=kw, bound=bound, node=node,
                   func=self.fr.func if self.frames else None, stack=self.stack, state=st, raised=raised,
                   target=target, result=result, eid=eid, recvcls=recvcls)
        s = st.copy()
        s.trace = (st.trace, ev)
        return s

    def bump(self, st, terms, eid, keeps=None):
        """an opaque call may have changed these objects"""
        if keeps:
            old = {(t, a): st.heap(t, a) or ('fld', t, a, st.vers.get(t, 0)) for t in terms if t is not None for a in keeps}
            s = self.bump(st, terms, eid).copy()
            for (t, a), v in old.items():
                s.store[('h', t, a)] = v
            return s
        todo = [t for t in terms if t is not None]
        hit = set()
        for t in todo:
            if t[0] in ('sym', 'fld', 'ev', 'obj', 'phi', 'old', 'idx', 'add', 'bm', 'clo', 'obs', 'tup', 'lst'):
                hit.add(t)
            if t[0] == 'bm':
                hit.add(t[2])
        if not hit:
            return st
        s = st.copy()
        for t in hit:
            s.vers[t] = eid
        for k in list(s.store):
            if k[0] == 'h' and k[1] in hit and k[2] not in ('@class', '@kind'):
                del s.store[k]
                if k[2] == '@items':
                    s.store[k] = ('ev', eid + ('items',))
            elif k[0] == 'hdr' and k[1] in hit:
                del s.store[k]
        return s

    def opaque(self, st, name, recv, args, kw, node, bound=None, target=None, pure=False, null=None,
               excs=None, kind='call', recvcls=None, rettype=None, nomut=False):
        """an event for a call that is not analysed further"""
        tag = name.split('.')[-1]
        eid = self.eid(node, tag)
        res = ('ev', eid)
        outs = []
        t_all = list(args or []) + list((kw or {}).values())
        if self.cfg.effects is not None:
            t_all += self.cfg.effects(name, recv, args, res, st, self) or []
        sr = self.should_raise(name, recv, excs)
        if isinstance(sr, tuple):
            excs = sr
        if sr:
            s = self.emit(st, kind, name, recv, args, kw, node, bound, target, None, True, eid, recvcls=recvcls)
            if not (pure or nomut):
                s = self.bump(s, [recv] + t_all, eid, self.cfg.keeps.get(tag))
            outs.append((s, 'x', ('exc', tuple(excs) if excs else None, eid)))
        s = self.emit(st, kind, name, recv, args, kw, node, bound, target, res, None, eid, recvcls=recvcls)
        if not (pure or nomut):
            s = self.bump(s, [recv] + t_all, eid, self.cfg.keeps.get(tag))
        # a fresh result: old facts about the same site do not apply
        s = self.forget(s, res)
        if null is not None:
            s.null[res] = null
        if rettype:
            self.evtype[res] = rettype
        outs.append((s, 'v', res))
        return outs

    def should_raise(self, name, recv, excs):
        if self.cfg.raise_pred is not None:
            r = self.cfg.raise_pred(name, recv, excs, self)
            if r is not None:
                return r
        if excs == ():
            return False
        return self.try_depth > 0 or self.cfg.all_raises or (excs and self.cfg.known_raises)

    def hazard(self, st, v, n, exc):
        """use of a value that may be None -> (state in which it is not or None, exception outcomes)"""
        if self.cfg.hazards is None:
            return st, []
        if not (is_k(v) and v[2] is None):
            if not self.nullable(v) or 'N' not in st.nullness(v):
                return st, []
        return st.set_null(v, ET), [self.fails(st, v, n, exc)]

    def fails(self, st, v, n, exc):
        eid = self.eid(n, 'hazard')
        s = self.emit(st, 'hazard', exc, v, [], {}, n, raised=True, eid=eid)
        return (s, 'x', ('exc', (exc,), eid))

    def nullable(self, v):
        if v[0] == 'obs':
            return v[1] == 'get'
        if v[0] == 'fld':
            return v[2] in self.cfg.hazards
        if v[0] == 'sym':
            return 'sym:%s' % v[1] in self.cfg.hazards
        if v[0] == 'op':
            return v[1] in ('re.match', 're.search', 're.fullmatch')
        return v[0] == 'm' and v[1] in ('match', 'search', 'fullmatch')

    def short(self, st, v, size, exact):
        """may the pieces v be fewer than size (or, exact, another number)?"""
        if self.cfg.hazards is None or v[0] != 'm' or v[1] not in ('split', 'rsplit', 'splitlines', 'groups'):
            return False
        l = mk_len(v)
        sep = v[1] in ('split', 'rsplit') and v[3] and v[3][0] != NONE
        lo, hi = (1 if sep else 0), None
        eqs = {k[2]: val for a, val in st.lits.items() if a[0] == 'eq' and l in a[1:] for k in a[1:] if is_k(k, 'int')}
        if sep and len(v[3]) > 1 and is_k(v[3][1], 'int') and v[3][1][2] >= 0:
            hi = v[3][1][2] + 1
        if sep and any(val and a[0] == 'cond' and a[1] == ('op', 'in', (v[3][0], v[2])) for a, val in st.lits.items()):
            lo = 2
        for m in range(0, size + 6):
            val = eqs.get(m)
            if val is True or st.prove_eq(l, K(m)):
                lo, hi = max(lo, m), m
        for m in sorted(range(0, size + 6)):
            if eqs.get(m) is False and m == lo:
                lo += 1
            if st.prove_le(lin_add(K(m), l, -1)):
                lo = max(lo, m)
        if hi is not None:
            for m in range(hi, 0, -1):
                if eqs.get(m) is not False:
                    break
                hi = m - 1
        if exact:
            return not (lo == hi == size)
        return lo < size

    def forget(self, st, t):
        """drop facts mentioning t (in place on a private copy)"""
        s = st.copy()
        for d in (s.null, s.lits):
            for k in list(d):
                if k == t or contains_now(k, t):
                    del d[k]
        s.nums = frozenset(f for f in s.nums if not contains_now(f, t))
        return s

    # ------------------------------------------------------------------ names
    def lookup(self, st, name, node=None):
        fr = self.fr
        fid, func = fr.fid, fr.func
        while True:
            if name in func.locals_:
                v = st.store.get(('l', fid, name))
                if v is not None:
                    return v
                if func is fr.func:
                    return ('op', 'unbound', (K(name),))
            outer = self.outer_of.get(fid)
            if outer is None:
                break
            fid, func = outer
        return self.global_name(func.mod.name, name, st)

    def global_name(self, mn, name, st=None, before=None):
        r = self.prog.module_name(mn, name, before)
        if r is None:
            return ('ext', name)
        if r[0] == 'expr':
            return self.const_expr(mn, r[2], r[3])
        return r

    def const_expr(self, mn, node, line=None, cls=None):
        """term of a module- or class-level constant expression"""
        key = (mn, id(node))
        if key in self.const_cache:
            return self.const_cache[key]
        self.const_cache[key] = ('gbl', mn, ast.unparse(node)[:60])
        t = self._const(mn, node, line, cls)
        self.const_cache[key] = t
        return t

    def _const(self, mn, n, line, cls):
        c = lambda x: self._const(mn, x, line, cls)
        if isinstance(n, ast.Constant):
            return K(n.value)
        if isinstance(n, ast.Name):
            if cls:
                l = self.prog.lookup(cls, n.id)
                if l and l[0] == 'attr' and l[2] is not n:
                    return self._const(self.prog.classes[l[1]].mod.name, l[2], None, l[1])
            r = self.prog.module_name(mn, n.id, line)
            if r is None:
                return ('ext', n.id)
            if r[0] == 'expr':
                return self.const_expr(mn, r[2], r[3])
            return r
        if isinstance(n, ast.Tuple):
            return ('tup', tuple(c(e) for e in n.elts))
        if isinstance(n, ast.List):
            return ('lst', tuple(c(e) for e in n.elts))
        if isinstance(n, ast.Set):
            return ('set', tuple(c(e) for e in n.elts))
        if isinstance(n, ast.Dict):
            if all(k is not None for k in n.keys):
                return ('dct', tuple((c(k), c(v)) for k, v in zip(n.keys, n.values)))
        if isinstance(n, ast.Attribute):
            b = c(n.value)
            if b[0] == 'ext':
                return bm.ext_const(b[1] + '.' + n.attr)
            if b[0] == 'mod':
                return self.global_name(b[1], n.attr)
            if b[0] == 'cls':
                l = self.prog.lookup(b[1], n.attr)
                if l and l[0] == 'attr':
                    return self._const(self.prog.classes[l[1]].mod.name, l[2], None, l[1])
                if l and l[0] == 'fn':
                    return ('fn', l[1].q)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            v = c(n.operand)
            if is_k(v, 'int', 'float'):
                return K(-v[2])
        if isinstance(n, ast.BinOp):
            a, b = c(n.left), c(n.right)
            if is_k(a) and is_k(b):
                v = bm.fold_binop(n.op, a[2], b[2])
                if v is not None:
                    return K(v)
            if isinstance(n.op, ast.Add):
                return mk_add(a, b)
            return ('op', type(n.op).__name__, (a, b))
        if isinstance(n, ast.Call):
            f = c(n.func)
            args = tuple(c(a) for a in n.args)
            if f[0] == 'ext' and f[1] in ('frozenset', 'set', 'tuple', 'list') and len(args) == 1 and args[0][0] in ('tup', 'lst', 'set'):
                return ({'frozenset': 'set', 'set': 'set', 'tuple': 'tup', 'list': 'lst'}[f[1]], args[0][1])
            if f[0] == 'ext' and f[1] == 'dict' and not args and all(k.arg for k in n.keywords):
                return ('dct', tuple((K(k.arg), c(k.value)) for k in n.keywords))
            if isinstance(n.func, ast.Attribute):
                r = c(n.func.value)
                if is_k(r) and all(is_k(a) for a in args):
                    v = bm.fold_method(r[2], n.func.attr, [a[2] for a in args])
                    if v is not None:
                        return v
            return ('op', 'const:' + ast.unparse(n.func), args + tuple(c(k.value) for k in n.keywords))
        if isinstance(n, ast.JoinedStr):
            ps = []
            for v in n.values:
                ps.append(c(v.value) if isinstance(v, ast.FormattedValue) else c(v))
            return mk_cat(ps)
        return ('gbl', mn, ast.unparse(n)[:80])
